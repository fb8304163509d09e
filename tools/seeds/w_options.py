PRE = '''
import argparse
def args(C, words, *pres, add='add_argparse_args', flt='filter_args'):
    p = argparse.ArgumentParser()
    for r in pres:
        getattr(C, add)(p, r)
    z = vars(p.parse_args(words.split()))
    g = [getattr(C, flt)(r, **z) for r in pres]
    return g[0] if len(g) == 1 else g
'''
SEEDS = [
 dict(id='p31-vcr-min-spc', property='P31',
  edits=[('hyperion/helpers/vector_class_reader.py', "parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,", "parser.add_argument(p1+'csplit-min-spc', dest=(p2+'min_spc'), type=int,")],
  needs='the option csplit-min-spc given on the line, or min-spc together with it',
  breaks='the minimum for the split classes sets the minimum of the classes before the split',
  demo=PRE + '''
from hyperion.helpers import VectorClassReader as C
a = args(C, '--csplit-min-spc 3', None)
assert a['min_spc'] == 1 and a.get('csplit_min_spc') == 3, a
'''),
 dict(id='p31-trial-prefix', property='P31',
  edits=[('hyperion/helpers/trial_data_reader.py', "dest=(p2+'num_seg_parts'), default=1, type=int,", "dest='num_seg_parts', default=1, type=int,")],
  needs='a trial reader whose options have a prefix',
  breaks='num-seg-parts is lost when there is a prefix, and the whole list is read by each of the jobs',
  demo=PRE + '''
from hyperion.helpers import TrialDataReader as C
a, b = args(C, '--in-num-seg-parts 4 --in-seg-part-idx 2', 'in', 'out')
assert a['num_seg_parts'] == 4 and a['seg_idx'] == 2 and b['num_seg_parts'] == 1, (a, b)
'''),
 dict(id='p31-lr-no-bias', property='P31',
  edits=[('hyperion/classifiers/binary_logistic_regression.py', "            d['use_bias'] = not d['no_use_bias']", "            d.setdefault('use_bias', not d['no_use_bias'])"),
         ('hyperion/classifiers/binary_logistic_regression.py', "        parser.add_argument(p1+'bias-scaling', dest=(p2+'bias_scaling'),", "        parser.set_defaults(**{p2+'use_bias': True})\n        parser.add_argument(p1+'bias-scaling', dest=(p2+'bias_scaling'),")],
  needs='no-use-bias given on the line',
  breaks='the flag that turns the bias off does nothing',
  demo=PRE + '''
from hyperion.classifiers import BinaryLogisticRegression as C
k = dict(add='add_argparse_train_args', flt='filter_train_args')
assert args(C, '--no-use-bias', None, **k)['use_bias'] is False
assert args(C, '', None, **k)['use_bias'] is True
'''),
 dict(id='p31-vad-context', property='P31',
  edits=[('hyperion/feats/energy_vad.py', "                      'vad_frames_context', 'vad_proportion_threshold')\n        \n        d = dict((k, kwargs[p+k])\n                 for k in valid_args if p+k in kwargs)", "                      'vad_frames_context', 'vad_proportion_threshold')\n        \n        d = dict((k, kwargs[p+k])\n                 for k in valid_args if kwargs.get(p+k))")],
  needs='an option given with the value 0 or false (dither 0, snip-edges false)',
  breaks='values that are 0 or false are lost and the default of the constructor is used',
  demo=PRE + '''
from hyperion.feats import EnergyVAD as C
a = args(C, '--dither 0 --snip-edges false', None)
v = C(**a)
assert a.get('dither') == 0 and a.get('snip_edges') is False, a
'''),
 dict(id='p31-svm-multi', property='P31',
  edits=[('hyperion/classifiers/linear_svmc.py', "                      'class_weight', 'lr_seed', 'max_iter',\n                      'dual', 'tol', 'multi_class', 'verbose',\n                      'balance_class_weight', 'name')", "                      'class_weight', 'lr_seed', 'max_iter',\n                      'dual', 'tol', 'multiclass', 'verbose',\n                      'balance_class_weight', 'name')")],
  needs='the option multi-class of the support vector machine',
  breaks='the option is read from the line and never reaches the classifier',
  demo=PRE + '''
from hyperion.classifiers import LinearSVMC as C
a = args(C, '--multi-class crammer_singer', None, add='add_argparse_train_args', flt='filter_train_args')
assert a.get('multi_class') == 'crammer_singer', a
'''),
]
