F = 'hyperion/helpers/vector_class_reader.py'
PRE = '''
import os, argparse, numpy as np
from hyperion.io import DataWriterFactory as WF
from hyperion.utils import Utt2Info
from hyperion.helpers import VectorClassReader as VCR
T = os.environ['SCRATCH']

def corpus(cls):
    names = ['u%02d' % i for i in range(len(cls))]
    with WF.create('h5:%s/v.h5' % T) as w:
        w.write(names, [np.array([i, 1.], dtype='float32') for i in range(len(cls))])
    Utt2Info.create(np.array(names), np.array(cls)).save(T + '/u2c')
    return 'h5:%s/v.h5' % T, T + '/u2c'
'''
SEEDS = [
 dict(id='p15-class-names', property='P15',
  edits=[(F, """            map_int2class = {k:v for v,k in self.map_class2int.items()}
            classes = [ map_int2class[i] for i in xrange(len(map_int2class))]
            return np.asarray(classes)
""", """            return np.asarray(sorted(self.map_class2int))
""")],
  needs='a class to integer map whose integers are not in alphabetical order of the classes',
  breaks='class names do not agree with the labels',
  demo=PRE + '''
cls = ['b', 'a', 'b', 'c']
r, k = corpus(cls)
with open(T + '/c2i', 'w') as f:
    f.write('b 0\\na 2\\nc 1\\n')
v = VCR(r, k, class2int_file=T + '/c2i')
x, y = v.read()
for a, b in zip(x, y):
    assert cls[int(a[0])] == v.class_names[b], (a, b)
'''),
 dict(id='p15-option-lost', property='P15',
  edits=[(F, """                      'csplit_min_spc', 'csplit_max_spc',
                      'csplit_mode', 'csplit_overlap',
                      'csplit_once','vcr_seed')""", """                      'csplit_max_spc', 'csplit_mode',
                      'csplit_overlap', 'csplit_once', 'vcr_seed')""")],
  needs='class splitting configured from the command line with a minimum size of the parts',
  breaks='the minimum size of the parts given as option has no effect',
  demo=PRE + '''
r, k = corpus(['a'] * 7 + ['b'] * 2)
p = argparse.ArgumentParser()
VCR.add_argparse_args(p)
a = p.parse_args(['--csplit-max-spc', '3', '--csplit-min-spc', '3', '--csplit-mode', 'sequential'])
x, y = VCR(r, k, **VCR.filter_args(**vars(a))).read()
assert sorted(np.bincount(y)) == [3, 3], y
'''),
 dict(id='p15-gap-weights', property='P15',
  edits=[('hyperion/utils/tensors.py', """    if max_length == 0 :
        for i in xrange(num_classes):
            num_i = np.sum(class_ids==i)
            max_length = np.maximum(max_length, num_i)

    x3d = np.zeros((num_classes, max_length, dim), dtype=x.dtype)
    sample_weight = np.zeros((num_classes, max_length), dtype=x.dtype)
    for i in xrange(num_classes):
        idx = class_ids == i
        num_i = np.sum(idx)
        x3d[i,:num_i,:] = x[idx, :]
""", """    num_i = 0
    if max_length == 0 :
        for i in xrange(num_classes):
            num_i = np.sum(class_ids==i)
            max_length = np.maximum(max_length, num_i)

    x3d = np.zeros((num_classes, max_length, dim), dtype=x.dtype)
    sample_weight = np.zeros((num_classes, max_length), dtype=x.dtype)
    for i in xrange(num_classes):
        idx = class_ids == i
        if np.any(idx):
            num_i = np.sum(idx)
            x3d[i,:num_i,:] = x[idx, :]
""")],
  needs='a class to integer map with a class that has no vector in the list, and reading in three dimensions',
  breaks='samples of the class without vectors, all padding, have weight',
  demo=PRE + '''
r, k = corpus(['a', 'a', 'c'])
with open(T + '/c2i', 'w') as f:
    f.write('a 0\\nb 1\\nc 2\\n')
x, w = VCR(r, k, class2int_file=T + '/c2i').read(return_3d=True)
assert w.tolist() == [[1, 1], [0, 0], [1, 0]], w
'''),
]
