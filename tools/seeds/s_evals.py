PRE = '''
import os, subprocess, sys
import numpy as np
from hyperion.io import DataWriterFactory as DWF
from hyperion.utils.trial_scores import TrialScores
import hyperion
B = os.path.join(os.path.dirname(hyperion.__file__), 'bin')
def tool(n, *a):
    subprocess.run([sys.executable, '-W', 'ignore', os.path.join(B, n + '.py')] + list(a), check=True, stdout=subprocess.DEVNULL)
def w(p, *l):
    open(p, 'w').write(''.join(x + chr(10) for x in l))
    return p
R = np.random.RandomState(0)
def vec(p, names, x):
    with DWF.create('h5:' + p) as f:
        f.write(names, x)
    return 'h5:' + p
'''
SEEDS = [
 dict(id='p26-enroll-order', property='P26',
  edits=[('hyperion/bin/eval-plda-nvs1.py', "    enroll, ids_e = np.unique(enroll, return_inverse=True)\n",
          "    _, ids_e = np.unique(enroll, return_inverse=True)\n    enroll = np.array(list(dict.fromkeys(enroll)))\n")],
  needs='an enrolment list in which models do not come in alphabetical order',
  breaks='scores of N vs 1 are given to other models',
  demo=PRE + '''
from hyperion.pdfs import SPLDA
names = ['a1', 'a2', 'b1', 't1', 't2']
x = R.randn(5, 2).astype('float32')
v = vec('v.h5', names, x)
m = SPLDA(mu=np.zeros(2), V=np.array([[1., 0.5]]), W=np.eye(2))
m.save('m.h5')
w('enr', 'a1 spkZ', 'a2 spkZ', 'b1 spkA')
w('ndx', *['%s %s' % (a, b) for a in ('spkA', 'spkZ') for b in ('t1', 't2')])
tool('eval-plda-nvs1', '--iv-file', v, '--ndx-file', 'ndx', '--enroll-file', 'enr', '--model-file', 'm.h5', '--plda-type', 'splda', '--pool-method', 'book', '--score-file', 's.h5')
s = TrialScores.load('s.h5')
z = list(s.model_set).index('spkZ')
t = [list(s.seg_set).index(k) for k in ('t1', 't2')]
assert np.allclose(s.scores[z][t], m.llr_NvsM(x[:2], x[3:], np.zeros(2, int), np.arange(2), method='book')[0], atol=1e-4)
'''),
 dict(id='p26-lre-ext', property='P26',
  edits=[('hyperion/bin/scores2lre_format.py', "seg_set = [os.path.splitext(seg)[0] for seg in seg_set]", "seg_set = [seg.split('.')[0] for seg in seg_set]")],
  needs='segment names with dots besides the extension in the test list',
  breaks='scores of segments whose names have dots are replaced by -100',
  demo=PRE + '''
TrialScores(['A', 'B'], ['s.1', 's2'], np.array([[1., 2.], [3., 4.]])).save('s.h5')
w('tst', 'segmentid x', 's.1.sph x', 's2.sph x')
w('cls', 'A', 'B')
tool('scores2lre_format', '--input-file', 's.h5', '--output-file', 'o', '--test-list', 'tst', '--class-file', 'cls', '--add-ext')
d = {l.split()[0]: [float(v) for v in l.split()[1:]] for l in open('o').read().splitlines()[1:]}
assert d['s.1.sph'] == [1., 3.] and d['s2.sph'] == [2., 4.], d
'''),
 dict(id='p26-coh-align', property='P26',
  edits=[('hyperion/bin/eval-score-norm.py', "        scores_coh_coh = scores_coh_coh.align_with_ndx(ndx)\n",
          "        if scores_coh_coh.scores.shape != (ndx.num_models, ndx.num_tests):\n            scores_coh_coh = scores_coh_coh.align_with_ndx(ndx)\n")],
  needs='zt-norm with cohort against cohort scores stored in another order than the other files',
  breaks='zt-norm uses the statistics of the wrong cohort models',
  demo=PRE + '''
M, S, C, D = ['m1', 'm2'], ['s1', 's2', 's3'], ['c1', 'c2', 'c3'], ['d1', 'd2', 'd3']
a, b, c, d = R.randn(2, 3), R.randn(2, 3), R.randn(3, 3) * 2, R.randn(3, 3) * 3 + 1
TrialScores(M, S, a).save('t.h5')
TrialScores(M, D, b).save('e.h5')
TrialScores(C, S, c).save('c.h5')
o = []
for k, p in enumerate([[0, 1, 2], [2, 0, 1]]):
    TrialScores([C[i] for i in p], [D[i] for i in p], d[p][:, p]).save('k%d.h5' % k)
    tool('eval-score-norm', '--score-file', 't.h5', '--output-file', 'o%d.h5' % k, '--enr-coh-file', 'e.h5', '--coh-test-file', 'c.h5', '--coh-coh-file', 'k%d.h5' % k, '--norm-type', 'zt-norm')
    o.append(TrialScores.load('o%d.h5' % k).scores)
assert np.allclose(o[0], o[1], atol=1e-5)
'''),
 dict(id='p26-coh-test', property='P26',
  edits=[('hyperion/utils/trial_ndx.py', "            ndx = TrialNdx(enroll.key, ndx.seg_set)", "            ndx = TrialNdx(enroll.key, np.unique(ndx.seg_set[np.any(ndx.trial_mask[np.isin(ndx.model_set, enroll.info)], axis=0)]) if np.any(np.isin(ndx.model_set, enroll.info)) else ndx.seg_set)")],
  needs='cohort against test with a model of the cohort that is in the trial list too, and segments without a trial with it',
  breaks='cohort scores of the segments that have no trial with that model are missing',
  demo=PRE + '''
x = R.randn(4, 2).astype('float32')
v = vec('v.h5', ['a', 'b', 'c', 'd'], x)
w('e', 'a a', 'b b')
w('t', 'c c', 'd d')
w('n', 'a c', 'd c', 'd d')
tool('eval-cos-1vs1', '--iv-file', v, '--ndx-file', 'n', '--enroll-file', 'e', '--test-file', 't', '--eval-set', 'coh-test', '--score-file', 's.h5')
s = TrialScores.load('s.h5')
assert sorted(s.seg_set) == ['c', 'd'] and sorted(s.model_set) == ['a', 'b'], (s.seg_set, s.model_set)
'''),
]
