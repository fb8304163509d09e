PRE = '''
import numpy as np
from hyperion.score_norm import *
'''
SEEDS = [
 dict(id='p22-nbest-clip', property='P22',
  edits=[('hyperion/score_norm/adapt_s_norm.py', "            nbest = scores_enr_coh.shape[1] - self.nbest_discard\n", "            nbest = self.nbest = scores_enr_coh.shape[1] - self.nbest_discard\n")],
  needs='a second call with a larger cohort',
  breaks='the number of best cohort scores stays that of the smallest cohort seen',
  demo=PRE + '''
r = np.random.RandomState(0)
a, b = (r.randn(1, 1), r.randn(3, 1), r.randn(1, 3)), (r.randn(1, 1), r.randn(9, 1), r.randn(1, 9))
m = AdaptSNorm(nbest=6)
m.predict(*a)
assert np.allclose(m.predict(*b), AdaptSNorm(nbest=6).predict(*b))
'''),
 dict(id='p22-tz-order', property='P22',
  edits=[('hyperion/score_norm/tz_norm.py', "self.t_norm.predict(scores_enr_coh, scores_coh_coh, mask_coh_coh)", "self.t_norm.predict(scores_enr_coh, scores_coh_coh.T, mask_coh_coh)")],
  needs='cohort scores that are not symmetric',
  breaks='cohort scores are taken with models and segments exchanged',
  demo=PRE + '''
r = np.random.RandomState(0)
sc, ct, ec, cc = r.randn(2, 2), r.randn(4, 2), r.randn(2, 4), r.randn(4, 4)
t = TNorm()
w = ZNorm().predict(t.predict(sc, ct), t.predict(ec, cc))
assert np.allclose(TZNorm().predict(sc, ct, ec, cc), w)
'''),
]
