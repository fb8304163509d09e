PRE = '''
import numpy as np
from hyperion.pdfs import *
R = np.random.RandomState(0)
x = np.vstack((R.randn(30, 2) - 5, R.randn(30, 2) + 5))
w = R.randint(1, 5, 60).astype(float)
def gmm(C=GMMDiagCov, **k):
    L = np.ones((2, 2)) if C is GMMDiagCov else np.ones(2)
    return C(x_dim=2, pi=np.ones(2) / 2, mu=np.array([[-5., -5], [5, 5]]), Lambda=L, **k)
'''
SEEDS = [
 dict(id='p24-batch-weights', property='P24',
  edits=[('hyperion/pdfs/mixtures/exp_family_mixture.py', "            prob_i = prob[i1:i2,:]\n            if sample_weight is not None:\n                sw_i = sample_weight[i1:i2]\n", "            prob_i = prob[i1:i2,:]\n            if sample_weight is not None:\n                sw_i = sample_weight[:i2-i1]\n")],
  needs='batches and sample weights that are not all equal',
  breaks='statistics weighted by segment probabilities depend on the batch size',
  demo=PRE + '''
g = gmm()
p = R.rand(60, 3)
a = g.accum_suff_stats_segments_prob(x, p, sample_weight=w)
b = g.accum_suff_stats_segments_prob(x, p, sample_weight=w, batch_size=7)
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1])
'''),
 dict(id='p24-stale-det', property='P24',
  edits=[('hyperion/pdfs/mixtures/gmm_tied_diag_cov.py', "            self._cholLambda = None\n            self._logLambda = None\n\n        if self.update_pi", "            self._cholLambda = None\n\n        if self.update_pi")],
  needs='log-likelihoods of standard parameters before and after an epoch',
  breaks='log-likelihoods keep the determinant of the covariance before training',
  demo=PRE + '''
g = gmm(GMMTiedDiagCov)
g.log_prob(x, None, 'std')
g.fit(3 * x, epochs=1)
assert np.allclose(g.log_prob(x, None, 'std'), g.log_prob(x))
'''),
 dict(id='p24-floor-all', property='P24',
  edits=[('hyperion/pdfs/mixtures/gmm_diag_cov.py', "np.mean(S[N>self.min_N], axis=0)", "np.mean(S[N>0], axis=0)")],
  needs='a component with fewer samples than min_N and a variance under the floor',
  breaks='the variance floor depends on components that are dropped',
  demo=PRE + '''
z = np.array([[-6., -5], [-4, -5], [-5, -6], [-5, -4], [-5, -5.2], [-5, -4.8], [5, 1], [5, 9]])
g = gmm(min_N=3, var_floor=0.5)
g.fit(z, epochs=1)
v = np.var(z[:6], axis=0)
assert np.allclose(g.Sigma[0], v), (g.Sigma, v)
'''),
]
