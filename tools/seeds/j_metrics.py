PRE = '''
import numpy as np
'''
SEEDS = [
 dict(id='p14-tie-order', property='P14',
  edits=[('hyperion/metrics/roc.py', """    scores = np.hstack((tar_scores.ravel(), non_scores.ravel()))
    #ideal, but non-monotonic posterior
    Pideal = np.hstack((np.ones((Nt,)), np.zeros((Nn,))))
""", """    scores = np.hstack((non_scores.ravel(), tar_scores.ravel()))
    #ideal, but non-monotonic posterior
    Pideal = np.hstack((np.zeros((Nn,)), np.ones((Nt,))))
""")],
  needs='a target and a non-target with the same score',
  breaks='tied scores count as if a threshold could tell them apart: hull, equal error rate and minimum cost are too low',
  demo=PRE + '''
from hyperion.metrics import compute_eer
e = compute_eer(np.array([0., 1.]), np.array([0., -1.]))
assert abs(e - 0.25) < 1e-6, e
'''),
 dict(id='p14-norm-high-prior', property='P14',
  edits=[('hyperion/metrics/dcf.py', """    dcf = prior * p_miss + (1-prior) * p_fa
    if normalize:
        dcf /= np.minimum(prior, 1-prior)
    return dcf
""", """    dcf = prior * p_miss + (1-prior) * p_fa
    if normalize:
        dcf /= prior
    return dcf
""")],
  needs='a target prior above a half',
  breaks='the normalised minimum cost is not relative to the best decision without scores',
  demo=PRE + '''
from hyperion.metrics import compute_min_dcf
d = compute_min_dcf(np.array([0.]), np.array([0.]), 0.75)[0]
assert abs(d - 1) < 1e-6, d
'''),
 dict(id='p14-filter-plateau', property='P14',
  edits=[('hyperion/metrics/roc.py', """        if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
            continue
""", """        if p_miss[i] == p_miss[i-1] or p_fa[i] == p_fa[i-1]:
            continue
""")],
  needs='a curve that turns a corner without a diagonal step',
  breaks='corners of the curve are dropped when points that are not needed are removed',
  demo=PRE + '''
from hyperion.metrics.roc import compute_roc, filter_roc
m, f = filter_roc(*compute_roc(np.array([1., 4.]), np.array([2., 3.])))
P = set(zip(m.tolist(), f.tolist()))
assert (0.5, 0.) in P and (0.5, 1.) in P, P
'''),
]
