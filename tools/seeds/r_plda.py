PRE = '''
import numpy as np
from hyperion.pdfs import FRPLDA, SPLDA, PLDA
R = np.random.RandomState(0)
I = np.eye(2)
mu = np.array([0.5, -1.])
fr = lambda **k: FRPLDA(mu=mu.copy(), B=np.array([[1., 0.2], [0.2, 2.]]), W=np.array([[2., -0.3], [-0.3, 1.]]), **k)
sp = lambda **k: SPLDA(mu=mu.copy(), V=np.array([[1., 0.5]]), W=np.array([[2., -0.3], [-0.3, 1.]]), **k)
pl = lambda **k: PLDA(mu=mu.copy(), V=np.array([[1., 0.5]]), U=np.array([[0.5, -1.]]), D=np.array([1., 2.]), **k)
x1, x2 = R.randn(7, 2), R.randn(5, 2)
i1, i2 = np.array([0, 0, 0, 1, 1, 2, 2]), np.array([0, 1, 1, 1, 1])
def evid(g, *X):
    X = np.vstack(X)
    n = len(X)
    k = type(g).__name__
    Sb = np.linalg.inv(g.B) if k == 'FRPLDA' else g.V.T @ g.V
    Sw = g.U.T @ g.U + np.diag(1 / g.D) if k == 'PLDA' else np.linalg.inv(g.W)
    C = np.kron(np.ones((n, n)), Sb) + np.kron(np.eye(n), Sw)
    v = (X - g.mu).ravel()
    return -0.5 * (n * 2 * np.log(2 * np.pi) + np.linalg.slogdet(C)[1] + v @ np.linalg.solve(C, v))
'''
SEEDS = [
 dict(id='p25-book-counts', property='P25',
  edits=[('hyperion/pdfs/plda/frplda.py', "Ltar = self.B + (N1_i + N2_j)*self.W", "Ltar = self.B + 2*np.maximum(N1_i, N2_j)*self.W")],
  needs='classes with different numbers of samples scored by the book',
  breaks='likelihood ratios of full-rank PLDA of classes with different numbers of samples',
  demo=PRE + '''
g = fr()
s = g.llr_NvsM(x1, x2, i1, i2, method='book')
for a in range(3):
    for b in range(2):
        A, B = x1[i1 == a], x2[i2 == b]
        assert abs(s[a, b] - (evid(g, A, B) - evid(g, A) - evid(g, B))) < 1e-6
'''),
 dict(id='p25-savg-mean', property='P25',
  edits=[('hyperion/pdfs/plda/plda_base.py', "        scores = F/N[:, None]\n        return scores", "        scores = F/np.mean(N)\n        return scores")],
  needs='enrollment with different numbers of samples and averages of scores against single samples',
  breaks='averages of scores are not those of each enrolled class',
  demo=PRE + '''
g = sp()
t = g.llr_1vs1(x1, x2)
s = g.llr_Nvs1(x1, x2, i1, method='savg')
assert np.allclose(s, np.array([t[i1 == c].mean(0) for c in range(3)]))
'''),
 dict(id='p25-scal', property='P25',
  edits=[('hyperion/pdfs/plda/plda_base.py', "        wx = np.sum(p_theta, axis=1, keepdims=True)*x\n", "        wx = x if sample_weight is None else sample_weight[:, None]*x\n")],
  needs='class posteriors that do not sum to one, or a scaling factor of the counts',
  breaks='second order statistics do not have the weights of the first order ones',
  demo=PRE + '''
p = np.array([0.5, 0.25, 1., 1., 0.5, 1., 1.])[:, None] * np.eye(3)[i1]
N, F, S = FRPLDA.compute_stats_soft(x1, p)
assert np.allclose(S, (x1 * p.sum(1)[:, None]).T @ x1)
a = FRPLDA.compute_stats_hard(x1, i1, scal_factor=0.5)
assert np.allclose(a[2], 0.5 * x1.T @ x1)
'''),
 dict(id='p25-noint', property='P25',
  edits=[('hyperion/pdfs/plda/plda.py', "                Ry += N_i*M_i*iL\n", "                Ry += np.ceil(N_i)*M_i*iL\n")],
  needs='training with sample weights that do not sum to whole numbers',
  breaks='training of PLDA with weights',
  demo=PRE + '''
y = np.repeat(np.arange(6), 3)
x = R.randn(18, 2) + 2 * R.randn(6, 2)[y]
a, b = pl(), pl()
w = np.tile([0.5, 0.25, 0.5], 6)
# twice the samples with half the weight
a.fit(x, y, sample_weight=w, epochs=3)
b.fit(np.repeat(x, 2, axis=0), np.repeat(y, 2), sample_weight=np.repeat(w / 2, 2), epochs=3)
assert np.allclose(a.D, b.D)
g = pl()
e = [g.fit(x, y, sample_weight=w, epochs=1)[0][0] for _ in range(12)]
assert np.all(np.diff(e) > -1e-9), e
'''),
 dict(id='p25-mix-w', property='P25',
  edits=[('hyperion/pdfs/plda/frplda.py', "            Sw = w_W*Sw + (1-w_W)*Sw0", "            Sw = w_W*Sw + (1-w_B)*Sw0")],
  needs='averages of models with different weights for the two covariances',
  breaks='the average of two models has the wrong covariance within classes',
  demo=PRE + '''
g, h = fr(), FRPLDA(mu=mu, B=I, W=I)
w = np.linalg.inv(g.W)
g.weighted_avg_model(h, 1, 0.5, 0.25)
assert np.allclose(np.linalg.inv(g.W), 0.25 * I + 0.75 * w)
'''),
]
