PRE = '''
import numpy as np
from hyperion.transforms import *
R = np.random.RandomState(0)
'''
SEEDS = [
 dict(id='p27-nap-classes', property='P27',
  edits=[('hyperion/transforms/nap.py', "            xx[idx, :] = (x[idx, :] - mu_i)/N\n        xx /= M\n",
          "            xx[idx, :] = x[idx, :] - mu_i\n        xx /= M*np.sqrt(len(class_ids)/len(u_ids))\n")],
  needs='classes with different numbers of samples and different directions of spread',
  breaks='NAP removes the directions of the largest class instead of those of the average class',
  demo=PRE + '''
a = np.array([[1., 0], [-1., 0]] * 20)
b = np.array([[0, 3.], [0, -3.]])
x = np.vstack((a, b + 5))
m = NAP()
m.fit(x, 1, np.array([0] * 40 + [1] * 2))
y = m.predict(np.array([[1., 1.]]))
assert np.allclose(y, [[1., 0.]], atol=1e-6), y
'''),
 dict(id='p27-sb-shift', property='P27',
  edits=[('hyperion/transforms/sb_sw.py', """        for i in u_ids:
            idx = (class_ids==i)
            N_i = np.sum(idx)
            mu_i = np.mean(x[idx,:], axis=0)
            self.mu += mu_i
            x_i = x[idx, :] - mu_i
""", """        # work around the center of the data for accuracy
        center = np.mean(x, axis=0)
        x = x - center
        for i in u_ids:
            idx = (class_ids==i)
            N_i = np.sum(idx)
            mu_i = np.mean(x[idx,:], axis=0)
            self.mu += mu_i
            x_i = x[idx, :] - mu_i
"""), ('hyperion/transforms/sb_sw.py', """        if normalize:
            self.normalize()


            
    def normalize(self):
        self.mu /= self.num_classes
        self.Sb = self""", """        if normalize:
            self.normalize()
            self.mu += center
        else:
            self.mu += self.num_classes*center


            
    def normalize(self):
        self.mu /= self.num_classes
        self.Sb = self""")],
  needs='statistics of several groups of classes put together with accum_stats',
  breaks='the between-class covariance accumulated over parts',
  demo=PRE + '''
x = R.randn(40, 2) + 4
y = np.arange(40) % 4
w = SbSw(); w.fit(x, y)
p = []
for c in ([0, 1], [2, 3]):
    i = np.isin(y, c)
    s = SbSw(); s.fit(x[i], y[i], normalize=False); p.append(s)
s = SbSw.accum_stats(p); s.normalize()
assert np.allclose(s.Sb, w.Sb) and np.allclose(s.mu, w.mu) and np.allclose(s.Sw, w.Sw), (s.Sb, w.Sb)
'''),
 dict(id='p27-cw-flat', property='P27',
  edits=[('hyperion/transforms/cent_whiten.py', "            nonzero = d > 0\n", "            nonzero = d > 1e-3*np.max(d)\n")],
  needs='data that spread much less in one direction than in another',
  breaks='whitening drops directions of small variance',
  demo=PRE + '''
x = R.randn(200, 3) * np.array([1., 50., 2.])
m = CentWhiten(); m.fit(x)
y = m.predict(x)
assert y.shape == (200, 3) and np.allclose(np.cov(y.T, bias=True), np.eye(3), atol=1e-4), y.shape
'''),
 dict(id='p27-pca-refit', property='P27',
  edits=[('hyperion/transforms/pca.py', "            delta = x - mu\n", "            delta = x - (mu if self.mu is None else self.mu)\n")],
  needs='a PCA that has a mean already and is trained again with other data',
  breaks='the axes are those of the data around the old mean',
  demo=PRE + '''
m = PCA()
m.fit(R.randn(50, 2) + np.array([0., 30.]))
x = R.randn(200, 2) * np.array([3., 1.])
m.fit(x)
n = PCA(); n.fit(x)
assert np.allclose(np.abs(m.predict(x)), np.abs(n.predict(x)), atol=1e-6)
'''),
 dict(id='p27-up-cov', property='P27',
  edits=[('hyperion/transforms/cent_whiten_up.py', "np.diag(np.dot(self.T.T * s2_x[i], self.T))", "np.diag(np.dot(self.T.T, self.T * s2_x[i]))")],
  needs='correlated data and uncertainties that differ among dimensions',
  breaks='uncertainties are given to the wrong directions',
  demo=PRE + '''
x = np.dot(R.randn(100, 2), np.array([[2., 1.], [0., 1.]]))
m = CentWhitenUP(); m.fit(np.hstack((x, np.ones((100, 2)))))
v = np.array([1., 9.])
y = m.predict(np.hstack((x[:1], v[None])))
assert np.allclose(y[0, 2:], np.dot(v, m.T ** 2)), y
'''),
 dict(id='p27-near-d', property='P27',
  edits=[('hyperion/transforms/sb_sw.py', "            d[i] = d_i[:,-1]\n", "            d[i] = d_i.max() if d_i.shape[0] == 1 else np.mean(d_i, axis=1)\n")],
  needs='weights that depend on distances (alpha > 0) with more than one neighbour',
  breaks='weights of the nearest neighbour scatter use the mean distance instead of that of the K-th neighbour',
  demo=PRE + '''
from hyperion.transforms.sb_sw import NSbSw
x = np.array([[0.], [1.], [3.], [7.], [8.], [12.]])
y = np.array([0, 0, 0, 1, 1, 1])
K = 2
s = NSbSw(K=K, alpha=2); s.fit(x, y)
def nn(c, l):
    return sorted(abs(x[y == c, 0] - x[l, 0]))[K - 1] ** 2, np.array(sorted(x[y == c, 0], key=lambda v: abs(v - x[l, 0]))[:K]).mean()
Sb = 0
for c in (0, 1):
    n = w = 0
    for l in np.nonzero(y == c)[0]:
        (u, _), (v, mu) = nn(c, l), nn(1 - c, l)
        k = min(u, v) / (u + v)
        n += k * (x[l, 0] - mu) ** 2
        w += k
    Sb += n / w / 2
assert abs(s.Sb[0, 0] - Sb) < 1e-6 * Sb, (s.Sb, Sb)
'''),
 dict(id='p27-gauss-step', property='P27',
  edits=[('hyperion/transforms/gaussianizer.py', "            index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)\n",
          "            index = np.arange(self.max_vectors)*(r.shape[0]//self.max_vectors)\n")],
  needs='a limit of vectors that does not divide their number',
  breaks='the upper part of the distribution is left out',
  demo=PRE + '''
from scipy.stats import norm
x = np.arange(19.)[:, None]
m = Gaussianizer(max_vectors=10); m.fit(x)
p = norm.cdf(m.predict(x))[:, 0]
assert np.max(np.abs(p - np.arange(1, 20) / 20)) < .12, p
'''),
]
