PRE = '''
import numpy as np
from hyperion.classifiers import *
R = np.random.RandomState(0)
'''
SEEDS = [
 dict(id='p28-gbe-balance-nu', property='P28',
  edits=[('hyperion/classifiers/linear_gbe.py', "                    alpha_W = (N/(N+nu0/self.num_classes))[:, None]\n                    S = (self.num_classes - np.sum(alpha_W))*S0\n",
          "                    alpha_W = np.sum(N)/(np.sum(N)+nu0)\n                    S = self.num_classes*(1 - alpha_W)*S0\n")],
  needs='adaptation to a prior with balanced classes and classes of different sizes',
  breaks='weight of the covariance of the prior in the adapted covariance',
  demo=PRE + '''
p = LinearGBE(mu=np.zeros((2, 1)), W=np.eye(1), beta=np.ones(2), nu=8.)
x = np.array([[2.], [-2.]] * 6 + [[2.], [-2.]])
c = np.array([0] * 12 + [1] * 2)
m = LinearGBE(prior=p, balance_class_weight=True)
m.fit(x, c)
k = [(12 * 4. + 4) / 16, (2 * 4. + 4) / 6]
assert np.allclose(1 / m.W, np.mean(k)), (1 / m.W, np.mean(k))
'''),
 dict(id='p28-gbe-shift', property='P28',
  edits=[('hyperion/classifiers/linear_gbe.py', "                    S_k += N[k]*(1-alpha_mu[k])*np.outer(mu_delta, mu_delta)\n",
          "                    S_k += N[k]*alpha_mu[k]*(1-alpha_mu[k])*np.outer(mu_delta, mu_delta)\n")],
  needs='adaptation to a prior whose means are far from those of the data',
  breaks='the covariance of the adapted model',
  demo=PRE + '''
p = LinearGBE(mu=np.zeros((1, 1)), W=np.eye(1), beta=np.array([2.]), nu=2.)
x = np.array([[3.], [5.]])
m = LinearGBE(prior=p)
m.fit(x, np.zeros(2, dtype=int))
assert np.allclose(1 / m.W, (2 + 2 + 2 * .5 * 16) / 4), 1 / m.W
'''),
 dict(id='p28-gbe-pred-count', property='P28',
  edits=[('hyperion/classifiers/linear_gbe.py', "        c = (self.nu+1-self.x_dim)\n        r = self.beta/(self.beta+1)\n",
          "        c = (self.nu+1-self.x_dim)\n        beta = np.mean(self.beta)\n        r = beta/(beta+1)\n")],
  needs='predictive scores with classes of different sizes',
  breaks='the predictive distribution of small classes is as sharp as that of large ones',
  demo=PRE + '''
m = LinearGBE(mu=np.array([[1.], [-1.]]), W=np.eye(1), beta=np.array([1., 100.]), nu=10.)
from scipy.stats import t
y = m.predict(np.array([[0.5]]), 'predictive')
for k, (mu, b) in enumerate(((1., 1.), (-1., 100.))):
    L = 10. * b / (b + 1) / 10.
    assert np.isclose(y[0, k], t.logpdf(.5, 10., mu, 1 / np.sqrt(L))), (k, y)
'''),
 dict(id='p28-gbe-weights-p', property='P28',
  edits=[('hyperion/classifiers/linear_gbe.py', "        if class_ids is not None:\n            p_theta = int2onehot(class_ids, self.num_classes)\n\n        if sample_weight is not None:\n            p_theta = sample_weight[:, None]*p_theta\n",
          "        if class_ids is not None:\n            p_theta = int2onehot(class_ids, self.num_classes)\n            if sample_weight is not None:\n                p_theta = sample_weight[:, None]*p_theta\n")],
  needs='posteriors of the classes given together with weights of the samples',
  breaks='the weights of the samples are not used',
  demo=PRE + '''
x = np.array([[0.], [4.], [1.], [2.]])
p = np.array([[.5, .5]] * 4)
m = LinearGBE()
m.fit(x, p_theta=p, sample_weight=np.array([3., 1, 1, 1]))
assert np.allclose(m.mu, 7. / 6), m.mu
'''),
 dict(id='p28-q-post', property='P28',
  edits=[('hyperion/classifiers/q_scoring_homo_gbe.py', """            self.W = 1 + self.post_N/np.mean(self.N)*(self.W-1)
            self.N = self.post_N*np.ones((self.num_classes,), dtype=float_cpu())
            logging.debug(self.N)
            logging""", """            self.N = self.post_N*np.ones((self.num_classes,), dtype=float_cpu())
            self.W = 1 + self.post_N/np.mean(self.N)*(self.W-1)
            logging.debug(self.N)
            logging""")],
  needs='Q-scoring back-end with the number of samples of each class fixed after training (post_N)',
  breaks='precision of the means is not scaled to the number of samples',
  demo=PRE + '''
from hyperion.classifiers import QScoringHomoGBE
x = np.array([[0., .5], [2., .5], [4., .5], [6., .5]])
m = QScoringHomoGBE(post_N=1)
m.fit(x, np.array([0, 0, 1, 1]))
assert np.allclose(m.W, 2) and np.allclose(m.N, 1), m.W
'''),
 dict(id='p28-q-norm-axis', property='P28',
  edits=[('hyperion/classifiers/q_scoring_homo_gbe.py', "        r_t = np.sum(np.log(L_t), axis=1, keepdims=True) + np.sum(C_t*eta_t**2, axis=1, keepdims=True)    # (batch x 1)\n",
          "        r_t = np.sum(np.log(L_t)) + np.sum(C_t*eta_t**2, axis=1, keepdims=True)    # (batch x 1)\n")],
  needs='several vectors with different precisions scored at once',
  breaks='score of a vector depends on the other vectors in the batch',
  demo=PRE + '''
from hyperion.classifiers import QScoringHomoGBE
m = QScoringHomoGBE(mu=np.array([[1., 0.], [0., 1.]]), W=np.array([2., 3.]), N=np.ones(2))
x = np.array([[1., 2, .5, .25], [0., 1, .2, .5]])
assert np.allclose(m.predict(x), np.vstack([m.predict(v[None]) for v in x]))
'''),
 dict(id='p28-lr-weight-scale', property='P28',
  edits=[('hyperion/classifiers/logistic_regression.py', "        class_weights = priors/counts\n",
          "        class_weights = priors/(counts if sample_weight is None else np.bincount(class_ids, weights=sample_weight))\n")],
  needs='weights of samples whose mean differs between classes',
  breaks='the weights are normalised away in each class',
  demo=PRE + '''
x = R.randn(60, 2)
c = np.arange(60) % 3
v = np.where(c == 0, 4., 1.)
m = LogisticRegression(lambda_reg=.1, tol=1e-9)
m.fit(x, c, sample_weight=v)
from sklearn.linear_model import LogisticRegression as LR
r = LR(C=10., tol=1e-9, multi_class='multinomial').fit(x, c, sample_weight=v / 60)
assert np.allclose(m.A.T, r.coef_, atol=1e-4), (m.A.T, r.coef_)
'''),
 dict(id='p28-lr-post-prior', property='P28',
  edits=[('hyperion/classifiers/binary_logistic_regression.py', "        if eval_type == 'log-post':\n            y = - np.log(1+np.exp(-(y+np.log(self.prior/(1-self.prior)))))\n",
          "        if eval_type == 'log-post':\n            y = - np.log(1+np.exp(-(y+np.log(self.prior)-np.log(1+self.prior))))\n")],
  needs='log-posteriors of the binary logistic regression',
  breaks='log-posteriors do not have the prior of the model',
  demo=PRE + '''
from hyperion.classifiers.binary_logistic_regression import BinaryLogisticRegression as B
x = R.randn(40, 2); c = np.arange(40) % 2
m = B(prior=.3)
m.fit(x, c)
assert np.allclose(np.exp(m.predict(x, 'log-post')), m.predict(x, 'post'))
'''),
 dict(id='p28-cal-weight', property='P28',
  edits=[('hyperion/calibration/gauss_calibration.py', "        self.mu2 = np.mean(sw_non*non)/np.mean(sw_non)\n", "        self.mu2 = np.mean(sw_non*non)/np.mean(sample_weight)\n")],
  needs='weights of the nontargets with a mean different from that of the targets',
  breaks='mean of the nontargets',
  demo=PRE + '''
from hyperion.calibration.gauss_calibration import GaussCalibration
m = GaussCalibration()
m.fit(np.array([1., 2, 3, 4]), np.array([0, 0, 1, 1]), np.array([1., 1, 3, 3]))
assert np.allclose(m.mu2, 1.5), m.mu2
'''),
 dict(id='p28-up-floor', property='P28',
  edits=[('hyperion/classifiers/linear_gbe_up.py', "            x_s_mean=np.diag(np.mean(x_s, axis=0))\n", "            x_s_mean=np.diag(np.max(x_s, axis=0))\n")],
  needs='vectors with different uncertainties',
  breaks='more than the uncertainty of the vectors is taken off the covariance',
  demo=PRE + '''
from hyperion.classifiers import LinearGBEUP
x = R.randn(100, 1) * 3
m = LinearGBEUP(balance_class_weight=False)
m.fit(np.hstack((x, np.where(np.arange(100) < 50, .5, 1.5)[:, None])), np.zeros(100, dtype=int))
assert np.allclose(1 / m.W, np.var(x) - 1), (1 / m.W, np.var(x) - 1)
'''),
]
