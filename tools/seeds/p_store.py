PRE = '''
import os
import numpy as np
from hyperion.transforms import *
'''
SEEDS = [
 dict(id='p23-zeros', property='P23',
  edits=[('hyperion/hyp_model.py', "            if v is None:\n                continue\n", "            if v is None or not np.any(v):\n                continue\n")],
  needs='a matrix or vector of zeros in a model',
  breaks='parameters that are all zeros are not saved, so that the loaded model cannot predict',
  demo=PRE + '''
x = np.random.RandomState(0).randn(4, 3)
t = NAP(U=np.zeros((1, 3)), name='n')
t.save('m.h5')
assert np.allclose(NAP.load('m.h5').predict(x), t.predict(x))
'''),
 dict(id='p23-lnorm-input', property='P23',
  edits=[('hyperion/transforms/lnorm.py', "        return np.sqrt(x.shape[1])*x/mx\n", "        x *= np.sqrt(x.shape[1])/mx\n        return x\n")],
  needs='length normalization without centering and whitening',
  breaks='predict changes the data it is given',
  demo=PRE + '''
x = np.random.RandomState(0).randn(4, 3)
y = x.copy()
LNorm().predict(x)
assert np.array_equal(x, y)
'''),
 dict(id='p23-shallow', property='P23',
  edits=[('hyperion/hyp_model.py', "        return deepcopy(self)\n", "        model = self.__class__.__new__(self.__class__)\n        model.__dict__.update((k, v.copy() if hasattr(v, 'copy') else v) for k, v in self.__dict__.items())\n        return model\n")],
  needs='a copy of a chain of transforms and a change of one of its members',
  breaks='members of a copied chain are shared with the original',
  demo=PRE + '''
x = np.random.RandomState(0).randn(4, 3)
t = TransformList([MVN(mu=np.ones(3), s=np.ones(3), name='m')], name='l')
y = t.predict(x)
c = t.copy()
c.transforms[0].mu += 1
assert np.allclose(t.predict(x), y)
'''),
 dict(id='p23-flags', property='P23',
  edits=[('hyperion/pdfs/core/normal_diag_cov.py', "                   update_Lambda=config['update_lambda'], name=config['name'])", "                   update_Lambda=config['update_mu'], name=config['name'])")],
  needs='a saved model whose update flags differ',
  breaks='loaded models update other parameters than they did',
  demo=PRE + '''
from hyperion.pdfs import NormalDiagCov
m = NormalDiagCov(x_dim=2, mu=np.zeros(2), Lambda=np.ones(2), update_mu=False, name='n')
m.save('m.h5')
k = NormalDiagCov.load('m.h5')
assert (k.update_mu, k.update_Lambda) == (False, True), (k.update_mu, k.update_Lambda)
'''),
]
