PRE = '''
import numpy as np
from hyperion.clustering.ahc import AHC
from hyperion.clustering.kmeans import KMeans
'''
SEEDS = [
 dict(id='p19-thr-equal', property='P19',
  edits=[('hyperion/clustering/ahc.py', "            idx = self.Z[:,2] >= thr\n", "            idx = self.Z[:,2] > thr\n")],
  needs='a threshold equal to the similarity of a merge',
  breaks='clusters as similar as the threshold are not merged',
  demo=PRE + '''
a = AHC('single', 'llr')
a.fit(np.array([[0., 3., 1.], [3., 0., 1.], [1., 1., 0.]]))
assert len(set(a.get_flat_clusters_from_thr(1.))) == 1, a.get_flat_clusters_from_thr(1.)
'''),
 dict(id='p19-mask-input', property='P19',
  edits=[('hyperion/clustering/ahc.py', "            x = copy(x)\n", "            x = np.asarray(x)\n")],
  needs='a mask',
  breaks='clustering with a mask overwrites the scores of the caller',
  demo=PRE + '''
x = np.array([[0., 3., 1.], [3., 0., 1.], [1., 1., 0.]])
m = np.ones((3, 3), dtype=bool); m[0, 1] = m[1, 0] = False
AHC('single', 'llr').fit(x, m)
assert x[0, 1] == 3, x
'''),
]
