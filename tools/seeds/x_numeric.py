F = 'hyperion/utils/math.py'
PRE = '''
import numpy as np
from hyperion.utils.math import *
'''
SEEDS = [
 dict(id='p32-lse-axis', property='P32',
  edits=[(F, "    return np.log(np.sum(r, axis=axis)+1e-20) + np.squeeze(max_r, axis=axis)", "    return np.log(np.sum(r, axis=axis)+1e-20) + np.squeeze(max_r)")],
  needs='an array of three axes with the second one of size one',
  breaks='the result has every maximum added to every sum',
  demo=PRE + '''
x = np.array([[[0., 1, 2]], [[5, 6, 9]]])
y = logsumexp(x)
assert y.shape == (2, 1) and np.allclose(y, np.log(np.exp(x).sum(-1))), y
'''),
 dict(id='p32-right-complex', property='P32',
  edits=[(F, "        fh=lambda x: la.solve_triangular(A.T, x.T, lower=not(lower)).T", "        fh=lambda x: la.solve_triangular(A.T, x.T, lower=not(lower), overwrite_b=True).T")],
  needs='the rows to solve given as the array of the caller in order of rows',
  breaks='the array that is given is overwritten with the solution',
  demo=PRE + '''
A = np.array([[2., 1], [0, 4]])
x = np.array([[4., 8], [2, 3]])
y = invert_trimat(A, right_inv=True)(x)
assert np.array_equal(x, [[4., 8], [2, 3]]), x
assert np.allclose(y.dot(A), x)
'''),
 dict(id='p32-floor-lower', property='P32',
  edits=[(F, "            cholF = F\n            if lower:\n                cholF = cholF.T\n        icholF = invert_trimat(cholF, return_inv=True)[-1]", "            cholF = F\n        icholF = invert_trimat(cholF, lower=lower, return_inv=True)[-1]")],
  needs='the floor given by its lower factor, not diagonal',
  breaks='the lower factor is used as if it were the upper one: another floor',
  demo=PRE + '''
L = np.array([[2., 0], [3, 1]])
F = L.dot(L.T)
X = fullcov_varfloor(F * .1, L, F_is_chol=True, lower=True)
assert np.allclose(X, F), X
'''),
 dict(id='p32-vec2sym-factor', property='P32',
  edits=[(F, "        A[idx_u]=v\n        A[idx_l]=A.T[idx_l]\n    if diag_factor is not None:\n        A[np.diag_indices(A.shape[0])] *= diag_factor", "        A[idx_u]=v\n        if diag_factor is not None and lower:\n            A[np.diag_indices(dim)] *= diag_factor\n        A[idx_l]=A.T[idx_l]\n    if diag_factor is not None:\n        A[np.diag_indices(A.shape[0])] *= diag_factor if dim > 1 else 1")],
  needs='a matrix of one element with a factor for the diagonal',
  breaks='the factor of the diagonal is not applied',
  demo=PRE + '''
A = np.array([[3.]])
assert vec2symmat(symmat2vec(A, diag_factor=.5), diag_factor=2)[0, 0] == 3
'''),
 dict(id='p32-sigmoid-low', property='P32',
  edits=[(F, "    f = x < -100\n    p = 1/(1+np.exp(-x))\n    p[f] = 0", "    f = np.abs(x) > 100\n    p = 1/(1+np.exp(-x))\n    p[f] = 0")],
  needs='numbers over 100',
  breaks='the sigmoid of large numbers is 0',
  demo=PRE + '''
assert np.allclose(sigmoid(np.array([-200., 0, 200])), [0, .5, 1])
'''),
 dict(id='p32-onehot', property='P32',
  edits=[(F, "        num_classes = np.max(class_ids)+1", "        num_classes = len(np.unique(class_ids)) if np.min(class_ids) == 0 and len(class_ids) > np.max(class_ids) + 1 else np.max(class_ids)+1")],
  needs='labels with a class without samples and no number of classes given',
  breaks='the matrix has too few columns',
  demo=PRE + '''
y = int2onehot(np.array([0, 2, 2, 0, 2]))
assert y.shape == (5, 3) and y[1, 2] == 1, y
'''),
 dict(id='p32-sort-reverse', property='P32',
  edits=[('hyperion/utils/list_utils.py', "        idx = np.argsort(a)\n        if reverse:\n            idx = idx[::-1]\n", "        idx = np.argsort(a)\n        if reverse:\n            idx = len(idx) - 1 - idx\n")],
  needs='descending order with the places of the elements, in a list that is not symmetric',
  breaks='the elements are not in descending order',
  demo=PRE + '''
from hyperion.utils.list_utils import sort
s, i = sort(['b', 'c', 'a'], reverse=True, return_index=True)
assert list(s) == ['c', 'b', 'a'] and list(i) == [1, 0, 2], (s, i)
'''),
 dict(id='p32-split-last', property='P32',
  edits=[('hyperion/utils/list_utils.py', "    loc = np.arange(idx_1, idx_2, dtype='int64')\n", "    loc = np.arange(idx_1, max(idx_2, min(idx_1 + 1, int(n))), dtype='int64')\n")],
  needs='more parts than elements',
  breaks='parts that have to be empty get an element of the next one, which is given twice',
  demo=PRE + '''
from hyperion.utils.list_utils import split_list
a = ['a', 'b', 'c']
p = [x for k in range(1, 6) for x in split_list(a, k, 5)[0]]
assert p == a, p
'''),
 dict(id='p32-group-by-key', property='P32',
  edits=[('hyperion/utils/list_utils.py', "        loc_i = (ids==i).nonzero()[0]\n", "        loc_i = np.arange(np.argmax(ids==i), np.argmax(ids==i) + np.sum(ids==i)) if k > 0 else (ids==i).nonzero()[0]\n")],
  needs='a part with two keys whose elements are not together in the list',
  breaks='elements of other keys are taken for those of the second key of a part',
  demo=PRE + '''
from hyperion.utils.list_utils import split_list_group_by_key
s, l = split_list_group_by_key(['x', 'y', 'z', 'w'], 1, 1, key=['b', 'a', 'c', 'b'])
assert list(l) == [1, 0, 3, 2], l
'''),
]
