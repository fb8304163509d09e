F = 'hyperion/utils/fold_list.py'
T = 'hyperion/utils/train_val_eval_list.py'
SEEDS = [
 dict(id='p10-shuffle-groups', property='P10',
  edits=[(F, """                group_key_tmp = np.zeros_like(group_key_i)
                for j in xrange(num_groups_i):
                    group_key_tmp[group_key_i==j] = shuffle_idx[j]
                group_key_i = group_key_tmp
""", """                for j in xrange(num_groups_i):
                    group_key_i[group_key_i==j] = shuffle_idx[j]
""")],
  needs='shuffled folds where a group number is reassigned to one that comes later in the loop',
  breaks='groups are merged while they are renumbered, so folds are unbalanced or empty',
  demo='''
import numpy as np
from hyperion.utils.fold_list import FoldList
f = FoldList.create(np.array(['k%02d' % i for i in range(24)]), 4, group_by_key=np.array(['g%d' % (i % 8) for i in range(24)]), shuffle=True)
assert sorted(np.bincount(f.fold)) == [6, 6, 6, 6], f.fold
'''),
 dict(id='p10-align-mask', property='P10',
  edits=[(F, """            self.fold = self.fold[idx]
            if self.mask is not None:
                self.mask = self.mask[idx]
""", """            self.fold = self.fold[idx]
            if self.mask is not None:
                self.mask = self.mask[:len(idx)]
""")],
  needs='a fold list with a mask, aligned with keys in another order',
  breaks='the mask stays with the position instead of the key',
  demo='''
import numpy as np
from hyperion.utils.fold_list import FoldList
k = np.array(['a', 'b', 'c', 'd'])
f = FoldList(np.array([0, 1, 0, 1]), k, mask=np.array([True, True, False, True]))
f.align_with_key(k[::-1])
tr, te = f.get_fold(0)
assert list(te) == ['a'] and sorted(tr) == ['b', 'd'], (tr, te)
'''),
]
