SEEDS = [
 dict(id='p04-stale-lookup', property='P04',
  edits=[('hyperion/utils/scp_list.py', """            self.range_spec = self.range_spec[index]

        self.key_to_index = None
""", """            self.range_spec = self.range_spec[index]

""")] ,
  needs='a lookup by key, then shuffle, then another lookup by key on the same list',
  breaks='the key to index cache survives shuffling, so a key lookup returns the row of another key',
  demo='''
from hyperion.utils.scp_list import SCPList
s = SCPList(['k%d' % i for i in range(20)], ['f%d' % i for i in range(20)])
assert s['k3'][0] == 'f3'
s.shuffle()
for i in range(20):
    assert s['k%d' % i][0] == 'f%d' % i, i
'''),
 dict(id='p05-stale-lookup', property='P05',
  edits=[('hyperion/utils/utt2info.py', """            self.utt_info = self.utt_info.iloc[idx]
        self.key_to_index = None
""", """            self.utt_info = self.utt_info.iloc[idx]
            self.key_to_index = None
""")],
  needs='get_index, then sort by key of a table that was not sorted, then get_index',
  breaks='the key to position cache survives sorting by key',
  demo='''
from hyperion.utils.utt2info import Utt2Info
u = Utt2Info.create(['c', 'a', 'b'], ['1', '2', '3'])
assert u.get_index('c') == 0
u.sort()
assert u.key[u.get_index('c')] == 'c'
'''),
 dict(id='p05-filter-value', property='P05',
  edits=[('hyperion/utils/utt2info.py', """            filter_key = np.setdiff1d(self.utt_info[field], filter_key)
        f, _ = ismember(filter_key""", """            filter_key = np.setdiff1d(self.utt_info[1], filter_key)
        f, _ = ismember(filter_key""")],
  needs='removing rows by the value of the second or a later column (keep=False, field>1) whose values differ from the first column',
  breaks='removing by value looks for the remaining values in the first column',
  demo='''
from hyperion.utils.utt2info import Utt2Info
u = Utt2Info.create(['c', 'a', 'b'], [['p', 'x'], ['q', 'y'], ['r', 'x']])
v = u.filter_info(['x'], field=2, keep=False)
assert list(v.key) == ['a'], list(v.key)
'''),
 dict(id='p06-txt-order', property='P06',
  edits=[('hyperion/utils/trial_key.py', """            idx=(self.non.T == True).nonzero()
            for item in zip(idx[0], idx[1]):
                f.write('%s %s nontarget""", """            idx=(np.logical_not(self.tar).T == True).nonzero()
            for item in zip(idx[0], idx[1]):
                f.write('%s %s nontarget""")],
  needs='a key with pairs that are no trial, saved as text',
  breaks='pairs that are no trial come back as non-target trials after saving to text',
  demo='''
import numpy as np
from hyperion.utils.trial_key import TrialKey
k = TrialKey(['a', 'b'], ['x', 'y'], np.array([[1, 0], [0, 0]], dtype=bool), np.array([[0, 1], [1, 0]], dtype=bool))
k.save('k.txt')
assert TrialKey.load('k.txt') == k
'''),
 dict(id='p06-merge-order', property='P06',
  edits=[('hyperion/utils/trial_ndx.py', """            _, si_a, si_b = intersect(new_seg_set, ndx_i.seg_set,
                                     assume_unique=True, return_index=True)
            trial_mask_2[np.ix_(mi_a, si_a)] = ndx_i.trial_mask[
                np.ix_(mi_b, si_b)]
""", """            si_a = np.isin(new_seg_set, ndx_i.seg_set).nonzero()[0]
            trial_mask_2[np.ix_(mi_a, si_a)] = ndx_i.trial_mask[mi_b]
""")],
  needs='merging a list whose segments are not in alphabetical order into another',
  breaks='trials of the second and later merged lists are attached to other segments when these are not sorted',
  demo='''
import numpy as np
from hyperion.utils.trial_ndx import TrialNdx
a = TrialNdx(['m'], ['a'], np.array([[True]]))
b = TrialNdx(['m'], ['c', 'b'], np.array([[True, False]]))
c = TrialNdx.merge([a, b])
assert dict(zip(c.seg_set, c.trial_mask[0])) == {'a': True, 'b': False, 'c': True}, (c.seg_set, c.trial_mask)
'''),
 dict(id='p07-align-mask', property='P07',
  edits=[('hyperion/utils/trial_scores.py', """            scores[ix1] = self.scores[ix2]
            score_mask[ix1] = self.score_mask[ix2]
""", """            scores[ix1] = self.scores[ix2]
            score_mask[ix1] = True
""")],
  needs='alignment without raising (or filling of missing scores) where a model or segment is absent and another pair of present ones has no score',
  breaks='pairs without score become scored with a meaningless value',
  demo='''
import numpy as np
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_scores import TrialScores
s = TrialScores(['m', 'n'], ['a', 'b'], np.array([[1., 0.], [2., 3.]]), np.array([[True, False], [True, True]]))
n = TrialNdx(['m', 'q'], ['b', 'a'])
r = s.set_missing_to_value(n, -9.)
assert r.scores.tolist() == [[-9, 1], [-9, -9]], r.scores
'''),
 dict(id='p07-tarnon-order', property='P07',
  edits=[('hyperion/utils/trial_scores.py', """        scr = self.align_with_ndx(key)
        tar_mask""", """        scr = self
        if not (np.array_equal(np.sort(self.model_set), np.sort(key.model_set)) and
                np.array_equal(np.sort(self.seg_set), np.sort(key.seg_set)) and
                np.all(self.score_mask)):
            scr = self.align_with_ndx(key)
        tar_mask""")],
  needs='a complete score table and a key over the same models and segments in another order',
  breaks='target and non-target scores are taken by position instead of by name',
  demo='''
import numpy as np
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores
s = TrialScores(['m', 'n'], ['a', 'b'], np.array([[1., 2.], [3., 4.]]))
k = TrialKey(['n', 'm'], ['a', 'b'], np.array([[1, 0], [0, 0]], dtype=bool), np.array([[0, 0], [0, 1]], dtype=bool))
t, n = s.get_tar_non(k)
assert t.tolist() == [3.] and n.tolist() == [2.], (t, n)
'''),
]
