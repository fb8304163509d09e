S = 'hyperion/utils/segment_list.py'
X = 'hyperion/utils/ext_segment_list.py'
R = 'hyperion/utils/rttm.py'
SEEDS = [
 dict(id='p11-stale-index', property='P11',
  edits=[(X, """        self._index_column = value
        self.ext_segments.index""", """        if value == getattr(self, '_index_column', None):
            return
        self._index_column = value
        self.ext_segments.index""")],
  needs='a lookup after merge_adjacent_segments, which replaces the tables and sets the same index column again',
  breaks='lookups by name use the numbering of the table from before merging',
  demo='''
import numpy as np
from hyperion.utils.ext_segment_list import ExtSegmentList
l = ExtSegmentList.create(['a', 'b', 'c'], ['f', 'f', 'g'], np.array([0., 1., 0.]), np.array([1., 2., 3.]), name={'a': 'x', 'b': 'x', 'c': 'y'})
l.merge_adjacent_segments(0.1)
assert list(l.segment_names) == ["x", "x", "y"], list(l.segment_names)
q = l.filter(['g'])
assert len(q) == 1 and list(q.file_id) == ['g'], list(l.segments.index)
'''),
 dict(id='p11-save-digits', property='P11',
  edits=[(S, """            file_path, sep=sep, float_format='%.3f', index=False, header=False)""",
          """            file_path, sep=sep, float_format='%g', index=False, header=False)""")],
  needs='a segment that begins later than 1000 s with a fraction of a second in hundredths or finer',
  breaks='times lose their fraction when a list is saved',
  demo='''
import os
import numpy as np
from hyperion.utils.segment_list import SegmentList
l = SegmentList.create(['a'], ['f'], np.array([1234.125]), np.array([1236.25]))
p = os.path.join(os.environ['SCRATCH'], 's.txt')
l.save(p)
m = SegmentList.load(p)
assert m.tbeg[0] == 1234.125, m.tbeg
'''),
 dict(id='p12-touching-names', property='P12',
  edits=[(R, """            segments_i = segments_f[((tbeg_f<=tbeg) & (tend_f > tbeg)) |""", """            segments_i = segments_f[((tbeg_f<=tbeg) & (tend_f >= tbeg)) |""")],
  needs='a mark that ends exactly where the segment begins',
  breaks='the segment gets the name of a speaker who has just stopped',
  demo='''
import numpy as np
from hyperion.utils.rttm import RTTM
from hyperion.utils.segment_list import SegmentList
r = RTTM.create_spkdiar(['f', 'f'], np.array([0., 1.]), np.array([1., 1.]), ['x', 'y'])
s = SegmentList.create(['a'], ['f'], np.array([1.]), np.array([2.]))
n, k = r.get_segment_names(s)
assert list(n) == ['y'], n
'''),
 dict(id='p12-join-overlap', property='P12',
  edits=[(R, """                 (segm.name == segm_1.name) & (delta <= t_margin))""", """                 (segm.name == segm_1.name) & (delta.abs() <= t_margin))""")],
  needs='two overlapping marks of one speaker',
  breaks='overlapping marks of a speaker are not joined',
  demo='''
import numpy as np
from hyperion.utils.rttm import RTTM
r = RTTM.create_spkdiar(['f', 'f'], np.array([0., 1.]), np.array([2., 2.]), ['x', 'x'])
r.merge_adjacent_segments(0.5)
assert len(r) == 1 and r.tdur[0] == 3, r.segments
'''),
]
