A = 'hyperion/io/ark_data_reader.py'
H = 'hyperion/io/h5_data_reader.py'
K = 'hyperion/utils/kaldi_matrix.py'
SEEDS = [
 dict(id='p01-archive-handle', property='P01',
  edits=[(A, """        if self.f is None or file_path != self.cur_file:
            self.close()
            self.cur_file = file_path
            self.f = open(file_path, 'rb')
""", """        if self.f is None or file_path[-len(self.cur_file):] != self.cur_file:
            self.close()
            self.cur_file = file_path.split('/')[-1]
            self.f = open(file_path, 'rb')
""")],
  needs='a script whose consecutive lines point to archives with the same file name in different directories',
  breaks='the sequential script reader keeps reading from the previous archive',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, SequentialDataReaderFactory as R
for i, d in enumerate('ab'):
    with W.create('ark,scp:%s/%s/f.ark,%s/%s/f.scp' % (os.getcwd(), d, os.getcwd(), d)) as w:
        w.write(['k%d' % i], [np.full((3, 2), float(i))])
open('all.scp', 'w').write(open('a/f.scp').read() + open('b/f.scp').read())
k, x = R.create('scp:all.scp').read()
assert list(k) == ['k0', 'k1'] and x[0][0, 0] == 0 and x[1][0, 0] == 1
'''),
 dict(id='p01-h5-prefix', property='P01',
  edits=[(H, """        if path_prefix is not None:
            self.scp.add_prefix_to_filepath(path_prefix)

        archives, archive_idx = np.unique(
            self.scp.file_path, return_inverse=True)
        self.archives = archives""", """        archives, archive_idx = np.unique(
            self.scp.file_path, return_inverse=True)
        if path_prefix is not None:
            self.scp.add_prefix_to_filepath(path_prefix)

        self.archives = archives""")],
  needs='random access through a hdf5 script with a path prefix',
  breaks='the prefix is not applied to the files that are opened',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, RandomAccessDataReaderFactory as R
os.makedirs('x'); os.makedirs('y/x')
for d in ('x', 'y/x'):
    with W.create('h5,scp:%s/f.h5,%s/f.scp' % (d, d)) as w:
        w.write(['a'], [np.full((2, 2), float(len(d)))])
x = R.create('scp:x/f.scp', path_prefix='y/').read(['a'])
assert np.all(x[0] == 3), x
'''),
 dict(id='p01-h5-text-vec', property='P01',
  edits=[(K, """                    for j in xrange(self.num_cols):
                        f.write('%f ' % self.data[j])""", """                    for j in xrange(self.num_cols):
                        f.write('%.5g ' % self.data[j])""")],
  needs='a vector in a text archive with values of more than five significant digits',
  breaks='values of vectors lose digits in text archives',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, SequentialDataReaderFactory as R
x = np.array([1234.625, -0.5])
with W.create('ark,t:%s/f.ark' % os.getcwd()) as w:
    w.write(['k'], [x])
k, y = R.create('ark:f.ark').read()
assert np.allclose(x, y[0], atol=1e-3), y
'''),
 dict(id='p02-reset-eof', property='P02',
  edits=[(A, """            self.f.seek(0, 0)
            self._eof = False
""", """            self.f.seek(0, 0)
""")],
  needs='reading an ark file past its end, reset, and asking for the end of file before reading on',
  breaks='after a reset the reader still says that no record remains',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, SequentialDataReaderFactory as R
with W.create('ark:%s/f.ark' % os.getcwd()) as w:
    w.write(['a', 'b'], [np.ones((2, 2)), 2 * np.ones((2, 2))])
r = R.create('ark:f.ark')
r.read()
r.reset()
n = 0
while not r.eof():
    n += len(r.read(1)[0])
assert n == 2, n
'''),
 dict(id='p02-past-end', property='P02',
  edits=[(H, """        for i in xrange(num_records):
            if self.eof():
                break

            key, file_path, offset, range_spec = self.scp[self.cur_item]

            row_offset_i, num_rows_i = self._combine_ranges(range_spec, 0, 0)
""", """        for i in xrange(num_records):
            key, file_path, offset, range_spec = self.scp[self.cur_item % len(self.scp)]

            row_offset_i, num_rows_i = self._combine_ranges(range_spec, 0, 0)
""")],
  needs='asking a hdf5 script reader for more shapes than there are records left',
  breaks='the first records are announced again, and the end is never signalled',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, SequentialDataReaderFactory as R
with W.create('h5,scp:%s/f.h5,%s/f.scp' % (os.getcwd(), os.getcwd())) as w:
    w.write(['a', 'b', 'c'], [np.ones((2, 2))] * 3)
r = R.create('scp:f.scp')
k = list(r.read_shapes(2)[0]) + list(r.read_shapes(2)[0])
assert k == ['a', 'b', 'c'] and r.eof(), k
'''),
 dict(id='p03-shape-outside', property='P03',
  edits=[('hyperion/io/data_reader.py', """                assert shape[0] >= num_rows
                shape[0] = num_rows""", """                shape[0] = num_rows""")],
  needs='a script range that reaches beyond the end of its record and a request for shapes',
  breaks='rows are announced that do not exist',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, SequentialDataReaderFactory as R
with W.create('ark,scp:%s/f.ark,%s/f.scp' % (os.getcwd(), os.getcwd())) as w:
    w.write(['a'], [np.ones((9, 2))])
open('r.scp', 'w').write(open('f.scp').read().strip() + '[4:20]\\n')
try:
    n = R.create('scp:r.scp').read_num_rows()[1][0]
except Exception:
    n = 0
assert n <= 5, n
'''),
 dict(id='p03-h5-shape', property='P03',
  edits=[(H, """            if not (key in f):
                if self.permissive:
                    shapes.append((0,))
                    continue
                else:
                    raise Exception('Key %s not found' % key)

            shape_i = f[key].shape
            shape_i = self._apply_range_to_shape(
                shape_i, row_offset_i, num_rows_i)
""", """            if not (key in f):
                if self.permissive:
                    shapes.append((0,))
                    continue
                else:
                    raise Exception('Key %s not found' % key)

            shape_i = f[key].shape
            if num_rows_i > 0:
                shape_i = self._apply_range_to_shape(
                    shape_i, row_offset_i, num_rows_i)
""")],
  needs='shapes by key from a hdf5 script with a range that has a first row and no last row',
  breaks='the announced number of rows is that of the complete matrix',
  demo='''
import numpy as np, os
from hyperion.io.data_rw_factory import DataWriterFactory as W, RandomAccessDataReaderFactory as R
with W.create('h5,scp:%s/f.h5,%s/f.scp' % (os.getcwd(), os.getcwd())) as w:
    w.write(['a'], [np.ones((9, 2))])
open('r.scp', 'w').write(open('f.scp').read().strip() + '[4:]\\n')
r = R.create('scp:r.scp')
assert r.read_num_rows(['a'])[0] == len(r.read(['a'])[0]) == 5
'''),
]
