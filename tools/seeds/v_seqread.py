PRE = '''
import numpy as np, h5py
from hyperion.helpers import SequenceReader, SequenceClassReader, SequencePostReader
from hyperion.io import DataWriterFactory as DWF
from hyperion.utils import TrialNdx, ExtSegmentList
from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader
from hyperion.helpers.tracking_data_reader import TrackingDataReader
def w(p, *l):
    open(p, 'w').write(''.join(x + chr(10) for x in l))
    return p
def seqs(*n):
    with h5py.File('x.h5', 'w') as f:
        for s, k in enumerate(n, 1):
            f['s%d' % s] = np.stack((s + 0 * np.arange(k), np.arange(k)), 1).astype('float32')
    return 'x.h5', w('x.lst', *['c%d=s%d' % (s, s) for s in range(1, len(n) + 1)])
'''
TR = '''
wr = DWF.create('h5:v.h5')
wr.write(['u%d' % i for i in range(1, 9)], [np.array([i, 1.], 'float32') for i in range(1, 9)])
wr.close()
'''
F = 'hyperion/helpers/sequence_reader.py'
SEEDS = [
 dict(id='p30-frames-epoch', property='P30',
  edits=[(F, "            self.cur_subseq[:] = 0\n            if self.cur_frame is not None:\n                self.cur_frame[:] = 0\n", "            if self.cur_frame is not None:\n                self.cur_frame[self.cur_subseq == self.num_subseqs] = 0\n            self.cur_subseq[:] = 0\n")],
  needs='sequential pieces, an epoch that does not finish one of the sequences, and another epoch',
  breaks='the second epoch does not begin at the beginning of the sequences that were not finished',
  demo=PRE + '''
r = SequenceReader(*seqs(9, 12), batch_size=2, max_seq_length=3, seq_split_mode='sequential', shuffle_seqs=False)
a = [r.read() for b in range(r.num_batches)]
c = [r.read() for b in range(r.num_batches)]
for (x, k), (y, l) in zip(a, c):
    assert list(k) == list(l) and all(np.array_equal(u, v) for u, v in zip(x, y)), (k, l)
'''),
 dict(id='p30-post-shift', property='P30',
  edits=[('hyperion/helpers/sequence_post_reader.py', "    def _read_post_slice(self, file_path, index, seq_length):\n        r = self.post_r.read_slice(file_path, index, seq_length, field='.r')\n",
          "    def _read_post_slice(self, file_path, index, seq_length):\n        if self._num_batches is None:\n            index = 0\n        r = self.post_r.read_slice(file_path, index, seq_length, field='.r')\n"),
         ('hyperion/helpers/sequence_reader.py', "        if self._num_batches is None:\n            num_seqs = np.sum(self.num_subseqs)\n            self._num_batches = int(np.floor(num_seqs/self.batch_size))\n        return self._num_batches\n",
          "        if self._num_batches is not None:\n            return self._num_batches\n        num_seqs = np.sum(self.num_subseqs)\n        return int(np.floor(num_seqs/self.batch_size))\n")],
  needs='posteriors of random slices',
  breaks='the posteriors are those of the first frames of the recording, not those of the slice',
  demo=PRE + '''
a = seqs(30)
with h5py.File('p.h5', 'w') as g:
    g['s1.r'] = np.ones((30, 1), 'float32')
    g['s1.index'] = np.arange(30, dtype='float32')[:, None]
r = SequencePostReader(a[0], a[1], 'p.h5', num_comp=30, batch_size=1, max_seq_length=4, min_seq_length=2, seq_split_mode='random_slice')
for i in range(8):
    x, p, k = r.read()
    assert list(np.argmax(p[0], 1)) == list(x[0][:, 1].astype(int)), (x[0], np.argmax(p[0], 1))
'''),
 dict(id='p30-last-circle', property='P30',
  edits=[(F, "                if num_subseqs[self.cur_seq] == 1:\n                    seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])\n                    x_i = read_f(self.scp.file_path[self.cur_seq], seq_length_i)\n                else:\n                    x_i = read_f(self.scp.file_path[self.cur_seq], self.max_seq_length)\n",
          "                seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])\n                if self.cur_subseq[self.cur_seq] > 0:\n                    seq_length_i = min(seq_length_i, seq_length[self.cur_seq] - self.cur_subseq[self.cur_seq]*(self.max_seq_length - self.seq_split_overlap))\n                x_i = read_f(self.scp.file_path[self.cur_seq], seq_length_i)\n")],
  needs='random slices of a sequence whose length is not a multiple of the shift, last slice',
  breaks='the last random slice of a sequence is shorter than the others',
  demo=PRE + '''
r = SequenceReader(*seqs(11), batch_size=1, max_seq_length=4, min_seq_length=2, seq_split_mode='random_slice')
for i in range(2 * r.num_batches):
    x, k = r.read()
    assert len(x[0]) == 4, len(x[0])
'''),
 dict(id='p30-class-order', property='P30',
  edits=[('hyperion/helpers/sequence_class_reader.py', "            self.key_class={p: class_dict[k] for k, p in zip(self.scp.key, self.scp.file_path)}\n",
          "            classes = np.unique(self.scp.key)\n            if len(classes) == self.num_classes:\n                class_dict = {k: i for i, k in enumerate(classes)}\n            self.key_class={p: class_dict[k] for k, p in zip(self.scp.key, self.scp.file_path)}\n")],
  needs='a file of classes that is not in alphabetical order and all classes in the list',
  breaks='the label of a sequence is not the position of the class in the file of classes',
  demo=PRE + '''
r = SequenceClassReader(*seqs(3, 4, 5), w('cls', 'c2 x', 'c3 x', 'c1 x'), batch_size=3, shuffle_seqs=False)
x, k, y = r.read()
assert list(np.argmax(y, 1)) == [2, 0, 1], y
'''),
 dict(id='p30-enroll-part', property='P30',
  edits=[('hyperion/helpers/multi_test_trial_data_reader.py', "            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)\n            enroll = enroll.filter_info(ndx.model_set)\n", "            enroll = enroll.filter_info(ndx.model_set)\n            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)\n")],
  needs='trials of several parts of the test recordings split in parts of models',
  breaks='a part has the vectors of all models',
  demo=PRE + TR + '''
TrialNdx(['m1', 'm2'], ['g1', 'g2']).save('n.h5')
x_e, x_t, info, ndx, seg = MultiTestTrialDataReader('h5:v.h5', 'n.h5', w('e', 'u1 m1', 'u2 m2'), None, w('t', 'u3 g1', 'u4 g1', 'u5 g2'), None, model_idx=1, num_model_parts=2).read()
assert list(info) == list(ndx.model_set) and len(x_e) == 1, info
'''),
 dict(id='p30-track-other', property='P30',
  edits=[('hyperion/helpers/tracking_data_reader.py', "        ndx_seg = ndx.apply_segmentation_to_test(self.segments)\n        ndx_seg, enroll = TrialNdx.parse_eval_set(ndx_seg, self.enroll)\n        segments = self.segments.filter([key])\n        return enroll, ndx_seg, segments\n",
          "        ndx = ndx.filter(ndx.model_set[np.any(ndx.trial_mask, axis=1)], [key])\n        ndx_seg = ndx.apply_segmentation_to_test(self.segments)\n        segments = self.segments.filter([key])\n        return self.enroll, ndx_seg, segments\n")],
  needs='tracking in a recording without trials for one of the models',
  breaks='the vectors of enrollment have models that are not in the trials given with them',
  demo=PRE + TR + '''
TrialNdx(['m1', 'm2'], ['g1', 'g2'], np.array([[True, True], [False, True]])).save('n.h5')
ExtSegmentList.create(['u3', 'u4', 'u5'], ['g1', 'g1', 'g2'], [0., 1., 2.], [.5, 1.5, 2.5]).save('s')
r = TrackingDataReader('h5:v.h5', 'n.h5', w('e', 'u1 m1', 'u2 m2'), 's', None)
x_e, x_t, info, ndx, seg = r.read('g1')
assert set(info) <= set(ndx.model_set), (info, ndx.model_set)
'''),
]
