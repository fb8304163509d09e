PRE = '''
import os
import numpy as np
import soundfile as sf
from hyperion.io import SequentialAudioReader, RandomAccessAudioReader
d = os.environ['SCRATCH']


def make(x, fs, segs):
    sf.write(d + '/a.wav', np.array(x, dtype='int16'), fs, subtype='PCM_16')
    open(d + '/wav.scp', 'w').write('a %s/a.wav\\n' % d)
    open(d + '/segs', 'w').write(''.join('%s a %r %r\\n' % s for s in segs))
'''
SEEDS = [
 dict(id='p21-seg-length', property='P21',
  edits=[('hyperion/io/audio_reader.py', "        s_end = int(t_end * fs_i)\n", "        s_end = s_beg + int((t_end - t_beg) * fs_i)\n")],
  needs='a segment whose begin and duration are not whole numbers of samples',
  breaks='the last sample of a segment is missing',
  demo=PRE + '''
make(range(30), 10, [('s1', 0.25, 1.25 + 0.0625), ('s2', 0.25, 1.5), ('s3', 0.35, 0.75), ('s4', 0.1875, 0.8125)])
r = RandomAccessAudioReader(d + '/wav.scp', d + '/segs')
x = r.read(['s1', 's2', 's3', 's4'])[0]
assert [list(v) for v in x] == [list(range(2, 13)), list(range(2, 15)), list(range(3, 7)), list(range(1, 8))], x
'''),
 dict(id='p21-cache', property='P21',
  edits=[('hyperion/io/audio_reader.py', "        self.scale = wav_scale\n\n        \n", "        self.scale = wav_scale\n        self._last = (None, None, None)\n\n        \n"),
         ('hyperion/io/audio_reader.py', "        x_i, fs_i = self.read_wavspecifier(file_path, self.scale)\n        num_samples_i", "        if self._last[0] != file_path:\n            self._last = (file_path,) + tuple(self.read_wavspecifier(file_path, self.scale))\n        x_i, fs_i = self._last[1:]\n        num_samples_i")],
  needs='overlapping segments of one recording and a caller that changes what it received',
  breaks='segments are views of a shared buffer',
  demo=PRE + '''
make(range(30), 10, [('s1', 0., 1.), ('s2', 0.5, 2.)])
r = SequentialAudioReader(d + '/wav.scp', d + '/segs')
got = []
for k, x, fs in r:
    got.append(list(x))
    x -= 100
assert got == [list(range(10)), list(range(5, 20))], got
'''),
 dict(id='p21-random-missing', property='P21',
  edits=[('hyperion/io/audio_reader.py', "        s_beg = int(t_beg * fs_i)\n        if s_beg >= num_samples_i:\n", "        s_beg = int(t_beg * fs_i)\n        if s_beg > num_samples_i:\n")],
  needs='a segment that begins exactly where its recording ends',
  breaks='an empty segment is delivered instead of the refusal',
  demo=PRE + '''
make(range(30), 10, [('s1', 0., 1.), ('s2', 3., 4.)])
r = SequentialAudioReader(d + '/wav.scp', d + '/segs')
r.read(1)
try:
    r.read(1)
except Exception:
    pass
else:
    raise AssertionError('segment outside of the recording')
'''),
]
