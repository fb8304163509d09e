PRE = '''
import os, subprocess, sys, types
import numpy as np, h5py
import soundfile as sf
from hyperion.io import DataWriterFactory as DWF, SequentialDataReaderFactory as DRF
import hyperion
B = os.path.join(os.path.dirname(hyperion.__file__), 'bin')
def tool(n, *a):
    subprocess.run([sys.executable, '-W', 'ignore', os.path.join(B, n + '.py')] + [str(v) for v in a], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def w(p, *l):
    open(p, 'w').write(''.join(x + chr(10) for x in l))
    return p
def wav(p, x):
    sf.write(p, np.asarray(x, dtype='int16'), 1000, 'PCM_16')
def rd(s):
    with DRF.create(s) as r:
        return dict((k, x) for k, x in r)
'''
SEEDS = [
 dict(id='p29-rttm-other-part', property='P29',
  edits=[('hyperion/bin/rttm-to-bin-vad.py', "    segments_orig = copy.deepcopy(segments)\n    if num_parts  > 1:\n        segments = segments.split(part_idx, num_parts)\n",
          "    if num_parts  > 1:\n        segments = segments.split(part_idx, num_parts)\n    segments_orig = copy.deepcopy(segments)\n")],
  needs='an RTTM file split in parts, with a list of the numbers of frames',
  breaks='the first part has the files of the other parts, all marked as speech',
  demo=PRE + '''
r = w('a.rttm', *['SPEAKER %s 1 0.02 0.03 <NA> <NA> s <NA> <NA>' % f for f in ('fa', 'fb')])
n = w('n', 'fa 9', 'fb 9', 'fc 4')
tool('rttm-to-bin-vad', '--rttm', r, '--num-frames', n, '--output-path', 'h5:o.h5', '--num-parts', 2, '--part-idx', 1)
assert sorted(rd('h5:o.h5')) == ['fa', 'fc'], sorted(rd('h5:o.h5'))
'''),
 dict(id='p29-mfcc-reset', property='P29',
  edits=[('hyperion/bin/compute-mfcc-feats.py', "            f_num_frames.write('%s %d\\n' % (key, y.shape[0]))\n\n        mfcc.reset()\n",
          "            f_num_frames.write('%s %d\\n' % (key, y.shape[0]))\n            mfcc.reset()\n")],
  needs='several recordings, one with an offset before another, without --write-num-frames',
  breaks='state of the filter that removes the offset goes from one recording to the next',
  demo=PRE + '''
wav('a.wav', [1000] * 400)
wav('b.wav', [0] * 200)
s = w('x.scp', 'a a.wav', 'b b.wav')
tool('compute-mfcc-feats', '--input', s, '--output', 'h5:o.h5', '--sample-frequency', 1000, '--frame-length', 20, '--frame-shift', 10, '--fft-length', 64, '--num-filters', 4, '--low-freq', 60, '--high-freq', 400, '--num-ceps', 4, '--dither', 1)
assert np.all(rd('h5:o.h5')['b'][:, 0] < 6), rd('h5:o.h5')['b'][:, 0]
'''),
 dict(id='p29-vad-reset', property='P29',
  edits=[('hyperion/bin/compute-energy-vad.py', "        writer.write([key], [y])\n        \n        vad.reset()\n", "        writer.write([key], [y])\n        if y.shape[0] == 0:\n            vad.reset()\n")],
  needs='a recording with an offset before another',
  breaks='speech marked in silence after a recording with an offset',
  demo=PRE + '''
wav('a.wav', [1000] * 400)
wav('b.wav', [0] * 200)
s = w('x.scp', 'a a.wav', 'b b.wav')
tool('compute-energy-vad', '--input', s, '--output', 'h5:o.h5', '--sample-frequency', 1000, '--frame-length', 20, '--frame-shift', 10, '--vad-energy-threshold', 10, '--vad-energy-mean-scale', 0)
assert not np.any(rd('h5:o.h5')['b']), rd('h5:o.h5')['b']
'''),
 dict(id='p29-post-partition', property='P29',
  edits=[('hyperion/bin/compute-gmm-post.py', "    index = np.argsort(r, axis=1)[:,-num_comp:]\n", "    index = np.argpartition(r, num_comp-1, axis=1)[:,-num_comp:]\n")],
  needs='fewer components kept than dropped',
  breaks='the components that are kept are not those with the highest posteriors',
  demo=PRE + '''
import runpy
k = types.ModuleType('keras')
k.backend = types.ModuleType('keras.backend')
sys.modules.update({'keras': k, 'keras.backend': k.backend})
R = np.random.RandomState(0)
f = runpy.run_path(os.path.join(B, 'compute-gmm-post.py'), run_name='m')['to_sparse']
for n in range(1, 7):
    r = R.rand(50, 20)
    p, i = f(r, n)
    for a, b in zip(r, i):
        assert sorted(b) == sorted(np.argsort(a)[-n:]), (n, b)
'''),
 dict(id='p29-elbo-mean', property='P29',
  edits=[('hyperion/bin/eval-elbo-ubm.py', "    total_elbo_norm = total_elbo/num_total_frames\n", "    total_elbo_norm = np.mean(elbo/num_frames)\n")],
  needs='recordings with different numbers of frames',
  breaks='log-likelihood for each frame is not that of the frames of all recordings',
  demo=PRE + '''
from hyperion.pdfs import DiagGMM
DiagGMM(mu=np.zeros((1, 1)), Lambda=np.ones((1, 1)), pi=np.ones(1), x_dim=1, num_comp=1).save('m.h5')
with h5py.File('x.h5', 'w') as f:
    f['a'] = np.zeros((9, 1), dtype='float32')
    f['b'] = 4 * np.ones((1, 1), dtype='float32')
tool('eval-elbo-ubm', '--seq-file', 'x.h5', '--file-list', w('l', 'a=a', 'b=b'), '--model-file', 'm.h5', '--output-file', 'o')
t, n = [float(l.split()[-1]) for l in open('o')]
assert abs(t - (-.918939 * 10 - 8)) < 1e-3 and abs(n - t / 10) < 1e-3, (t, n)
'''),
 dict(id='p29-plda-val-pre', property='P29',
  edits=[('hyperion/bin/train-plda.py', "        vcr_val = VCR(iv_file, val_list, preproc, **vcr_args)\n", "        vcr_val = VCR(iv_file, val_list, **vcr_args)\n")],
  needs='a list of validation together with a transform of the vectors',
  breaks='objective of the validation data is of vectors without the transform',
  demo=PRE + '''
from hyperion.transforms import TransformList, MVN
R = np.random.RandomState(0)
x = (np.repeat(R.randn(8, 2) * 3, 4, axis=0) + R.randn(32, 2)).astype('float32')
TransformList([MVN(mu=np.array([50., -50.]), s=np.ones(2), name='t')]).save('p.h5')
l = w('l', *['u%02d c%d' % (i, i // 4) for i in range(32)])
def run(x, *a):
    with DWF.create('h5:x.h5') as f:
        f.write(['u%02d' % i for i in range(32)], list(x))
    tool('train-plda', '--iv-file', 'h5:x.h5', '--train-list', l, '--val-list', l, '--output-path', 'm.h5', '--plda-type', 'splda', '--y-dim', 1, '--epochs', 2, *a)
    return np.loadtxt('m.csv', delimiter=',')
a, b = run(x), run(x + np.array([50., -50.], dtype='float32'), '--preproc-file', 'p.h5')
assert np.allclose(a, b, rtol=1e-2), (a, b)
'''),
 dict(id='p29-plda-md', property='P29',
  edits=[('hyperion/bin/train-plda.py', "                      epochs=epochs, ml_md=ml_md, md_epochs=md_epochs)\n", "                      epochs=epochs, ml_md=ml_md)\n")],
  needs='epochs with minimum divergence chosen with --md-epochs',
  breaks='minimum divergence is done in every epoch',
  demo=PRE + '''
from hyperion.helpers import PLDAFactory as F
from hyperion.pdfs.plda import SPLDA
R = np.random.RandomState(0)
c0 = np.sort(np.r_[np.arange(6), R.randint(0, 6, 26)])
x = (R.randn(6, 2)[c0] * 3 + R.randn(32, 2) + 5).astype('float32')
l = w('l', *['u%02d c%d' % (i, c0[i]) for i in range(32)])
with DWF.create('h5:x.h5') as f:
    f.write(['u%02d' % i for i in range(32)], list(x))
tool('train-plda', '--iv-file', 'h5:x.h5', '--train-list', l, '--output-path', 'm.h5', '--plda-type', 'splda', '--y-dim', 1, '--epochs', 3, '--md-epochs', 2)
m = SPLDA(y_dim=1)
el = m.fit(x.astype('float64'), c0, epochs=3, md_epochs=[2])
c = np.loadtxt('m.csv', delimiter=',')
assert np.allclose(c[:, 1], np.ravel(el[0]), atol=1e-2), (c, el)
t = F.load_plda('splda', 'm.h5')
assert np.allclose(m.V, t.V, rtol=1e-3) and np.allclose(m.mu, t.mu, rtol=1e-3), (m.V, t.V)
'''),
]
