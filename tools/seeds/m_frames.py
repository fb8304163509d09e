PRE = '''
import numpy as np
from hyperion.feats import MeanVarianceNorm, FrameSelector, EnergyVAD, MFCC
'''
SEEDS = [
 dict(id='p20-select-tol', property='P20',
  edits=[('hyperion/feats/frame_selector.py', "            if num_frames_vad - num_frames <= self.tol_num_frames:\n", "            if num_frames_vad - num_frames < self.tol_num_frames:\n")],
  needs='marks longer than the features by exactly the tolerance',
  breaks='a difference that is tolerated is refused',
  demo=PRE + '''
assert FrameSelector(1).select(np.ones((3, 2)), np.array([True] * 4)).shape == (3, 2)
'''),
 dict(id='p20-centre-frames', property='P20',
  edits=[('hyperion/feats/mfcc.py', "                dlen1_x = int(np.floor((self._length-self._shift)/2))\n", "                dlen1_x = int(np.floor(dlen_x/2))\n")],
  needs='frames that may reach over the ends, and a length that is not a multiple of the shift',
  breaks='frames are not in the middle of their shifts',
  demo=PRE + '''
x = np.zeros(404); x[96:98] = [1000, -1000]
c = dict(fs=1000, frame_length=20, frame_shift=10, dither=0, snip_edges=False)
m = MFCC(fft_length=64, num_filters=4, low_freq=60, output_step='logfb', **c).compute(x)[:, 0] > np.log(3e4)
v = EnergyVAD(vad_energy_mean_scale=0, vad_energy_threshold=np.log(3e4), **c).compute(x)
assert list(m) == list(v), (np.where(m), np.where(v))
'''),
 dict(id='p20-stage-square', property='P20',
  edits=[('hyperion/feats/mfcc.py', "        if self._input_step <= MFCCSteps.FFT and self._output_step >= MFCCSteps.FFT_MAG:\n", "        if self._input_step <= MFCCSteps.FFT_MAG and self._output_step > MFCCSteps.FFT_MAG:\n")],
  needs='the spectrum as result',
  breaks='the spectrum returned is the magnitude though squares are asked for',
  demo=PRE + '''
x = np.random.RandomState(0).randn(4000) * 100
c = dict(use_energy=False, dither=0)
f = MFCC(output_step='fft', **c).compute(x)
p = MFCC(output_step='fft_mag', **c).compute(x)
assert np.allclose(np.abs(f) ** 2, p, rtol=1e-3, atol=1e-3)
'''),
 dict(id='p20-preemph-state', property='P20',
  edits=[('hyperion/feats/mfcc.py', "        self._preemph_zi = np.array([0], dtype=float_cpu())\n", "        if not hasattr(self, '_preemph_zi'):\n            self._preemph_zi = np.array([0], dtype=float_cpu())\n")],
  needs='a second recording, after a reset',
  breaks='the first frame of a recording depends on the last sample of the recording before',
  demo=PRE + '''
x = np.arange(40.) * 10 + 100
m = MFCC(fs=1000, frame_length=20, frame_shift=10, fft_length=32, dither=0, remove_dc_offset=False, window_type='rectangular', use_energy=False, num_filters=4, low_freq=60, num_ceps=3)
a = m.compute(x, return_fft=True)[1]
m.reset()
b = m.compute(x, return_fft=True)[1]
assert np.allclose(a, b), (a[0, 0], b[0, 0])
'''),
 dict(id='p20-raw-energy', property='P20',
  edits=[('hyperion/feats/mfcc.py', "            # Compute raw energy\n            if self.use_energy and self.raw_energy:\n                logE = self.compute_raw_logE(x)\n\n", ""),
         ('hyperion/feats/mfcc.py', "                x, self._preemph_zi = lfilter(self._preemph_b, [1], x, zi=self._preemph_zi)\n", "                x, self._preemph_zi = lfilter(self._preemph_b, [1], x, zi=self._preemph_zi)\n\n            # Compute raw energy\n            if self.use_energy and self.raw_energy:\n                logE = self.compute_raw_logE(x)\n")],
  needs='pre-emphasis and the energy of the samples',
  breaks='the energy is the one after pre-emphasis',
  demo=PRE + '''
x = np.arange(40.) + 5
m = MFCC(fs=1000, frame_length=20, frame_shift=10, fft_length=32, dither=0, remove_dc_offset=False, num_filters=4, low_freq=60, num_ceps=3)
assert np.allclose(m.compute(x)[0, 0], np.log(np.sum(x[:20] ** 2)), atol=1e-3), m.compute(x)[0, 0]
'''),
 dict(id='p20-energy-floor', property='P20',
  edits=[('hyperion/feats/mfcc.py', "np.maximum(logE, np.log(self.energy_floor+1e-15))", "np.maximum(logE, np.log1p(self.energy_floor))")],
  needs='frames of very little energy, or a floor',
  breaks='energies below one are raised to one, and floors are one higher than asked for',
  demo=PRE + '''
x = np.zeros(40); x[[3, 13, 23, 33]] = .1
m = MFCC(fs=1000, frame_length=20, frame_shift=10, fft_length=32, dither=0, remove_dc_offset=False, num_filters=4, low_freq=60, num_ceps=3)
assert np.allclose(m.compute(x)[0, 0], np.log(.02), atol=1e-2), m.compute(x)[0, 0]
'''),
]
