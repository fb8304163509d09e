"""P20: frame level processing."""
import argparse
import contextlib
import importlib
import io
import math
import random

import numpy as np
import vf
from vf import call

STEPS = ['wave', 'fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum']


def by_options(cl, via, pre, names=None, neg=(), **kw):
    """cl(**kw), or the same through command line options"""
    if not via:
        return cl(**kw)
    p = argparse.ArgumentParser()
    cl.add_argparse_args(p, pre) if pre else cl.add_argparse_args(p)
    d = '--' + pre + '-' if pre else '--'
    argv = []
    for k, v in kw.items():
        o = (names or {}).get(k, k.replace('_', '-'))
        if k in neg:
            argv += [] if v else [d + 'no-' + o]
        elif isinstance(v, bool) and (names or {}).get('flags'):
            argv += [d + o] if v else []
        else:
            argv += [d + o, str(v)]
    return cl(**cl.filter_args(pre, **vars(p.parse_args(argv))) if pre else cl.filter_args(**vars(p.parse_args(argv))))


def q100(v):
    return vf.as_int(round(float(v) * 100)) if math.isfinite(v) and abs(v) < 1e6 else 99999999


class Known:
    """values by number: two arrays have the same number when they are equal up to rounding"""

    def __init__(self):
        self.v = []

    def id(self, a):
        a = np.asarray(a)
        for k, b in enumerate(self.v):
            if a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= 1e-3 * (1 + np.abs(b))):
                return k + 1
        self.v.append(a)
        return len(self.v)


def wave(o):
    r = np.random.RandomState(o['seed'])
    return np.round(r.randn(o['n']) * o['amp']).astype(['float32', 'float64'][o['seed'] % 2])


def execute(script, wd):
    from hyperion.feats import MeanVarianceNorm, FrameSelector, EnergyVAD, MFCC
    ST = importlib.import_module('hyperion.feats.stft')
    from hyperion.feats.feature_windows import FeatureWindowFactory as W
    evs = []
    known = Known()
    vals = {}
    objs = {}
    for o in script['ops']:
        op, via, pre = o['op'], o.get('via'), o.get('pre')
        if op == 'norm':
            q = np.array(o['q']).T
            x = q.astype(o['dtype'])
            x0 = x.copy()

            def f():
                L, R = o['L'], o['R']
                if via and L >= 0 and R >= 0:
                    m = by_options(MeanVarianceNorm, True, pre, {'norm_mean': 'norm-mean', 'flags': 1}, ('norm_mean',), norm_mean=o['mean'], norm_var=o['var'], left_context=L, right_context=R)
                elif via:
                    m = MeanVarianceNorm(**MeanVarianceNorm.filter_args(pre, **{(pre + '_' if pre else '') + k: v for k, v in
                                         {'norm_mean': o['mean'], 'norm_var': o['var'], 'left_context': None if L < 0 else L, 'right_context': None if R < 0 else R}.items()}))
                else:
                    m = MeanVarianceNorm(o['mean'], o['var'], None if L < 0 else L, None if R < 0 else R)
                with np.errstate(all='ignore'):
                    return np.asarray(getattr(m, {'': 'normalize', 'global': 'normalize_global'}.get(o['alg'], 'normalize_' + o['alg']))(x))
            y, exc = call(f)
            same = bool(np.array_equal(x, x0))
            for c in range(len(o['q'])):
                evs.append({'op': 'norm', 'exc': exc, 'q': o['q'][c], 'L': -1 if o['alg'] == 'global' else o['L'], 'R': -1 if o['alg'] == 'global' else o['R'],
                            'mean': o['mean'], 'var': o['var'], 'alg': o['alg'], 'same': same, 'y': [q100(v) for v in y[:, c]] if not exc else []})
                if exc:
                    break
        elif op == 'select':
            x = np.array([[i, -i] for i in range(1, o['n'] + 1)], dtype='float32').reshape(o['n'], 2)

            def f():
                fs = by_options(FrameSelector, via, pre, tol_num_frames=o['tol'])
                return [vf.as_int(r[0]) for r in fs.select(x, np.array(o['sel'], dtype=o['dtype']))]
            r, exc = call(f)
            evs.append({'op': op, 'exc': exc, 'n': o['n'], 'sel': [bool(s) for s in o['sel']], 'tol': o['tol'], 'rows': r or []})
        elif op == 'vad':
            x = np.zeros((len(o['e']), 3), dtype='float32') + 7
            x[:, 0] = o['e']

            def f():
                v = by_options(EnergyVAD, via, pre, vad_energy_mean_scale=o['sc'][0] / o['sc'][1], vad_energy_threshold=o['T'][0] / o['T'][1], vad_frames_context=o['ctx'],
                               vad_proportion_threshold=o['p'][0] / o['p'][1])
                with contextlib.redirect_stdout(io.StringIO()):
                    return [bool(b) for b in v.compute(x)]
            r, exc = call(f)
            evs.append({'op': op, 'exc': exc, 'e': o['e'], 'T': o['T'], 'sc': o['sc'], 'ctx': o['ctx'], 'p': o['p'], 'v': r or []})
        elif op == 'frames':
            x = np.zeros((o['n'],))
            for k, b in enumerate(o['burst']):
                x[b] = 1000. * (-1) ** k

            def f():
                kw = dict(fs=1000, frame_length=o['L'], frame_shift=o['S'], dither=o['dither'], snip_edges=o['snip'])
                nm = {'fs': 'sample-frequency'}
                thr = math.log(3e4)
                with contextlib.redirect_stdout(io.StringIO()):
                    if o['what'] == 'vad':
                        return [bool(b) for b in by_options(EnergyVAD, via, pre, nm, vad_energy_mean_scale=0, vad_energy_threshold=thr, **kw).compute(x)]
                    m = by_options(MFCC, via, pre, nm, fft_length=64, num_filters=4, low_freq=60, output_step='logfb', use_energy=True, raw_energy=True, **kw)
                    return [bool(b > thr) for b in m.compute(x)[:, 0]]
            r, exc = call(f)
            evs.append({'op': op, 'exc': exc, 'n': o['n'], 'L': o['L'], 'S': o['S'], 'snip': o['snip'], 'burst': o['burst'], 'v': r or []})
        elif op == 'wave':
            x = np.array(o['x'], dtype=o['dtype'])

            def f():
                kw = dict(fs=1000, frame_length=o['L'], frame_shift=o['S'], dither=0, snip_edges=o['snip'], remove_dc_offset=False, window_type='rectangular', fft_length=32,
                          preemph_coeff=o['p'] / 2, use_energy=o['energy'], raw_energy=True, energy_floor=o['floor'], num_filters=4, low_freq=60, num_ceps=3, output_step=o['to'])
                if via:
                    kw.pop('remove_dc_offset')
                    p = argparse.ArgumentParser()
                    MFCC.add_argparse_args(p)
                    a = MFCC.filter_args(**vars(p.parse_args([])))
                    a.update(kw, remove_dc_offset=False)
                    kw = a
                m = MFCC(**kw)
                if o['again']:
                    m.compute(x[::-1] + 3)
                    m.reset()
                R, X = m.compute(x, return_fft=True)
                i = lambda v: [vf.as_int(round(float(a))) if math.isfinite(a) and abs(a) < 1e6 else 99999999 for a in v]
                # the first coefficient of a spectrum asked for with energy is the energy
                return [i(np.real(X[:, 0]) * 2), i(np.real(X[:, 16]) * 2), i(np.exp(np.minimum(np.real(R[:, 0]), 50))) if o['energy'] else []]
            r, exc = call(f)
            r = r or [[], [], []]
            evs.append({'op': op, 'exc': exc, 'x': o['x'], 'L': o['L'], 'S': o['S'], 'snip': o['snip'], 'p': o['p'], 'energy': o['energy'], 'floor': o['floor'], 'lo': r[0], 'hi': r[1], 'e': r[2]})
        elif op == 'invert':
            x = np.array(o['x'], dtype='float64')

            def f():
                w = W.create(o['win'], o['L']) if o['win'] else None
                n = o['fft']
                y = ST.istrft(ST.strft(x, o['L'], o['S'], n, w), o['L'], o['S'], w) if o['real'] else ST.istft(ST.stft(x, o['L'], o['S'], n, w), o['L'], o['S'], w)
                return [vf.as_int(round(float(v))) if abs(v) < 1e6 else 99999999 for v in np.real(y)]
            r, exc = call(f)
            evs.append({'op': op, 'exc': exc, 'x': o['x'], 'L': o['L'], 'S': o['S'], 'from': 1 if o['win'] not in (None, 'rectangular', 'hamming') else 0, 'back': r or []})
        elif op == 'stage':
            c = script['mfcc']
            src = wave(o['w']) if o['from'] == 'wave' else vals.get((str(o['w']), o['from']))
            if src is None:
                continue
            x0 = src.copy()

            def f():
                k = (o['from'], o['to'])
                if k not in objs:
                    objs[k] = by_options(MFCC, via and o['from'] != 'cepstrum', pre, {'fs': 'sample-frequency', 'preemph_coeff': 'preemphasis-coeff'}, input_step=o['from'], output_step=o['to'], **c)
                else:
                    objs[k].reset()
                kw = {'return_' + r: True for r in o['ret']}
                return objs[k].compute(src, **kw)
            r, exc = call(f)
            w = repr(o['w'])
            if exc:
                evs.append({'op': op, 'exc': exc, 'w': w, 'from': o['from'], 'to': o['to'], 'id': 0, 'same': True})
                break
            same = bool(np.array_equal(src, x0))
            r = r if isinstance(r, tuple) else (r,)
            E = c['use_energy']
            out = [(o['to'], r[0])] + ([(o['to'] + ' but the first coefficient', r[0][:, 1:])] if E else [])
            for name, a in zip([n for n in ('fft', 'fft_mag', 'logfb') if n in o['ret']], r[1:]):
                out.append((name, a) if not E else (name + ' but the first coefficient', a if name == 'logfb' else a[:, 1:]))
            for g, a in out:
                evs.append({'op': op, 'exc': '', 'w': w, 'from': o['from'], 'to': g, 'id': known.id(np.maximum(a, -12) if g.startswith('log_spec') else a), 'same': same})
            vals.setdefault((str(o['w']), o['to']), r[0])
        if evs[-1]['exc'] and op != 'select':
            break
    return {'init': 0, 'ev': evs}


def how(rnd):
    return {'via': rnd.random() < 0.4, 'pre': rnd.choice([None, 'a', 'x_y'])}


def norm_op(rnd, q, L, R):
    return dict(how(rnd), op='norm', q=q, L=L, R=R, mean=rnd.random() < 0.8, var=rnd.random() < 0.5, alg=rnd.choice(['', 'conv', 'cumsum', 'slow', 'global'] if L >= 0 or R >= 0 else ['', 'global']),
                dtype=rnd.choice(['float32', 'float64']))


def gen_feat(rnd):
    ops = []
    for _ in range(rnd.choice([2, 4, 6])):
        z = rnd.random()
        if z < 0.4:
            n, v = rnd.choice([1, 2, 3, 5, 7, 10]), rnd.choice([1, 3, 6])
            q = [[rnd.randint(-v, v) for _ in range(n)] for _ in range(rnd.choice([1, 1, 2]))]
            if rnd.random() < 0.15:
                q[0] = [q[0][0]] * n
            ops.append(norm_op(rnd, q, rnd.choice([-1, 0, 1, 2, 3, 5, n - 1, n, n + 3]), rnd.choice([-1, 0, 1, 2, 3, 5, n - 1, n, n + 3])))
        elif z < 0.6:
            n = rnd.randint(1, 12)
            m = max(1, n + rnd.choice([0, 0, 1, -1, 3, -3, 5, -5]))
            ops.append(dict(how(rnd), op='select', n=n, sel=[rnd.randint(0, 1) for _ in range(m)], tol=rnd.choice([0, 1, 3, 5]), dtype=rnd.choice(['bool', 'bool', 'int32', 'float32', 'uint8'])))
        elif z < 0.85:
            n = rnd.choice([1, 2, 3, 6, 9, 15])
            ops.append(dict(how(rnd), op='vad', e=[rnd.randint(-3, 12) for _ in range(n)], T=[rnd.randint(-4, 20), rnd.choice([1, 2])], sc=rnd.choice([[0, 1], [1, 2], [1, 4], [1, 1]]),
                            ctx=rnd.choice([0, 1, 1, 2, 3, 5, n]), p=rnd.choice([[3, 5], [1, 2], [1, 3], [9, 10], [1, 10], [7, 10], [2, 3]])))
        else:
            L = rnd.choice([4, 8, 9, 16])
            S = rnd.choice([1, 2, L // 2, L // 4, L, L + 3])
            n = L + rnd.randint(0, 5 * L)
            real = rnd.random() < 0.5
            fft = rnd.choice([L + L % 2, 16, 32])
            ops.append({'op': 'invert', 'x': [rnd.randint(-30, 30) for _ in range(n)], 'L': L, 'S': S, 'fft': max(fft, L + L % 2), 'real': real,
                        'win': rnd.choice([None, 'rectangular', 'hamming', 'hanning', 'povey', 'blackman'])})
    return {'ops': ops}


def gen_frames(rnd):
    ops = []
    for _ in range(rnd.choice([1, 2, 3])):
        S = rnd.choice([1, 2, 5, 10])
        L = S * rnd.choice([2, 3, 4]) + rnd.choice([0, 0, 1]) if rnd.random() < 0.7 else rnd.randint(max(S, 2), 2 * S + 1)
        n = L + rnd.randint(0, 8 * L)
        b = sorted(rnd.sample(range(n), min(n, rnd.choice([1, 1, 2, 5]))))
        ops.append(dict(how(rnd), op='frames', n=n, L=L, S=S, snip=rnd.random() < 0.5, burst=b, dither=rnd.choice([0, 0, 1]), what=rnd.choice(['vad', 'mfcc'])))
    return {'ops': ops}


def wave_op(rnd, x, L, S):
    return {'op': 'wave', 'via': rnd.random() < 0.3, 'x': x, 'L': L, 'S': S, 'snip': rnd.random() < 0.5, 'p': rnd.choice([0, 1, 1, 2]), 'energy': rnd.random() < 0.7, 'floor': rnd.choice([0, 0, 40, 3000]),
            'to': rnd.choice(['fft_mag', 'log_spec', 'logfb', 'cepstrum']), 'again': rnd.random() < 0.4, 'dtype': rnd.choice(['float32', 'float64'])}


def gen_wave(rnd):
    ops = []
    for _ in range(rnd.choice([1, 2, 4])):
        L = rnd.choice([4, 8, 9, 16, 31, 32])
        S = rnd.choice([1, 2, 3, L // 2, L // 2 + 1, L])
        n = L + rnd.choice([0, 1, S - 1, S, rnd.randint(0, 3 * L)])
        v = rnd.choice([1, 5, 30])
        ops.append(wave_op(rnd, [rnd.randint(-v, v) for _ in range(n)], L, S))
    return {'ops': ops}


def gen_stages(rnd):
    c = {'fs': 1000, 'frame_length': 32, 'frame_shift': rnd.choice([8, 10, 16]), 'fft_length': rnd.choice([32, 64]), 'remove_dc_offset': rnd.random() < 0.6, 'preemph_coeff': rnd.choice([0, 0.5, 0.97]),
         'window_type': rnd.choice(['povey', 'hamming', 'hanning', 'rectangular', 'blackman']), 'use_fft2': rnd.random() < 0.6, 'dither': rnd.choice([0, 1]), 'fb_type': rnd.choice(['mel_kaldi', 'mel_etsi', 'linear']),
         'low_freq': 60, 'high_freq': rnd.choice([0, 450]), 'num_filters': rnd.choice([3, 4]), 'norm_filters': rnd.random() < 0.4, 'num_ceps': rnd.choice([2, 3]), 'snip_edges': rnd.random() < 0.6,
         'energy_floor': rnd.choice([0, 0, 1e-3, 50]), 'raw_energy': rnd.random() < 0.6, 'use_energy': rnd.random() < 0.6, 'cepstral_lifter': rnd.choice([0, 22, 10])}
    ws = [{'n': rnd.choice([64, 100, 150]), 'seed': rnd.randint(0, 99), 'amp': rnd.choice([1, 10, 1000])} for _ in range(rnd.choice([1, 2]))]
    ops, seen = [], set()
    h = how(rnd)
    for _ in range(rnd.choice([4, 8, 12])):
        k = rnd.randrange(len(ws))
        a = rnd.choice([0] + sorted({0} | {g for w, g in seen if w == k}))
        a = min(a, 4)
        b = rnd.randint(max(a, 1), 5)
        ret = []
        if a <= 1 and rnd.random() < 0.2:
            ret.append('fft')
        if a <= 2 <= b and not (b == 2 and c['use_energy']) and rnd.random() < 0.2:
            ret.append('fft_mag')
        if a <= 4 <= b and rnd.random() < 0.2:
            ret.append('logfb')
        ops.append(dict(h, op='stage', w=ws[k], **{'from': STEPS[a], 'to': STEPS[b]}, ret=ret))
        seen.add((k, b))
    return {'mfcc': c, 'ops': ops}


def gen_script(rnd, what='feat'):
    return {'feat': gen_feat, 'frames': gen_frames, 'wave': gen_wave, 'stages': gen_stages}[what](rnd)


def from_model(rnd, m):
    n = len(m['q'])
    ops = [norm_op(rnd, [m['q']], m['L'], m['R']), norm_op(rnd, [m['q']], m['L'], m['R'])]
    if m['L'] >= 0:
        ops.append(dict(how(rnd), op='vad', e=[v * 4 for v in m['q']], T=[1, 1], sc=rnd.choice([[0, 1], [1, 2]]), ctx=m['L'], p=rnd.choice([[3, 5], [1, 2], [1, 3]])))
    if m['R'] >= 0:
        ops.append(dict(how(rnd), op='select', n=max(1, n + m['R'] - 2), sel=[v > 0 for v in m['q']], tol=rnd.choice([0, 1, 2, 3]), dtype='bool'))
    if n > 1 and m['L'] >= 1 and m['R'] >= 0 and m['L'] + m['R'] <= n:
        ops.append(wave_op(rnd, m['q'], m['L'] + m['R'], m['L']))
    return {'ops': ops}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] == 'norm' and e['mean'] and not e['var']:
            e['y'][0] += 50
            return b
        if e['op'] in ('vad', 'frames') and e['v']:
            e['v'][-1] = not e['v'][-1]
            return b
        if e['op'] == 'wave' and e['lo']:
            e['hi'][-1] += 2
            return b
        if e['op'] == 'stage' and sum(1 for f in b['ev'] if f['op'] == 'stage' and (f['w'], f['to']) == (e['w'], e['to'])) > 1:
            e['id'] += 1000
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Frames', cfg='MC_Frames.cfg', want=500)
    if ck.thorough:
        ms += ck.model('MC_Frames', cfg='MC_Frames_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(1500, 10000)]]
    for what, n, m in (('feat', 3000, 30000), ('frames', 1500, 15000), ('wave', 1200, 12000), ('stages', 800, 8000)):
        scripts += [gen_script(rnd, what) for _ in range(ck.pick(n, m))]
    behs = ck.execute('checks.p20', scripts)
    ck.judge('Trace_Frames', behs, scripts, 'checks.p20', label='frames', batch=4000)
    ck.negative_control('Trace_Frames', behs[:100] + behs[-900:-700] + behs[-200:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P20', run)
