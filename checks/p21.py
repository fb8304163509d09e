"""P21: audio readers and writers."""
import argparse
import os
import random

import numpy as np
import vf
from vf import call

#: format, subtype, wav_scale that gives back the integers
FORMATS = [('wav', None, 15), ('wav', 'PCM_16', 15), ('flac', None, 15), ('flac', 'PCM_16', 15), ('au', None, 15), ('caf', None, 15), ('w64', None, 15), ('rf64', None, 15), ('wav', 'PCM_32', 31),
           ('wav', 'FLOAT', 0), ('wav', 'DOUBLE', 0), ('au', 'FLOAT', 0), ('caf', 'PCM_32', 31), ('caf', 'FLOAT', 0), ('w64', 'FLOAT', 0), ('rf64', 'PCM_32', 31), ('voc', 'PCM_16', 15), ('avr', 'PCM_16', 15),
           ('pvf', 'PCM_16', 15), ('htk', 'PCM_16', 15)]
REFUSED = [('wav', 'PCM_24', 15), ('flac', 'PCM_24', 15)]


def ints(x):
    x = np.asarray(x, dtype='float64')
    if x.ndim != 1:
        return [99999999]
    return [int(v) if np.isfinite(v) and v == int(v) and abs(v) < 2e9 else 99999998 for v in x]


def own(xs):
    """the caller owns what was delivered"""
    out = [ints(x) for x in xs]
    for x in xs:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 7
    return out


def options(cl, via, pre, **kw):
    if via == '':
        return kw
    p = argparse.ArgumentParser()
    cl.add_argparse_args(p, pre) if pre else cl.add_argparse_args(p)
    argv = []
    for k, v in kw.items():
        argv += ['--' + (pre + '-' if pre else '') + k.replace('_', '-'), str(v)]
    d = vars(p.parse_args(argv))
    if via == 'filter':
        return cl.filter_args(pre, **d)
    return {k: d[(pre + '_' if pre else '') + k] for k in kw}


def seg_arg(o, script, wd):
    from hyperion.utils import SegmentList
    if not o['seg']:
        return None
    p = os.path.join(wd, 'segments')
    with open(p, 'w') as f:
        for g in script['segs']:
            f.write('%s %s %s %s\n' % (g['key'], g['file'], repr(g['tb'] / 64), repr(g['te'] / 64)))
    if o['obj']:
        return SegmentList.load(p, sep=' ', index_by_file=False)
    return p


def wav_scale(o, bits):
    return o['c'] * (2. ** bits if o['f'] else 2 ** bits)


def drain(r, how):
    if how == 'iter':
        out = list(r)
        return [a[0] for a in out], [a[1] for a in out], [a[2] for a in out]
    return r.read()


def execute(script, wd):
    from hyperion.io import AudioWriter, SequentialAudioReader, RandomAccessAudioReader
    from hyperion.io.audio_reader import SequentialAudioReader as SAR, RandomAccessAudioReader as RAR
    from hyperion.utils import SCPList
    evs, rds = [], []
    w = script['write']
    fmt, sub, bits = w['fmt']
    recs = script['recs']
    keys = [r['key'] for r in recs]
    out, scp = os.path.join(wd, 'audio'), os.path.join(wd, 'wav.scp')

    def f():
        a = AudioWriter(out, scp, audio_format=fmt, subtype=sub)
        with a:
            xs = [np.array(r['x'], dtype=w['dtype']) for r in recs]
            fs = [r['fs'] for r in recs]
            x0 = [x.copy() for x in xs]
            one = len(set(fs)) == 1
            i = 0
            for n in w['sizes'] + [len(recs)]:
                j = min(len(recs), i + n)
                if j == i:
                    continue
                if j == i + 1 and w['single']:
                    a.write(keys[i], xs[i], fs[i])
                else:
                    a.write(keys[i:j], xs[i:j], (fs[i] if one and w['single'] else np.array(fs[i:j]) if w['arr'] else fs[i:j]))
                i = j
            for x, y in zip(xs, x0):
                if not np.array_equal(x, y):
                    raise ValueError('the samples given to the writer changed')
        with open(scp) as g:
            return [ln.split(' ')[0] for ln in g.read().splitlines()]
    got, exc = call(f)
    evs.append({'op': 'write', 'keys': keys, 'scp': got or [], 'maybe': script['write']['fmt'] in [list(x) for x in REFUSED], 'exc': exc})
    if exc:
        return {'init': {'recs': recs, 'segs': script['segs']}, 'ev': evs}
    if w['pipe']:
        lines = open(scp).read().splitlines()
        with open(scp, 'w') as g:
            for i, ln in enumerate(lines):
                k, p = ln.split(' ', 1)
                g.write('%s %s\n' % (k, ('cat %s |' % p) if i in w['pipe'] else p))
    for o in script['ops']:
        op = o['op']
        if op in ('open', 'parts', 'random'):
            sc = wav_scale(o, bits)
            path = SCPList.load(scp, sep=' ') if o['scp'] else scp
        if op == 'open':
            def f():
                kw = dict(wav_scale=sc, part_idx=o['part'], num_parts=o['parts'])
                r = SAR(path, seg_arg(o, script, wd), **options(SAR, o['via'], o['pre'], **kw))
                t = SAR(path, seg_arg(o, script, wd), **kw) if o['parts'] > 1 else None
                return r, t
            r, exc = call(f)
            ks = [g['key'] for g in script['segs']] if o['seg'] else keys
            if not exc and o['parts'] > 1:
                # the keys of the part are those of the lists' division
                ks = [s['segment_id'] for s in r[0].segments] if o['seg'] else [str(k) for k in r[0].scp.key]
            evs.append({'op': op, 'seg': o['seg'], 'keys': [str(k) for k in ks], 'c': o['c'], 'exc': exc})
            if exc:
                break
            rds.append(r[0])
        elif op == 'parts':
            def f():
                return [[str(k) for k in drain(SAR(path, seg_arg(o, script, wd), **options(SAR, o['via'], o['pre'], wav_scale=sc, part_idx=p + 1, num_parts=o['parts'])), o['how'])[0]] for p in range(o['parts'])]
            r, exc = call(f)
            evs.append({'op': op, 'seg': o['seg'], 'keys': r or [], 'exc': exc})
        elif op == 'reset':
            _, exc = call(rds[o['r']].reset)
            evs.append({'op': op, 'r': o['r'] + 1, 'exc': exc})
        elif op == 'eof':
            r, exc = call(rds[o['r']].eof)
            evs.append({'op': op, 'r': o['r'] + 1, 'eof': bool(r), 'exc': exc})
        elif op == 'read':
            def f():
                if o['how'] == 'iter' and o['n'] == 1:
                    try:
                        k, x, fs = next(rds[o['r']])
                    except StopIteration:
                        return [], [], []
                    return [k], [x], [fs]
                if o['how'] == 'iter' and o['n'] == 0:
                    return drain(rds[o['r']], 'iter')
                return rds[o['r']].read(o['n']) if o['n'] else rds[o['r']].read()
            r, exc = call(f)
            evs.append({'op': op, 'r': o['r'] + 1, 'n': o['n'], 'keys': [str(k) for k in r[0]] if r else [], 'x': own(r[1]) if r else [], 'fs': [vf.as_int(v) for v in r[2]] if r else [], 'exc': exc})
        elif op == 'random':
            def f():
                r = RAR(path, seg_arg(o, script, wd), **options(RAR, 'dict' if o['via'] else '', o['pre'], wav_scale=sc))
                return r.read(o['ask'][0] if len(o['ask']) == 1 and o['f'] else o['ask'])
            r, exc = call(f)
            evs.append({'op': op, 'seg': o['seg'], 'ask': o['ask'], 'c': o['c'], 'x': own(r[0]) if r else [], 'fs': [vf.as_int(v) for v in r[1]] if r else [], 'exc': exc})
    return {'init': {'recs': recs, 'segs': script['segs']}, 'ev': evs}


KEYS = ['r1', 'a', 'b-2', 'spk_1', 'x/y', '10', '0', 'u.v', 'Z9', 'rec']


def writer(rnd, n, plain=False):
    fmt = FORMATS[0] if plain or rnd.random() < 0.3 else rnd.choice(FORMATS + REFUSED)
    return {'fmt': list(fmt), 'dtype': rnd.choice(['int16', 'int32', 'float32', 'float64']), 'sizes': [rnd.randint(0, 2) for _ in range(rnd.randint(0, 3))], 'single': rnd.random() < 0.5, 'arr': rnd.random() < 0.3,
            'pipe': [i for i in range(n) if rnd.random() < 0.3] if rnd.random() < 0.15 and fmt[0] in ('wav', 'flac', 'au') else []}


def how(rnd):
    return {'obj': rnd.random() < 0.3, 'scp': rnd.random() < 0.2, 'via': rnd.choice(['', '', 'dict', 'filter']), 'pre': rnd.choice([None, None, 'a', 'x']), 'f': rnd.random() < 0.5, 'c': rnd.choice([1, 1, 1, 2, 3])}


def read_op(rnd, r):
    z = rnd.random()
    if z < 0.65:
        return {'op': 'read', 'r': r, 'n': rnd.choice([0, 1, 1, 2, 3, 7]), 'how': rnd.choice(['', 'iter'])}
    return {'op': rnd.choice(['eof', 'reset']), 'r': r}


def gen_script(rnd):
    n = rnd.randint(1, 6)
    same = rnd.random() < 0.4
    fs0 = rnd.choice([8000, 16000, 64, 128, 11025, 1])
    recs = []
    fmt = writer(rnd, n)
    for k in rnd.sample(KEYS, n):
        fs = fs0 if same else rnd.choice([8000, 16000, 64, 128])
        if fmt['fmt'][0] in ('htk', 'voc'):
            fs = rnd.choice([8000, 16000])
        m = rnd.choice([1, 2, 5, 40, 100])
        recs.append({'key': k, 'x': [rnd.choice([0, 1, -1, 32767, -32768, 100]) if rnd.random() < 0.1 else rnd.randint(-3000, 3000) for _ in range(m)], 'fs': fs})
    segs = []
    for i in range(rnd.randint(1, 6)):
        r = rnd.choice(recs)
        end = (64 * len(r['x'])) // r['fs']
        z = rnd.random()
        f = r['key']
        tb = rnd.choice([0, 0, rnd.randint(0, max(0, end)), end])
        te = rnd.choice([tb, tb + 1, max(tb, end), tb + rnd.randint(0, end + 2), end + 5 if end + 5 > tb else tb])
        if z < 0.06:
            f = 'none'
        elif z < 0.9 and tb * r['fs'] // 64 >= len(r['x']):
            tb = 0
        segs.append({'key': 's%d' % (9 - i) if rnd.random() < 0.7 else r['key'] + '-%d' % i, 'file': f, 'tb': tb, 'te': te})
    ks = [g['key'] for g in segs]
    if len(set(ks)) < len(ks):
        for i, g in enumerate(segs):
            g['key'] = 'g%d' % i
    ops, nr = [], 0
    for _ in range(rnd.choice([3, 6, 9, 12])):
        z = rnd.random()
        h = dict(how(rnd), seg=rnd.random() < 0.55)
        items = [g['key'] for g in segs] if h['seg'] else [r['key'] for r in recs]
        if z < 0.2 or (nr == 0 and z < 0.6):
            parts = rnd.choice([1, 1, 2, 3])
            parts = min(parts, len(items))
            ops.append(dict(h, op='open', part=rnd.randint(1, parts), parts=parts))
            nr += 1
        elif z < 0.3:
            bad = h['seg'] and any(g['file'] == 'none' or g['tb'] * {r['key']: r for r in recs}[g['file']]['fs'] // 64 >= len({r['key']: r for r in recs}[g['file']]['x']) for g in segs)
            if not bad:
                ops.append(dict(h, op='parts', parts=rnd.randint(1, len(items)), how=rnd.choice(['', 'iter'])))
        elif z < 0.5:
            ops.append(dict(h, op='random', ask=[rnd.choice(items + (['no'] if rnd.random() < 0.2 else [])) for _ in range(rnd.randint(1, 3))]))
        elif nr:
            ops.append(read_op(rnd, rnd.randrange(nr)))
    return {'recs': recs, 'segs': segs, 'write': fmt, 'ops': ops}


def from_model(rnd, m):
    ops = [dict(how(rnd), op='open', seg=m['seg'], part=1, parts=1)]
    for a in m['h']:
        ops.append({'op': 'reset', 'r': 0} if a['op'] == 'reset' else {'op': 'read', 'r': 0, 'n': a['n'], 'how': rnd.choice(['', 'iter'])})
        ops.append({'op': 'eof', 'r': 0})
    ops.append(dict(how(rnd), op='random', seg=True, ask=[g['key'] for g in m['segs']][:rnd.randint(1, 2)]))
    return {'recs': m['recs'], 'segs': m['segs'], 'write': writer(rnd, len(m['recs'])) if rnd.random() < 0.5 else writer(rnd, 2, True), 'ops': ops}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] in ('read', 'random') and not e['exc'] and any(e['x']):
            k = [i for i, x in enumerate(e['x']) if x][-1]
            e['x'][k] = e['x'][k][:-1]
            return b
        if e['op'] == 'parts' and not e['exc']:
            e['keys'][-1] = e['keys'][-1][:-1]
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Audio', cfg='MC_Audio.cfg', want=500)
    if ck.thorough:
        ms += ck.model('MC_Audio', cfg='MC_Audio_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(1500, 10000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(3000, 30000))]
    behs = ck.execute('checks.p21', scripts)
    ck.judge('Trace_Audio', behs, scripts, 'checks.p21', label='audio', batch=4000)
    ck.negative_control('Trace_Audio', behs[-400:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P21', run)
