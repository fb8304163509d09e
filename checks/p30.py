"""P30: readers of sequences for training and of trials over parts of recordings."""
import copy
import os
import random

import numpy as np
import vf
from vf import call
from checks.p26 import World
from checks.p29 import write


def execute(script, wd):
    w = World(script['style'], os.path.join(wd, ''))
    w.cur = {}
    evs = []
    for o in script['ops']:
        e = copy.deepcopy(o['e'])
        e['exc'] = ''
        r, exc = call(globals()['do_' + e['op']], w, o, e)
        e['exc'] = exc
        if not exc:
            e.update(r)
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


PRE = np.array([3., -5., 7.])


def parsed(cls, kw, prefix, flags={}):
    """options of a class after the trip over a command line"""
    import argparse
    p = argparse.ArgumentParser()
    pre = prefix if prefix != '-' else None
    cls.add_argparse_args(p, pre) if pre else cls.add_argparse_args(p)
    argv = []
    for k, v in kw.items():
        d = (pre + '_' if pre else '') + k
        opt = next((a.option_strings[0] for a in p._actions if a.dest == d), None)
        if opt is None:
            continue
        if k in flags:
            argv += [] if v else [opt]
        elif not (k == 'min_seq_length' and v == 1):
            argv += [opt, str(v)]
    z = vars(p.parse_args(argv))
    return cls.filter_args(prefix=pre, **z)


def make(w, o, e, fresh=True):
    """files of the sequences and a reader"""
    import h5py
    from hyperion.helpers import SequenceReader, SequenceClassReader, SequencePostReader, SequencePostClassReader
    c = e['o']
    if fresh:
        p, q = w.path('.h5'), w.path('.h5')
        with h5py.File(p, 'w') as f, h5py.File(q, 'w') as g:
            for s, n in enumerate(c['len'], 1):
                t = np.arange(n)
                f.create_dataset(w.name(s) + o['field'], data=np.stack((s + 0 * t, t, s * t + 1), axis=1) + (PRE if o['pre'] else 0), dtype='float32')
                if c['C']:
                    a = np.stack(((3 * s + t) % c['C'], (3 * s + t + 1) % c['C']), axis=1)
                    g.create_dataset(w.name(s) + '.r', data=np.tile([.75, .25], (n, 1)), dtype='float32')
                    g.create_dataset(w.name(s) + '.index', data=a, dtype='float32')
        lst = w.path('.lst')
        with open(lst, 'w') as f:
            f.writelines('%s%s%s\n' % (w.name(100 + c['cls'][s - 1]) if c['cls'] else w.name(200 + s), o['sep'], w.name(s)) for s in range(1, len(c['len']) + 1))
        cl = w.path('.cls')
        with open(cl, 'w') as f:
            f.writelines('%s x\n' % w.name(100 + k) for k in range(max(c['cls'] or [0]) + 1))
        w.files = (p, lst, q, cl)
    p, lst, q, cl = w.files
    kw = dict(batch_size=c['B'], shuffle_seqs=c['shuffle'], min_seq_length=c['mn'], seqr_seed=o['seed'])
    if c['mx']:
        kw.update(max_seq_length=c['mx'], seq_split_mode=c['mode'], seq_split_overlap=c['ov'])
    if o['sep'] != '=':
        kw['scp_sep'] = o['sep']
    if o['field']:
        kw['seq_field'] = o['field']
    if o.get('args'):
        kw = parsed(SequenceReader, kw, o['args'], {'shuffle_seqs': 'no-shuffle-seqs'})
        kw['batch_size'] = c['B']
    if o['pre']:
        from hyperion.transforms import TransformList, MVN
        kw['preproc'] = TransformList([MVN(mu=PRE, s=np.ones(3), name='t')])
    if c['C']:
        kw['num_comp'] = c['C']
        return SequencePostClassReader(p, lst, q, cl, **kw) if c['cls'] else SequencePostReader(p, lst, q, **kw)
    return SequenceClassReader(p, lst, cl, **kw) if c['cls'] else SequenceReader(p, lst, **kw)


def do_open(w, o, e):
    r = make(w, o, e)
    w.r, w.o, w.e = r, o, e
    c = e['o']
    asks = ['n', 'len', 'sub', 'tot', 'nb', 'mb']
    obs = {}
    get = {'n': lambda: int(r.num_seqs), 'len': lambda: [int(v) for v in r.seq_length], 'sub': lambda: [int(v) for v in r.num_subseqs], 'tot': lambda: int(r.num_total_subseqs), 'nb': lambda: int(r.num_batches), 'mb': lambda: int(r.max_batch_seq_length)}
    for a in random.Random(o['seed']).sample(asks, len(asks)):
        obs[a] = get[a]()
    return {'obs': obs}


def rows(x):
    out = []
    for v in np.asarray(x):
        s, t = int(round(float(v[0]))), int(round(float(v[1])))
        out.append([s, t] if np.allclose(v, [s, t, s * t + 1], atol=1e-3) else [-1, -1])
    return out


def batch(w, r, c, d3, mlen):
    z = r.read(return_3d=True, max_seq_length=mlen) if d3 else r.read()
    z = list(z)
    y = z.pop() if c['cls'] else None
    keys = z.pop()
    wt = z.pop() if d3 else None
    x = z.pop(0)
    p = z.pop(0) if c['C'] else None
    pad = len(z)
    items = []
    for i, k in enumerate(keys):
        a, b = x[i], p[i] if p is not None else None
        if d3:
            n = int(round(float(np.sum(wt[i]))))
            good = list(wt[i]) == [1] * n + [0] * (len(wt[i]) - n) and not np.any(a[n:]) and (b is None or (len(b) == len(a) and not np.any(b[n:]))) and len(a) == (mlen or max(int(np.sum(v)) for v in wt))
            pad += 0 if good else 1
            a, b = a[:n], b[:n] if b is not None else None
        it = {'k': w.key(k), 'rows': rows(a), 'y': -1, 'post': []}
        if y is not None:
            j = np.flatnonzero(y[i])
            it['y'] = int(j[0]) if len(j) == 1 and y[i, j[0]] == 1 else -1
        if b is not None:
            it['post'] = [[[int(j), int(round(100 * float(v[j])))] for j in np.flatnonzero(v)] for v in b]
            pad += 0 if b.shape[1] == c['C'] else 1
        items.append(it)
    if len(x) != len(keys):
        pad += 1
    return items, pad


def do_read(w, o, e):
    items, pad = batch(w, w.r, w.e['o'], o['d3'], o['mlen'])
    w.hist = getattr(w, 'hist', []) + [items]
    return {'items': items, 'pad': pad}


def do_again(w, o, e):
    r = make(w, w.o, w.e, False)
    same = True
    for h in getattr(w, 'hist', []):
        same = same and batch(w, r, w.e['o'], False, 0)[0] == h
    return {'same': bool(same)}


def do_parts(w, o, e):
    import h5py
    from hyperion.helpers import SequenceReader
    p = w.path('.h5')
    with h5py.File(p, 'w') as f:
        for s in range(1, len(e['cls']) + 1):
            f[w.name(s)] = np.zeros((2, 1), dtype='float32')
    lst = w.path('.lst')
    with open(lst, 'w') as f:
        f.writelines('%s=%s\n' % (w.name(100 + c), w.name(s)) for s, c in enumerate(e['cls'], 1))
    obs = []
    for k in range(o['P']):
        r = SequenceReader(p, lst, shuffle_seqs=False, part_idx=k + 1, num_parts=o['P'])
        obs.append([w.key(r.read_next_seq()[1]) for _ in range(r.num_seqs)])
    return {'obs': obs}


def do_trials(w, o, e):
    from hyperion.utils import TrialNdx, ExtSegmentList
    from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader
    from hyperion.helpers.tracking_data_reader import TrackingDataReader
    ids = sorted({u for u, _ in e['enroll']} | {u for u, _ in e['sub']})
    random.Random(o['seed']).shuffle(ids)
    v = write(w, [(k, [k + o['pre'], 1.]) for k in ids], o['fmt'])
    en = w.lines([(w.name(u), w.name(m)) for u, m in e['enroll']])
    T = {tuple(t) for t in e['trials']}
    ms, gs = sorted({t[0] for t in T}), sorted({t[1] for t in T})
    random.Random(o['seed'] + 1).shuffle(ms)
    n = w.path('.h5')
    nd = TrialNdx([w.name(m) for m in ms], [w.name(g) for g in gs], np.array([[(m, g) in T for g in gs] for m in ms]))
    nd.save(n)
    pre = None
    if o['pre']:
        from hyperion.transforms import TransformList, MVN
        pre = TransformList([MVN(mu=np.array([o['pre'], 0.]), s=np.ones(2), name='t')])
    if e['kind'] == 'multi':
        sub = w.lines([(w.name(u), w.name(g)) for u, g in e['sub']])
        make_r = lambda **k: MultiTestTrialDataReader(v, n, en, None, sub, pre, **k)
    else:
        sub = w.path('')
        ExtSegmentList.create([w.name(u) for u, _ in e['sub']], [w.name(g) for _, g in e['sub']], [float(i) for i in range(len(e['sub']))], [i + .5 for i in range(len(e['sub']))]).save(sub)
        make_r = lambda **k: TrackingDataReader(v, n, en, sub, pre, **k)
    obs = []
    P, Q = o['P']
    cls = MultiTestTrialDataReader if e['kind'] == 'multi' else TrackingDataReader
    for i in range(P):
        for j in range(Q):
            kw = dict(model_idx=i + 1, num_model_parts=P, seg_idx=j + 1, num_seg_parts=Q) if P * Q > 1 else {}
            r = make_r(**(parsed(cls, kw, o['args']) if o['args'] else kw))
            for key in ([w.name(g) for g in gs if w.name(g) in list(r.ndx.seg_set)] if o['single'] else [None]):
                x_e, x_t, info, ndx, seg = r.read(key) if key else r.read()
                m, g = [w.key(a) for a in ndx.model_set], [w.key(a) for a in ndx.seg_set]
                lab = seg if e['kind'] == 'multi' else ndx.seg_set
                tail = [] if e['kind'] == 'multi' else [[w.key(a), w.key(b)] for a, b in zip(seg.segments['segment_id'], seg.segments['file_id'])]
                obs.append({'cut': bool(key) or P * Q > 1, 'tail': tail, 'm': m, 'g': g, 'mask': [[m[a], g[b]] for a, b in zip(*np.where(ndx.trial_mask))],
                            'enr': [[int(round(float(a[0]))), w.key(b)] for a, b in zip(x_e, info)] + [[-1, -1]] * abs(len(x_e) - len(info)),
                            'seg': [[int(round(float(a[0]))), w.key(b)] for a, b in zip(x_t, lab)] + [[-1, -1]] * abs(len(x_t) - len(lab))})
    return {'obs': obs}


# --------------------------------- generation --------------------------------
def pieces(o):
    out = []
    for n in o['len']:
        if not o['mx'] or o['mode'].endswith('1seq'):
            out.append(int(n >= o['mn']))
        else:
            sh = o['mx'] - o['ov']
            k = (n - o['ov']) // sh
            out.append(k + int(n - k * sh >= o['mn']))
    return out


def reader(rnd, o=None):
    if o is None:
        while True:
            n = rnd.randint(1, 7)
            mx = rnd.choice([0, 0, 2, 3, 5, 8])
            mode = rnd.choice(['sequential', 'random_slice', 'random_samples', 'random_slice_1seq', 'random_samples_1seq']) if mx else 'sequential'
            ov = rnd.choice([0, 0, 1, 2]) if mx > 2 and not mode.endswith('1seq') else 0
            mn = rnd.choice([1, 1, 2, 3, 4] + ([0] if not mx else []))
            if mx and (mn > mx or (ov and mn <= ov)):
                continue
            o = {'len': [max(ov, rnd.choice([1, 2, 3, 4, 5, 6, 9, 17])) for _ in range(n)], 'B': rnd.randint(1, 6), 'mn': mn, 'mx': mx, 'ov': ov, 'mode': mode, 'shuffle': rnd.random() < .5}
            if sum(pieces(o)) >= o['B']:
                break
    o = dict(o, cls=[], C=0)
    if rnd.random() < .5:
        o['cls'] = [rnd.randint(0, 2) for _ in o['len']]
    # posteriors go with slices of frames only
    if rnd.random() < .4 and not o['mode'].startswith('random_samples'):
        o['C'] = rnd.randint(2, 6)
    nb = sum(pieces(o)) // o['B']
    ops = [{'e': {'op': 'open', 'o': o}, 'seed': rnd.randint(0, 99), 'sep': rnd.choice(['=', '=', ' ']), 'field': rnd.choice(['', '', '.f']), 'pre': rnd.random() < .3, 'args': rnd.choice(['', '', '', '-', 'train'])}]
    top = max(o['len'])
    ops += [{'e': {'op': 'read'}, 'd3': rnd.random() < .3, 'mlen': rnd.choice([0, top + 2])} for _ in range(min(25, nb * rnd.choice([1, 2, 3]) + rnd.randint(0, 1)))]
    if rnd.random() < .5:
        ops.append({'e': {'op': 'again'}})
    return ops


def op_parts(rnd):
    n = rnd.randint(2, 8)
    cls = [rnd.randint(0, 5) for _ in range(n)]
    return {'e': {'op': 'parts', 'cls': cls}, 'P': rnd.randint(1, min(3, len(set(cls))))}


def op_trials(rnd):
    nm, ng = rnd.randint(1, 4), rnd.randint(1, 4)
    ms, gs = list(range(100, 100 + nm)), list(range(200, 200 + ng))
    enroll = [[u, m] for u, m in enumerate((m for m in ms for _ in range(rnd.choice([1, 1, 2]))), 1)]
    rnd.shuffle(enroll)
    if rnd.random() < .3:
        enroll.append([60, 190])
    sub = [[u, g] for u, g in enumerate((g for g in gs for _ in range(rnd.choice([1, 2, 3]))), 300)]
    kind = rnd.choice(['multi', 'track'])
    rnd.shuffle(sub)
    T = [[m, g] for m in ms for g in gs if rnd.random() < .7]
    T += [[m, gs[0]] for m in ms if m not in [t[0] for t in T]]
    T += [[ms[0], g] for g in gs if g not in [t[1] for t in T]]
    P = [rnd.randint(1, min(2, nm)), rnd.randint(1, min(2, ng))] if rnd.random() < .5 else [1, 1]
    return {'e': {'op': 'trials', 'kind': kind, 'enroll': enroll, 'sub': sub, 'trials': T}, 'P': P, 'fmt': rnd.choice(['h5', 'ark']), 'seed': rnd.randint(0, 99), 'single': kind == 'track' and rnd.random() < .4, 'pre': rnd.choice([0, 0, 1000]), 'args': rnd.choice(['', '-', 'ev'])}


def gen_script(rnd):
    r = rnd.random()
    if r < .12:
        ops = [op_parts(rnd)]
    elif r < .3:
        ops = [op_trials(rnd)]
    else:
        ops = reader(rnd)
    return {'style': rnd.randint(0, 3), 'ops': ops}


def from_model(rnd, o):
    return {'style': rnd.randint(0, 3), 'ops': reader(rnd, {k: o[k] for k in ('len', 'B', 'mn', 'mx', 'ov', 'mode', 'shuffle')})}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc']:
            continue
        if e['op'] == 'read':
            e['items'][-1]['rows'][-1][0] += 1
            return b
        if e['op'] == 'parts':
            e['obs'][0].append(1)
            return b
        if e['op'] == 'trials' and e['obs'][0]['enr']:
            e['obs'][0]['enr'][0][0] += 1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_SeqRead', cfg='MC_SeqRead.cfg', want=200)
    if ck.thorough:
        ms += ck.model('MC_SeqRead', cfg='MC_SeqRead_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(500, 4000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(2500, 20000))]
    behs = ck.execute('checks.p30', scripts)
    ck.judge('Trace_SeqRead', behs, scripts, 'checks.p30', label='readers', batch=2500)
    ck.negative_control('Trace_SeqRead', behs[-600:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P30', run)
