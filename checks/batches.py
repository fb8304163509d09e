"""Drivers of P08 and P09: batch generators."""
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.p04 import KEYSTYLES as KS


def execute(script, wd):
    from hyperion.io import DataWriterFactory as WF
    from hyperion.utils import Utt2Info
    from hyperion.generators.sequence_batch_generator_v1 import SequenceBatchGeneratorV1 as G1
    from hyperion.generators.sequence_batch_generator_v2 import SequenceBatchGeneratorV2 as G2
    c = script['cfg']
    sty = script['style']
    un, cn = KS[sty[0] % len(KS)], KS[sty[1] % len(KS)]
    if sty[0] % 3 == 0:
        un = lambda k: 'u%d' % (53 * k % 101)         # not in the order of the numbers
    lens, cls = c['lens'], c['cls']
    names = [un(i + 1) for i in range(len(lens))]
    num = {s: i + 1 for i, s in enumerate(names)}
    h5 = sty[2] % 2 if ''.join(names).isascii() else 1
    base = os.path.join(wd, 'a')
    spec = 'h5:%s.h5' % base if h5 else 'ark,scp:%s.ark,%s.scp' % (base, base)
    feats = [np.stack([np.full(n, i + 1.), np.arange(1, n + 1)], axis=1).astype('float32') for i, n in enumerate(lens)]
    with WF.create(spec) as w:
        w.write(names, feats)
    u2c = Utt2Info.create(np.array(names), np.array([cn(k) for k in cls]))
    kf = os.path.join(wd, 'u2c')
    sep = ',' if sty[3] % 4 == 0 else ' '
    u2c.save(kf, sep=sep)
    if not h5 and sep != ' ':
        with open(base + '.scp') as f:
            t = f.read()
        with open(base + '.scp', 'w') as f:
            f.write(''.join(l.replace(' ', sep, 1) + '\n' for l in t.splitlines()))
    rspec = 'h5:%s.h5' % base if h5 else 'scp:%s.scp' % base
    part = u2c if c['parts'] == 1 else u2c.split(c['part'], c['parts'])
    lst = [num[k] for k in part.key]
    rows = [u for u in lst if lens[u - 1] >= c['prune']]
    present = sorted({cn(cls[u - 1]) for u in rows})
    clist = None
    if c['clist']:
        order = [cn(k) for k in c['clist']]
        clist = os.path.join(wd, 'classes')
        with open(clist, 'w') as f:
            f.write(''.join('%s%s\n' % (k, ' 3' if sty[4] % 2 else '') for k in order))
    else:
        order = present
    rank = [order.index(cn(k + 1)) if cn(k + 1) in order else -1 for k in range(max(cls))]
    init = dict(c, list=lst, rank=rank, ncls=len(order))
    if not rows:
        return {'init': init, 'ev': [{'op': 'tally', 'need': [], 'seen': []}]}
    kw = dict(batch_size=c['batch'], iters_per_epoch=c['iters'] or 'auto', min_seq_length=c['min'] or None, max_seq_length=c['max'] or None,
              prune_min_length=c['prune'], shuffle_seqs=c['shuffle'], sg_seed=c['seed'], reset_rng=c['resetrng'], scp_sep=sep, class_list=clist,
              part_idx=c['part'], num_parts=c['parts'])
    if c['kind'] == 1:
        kw.update(gen_method=['full_seqs', 'random', 'sequential'][c['mode'] - 1], seq_overlap=c['overlap'], class_weight='balanced' if c['bal'] else None,
                  seq_weight='balanced' if c['seqbal'] else 'unbalanced')
        if c['imb'] != 2:
            kw['max_class_imbalance'] = c['imb']
    else:
        kw.update(num_egs_per_class=c['epc'], num_egs_per_utt=c['epu'], return_utt1hot=c['hot'])
    gs, evs, seen, nread = [], [], set(), [0]
    minl = c['min'] or min(lens[u - 1] for u in rows)
    maxl = c['max'] or max(lens[u - 1] for u in rows)

    def batch(g, o):
        sq, mx = o['squeeze'], o.get('mx', 0)
        r = list(g.read(squeeze=sq, **({'max_seq_length': mx} if mx else {})))
        keys, x = list(r.pop(0)), r.pop(0)
        w = r.pop(0) if sq else None
        y = r.pop(0)
        z = r.pop(0) if c['kind'] == 2 and c['hot'] else None
        shape = not r and len(x) == len(keys) == len(y) and y.shape[1] == len(order)
        if sq:
            shape = bool(shape and x.shape[1] == (mx or maxl) and w.shape == x.shape[:2])
        if z is not None:
            shape = bool(shape and z.shape == (len(keys), -(-c['batch'] // c['epu'])))
        exs = []
        for i, k in enumerate(keys):
            xi = np.asarray(x[i])
            n = len(xi)
            ok = True
            if sq:
                n = int(np.sum(xi[:, 0] != 0))
                ok = bool(np.all(xi[n:] == 0) and np.all(w[i][:n] == 1) and np.all(w[i][n:] == 0))
            f = xi[:n]
            u = as_int(f[0, 0]) if n else 0
            first = as_int(f[0, 1]) - 1 if n else 0
            ok = bool(ok and np.all(f[:, 0] == u) and np.all(f[:, 1] == first + 1 + np.arange(n)))
            hot = np.nonzero(y[i])[0]
            zi = -1
            if z is not None:
                h = np.nonzero(z[i])[0]
                zi = as_int(h[0]) if len(h) == 1 and z[i][h[0]] == 1 else -1
            exs.append({'k': num.get(k, -1), 'u': u, 'first': first, 'n': n, 'ok': ok, 'y': as_int(hot[0]) if len(hot) == 1 and y[i][hot[0]] == 1 else -1, 'z': zi})
            seen.add((u, first, n))
        nread[0] += len(keys)
        return {'exs': exs, 'shape': bool(shape)}

    for o in script['ops']:
        op = o['op']
        if op == 'make':
            cl = G1 if c['kind'] == 1 else G2
            np.random.seed(len(evs))
            g, exc = call(lambda: cl(rspec, kf, init_epoch=o['epoch'], **kw))
            e = {'op': 'make', 'exc': exc, 'epoch': o['epoch'], 'nseqs': -1, 'steps': -1, 'ncls': -1}
            if g is not None:
                q, exc = call(lambda: [as_int(g.num_seqs), as_int(g.steps_per_epoch), as_int(g.num_classes)])
                e['exc'] = exc
                if q:
                    e['nseqs'], e['steps'], e['ncls'] = q
                    if e['steps'] == 0:         # fewer utterances than a batch
                        return {'init': init, 'ev': [{'op': 'tally', 'need': [], 'seen': []}]}
            gs.append(g)
            evs.append(e)
            if e['exc']:
                break
        elif o['g'] <= len(gs):
            g = gs[o['g'] - 1]
            if op == 'reset':
                _, exc = call(g.reset)
                evs.append({'op': 'reset', 'g': o['g'], 'exc': exc})
            else:
                if o['squeeze'] and c['kind'] == 1 and c['mode'] == 1 and c['max'] and max(lens) > c['max'] and not o.get('mx'):
                    o = dict(o, squeeze=False)
                if o.get('mx'):
                    o = dict(o, mx=max(lens) + 2)
                for _ in range(o['n']):
                    b, exc = call(batch, g, o)
                    evs.append(dict(b or {'exs': [], 'shape': False}, op='read', g=o['g'], exc=exc, hot=c['kind'] == 2 and c['hot']))
                    if exc:
                        break
                if exc:
                    break
    # everything that can be drawn is drawn when many batches of one length are read
    if not any(e.get('exc') for e in evs) and minl == maxl and (c['kind'] == 2 or c['mode'] == 2):
        got = {s[0] for s in seen}
        full = [u for u in rows if lens[u - 1] >= minl and (c['kind'] == 2 or u in got)]
        poss = [(u, f, minl) for u in full for f in range(lens[u - 1] - minl + 1)]
        per = nread[0] / (c['epc'] * c['epu'] if c['kind'] == 2 else 1) / max(1, len(poss)) / (3 if c['kind'] == 2 else 1)
        k = {}
        for u in rows:
            k[cls[u - 1]] = k.get(cls[u - 1], 0) + 1
        worst = max(k.values()) * len(k) * max(lens[u - 1] - minl + 1 for u in rows) if c['kind'] == 2 else len(rows) * max(lens[u - 1] - minl + 1 for u in rows)
        eff = nread[0] / (c['epc'] * c['epu'] if c['kind'] == 2 else 1)
        # repeated epochs give nothing new with reset_rng
        if eff >= 35 * worst and not c['resetrng'] and len(gs) == 1:
            evs.append({'op': 'tally', 'need': [list(p) for p in poss], 'seen': [list(p) for p in seen]})
    return {'init': init, 'ev': evs}


def gen_cfg(rnd, kind):
    n = rnd.choice([1, 2, 3, 4, 6, 9, 12])
    nc = rnd.choice([1, 2, 3, 4])
    lmax = rnd.choice([3, 6, 12, 20])
    lens = [rnd.randint(1, lmax) for _ in range(n)]
    if rnd.random() < 0.3:
        lens = [lmax] * n
    cls = [rnd.randint(1, nc) for _ in range(n)]
    c = {'kind': kind, 'mode': rnd.choice([1, 2, 2, 3, 3]), 'lens': lens, 'cls': cls, 'min': 0, 'max': 0, 'overlap': 0, 'prune': 0, 'bal': False, 'imb': 2, 'seqbal': rnd.random() < 0.5,
         'shuffle': rnd.random() < 0.7, 'seed': rnd.randint(0, 2000), 'resetrng': rnd.random() < 0.15, 'iters': rnd.choice([0, 0, 1, 1, 2, 3]),
         'batch': rnd.choice([1, 1, 2, 3, 4, 6]), 'part': 1, 'parts': 1, 'epc': 1, 'epu': 1, 'hot': False, 'clist': [], 'differs': False}
    if rnd.random() < 0.75:
        a = rnd.randint(1, lmax)
        b = rnd.randint(a, lmax)
        if rnd.random() < 0.35:
            b = a
        c['min'], c['max'] = a, b
        if c['mode'] == 1:
            c['min'], c['max'] = 0, rnd.choice([0, lmax])
    if c['mode'] == 3:
        m = c['min'] or min(lens)
        c['overlap'] = rnd.choice([0, 0, rnd.randint(0, max(0, m - 1))])
    if rnd.random() < 0.3:
        c['prune'] = rnd.randint(1, max(1, lmax // 2))
    if kind == 1 and rnd.random() < 0.3:
        c['bal'], c['imb'] = True, rnd.choice([1, 2, 2, 3])
    if rnd.random() < 0.2 and n >= 3:
        c['parts'] = rnd.choice([2, 3])
        c['part'] = rnd.randint(1, c['parts'])
    if rnd.random() < 0.3:
        c['clist'] = rnd.sample(range(1, nc + 3), nc + 2)
    if kind == 2:
        c['epc'], c['epu'] = rnd.choice([1, 1, 2, 3]), rnd.choice([1, 1, 2, 3])
        c['hot'] = rnd.random() < 0.4
        c['mode'] = 0
    c['batch'] = min(c['batch'], max(1, n * max(1, c['iters'])))
    if not c['resetrng'] and c['shuffle'] and not c['bal'] and n >= 9 and len(set(lens)) >= 1 and c['batch'] <= 4 and c['prune'] == 0 and c['parts'] == 1 and kind == 1:
        c['differs'] = True
    if kind == 2 and n >= 6 and len(set(cls)) >= 2 and not c['resetrng'] and c['prune'] == 0 and c['parts'] == 1 and c['epc'] == c['epu'] == 1 and c['iters'] >= 2:
        c['differs'] = True
    return c


def gen_script(rnd, kind):
    c = gen_cfg(rnd, kind)
    e0 = rnd.choice([0, 0, 0, 2])
    ops = [{'op': 'make', 'epoch': e0}]
    sq = lambda: {'squeeze': rnd.random() < 0.8, 'mx': int(rnd.random() < 0.2)}
    z = rnd.random()
    if z < 0.12 and (c['mode'] in (0, 2)):
        a = min(c['lens'])                      # many chunks of one length
        c['min'] = c['max'] = max(1, rnd.choice([a, a - 1, a - 2]))
        c['lens'] = [min(v, c['min'] + 2) for v in c['lens']][:4]
        c['cls'] = c['cls'][:len(c['lens'])]
        c.update(resetrng=False, parts=1, part=1, batch=min(c['batch'], len(c['lens'])), prune=0, differs=False, bal=False)
        ops.append(dict({'op': 'read', 'g': 1, 'n': 700 // c['batch']}, **sq()))
    else:
        ng = 1
        for _ in range(rnd.choice([2, 3, 5])):
            if rnd.random() < 0.25 and ng < 4:
                ops.append({'op': 'make', 'epoch': rnd.choice([e0, e0, e0 + 1, e0 + 2])})
                ng += 1
            if rnd.random() < 0.1:
                ops.append({'op': 'reset', 'g': rnd.randint(1, ng)})
            ops.append(dict({'op': 'read', 'g': rnd.randint(1, ng), 'n': rnd.choice([1, 2, 5, 12])}, **sq()))
    return {'cfg': c, 'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(5)]}


def from_model(rnd, m, kind=1):
    c = gen_cfg(rnd, kind)
    if kind == 2:
        c['lens'] = [rnd.randint(1, 5) for _ in m['cls']]
        m = {k: m[k] for k in ('cls', 'epc', 'epu', 'batch')}
        c['min'] = c['max'] = 0
    c.update(m)
    c.update(prune=0, bal=False, part=1, parts=1, clist=[], differs=False)
    if kind == 1:
        c['cls'] = [rnd.randint(1, 2) for _ in c['lens']]
        c['iters'] = max(1, c['iters'])
        c['batch'] = min(c['batch'], len(c['lens']) * c['iters'])
    sq = {'squeeze': rnd.random() < 0.8}
    return {'cfg': c, 'ops': [{'op': 'make', 'epoch': 0}, dict({'op': 'read', 'g': 1, 'n': 12}, **sq)], 'style': [rnd.randint(0, 99) for _ in range(5)]}


def corrupt(b):
    k = [e for e in b['ev'] if e['op'] == 'read' and e['exs']]
    if not k:
        return None
    k[-1]['exs'][-1]['u'] = k[-1]['exs'][-1]['u'] % len(b['init']['lens']) + 1
    return b if len(b['init']['lens']) > 1 else None
