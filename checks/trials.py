"""Driver shared by P06 (TrialNdx, TrialKey) and P07 (TrialScores)."""
import json
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.p04 import KEYSTYLES

NA = -999999
STY = [KEYSTYLES[i] for i in (0, 1, 2, 3, 5)]
SEGSTY = [lambda k: 'seg%d' % k, lambda k: 'x-%03d' % k, lambda k: 'S' + 'b' * (k % 30) + '_%d' % k, lambda k: '%d' % (k * 3),
          lambda k: '/data/a%d.sph:A' % k]
SCALES = [1.0, 0.5, -1.0, 1. / 64, 1000.0, 1e-3]


class Segs(object):
    """Stands in for an ExtSegmentList: segments of each file."""
    def __init__(self, d):
        self.d = d

    def ext_segment_ids_from_file(self, f):
        return np.array(self.d[f], dtype=None if self.d[f] else 'U4')


def execute(script, wd):
    from hyperion.utils.trial_ndx import TrialNdx
    from hyperion.utils.trial_key import TrialKey
    from hyperion.utils.trial_scores import TrialScores
    from hyperion.utils.utt2info import Utt2Info
    ops, sty = script['ops'], script['style']
    mn, sn, scale = STY[sty[0] % len(STY)], SEGSTY[sty[1] % len(SEGSTY)], SCALES[sty[2] % len(SCALES)]
    ms, ss = set(range(0, 100)), set(range(0, 100)) | {100 * a + q for a in range(1, 30) for q in range(1, 4)}
    MI, SI = Interner([mn(k) for k in ms]), Interner([sn(k) for k in ss])
    inv_m, inv_s = {v: k for k, v in MI.ids.items()}, {v: k for k, v in SI.ids.items()}
    # the model's numbers for names, files of an evaluation included, as order-preserving ids
    M, S = (lambda k: MI(mn(k))), (lambda k: SI(sn(k)))

    def val(v):
        return v * scale

    def unval(x):
        y = float(x) / scale
        r = int(round(y)) if abs(y) < 1e9 else -777777
        return r if abs(y - r) < 2e-3 else 800000 + as_int(np.floor(y * 10) % 90000)

    CN = [[u'mc_%d' % i for i in range(2)], [u'sc_%d' % i for i in range(2)], [u'tc_%d' % i for i in range(2)]]

    def name(v, d):
        return d(v)

    def pj(t):
        k = 'ndx' if isinstance(t, TrialNdx) else 'key' if isinstance(t, TrialKey) else 'scr'
        m, s = list(t.model_set), list(t.seg_set)
        o = {'k': k, 'm': [MIJ(x) for x in m], 's': [SIJ(x) for x in s], 'mc': [], 'sc': [], 'tc': [], 'nm': [0, 0, 0]}
        if k == 'ndx':
            a = np.asarray(t.trial_mask)
            lab = a.astype(int)
        elif k == 'key':
            a = np.asarray(t.tar)
            lab = a.astype(int) + 2 * np.asarray(t.non).astype(int)
        else:
            a = np.asarray(t.scores)
            msk = np.asarray(t.score_mask)
            lab = np.array([[unval(a[i, j]) if msk[i, j] else NA for j in range(len(s))] for i in range(len(m))]).reshape(len(m), len(s))
            if msk.shape != a.shape:
                lab = np.full(a.shape, -5)
        if a.shape != (len(m), len(s)) or t.num_models != len(m) or t.num_tests != len(s):
            o['lab'] = [[-9]]
        else:
            o['lab'] = lab.tolist() if len(m) else []
        if k == 'key':
            for q, (f, c, nme) in enumerate((('mc', t.model_cond, t.model_cond_name), ('sc', t.seg_cond, t.seg_cond_name),
                                             ('tc', t.trial_cond, t.trial_cond_name))):
                if c is None:
                    continue
                c = np.asarray(c).astype(int)
                o['nm'][q] = len(c)
                if nme is not None and list(nme) != CN[q][:len(c)]:
                    o['nm'][q] = -1
                w = (c * (2 ** np.arange(len(c))).reshape((-1,) + (1,) * (c.ndim - 1))).sum(0)
                o[f] = w.tolist()
        return o

    # several renderings of a number may be used for models (files of an enrolment become models)
    def MIJ(x):
        return MI(str(x))

    def SIJ(x):
        return SI(str(x))

    def build(o):
        m, s = [mn(x) for x in o['m']], [sn(x) for x in o['s']]
        sh = (len(m), len(s))
        lab = np.array(o['lab']).reshape(sh)
        if sty[3] % 2:
            m, s = np.array(m), np.array(s)
        if o['k'] == 'ndx':
            if sty[3] % 3 == 0 and lab.all():
                return TrialNdx(m, s)
            return TrialNdx(m, s, lab.astype(bool))
        if o['k'] == 'scr':
            msk = lab != NA
            # what lies under a missing score is not part of the table
            a = np.where(msk, lab * scale, [0.0, 7.25 * scale, -3.0][sty[4] % 3])
            if msk.all() and sty[3] % 3 == 0:
                return TrialScores(m, s, a)
            return TrialScores(m, s, a, msk)
        kw = {}
        for q, (f, w) in enumerate((('model_cond', o['mc']), ('seg_cond', o['sc']), ('trial_cond', o['tc']))):
            n = o['nm'][q]
            if n:
                shq = [(len(m),), (len(s),), sh][q]
                w = np.array(w, dtype=int).reshape(shq)
                kw[f] = np.array([(w >> b) & 1 for b in range(n)]).astype(bool).reshape((n,) + shq)
                if sty[5] % 3:
                    kw[f + '_name'] = list(CN[q][:n])
        return TrialKey(m, s, (lab & 1).astype(bool), (lab & 2).astype(bool), **kw)

    def iobj(o):
        r = dict(o)
        r['m'], r['s'] = [M(x) for x in o['m']], [S(x) for x in o['s']]
        return r

    pool, evs, own = [], [], []
    for o in ops:
        op = o['op']
        e = {'op': op, 'r': o.get('r', 1), 'exc': '', 'res': []}
        if op == 'new':
            e['r'] = 1
            t, e['exc'] = call(build, o['obj'])
            e['obj'] = iobj(o['obj'])
            if t is not None:
                pool.append(t)
        else:
            if o['r'] > len(pool) or o.get('r2', 1) > len(pool):
                continue
            t = pool[o['r'] - 1]
            kind = 'ndx' if isinstance(t, TrialNdx) else 'key' if isinstance(t, TrialKey) else 'scr'
            t2 = pool[o['r2'] - 1] if 'r2' in o else None
            if 'r2' in o:
                e['r2'] = o['r2']
            x = None
            if op == 'copy':
                x, e['exc'] = call(t.copy)
                own = [o['r'], len(pool) + 1]
            elif op == 'sort':
                _, e['exc'] = call(t.sort)
            elif op == 'poke':
                # only objects that a copy has just been made of share nothing by promise
                if o['r'] not in own or not len(t.model_set) or not len(t.seg_set):
                    continue
                i, j = o['i'] % len(t.model_set), o['j'] % len(t.seg_set)
                e['i'], e['j'], e['v'] = i + 1, j + 1, o['v']
                if kind == 'ndx':
                    e['v'] = o['v'] % 2
                    t.trial_mask[i, j] = bool(e['v'])
                elif kind == 'key':
                    e['v'] = o['v'] % 3
                    t.tar[i, j], t.non[i, j] = e['v'] == 1, e['v'] == 2
                else:
                    t.scores[i, j], t.score_mask[i, j] = val(o['v']), True
            elif op == 'filter':
                a, c = [mn(v) for v in o['ms']], [sn(v) for v in o['ss']]
                e['ms'], e['ss'], e['keep'], e['rm'] = [M(v) for v in o['ms']], [S(v) for v in o['ss']], o['keep'], o['rm']
                if sty[3] % 2 and a and c:
                    a, c = np.array(a), np.array(c)
                kw = {'keep': o['keep']} if not (o['keep'] and sty[3] % 3) else {}
                if kind == 'scr':
                    kw['raise_missing'] = o['rm']
                x, e['exc'] = call(t.filter, a, c, **kw)
            elif op == 'split':
                e['nm'], e['ns'] = o['nm'], o['ns']
                y, e['exc'] = call(lambda: [t.split(i + 1, o['nm'], j + 1, o['ns']) for i in range(o['nm']) for j in range(o['ns'])])
                if y is not None:
                    pool.extend(y)
            elif op == 'merge':
                e['regs'] = [r for r in o['regs'] if r <= len(pool)]
                ts = [pool[r - 1] for r in e['regs']]
                if len(ts) < 2 or len({type(y) for y in ts}) > 1 or len({tuple(pj(y)['nm']) for y in ts}) > 1:
                    continue
                e['r'] = e['regs'][0]
                x, e['exc'] = call(type(ts[0]).merge, ts)
            elif op == 'saveload':
                f = os.path.join(wd, 'o%d.%s' % (len(evs), o['fmt']))
                # only lists without labels are text in any file not named as hdf5
                e['fmt'] = {'hdf5': 'h5', 'lst': 'txt' if kind == 'ndx' else 'h5'}.get(o['fmt'], o['fmt'])
                if not (len(t.model_set) and len(t.seg_set)):
                    continue
                if kind == 'key' and (t.tar & t.non).any():
                    continue  # two keys that contradict each other were merged: no file says that
                x, e['exc'] = call(lambda: (t.save(f), type(t).load(f))[1])
            elif op == 'to_ndx':
                if kind != 'key':
                    continue
                x, e['exc'] = call(t.to_ndx)
            elif op == 'eq':
                if type(t) is not type(t2):
                    continue
                y, e['exc'] = call(lambda: [bool(t == t2), bool(t != t2)])
                e['res'] = y if y is not None else []
            elif op in ('align', 'setmiss', 'tarnon'):
                if kind != 'scr' or isinstance(t2, TrialScores) or (op == 'tarnon' and not isinstance(t2, TrialKey)):
                    continue
                if op == 'align':
                    e['rm'] = o['rm']
                    x, e['exc'] = call(t.align_with_ndx, t2, **({} if o['rm'] and sty[3] % 2 else {'raise_missing': o['rm']}))
                elif op == 'setmiss':
                    e['val'] = o['val']
                    x, e['exc'] = call(t.set_missing_to_value, t2, val(o['val']))
                else:
                    y, e['exc'] = call(t.get_tar_non, t2)
                    if y is not None:
                        e['res'] = [[unval(v) for v in y[0]], [unval(v) for v in y[1]]]
            elif op == 'transform':
                if kind != 'scr':
                    continue
                e['f'] = o['f']
                f = (lambda v: -v) if o['f'] == 'neg' else (lambda v: v + 100 * scale)
                _, e['exc'] = call(t.transform, f)
            elif op == 'segment':
                if kind != 'ndx' or not len(t.seg_set):
                    continue
                segs = [[100 * inv_k(SI, sn, y) + q for q in range(1, 1 + inv_k(SI, sn, y) % 3)] for y in t.seg_set] \
                    if all(inv_k(SI, sn, y) in range(1, 30) for y in t.seg_set) else None
                if segs is None:
                    continue
                e['segs'] = [[S(v) for v in q] for q in segs]
                x, e['exc'] = call(t.apply_segmentation_to_test, Segs({y: [sn(v) for v in q] for y, q in zip(t.seg_set, segs)}))
            elif op == 'eval':
                if kind != 'ndx':
                    continue
                toseg = o['set'].startswith('coh')
                coh = o['set'].endswith('coh')
                enr = Utt2Info.create([mn(r[0]) for r in o['enr']], [mn(r[1]) for r in o['enr']])
                tst = Utt2Info.create([sn(r[0]) for r in o['tst']], [sn(r[1]) for r in o['tst']])
                e['enr'] = [[M(r[0]), M(r[1])] for r in o['enr']]
                e['tst'] = [[S(r[0]), S(r[1])] for r in o['tst']]
                e['set'] = o['set']
                y, e['exc'] = call(TrialNdx.parse_eval_set, t, enr, tst if coh or sty[3] % 2 else None, o['set'])
                if y is not None:
                    x = y[0]
                    e['res'] = [[MIJ(a), MIJ(c)] for a, c in zip(y[1].key, y[1].info)]
                    # the index may be the given one; the pool keeps separate objects
                    x = x.copy() if x is t else x
            else:
                continue
            if x is not None:
                pool.append(x)
        p, xx = call(lambda: [pj(y) for y in pool])
        e['pool'] = p if p is not None else []
        e['exc'] = e['exc'] or (xx and 'reading an object ' + xx)
        evs.append(e)
        if e['exc'] == 'HANG' or xx or len(pool) > 16:
            break
    return {'init': 0, 'ev': evs}


def inv_k(I, f, name):
    for k in range(0, 100):
        if f(k) == name:
            return k
    return -1


def gen_obj(rnd, kind, cond, nmax, like=None):
    m = rnd.sample(range(1, 2 + nmax), rnd.randint(1, nmax))
    s = rnd.sample(range(1, 2 + nmax), rnd.randint(1, nmax))
    dens = rnd.choice([0.1, 0.5, 0.9, 1.0])
    if kind == 'scr':
        dens = rnd.choice([0.6, 0.9, 1.0, 1.0])
    if like is not None:
        m, s = list(like['m']), list(like['s'])
        rnd.shuffle(m)
        rnd.shuffle(s)
        if rnd.random() < 0.4:
            m, s = m[:rnd.randint(1, len(m))], s[:rnd.randint(1, len(s))]

    def lab():
        if rnd.random() > dens:
            return NA if kind == 'scr' else 0
        return {'ndx': 1, 'key': rnd.choice([1, 2, 2]), 'scr': rnd.randint(-50, 50)}[kind]
    o = {'k': kind, 'm': m, 's': s, 'lab': [[lab() for _ in s] for _ in m], 'mc': [], 'sc': [], 'tc': [], 'nm': [0, 0, 0]}
    if kind == 'key':
        o['nm'] = list(cond)
        if cond[0]:
            o['mc'] = [rnd.randrange(2 ** cond[0]) for _ in m]
        if cond[1]:
            o['sc'] = [rnd.randrange(2 ** cond[1]) for _ in s]
        if cond[2]:
            o['tc'] = [[rnd.randrange(2 ** cond[2]) for _ in s] for _ in m]
    return o


def nearly(rnd, a, nmax):
    b = json.loads(json.dumps(a))
    where = rnd.choice(['none', 'm', 's', 'lab', 'lab', 'mc', 'sc', 'tc', 'drop', 'nm'])
    if where in ('m', 's'):
        i = rnd.randrange(len(b[where]))
        b[where][i] = rnd.choice([v for v in range(1, 4 + nmax) if v not in b[where]])
    elif where == 'lab':
        i, j = rnd.randrange(len(b['m'])), rnd.randrange(len(b['s']))
        v = b['lab'][i][j]
        b['lab'][i][j] = {'ndx': 1 - v if b['k'] == 'ndx' else 0, 'key': rnd.choice([q for q in (0, 1, 2) if q != v]),
                          'scr': rnd.choice([q for q in (NA, 0, 3, v + 1 if v != NA else 1) if q != v])}[b['k']]
    elif where in ('mc', 'sc') and b[where]:
        i = rnd.randrange(len(b[where]))
        b[where][i] ^= 1 << rnd.randrange(b['nm'][0 if where == 'mc' else 1])
    elif where == 'tc' and b['tc']:
        i, j = rnd.randrange(len(b['m'])), rnd.randrange(len(b['s']))
        b['tc'][i][j] ^= 1 << rnd.randrange(b['nm'][2])
    elif where == 'drop' and len(b['s']) > 1:
        b['s'].pop()
        if b['sc']:
            b['sc'].pop()
        b['lab'] = [r[:-1] for r in b['lab']]
        b['tc'] = [r[:-1] for r in b['tc']]
    return b


def gen_script(rnd, kinds, nops, nmax):
    cond = rnd.choice([(0, 0, 0), (2, 1, 2), (0, 2, 0), (1, 0, 1), (0, 0, 2)])
    objs = [gen_obj(rnd, rnd.choice(kinds), cond, nmax)]
    if 'scr' in kinds:
        objs = [gen_obj(rnd, 'scr', cond, nmax)]
        # trials over the same models and segments in another order, over some of them, or over others
        like = objs[0] if rnd.random() < 0.7 else None
        objs.append(gen_obj(rnd, rnd.choice(['ndx', 'key', 'key']), cond, nmax, like))
    ops = [{'op': 'new', 'r': 1, 'obj': o} for o in objs]
    npool = len(ops)
    choices = ['new', 'copy', 'sort', 'sort', 'filter', 'filter', 'split', 'merge', 'merge', 'saveload', 'saveload', 'eq', 'poke', 'to_ndx']
    if 'scr' in kinds:
        choices += ['align', 'align', 'align', 'setmiss', 'tarnon', 'transform', 'alignpair']
    else:
        choices += ['segment', 'eval', 'to_ndx']
    if rnd.random() < 0.35:
        # two tables that differ in one place, or not at all
        a = gen_obj(rnd, rnd.choice(kinds), cond, nmax)
        ops += [{'op': 'new', 'r': 1, 'obj': a}, {'op': 'new', 'r': 1, 'obj': nearly(rnd, a, nmax)},
                {'op': 'eq', 'r': npool + 1, 'r2': npool + 2}, {'op': 'eq', 'r': npool + 2, 'r2': npool + 1}]
        npool += 2
    for _ in range(nops):
        r = rnd.randint(1, npool) if rnd.random() < 0.6 else npool
        o = rnd.choice(choices)
        if o == 'new':
            ops.append({'op': 'new', 'r': 1, 'obj': gen_obj(rnd, rnd.choice(kinds), cond, nmax)})
            npool += 1
        elif o in ('copy',):
            ops.append({'op': o, 'r': r})
            npool += 1
            if rnd.random() < 0.5:
                ops.append({'op': rnd.choice(['sort', 'poke']), 'r': rnd.choice([r, npool]), 'i': rnd.randint(0, 9), 'j': rnd.randint(0, 9), 'v': rnd.randint(1, 9)})
        elif o in ('sort', 'to_ndx', 'segment'):
            ops.append({'op': o, 'r': r})
            npool += o != 'sort'
        elif o == 'saveload':
            ops.append({'op': o, 'r': r, 'fmt': rnd.choice(['h5', 'txt', 'h5', 'txt', 'hdf5', 'lst'])})
            npool += 1
        elif o == 'poke':
            continue
        elif o == 'filter':
            ms = rnd.sample(range(1, 2 + nmax), rnd.randint(0, nmax))
            ss = rnd.sample(range(1, 2 + nmax), rnd.randint(0, nmax))
            keep = rnd.random() < 0.6
            ops.append({'op': o, 'r': r, 'ms': ms, 'ss': ss, 'keep': keep, 'rm': rnd.random() < 0.5, 'fit': rnd.random() < 0.7})
            npool += 1
        elif o == 'split':
            nm, ns = rnd.choice([(1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (2, 4)])
            ops.append({'op': o, 'r': r, 'nm': nm, 'ns': ns})
            if rnd.random() < 0.6:
                regs = list(range(npool + 1, npool + nm * ns + 1))
                if rnd.random() < 0.5:
                    rnd.shuffle(regs)
                ops.append({'op': 'merge', 'r': regs[0], 'regs': regs})
            npool += nm * ns + 1
        elif o == 'merge':
            ops.append({'op': o, 'r': r, 'regs': [rnd.randint(1, npool) for _ in range(rnd.randint(2, 3))]})
            npool += 1
        elif o == 'eq':
            ops.append({'op': o, 'r': r, 'r2': rnd.randint(1, npool)})
        elif o in ('align', 'setmiss', 'tarnon'):
            r = rnd.choice([1, 1, r])
            ops.append({'op': o, 'r': r, 'r2': rnd.choice([2, 2, rnd.randint(1, npool)]), 'rm': rnd.random() < 0.4, 'val': rnd.choice([-90, 77, 0])})
            npool += o != 'tarnon'
        elif o == 'alignpair':
            # scores divided over two trial lists and put together again
            n1 = gen_obj(rnd, 'ndx', cond, nmax)
            n2 = dict(n1, lab=[[1 - v for v in row] for row in n1['lab']])
            ops += [{'op': 'new', 'r': 1, 'obj': n1}, {'op': 'new', 'r': 1, 'obj': n2},
                    {'op': 'align', 'r': 1, 'r2': npool + 1, 'rm': False}, {'op': 'align', 'r': 1, 'r2': npool + 2, 'rm': False},
                    {'op': 'merge', 'r': npool + 3, 'regs': [npool + 3, npool + 4]}]
            npool += 5
        elif o == 'transform':
            ops.append({'op': o, 'r': rnd.choice([1, r]), 'f': rnd.choice(['neg', 'add'])})
        elif o == 'eval':
            mods = objs[0]['m'] if rnd.random() < 0.8 else [1]
            enr = [[60 + i, rnd.choice(mods)] for i in range(rnd.randint(1, 3))] + [[80 + i, v] for i, v in enumerate(objs[0]['m'])]
            if rnd.random() < 0.2:
                enr = enr[:-1]
            if not enr:
                continue
            rnd.shuffle(enr)
            ops.append({'op': o, 'r': rnd.choice([1, r]), 'enr': enr, 'tst': [[30 + i, i] for i in range(rnd.randint(1, 3))],
                        'set': rnd.choice(['enroll-test', 'enroll-coh', 'coh-test', 'coh-coh'])})
            npool += 1
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(6)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc'] == '' and e['pool'] and e['pool'][-1]['lab'] and e['pool'][-1]['lab'][0]:
            e['pool'][-1]['lab'][0][0] += 1
            return b
    return None


def run_kind(ck, mine, kinds):
    """mine: predicate on the first object's kind of a model behaviour."""
    rnd = random.Random(ck.seed)
    hists = ck.model('MC_Trials', timeout=800, want=1000)
    if ck.thorough:
        hists += ck.model('MC_Trials', cfg='MC_Trials2.cfg', timeout=1500)
    hists = [h for h in hists if mine(h[0]['obj']['k'])]
    rnd.shuffle(hists)
    scripts = [{'ops': h, 'style': [rnd.randint(0, 99) for _ in range(6)]} for h in hists[:ck.pick(4000, 60000)]]
    for i in range(ck.pick(3000, 25000)):
        scripts.append(gen_script(rnd, kinds, rnd.choice([3, 6, 10]), rnd.choice([2, 4, 4, 8])))
    mod = 'checks.trials'
    behs = ck.execute(mod, scripts)
    ck.judge('Trace_Trials', behs, scripts, mod, label='trials', batch=7000)
    ck.negative_control('Trace_Trials', behs[-200:], corrupt, n=20)
