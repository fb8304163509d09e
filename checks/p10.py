"""P10: folds and train/validation/evaluation parts partition the data without leakage."""
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.p04 import KEYSTYLES

KS = [KEYSTYLES[i] for i in (0, 2, 3, 4, 5)]
LS = [lambda x: 'g%d' % x, lambda x: 'lang-%s' % chr(97 + x % 26) + str(x // 26), lambda x: '%d' % (100 - x), lambda x: x * 3 - 7]
UNIT = 20


def execute(script, wd):
    from hyperion.utils.fold_list import FoldList
    from hyperion.utils.train_val_eval_list import TrainValEvalList
    ops, sty = script['ops'], script['style']
    kn, ln = KS[sty[0] % len(KS)], LS[sty[1] % len(LS)]
    KI = Interner([kn(k) for k in range(200)])
    K = lambda k: KI(kn(k))
    pool, evs = [], []

    def arr(x, f):
        y = [f(v) for v in x]
        return np.array(y)

    def lst(x):
        # the documentation allows lists of strings
        return list(x) if sty[2] % 2 else x

    def proj(t):
        fold = isinstance(t, FoldList)
        part = t.fold if fold else t.part
        key = [KI(str(k)) for k in t.key]
        mask = [] if t.mask is None else [as_int(m) for m in t.mask]
        names = [] if fold or t.part_names is None else [str(n) for n in t.part_names]
        return {'t': 'fold' if fold else 'tve', 'key': key, 'part': [as_int(p) for p in part], 'mask': mask, 'names': names}

    def create(a):
        key = arr(a['key'], kn)
        g = None if not a['grp'] else arr(a['grp'], ln)
        c = None if not a['bal'] else arr(a['bal'], lambda v: ln(v + 31))
        m = None if not a['mask'] else np.array(a['mask'], dtype=bool)
        kw = dict(shuffle=a['shuffle'], seed=a['seed'])
        if g is not None or sty[3] % 2:
            kw['group_by_key'] = lst(g) if g is not None else None
        if c is not None or sty[3] % 2:
            kw['balance_by_key'] = lst(c) if c is not None else None
        if m is not None:
            kw['mask'] = m
        if a['t'] == 'fold':
            return FoldList.create(lst(key), a['n'], **kw)
        if a['names']:
            kw['part_names'] = a['names']
        return TrainValEvalList.create(lst(key), [p / float(UNIT) for p in a['props']], **kw)

    for o in ops:
        op = o['op']
        e = {'op': op, 'r': o.get('r', 1), 'exc': '', 'res': []}
        if op == 'create':
            e['r'] = 1
            a = o['args']
            e['args'] = dict(a, key=[K(k) for k in a['key']])
            x, e['exc'] = call(create, a)
        elif op == 'new':
            e['r'] = 1
            b = o['obj']
            e['obj'] = dict(b, key=[K(k) for k in b['key']])
            m = np.array(b['mask'], dtype=bool) if b['mask'] else None
            if b['t'] == 'fold':
                x, e['exc'] = call(FoldList, lst(np.array(b['part'])), lst(arr(b['key'], kn)), m)
            else:
                x, e['exc'] = call(TrainValEvalList, lst(arr(b['key'], kn)), lst(np.array(b['part'])), b['names'] or None, m)
        else:
            x = None
            if o['r'] > len(pool):
                continue
            t = pool[o['r'] - 1]
            fold = isinstance(t, FoldList)
            if op == 'copy':
                x, e['exc'] = call(t.copy)
            elif op == 'saveload':
                f = os.path.join(wd, 'f%d' % len(evs))
                sep = [' ', ' ', '\t', ','][sty[3] % 4]
                x, e['exc'] = call(lambda: (t.save(f, sep=sep), type(t).load(f, sep=sep))[1])
            elif op == 'len':
                y, e['exc'] = call(lambda: [as_int(len(t)), as_int(t.num_folds if fold else t.num_parts())])
                e['res'] = y or []
            elif op == 'fold':
                if not fold:
                    continue
                e['p'] = p = o['p']

                def q():
                    tr, te = t.get_fold(p)
                    i, j = t.get_fold_idx(p)
                    a, b = t[p]
                    assert list(a) == list(tr) and list(b) == list(te)
                    return [[KI(str(k)) for k in tr], [KI(str(k)) for k in te], [as_int(v) for v in i], [as_int(v) for v in j]]
                y, e['exc'] = call(q)
                e['res'] = y or []
            elif op == 'part':
                if fold:
                    continue
                e['p'], e['name'] = o['p'], o['name']
                if o['name'] and t.part_names is None:
                    continue
                p = o['name'] or o['p']

                def q():
                    a = t.get_part(p)
                    i = t.get_part_idx(p)
                    b = t[p]
                    assert list(a) == list(b)
                    return [[KI(str(k)) for k in a], [as_int(v) for v in i]]
                y, e['exc'] = call(q)
                e['res'] = y or []
            elif op == 'align':
                keys = [kn(k) for k in o['keys']]
                e['keys'] = [K(k) for k in o['keys']]
                _, e['exc'] = call(t.align_with_key, keys if sty[2] % 3 else np.array(keys))
            else:
                continue
        if x is not None:
            pool.append(x)
        p, xx = call(lambda: [proj(y) for y in pool])
        e['pool'] = p if p is not None else []
        e['exc'] = e['exc'] or (xx and 'reading a list ' + xx)
        evs.append(e)
        if e['exc'] == 'HANG' or xx:
            break
    return {'init': 0, 'ev': evs}


def follow(rnd, a, r):
    ops = []
    n = a['n'] if a['t'] == 'fold' else len(a['props']) + 1
    ops.append({'op': 'len', 'r': r})
    for p in range(n):
        if a['t'] == 'fold':
            ops.append({'op': 'fold', 'r': r, 'p': p})
        else:
            ops.append({'op': 'part', 'r': r, 'p': p, 'name': rnd.choice(['', '', 'train', 'val', 'eval', 'dev'])})
    return ops


def extend(rnd, a):
    ops = [{'op': 'create', 'args': a}]
    r = 1
    for _ in range(rnd.randint(0, 4)):
        o = rnd.choice(['copy', 'saveload', 'align', 'again', 'query'])
        if o in ('copy', 'saveload'):
            ops.append({'op': o, 'r': rnd.randint(1, r)})
            r += 1
        elif o == 'align':
            ks = list(a['key'])
            rnd.shuffle(ks)
            ks = ks[:rnd.randint(1, len(ks))]
            if rnd.random() < 0.15:
                ks[0] = 199
            ops.append({'op': o, 'r': rnd.randint(1, r), 'keys': ks})
        elif o == 'again':
            ops.append({'op': 'create', 'args': a})
            r += 1
        else:
            ops += follow(rnd, a, rnd.randint(1, r))
    ops += follow(rnd, a, rnd.randint(1, r))
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(4)]}


def gen_args(rnd, nmax):
    n = rnd.randint(1, nmax)
    t = rnd.choice(['fold', 'tve'])
    ng, nc = rnd.randint(1, max(1, n)), rnd.randint(1, 4)
    g = [rnd.randint(1, ng) for _ in range(n)]
    cg = {v: rnd.randint(1, nc) for v in range(1, ng + 1)}
    hasg, hasc = rnd.random() < 0.7, rnd.random() < 0.6
    if hasg:
        c = [cg[v] for v in g]
    else:
        c = [rnd.randint(1, nc) for _ in range(n)]
    m = []
    z = rnd.random()
    if z < 0.3:
        m = [int(rnd.random() < 0.7) for _ in range(n)]
    elif z < 0.4:
        k = rnd.choice(c)                 # a whole class masked out
        m = [int(v != k) for v in c]
    if m and not any(m):
        m = []
    props = []
    if t == 'tve':
        k = rnd.choice([1, 1, 2, 2, 2, 3])
        props = rnd.choice([[[10], [16], [18], [5]], [[10, 5], [16, 2], [12, 4], [18, 1]], [[5, 5, 5], [14, 2, 2]]][k - 1])
    names = []
    if t == 'tve' and rnd.random() < 0.4:
        names = ['train', 'dev', 'val', 'eval'][:len(props) + 1]
    keys = rnd.sample(range(0, 150), n)
    if rnd.random() < 0.3:
        keys.sort()
    return {'t': t, 'key': keys, 'n': rnd.choice([1, 2, 3, 4, 5, 10]), 'props': props, 'grp': g if hasg else [], 'bal': c if hasc else [],
            'mask': m, 'shuffle': rnd.random() < 0.6, 'seed': rnd.choice([1024, 1, 7]), 'names': names}


def gen_new(rnd, nmax):
    n = rnd.randint(1, nmax)
    t = rnd.choice(['fold', 'tve'])
    k = rnd.randint(1, min(4, n))
    part = list(range(k)) + [rnd.randint(0, k - 1) for _ in range(n - k)]
    mask = []
    rnd.shuffle(part)
    if rnd.random() < 0.5 and n > k:
        seen, mask = set(), [1] * n
        for i in range(n):
            if part[i] in seen and rnd.random() < 0.5:
                part[i], mask[i] = -1, 0
            seen.add(part[i])
    names = ['train', 'val', 'eval', 'dev'][:k] if t == 'tve' and rnd.random() < 0.7 else []
    obj = {'t': t, 'key': rnd.sample(range(0, 150), n), 'part': part, 'mask': mask, 'names': names}
    s = extend(rnd, {'t': t, 'n': k, 'props': [0] * (k - 1), 'key': obj['key']})
    s['ops'] = [{'op': 'new', 'obj': obj}] + [o for o in s['ops'] if o['op'] != 'create']
    return s


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc'] == '' and e['op'] == 'create' and e['pool'] and 0 in e['pool'][-1]['part']:
            p = e['pool'][-1]['part']
            p[p.index(0)] = -1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    args = ck.model('MC_FoldLists', cfg=ck.pick(None, 'MC_FoldLists6.cfg'), timeout=1500, want=1000)
    rnd.shuffle(args)
    scripts = [extend(rnd, a) for a in args[:ck.pick(5000, 60000)]]
    for i in range(ck.pick(3000, 20000)):
        scripts.append(extend(rnd, gen_args(rnd, rnd.choice([4, 8, 8, 25]))))
    for i in range(ck.pick(500, 3000)):
        scripts.append(gen_new(rnd, rnd.choice([3, 8])))
    behs = ck.execute('checks.p10', scripts)
    ck.judge('Trace_FoldLists', behs, scripts, 'checks.p10', label='folds', batch=9000)
    ck.negative_control('Trace_FoldLists', behs[:300], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P10', run)
