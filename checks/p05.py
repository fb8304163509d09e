"""P05: utterance tables (Utt2Info) keep rows whole under every history of operations."""
import os
import json
import random

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.p04 import KEYSTYLES

VALSTYLES = [
    lambda c, v: 'spk%d' % v,
    lambda c, v: '%d' % (v * 3 + 7),                 # numeric strings
    lambda c, v: '00%d' % v,
    lambda c, v: 'x' * (v % 23 + 1),
    lambda c, v: ['eng', 'NA', 'spa', 'null', 'cmn', 'nan', 'None', 'deu', 'true', 'arb'][v % 10] + ('' if v < 10 else str(v)),
    lambda c, v: u'\u00f1%d' % v,
]
SAFE_MULTI = (0, 3, 5)     # columns beyond the first are parsed by pandas: only non-numeric text survives


def execute(script, wd):
    from hyperion.utils.utt2info import Utt2Info
    ops, style = script['ops'], script['style']
    kn = KEYSTYLES[style[0] % len(KEYSTYLES)]
    ncols = max([o['tab']['n'] for o in ops if 'tab' in o])
    vsty = style[1] % len(VALSTYLES)
    if ncols > 1 and vsty not in SAFE_MULTI:
        vsty = 0
    vn = VALSTYLES[vsty]
    keys, vals = set(), set()
    for o in ops:
        if 'tab' in o:
            for r in o['tab']['rows']:
                keys.add(r[0])
                vals.update(r[1:])
        if 'key' in o:
            keys.add(o['key'])
        if o['op'] == 'filter':
            keys.update(o['keys'])
        if o['op'] == 'filter_info':
            vals.update(o['keys'])
    KI = Interner([kn(k) for k in keys])
    VI = Interner([vn(0, v) for v in vals], base=1000)

    def proj(t):
        k, info, n = t.key, t.info, as_int(t.num_info_fields)
        rows = []
        ok = len(info) == len(k) and info.ndim in (1, 2)
        for i in range(len(k)):
            v = info[i] if i < len(info) else []
            v = [v] if np.ndim(v) == 0 else list(v)
            rows.append([KI(k[i])] + [VI(x) for x in v])
        if not ok:
            rows.append([-1] * (n + 1))
        return {'rows': rows, 'n': n}

    def itab(tab):
        return {'rows': [[KI(kn(r[0]))] + [VI(vn(c, v)) for c, v in enumerate(r[1:])] for r in tab['rows']], 'n': tab['n']}

    def build(tab):
        k = [kn(r[0]) for r in tab['rows']]
        info = [[vn(c, v) for c, v in enumerate(r[1:])] for r in tab['rows']]
        if tab['n'] == 1:
            info = [x[0] for x in info]
        if style[2] % 2:
            k, info = np.array(k), np.array(info)
        return Utt2Info.create(k, info)

    pool, evs = [], []
    for o in ops:
        op = o['op']
        e = {'op': op, 'r': o.get('r', 1), 'exc': '', 'res': []}
        if op == 'new':
            e['r'] = 1
            t, e['exc'] = call(build, o['tab'])
            e['tab'] = itab(o['tab'])
            if t is not None:
                pool.append(t)
        else:
            if o['r'] < 0:
                if len(pool) < 2:
                    continue
                o = dict(o, r=len(pool), r2=len(pool) - 1)
                e['r'] = o['r']
            if o['r'] > len(pool):
                continue
            t = pool[o['r'] - 1]
            n = len(t)
            if op == 'copy':
                x, e['exc'] = call(t.copy)
                if x is not None:
                    pool.append(x)
            elif op == 'sort':
                e['f'] = min(o['f'], t.num_info_fields)
                _, e['exc'] = call(t.sort, e['f']) if e['f'] or style[3] % 2 else call(t.sort)
            elif op == 'shuffle':
                e['seed'] = o['seed']
                kw = {'seed': o['seed']} if not o.get('rng') else {'rng': np.random.RandomState(o['seed'])}
                x, e['exc'] = call(t.shuffle, **kw)
                e['res'] = [] if x is None else [as_int(y) for y in x]
            elif op == 'len':
                x, e['exc'] = call(lambda: (len(t), t.len(), t.num_info_fields))
                e['res'] = [as_int(x[0]) if x[0] == x[1] else -1, as_int(x[2])] if x is not None else []
            elif op == 'at':
                if n == 0:
                    continue
                e['i'] = o['i'] % n
                x, e['exc'] = call(lambda: t[e['i']])
                if x is not None:
                    v = [x[1]] if np.ndim(x[1]) == 0 else list(x[1])
                    e['res'] = [KI(x[0])] + [VI(y) for y in v]
            elif op == 'index':
                k = kn(o['key'])
                e['key'] = KI(k)
                x, xx = call(lambda: bool(k in t))
                e['has'] = bool(x)
                x, e['exc'] = call(lambda: t.get_index(k))
                e['exc'] = e['exc'] or xx
                e['res'] = as_int(x) if x is not None else -1
            elif op == 'get':
                k = kn(o['key'])
                if list(t.key).count(k) > 1:
                    continue
                e['key'] = KI(k)
                x, e['exc'] = call(lambda: t[k])
                if x is not None:
                    e['res'] = [VI(x)] if np.ndim(x) == 0 else [VI(y) for y in x]
            elif op == 'filter':
                ks = [kn(k) for k in o['keys']]
                e['keys'], e['keep'] = [KI(k) for k in ks], o['keep']
                x, e['exc'] = call(t.filter, ks if style[2] % 2 or not ks else np.array(ks), **({} if o['keep'] and len(ks) % 2 else {'keep': o['keep']}))
                if x is not None:
                    pool.append(x)
            elif op == 'filter_info':
                f = min(o['f'], t.num_info_fields)
                ks = [vn(f - 1, k) for k in o['keys']]
                e['keys'], e['keep'], e['f'] = [VI(k) for k in ks], o['keep'], f
                x, e['exc'] = call(t.filter_info, np.array(ks, dtype=object if not ks else None), **dict({} if f == 1 and len(ks) < 3 else {'field': f}, **({} if o['keep'] and len(ks) % 2 else {'keep': o['keep']})))
                if x is not None:
                    pool.append(x)
            elif op == 'filter_index':
                idx = [i for i in o['idx'] if i < n]
                e['idx'], e['keep'] = idx, o['keep']
                x, e['exc'] = call(t.filter_index, np.array(idx, dtype=np.int64) if style[3] % 2 else idx, **({} if o['keep'] and len(idx) % 2 else {'keep': o['keep']}))
                if x is not None:
                    pool.append(x)
            elif op == 'split':
                e['n'], e['f'] = o['n'], min(o['f'], t.num_info_fields)
                x, e['exc'] = call(lambda: [t.split(i + 1, o['n'], group_by_field=e['f']) for i in range(o['n'])])
                if x is not None:
                    pool.extend(x)
            elif op == 'merge':
                e['regs'] = [r for r in o['regs'] if r <= len(pool)]
                ts = [pool[r - 1] for r in e['regs']]
                if not ts or len({x.num_info_fields for x in ts}) > 1:
                    continue
                x, e['exc'] = call(Utt2Info.merge, ts)
                if x is not None:
                    pool.append(x)
            elif op == 'saveload':
                if n == 0:
                    continue
                f = os.path.join(wd, 'u%d' % len(evs))
                sep = o.get('sep', ' ')

                def sl():
                    t.save(f, sep=sep)
                    if t.num_info_fields > 1 and style[3] % 3 == 0:
                        return Utt2Info.load(f, sep=sep, dtype={i: str for i in range(t.num_info_fields + 1)})
                    return Utt2Info.load(f, sep=sep)
                x, e['exc'] = call(sl)
                if x is not None:
                    pool.append(x)
            elif op == 'eq':
                if o['r2'] > len(pool):
                    continue
                e['r2'] = o['r2']
                u = pool[o['r2'] - 1]
                x, e['exc'] = call(lambda: [bool(t == u), bool(t != u)])
                e['res'] = x if x is not None else []
            else:
                continue
        p, x = call(lambda: [proj(y) for y in pool])
        e['pool'] = p if p is not None else []
        e['exc'] = e['exc'] or (x and 'reading a table ' + x)
        evs.append(e)
        if e['exc'] in ('HANG',) or x or len(pool) > 14:
            break
    return {'init': 0, 'ev': evs}


def gen_table(rnd, nmax, nkeys, ncols):
    n = rnd.choice([1, 1, 2, 3, 5, nmax, rnd.randint(1, nmax)])
    ks = rnd.sample(range(1, max(n, nkeys) + 1), n) if rnd.random() < 0.6 else [rnd.randint(1, nkeys) for _ in range(n)]
    if rnd.random() < 0.3:
        ks.sort()
    nv = rnd.choice([1, 2, 4, 20])
    return {'rows': [[k] + [rnd.randint(1, nv) for _ in range(ncols)] for k in ks], 'n': ncols}


def gen_script(rnd, nops, nmax):
    nkeys = rnd.choice([2, 3, 6, 12])
    ncols = rnd.choice([1, 1, 1, 2, 3])
    ops = [{'op': 'new', 'r': 1, 'tab': gen_table(rnd, nmax, nkeys, ncols)}]
    npool = 1
    keys = [r[0] for r in ops[0]['tab']['rows']]
    vals = [v for r in ops[0]['tab']['rows'] for v in r[1:]]
    sep = rnd.choice([' ', ' ', '\t', ',', '|'])
    for _ in range(nops):
        r = rnd.randint(1, npool) if rnd.random() < 0.6 else npool
        o = rnd.choice(['new', 'copy', 'sort', 'sort', 'shuffle', 'len', 'at', 'index', 'index', 'get', 'get', 'filter',
                        'filter', 'filter_info', 'filter_info', 'filter_index', 'split', 'merge', 'saveload', 'eq'])
        if o == 'new':
            ops.append({'op': 'new', 'r': r, 'tab': gen_table(rnd, nmax, nkeys, ncols)})
            keys += [x[0] for x in ops[-1]['tab']['rows']]
            npool += 1
        elif o in ('copy', 'saveload'):
            ops.append({'op': o, 'r': r, 'sep': sep})
            npool += 1
        elif o == 'len':
            ops.append({'op': o, 'r': r})
        elif o == 'sort':
            ops.append({'op': o, 'r': r, 'f': rnd.choice([0, 0, 1, 2, 3])})
        elif o == 'shuffle':
            ops.append({'op': o, 'r': r, 'seed': rnd.choice([1, 1024, 7]), 'rng': rnd.random() < 0.3})
        elif o == 'at':
            ops.append({'op': o, 'r': r, 'i': rnd.randint(0, 50)})
        elif o in ('index', 'get'):
            for _ in range(rnd.choice([1, 2])):
                ops.append({'op': o, 'r': r, 'key': rnd.choice(keys) if rnd.random() < 0.9 else 99})
        elif o == 'filter':
            u = sorted(set(keys))
            ks = rnd.sample(u, rnd.randint(0, len(u)))
            if rnd.random() < 0.1:
                ks.append(98)
            ops.append({'op': o, 'r': r, 'keys': ks, 'keep': rnd.random() < 0.5})
            npool += 1
        elif o == 'filter_info':
            u = sorted(set(vals))
            ks = rnd.sample(u, rnd.randint(0, len(u)))
            if rnd.random() < 0.1:
                ks.append(97)
            ops.append({'op': o, 'r': r, 'keys': ks, 'f': rnd.choice([1, 1, 2, 3]), 'keep': rnd.random() < 0.5})
            npool += 1
        elif o == 'filter_index':
            ops.append({'op': o, 'r': r, 'idx': [rnd.randint(0, nmax - 1) for _ in range(rnd.randint(0, 6))],
                        'keep': rnd.random() < 0.5})
            npool += 1
        elif o == 'split':
            n = rnd.choice([1, 2, 3, 4, 5, 7])
            ops.append({'op': o, 'r': r, 'n': n, 'f': rnd.choice([0, 1, 1, 2, 3])})
            npool += n
            if rnd.random() < 0.6:
                ops.append({'op': 'merge', 'r': 1, 'regs': list(range(npool - n + 1, npool + 1))})
                npool += 1
        elif o == 'merge':
            ops.append({'op': o, 'r': r, 'regs': [rnd.randint(1, npool) for _ in range(rnd.randint(1, 3))]})
            npool += 1
        elif o == 'eq':
            if rnd.random() < 0.5:      # tables that differ at most in one place
                tab = rnd.choice([q['tab'] for q in ops if q['op'] == 'new'])
                tab2 = json.loads(json.dumps(tab))
                row = rnd.choice(tab2['rows'])
                if rnd.random() < 0.8:
                    row[rnd.randrange(len(row))] += rnd.choice([1, 2])
                ops += [{'op': 'new', 'r': r, 'tab': tab}, {'op': 'new', 'r': r, 'tab': tab2}]
                npool += 2
                ops.append({'op': o, 'r': -1, 'r2': -2})
            else:
                ops.append({'op': o, 'r': r, 'r2': rnd.randint(1, npool)})
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(4)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc'] == '' and e['pool'] and len(e['pool'][-1]['rows']) >= 2:
            e['pool'][-1]['rows'][0][1] += 1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    hists = ck.model('MC_Utt2Info', timeout=800, want=1000)
    scripts = [{'ops': h, 'style': [rnd.randint(0, 99) for _ in range(4)]} for h in hists]
    rnd.shuffle(scripts)
    scripts = scripts[:ck.pick(4000, 60000)]
    for i in range(ck.pick(2500, 20000)):
        scripts.append(gen_script(rnd, rnd.choice([3, 6, 10]), rnd.choice([3, 8, 8, 30])))
    behs = ck.execute('checks.p05', scripts)
    ck.judge('Trace_Utt2Info', behs, scripts, 'checks.p05', label='Utt2Info', batch=9000)
    ck.negative_control('Trace_Utt2Info', behs[-200:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P05', run)
