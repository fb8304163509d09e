"""P04: script lists (SCPList) are tables whose rows stay whole under every history of operations."""
import json
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call

KEYSTYLES = [
    lambda k: 'utt%d' % k,                      # utt10 < utt2
    lambda k: 'a' * k,                          # prefixes of each other
    lambda k: 'Spk-%s_%d' % ('xyzw'[k % 4], 997 * k),
    lambda k: '%d' % (k * 7 + 93),              # numeric strings
    lambda k: u'\u00e9%s\u4e2d' % chr(97 + k % 26) + 'z' * (k // 26),
    lambda k: ('K' if k % 2 else 'k') + '%d.wav' % k,
]
PATHSTYLES = [
    lambda p: '/data/set %d/f.ark' % p if False else '/data/set%d/f.ark' % p,
    lambda p: 'f%d.h5' % p,
    lambda p: '../exp/xv_%d/feats.%d.ark' % (p, p),
    lambda p: 'p' * (p % 40 + 1),
]
OFFSTYLES = [lambda o: o, lambda o: o * 1000003, lambda o: o * 2 ** 33 + 7, lambda o: o - 1]


def execute(script, wd):
    from hyperion.utils.scp_list import SCPList
    ops, style = script['ops'], script['style']
    kn = KEYSTYLES[style[0] % len(KEYSTYLES)]
    pn = PATHSTYLES[style[1] % len(PATHSTYLES)]
    on = OFFSTYLES[style[2] % len(OFFSTYLES)]
    as_list = style[3] % 2 == 1
    keys, paths, offs, prefixes = set(), set(), set(), set()
    for o in ops:
        if 'tab' in o:
            for r in o['tab']['rows']:
                keys.add(r[0]); paths.add(r[1]); offs.add(r[2])
        if 'key' in o:
            keys.add(o['key'])
        if o['op'] == 'filter':
            keys.update(o['keys'])
        if o['op'] == 'filter_paths':
            paths.update(o['keys'])
    KI = Interner([kn(k) for k in keys])
    allp = {pn(p) for p in paths}
    cur = set(allp)
    for o in ops:
        if o['op'] == 'prefix':
            cur |= {o['prefix'] + p for p in cur}
            if len(cur) > 400:
                break
    PI = Interner(cur, base=10)
    OI = Interner([on(o) for o in offs], base=1000)

    def proj(t):
        off, rng = t.offset is not None, t.range_spec is not None
        n = len(t.key)
        ok = len(t.file_path) == n and (not off or len(t.offset) == n) and (not rng or len(t.range_spec) == n)
        rows = []
        for i in range(n):
            rows.append([KI(str(t.key[i])), PI(str(t.file_path[i])) if i < len(t.file_path) else -9,
                         OI(int(t.offset[i])) if off and i < len(t.offset) else 0,
                         as_int(t.range_spec[i][0]) if rng and i < len(t.range_spec) else 0,
                         as_int(t.range_spec[i][1]) if rng and i < len(t.range_spec) else 0])
        if not ok:
            rows.append([-1, -1, -1, -1, -1])
        return {'rows': rows, 'off': bool(off), 'rng': bool(rng)}

    def build(tab):
        rows = tab['rows']
        k = [kn(r[0]) for r in rows]
        p = [pn(r[1]) for r in rows]
        off = [on(r[2]) for r in rows] if tab['off'] else None
        rng = np.array([r[3:5] for r in rows], dtype=np.int64).reshape(-1, 2) if tab['rng'] else None
        if not as_list:
            k, p = np.array(k), np.array(p)
            off = None if off is None else np.array(off, dtype=np.int64)
        elif rng is not None:
            rng = [list(map(int, r)) for r in rng]
        return SCPList(k, p, off, rng)

    def itab(tab):
        return {'rows': [[KI(kn(r[0])), PI(pn(r[1])), OI(on(r[2])) if tab['off'] else 0,
                          r[3] if tab['rng'] else 0, r[4] if tab['rng'] else 0] for r in tab['rows']],
                'off': tab['off'], 'rng': tab['rng']}

    pool, evs = [], []
    for o in ops:
        op = o['op']
        e = {'op': op, 'r': o.get('r', 1), 'exc': '', 'res': []}
        if op == 'new':
            e['r'] = max(1, len(pool))
            if not pool:
                e['r'] = 1
            t, e['exc'] = call(build, o['tab'])
            e['tab'] = itab(o['tab'])
            if t is not None:
                pool.append(t)
        else:
            if o['r'] < 0:
                if len(pool) < 2:
                    continue
                o = dict(o, r=len(pool), r2=len(pool) - 1)
                e['r'] = o['r']
            if o['r'] > len(pool):
                continue
            t = pool[o['r'] - 1]
            if op == 'copy':
                n, e['exc'] = call(t.copy)
                if n is not None:
                    pool.append(n)
            elif op == 'sort':
                _, e['exc'] = call(t.sort)
            elif op == 'shuffle':
                e['seed'] = o['seed']
                kw = {'seed': o['seed']} if not o.get('rng') else {'rng': np.random.RandomState(o['seed'])}
                n, e['exc'] = call(t.shuffle, **kw)
                if n is not None:
                    e['res'] = [as_int(x) for x in n]
            elif op == 'len':
                n, e['exc'] = call(lambda: (len(t), t.len()))
                e['res'] = as_int(n[0]) if n and n[0] == n[1] else -1
            elif op == 'at':
                if len(t.key) == 0:
                    continue
                e['i'] = o['i'] % len(t.key)
                n, e['exc'] = call(lambda: t[e['i']])
                if n is not None:
                    e['res'] = [KI(str(n[0])), PI(str(n[1])), 0 if n[2] is None else OI(int(n[2])),
                                0 if n[3] is None else as_int(n[3][0]), 0 if n[3] is None else as_int(n[3][1])]
            elif op == 'lookup':
                k = kn(o['key'])
                e['key'] = KI(k)
                e['has'], x = call(lambda: bool(k in t))
                e['has'] = bool(e['has'])
                n, e['exc'] = call(lambda: (t.get_index(k), t[k]))
                e['exc'] = e['exc'] or x
                if n is not None:
                    i, (p, off, rg) = n
                    e['res'] = [as_int(i), PI(str(p)), 0 if off is None else OI(int(off)),
                                0 if rg is None else as_int(rg[0]), 0 if rg is None else as_int(rg[1])]
            elif op in ('filter', 'filter_paths'):
                nm, I = (kn, KI) if op == 'filter' else (pn, PI)
                ks = [nm(k) for k in o['keys']]
                e['keys'], e['keep'] = [I(k) for k in ks], o['keep']
                arg = ks if as_list else np.array(ks, dtype=object if not ks else None)
                n, e['exc'] = call(getattr(t, op), arg, **({} if o['keep'] and len(ks) % 2 else {'keep': o['keep']}))
                if n is not None:
                    pool.append(n)
            elif op == 'filter_index':
                idx = [i for i in o['idx'] if i < len(t.key)]
                e['idx'], e['keep'] = idx, o['keep']
                n, e['exc'] = call(t.filter_index, np.array(idx, dtype=np.int64), **({} if o['keep'] and len(idx) % 2 else {'keep': o['keep']}))
                if n is not None:
                    pool.append(n)
            elif op == 'split':
                e['n'], e['group'] = o['n'], o['group']
                parts, e['exc'] = call(lambda: [t.split(i + 1, o['n'], group_by_key=o['group']) for i in range(o['n'])])
                if parts is not None:
                    pool.extend(parts)
            elif op == 'merge':
                e['regs'] = [r for r in o['regs'] if r <= len(pool)]
                ts = [pool[r - 1] for r in e['regs']]
                nz = [x for x in ts if len(x.key) > 0]
                if not ts or len({x.offset is None for x in ts}) > 1:
                    continue
                if not nz and len({x.range_spec is None for x in ts}) > 1:
                    continue
                n, e['exc'] = call(SCPList.merge, ts)
                if n is not None:
                    pool.append(n)
            elif op == 'saveload':
                f = os.path.join(wd, 'l%d.scp' % len(evs))
                sep, osep = o.get('sep', ' '), o.get('osep', ':')
                def sl():
                    t.save(f, sep=sep, offset_sep=osep)
                    return SCPList.load(f, sep=sep, offset_sep=osep)
                n, e['exc'] = call(sl)
                if n is not None:
                    pool.append(n)
            elif op == 'eq':
                if o['r2'] > len(pool):
                    continue
                e['r2'] = o['r2']
                u = pool[o['r2'] - 1]
                n, e['exc'] = call(lambda: [bool(t == u), bool(t != u)])
                e['res'] = n if n is not None else []
            elif op == 'prefix':
                pre = o['prefix']
                e['map'] = [[PI(str(p)), PI(pre + str(p))] for p in sorted(set(map(str, t.file_path)))]
                _, e['exc'] = call(t.add_prefix_to_filepath, pre)
            else:
                continue
        e['pool'] = [proj(x) for x in pool]
        evs.append(e)
        if e['exc'] == 'HANG':
            break
        if len(pool) > 14:
            break
    return {'init': 0, 'ev': evs}


def gen_table(rnd, nmax, nkeys, off=None, rng=None):
    n = rnd.choice([1, 1, 2, 3, 5, nmax, rnd.randint(1, nmax)])
    uniq = rnd.random() < 0.5
    ks = rnd.sample(range(1, max(n, nkeys) + 1), n) if uniq else [rnd.randint(1, nkeys) for _ in range(n)]
    if rnd.random() < 0.3:
        ks.sort()
    off = rnd.random() < 0.6 if off is None else off
    rng = rnd.random() < 0.6 if rng is None else rng
    rows = []
    for k in ks:
        a, c = rnd.choice([(0, 0), (rnd.randint(0, 2000), 0), (0, rnd.randint(1, 3000)),
                           (rnd.randint(1, 3000), rnd.randint(1, 3000))])
        rows.append([k, rnd.randint(1, 6), rnd.randint(1, 50), a, c])
    return {'rows': rows, 'off': off, 'rng': rng}


def gen_script(rnd, nops, nmax):
    nkeys = rnd.choice([2, 3, 6, 12])
    off, rng = rnd.random() < 0.6, rnd.random() < 0.6
    ops = [{'op': 'new', 'r': 1, 'tab': gen_table(rnd, nmax, nkeys, off, rng)}]
    npool = 1
    allkeys = [r[0] for r in ops[0]['tab']['rows']]
    seps = rnd.choice([(' ', ':'), (' ', ':'), ('\t', ':'), (',', ';'), (' ', '#')])
    for _ in range(nops):
        r = rnd.randint(1, npool) if rnd.random() < 0.6 else npool
        o = rnd.choice(['new', 'copy', 'sort', 'shuffle', 'len', 'at', 'lookup', 'lookup', 'lookup', 'filter',
                        'filter', 'filter_paths', 'filter_index', 'split', 'merge', 'saveload', 'eq', 'prefix'])
        if o == 'new':
            # same flags, disjoint or overlapping keys
            ops.append({'op': 'new', 'r': r, 'tab': gen_table(rnd, nmax, nkeys, off if rnd.random() < .9 else None,
                                                              rng if rnd.random() < .7 else None)})
            allkeys += [x[0] for x in ops[-1]['tab']['rows']]
            npool += 1
        elif o in ('copy', 'saveload'):
            ops.append({'op': o, 'r': r, 'sep': seps[0], 'osep': seps[1]})
            npool += 1
        elif o in ('sort', 'len'):
            ops.append({'op': o, 'r': r})
        elif o == 'shuffle':
            ops.append({'op': o, 'r': r, 'seed': rnd.choice([1, 1024, 7]), 'rng': rnd.random() < 0.3})
        elif o == 'at':
            ops.append({'op': o, 'r': r, 'i': rnd.randint(0, 50)})
        elif o == 'lookup':
            for _ in range(rnd.choice([1, 1, 3])):
                ops.append({'op': o, 'r': r, 'key': rnd.choice(allkeys) if rnd.random() < 0.9 else 99})
        elif o == 'filter':
            ks = rnd.sample(sorted(set(allkeys)), rnd.randint(0, len(set(allkeys))))
            if rnd.random() < 0.1:
                ks.append(98)
            if rnd.random() < 0.2 and ks:
                ks.append(ks[0])
            ops.append({'op': o, 'r': r, 'keys': ks, 'keep': rnd.random() < 0.5})
            npool += 1
        elif o == 'filter_paths':
            ops.append({'op': o, 'r': r, 'keys': rnd.sample(range(1, 7), rnd.randint(0, 4)), 'keep': rnd.random() < 0.4})
            npool += 1
        elif o == 'filter_index':
            ops.append({'op': o, 'r': r, 'idx': [rnd.randint(0, nmax - 1) for _ in range(rnd.randint(0, 6))],
                        'keep': rnd.random() < 0.5})
            npool += 1
        elif o == 'split':
            n = rnd.choice([1, 2, 3, 4, 5, 7])
            ops.append({'op': o, 'r': r, 'n': n, 'group': rnd.random() < 0.5})
            npool += n
            if rnd.random() < 0.6:
                ops.append({'op': 'merge', 'r': 1, 'regs': list(range(npool - n + 1, npool + 1))})
                npool += 1
        elif o == 'merge':
            ops.append({'op': o, 'r': r, 'regs': [rnd.randint(1, npool) for _ in range(rnd.randint(1, 3))]})
            npool += 1
        elif o == 'eq':
            if rnd.random() < 0.5:      # tables that differ at most in one place
                tab = rnd.choice([q['tab'] for q in ops if q['op'] == 'new'])
                tab2 = json.loads(json.dumps(tab))
                row = rnd.choice(tab2['rows'])
                if rnd.random() < 0.8:
                    row[rnd.randrange(len(row))] += rnd.choice([1, 2])
                ops += [{'op': 'new', 'r': r, 'tab': tab}, {'op': 'new', 'r': r, 'tab': tab2}]
                npool += 2
                ops.append({'op': o, 'r': -1, 'r2': -2})
            else:
                ops.append({'op': o, 'r': r, 'r2': rnd.randint(1, npool)})
        elif o == 'prefix':
            ops.append({'op': o, 'r': r, 'prefix': rnd.choice(['/root/', 'x', '../'])})
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(4)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc'] == '' and e['pool'] and len(e['pool'][-1]['rows']) >= 2:
            e['pool'][-1]['rows'][0][1] += 1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    hists = ck.model('MC_ScpList', timeout=800, want=1000)
    scripts = [{'ops': h, 'style': [rnd.randint(0, 99) for _ in range(4)]} for h in hists]
    rnd.shuffle(scripts)
    scripts = scripts[:ck.pick(6000, 60000)]
    for i in range(ck.pick(2500, 20000)):
        scripts.append(gen_script(rnd, rnd.choice([3, 6, 10]), rnd.choice([3, 8, 8, 30])))
    behs = ck.execute('checks.p04', scripts)
    ck.judge('Trace_ScpList', behs, scripts, 'checks.p04', label='SCPList', batch=9000)
    ck.negative_control('Trace_ScpList', behs[-200:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P04', run)
