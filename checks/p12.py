"""P12: diarization marks (RTTM) keep who speaks when."""
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.p04 import KEYSTYLES as KS

U = 64.0
TYPES = {1: 'SPEAKER', 2: 'NON-SPEECH', 3: 'LEXEME'}


def execute(script, wd):
    import pandas as pd
    from hyperion.utils.rttm import RTTM
    from hyperion.utils.segment_list import SegmentList
    from hyperion.utils.ext_segment_list import ExtSegmentList
    sty = script['style']
    fn = KS[sty[0] % len(KS)]
    nn0 = KS[sty[1] % len(KS)]
    nn = (lambda k: 'p' + nn0(k)) if sty[1] % 2 else nn0
    FI = Interner([fn(k) for k in range(1, 40)])
    TI = lambda t: {v: k for k, v in TYPES.items()}.get(t, -1)
    na = lambda v: v is None or (isinstance(v, float) and v != v) or v == '<NA>'
    names = {nn(k): [k] for k in range(1, 40)}      # string -> what it stands for
    N = lambda s: [] if na(s) else list(names.get(s, [-1]))
    u = lambda v: as_int(round(float(v) * U, 6))

    def prow(r):
        return {'ty': TI(r['segment_type']), 'f': FI(r['file_id']), 'ch': as_int(r['chnl']), 'tb': u(r['tbeg']), 'td': u(r['tdur']), 'n': N(r['name']),
                'cf': -1 if na(r['conf']) else as_int(round(float(r['conf']) * 1000, 6))}

    def prows(x):
        return [prow(r) for r in x.segments.to_dict('records')]

    def proj(x):
        return {'by': 2 if x.index_by_file else 1, 'rows': prows(x)}

    def build(o, var):
        rows = o['rows']
        F, B, D = [fn(r['f']) for r in rows], [r['tb'] / U for r in rows], [r['td'] / U for r in rows]
        S = [nn(r['n'][0]) if r['n'] else '<NA>' for r in rows]
        T = [TYPES[r['ty']] for r in rows]
        conf = [r['cf'] / 1000. for r in rows] if all(r['cf'] >= 0 for r in rows) else None
        C = [r['ch'] for r in rows]
        byf = o['by'] == 2
        want = {'by': o['by'], 'rows': [dict(r, f=FI(fn(r['f'])), cf=r['cf'] if conf else -1) for r in rows]}
        if var % 2:
            F, B, D = np.array(F), np.array(B), np.array(D)
        allspk = all(r['ty'] == 1 and r['n'] for r in rows)
        one = all(r['ch'] == 1 for r in rows)
        if allspk and var % 6 == 1:
            pre = sty[2] % 2 == 1
            if pre:
                for r, f, s in zip(want['rows'], F, S):
                    r['n'] = [r['f']] + r['n']
                    names[f + '_' + s] = list(r['n'])
            return (lambda: RTTM.create_spkdiar(F, B, D, S, conf=conf, chnl=C, index_by_file=byf, prepend_file_id=pre)), want
        if allspk and one and var % 6 == 3:
            sl = SegmentList.create(['s%d' % i for i in range(len(rows))], F, np.array(B), np.array(B) + np.array(D))
            return (lambda: RTTM.create_spkdiar_from_segments(sl, S, conf=conf, index_by_file=byf)), want
        if allspk and one and var % 6 == 5:
            ids = ['s%d' % i for i in range(len(rows))]

            def f():
                el = ExtSegmentList.create(ids, F, np.array(B), np.array(B) + np.array(D), name=dict(zip(ids, S)),
                                           score=dict(zip(ids, conf)) if conf else np.nan)
                return RTTM.create_spkdiar_from_ext_segments(el, index_by_file=byf)
            return f, want
        if var % 6 == 4:
            df = pd.DataFrame({'segment_type': T, 'file_id': F, 'chnl': C, 'tbeg': B, 'tdur': D, 'ortho': '<NA>', 'stype': '<NA>', 'name': S,
                               'conf': conf if conf else '<NA>', 'slat': '<NA>'})
            return (lambda: RTTM(df, byf)), want
        return (lambda: RTTM.create(T, F, chnl=None if one and var % 4 == 0 else C, tbeg=B, tdur=D, name=S, conf=conf, index_by_file=byf)), want

    pool, evs = [], []
    for o in script['ops']:
        op = o['op']
        e = {'op': op, 'r': o.get('r', 1), 'exc': '', 'res': []}
        y = None
        if op == 'new':
            f, e['list'] = build(o['list'], sty[3] + len(evs))
            y, e['exc'] = call(f)
        else:
            if o['r'] > len(pool):
                continue
            x = pool[o['r'] - 1]
            n = len(x)
            by = 2 if x.index_by_file else 1
            if n == 0 and op not in ('len', 'copy', 'merge', 'setby'):
                continue
            rows = prows(x)
            # the marks of every file come in time order (a file may come in several stretches)
            timely = all(a['tb'] <= b['tb'] for i, a in enumerate(rows) for b in rows[i + 1:] if a['f'] == b['f'])
            if not timely and (op in ('elim', 'split', 'iter') or (op == 'filter' and not o['keep'])):
                continue
            kname = (lambda k: fn(k)) if by == 2 else (lambda k: k - 1)
            kint = (lambda k: FI(fn(k))) if by == 2 else (lambda k: k - 1)
            if op == 'copy':
                y, e['exc'] = call(x.copy)
            elif op == 'rebuild':
                e['by'] = o['by']
                y, e['exc'] = call(RTTM, x.segments, e['by'] == 2)
            elif op == 'setby':
                e['by'] = o['by']
                _, e['exc'] = call(setattr, x, 'index_by_file', o['by'] == 2)
            elif op == 'filter':
                ks = [kname(k) for k in o['keys']]
                e['keys'], e['keep'] = [kint(k) for k in o['keys']], o['keep']
                y, e['exc'] = call(x.filter, ks if sty[4] % 2 else np.array(ks, dtype=None if ks else object), *(() if o['keep'] and len(ks) % 2 else (o['keep'],)))
            elif op == 'split':
                e['n'] = o['n']
                z, e['exc'] = call(lambda: [x.split(i + 1, o['n']) for i in range(o['n'])])
                pool.extend(z or [])
            elif op == 'merge':
                e['regs'] = [r for r in o['regs'] if r <= len(pool)]
                if not e['regs'] or not sum(len(pool[r - 1]) for r in e['regs']):
                    continue
                e['by'] = o['by']
                y, e['exc'] = call(RTTM.merge, [pool[r - 1] for r in e['regs']], o['by'] == 2)
            elif op == 'saveload':
                if any((r['tb'] % 8 or r['td'] % 8) for r in rows):
                    continue           # not a whole number of milliseconds
                e['by'] = o['by']
                f = os.path.join(wd, 'm%d.rttm' % len(evs))
                sep = o.get('sep', ' ')

                def sl():
                    x.save(f, sep=sep)
                    with open(f) as g:
                        for l in g:
                            assert len(l.rstrip('\n').split(sep)) == 10 and '' not in l.rstrip('\n').split(sep)
                    return RTTM.load(f, sep=sep, index_by_file=o['by'] == 2)
                y, e['exc'] = call(sl)
            elif op == 'adjacent':
                if any(not r['n'] for r in rows):
                    continue
                e['m'] = o['m']
                _, e['exc'] = call(lambda: x.merge_adjacent_segments(o['m'] / U) if o['m'] or sty[5] % 2 else x.merge_adjacent_segments())
            elif op == 'elim':
                if any((r['tb'] % 16 or r['td'] % 16 or not r['td']) for r in rows):
                    continue
                _, e['exc'] = call(x.eliminate_overlaps)
            elif op == 'prepend':
                e['ty'] = o.get('ty', 1)
                sel = [r for r in x.segments.to_dict('records') if r['segment_type'] == TYPES[e['ty']]]
                if not sel or any(na(r['name']) for r in sel):
                    continue
                for r in sel:
                    names[r['file_id'] + '_' + r['name']] = [FI(r['file_id'])] + N(r['name'])
                _, e['exc'] = call(lambda: x.prepend_file_id_to_name(TYPES[e['ty']]) if e['ty'] != 1 or sty[5] % 2 else x.prepend_file_id_to_name())
            elif op == 'len':
                z, e['exc'] = call(lambda: [len(x), as_int(x.num_files)])
                e['res'] = z or []
            elif op == 'counts':
                if any(not r['n'] for r in rows):
                    continue

                def q():
                    d = x.num_spks_per_file
                    return [as_int(x.total_num_spks), [[FI(k), as_int(v)] for k, v in d.items()],
                            as_int(round(float(x.avg_num_spks_per_file) * len(set(x.file_id)), 6))]
                z, e['exc'] = call(q)
                e['res'] = z or [0, [], 0]
            elif op == 'stats':
                if any(not r['n'] for r in rows):
                    continue

                def q():
                    d, h, k = x.compute_stats(*([] if sty[5] % 2 else [7]))
                    return [u(d['min']), u(d['max']), as_int(round(float(d['mean']) * U * n, 3)), as_int(int(np.sum(h[0]))), as_int(k)]
                z, e['exc'] = call(q)
                e['res'] = z or []
            elif op == 'names':
                if any(not r['n'] for r in rows):
                    continue
                sp = o.get('spans') or [[1, 0, 64], [1, 16, 32], [2, 0, 16], [1, 200, 300], [2, 16, 100], [3, 0, 100]]
                e['ty'] = o.get('ty', 1)
                e['spans'] = [[FI(fn(a)), b, c] for a, b, c in sp]
                args = (['q%d' % i for i in range(len(sp))], [fn(a) for a, b, c in sp], np.array([b / U for a, b, c in sp]), np.array([c / U for a, b, c in sp]))
                sep = '@' if sty[6] % 2 else '%%'

                def q():
                    sl = SegmentList.create(*args)
                    f = x.get_segment_names_slow if sty[6] % 5 == 0 else x.get_segment_names
                    a, c = f(sl, sep=sep, segment_type=TYPES[e['ty']]) if sep != '@' or e['ty'] != 1 else f(sl)
                    return [[[] if na(str(z)) else [N(w) for w in str(z).split(sep)], as_int(k)] for z, k in zip(a, c)]
                z, e['exc'] = call(q)
                e['res'] = z or []
            elif op == 'diff':
                e['ty'], e['key'] = o.get('ty', 1), FI(fn(o['key']))
                if any(not r['n'] for r in rows):
                    continue
                z, e['exc'] = call(lambda: [FI(f) for f in x.get_files_with_names_diff_to_file(fn(o['key']), TYPES[e['ty']])])
                e['res'] = z or []
            elif op == 'matrix':
                k = fn(o['key'])
                sel = [r for r in x.segments.to_dict('records') if r['file_id'] == k]
                if not sel or any(na(r['name']) for r in sel) or any((r['tb'] % 8 or r['td'] % 8) for r in rows):
                    continue
                fs, e['num'], e['den'] = [(0.125, 1, 8), (0.001, 125, 8), (0.0625, 1, 4)][sty[7] % 3]
                if e['num'] == 125 and max(r['tb'] + r['td'] for r in rows) > 130:
                    fs, e['num'], e['den'] = 0.125, 1, 8
                e['key'] = FI(k)
                e['cols'] = [N(s) for s in sorted({r['name'] for r in sel})]
                z, e['exc'] = call(lambda: [[as_int(v) for v in r] for r in x.to_matrix(k, *([] if e['num'] == 125 else [fs]))])
                e['res'] = z or []
            elif op == 'tosegs':
                def q():
                    sl = x.to_segment_list()
                    t = {s: i for i, s in enumerate(sorted(set(sl.segment_id)))}
                    return [[FI(f), u(a), u(b), t[s]] for f, a, b, s in zip(sl.file_id, sl.tbeg, sl.tend, sl.segment_id)]
                z, e['exc'] = call(q)
                e['res'] = z or []
            elif op == 'get':
                e['key'] = kint(o['key'])
                if by == 2:
                    y, e['exc'] = call(lambda: x[kname(o['key'])])
                else:
                    z, e['exc'] = call(lambda: [prow(x[kname(o['key'])])])
                    e['res'] = z or []
            elif op == 'in':
                e['key'] = kint(o['key'])
                z, e['exc'] = call(lambda: [bool(kname(o['key']) in x)])
                e['res'] = z or []
            elif op == 'iter':
                z, e['exc'] = call(lambda: [prows(w) if by == 2 else [prow(w)] for w in x])
                e['res'] = z or []
            elif op == 'eq':
                if o['r2'] > len(pool) or len(pool[o['r2'] - 1]) == 0:
                    continue
                w = pool[o['r2'] - 1]
                # missing fields are spelled differently after loading
                if any(na(v) for q in (x, w) for c in ('name', 'conf', 'ortho') for v in q.segments[c]):
                    if not o['r2'] == o['r']:
                        continue
                e['r2'] = o['r2']
                z, e['exc'] = call(lambda: [bool(x == w), bool(x != w)])
                e['res'] = z or []
            else:
                continue
        if y is not None:
            pool.append(y)
        p, q = call(lambda: [proj(z) for z in pool])
        e['pool'] = p if p is not None else []
        e['exc'] = e['exc'] or (q and 'reading a list ' + q)
        evs.append(e)
        if e['exc'] == 'HANG' or q or len(pool) > 12:
            break
    return {'init': 0, 'ev': evs}


def gen_list(rnd, nmax):
    n = rnd.choice([1, 1, 2, 3, nmax, rnd.randint(1, nmax)])
    nf, ns = rnd.choice([1, 1, 2, 4]), rnd.choice([1, 2, 2, 3, 6])
    T = rnd.choice([4, 8, 40])
    cf = rnd.random() < 0.5
    na = rnd.random() < 0.1
    mt = rnd.random() < 0.25
    rows = []
    for _ in range(n):
        rows.append({'ty': rnd.choice([1, 1, 2]) if mt else 1, 'f': rnd.randint(1, nf), 'ch': rnd.choice([1, 1, 1, 2]) if mt else 1, 'tb': 16 * rnd.randint(0, T),
                     'td': 16 * rnd.choice([1, 1, 2, 3, rnd.randint(1, T)]), 'n': [rnd.randint(1, ns)], 'cf': rnd.choice([0, 250, 1000]) if cf else -1})
        if na and rnd.random() < 0.5:
            rows[-1]['n'] = []
    z = rnd.random()
    if z < 0.8:
        rows.sort(key=lambda r: (r['f'], r['tb']))
    elif z < 0.95:
        rows.sort(key=lambda r: r['tb'])
    return {'by': rnd.choice([1, 2]), 'rows': rows}


def gen_script(rnd, nops, nmax):
    ops = [{'op': 'new', 'r': 1, 'list': gen_list(rnd, nmax)}]
    npool = 1
    sep = rnd.choice([' ', ' ', '\t'])
    key = lambda: rnd.choice([1, 1, 2, 3, rnd.randint(1, 9)])
    for _ in range(nops):
        r = rnd.randint(1, npool) if rnd.random() < 0.6 else npool
        o = rnd.choice(['new', 'copy', 'rebuild', 'len', 'setby', 'filter', 'filter', 'split', 'merge', 'saveload', 'saveload', 'adjacent', 'adjacent', 'adjacent',
                        'elim', 'elim', 'prepend', 'counts', 'counts', 'stats', 'names', 'names', 'diff', 'matrix', 'matrix', 'tosegs', 'get', 'get', 'in', 'iter', 'eq'])
        d = {'op': o, 'r': r}
        if o == 'new':
            d['list'] = gen_list(rnd, nmax)
        elif o in ('setby', 'rebuild', 'saveload'):
            d.update(by=rnd.choice([1, 2]), sep=sep)
        elif o == 'filter':
            ks = [key() for _ in range(rnd.randint(0, 4))]
            d.update(keys=[k for i, k in enumerate(ks) if k not in ks[:i]], keep=rnd.random() < 0.5)
        elif o == 'split':
            d['n'] = rnd.choice([1, 2, 2, 3, 4])
        elif o == 'merge':
            d.update(regs=[rnd.randint(1, npool) for _ in range(rnd.randint(1, 3))], by=rnd.choice([1, 2]))
        elif o == 'adjacent':
            d['m'] = rnd.choice([0, 0, 16, 32, 8])
        elif o == 'prepend':
            d['ty'] = rnd.choice([1, 1, 1, 2])
        elif o in ('get', 'in', 'matrix', 'diff'):
            d.update(key=key(), ty=rnd.choice([1, 1, 2]))
        elif o == 'names':
            sp = []
            for _ in range(rnd.randint(1, 5)):
                a = 8 * rnd.randint(0, 40)
                sp.append([key(), a, a + 8 * rnd.choice([0, 1, 2, 4, 20, 80])])
            if rnd.random() < 0.6:
                sp.sort()
            d.update(spans=sp, ty=rnd.choice([1, 1, 1, 2]))
        elif o == 'eq':
            d['r2'] = rnd.randint(1, npool)
        ops.append(d)
        if o in ('new', 'copy', 'rebuild', 'filter', 'saveload', 'merge'):
            npool += 1
        if o == 'split':
            npool += d['n']
            if rnd.random() < 0.6:
                ops.append({'op': 'merge', 'r': npool - d['n'] + 1, 'regs': list(range(npool - d['n'] + 1, npool + 1)), 'by': rnd.choice([1, 2])})
                npool += 1
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(8)]}


def enrich(rnd, h):
    ops = [dict(o) for o in h]
    r = rnd.randint(1, 2)
    ops += [{'op': 'names', 'r': r}, {'op': 'matrix', 'r': r, 'key': 1}, {'op': 'counts', 'r': r}, {'op': 'tosegs', 'r': r}, {'op': 'stats', 'r': r},
            {'op': 'diff', 'r': r, 'key': 1}, {'op': 'prepend', 'r': r}, {'op': 'saveload', 'r': r, 'by': rnd.choice([1, 2])}]
    rnd.shuffle(ops[-8:])
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(8)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc'] == '' and e['pool'] and len(e['pool'][-1]['rows']) >= 1:
            e['pool'][-1]['rows'][0]['td'] += 16
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    hists = []
    for c in ck.pick(['MC_Rttm.cfg', 'MC_Rttm2.cfg', 'MC_Rttm3.cfg'], ['MC_Rttm.cfg', 'MC_Rttm2.cfg', 'MC_Rttm3.cfg', 'MC_Rttm_deep.cfg']):
        h = ck.model('MC_Rttm', cfg=c, timeout=1500, want=500)
        rnd.shuffle(h)
        hists += h[:ck.pick(900, 10000)]
    scripts = [enrich(rnd, h) for h in hists]
    for i in range(ck.pick(2000, 20000)):
        scripts.append(gen_script(rnd, rnd.choice([3, 6, 10]), rnd.choice([3, 6, 15])))
    behs = ck.execute('checks.p12', scripts)
    ck.judge('Trace_Rttm', behs, scripts, 'checks.p12', label='rttm', batch=8000)
    ck.negative_control('Trace_Rttm', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P12', run)
