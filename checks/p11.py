"""P11: segment lists (SegmentList, ExtSegmentList) describe the same time spans after every operation."""
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.p04 import KEYSTYLES

KS = [KEYSTYLES[i] for i in range(len(KEYSTYLES))]


def execute(script, wd):
    import pandas as pd
    from hyperion.utils.segment_list import SegmentList
    from hyperion.utils.ext_segment_list import ExtSegmentList
    sty = script['style']
    pick = lambda i: KS[sty[i] % len(KS)]
    sn, fn, en = pick(0), pick(1), (lambda k: 'e' + pick(2)(k))
    rn, nn = (lambda k: 'r' + pick(3)(k)), (lambda k: 'n' + pick(4)(k))
    sid = (lambda k: 's' + sn(k)) if sty[5] % 2 else sn
    SI = EI = Interner([en(k) for k in range(1, 90)] + [sid(k) for k in range(1, 90)])
    FI = RI = Interner([rn(k) for k in range(1, 90)] + [fn(k) for k in range(1, 90)])
    NI = Interner([nn(k) for k in range(1, 90)])
    BYN = {1: 'segment_id', 2: 'file_id', 5: 'ext_segment_id', 6: 'series_id'}
    NBY = {v: k for k, v in BYN.items()}
    kname = {1: sid, 2: fn, 5: en, 6: rn}
    kint = {1: SI, 2: FI, 5: EI, 6: RI}
    na = lambda v: v is None or (isinstance(v, float) and v != v)
    ms = lambda v: as_int(round(float(v) * 1000, 6))
    sc = lambda v: -1 if na(v) else as_int(round(float(v) * 1000, 6))
    nm = lambda v: 0 if na(v) else NI(v)

    def rows5(x):
        if isinstance(x, SegmentList):
            return [[SI(a), FI(b), ms(c), ms(d), 0] for a, b, c, d in zip(x.segment_id, x.file_id, x.tbeg, x.tend)]
        return [[SI(a), FI(b), ms(c), ms(d), EI(e)] for a, b, c, d, e in
                zip(x.segment_id, x.file_id, x.tbeg, x.tend, x.ext_segment_id)]

    def proj(x):
        r = rows5(x)
        if isinstance(x, SegmentList):
            return {'t': 'seg', 'by': 2 if x.index_by_file else 1, 'rows': r, 'ext': [], 'files': []}
        return {'t': 'ext', 'by': NBY.get(x.index_column, -1), 'rows': r,
                'ext': [[EI(a), nm(b), sc(c)] for a, b, c in zip(x.ext_segments['ext_segment_id'], x.ext_segments['name'], x.ext_segments['score'])],
                'files': [[FI(a), RI(b)] for a, b in zip(x.files['file_id'], x.files['series_id'])]}

    def ilist(o):
        x = o
        return {'t': x['t'], 'by': x['by'], 'rows': [[SI(sid(r[0])), FI(fn(r[1])), r[2], r[3], EI(en(r[4])) if x['t'] == 'ext' else 0] for r in x['rows']],
                'ext': [[EI(en(a)), NI(nn(b)) if b else 0, c] for a, b, c in x['ext']],
                'files': [[FI(fn(a)), RI(rn(b))] for a, b in x['files']]}

    def build(x, var):
        """returns (list, what the list should be)"""
        want = ilist(x)
        S, F = [sid(r[0]) for r in x['rows']], [fn(r[1]) for r in x['rows']]
        B, E = [r[2] / 1000. for r in x['rows']], [r[3] / 1000. for r in x['rows']]
        if x['t'] == 'seg':
            if var % 3 == 0:
                return (lambda: SegmentList.create(np.array(S), np.array(F), np.array(B), np.array(E), index_by_file=x['by'] == 2)), want
            if var % 3 == 1:
                return (lambda: SegmentList.create(S, F, B, E, x['by'] == 2)), want
            df = pd.DataFrame({'segment_id': S, 'file_id': F, 'tbeg': B, 'tend': E})
            return (lambda: SegmentList(df, x['by'] == 2)), want
        X = [en(r[4]) for r in x['rows']]
        series = {}
        for f, s in x['files']:
            series.setdefault(rn(s), []).append(fn(f))
        names = {en(a): (nn(b) if b else np.nan) for a, b, c in x['ext']}
        scores = {en(a): (c / 1000. if c >= 0 else np.nan) for a, b, c in x['ext']}
        if var % 3 == 0:
            return (lambda: ExtSegmentList.create(S, F, B, E, X, series_id=series, name=names, score=scores, index_column=BYN[x['by']])), want
        if var % 3 == 1:
            df = pd.DataFrame({'segment_id': S, 'file_id': F, 'tbeg': B, 'tend': E, 'ext_segment_id': X})
            ed = pd.DataFrame({'ext_segment_id': list(names), 'name': list(names.values()), 'score': list(scores.values())})
            fd = pd.DataFrame({'file_id': [fn(f) for f, s in x['files']], 'series_id': [rn(s) for f, s in x['files']]})
            return (lambda: ExtSegmentList(df, ed, fd, BYN[x['by']])), want
        # as little as possible: no series, no names
        want['files'] = [[FI(fn(f)), RI(fn(f))] for f, s in x['files']]
        one = nn(7) if var % 2 else np.nan
        want['ext'] = [[e[0], NI(one) if var % 2 else 0, -1] for e in want['ext']]
        if var % 6 == 5:
            return (lambda: ExtSegmentList.create(S, F, B, E, X, name=one, index_column=BYN[x['by']])), want
        df = pd.DataFrame({'segment_id': S, 'file_id': F, 'tbeg': B, 'tend': E, 'ext_segment_id': X})
        want['ext'] = [[e[0], 0, -1] for e in want['ext']]
        return (lambda: ExtSegmentList(df, index_column=BYN[x['by']])), want

    pool, evs = [], []
    for o in script['ops']:
        op = o['op']
        e = {'op': op, 'r': o.get('r', 1), 'exc': '', 'res': []}
        if op == 'new':
            f, e['list'] = build(o['list'], sty[6] + len(evs))
            x, e['exc'] = call(f)
            if x is not None:
                pool.append(x)
        else:
            if o['r'] > len(pool):
                continue
            x = pool[o['r'] - 1]
            n = len(x)
            isseg = isinstance(x, SegmentList)
            by = (2 if x.index_by_file else 1) if isseg else NBY[x.index_column]
            if n == 0 and op not in ('len', 'copy', 'merge', 'setby', 'rebuild'):
                continue
            dup = len(set(x.segment_id)) < n
            ki = lambda k: k if not isinstance(k, int) else kint[by](kname[by](k))
            y = None
            if op == 'copy':
                y, e['exc'] = call(x.copy)
            elif op == 'len':
                y, e['exc'] = call(lambda: [len(x), len(x.uniq_file_id) if isseg else x.num_ext_segments])
                e['res'], y = y or [], None
            elif op == 'setby':
                nb = o['by'] if not isseg else (2 if o['by'] % 2 == 0 else 1)
                e['by'] = nb
                if isseg:
                    _, e['exc'] = call(setattr, x, 'index_by_file', nb == 2)
                else:
                    _, e['exc'] = call(setattr, x, 'index_column', BYN[nb])
            elif op == 'rebuild':
                if not isseg:
                    continue
                e['by'] = 2 if o['by'] % 2 == 0 else 1
                y, e['exc'] = call(SegmentList, x.segments, e['by'] == 2)
            elif op == 'fromseg':
                if not isseg or dup or len({(f, ) for f in x.file_id}) == 0:
                    continue
                rows = rows5(x)
                if any(rows[i][1] == rows[j][1] and rows[i][2] > rows[j][2] for j in range(n) for i in range(j)) \
                        and not any(rows[i][1] == rows[i + 1][1] and rows[i][2] > rows[i + 1][2] for i in range(n - 1)):
                    continue
                e['by'] = 2 if o['by'] == 6 else o['by']
                e['names'] = []
                kw = {}
                if o.get('names'):
                    e['names'] = [NI(nn(1 + (i // 2) % 2)) for i in range(n)]
                    kw['name'] = {s: nn(1 + (i // 2) % 2) for i, s in enumerate(x.segment_id)}
                y, e['exc'] = call(lambda: ExtSegmentList.create_from_segment_list(x, index_column=BYN[e['by']], **kw))
            elif op == 'filter':
                ks = [kname[by](k) for k in o['keys']]
                e['keys'], e['keep'] = [kint[by](k) for k in ks], o['keep']
                y, e['exc'] = call(x.filter, ks if sty[7] % 2 else np.array(ks, dtype=None if ks else object), *(() if o['keep'] and len(ks) % 2 else (o['keep'],)))
            elif op == 'split':
                if dup and by == 1:
                    continue
                e['n'] = o['n']
                y, e['exc'] = call(lambda: [x.split(i + 1, o['n']) for i in range(o['n'])])
                pool.extend(y or [])
                y = None
            elif op == 'merge':
                e['regs'] = [r for r in o['regs'] if r <= len(pool) and isinstance(pool[r - 1], SegmentList) == isseg]
                e['regs'] = ([o['r']] if o['r'] not in e['regs'] else []) + e['regs']
                e['r'] = e['regs'][0]
                xs = [pool[r - 1] for r in e['regs']]
                e['by'] = o['by'] if not isseg else (2 if o['by'] % 2 == 0 else 1)
                if isseg:
                    y, e['exc'] = call(SegmentList.merge, xs, e['by'] == 2)
                else:
                    # names and series of one id agree; files in one stretch or in order
                    ps = [proj(z) for z in xs]
                    if any(len({q[0] for p in ps for q in p[w]}) < len({tuple(q) for p in ps for q in p[w]}) for w in ('ext', 'files')):
                        continue
                    rows = []
                    for p in ps:
                        rows += [r for r in p['rows'] if r not in rows]
                    if any(rows[i][1] == rows[j][1] and rows[i][2] > rows[j][2] for j in range(len(rows)) for i in range(j)) \
                            and not any(rows[i][1] == rows[i + 1][1] and rows[i][2] > rows[i + 1][2] for i in range(len(rows) - 1)):
                        continue
                    if len({r[0] for r in rows}) < len(rows):
                        continue
                    y, e['exc'] = call(ExtSegmentList.merge, xs, BYN[e['by']])
            elif op == 'saveload':
                f = os.path.join(wd, 'l%d' % len(evs))
                sep = o.get('sep', ' ')
                e['by'] = o['by'] if not isseg else (2 if o['by'] % 2 == 0 else 1)

                def sl():
                    x.save(f, sep=sep)
                    if isseg:
                        return SegmentList.load(f, sep=sep, index_by_file=e['by'] == 2)
                    return ExtSegmentList.load(f, sep=sep, index_column=BYN[e['by']])
                y, e['exc'] = call(sl)
            elif op == 'adjacent':
                if isseg or dup:
                    continue
                e['max'] = o['max']
                _, e['exc'] = call(x.merge_adjacent_segments, o['max'])
            elif op == 'assign':
                if isseg:
                    continue
                u = list(x.ext_segments['ext_segment_id'])
                ids = [u[i % len(u)] for i in o['idx']]
                ids = [i for k, i in enumerate(ids) if i not in ids[:k]]
                names = [nn(k) for k in o['names']][:len(ids)]
                scores = [k / 1000. for k in o['scores']][:len(ids)]
                if len(names) < len(ids) or not ids:
                    continue
                e['keys'], e['names'], e['scores'] = [EI(i) for i in ids], [NI(i) for i in names], [ms(i) for i in scores]
                _, e['exc'] = call(lambda: x.assign_names(ids, names, scores))
            elif op == 'get':
                k = kname[by](o['key'])
                if dup and by == 1:
                    continue
                e['key'] = kint[by](k)
                if isseg and by == 1:
                    y, e['exc'] = call(lambda: x[k])
                    if y is not None:
                        y, e['exc'] = call(lambda: [[SI(y['segment_id']), FI(y['file_id']), ms(y['tbeg']), ms(y['tend']), 0]])
                        e['res'] = y or []
                    y = None
                elif not isseg and by == 1:
                    y, e['exc'] = call(lambda: x[k])
                    if y is not None:
                        y, e['exc'] = call(lambda: [[SI(a), FI(b), ms(c), ms(d), EI(f), nm(g)] for a, b, c, d, f, g in
                                                    y[['segment_id', 'file_id', 'tbeg', 'tend', 'ext_segment_id', 'name']].values.tolist()])
                        e['res'] = y or []
                    y = None
                else:
                    y, e['exc'] = call(lambda: x[k])
            elif op == 'at':
                if not isseg:
                    continue
                e['i'] = o['i']
                y, e['exc'] = call(lambda: x[o['i']])
                if y is not None and by == 1:
                    y, e['exc'] = call(lambda: [[SI(y['segment_id']), FI(y['file_id']), ms(y['tbeg']), ms(y['tend']), 0]])
                    e['res'], y = y or [], None
            elif op == 'in':
                k = kname[by](o['key'])
                e['key'] = kint[by](k)
                if by == 6:
                    continue
                y, e['exc'] = call(lambda: [bool(k in x)])
                e['res'], y = y or [], None
            elif op == 'iter':
                if dup and by == 1:
                    continue

                def it():
                    res = []
                    for z in x:
                        if by == 1 and isseg:
                            res.append([[SI(z['segment_id']), FI(z['file_id']), ms(z['tbeg']), ms(z['tend']), 0]])
                        elif by == 1:
                            res.append([[SI(a), FI(b), ms(c), ms(d), EI(f)] for a, b, c, d, f in
                                        z[['segment_id', 'file_id', 'tbeg', 'tend', 'ext_segment_id']].values.tolist()])
                        else:
                            res.append(rows5(z))
                    return res
                y, e['exc'] = call(it)
                e['res'], y = y or [], None
            elif op == 'ofile':
                k = fn(o['key'])
                if k not in list(x.file_id):
                    continue
                e['key'] = FI(k)
                if isseg:
                    y, e['exc'] = call(lambda: [[SI(s) for s in x.segments_ids_from_file(k)]])
                else:
                    y, e['exc'] = call(lambda: [[SI(s) for s in x.segment_ids_from_file(k)], [EI(s) for s in x.ext_segment_ids_from_file(k)]])
                e['res'], y = y or [[], []], None
            elif op == 'names':
                if isseg:
                    continue
                y, e['exc'] = call(lambda: [[nm(s) for s in x.segment_names], [sc(s) for s in x.segment_score],
                                            [as_int(s) for s in x.get_ext_segment_index()], [EI(s) for s in x.uniq_segment_id]])
                e['res'], y = y or [[], [], [], []], None
            elif op == 'mask':
                if not isseg or (dup and by == 1):
                    continue
                k = kname[by](o['key'])
                e.update(key=kint[by](k), fs=o.get('fs', 10), nf=o.get('nf', -1))
                kw = {} if e['fs'] == 10 and sty[7] % 3 == 0 else {'frame_shift': float(e['fs']) if sty[7] % 3 == 1 else e['fs']}
                if e['nf'] >= 0:
                    kw['num_frames'] = e['nf']
                y, e['exc'] = call(lambda: [as_int(v) for v in x.to_bin_vad(k, **kw)])
                e['res'], y = y or [], None
            elif op == 'eq':
                if o['r2'] > len(pool) or isinstance(pool[o['r2'] - 1], SegmentList) != isseg or len(pool[o['r2'] - 1]) == 0:
                    continue
                e['r2'] = o['r2']
                u = pool[o['r2'] - 1]
                y, e['exc'] = call(lambda: [bool(x == u), bool(x != u)])
                e['res'], y = y or [], None
            else:
                continue
            if y is not None:
                pool.append(y)
        p, x = call(lambda: [proj(z) for z in pool])
        e['pool'] = p if p is not None else []
        e['exc'] = e['exc'] or (x and 'reading a list ' + x)
        evs.append(e)
        if e['exc'] == 'HANG' or x or len(pool) > 12:
            break
    return {'init': 0, 'ev': evs}


def gen_list(rnd, nmax, t, base):
    n = rnd.choice([1, 1, 2, 3, nmax, rnd.randint(1, nmax)])
    nf = rnd.choice([1, 2, 3, 6])
    ids = [base + i for i in range(n)]
    rnd.shuffle(ids)
    T = rnd.choice([6, 20, 200])
    step = rnd.choice([10, 10, 1, 7, 1000])
    rows = []
    for i in ids:
        a = rnd.randint(0, T) * step
        rows.append([i, rnd.randint(1, nf), a, a + rnd.choice([0, step, 2 * step, rnd.randint(0, T) * step]), 0])
    if t == 'seg':
        z = rnd.random()
        if z < 0.4:
            rows.sort(key=lambda r: (r[1], r[2]))
        if rnd.random() < 0.03:
            rows[0][3] = max(0, rows[0][2] - step)
        return {'t': 'seg', 'by': rnd.choice([1, 2]), 'rows': rows, 'ext': [], 'files': []}
    z = rnd.random()
    if z < 0.6:
        rows.sort(key=lambda r: (r[1], r[2]))
    else:
        rows.sort(key=lambda r: r[2])
    e = base
    for i, r in enumerate(rows):
        if rnd.random() < 0.6 or i == 0:
            e = base + i
        r[4] = e if rnd.random() < 0.9 else base + rnd.randint(0, i)
    ext, files = [], []
    nn = rnd.choice([1, 2, 4])
    for r in rows:
        if r[4] not in [q[0] for q in ext]:
            ext.append([r[4], rnd.randint(1, nn) if rnd.random() < 0.85 else 0, rnd.choice([-1, rnd.randint(0, 5000)])])
        if r[1] not in [q[0] for q in files]:
            files.append([r[1], 1 + r[1] % 2])
    if rnd.random() < 0.05 and n > 1 and rows[0][1] == rows[1][1] and rows[0][2] < rows[1][2]:
        rows[0], rows[1] = rows[1], rows[0]
    return {'t': 'ext', 'by': rnd.choice([1, 2, 5, 6]), 'rows': rows, 'ext': ext, 'files': files}


def gen_script(rnd, nops, nmax):
    t = rnd.choice(['seg', 'ext'])
    ops = [{'op': 'new', 'r': 1, 'list': gen_list(rnd, nmax, t, 1)}]
    npool, nb = 1, 1 + len(ops[0]['list']['rows'])
    sep = rnd.choice([' ', ' ', '\t', ','])
    key = lambda: rnd.choice([1, 1, 2, 2, 3, 4, 5, 6, rnd.randint(1, 12)])
    for _ in range(nops):
        r = rnd.randint(1, npool) if rnd.random() < 0.6 else npool
        o = rnd.choice(['new', 'copy', 'len', 'setby', 'setby', 'rebuild', 'fromseg', 'filter', 'filter', 'filter', 'split', 'merge', 'saveload',
                        'saveload', 'adjacent', 'adjacent', 'assign', 'get', 'get', 'get', 'at', 'at', 'in', 'iter', 'iter', 'ofile', 'names', 'names',
                        'mask', 'mask', 'mask', 'eq'])
        d = {'op': o, 'r': r}
        if o == 'new':
            d['list'] = gen_list(rnd, nmax, t, nb)
            nb += len(d['list']['rows'])
            if nb > 80:
                continue
        elif o in ('setby', 'rebuild', 'saveload', 'fromseg'):
            d.update(by=rnd.choice([1, 2, 5, 6]), sep=sep, names=rnd.random() < 0.6)
        elif o == 'filter':
            ks = rnd.sample(range(1, 13), rnd.randint(0, 6)) if rnd.random() < 0.3 else rnd.sample(range(1, 7), rnd.randint(0, 3))
            if rnd.random() < 0.5:
                ks = [1 + k % 3 for k in ks]
                ks = [k for i, k in enumerate(ks) if k not in ks[:i]]
            d.update(keys=ks, keep=rnd.random() < 0.5)
        elif o == 'split':
            d['n'] = rnd.choice([1, 2, 2, 3, 4])
        elif o == 'merge':
            d.update(regs=[rnd.randint(1, npool) for _ in range(rnd.randint(1, 3))], by=rnd.choice([1, 2, 5, 6]))
            d['regs'] = [k for i, k in enumerate(d['regs']) if k not in d['regs'][:i]]
        elif o == 'adjacent':
            d['max'] = rnd.choice([0, 0, 1, 2, 3])
        elif o == 'assign':
            k = rnd.randint(1, 4)
            d.update(idx=[rnd.randint(0, 9) for _ in range(k)], names=[rnd.randint(1, 3) for _ in range(k)], scores=[rnd.randint(0, 9000) for _ in range(k)])
        elif o in ('get', 'in', 'ofile'):
            d['key'] = key()
        elif o == 'at':
            d['i'] = rnd.choice([0, 1, 2, 5])
        elif o == 'mask':
            d.update(key=key(), fs=rnd.choice([10, 10, 20, 25, 5, 16]), nf=rnd.choice([-1, -1, 0, 1, 5, 30]))
        elif o == 'eq':
            d['r2'] = rnd.randint(1, npool)
        ops.append(d)
        if o in ('new', 'copy', 'rebuild', 'fromseg', 'filter', 'saveload', 'merge'):
            npool += 1
        if o == 'split':
            npool += d['n']
            if rnd.random() < 0.6:
                ops.append({'op': 'merge', 'r': npool - d['n'] + 1, 'regs': list(range(npool - d['n'] + 1, npool + 1)), 'by': rnd.choice([1, 2, 5, 6])})
                npool += 1
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(8)]}


def enrich(rnd, h):
    """a history of the model, with queries of every kind at its end"""
    ops = [dict(o) for o in h]
    for o in ops:
        if o['op'] == 'new':
            # the styles of names of the model are plain ids
            pass
        if o['op'] == 'mask':
            o.update(fs=rnd.choice([10, 20, 5]), nf=rnd.choice([-1, 3, 8]))
    r = rnd.randint(1, 3)
    ops += [{'op': 'iter', 'r': r}, {'op': 'names', 'r': r}, {'op': 'saveload', 'r': r, 'by': rnd.choice([1, 2, 5, 6])}, {'op': 'len', 'r': r},
            {'op': 'mask', 'r': r, 'key': 1, 'fs': 10, 'nf': rnd.choice([-1, 4])}, {'op': 'ofile', 'r': r, 'key': 1}]
    return {'ops': ops, 'style': [rnd.randint(0, 99) for _ in range(8)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc'] == '' and e['pool'] and len(e['pool'][-1]['rows']) >= 2:
            e['pool'][-1]['rows'][0][3] += 1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    hists = ck.model('MC_Segments', timeout=800, want=500)
    hists += ck.model('MC_Segments', cfg=ck.pick('MC_Segments2.cfg', 'MC_Segments_deep.cfg'), timeout=1500, want=500)
    rnd.shuffle(hists)
    scripts = [enrich(rnd, h) for h in hists[:ck.pick(3500, 40000)]]
    for i in range(ck.pick(3000, 20000)):
        scripts.append(gen_script(rnd, rnd.choice([3, 6, 10]), rnd.choice([3, 6, 15])))
    behs = ck.execute('checks.p11', scripts)
    ck.judge('Trace_Segments', behs, scripts, 'checks.p11', label='segment lists', batch=8000)
    ck.negative_control('Trace_Segments', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P11', run)
