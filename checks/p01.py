"""P01: archives give back exactly what was written."""
import random

import vf
from checks.archive import METHODS, accepted, base, execute, rec


def reading(rnd, s, stored, others):
    fmt, narch, layout = s['fmt'], s.get('narch', 1), s.get('layout', 'ark')
    ops = s['ops']
    n = len(stored)
    hasscp = s.get('scp', True) and layout == 'ark' and narch == 1
    uniq = len({r['k'] for r in stored}) == n
    vias = []
    if narch == 1 and layout == 'ark':
        vias.append('file')
        if hasscp:
            vias.append('auto')
            ops.append({'op': 'script'})
    if layout == 'bare' or narch > 1 or hasscp:
        vias.append('scp')
    for v in vias:
        src = {'op': 'source', 'via': v}
        if v == 'scp':
            order = list(range(1, n + 1))
            rnd.shuffle(order)
            src['lines'] = [[i, 0, 0] for i in order]
            src['prefix'] = rnd.randint(0, 1)
        if v != 'file' and n == 0 and fmt == 'ark':
            continue
        ops.append(src)
        z = rnd.random()
        o = {'via': v}
        ops.append(dict(o, op='open', kind='seq'))
        if z < 0.4:
            ops.append({'op': 'read', 'n': 0})
        elif z < 0.7:
            for _ in range(n + 1):
                ops.append({'op': 'next'})
        else:
            left = n
            while left > 0:
                k = rnd.randint(1, 2)
                ops.append({'op': 'read', 'n': k})
                left -= k
            ops.append({'op': 'read', 'n': 1})
        if rnd.random() < 0.3:
            ops += [{'op': 'reset'}, {'op': 'meta', 'n': 0, 'what': rnd.choice(['shapes', 'numrows', 'dims']), 'same': False}]
        if rnd.random() < 0.2 and not s['empties']:
            ops += [{'op': 'reset'}, {'op': 'read', 'n': 0, 'sq': True}]
        if (v != 'file' or fmt == 'h5') and uniq:
            perm = rnd.random() < 0.5
            ops.append(dict(o, op='open', kind='rand', perm=perm))
            for _ in range(rnd.randint(1, 3)):
                ks = [r['k'] for r in stored] or [others[0]]
                ask = [rnd.choice(ks) if rnd.random() < 0.85 else rnd.choice(others) for _ in range(rnd.randint(1, 4))]
                if rnd.random() < 0.3:
                    ops.append({'op': 'rmeta', 'ask': ask, 'what': rnd.choice(['shapes', 'numrows', 'dims']), 'same': rnd.random() < 0.3})
                else:
                    ops.append({'op': 'rread', 'ask': ask, 'sq': rnd.random() < 0.2 and not s['empties'], 'single': rnd.randint(0, 1)})


def gen(rnd, kinds, groups):
    fmt = rnd.choice(['ark', 'ark', 'h5'])
    text = fmt == 'ark' and rnd.random() < 0.3
    comp = rnd.choice(METHODS) if rnd.random() < 0.4 else ''
    kw = {}
    if not text and not comp and fmt == 'ark' and rnd.random() < 0.15:
        kw['layout'] = 'bare'
    elif rnd.random() < 0.2:
        kw['narch'] = rnd.randint(2, 3)
    elif rnd.random() < 0.25:
        kw['scp'] = False
    keys = rnd.sample(range(40), len(kinds) + 2)
    recs = []
    for i, (t, n, nc) in enumerate(kinds):
        if text and n == 0:
            n = 1
        if comp:
            t, n = ('m' if rnd.random() < 0.95 else t), max(n, 1)
        recs.append(rec(rnd, comp, keys[i], t, n, nc))
    if rnd.random() < 0.05 and len(recs) > 1:
        recs[-1]['k'] = recs[0]['k']
    if kw.get('narch') and fmt == 'h5':
        for i, r in enumerate(recs):
            r['k'] = keys[i]
    gs, i = [], 0
    for g in groups:
        gs.append(recs[i:i + g])
        i += g
    if kw.get('layout') == 'bare' or (kw.get('narch') and comp):
        gs = [[r for r in g if accepted(fmt, comp, set(), [r])] for g in gs]
    s, stored = base(rnd, fmt, text, comp, gs, **kw)
    reading(rnd, s, stored, keys[len(kinds):])
    return s


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] in ('read', 'next', 'rread') and e['exc'] == '' and e['data'] and e['data'][0]['t'] == 'm' and e['data'][0]['d'] and e['data'][0]['d'][0]:
            e['data'][0]['d'][0][0] += 900000
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    scripts = []
    for h in ck.model('MC_Archive', cfg='MC_Archive_write%s.cfg' % ck.pick('', '4'), want=500, timeout=1200):
        for _ in range(ck.pick(2, 6)):
            scripts.append(gen(rnd, h[0]['kinds'], h[0]['groups']))
    for _ in range(ck.pick(2500, 30000)):
        n = rnd.choice([0, 1, 2, 4, 4, 8])
        kinds = []
        nc = rnd.randint(1, 4)
        for i in range(n):
            t = rnd.choice('mmmv')
            rows = rnd.choice([1, 2, 3, 5, 8, 9, 12, 20])
            kinds.append([t, rows if t == 'm' or rnd.random() < 0.8 else 40, nc if rnd.random() < 0.7 else rnd.randint(1, 6)])
        if rnd.random() < 0.3 and n:
            kinds = [kinds[0]] * n
        groups = []
        left = n
        while left > 0:
            k = rnd.randint(1, left)
            groups.append(k)
            left -= k
        if rnd.random() < 0.1:
            groups.insert(0, 0)
        scripts.append(gen(rnd, kinds, groups))
    behs = ck.execute('checks.p01', scripts)
    ck.judge('Trace_Archive', behs, scripts, 'checks.p01', label='archive', batch=6000)
    ck.negative_control('Trace_Archive', behs[:300], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P01', run)
