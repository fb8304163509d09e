"""P03: row ranges select exactly the requested rows."""
import random

import vf
from checks.archive import METHODS, base, execute, rec


def gen(rnd, cases):
    """cases: (rows of the record, script range a, n, range asked for o, m)"""
    fmt = rnd.choice(['ark', 'ark', 'h5'])
    text = fmt == 'ark' and rnd.random() < 0.07
    comp = rnd.choice(['', '', rnd.choice(METHODS)])
    kw = {}
    if fmt == 'ark' and not text and not comp and rnd.random() < 0.2:
        kw['layout'] = 'bare'
    n = len(cases)
    keys = rnd.sample(range(40), n)
    nc = rnd.randint(1, 3)
    recs = []
    for i, (R, a, c, o, m) in enumerate(cases):
        t = 'v' if not comp and rnd.random() < 0.05 else 'm'
        recs.append(rec(rnd, comp, keys[i], t, max(1, R) if comp or text else R, nc))
    s, stored = base(rnd, fmt, text, comp, [recs], **kw)
    whole = all(a == 0 and c == 0 for (R, a, c, o, m) in cases)
    ops = s['ops']
    via = 'scp' if kw or not whole or rnd.random() < 0.3 else rnd.choice(['file', 'auto'])
    if comp:
        # a complete read shows what the compressed records hold
        ops += [{'op': 'source', 'via': 'auto'}, {'op': 'open', 'kind': 'seq', 'via': 'auto'}, {'op': 'read', 'n': 0}]
    src = {'op': 'source', 'via': via}
    if via == 'scp':
        src['lines'] = [[i + 1, a, c] for i, (R, a, c, o, m) in enumerate(cases)]
    ops.append(src)
    same_o = rnd.random() < 0.25
    off = [o for (R, a, c, o, m) in cases]
    num = [m for (R, a, c, o, m) in cases]
    if same_o:
        off = off[:1]
    if rnd.random() < 0.25:
        num = num[:1]
    rngs = {'off': off, 'num': num}
    kinds = ['seq'] + (['rand'] if via != 'file' or fmt == 'h5' else [])
    for kind in kinds:
        ops.append({'op': 'open', 'kind': kind, 'via': via, 'part': 0, 'perm': False})
        if kind == 'seq':
            z = rnd.random()
            ops.append(dict(op='read', n=0 if z < 0.5 else n, sq=rnd.random() < 0.05 and not s['empties'], **rngs))
            ops.append({'op': 'reset'})
            if rnd.random() < 0.5 and n > 1:
                for i in range(n):
                    ops.append({'op': 'read', 'n': 1, 'off': [cases[i][3]], 'num': [cases[i][4]]})
                ops.append({'op': 'eof'})
                ops.append({'op': 'reset'})
            ops.append({'op': 'meta', 'n': 0, 'what': rnd.choice(['shapes', 'numrows', 'dims']), 'same': rnd.random() < 0.2})
            if rnd.random() < 0.5:
                ops.append({'op': 'reset'})
                ops.append({'op': 'read', 'n': 0})
        else:
            ks = list(range(n))
            rnd.shuffle(ks)
            ks = ks[:rnd.randint(1, n)]
            r = {'off': [cases[i][3] for i in ks], 'num': [cases[i][4] for i in ks]}
            if len(off) == 1:
                r['off'] = off
            if len(num) == 1:
                r['num'] = num
            ops.append(dict(op='rread', ask=[keys[i] for i in ks], sq=rnd.random() < 0.05 and not s['empties'], **r))
            ops.append({'op': 'rmeta', 'ask': [keys[i] for i in ks], 'what': rnd.choice(['shapes', 'numrows', 'dims']), 'same': rnd.random() < 0.2})
            ops.append({'op': 'rread', 'ask': [keys[i] for i in ks]})
    return s


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] in ('read', 'rread') and e['exc'] == '' and e['data'] and len(e['data'][0]['d']) > 0:
            e['data'][0]['d'] = e['data'][0]['d'][:-1]
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    hs = [h[0] for h in ck.model('MC_Archive', cfg='MC_Archive_range%s.cfg' % ck.pick('', '5'), want=1000, timeout=1200)]
    cases = [(h['R'], h['a'], h['n'], h['o'], h['m']) for h in hs]
    scripts = []
    for _ in range(ck.pick(2, 4)):
        rnd.shuffle(cases)
        inside = [c for c in cases if legal(c)]
        outside = [c for c in cases if not legal(c)]
        i = 0
        while i < len(inside):
            k = rnd.randint(1, 3)
            scripts.append(gen(rnd, inside[i:i + k]))
            i += k
        for c in outside:
            scripts.append(gen(rnd, [c]))
    for _ in range(ck.pick(2500, 25000)):
        cs = []
        for _ in range(rnd.randint(1, 4)):
            R = rnd.choice([1, 3, 9, 12, 20])
            while True:
                a = rnd.randint(0, R - 1)
                n = rnd.choice([0, rnd.randint(1, R - a)])
                w = n or R - a
                o = rnd.randint(0, w - 1)
                m = rnd.choice([0, rnd.randint(1, w - o), w - o])
                if rnd.random() < 0.4:
                    a, n = 0, 0
                    o = rnd.randint(0, R - 1)
                    m = rnd.choice([0, rnd.randint(1, R - o)])
                if rnd.random() < 0.04:
                    m += rnd.randint(1, 3)
                break
            cs.append((R, a, n, o, m))
        scripts.append(gen(rnd, cs))
    behs = ck.execute('checks.p03', scripts)
    ck.judge('Trace_Archive', behs, scripts, 'checks.p03', label='ranges', batch=8000)
    ck.negative_control('Trace_Archive', behs[:300], corrupt, n=20)


def legal(c):
    R, a, n, o, m = c
    w = max(0, min(R, a + n if n else R) - a)
    return (a + n <= R if n else a < R or a == 0) and (o + m <= w if m else o < w or o == 0)


if __name__ == '__main__':
    vf.main('P03', run)
