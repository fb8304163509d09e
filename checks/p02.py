"""P02: sequential readers deliver each record exactly once, whatever the calls."""
import random

import vf
from checks.archive import base, execute, rec


def setup(rnd, n):
    fmt = rnd.choice(['ark', 'ark', 'h5'])
    text = fmt == 'ark' and rnd.random() < 0.25
    comp = 'auto' if rnd.random() < 0.15 else ''
    kw = {}
    if fmt == 'ark' and not text and not comp and rnd.random() < 0.2:
        kw['layout'] = 'bare'
    elif rnd.random() < 0.3:
        kw['narch'] = 2
    keys = rnd.sample(range(40), n)
    nc = rnd.randint(1, 3)
    recs = [rec(rnd, comp, keys[i], 'm' if comp or rnd.random() < 0.9 else 'v', rnd.randint(1, 4), nc if rnd.random() < 0.9 else 2) for i in range(n)]
    gs = [[r] for r in recs] if kw.get('narch') else [recs]
    s, stored = base(rnd, fmt, text, comp, gs, **kw)
    vias = ['scp']
    if not kw:
        vias += ['file', 'file', 'auto']
    v = rnd.choice(vias)
    if n == 0 and v != 'file':
        if kw:
            return None
        v = 'file'
    src = {'op': 'source', 'via': v}
    N = n
    if v == 'scp':
        lines = [[i, 0, 0] for i in range(1, n + 1)]
        if rnd.random() < 0.5:
            rnd.shuffle(lines)
        if rnd.random() < 0.3:
            lines += [list(rnd.choice(lines)) for _ in range(rnd.randint(1, 2))]
            if rnd.random() < 0.5:
                rnd.shuffle(lines)
        src['lines'] = lines
        N = len(lines)
    s['ops'].append(src)
    return s, v, N


def follow(rnd, hist):
    ops = []
    for h in hist:
        if h['op'] == 'read':
            ops.append({'op': 'read', 'n': h['n'], 'sq': rnd.random() < 0.06})
        elif h['op'] == 'meta':
            ops.append({'op': 'meta', 'n': h['n'], 'what': rnd.choice(['shapes', 'numrows', 'dims']), 'same': rnd.random() < 0.4})
        elif h['op'] != 'init':
            ops.append({'op': h['op']})
    return ops


def final(rnd):
    """what remains is delivered, and then the end is signalled"""
    return rnd.choice([[{'op': 'read', 'n': 0}, {'op': 'eof'}, {'op': 'next'}], [{'op': 'meta', 'n': 0, 'what': 'shapes', 'same': False}, {'op': 'eof'}],
                       [{'op': 'eof'}, {'op': 'read', 'n': 1}, {'op': 'eof'}, {'op': 'read', 'n': 0}, {'op': 'eof'}]])


def gen(rnd, n, hist):
    x = setup(rnd, n)
    if x is None:
        return None
    s, v, N = x
    part = 0
    if rnd.random() < 0.35 and N > 0:
        np_ = rnd.randint(2, min(4, N)) if N > 1 else 2
        if np_ <= N:
            o = {'op': 'parts', 'via': v, 'n': np_, 'bykey': False}
            if rnd.random() < 0.5:
                uk = {l[0] for l in s['ops'][-1].get('lines', [])} if v == 'scp' else set(range(n))
                if np_ <= len(uk):
                    o['bykey'] = True
            # repeated keys stay together only when grouped
            s['ops'].append(o)
            part = rnd.randint(1, np_)
            s['ops'].append({'op': 'open', 'kind': 'seq', 'via': v, 'part': part, 'bykey': o['bykey']})
            s['ops'] += follow(rnd, hist) + final(rnd)
            return s
    s['ops'].append({'op': 'open', 'kind': 'seq', 'via': v, 'part': 0})
    s['ops'] += follow(rnd, hist) + final(rnd)
    return s


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] == 'eof':
            e['res'] = not e['res']
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    hists = ck.model('MC_Archive', cfg='MC_Archive_cursor%s.cfg' % ck.pick('', '6'), want=5000, timeout=1500)
    rnd.shuffle(hists)
    scripts = []
    for h in hists[:ck.pick(5000, 60000)]:
        s = gen(rnd, h[0]['n'], h)
        if s:
            scripts.append(s)
    for _ in range(ck.pick(2000, 20000)):
        h = []
        for _ in range(rnd.randint(3, 16)):
            o = rnd.choice(['read', 'read', 'read', 'meta', 'meta', 'next', 'next', 'eof', 'reset'])
            h.append({'op': o, 'n': rnd.choice([0, 1, 1, 1, 2, 3, 5]) if rnd.random() < 0.8 else 1})
        s = gen(rnd, rnd.choice([1, 3, 5, 8, 12]), h)
        if s:
            scripts.append(s)
    behs = ck.execute('checks.p02', scripts)
    ck.judge('Trace_Archive', behs, scripts, 'checks.p02', label='cursor', batch=8000)
    ck.negative_control('Trace_Archive', behs[:300], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P02', run)
