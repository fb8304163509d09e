"""P25: probabilistic linear discriminant analysis."""
import argparse
import itertools
import random

import numpy as np
import vf
from vf import call

KINDS = ['frplda', 'splda', 'plda']
LIM = 2 * 10 ** 9
NAMES = {'frplda': ['mu', 'B', 'W'], 'splda': ['mu', 'V', 'W'], 'plda': ['mu', 'V', 'U', 'D']}


def classes():
    from hyperion.pdfs import FRPLDA, SPLDA, PLDA
    return {'frplda': FRPLDA, 'splda': SPLDA, 'plda': PLDA}


def r(v):
    v = float(v)
    return int(round(v)) if np.isfinite(v) and abs(v) < LIM else -77777777


def ri(v):
    v = float(v)
    return int(round(v)) if np.isfinite(v) and abs(v) < 1e9 and abs(v - round(v)) < 1e-6 else -77777777


def rl(a, s=1000):
    return [r(v * s) for v in np.ravel(a)]


def mat(a, f):
    return [[f(v) for v in row] for row in np.atleast_2d(a)]


def rot(n, t):
    if n < 2 or not t:
        return np.eye(n)
    R = np.eye(n)
    R[:2, :2] = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
    if n > 2:
        Q = np.eye(n)
        Q[1:3, 1:3] = R[:2, :2]
        R = R @ Q
    return R


def make(m, x):
    """m: what the specification knows; x: how the model is written"""
    d, q = len(m['bn']), float(m['q'])
    A, mu = np.array(x['A'], dtype='float64'), np.array(x['mu'], dtype='float64')
    b, s, u = (np.array(m[k], dtype='float64') / q for k in ('bn', 'sn', 'un'))
    Sb, Sw = (A * b) @ A.T, (A * s) @ A.T
    on = [i for i in range(d) if b[i] > 0]
    kw = {'update_' + k: f for k, f in zip(NAMES[m['kind']], x['flags'])}
    C = classes()[m['kind']]
    if m['kind'] == 'frplda':
        return C(mu=mu, B=np.linalg.inv(Sb), W=np.linalg.inv(Sw), **kw)
    V = rot(len(on), x['rot']) @ (np.sqrt(b[on])[:, None] * A.T[on])
    if m['kind'] == 'splda':
        return C(mu=mu, V=V, W=np.linalg.inv(Sw), **kw)
    if x['ldl']:
        U, D = np.array([[1., x['u2']]]), np.array([1., 1. / x['d2']])
        assert np.allclose(U.T @ U + np.diag(1 / D), Sw)
    else:
        zn = [i for i in range(d) if u[i] > 0]
        U, D = rot(len(zn), x['rot']) @ (np.sqrt(u[zn])[:, None] * np.eye(d)[zn]), 1 / (s - u)
    return C(mu=mu, V=V, U=U, D=D, floor_iD=1e-9, **kw)


def pack(cs):
    return np.array([z for c in cs for z in c], dtype='float64'), np.array([i for i, c in enumerate(cs) for _ in c])


class Rng(object):
    def __init__(self, v):
        self.v = v

    def normal(self, size=None, loc=0., scale=1.):
        return loc + scale * self.v * np.ones(size)

    def randn(self, *size):
        return self.v * np.ones(size)


def execute(script, wd):
    if 'fit' in script:
        return {'init': 0, 'ev': [fit_any(script['fit'])]}
    m, x = script['m'], dict(script['x'])
    g, exc = call(make, m, x)
    A = np.array(x['A'], dtype='float64')
    ctx = {'mu': np.array(x['mu'], dtype='float64'), 'A': A, 'm': m, 'x': x}
    evs = [{'op': 'new', 'm': m, 'exc': exc}]
    for o in script['ops']:
        if exc:
            break
        e = {k: v for k, v in o.items() if k not in ('perm', 'how', 'soft', 'scal', 'ox', 'argv', 'md')}
        e.update(exc='', same=True)
        p0 = [np.copy(getattr(g, k)) for k in NAMES[m['kind']]]
        q, exc = call(globals()['do_' + o['op']], g, ctx, o, e)
        if o['op'] not in ('mix', 'step') and not all(np.array_equal(a, getattr(g, k)) for a, k in zip(p0, NAMES[m['kind']])):
            e['same'] = False
        e['exc'] = exc
        if not exc:
            e.update(q)
        evs.append(e)
    return {'init': 0, 'ev': evs}


def to_x(ctx, z):
    return ctx['mu'] + z @ ctx['A'].T


def keep(e, *arrs):
    c = [np.copy(a) for a in arrs]

    def same():
        e['same'] = e['same'] and all(np.array_equal(a, b) for a, b in zip(c, arrs))
    return same


def do_stats(g, ctx, o, e):
    x, p = np.array(o['x'], dtype='float64'), np.array(o['p'])
    w, mu = np.array(o['w'], dtype='float64'), np.array(o['mu'], dtype='float64')
    W = None if all(v == o['scal'] for v in o['w']) else w / o['scal']
    sc = None if o['scal'] == 1 else float(o['scal'])
    pf = p.astype('float64')
    ids = np.argmax(p, 1)
    same = keep(e, x, pf, w, mu, ids)
    D = g.compute_stats_soft(x, pf, W, sc) if o['soft'] else g.compute_stats_hard(x, ids, W, sc)
    same2 = keep(e, *D)
    Cn = g.center_stats(D, mu)
    same()
    same2()
    f = lambda t: {'n': [ri(v) for v in t[0]], 'f': mat(t[1], ri), 's': mat(t[2], ri)}
    q = f(D)
    c = f(Cn)
    return dict(q, cn=c['n'], cf=c['f'], cs=c['s'])


def do_llr(g, ctx, o, e):
    z1, i1 = pack(o['c1'])
    z2, i2 = pack(o['c2'])
    x1, x2 = to_x(ctx, z1), to_x(ctx, z2)
    R = np.random.RandomState(o['perm'])
    p1 = R.permutation(len(x1)) if o['perm'] else np.arange(len(x1))
    x1, i1 = x1[p1], i1[p1]
    h, how, me = o['h'], o['how'], o['method']
    same = keep(e, x1, x2, i1, i2)
    st = lambda x, i: g.compute_stats_hard(x, i, None if h == 1 else np.ones(len(x)) / h)
    if me == '1vs1':
        got = g.llr_1vs1(x1[np.argsort(i1)], x2)
    elif how == 'stats':
        D1, D2 = st(x1, i1), st(x2, i2)
        same2 = keep(e, *(D1 + D2))
        got = g.llr_NvsM(D1, D2, method=me)
        same2()
    elif how == 'nvs1':
        got = g.llr_Nvs1(x1, x2, i1, method=me)
    elif how == 'nvs1stats':
        D1 = st(x1, i1)
        same2 = keep(e, *D1)
        got = g.llr_Nvs1(D1, x2, method=me)
        same2()
    else:
        got = g.llr_NvsM(x1, x2, i1, i2, method=me)
    same()
    q = {'got': mat(got, lambda v: r(1000 * v)), 'ref': [[0]]}
    if me == 'vavg-lnorm':
        av = [np.array([x[i == c].mean(0) for c in range(max(i) + 1)]) for x, i in ((x1, i1), (x2, i2))]
        ln = [a / np.sqrt((a ** 2).sum(1, keepdims=True)) * np.sqrt(a.shape[1]) for a in av]
        q['ref'] = mat(g.llr_1vs1(*ln), lambda v: r(1000 * v))
    return q


def do_post(g, ctx, o, e):
    z, i = pack(o['c1'])
    x = to_x(ctx, z)
    D = g.compute_stats_hard(x, i, None if o['h'] == 1 else np.ones(len(x)) / o['h'])
    same = keep(e, *D)
    y, S = g.compute_py_g_x(D, return_cov=True)[:2]
    y2 = g.compute_py_g_x(D)
    same()
    Ai = np.linalg.inv(ctx['A'])
    T = Ai if ctx['m']['kind'] == 'frplda' else Ai @ g.V.T
    b = g.mu if ctx['m']['kind'] == 'frplda' else 0
    Y = (y - b) @ T.T
    Sz = [T @ s @ T.T for s in S]
    if not np.allclose(y, y2):
        Y = Y * np.nan
    return {'y': mat(Y, lambda v: r(10000 * v)), 'v': [[r(10000 * v) for v in np.diag(s)] for s in Sz], 'diag': bool(max(np.abs(s - np.diag(np.diag(s))).max() for s in Sz) < 1e-4)}


def do_elbo(g, ctx, o, e):
    z, i = pack(o['c1'])
    x = to_x(ctx, z)
    w = np.array([v for c in o['w'] for v in c], dtype='float64') / o['h']
    D = g.compute_stats_hard(x, i, w)
    same = keep(e, *D)
    v = g.elbo(g.Estep(D))
    same()
    return {'got': r(1000 * v)}


def do_step(g, ctx, o, e):
    z, i = pack(o['c1'])
    x = to_x(ctx, z)
    same = keep(e, x, i)
    g.update_mu, g.update_B, g.update_W = o['flags']
    g.fit(x, i, epochs=1, ml_md=o['md'])
    same()
    return {'mu': rl(g.mu - ctx['mu'], 10000), 'b': rl(np.diag(np.linalg.inv(g.B)), 10000), 's': rl(np.diag(np.linalg.inv(g.W)), 10000)}


def do_mix(g, ctx, o, e):
    x2 = dict(ctx['x'], mu=o['ox'], flags=[True] * 4)
    h = make(o['o'], x2)
    P = NAMES[ctx['m']['kind']]
    same = keep(e, *[getattr(h, k) for k in P])
    g.weighted_avg_model(h, o['wm'] / 2., o['wb'] / 2., o['ww'] / 2.)
    same()
    ctx['mu'] = ctx['mu'] + o['wm'] / 2. * (np.array(o['ox'], dtype='float64') - ctx['mu'])
    return {}


def do_sample(g, ctx, o, e):
    x = g.sample(o['n'], o['k'], rng=Rng(o['v']))
    a, b = g.sample(o['n'], o['k'], seed=7), g.sample(o['n'], o['k'], seed=7)
    e['same'] = bool(np.array_equal(a, b)) and a.shape == x.shape
    return {'x': mat((x - ctx['mu']), ri)}


def do_opts(g, ctx, o, e):
    from hyperion.helpers import PLDAFactory as F
    p = argparse.ArgumentParser()
    F.add_argparse_train_args(p, o['prefix'] or None)
    pre = o['prefix'] + '-' if o['prefix'] else ''
    argv = ['--' + pre + 'plda-type', o['kind'], '--' + pre + 'y-dim', str(o['y']), '--' + pre + 'z-dim', str(o['z'])] + ['--' + pre + OPT[k] for k in o['off']]
    a = vars(p.parse_args(argv))
    kw = F.filter_train_args(o['prefix'] or None, **a)
    for k in ('epochs', 'ml_md', 'md_epochs'):
        kw.pop(k, None)
    n = F.create_plda(**kw)
    on = [k for k in NAMES[o['kind']] if getattr(n, 'update_' + k)] + (['fullcov'] if getattr(n, 'fullcov_W', False) else [])
    return {'cls': type(n).__name__.lower(), 'on': on, 'dims': [int(n.y_dim or 0) if o['kind'] != 'frplda' else 0, int(n.z_dim) if o['kind'] == 'plda' else 0]}


OPT = {'mu': 'no-update-mu', 'V': 'no-update-V', 'U': 'no-update-U', 'B': 'no-update-B', 'W': 'no-update-w', 'D': 'no-update-d', 'fullcov': 'diag-W'}


def cov(g):
    k = type(g).__name__
    if k == 'FRPLDA':
        return np.linalg.inv(g.B), np.linalg.inv(g.W)
    if k == 'SPLDA':
        return g.V.T @ g.V, np.linalg.inv(g.W)
    return g.V.T @ g.V, g.U.T @ g.U + np.diag(1 / g.D)


def dense(g, x, P):
    """log-likelihood of the model, straight from its definition; P: number of times that each sample is in each class"""
    Sb, Sw = cov(g)
    d = x.shape[1]
    iSw = np.linalg.inv(Sw)
    ld = np.linalg.slogdet(Sw)[1]
    X = x - g.mu
    N = P.sum(0)
    t = -0.5 * (N.sum() * (d * np.log(2 * np.pi) + ld) + np.sum(P.sum(1)[:, None] * (X @ iSw) * X))
    for c in range(P.shape[1]):
        G = iSw @ (P[:, c] @ X)
        K = np.eye(d) + N[c] * Sb @ iSw
        t += 0.5 * (G @ np.linalg.solve(K, Sb) @ G - np.linalg.slogdet(K)[1])
    return t


def fit_any(t):
    R = np.random.RandomState(t['seed'])
    k, d, M = t['kind'], t['dim'], t['M']
    e = {'op': 'fit', 'kind': k, 'exc': '', 'same': True}

    def f():
        def data(M):
            n = R.randint(1, 5, M)
            y = np.repeat(np.arange(M), n)
            return np.round(32 * (R.randn(len(y), d) + 1.5 * R.randn(M, d)[y] + 1)) / 32, y
        x, y = data(M)
        x = np.vstack((x, x[:1] + R.randn(2 * d, d)))
        y = np.concatenate((y, R.randint(M, size=2 * d)))
        w4 = R.choice([1, 2, 3, 4, 6, 8], len(x)) if t['w'] else np.full(len(x), 4)
        w = w4 / 4.
        kw = {'frplda': {}, 'splda': {'y_dim': t['yd']}, 'plda': {'y_dim': t['yd'], 'z_dim': 1}}[k]
        fl = t['flags'][:len(NAMES[k])]
        kw.update({'update_' + n: v for n, v in zip(NAMES[k], fl)})
        if k != 'plda':
            kw['fullcov_W'] = t['full']
        P = {}
        if t['init']:
            a = R.randn(d, d)
            P = {'mu': R.randn(d), 'B': np.linalg.inv(a @ a.T + np.eye(d)), 'W': np.diag(R.uniform(0.5, 2, d)), 'V': R.randn(t['yd'], d), 'U': R.randn(1, d), 'D': R.uniform(0.5, 2, d)}
            P = {n: P[n] for n in NAMES[k]}
        g = classes()[k](**dict(kw, **{n: v.copy() for n, v in P.items()}))
        soft = np.eye(M)[y]
        if t['mushy']:
            soft = 0.75 * soft + 0.25 * np.eye(M)[R.randint(M, size=len(y))]
        PP = soft * w[:, None] if t['soft'] else np.eye(M)[y] * w[:, None]
        ws = w.copy() if t['w'] else None
        args = {'sample_weight': ws} if t['w'] else {}
        xv, yv = data(3) if t['val'] else (None, None)
        if t['soft']:
            args['ptheta'] = soft
            if t['val']:
                args['ptheta_val'] = np.eye(3)[yv]
        else:
            args['class_ids'] = y
            if t['val']:
                args['class_ids_val'] = yv
        if t['val']:
            args['x_val'] = xv
        c = [np.copy(a) for a in (x, y, soft)] + ([ws.copy()] if t['w'] else [])
        if not t['init']:
            D = g.compute_stats_soft(x, PP)
            g.initialize(D)
            P = {n: np.copy(getattr(g, n)) for n in NAMES[k]}
            if not g.is_init:
                raise RuntimeError('not initialised')
            if t['fresh']:
                g = classes()[k](**dict(kw))     # fit initialises by itself
        lls, elbo, avg, val, vll = [], [], [], [], []
        for i in range(t['epochs']):
            if g.is_init:
                lls.append(dense(g, x, PP))
                if t['val']:
                    vll.append(dense(g, xv, np.eye(3)[yv]))
            else:
                lls.append(None)
            q = g.fit(x, epochs=1, ml_md=t['mlmd'], **args)
            elbo.append(float(q[0][0]))
            avg.append(float(q[1][0]))
            if t['val']:
                val.append(float(q[2][0]))
                if len(vll) < len(val):
                    vll.append(val[-1])
                if abs(q[3][0] - q[2][0] / len(xv)) > 1e-6:
                    val[-1] += 1e3
            if lls[-1] is None:
                lls[-1] = elbo[-1]
        lls.append(dense(g, x, PP))
        q = g.fit(x, epochs=2, ml_md=t['mlmd'], **args)
        elbo.append(float(q[0][0]))
        avg.append(float(q[1][0]))
        gram = lambda n, v: v.T @ v if n in 'UV' else v
        # rounds with and without minimum divergence; adaptation
        def copy(g):
            h = classes()[k](**dict(kw, **{n: np.copy(getattr(g, n)) for n in NAMES[k]}))
            return h if h.is_init else None
        E, md = t['rounds'], [i for i in range(t['rounds']) if t['md'] >> i & 1]
        g1, g2 = copy(g), copy(g)
        q1 = g1.fit(x, epochs=E, ml_md=t['mlmd'], md_epochs=md, **args)[0]
        q2 = [g2.fit(x, epochs=1, ml_md=t['mlmd'], md_epochs=[0] if i in md else [], **args)[0][0] for i in range(E)]
        near = lambda a, b: all(np.allclose(gram(n, getattr(a, n)), gram(n, getattr(b, n)), rtol=1e-6, atol=1e-7) for n in NAMES[k])
        rounds = near(g1, g2) and np.allclose(q1, q2)
        a = R.randn(d, d)
        P0 = {'mu': R.randn(d), 'B': np.linalg.inv(a @ a.T + np.eye(d)), 'W': np.diag(R.uniform(0.5, 2, d)), 'V': R.randn(t['yd'], d), 'U': R.randn(1, d), 'D': R.uniform(0.5, 2, d)}
        g0 = classes()[k](**dict(kw, **{n: P0[n].copy() for n in NAMES[k]}))
        g1, g2, wt = copy(g), copy(g), t['wt']
        q1 = g1.fit_adapt_weighted_avg_model(x, epochs=E, ml_md=t['mlmd'], md_epochs=md, plda0=g0, w_mu=wt[0], w_B=wt[1], w_W=wt[2], **args)
        for i in range(E):
            g2.fit(x, epochs=1, ml_md=t['mlmd'], md_epochs=[0] if i in md else [], **args)
            g2.weighted_avg_model(g0, *wt)
        adapted = near(g1, g2) and all(np.array_equal(P0[n], getattr(g0, n)) for n in NAMES[k]) and len(q1) == (4 if t['val'] else 2)
        e['same'] = all(np.array_equal(a, b) for a, b in zip(c, [x, y, soft] + ([ws] if t['w'] else [])))
        same = [not np.allclose(gram(n, P[n]), gram(n, getattr(g, n)), rtol=1e-7, atol=1e-8) for n in NAMES[k]]
        Wm = np.zeros((d, d)) if k == 'plda' else g.W
        e.update(rounds=bool(rounds), adapted=bool(adapted), lls=rl(lls), elbo=rl(elbo), flags=fl, moves=bool(t['init'] and 'ml' in t['mlmd']), changed=[bool(v) for v in same], diag=bool(k == 'plda' or t['full'] or np.abs(Wm - np.diag(np.diag(Wm))).max() < 1e-9),
                 avg=rl(avg), n4=int(w4.sum()), val=rl(val), vll=rl(vll))
    _, e['exc'] = call(f)
    return e


# ---------------------------------------------------------------- generation
A2 = [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[1, 0], [-1, 1]], [[2, 1], [1, 1]], [[0, 1], [-1, 0]], [[1, -2], [0, 1]]]
A3 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[1, 0, 0], [1, 1, 0], [-1, 1, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]
SQ = [0, 1, 4, 9, 16]


def model(rnd, kind=None):
    k = kind or rnd.choice(KINDS)
    ldl = k == 'plda' and rnd.random() < 0.5
    d = 2 if ldl else rnd.choice([1, 2, 2, 3])
    square = not ldl and rnd.random() < 0.25
    q = 2 if ldl else 1 if square else rnd.choice([1, 1, 2, 3, 4])
    bs = SQ[:4] if square else [0, 1, 2, 3, 4, 6, 9, 12]
    bn = [rnd.choice(bs) for _ in range(d)]
    if k == 'frplda':
        bn = [max(1, v) for v in bn]
    if not any(bn):
        bn[rnd.randrange(d)] = 4
    x = {'A': rnd.choice([[[1]]] if d == 1 else A2 if d == 2 else A3), 'mu': [rnd.randint(-3, 3) for _ in range(d)], 'flags': [rnd.random() < 0.5 for _ in range(4)], 'rot': rnd.choice([0, 0.7, 2.1]), 'ldl': ldl, 'u2': 0, 'd2': 1}
    un = [0] * d
    if ldl:
        x['u2'], x['d2'] = rnd.choice([-2, -1, 1, 2, 3]), rnd.choice([1, 2, 3])
        sn = [4, x['u2'] ** 2 + 2 * x['d2']]
        x['A'] = [[1, 0], [x['u2'] / 2., 1]]
    elif k == 'plda':
        x['A'] = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
        un = [rnd.choice([0, 1, 4]) for _ in range(d)]
        if not any(un):
            un[rnd.randrange(d)] = 1
        sn = [v + rnd.choice([1, 4] if square else [1, 2, 3, 5]) for v in un]
        if square:
            x['rot'] = 0
    else:
        sn = [rnd.choice([1, 4, 9] if square else [1, 2, 3, 4, 5, 8]) for _ in range(d)]
        if square:
            x['A'] = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
            x['rot'] = 0
    return {'kind': k, 'bn': bn, 'sn': sn, 'q': q, 'un': un}, x, square


def klass(rnd, d, n):
    return [[rnd.randint(-3, 3) for _ in range(d)] for _ in range(n)]


def eye(x):
    return all(v == (1 if i == j else 0) for i, row in enumerate(x['A']) for j, v in enumerate(row))


def op(rnd, m, x, k, mu):
    d = len(m['bn'])
    if k == 'stats':
        n, M, soft, scal = rnd.choice([1, 2, 3, 5, 8]), rnd.choice([1, 2, 3]), rnd.random() < 0.5, rnd.choice([1, 1, 2, 4])
        if soft:
            p = [[rnd.choice([0, 1]) for _ in range(M)] for _ in range(n)]
        else:
            ids = list(range(M))[:n] + [rnd.randrange(M) for _ in range(n - M)]
            M = max(ids) + 1
            rnd.shuffle(ids)
            p = [[1 if c == i else 0 for c in range(M)] for i in ids]
        return {'op': k, 'x': klass(rnd, d, n), 'p': p, 'w': [rnd.choice([1, 1, 2, 3]) for _ in range(n)] if rnd.random() < 0.6 else [scal] * n, 'mu': [rnd.randint(-3, 3) for _ in range(d)], 'soft': soft, 'scal': scal}
    if k == 'llr':
        me = rnd.choice(['1vs1', 'book', 'book', 'vavg', 'savg', 'vavg-lnorm'])
        how = rnd.choice(['ids', 'nvs1'] + (['stats', 'nvs1stats'] if me != 'savg' else []))
        h = 2 if me == 'book' and how == 'stats' and rnd.random() < 0.5 else 1
        top = 1 if me == '1vs1' else 3 if me.startswith('vavg') else 4
        for _ in range(50):
            c1 = [klass(rnd, d, rnd.randint(1, top)) for _ in range(rnd.choice([1, 2, 3]))]
            c2 = [klass(rnd, d, 1 if how.startswith('nvs1') else rnd.randint(1, top)) for _ in range(rnd.choice([1, 2, 3]))]
            if me != 'vavg-lnorm' or all(np.abs(mu + np.mean(c, 0) @ np.array(x['A']).T).max() > 0.1 for c in c1 + c2):
                return {'op': k, 'method': me, 'h': h, 'c1': c1, 'c2': c2, 'how': how, 'perm': rnd.choice([0, rnd.randint(1, 1000)])}
        return None
    c1 = [klass(rnd, d, rnd.randint(1, 4)) for _ in range(rnd.choice([1, 2, 3]))]
    if k == 'post':
        return {'op': k, 'c1': c1, 'h': rnd.choice([1, 1, 2])}
    if k == 'elbo':
        return {'op': k, 'c1': c1, 'w': [[rnd.choice([1, 1, 2]) for _ in c] for c in c1], 'h': rnd.choice([1, 1, 2])}
    if k == 'step':
        return {'op': k, 'c1': c1 + [klass(rnd, d, 3) for _ in range(2)], 'flags': [True] * 3 if rnd.random() < 0.4 else [rnd.random() < 0.6 for _ in range(3)], 'md': rnd.choice(['ml', 'ml+md'])}
    if k == 'sample':
        return {'op': k, 'n': rnd.choice([1, 2, 3]), 'k': rnd.choice([1, 2, 4]), 'v': rnd.choice([-2, -1, 1, 2])}
    kind = rnd.choice(KINDS)
    off = rnd.sample(sorted(OPT), rnd.choice([0, 1, 1, 2, 3, 5]))
    return {'op': 'opts', 'kind': kind, 'off': off, 'prefix': rnd.choice(['', '', 'p']), 'y': rnd.randint(2, 9), 'z': rnd.randint(2, 9)}


def fits(m):
    return max(4 * 2 * s + 16 * b for s, b in zip(m['sn'], m['bn'])) <= 600 and max(m['q'] * b for b in m['bn']) <= 700


def gen_script(rnd):
    m, x, square = model(rnd)
    m0 = m
    mu = np.array(x['mu'], dtype='float64')
    ops = []
    ks = ['llr', 'llr', 'llr', 'post', 'elbo', 'stats', 'opts'] + (['sample', 'sample'] if square else [])
    for _ in range(rnd.choice([2, 3, 4])):
        ops.append(op(rnd, m, x, rnd.choice(ks), mu))
    if (m['kind'] != 'plda' or eye(x)) and rnd.random() < 0.35:
        o = dict(m, bn=[rnd.randint(1, 6) if v else 0 for v in m['bn']], sn=[rnd.randint(2, 6) + v for v in m['un']], un=m['un'])
        ox = [rnd.randint(-3, 3) for _ in x['mu']]
        wm, wb, ww = (rnd.choice([0, 1, 2]) for _ in range(3))
        mix = lambda a, b, w: [w * j + (2 - w) * i for i, j in zip(a, b)]
        m2 = dict(m, q=2 * m['q'], bn=mix(m['bn'], o['bn'], wb), sn=mix(m['sn'], o['sn'], ww))
        # the axes of equal variances could be any: which of them are kept in U is not determined
        if fits(m2) and (m['kind'] != 'plda' or ww == 0 or len(set(m2['sn'])) == len(m2['sn'])):
            ops.append({'op': 'mix', 'o': o, 'ox': ox, 'wm': wm, 'wb': wb, 'ww': ww})
            m, mu = m2, mu + wm / 2. * (np.array(ox) - mu)
            for _ in range(2):
                ops.append(op(rnd, m, x, rnd.choice(['llr', 'llr', 'post', 'elbo']), mu))
    if m['kind'] == 'frplda' and eye(x) and rnd.random() < 0.7:
        ops.append(op(rnd, m, x, 'step', mu))
    return {'m': m0, 'x': x, 'ops': [o for o in ops if o]}


def gen_fit(rnd):
    k = rnd.choice(KINDS)
    d = rnd.choice([2, 3, 4])
    M = rnd.choice([5, 6, 8])
    return {'m': None, 'fit': {'kind': k, 'dim': d, 'M': M, 'yd': rnd.randint(1, d - 1), 'w': rnd.random() < 0.4, 'full': rnd.random() < 0.7, 'init': rnd.random() < 0.6, 'fresh': rnd.random() < 0.5, 'soft': rnd.random() < 0.4, 'mushy': rnd.random() < 0.5, 'val': rnd.random() < 0.4,
                               'flags': [True] * 4 if rnd.random() < 0.4 else [rnd.random() < 0.6 for _ in range(4)], 'mlmd': rnd.choice(['ml', 'ml+md', 'ml+md', 'md']), 'epochs': rnd.choice([2, 3, 4]), 'rounds': rnd.choice([2, 3]), 'md': rnd.randint(0, 7), 'wt': [rnd.choice([0, 0.25, 1]) for _ in range(3)], 'seed': rnd.randint(1, 10 ** 8)}}


def from_model(rnd, b):
    m = dict(b['m'])
    d = len(m['bn'])
    x = {'A': rnd.choice([[[1]]] if d == 1 else A2), 'mu': [rnd.randint(-3, 3) for _ in range(d)], 'flags': [True] * 4, 'rot': rnd.choice([0, 0.7]), 'ldl': False, 'u2': 0, 'd2': 1}
    if m['kind'] == 'plda':
        x['A'] = A2[0] if d == 2 else [[1]]
    o = {'op': 'llr', 'method': b['method'], 'h': 1, 'c1': [b['c1'], b['c1'][:1]], 'c2': [b['c2']], 'how': rnd.choice(['ids', 'stats'] if b['method'] != 'savg' else ['ids']), 'perm': rnd.randint(0, 50)}
    cs = [b['c1'], b['c2']]
    ops = [o, {'op': 'post', 'c1': cs, 'h': 1}, {'op': 'elbo', 'c1': cs, 'h': 1, 'w': [[1] * len(c) for c in cs]}]
    if m['kind'] == 'frplda' and eye(x):
        ops.append({'op': 'step', 'c1': cs, 'flags': b['flags'], 'md': 'ml'})
    return {'m': m, 'x': x, 'ops': ops}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] == 'llr' and not e['exc'] and e['method'] != 'vavg-lnorm':
            e['got'][0][0] += 200 + abs(e['got'][0][0]) // 100
            return b
        if e['op'] == 'fit' and not e['exc']:
            e['lls'][-1] -= 90 + abs(e['lls'][-1]) // 500
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Plda', cfg='MC_Plda.cfg', want=100)
    if ck.thorough:
        ms += ck.model('MC_Plda', cfg='MC_Plda_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(600, 5000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(2500, 40000))]
    scripts += [gen_fit(rnd) for _ in range(ck.pick(500, 8000))]
    behs = ck.execute('checks.p25', scripts)
    ck.judge('Trace_Plda', behs, scripts, 'checks.p25', label='PLDA', batch=4000)
    ck.negative_control('Trace_Plda', behs[-700:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P25', run)
