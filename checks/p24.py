"""P24: Gaussians and mixtures trained by expectation-maximisation."""
import random
from fractions import Fraction

import numpy as np
import vf
from vf import call

CEN = {1: -200, 2: 200, 3: 400}
KINDS = ['gmm', 'diag', 'tied', 'normal', 'normaldiag']
LIM = 2 * 10 ** 9


def classes():
    from hyperion.pdfs import GMM, GMMDiagCov, GMMTiedDiagCov, Normal, NormalDiagCov
    return {'gmm': GMM, 'diag': GMMDiagCov, 'tied': GMMTiedDiagCov, 'normal': Normal, 'normaldiag': NormalDiagCov}


def r(v):
    v = float(v)
    return int(round(v)) if np.isfinite(v) and abs(v) < LIM else -77777777


def ri(v, s):
    """an exact number of units"""
    v = float(v) * s
    return int(round(v)) if np.isfinite(v) and abs(v) < 1e9 and abs(v - round(v)) < 1e-3 else -77777777


def rl(a, s=1000):
    return [r(v * s) for v in np.ravel(a)]


def full(k):
    return k in ('gmm', 'normal')


def single(k):
    return k.startswith('normal')


def make(m):
    k, d = m['kind'], m['dim']
    mu = np.array([[CEN[c] + o / 10000. for o in q] for c, q in zip(m['cl'], m['mu'])], dtype='float64')
    Lam = np.array(m['Lam'], dtype='float64')
    if not full(k):
        Lam = np.array([np.diag(L) for L in Lam])
    kw = dict(x_dim=d, update_mu=m['um'], update_Lambda=m['ul'], var_floor=m['fl'][0] / m['fl'][1])
    if k == 'tied':
        Lam = Lam[0]
    if single(k):
        return classes()[k](mu=mu[0], Lambda=Lam[0], **kw)
    return classes()[k](mu=mu, Lambda=Lam, pi=np.array(m['p'], dtype='float64') / sum(m['p']), min_N=m['mn'] / 10., update_pi=m['up'], **kw)


def flat(S, d):
    return [S[0, 0]] if d == 1 else [S[0, 0], S[0, 1], S[1, 1]]


def params(g, m, K=None):
    k, d = m['kind'], m['dim']
    K = K or len(m['cl'])
    mu, S = np.asarray(g.mu), np.asarray(1 / g.Lambda if not full(k) else np.linalg.inv(g.Lambda))
    if single(k):
        mu, S = mu[None], S[None]
    if k == 'tied':
        S = np.repeat(np.atleast_2d(S), K, axis=0)
    V = [[r(10000 * v) for v in (flat(S[i], d) if full(k) else S[i])] for i in range(K)]
    # the covariance it tells
    T = np.asarray(g.Sigma)
    T = np.repeat(np.atleast_2d(T), K, axis=0) if k == 'tied' else T[None] if single(k) else T
    if not np.allclose(T, S, rtol=1e-6):
        V = [[-1] * len(v) for v in V]
    cl = [c for c in m['cl'] for _ in range(K // len(m['cl']))]
    return {'pi': [] if single(k) else [r(10000 * v) for v in g.pi], 'mu': [[r(10000 * (mu[i, j] - CEN[cl[i]])) for j in range(d)] for i in range(K)], 'V': V}


def stats_rows(m, N, u):
    """statistics as offsets to the centres of the clusters"""
    from hyperion.utils.math import vec2symmat
    d, k = m['dim'], m['kind']
    N, u = np.atleast_1d(N), np.atleast_2d(u)
    out = []
    for i, c in enumerate(m['cl']):
        n, F = float(N[i]), u[i, :d]
        if full(k):
            S = vec2symmat(u[i, d:])
            a = np.full(d, float(CEN[c]))
            S = S - np.outer(F, a) - np.outer(a, F) + n * np.outer(a, a)
            s = flat(S, d)
        else:
            s = u[i, d:] - 2 * CEN[c] * F + n * CEN[c] ** 2
        out.append({'n': ri(n, 60), 'f': [ri(v, 60) for v in F - n * CEN[c]], 's': [ri(v, 60) for v in s]})
    return out


def points(m, x):
    return np.array([[CEN[p['c']] + v for v in p['d']] for p in x], dtype='float64')


def execute(script, wd):
    m = script['m']
    if 'soft' in script:
        return {'init': 0, 'ev': [soft(script['soft'])]}
    g, exc = call(make, m)
    evs = [{'op': 'new', 'm': m, 'exc': exc}]
    for o in script['ops']:
        if exc:
            break
        x = points(m, o['x'])
        w = np.array(o['w'], dtype='float64') if o['uw'] else None
        e = {'op': o['op'], 'x': o['x'], 'w': o['w'], 'exc': ''}
        bs = o['bs'] or None
        keep = [x.copy(), None if w is None else w.copy()]
        ux = None
        if o['ux'] and o['op'] in ('stats', 'prob'):
            ux = g.compute_suff_stats(x)
            keep.append(ux.copy())
        f = {'stats': do_stats, 'norm': do_norm, 'fit': do_fit, 'prob': do_prob, 'split': do_split}[o['op']]
        q, exc = call(f, g, m, o, e, x, w, ux, bs)
        e['same'] = bool(np.array_equal(x, keep[0]) and (w is None or np.array_equal(w, keep[1])) and (ux is None or np.array_equal(ux, keep[2])))
        e['exc'] = exc
        if not exc:
            e.update(q)
        else:
            e.setdefault('mode', '')
        evs.append(e)
    return {'init': 0, 'ev': evs}


def do_stats(g, m, o, e, x, w, ux, bs):
    q = {k: o[k] for k in ('mode', 'segs', 'prob', 'len', 'shift')}
    e['mode'] = o['mode']
    if o['mode'] == 'all':
        if o['parts'] and len(x) > 1:
            n = len(x) // 2
            s = [g.accum_suff_stats(x[:n], sample_weight=None if w is None else w[:n]), g.accum_suff_stats(x[n:], sample_weight=None if w is None else w[n:], batch_size=bs)]
            b = [np.copy(a) for t in s for a in t]
            N, u = (g.add_suff_stats if single(m['kind']) else g.sum_suff_stats)([a[0] for a in s], [a[1] for a in s])
            if not all(np.array_equal(a, c) for a, c in zip(b, [a for t in s for a in t])):
                N = N * np.nan
        else:
            N, u = (g.Estep if o['est'] else g.accum_suff_stats)(x, ux, w, bs)
        N, u = [N], [u]
    elif o['mode'] == 'segments':
        N, u = g.accum_suff_stats_segments(x, np.array(o['segs']) if o['est'] else o['segs'], ux, w, bs)
    elif o['mode'] == 'prob':
        N, u = g.accum_suff_stats_segments_prob(x, np.array(o['prob'], dtype='float64'), ux, w, bs)
    else:
        N, u = g.accum_suff_stats_sorttime(x, o['len'], o['shift'], ux, w, bs)
    q['st'] = [stats_rows(m, a, b) for a, b in zip(N, u)]
    return q


def do_norm(g, m, o, e, x, w, ux, bs):
    from hyperion.utils.math import vec2symmat
    d = m['dim']
    N, u = g.accum_suff_stats(x, sample_weight=w)
    b = np.copy(u)
    N1, F1 = g.norm_suff_stats(N, u)
    N2, FS = g.norm_suff_stats(N, u, return_order2=True)
    F1, FS = np.atleast_2d(F1), np.atleast_2d(FS)
    if not np.array_equal(b, u) or not np.allclose(F1, FS[:, :d]) or not np.allclose(N1, N2):
        F1 = F1 * np.nan
    return {'f2': [ri(np.sum(v ** 2), 3600) for v in F1], 'tr': [ri(np.trace(vec2symmat(v[d:])) if full(m['kind']) else np.sum(v[d:]), 60) for v in FS]}


def do_fit(g, m, o, e, x, w, ux, bs):
    before = rl(g.log_prob(x))
    kw = {} if single(m['kind']) else {'epochs': o['epochs']}
    xv = points(m, o['vx']) if o['vx'] else None
    q = g.fit(x, sample_weight=w, x_val=xv, batch_size=bs, **kw)
    at = np.atleast_1d
    p = params(g, m)
    return dict(p, epochs=o['epochs'], elbo=rl(at(q[0])), avg=rl(at(q[1])), val=[] if xv is None else [rl(at(q[2]))[-1], rl(at(q[3]))[-1]], vx=o['vx'] or [], vlp=[] if xv is None else rl(g.log_prob(xv)),
                before=before, after=rl(g.log_prob(x)))


def do_prob(g, m, o, e, x, w, ux, bs):
    nat = g.log_prob(x, ux)
    kw = {'sample_weight': w}
    if w is None and o['est']:
        kw['batch_size'] = bs
    q = {'nat': rl(nat), 'std': rl(g.log_prob(x, None, 'std')), 'elbo': r(1000 * g.elbo(x, **kw)), 'pz': [], 'best': [], 'one': [], 'which': 1}
    if not single(m['kind']):
        wh = o['which'] % len(m['cl'])
        pz = g.compute_pz(x, ux) if o['est'] else g.compute_pz(x, mode='std')
        q.update(pz=[[r(10000 * v) for v in z] for z in pz], which=wh + 1, best=rl(np.exp(g.log_prob_nbest(x, ux, nbest=1) - nat), 10000), one=rl(np.exp(g.log_prob_nbest(x, ux, nbest_mode='ubm', nbest=[wh]) - nat), 10000))
    return q


def do_split(g, m, o, e, x, w, ux, bs):
    b = params(g, m)
    s = g.split_comp()
    q = params(s, m, 2 * len(m['cl']))
    if params(g, m) != b or s.num_comp != 2 * g.num_comp or type(s) is not type(g):
        q['pi'] = []
    return dict(q, flags=[bool(s.update_mu), bool(s.update_Lambda), bool(s.update_pi), r(10 * s.min_N)])


def soft(t):
    """any data: relations between what training returns"""
    R = np.random.RandomState(t['seed'])
    k, d, K, n = t['kind'], t['dim'], t['K'], t['n']
    e = {'op': 'soft', 'kind': k, 'exc': '', 'same': True}

    def f():
        C = classes()
        x = np.round(16 * (R.randn(n, d) * R.uniform(0.5, 2, d) + 3 * R.randn(3, d)[R.randint(3, size=n)])) / 16
        w = R.randint(1, 4, n).astype('float64') if t['w'] else None
        ww = np.ones(n) if w is None else w
        x0, w0 = x.copy(), None if w is None else w.copy()
        if single(k):
            g = C[k](x_dim=d, mu=np.zeros(d), Lambda=np.eye(d) if full(k) else np.ones(d), var_floor=1e-9)
        else:
            L = np.eye(d) if full(k) else np.ones(d)
            pi = R.uniform(0.2, 1, K)
            g = C[k](x_dim=d, mu=x[R.choice(n, K, replace=False)] + R.randn(K, d) / 8, Lambda=L if k == 'tied' else np.array([L * R.uniform(0.3, 2) for _ in range(K)]), pi=pi / pi.sum(), var_floor=1e-9)
        lls, elbo, obj = [], [], []
        ll = lambda: float(np.sum(ww * g.log_prob(x)))
        lls.append(ll())
        for i in range(t['epochs']):
            if not single(k):
                z = g.compute_pz(x)
                obj.append(lls[-1] + float(np.sum(ww[:, None] * z * np.log(z + 1e-300))))
                elbo.append(float(g.fit(x, sample_weight=w, epochs=1, batch_size=t['bs'])[0][0]))
            else:
                g.fit(x, sample_weight=w, batch_size=t['bs'])
            lls.append(ll())
            if single(k):
                obj.append(lls[-1])
                elbo.append(float(g.elbo(x, sample_weight=w)))
        N, u = g.accum_suff_stats(x, sample_weight=w)
        Nb, ub = g.accum_suff_stats(x, sample_weight=w, batch_size=t['bs'])
        second = np.array([np.sum(ww * x[:, i] * x[:, j]) for i in range(d) for j in range(d) if (i == j or full(k) and i < j)])
        mu, S = np.atleast_2d(g.mu), np.asarray(g.Sigma)
        if single(k):
            S = S[None]
        if k == 'tied':
            S = np.repeat(np.atleast_2d(S), len(mu), axis=0)
        if not full(k):
            S = np.array([np.diag(v) for v in S])
        pi = np.ones(1) if single(k) else np.asarray(g.pi)
        u2 = np.atleast_2d(u).sum(0)
        M1, M2 = pi @ mu, sum(p * (s + np.outer(v, v)) for p, s, v in zip(pi, S, mu))
        mom = np.hstack((np.sum(ww[:, None] * x, 0) / ww.sum(), [np.sum(ww * x[:, i] * x[:, j]) / ww.sum() for i in range(d) for j in range(d) if i == j or full(k)]))
        mod = np.hstack((M1, [M2[i, j] for i in range(d) for j in range(d) if i == j or full(k)]))
        e.update(same=bool(np.array_equal(x, x0) and (w is None or np.array_equal(w, w0))), lls=rl(lls), elbo=rl(elbo), obj=rl(obj),
                 tot=rl(np.hstack((ww.sum(), np.sum(ww[:, None] * x, 0), sorted(second)))), got=rl(np.hstack((np.sum(N), u2[:d], sorted(u2[d:])))),
                 batched=rl(np.hstack((np.ravel(Nb), np.ravel(ub)))), whole=rl(np.hstack((np.ravel(N), np.ravel(u)))),
                 pz=[] if single(k) else [[r(10000 * v) for v in z] for z in g.compute_pz(x[:6])], moment=rl(mom), model=rl(mod), nat=rl(g.log_prob(x)), std=rl(g.log_prob(x, None, 'std')))
    _, e['exc'] = call(f)
    return e


# ---------------------------------------------------------------- generation
PS = [[1], [1], [1, 1], [1, 2], [3, 1], [2, 3], [1, 1, 1], [1, 1, 2], [3, 2, 1], [5, 1], [1, 4]]
LAMS = {1: [[[1]], [[1]], [[2]], [[4]], [[5]]], 2: [[[1, 0], [0, 1]], [[2, 1], [1, 1]], [[1, 0], [0, 2]], [[4, 0], [0, 1]], [[2, -1], [-1, 1]], [[5, 2], [2, 1]]]}


def inv(L):
    if len(L) == 1:
        return [[Fraction(1, L[0][0])]]
    D = L[0][0] * L[1][1] - L[0][1] * L[1][0]
    return [[Fraction(L[1][1], D), Fraction(-L[0][1], D)], [Fraction(-L[1][0], D), Fraction(L[0][0], D)]]


def model(rnd, kind=None):
    k = kind or rnd.choice(KINDS + KINDS[:3])
    d = rnd.choice([1, 2])
    cs = sorted(rnd.sample([1, 2, 3], 1 if single(k) else rnd.choice([1, 2, 2, 3])))
    tied = rnd.choice(LAMS[d])
    rows = []
    for c in cs:
        L, mu = tied if k == 'tied' else rnd.choice(LAMS[d]), [rnd.choice([-1, 0, 0, 1]) * 10000 for _ in range(d)]
        if not full(k) and d == 2 and L[0][1]:
            L = [[L[0][0], 0], [0, L[1][1]]]
        for p in ([1] if single(k) else rnd.choice(PS)):
            rows.append((c, p, mu, L))
    rnd.shuffle(rows)
    um, ul, up = (True, True, True) if rnd.random() < 0.5 else [rnd.random() < 0.6 for _ in range(3)]
    if single(k):
        up = True
    fl = [1, rnd.choice([2, 4, 10, 20])] if not full(k) or d == 1 else [1, 1000000]
    if k == 'normaldiag':
        fl = [1, rnd.choice([2, 10, 1000])]
    mn = rnd.choice([0, 0, 3, 11, 13, 27]) if k in ('diag', 'tied') and um and ul and up else 0
    tp = sum(q[1] for q in rows)
    V = []
    for q in rows:
        S = inv(q[3]) if full(k) else [[Fraction(1, q[3][i][i]) if i == j else 0 for j in range(d)] for i in range(d)]
        V.append([int(10000 * v) for v in (flat2(S) if full(k) else [S[i][i] for i in range(d)])])
    return {'kind': k, 'dim': d, 'cl': [q[0] for q in rows], 'p': [q[1] for q in rows], 'pi': [10000 * q[1] // tp for q in rows], 'mu': [q[2] for q in rows], 'V': V, 'um': um, 'ul': ul, 'up': up, 'fl': fl, 'mn': mn,
            'Lam': [q[3] for q in rows]}


def flat2(S):
    return [S[0][0]] if len(S) == 1 else [S[0][0], S[0][1], S[1][1]]


def samples(rnd, m, n, span=3):
    cs = sorted(set(m['cl']))
    x = [{'c': rnd.choice(cs), 'd': [rnd.randint(-span, span) for _ in range(m['dim'])]} for _ in range(n)]
    return x


def fit_ok(m, p, x, w):
    """every cluster keeps data and components; variances can be estimated; p: current component weights.  Returns the new p"""
    full2 = full(m['kind']) and m['dim'] == 2
    tot, raw = {}, []
    for c in set(m['cl']):
        X = np.array([q['d'] for q in x if q['c'] == c], dtype='float64')
        if len(X) == 0:
            return None
        W = np.array([v for q, v in zip(x, w) if q['c'] == c], dtype='float64')
        tot[c] = W.sum()
        mu = (W[:, None] * X).sum(0) / W.sum()
        S = (X - mu).T @ (W[:, None] * (X - mu)) / W.sum()
        if full2 and np.linalg.eigvalsh(S)[0] < 0.1:
            return None
        if m['kind'] == 'normal' and S[0, 0] < 0.02:
            return None
        raw.append(np.diag(S))
    if m['kind'] != 'normaldiag' and not full2 and np.max(raw, axis=0).min() < 0.3:
        return None
    P = {c: sum(q for q, k in zip(p, m['cl']) if k == c) for c in set(m['cl'])}
    keep = [10 * 60 * tot[c] * q // P[c] >= m['mn'] * 60 for q, c in zip(p, m['cl'])]
    for c in set(m['cl']):
        if not any(k and q for k, q, cc in zip(keep, p, m['cl']) if cc == c):
            return None
    return [q if k else 0 for q, k in zip(p, keep)]


def op(rnd, m, k, p):
    n = rnd.choice([1, 2, 3, 4, 5, 6, 8, 12])
    x = samples(rnd, m, n)
    w = [rnd.choice([1, 1, 2, 3]) for _ in range(n)]
    uw = rnd.random() < 0.6
    if not uw:
        w = [1] * n
    o = {'op': k, 'x': x, 'w': w, 'uw': uw, 'bs': rnd.choice([0, 0, 1, 2, 3, 5, 100]), 'ux': rnd.random() < 0.3, 'est': rnd.random() < 0.5, 'which': rnd.randint(0, 8)}
    if k == 'stats':
        mode = 'all' if single(m['kind']) else rnd.choice(['all', 'all', 'segments', 'prob', 'sorttime'])
        S = rnd.choice([1, 2, 3])
        segs = []
        for _ in range(S):
            a = rnd.randrange(n)
            segs.append([a, rnd.randint(a, n - 1)])
        ln = rnd.randint(1, n)
        o.update(mode=mode, segs=segs, prob=[[rnd.choice([0, 1, 1, 2]) for _ in range(S)] for _ in range(n)], len=ln, shift=rnd.randint(1, ln + 1), parts=rnd.random() < 0.3)
        if mode == 'sorttime' and o['bs'] and o['bs'] < ln:
            o['bs'] = ln
    if k == 'fit':
        for _ in range(40):
            ep = 1 if single(m['kind']) else rnd.choice([1, 1, 2, 3])
            q, ok = p, True
            for _ in range(ep):
                q = fit_ok(m, q, x, w)
                if q is None:
                    ok = False
                    break
            if ok:
                break
            n = rnd.choice([4, 6, 8, 12])
            x = samples(rnd, m, n)
            w = [rnd.choice([1, 1, 2, 3]) if uw else 1 for _ in range(n)]
        else:
            return None, p
        o.update(x=x, w=w, epochs=ep, vx=samples(rnd, m, rnd.choice([1, 3])) if rnd.random() < 0.4 else None)
        return o, q
    return o, p


def gen_script(rnd, m=None):
    m = m or model(rnd)
    ops, p, fitted = [], list(m['p']), False
    for _ in range(rnd.choice([2, 3, 4, 5])):
        k = rnd.choice(['stats', 'stats', 'fit', 'fit', 'prob'] + ([] if fitted else ['norm']) + ([] if single(m['kind']) else ['split']))
        o, p = op(rnd, m, k, p)
        if o is None:
            continue
        ops.append(o)
        fitted = fitted or k == 'fit'
    return {'m': m, 'ops': ops}


def gen_soft(rnd):
    K = rnd.choice([1, 2, 3])
    return {'m': None, 'soft': {'kind': rnd.choice(KINDS + KINDS[:3]), 'dim': rnd.choice([1, 2, 3]), 'K': K, 'n': rnd.choice([30, 40, 55]), 'w': rnd.random() < 0.5, 'bs': rnd.choice([1, 7, 16, 30, 1000]), 'epochs': rnd.choice([2, 4, 6]),
                                'seed': rnd.randint(1, 10 ** 8)}}


def from_model(rnd, b):
    m = dict(b['m'])
    k, n = m['kind'], len(b['x'])
    m['Lam'] = [[[1]]] * 3
    x = b['x']
    o = {'op': 'fit', 'x': x, 'w': b['w'], 'uw': True, 'bs': rnd.choice([0, 1, 2]), 'ux': False, 'est': True, 'which': 0, 'epochs': rnd.choice([1, 2]), 'vx': None}
    q = m['p']
    for _ in range(o['epochs']):
        q = q and fit_ok(m, q, x, b['w'])
    st = dict(o, op='stats', mode='all', segs=[[0, 0]], prob=[[1]] * n, len=1, shift=1, parts=rnd.random() < 0.5, epochs=0)
    return {'m': m, 'ops': [st] + ([o, dict(st, op='prob')] if q else [])}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] == 'fit' and not e['exc']:
            e['mu'][0][0] += 60
            return b
        if e['op'] == 'soft' and not e['exc']:
            e['whole'][0] += 90
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Em', cfg='MC_Em.cfg', want=100)
    if ck.thorough:
        ms += ck.model('MC_Em', cfg='MC_Em_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(600, 5000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(2500, 40000))]
    scripts += [gen_soft(rnd) for _ in range(ck.pick(500, 8000))]
    behs = ck.execute('checks.p24', scripts)
    ck.judge('Trace_Em', behs, scripts, 'checks.p24', label='EM', batch=4000)
    ck.negative_control('Trace_Em', behs[-700:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P24', run)
