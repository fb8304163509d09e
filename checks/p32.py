"""P32: numerical routines of matrices, logarithms and labels."""
import random

import numpy as np
import vf
from vf import call, as_int


def ints(a, scale=1):
    """rows of integers, a number that is none is 99999"""
    a = np.asarray(a, dtype=float) * scale
    if a.ndim == 0:
        return one(a)
    return [ints(r) for r in a] if a.ndim > 1 else [one(v) for v in a]


def one(v):
    v = float(v)
    return int(round(v)) if abs(v) < 2e9 and abs(v - round(v)) < 1e-1 else 99999


def rnd1000(a):
    a = np.asarray(a, dtype=float) * 1000
    a = np.where(np.isfinite(a) & (np.abs(a) < 2e9), a, 9999999)
    return np.round(a).astype(int).tolist()


def execute(script, wd):
    evs = []
    for o in script['ops']:
        e = dict(o['e'])
        r, exc = call(globals()['do_' + e['op']], o, e)
        e['exc'] = exc
        if r:
            e.update(r)
        else:
            e['kept'] = True
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


class Kept(object):
    """arrays given to the routines, compared with copies afterwards"""

    def __init__(self, o):
        self.dt, self.order, self.l = o.get('dtype', 'float64'), o.get('order', 'C'), []

    def __call__(self, a, dtype=None):
        a = np.array(a, dtype=dtype or self.dt, order=self.order)
        self.l.append((a, a.copy()))
        return a

    def ok(self):
        return all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in self.l)


def solve(f, right, A, x, K, vec):
    """solution of A s = A x or s A = x A, as a matrix of columns (rows)"""
    rhs = np.dot(x, A) if right else np.dot(A, x)
    rhs = K(rhs[0] if right and vec else rhs[:, 0] if vec else rhs)
    s = f(rhs)
    if s.shape != rhs.shape:
        return [[9999999]]
    return rnd1000(s.reshape(x.shape))


def do_pd(o, e):
    from hyperion.utils.math import invert_pdmat, logdet_pdmat
    K = Kept(o)
    A, x = K(e['A']), np.array(e['x'], float)
    kw = {'right_inv': True} if o['right'] else {}
    kw.update({k: v for k, v in (('return_logdet', o['ld']), ('return_inv', o['inv'])) if v or not o.get('bare')})
    r = list(invert_pdmat(A, **kw))
    f, R = r[:2]
    r = r[2:]
    ld = rnd1000([r.pop(0)]) if o['ld'] else rnd1000([logdet_pdmat(A)])
    inv = ints(r.pop(0), 4 ** sum(e['k'])) if o['inv'] else []
    return {'sol': solve(f, o['right'], np.array(e['A'], float), x, K, o['vec']), 'R': ints(R), 'ld': ld, 'inv': inv, 'kept': K.ok()}


def do_tri(o, e):
    from hyperion.utils.math import invert_trimat
    K = Kept(o)
    A, x = K(e['A']), np.array(e['x'], float)
    r = invert_trimat(A, **{k: v for k, v in (('lower', o['lower']), ('right_inv', o['right']), ('return_logdet', o['ld']), ('return_inv', o['inv'])) if v or not o.get('bare')})
    r = list(r) if o['ld'] or o['inv'] else [r]
    f = r.pop(0)
    ld = rnd1000([r.pop(0)]) if o['ld'] else []
    inv = ints(r.pop(0), 2 ** sum(e['k'])) if o['inv'] else []
    return {'sol': solve(f, o['right'], np.array(e['A'], float), x, K, o['vec']), 'ld': ld, 'inv': inv, 'kept': K.ok()}


def do_soft(o, e):
    from hyperion.utils.math import softmax, logsumexp
    K = Kept(o)
    k = np.array(e['k'], float) * np.log(2.) + o['off']
    n = k.shape[1]
    ax = o['axis']
    # rows of numbers along the axis of an array of o['dim'] axes
    if o['dim'] == 1:
        a = k[0]
        back = lambda p: p.reshape(1, n)
        kw = {} if ax is None else {'axis': [0, -1][ax % 2]}
    elif o['dim'] == 2:
        a = k if ax in (None, 1, -1) else k.T
        back = lambda p: p if ax in (None, 1, -1) else p.T
        kw = {} if ax is None else {'axis': ax}
    else:
        m = k.shape[0]
        pos = 2 if ax is None else ax % 3
        a = np.moveaxis(k.reshape((m, 1, n) if o['flat'] else (m // 2, 2, n)), -1, pos)
        back = lambda p: np.moveaxis(p, pos, -1).reshape(m, n)
        kw = {} if ax is None else {'axis': ax}
    a = K(a)
    p = back(np.asarray(softmax(a, **kw)))
    l = np.asarray(logsumexp(a, **kw), dtype=float)
    if tuple(l.shape) != tuple(np.delete(np.array(a.shape), kw.get('axis', -1) % a.ndim)):
        l = np.full(k.shape[0], np.nan)
    if o['dtype'] == 'float32' and abs(o['off']) > 100:
        return {'k': e['k'], 'p': [[(1000 * 2 ** v) // sum(2 ** w for w in row) for v in row] for row in e['k']] if np.abs(p.sum(-1) - 1).max() < 1e-4 else [[-9] * n] * k.shape[0],
                'lse': [int(round(1000 * np.log(sum(2. ** w for w in row)))) if abs(v - o['off'] - np.log(sum(2. ** w for w in row))) < .01 else -9 for v, row in zip(l.reshape(-1), e['k'])], 'kept': K.ok()}
    return {'p': rnd1000(p), 'lse': rnd1000(l.reshape(-1) - o['off']), 'kept': K.ok()}


def do_sig(o, e):
    from hyperion.utils.math import sigmoid, logsigmoid, neglogsigmoid
    K = Kept(o)
    n = len(e['k'])
    x = K(np.array(e['k'] + [v / np.log(2.) for v in e['big']]) * np.log(2.))
    x2 = x.reshape(-1, o['cols']) if o['cols'] and len(x) % o['cols'] == 0 else x
    with np.errstate(all='ignore'):
        p, l, nl = [np.asarray(f(x2)) for f in (sigmoid, logsigmoid, neglogsigmoid)]
    if p.shape != x2.shape or l.shape != x2.shape or nl.shape != x2.shape:
        raise ValueError('shape')
    p, l, nl = [rnd1000(v.reshape(-1)) for v in (p, l, nl)]
    return {'p': p[:n], 'l': l[:n], 'nl': nl[:n], 'bp': p[n:], 'bl': l[n:], 'bnl': nl[n:], 'kept': K.ok()}


def do_pack(o, e):
    from hyperion.utils.math import symmat2vec, vec2symmat, trimat2vec, vec2trimat
    K = Kept(o)
    A = K(e['A'])
    lw = () if o['bare'] and not e['lower'] else (e['lower'],)
    if e['sym']:
        kw = {} if e['f'] == 2 else {'diag_factor': e['f'] / 2.}
        v = symmat2vec(A, *lw, **kw)
        kw = {} if e['g'] == 2 else {'diag_factor': e['g'] / 2.}
        b = vec2symmat(K(v), *lw, **kw)
    else:
        v = trimat2vec(A, *lw)
        b = vec2trimat(K(v), *lw)
    return {'v': ints(v), 'back': ints(b), 'kept': K.ok()}


def do_floor(o, e):
    from hyperion.utils.math import fullcov_varfloor, fullcov_varfloor_from_cholS
    K = Kept(o)
    c, q = np.array(e['c'], float), np.array(e['q'], float) / 5
    S = c.T.dot(q).dot(np.diag(np.array(e['d']) / 4.)).dot(q.T).dot(c)
    if o['scalar']:
        F = float(c[0, 0] ** 2)
        Fc = float(c[0, 0])
    else:
        F, Fc = K(c.T.dot(c)), K(c.T if o['lower'] else c)
    tri = True
    if o['how'] == 'chol':
        R = K(np.linalg.cholesky(S).T) if not o['lower'] else K(np.linalg.cholesky(S))
        X = fullcov_varfloor_from_cholS(R, Fc, **({'lower': True} if o['lower'] else {}))
        tri = bool(np.allclose(X, np.tril(X) if o['lower'] else np.triu(X)))
        X = X.dot(X.T) if o['lower'] else X.T.dot(X)
    elif o['how'] == 'F' or o['scalar']:
        X = fullcov_varfloor(K(S), F)
    else:
        X = fullcov_varfloor(K(S), Fc, F_is_chol=True, lower=o['lower'])
    return {'obs': [[int(round(v)) if np.isfinite(v) and abs(v) < 2e9 else 9999999 for v in r] for r in (X * 100).tolist()], 'tri': tri, 'kept': K.ok()}


def do_hot(o, e):
    from hyperion.utils.math import int2onehot
    K = Kept(o)
    ids = K(e['ids'], 'int64')
    y = int2onehot(ids, e['n']) if e['n'] else int2onehot(ids)
    return {'obs': ints(y), 'kept': K.ok()}


def do_fisher(o, e):
    from hyperion.utils.math import fisher_ratio, fisher_ratio_with_precs
    K = Kept(o)
    A, B, x = np.array(e['A'], float), np.array(e['B'], float), np.array(e['x'], float)
    m1 = np.array(o['m'], float)
    m2 = m1 - (A + B).dot(x) * o['sg']
    if o['prec']:
        v = fisher_ratio_with_precs(K(m1), K(np.linalg.inv(A)), K(m2), K(np.linalg.inv(B)))
    else:
        v = fisher_ratio(K(m1), K(A), K(m2), K(B))
    return {'obs': rnd1000(v), 'kept': K.ok()}


def do_list(o, e):
    from hyperion.utils.list_utils import ismember, sort, intersect, split_list, split_list_group_by_key, list2ndarray
    form = o['form']
    enc = {'s': lambda v: '%03d x' % v, 'i': lambda v: v, 'f': lambda v: v / 4.}[o['ty']]
    dec = {'s': lambda v: int(v[:3]), 'i': int, 'f': lambda v: int(v * 4)}[o['ty']]
    mk = lambda l: [enc(v) for v in l] if not form % 2 or not l else np.array([enc(v) for v in l])
    un = lambda l: [dec(v) for v in l]
    no = lambda l: [int(v) for v in l]
    a, b = mk(e['a']), mk(e['b'])
    form //= 2
    if form % 2 and e['b']:
        b = list2ndarray(b)
    keep = [list(a), list(b)]
    if e['what'] == 'in':
        f, loc = ismember(a, b)
        r = {'f': [bool(v) for v in f], 'loc': no(loc)}
    elif e['what'] == 'sort':
        kw = {k: v for k, v in (('reverse', e['rev']), ('return_index', e['ix'])) if v or form % 2}
        x = sort(a, **kw)
        r = {'obs': un(x[0] if e['ix'] else x), 'loc': no(x[1]) if e['ix'] else []}
    elif e['what'] == 'cap':
        kw = {'assume_unique': True} if o['unique'] else {}
        x = intersect(a, b, return_index=True, **kw) if e['ix'] else intersect(a, b, **kw)
        r = {'obs': un(x[0] if e['ix'] else x), 'loc': no(x[1]) if e['ix'] else [], 'loc2': no(x[2]) if e['ix'] else []}
    elif e['what'] == 'parts':
        x = [split_list(a, k + 1, o['P']) for k in range(o['P'])]
        r = {'obs': [[un(v), no(l)] for v, l in x]}
    else:
        kw = {} if e['a'] == e['b'] and form % 2 else {'key': b}
        x = [split_list_group_by_key(a, k + 1, o['P'], **kw) for k in range(o['P'])]
        r = {'obs': [[un(v), no(l)] for v, l in x]}
    return dict(r, kept=list(a) == keep[0] and list(b) == keep[1])


# ------------------------------- generation ---------------------------------
def upper(rnd, n, ks, m=2):
    return [[2 ** ks[i] if i == j else rnd.randint(-m, m) if j > i else 0 for j in range(n)] for i in range(n)]


def mats(rnd, n, right, lo=-5):
    m = rnd.randint(1, 4)
    return [[rnd.randint(lo, 5) for _ in range(n if right else m)] for _ in range(m if right else n)], m


def base(rnd):
    return {'order': rnd.choice(['C', 'F']), 'dtype': 'float64', 'bare': rnd.random() < .5}


def spd(rnd, n, ks):
    R = np.array(upper(rnd, n, ks))
    return R.T.dot(R).tolist()


def op_pd(rnd):
    n = rnd.randint(1, 4)
    ks = [rnd.randint(0, 2 if n < 3 else 1) for _ in range(n)]
    right = rnd.random() < .5
    x, m = mats(rnd, n, right)
    return dict(base(rnd), e={'op': 'pd', 'A': spd(rnd, n, ks), 'k': ks, 'x': x}, right=right, ld=rnd.random() < .5, inv=rnd.random() < .5, vec=m == 1 and rnd.random() < .6)


def op_tri(rnd):
    n = rnd.randint(1, 4)
    ks = [rnd.randint(0, 2) for _ in range(n)]
    lower, right = rnd.random() < .5, rnd.random() < .5
    A = np.array(upper(rnd, n, ks))
    x, m = mats(rnd, n, right)
    return dict(base(rnd), e={'op': 'tri', 'A': (A.T if lower else A).tolist(), 'k': ks, 'x': x}, lower=lower, right=right, ld=rnd.random() < .5, inv=rnd.random() < .5, vec=m == 1 and rnd.random() < .6)


def op_soft(rnd):
    dim = rnd.choice([1, 2, 2, 3, 3])
    m = 1 if dim == 1 else 2 * rnd.randint(1, 2) if dim == 3 else rnd.randint(1, 4)
    n = rnd.randint(1, 6)
    return dict(base(rnd), e={'op': 'soft', 'k': [[rnd.randint(0, 6) for _ in range(n)] for _ in range(m)]}, dim=dim, flat=rnd.random() < .4, axis=rnd.choice([None, 0, 1, -1, -2] + ([2, -3] if dim == 3 else [])) if dim > 1 else rnd.choice([None, 0, -1]),
                off=rnd.choice([0, 0, 1, -50, 1000, -1000, 30000]), dtype=rnd.choice(['float64', 'float64', 'float32']))


def op_sig(rnd):
    f32 = rnd.random() < .4
    big = [rnd.choice([-1, 1]) * rnd.choice([60, 80, 87, 89, 92, 99, 100, 101, 103, 150, 700, 746, 800, 1000]) for _ in range(rnd.randint(0, 5))]
    return dict(base(rnd), e={'op': 'sig', 'k': [rnd.randint(-8, 8) for _ in range(rnd.randint(1, 7))], 'big': big}, cols=rnd.choice([0, 0, 1, 2, 3]), dtype='float32' if f32 else 'float64')


def op_pack(rnd):
    n = rnd.randint(1, 5)
    A = [[2 * rnd.randint(-50, 50) for _ in range(n)] for _ in range(n)]
    sym, lower = rnd.random() < .6, rnd.random() < .5
    for i in range(n):
        for j in range(i):
            if sym:
                A[i][j] = A[j][i]
            elif lower:
                A[j][i] = 0
            else:
                A[i][j] = 0
    f, g = rnd.choice([(2, 2), (1, 4), (4, 1), (1, 2), (2, 4), (6, 2)]) if sym else (2, 2)
    return dict(base(rnd), e={'op': 'pack', 'A': A, 'lower': lower, 'sym': sym, 'f': f, 'g': g})


def op_floor(rnd, case=None):
    n = rnd.randint(1, 4)
    scalar = rnd.random() < .25
    if case and not scalar:
        c, q, d = case['c'], case['q'], case['d']
        n = 2
    else:
        if scalar:
            a = rnd.randint(1, 3)
            c = [[a if i == j else 0 for j in range(n)] for i in range(n)]
        else:
            c = [[rnd.randint(1, 3) if i == j else rnd.randint(-2, 2) if j > i else 0 for j in range(n)] for i in range(n)]
        d = [rnd.choice([1, 2, 3, 4, 5, 8, 12]) for _ in range(n)]
        Q = np.eye(n, dtype=int) * 5
        for _ in range(rnd.randint(0, 1) if n > 1 else 0):
            i, j = rnd.sample(range(n), 2)
            R = np.eye(n, dtype=int) * 5
            R[i, i], R[j, j], R[i, j], R[j, i] = 3, 3, 4, -4
            Q = R
        p = rnd.sample(range(n), n)
        q = Q[:, p].tolist()
    how = rnd.choice(['F', 'Fc', 'chol']) if min(d) > 0 else rnd.choice(['F', 'Fc'])
    if scalar and how == 'Fc':
        how = 'F'
    return dict(base(rnd), e={'op': 'floor', 'c': c, 'q': q, 'd': d}, scalar=scalar, lower=rnd.random() < .5, how=how)


def op_hot(rnd):
    ids = [rnd.randint(0, 4) for _ in range(rnd.randint(1, 8))]
    return dict(base(rnd), e={'op': 'hot', 'ids': ids, 'n': rnd.choice([0, max(ids) + 1, max(ids) + rnd.randint(1, 3)])})


def op_fisher(rnd):
    n = rnd.randint(1, 3)
    return dict(base(rnd), e={'op': 'fisher', 'A': spd(rnd, n, [rnd.randint(0, 1) for _ in range(n)]), 'B': spd(rnd, n, [rnd.randint(0, 1) for _ in range(n)]), 'x': [rnd.randint(-3, 3) for _ in range(n)]},
                m=[rnd.randint(-9, 9) for _ in range(n)], sg=rnd.choice([1, -1]), prec=rnd.random() < .4)


def op_list(rnd):
    what = rnd.choice(['in', 'sort', 'cap', 'parts', 'keys'])
    m = rnd.choice([3, 12])
    a = [rnd.randint(0, m) for _ in range(rnd.randint(0 if what in ('in', 'cap') else 1, 9))]
    b = [rnd.randint(0, m) for _ in range(rnd.randint(0, 9))]
    unique = what == 'cap' and rnd.random() < .4
    if unique:
        a, b = rnd.sample(range(m + 1), rnd.randint(0, min(6, m))), rnd.sample(range(m + 1), rnd.randint(0, min(6, m)))
    ty = rnd.choice(['s', 's', 'i', 'f'])
    if what == 'keys':
        b = list(a) if rnd.random() < .4 else [rnd.randint(0, m) for _ in a]
    if what == 'cap' and (not a or not b):
        a, b = a or [m], b or [m]
    return {'e': {'op': 'list', 'what': what, 'a': a, 'b': b, 'rev': rnd.random() < .5, 'ix': rnd.random() < .6}, 'ty': ty, 'form': rnd.randint(0, 7), 'P': rnd.randint(1, 5), 'unique': unique}


OPS = [op_list, op_list, op_list, op_pd, op_pd, op_tri, op_tri, op_soft, op_soft, op_sig, op_pack, op_pack, op_floor, op_floor, op_hot, op_fisher]


def gen_script(rnd):
    return {'ops': [rnd.choice(OPS)(rnd) for _ in range(rnd.randint(1, 4))]}


def from_model(rnd, m):
    return {'ops': [op_floor(rnd, m) for _ in range(2)]}


def corrupt(b):
    for e in b['ev']:
        if e['exc']:
            continue
        if e['op'] in ('pd', 'tri'):
            e['sol'][0][0] += 500
            return b
        if e['op'] == 'floor':
            e['obs'][0][0] += 3
            return b
        if e['op'] == 'pack':
            e['v'][0] += 1
            return b
        if e['op'] == 'soft':
            e['lse'][0] += 20
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Numeric', cfg='MC_Numeric.cfg', want=200)
    if ck.thorough:
        ms += ck.model('MC_Numeric', cfg='MC_Numeric_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(500, 4000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(3000, 30000))]
    behs = ck.execute('checks.p32', scripts)
    ck.judge('Trace_Numeric', behs, scripts, 'checks.p32', label='routines', batch=1500)
    ck.negative_control('Trace_Numeric', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P32', run)
