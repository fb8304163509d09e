"""P27: transforms learned from data."""
import copy
import os
import random

import numpy as np
import scipy.linalg
import vf
from vf import call
from checks.p26 import tool, World

BIG = 99999
_eigh = scipy.linalg.eigh


def eigh(a, b=None, *args, **k):
    """LAPACK here gives zeros for some matrices of single precision; those are solved in double precision"""
    r = _eigh(a, b, *args, **k)
    if isinstance(r, tuple) and not np.any(r[1]):
        d, V = _eigh(np.asarray(a, dtype='float64'), b if b is None else np.asarray(b, dtype='float64'), *args, **k)
        return d.astype(r[0].dtype), V.astype(r[1].dtype)
    return r


scipy.linalg.eigh = eigh
ROT = {1: [([[1]], 1), ([[-1]], 1)],
       2: [([[1, 0], [0, 1]], 1), ([[0, -1], [1, 0]], 1), ([[3, 4], [-4, 3]], 5), ([[4, -3], [3, 4]], 5), ([[5, 12], [12, -5]], 13)],
       3: [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1), ([[0, 0, 1], [-1, 0, 0], [0, 1, 0]], 1), ([[3, 0, 4], [0, 5, 0], [-4, 0, 3]], 5),
           ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3), ([[2, 3, 6], [3, -6, 2], [6, 2, -3]], 7)]}
ANY = {1: [[2]], 2: [[[2, 1], [0, 1]], [[1, -3], [2, 1]], [[1, 0], [5, 2]]],
       3: [[[1, 2, 0], [0, 1, -1], [0, 0, 3]], [[2, 0, 1], [1, 1, 0], [-1, 2, 1]]]}
TOOLS = {'mvn': 'train-mvn', 'cw': 'train-cw', 'lnorm': 'train-cw', 'pca': 'train-pca', 'lda': 'train-lda', 'cwup': 'train-cw-up', 'lnormup': 'train-cw-up', 'gauss': 'train-gaussianizer', 'nda': 'train-nda'}


def r100(v, s=100):
    v = np.asarray(v, dtype='float64') * s
    return [[int(round(x)) if np.isfinite(x) and abs(x) < 2e9 else BIG * 10000 for x in r] for r in np.atleast_2d(v)]


class Frame(object):
    """where the coordinates of a register lie in the space of the vectors"""

    def __init__(self, fr):
        self.R, self.den = np.array(fr['R'], dtype='float64'), float(fr['den'])
        self.g = fr['g']
        self.A = self.g * self.R / self.den
        self.zo = np.array(fr['zo'], dtype='float64')

    def x(self, z):
        return np.dot(np.array(z, dtype='float64').reshape(-1, len(self.zo)) + self.zo, self.A)

    def inv(self):
        return np.linalg.inv(self.A)


def cls_of(kind):
    import hyperion.transforms as T
    return {'mvn': T.MVN, 'cw': T.CentWhiten, 'lnorm': T.LNorm, 'pca': T.PCA, 'lda': T.LDA, 'nda': T.NDA, 'nap': T.NAP, 'cwup': T.CentWhitenUP, 'lnormup': T.LNormUP, 'gauss': T.Gaussianizer}[kind]


class Reg(object):
    def __init__(self, o):
        self.o, t = o, o['e']['t']
        self.kind, self.k = t['kind'], t['k']
        self.f = Frame(o['fr'])
        self.pre = None
        kw = {'name': 'a_' + self.kind} if o['named'] else {}
        p = {}
        if o['init'] and self.kind != 'nap':
            m = None if o['mu0'] else self.f.x([t['m']])[0]
            if self.kind == 'mvn':
                p = {'mu': m, 's': self.f.g * np.sqrt(np.array(t['q'], dtype='float64') / t['s0'])}
            else:
                s = np.ones(len(t['q'])) if self.kind == 'pca' else np.sqrt(t['s0'] / np.array(t['q'], dtype='float64'))
                T = (self.f.inv() * (self.f.g if self.kind == 'pca' else 1.) * s)[:, [a - 1 for a in t['ord']]]
                if t['k'] > 0:
                    T = T[:, :t['k']]
                p = {'mu': m, 'T': T * np.array(t['sg'][:T.shape[1]])}
        if self.kind in ('cw', 'lnorm', 'cwup', 'lnormup', 'pca', 'lda'):
            p.update(update_mu=t['umu'], update_T=t['uT'])
        if self.kind == 'pca' and t['k'] > 0:
            p['pca_dim'] = t['k']
        if self.kind == 'lda' and t['k'] > 0:
            p['lda_dim'] = t['k']
        p.update(kw)
        self.model = cls_of(self.kind)(**p)

    def vec(self, z, v=None):
        x = self.f.x(z)
        if self.kind in ('cwup', 'lnormup'):
            x = np.hstack((x, np.array(v, dtype='float64').reshape(x.shape) * self.f.g ** 2))
        return x


def execute(script, wd):
    w = World(script['style'], os.path.join(wd, ''))
    regs, evs = [], []
    for o in script['ops']:
        e = copy.deepcopy(o['e'])
        e['exc'], e['same'] = '', True
        r, exc = call(globals()['do_' + e['op']], w, regs, o, copy.deepcopy(e))
        e['exc'] = exc
        if not exc:
            e.update(r)
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


def do_new(w, regs, o, e):
    regs.append(Reg(o))
    return {}


def held(*a):
    """arguments and what they were"""
    a = [v for v in a if v is not None]
    c = [v.copy() for v in a]
    return lambda: all(u.shape == v.shape and np.array_equal(u, v) for u, v in zip(a, c))


def labels(o, cls):
    k = o['lab']
    names = [lambda c: c, lambda c: 7 * c + 3, lambda c: -c, lambda c: 's%d' % (c * 37 % 101)][k]
    return np.array([names(c) for c in cls])


def run_tool(w, kind, o, x, cls=None, old=None, extra=()):
    """train with the command line and give what it saved"""
    from hyperion.transforms import TransformList, MVN
    from hyperion.io import DataWriterFactory as DWF
    n, D = x.shape
    p = w.path('')
    spec = 'h5:%s.h5' % p if o['vec'] == 'h5' else 'ark,scp:%s.ark,%s.scp' % (p, p)
    order = list(range(n))
    random.Random(o['seed']).shuffle(order)
    with DWF.create(spec) as wr:
        wr.write([w.name(1000)], [np.full(D, 77., dtype='float32')])
        for i in order:
            wr.write([w.name(i)], [x[i].astype('float64' if o['dbl'] else 'float32')])
    rows = [(w.name(i), w.name(2000 + (cls[i] if cls is not None else i % 3))) for i in range(n)]
    argv = ['--iv-file', {'h5': 'h5:%s.h5', 'scp': 'scp:%s.scp'}[o['vec']] % p, '--train-list', w.lines(rows)]
    pre = None
    if o['pre']:
        pre = TransformList([MVN(mu=np.arange(1., D + 1.), s=np.ones(D), name='first')])
        argv += ['--preproc-file', w.path('.h5')]
        pre.save(argv[-1])
    out = w.path('.h5')
    argv += ['--output-path', out, '-v', '1'] + list(extra)
    if not o['append']:
        argv += ['--no-append-tlist']
    if not o['tlist']:
        argv += ['--no-save-tlist']
    if old is not None:
        argv += ['--input-path', w.path('.h5')]
        (TransformList([MVN(mu=np.zeros(D), name='other'), copy.deepcopy(old)]) if o['inlist'] else old).save(argv[-1])
    tool(TOOLS[kind], argv)
    m = TransformList.load(out) if o['tlist'] else cls_of(kind).load(out)
    if pre is not None and not (o['tlist'] and o['append']):
        return lambda v: m.predict(pre.predict(v)), m
    return m.predict, m


def rnd_case(k, v):
    s = [str(v), str(v).lower(), 'yes' if v else 'no', 't' if v else 'f']
    return s[k % 4]


def do_fit(w, regs, o, e):
    g = regs[e['r'] - 1]
    kind, t = g.kind, g.model
    g.pred = None
    x = g.vec(e['z'], o['v'])
    wt = np.array(e['w'], dtype='float64') * o['wscale']
    z, D = np.array(e['z'], dtype='float64'), g.f.A.shape[0]
    cls = np.array(e['cls'])
    if o['how'] == 'tool':
        extra = []
        first = not o['old']
        nm = t.name if t.name is not None else None
        if nm is not None and kind not in ():
            extra += ['--name', nm]
        if kind in ('lnorm', 'lnormup', 'cw', 'cwup') and kind in ('cw', 'cwup'):
            extra += ['--no-lnorm']
        if first and kind == 'pca' and g.k > 0:
            extra += ['--pca-dim', g.k]
        if kind == 'lda' and g.k > 0:
            extra += ['--lda-dim', g.k]
        if first and o['flags'] and kind in ('cw', 'lnorm', 'pca', 'cwup', 'lnormup'):
            extra += ['--update-mu', rnd_case(o['seed'], g.o['e']['t']['umu']), '--update-t', rnd_case(o['seed'] + 1, True)]
        elif first and not g.o['e']['t']['umu']:
            extra += ['--update-mu', 'false']
        y, m = run_tool(w, kind, o, x, e['cls'] if kind == 'lda' else None, t if o['old'] else None, extra)
        g.pred = y
        return {'same': True}
    if o['how'] == 'stats':
        if kind in ('lda', 'nda'):
            cs = sorted(set(e['cls']))
            ms = np.array([z[cls == c].mean(0) for c in cs])
            mu = ms.mean(0)
            Sw = np.mean([np.dot((z[cls == c] - z[cls == c].mean(0)).T, z[cls == c] - z[cls == c].mean(0)) / np.sum(cls == c) for c in cs], axis=0)
            Sb = np.dot((ms - mu).T, ms - mu) / len(cs)
            a = [g.f.x([mu])[0], g.f.A.T.dot(Sb).dot(g.f.A), g.f.A.T.dot(Sw).dot(g.f.A)]
            chk = held(*a)
            if kind == 'lda':
                t.fit(None, None, mu=a[0], Sb=a[1], Sw=a[2])
            else:
                t.fit(*a, **({'nda_dim': g.k} if g.k > 0 else {}))
        else:
            mu = (wt[:, None] * z).sum(0) / wt.sum()
            C = np.dot((z - mu).T * wt, z - mu) / wt.sum()
            a = [g.f.x([mu])[0], g.f.A.T.dot(C).dot(g.f.A)]
            chk = held(*a)
            t.fit(mu=a[0], C=a[1])
        return {'same': chk()}
    if kind in ('lda', 'nap'):
        y = labels(o, e['cls'])
        chk = held(x, y)
        if kind == 'lda':
            t.fit(x, y)
        else:
            t.fit(x, g.k, y)
    elif kind == 'mvn':
        chk = held(x)
        t.fit(x)
    elif len(set(e['w'])) == 1 and o['wscale'] == 1:
        chk = held(x)
        t.fit(x)
    else:
        chk = held(x, wt)
        t.fit(x, sample_weight=wt)
    return {'same': chk()}


def do_predict(w, regs, o, e):
    g = regs[e['r'] - 1]
    x = g.vec(e['z'], o['v'])
    chk = held(x)
    if o['file'] and getattr(g, 'pred', None) is None:
        from hyperion.hyp_model import HypModel
        p = w.path('.h5')
        g.model.save(p)
        g.model = type(g.model).load(p)
    y = (getattr(g, 'pred', None) or g.model.predict)(x)
    same = chk()
    if g.kind == 'pca':
        y = y / g.f.g
    if g.kind == 'nap':
        y = np.dot(y, g.f.inv())
    r = {'same': same}
    if g.kind in ('cwup', 'lnormup'):
        d = y.shape[1] // 2
        r['y'], r['yv'] = r100(y[:, :d]), r100(y[:, d:])
    else:
        r['y'] = r100(y)
    return r


def do_sbsw(w, regs, o, e):
    from hyperion.transforms import SbSw
    x, y = np.array(e['x'], dtype=o['dtype']), labels(o, e['cls'])
    chk = held(x, y)
    if o['parts']:
        st = []
        for p in o['parts']:
            i = np.isin(np.array(e['cls']), p)
            s = SbSw()
            s.fit(x[i], y[i], normalize=False)
            if o['file']:
                f = w.path('.h5')
                s.save(f)
                s = SbSw.load(f)
            st.append(s)
        s = SbSw.accum_stats(st)
        s.normalize()
    else:
        s = SbSw()
        s.fit(x, y)
    return {'M': int(s.num_classes), 'mu': r100(s.mu, 1000)[0], 'Sw': r100(s.Sw, 1000), 'Sb': r100(s.Sb, 1000), 'same': chk()}


def do_nsbsw(w, regs, o, e):
    from hyperion.transforms import NSbSw
    x, y = np.array(e['x'], dtype='float64'), np.array(e['cls'])
    chk = held(x, y)
    s = NSbSw(K=e['K'], alpha=e['al'])
    s.fit(x, y)
    return {'mu': r100(s.mu, 1000)[0], 'Sw': r100(s.Sw), 'Sb': r100(s.Sb), 'same': chk()}


def do_agree(w, regs, o, e):
    """NDA of the command line and of the library with the same vectors"""
    from hyperion.transforms import NDA, NSbSw
    x, y = np.array(e['x'], dtype='float64'), np.array(e['cls'])
    extra = ['--k', e['K'], '--alpha', e['al'], '--name', 'n']
    if o['k'] > 0:
        extra += ['--nda-dim', o['k']]
    f, m = run_tool(w, 'nda', o, x, e['cls'], None, extra)
    s = NSbSw(K=e['K'], alpha=e['al'])
    s.fit(x, y)
    n = NDA()
    n.fit(s.mu, s.Sb, s.Sw, nda_dim=o['k'] if o['k'] > 0 else None)
    z = np.array(e['z'], dtype='float64')
    a, b = f(z), n.predict(z)
    sg = np.sign((a * b).sum(0))
    import scipy.linalg as la
    d = la.eigh(s.Sb, s.Sw)[0]
    gap = bool(len(d) < 2 or np.min(np.diff(d)) > .05 * d[-1])
    return {'gap': gap, 'y': r100(a * sg), 'ref': r100(b), 'dim': o['k'] if o['k'] > 0 else x.shape[1]}


def do_gauss(w, regs, o, e):
    from scipy.stats import norm
    from hyperion.transforms import Gaussianizer
    x, z = np.array(e['x'], dtype=o['dtype']) / (o['scale'] if o['dtype'] != 'int64' else 1), np.array(e['z'], dtype=o['dtype']) / (o['scale'] if o['dtype'] != 'int64' else 1)
    if o['dtype'] == 'int64':
        x, z = x.astype('int64'), z.astype('int64')
    chk = held(x, z)
    n = len(x) if e['mx'] == 0 else min(len(x), e['mx'])
    if o['how'] == 'tool':
        extra = [] if e['mx'] == 0 else ['--max-vectors', e['mx']]
        old = None
        if o['old']:
            old = Gaussianizer(max_vectors=e['mx'] or None, name='gauss', r=np.zeros((2, x.shape[1])))
        f, m = run_tool(w, 'gauss', o, x.astype('float64'), None, old, extra)
        y = f(z.astype('float64'))
    else:
        t = Gaussianizer(**({'max_vectors': e['mx']} if e['mx'] else {}))
        t.fit(x)
        if o['file']:
            p = w.path('.h5')
            t.save(p)
            t = Gaussianizer.load(p)
        y = t.predict(z)
    return {'p': r100(norm.cdf(np.asarray(y, dtype='float64')) * (n + 2), 1000), 'same': chk()}


# ------------------------------- generation ---------------------------------
HAD = {1: [[1], [-1]], 2: [[1, 1], [1, -1], [-1, 1], [-1, -1]], 3: [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]}
UP = ('cwup', 'lnormup')


def block(rnd, D, s):
    H = [r[:] for r in HAD[D]]
    fl = [rnd.choice([-1, 1]) for _ in range(D)]
    pm = rnd.sample(range(D), D)
    return [[fl[a] * r[pm[a]] * s[a] for a in range(D)] for r in H]


def shift(rows, c):
    return [[v + c[a] for a, v in enumerate(r)] for r in rows]


def scales(rnd, D, hi):
    return rnd.sample(range(1, hi + 1), D)


def design(rnd, kind, D):
    """rows, weights, classes"""
    if kind in ('lda', 'nda', 'nap'):
        M = {1: rnd.choice([2, 4]), 2: rnd.choice([2, 4]), 3: 4}[D]
        c0 = [rnd.randint(-3, 3) for _ in range(D)]
        t = scales(rnd, D, 4)
        ms = block(rnd, D, t) if M == 4 and D > 1 else ([[t[0]] + [0] * (D - 1), [-t[0]] + [0] * (D - 1)] if M == 2 else [[t[0]], [-t[0]], [2 * t[0]], [-2 * t[0]]])
        z, cls = [], []
        for c, m in enumerate(ms):
            n = rnd.choice([0, 1, 1, 2]) if c else 1
            if n == 0:
                rows = [[0] * D]
            else:
                rows = sum([block(rnd, D, scales(rnd, D, 3)) for _ in range(n)], [])
            z += shift(shift(rows, m), c0)
            cls += [c + 1] * len(rows)
        return z, [1] * len(z), cls
    if kind == 'mvn':
        while True:
            n = rnd.choice([2, 3, 4, 5])
            z = [[rnd.randint(-6, 6) for _ in range(D)] for _ in range(n)]
            z[-1] = [z[-1][a] - sum(r[a] for r in z) % n for a in range(D)]
            if all(len({r[a] for r in z}) > 1 for a in range(D)):
                return z, [1] * n, [0] * n
    c = [rnd.randint(-4, 4) for _ in range(D)]
    z, w = [], []
    wt = kind in ('cw', 'cwup', 'lnorm', 'lnormup', 'pca') and rnd.random() < .4
    small = kind in ('lnorm', 'lnormup') and D == 3
    if D == 2 and kind in ('cw', 'cwup', 'pca') and rnd.random() < .2:
        # much wider along one axis
        sc = [rnd.choice([1, 2]), rnd.choice([22, 45]) if kind != 'pca' else 20]
        rnd.shuffle(sc)
        b = block(rnd, D, sc)
        return shift(b, c), [1] * len(b), [0] * len(b)
    for _ in range(rnd.choice([1, 1, 2]) if not small else 1):
        b = block(rnd, D, scales(rnd, D, 3 if small else 4))
        z += b
        w += [rnd.choice([1, 2, 3]) if wt else 1] * len(b)
    for _ in range(rnd.choice([0, 1, 2]) + (1 if D == 1 or len(z) <= D else 0)):
        z.append([0] * D)
        w.append(rnd.choice([1, 2]) if wt else 1)
    return shift(z, c), w, [0] * len(z)


def stats(kind, z, w, cls):
    z, w = np.array(z), np.array(w)
    D = z.shape[1]
    if kind in ('lda', 'nda', 'nap'):
        cs = sorted(set(cls))
        cl = np.array(cls)
        ms = np.array([z[cl == c].mean(0) for c in cs])
        q = np.sum([((z[cl == c] - z[cl == c].mean(0)) ** 2).sum(0) * 8 / np.sum(cl == c) for c in cs], axis=0)
        b = ((ms - ms.mean(0)) ** 2).sum(0)
        r = q if kind == 'nap' else b / np.maximum(q, 1e-9)
        return ms.mean(0), q, 8 * len(cs), r
    m = (z * w[:, None]).sum(0) / w.sum()
    q = (w[:, None] * (z - m) ** 2).sum(0)
    return m, q, int(w.sum()), q if kind != 'mvn' else np.arange(D, 0, -1)


def fine(kind, z, w, cls):
    m, q, s0, r = stats(kind, z, w, cls)
    if np.any(q <= 0) or np.any(q != np.round(q)) or np.any(m != np.round(m)):
        return False
    return kind == 'mvn' or len(set(np.round(r, 9))) == len(r)


def okpred(kind, st, z):
    """whether the numbers of a prediction stay within what is judged"""
    m, q, s0 = [np.array(v) for v in st[:3]]
    d = np.abs(np.array(z) - m).max(0)
    D = len(q)
    if kind in ('lnorm', 'lnormup'):
        return sum(d[a] ** 2 * np.prod(np.delete(q, a)) for a in range(D)) < 2e7
    if kind in ('pca', 'nap'):
        return d.max() <= 23
    y = 100 * d * np.sqrt(s0 / q)
    return y.max() < 2300 and (y * q).max() < 8e5 and (s0 * d * d).max() < 2e5


def frame(rnd, kind, D):
    if kind == 'mvn':
        R, den = ROT[D][0]
    elif kind in ('lda', 'nda') and D > 1 and rnd.random() < .6:
        R, den = rnd.choice(ANY[D]), 1
    else:
        R, den = rnd.choice(ROT[D] if kind != 'lnormup' or D < 3 else ROT[D][:2])
    return {'R': R, 'den': den, 'g': rnd.choice([1, 1, .25, 4, 1.5]) if kind not in UP else rnd.choice([1, .5, 2]), 'zo': [rnd.choice([0, 0, 3, -2]) for _ in range(D)]}


def gen_life(rnd, kind, r, D=None):
    for _ in range(1000):
        D1 = D or rnd.choice([1, 2, 2, 3])
        ops = life(rnd, kind, r, D1)
        if ops is not None:
            return ops
    raise AssertionError(kind)


def topts(rnd):
    return {'vec': rnd.choice(['h5', 'scp']), 'seed': rnd.randint(0, 99), 'dbl': False, 'pre': rnd.random() < .5, 'append': rnd.random() < .6, 'tlist': rnd.random() < .7, 'inlist': rnd.random() < .5}


def life(rnd, kind, r, D, force=None):
    fr = frame(rnd, kind, D)
    k = 0
    if kind in ('pca', 'lda', 'nda') and rnd.random() < .6:
        k = rnd.randint(1, D)
    if kind == 'nap':
        k = rnd.randint(1, D)
    init = kind in ('cw', 'lnorm', 'pca', 'lda', 'cwup', 'lnormup', 'mvn') and rnd.random() < .4
    if force:
        k, init = force['k'], force['ini']
    umu = uT = True
    mu0 = False
    cur = None
    t = {'kind': kind, 'k': k, 'umu': True, 'uT': True, 'm': [0] * D, 'q': [1] * D, 's0': 1, 'ord': list(range(1, D + 1)), 'sg': [0] * D}
    if init:
        if kind != 'mvn':
            umu, uT = (force['umu'], force['uT']) if force else rnd.choice([(True, True), (False, True), (True, False), (False, False)])
        mu0 = rnd.random() < .3
        t['m'] = [-v for v in fr['zo']] if mu0 else [rnd.randint(-3, 3) for _ in range(D)]
        if kind == 'pca':
            t['q'], t['s0'] = [1] * D, 1
        else:
            t['q'], t['s0'] = [rnd.choice([4, 9, 12, 16]) for _ in range(D)], rnd.choice([1, 4, 8])
        t['ord'] = list(range(1, D + 1)) if kind == 'mvn' else rnd.sample(range(1, D + 1), D)
        t['sg'] = [1] * D if kind == 'mvn' else [rnd.choice([1, -1]) for _ in range(D)]
        t['umu'], t['uT'] = umu, uT
        cur = [np.array(t['m']), np.array(t['q']), t['s0']]
    elif kind in ('cw', 'lnorm', 'pca', 'lda', 'cwup', 'lnormup') and (rnd.random() < .2 if not force else not force['umu']):
        # never centred
        umu = t['umu'] = False
        t['m'] = [-v for v in fr['zo']]
        cur = [np.array(t['m']), None, None]
    if kind == 'mvn':
        t['sg'] = [1] * D
    ops = [{'e': {'op': 'new', 'kind': kind, 't': t}, 'fr': fr, 'init': init, 'mu0': mu0, 'named': rnd.random() < .6}]
    named = ops[0]['named']

    def pred(z=None):
        z2 = [rnd.choice(z) for _ in range(rnd.randint(0, 3))] if z else []
        z2 += [[int(cur[0][a]) + rnd.randint(-4, 4) for a in range(D)] for _ in range(rnd.randint(1, 3))]
        c = [int(v) for v in cur[0]]
        if rnd.random() < .3:
            z2.append(c)
        if kind in ('lnorm', 'lnormup'):
            # the centre has no direction
            z2 = [v if v != c else [v[0] + 1] + v[1:] for v in z2]
        rnd.shuffle(z2)
        if not okpred(kind, cur, z2):
            return None
        e = {'op': 'predict', 'kind': kind, 'r': r, 'z': z2}
        v = [[rnd.choice([1, 2, 4, 9]) for _ in range(D)] for _ in z2]
        if kind == 'nap':
            e['zoff'] = [100 * v for v in fr['zo']]
        if kind in UP:
            e.update(v=v, R=fr['R'], den=fr['den'])
        return {'e': e, 'v': v, 'file': rnd.random() < .25}
    if init and rnd.random() < .5:
        p = pred()
        if p is None:
            return None
        ops.append(p)
    if init and k > 0 and kind in ('pca', 'lda') and rnd.random() < 0:
        return None
    tooled = False
    for n in range(len(force['fits']) if force else rnd.choice([1, 1, 2])):
        z, w, cls = from_design(kind, force['fits'][n]) if force else design(rnd, kind, D)
        if not fine(kind, z, w, cls):
            return None
        st = stats(kind, z, w, cls)
        if cur is None:
            cur = [st[0], st[1], st[2]]
        else:
            cur = [st[0] if umu else cur[0], st[1] if uT else cur[1], st[2] if uT else cur[2]]
        how = ['data', 'stats'] if kind in ('cw', 'lnorm', 'pca', 'lda') else ['stats'] if kind == 'nda' else ['data']
        isw = len(set(w)) > 1
        one = all(v == 1 for v in w)
        if kind in TOOLS and kind != 'nda' and one and (D > 1 or kind not in ('lnorm', 'lnormup')) and rnd.random() < .45:
            old = kind in ('cw', 'lnorm', 'pca', 'cwup', 'lnormup') and (init or n > 0)
            if (named if old else n == 0 and not init and (umu or kind != 'lda')):
                how = ['tool']
        h = rnd.choice(how)
        idx = list(range(len(z)))
        rnd.shuffle(idx)
        z, w, cls = [z[i] for i in idx], [w[i] for i in idx], [cls[i] for i in idx]
        o = {'e': {'op': 'fit', 'kind': kind, 'r': r, 'z': z, 'w': w, 'cls': cls}, 'how': h, 'wscale': rnd.choice([1, .5, 3]) if not one else 1, 'lab': rnd.randint(0, 3),
             'v': [[rnd.choice([1, 2, 4]) for _ in range(D)] for _ in z], 'flags': rnd.random() < .5}
        if h == 'tool':
            o.update(topts(rnd))
            o['old'] = n > 0 or init
            if not umu:
                o['pre'] = False
            if kind in UP or o['old']:
                o['pre'] = False
        if k > 0 and kind == 'lda' and init:
            pass
        ops.append(o)
        p = pred(z)
        if p is None:
            return None
        ops.append(p)
        if h == 'tool':
            break
    return ops


def op_sbsw(rnd):
    D, M = rnd.choice([1, 2, 3]), rnd.choice([1, 2, 3, 4])
    x, cls = [], []
    for c in range(1, M + 1):
        for _ in range(rnd.choice([1, 2, 3, 4])):
            x.append([rnd.randint(-9, 9) for _ in range(D)])
            cls.append(c)
    i = rnd.sample(range(len(x)), len(x))
    parts = []
    if rnd.random() < .6:
        cs = rnd.sample(range(1, M + 1), M)
        k = rnd.randint(0, M - 1)
        parts = [q for q in (cs[:k], cs[k:]) if q]
        if rnd.random() < .3:
            parts = [[c] for c in cs]
    return {'e': {'op': 'sbsw', 'kind': 'sbsw', 'x': [x[j] for j in i], 'cls': [cls[j] for j in i]}, 'parts': parts, 'lab': rnd.randint(0, 3), 'dtype': rnd.choice(['float64', 'float64', 'int64']), 'file': rnd.random() < .3}


def noties(x, cls, K):
    for l in x:
        for c in set(cls):
            d = sorted(sum((a - b) ** 2 for a, b in zip(x[i], l)) for i in range(len(x)) if cls[i] == c)
            if len(d) < K or (len(d) > K and d[K - 1] == d[K]):
                return False
    return True


def near(rnd, tries=400):
    D, M = rnd.choice([1, 2, 2, 3]), rnd.choice([2, 2, 3])
    for _ in range(tries):
        K = rnd.choice([2, 2, 3])
        x, cls = [], []
        for c in range(M):
            for _ in range(rnd.choice([K, K + 1, K + 1])):
                x.append([rnd.randint(-6, 6) for _ in range(D)])
                cls.append(c)
        if len({tuple(v) for v in x}) == len(x) and noties(x, cls, K):
            i = rnd.sample(range(len(x)), len(x))
            return [x[j] for j in i], [cls[j] for j in i], K
    return near(rnd)


def op_nsbsw(rnd):
    x, cls, K = near(rnd)
    return {'e': {'op': 'nsbsw', 'kind': 'nsbsw', 'x': x, 'cls': cls, 'K': K, 'al': rnd.choice([0, 2])}}


def op_agree(rnd):
    while True:
        x, cls, K = near(rnd)
        # the classes of the list are numbered in the order of their names
        D = len(x[0])
        xs, c = np.array(x, dtype='float64'), np.array(cls)
        w = sum(np.cov(xs[c == i].T, bias=True).reshape(D, D) for i in set(cls))
        if np.linalg.matrix_rank(w) == D and np.linalg.cond(w) < 100:
            break
    k = rnd.choice([0] + list(range(1, D + 1)))
    o = {'e': {'op': 'agree', 'kind': 'nda', 'x': x, 'cls': cls, 'K': K, 'al': rnd.choice([0, 1, 2]), 'z': [[rnd.randint(-4, 4) for _ in range(D)] for _ in range(3)]}, 'k': k}
    o.update(topts(rnd))
    return o


def op_gauss(rnd):
    D, n = rnd.choice([1, 2, 3]), rnd.choice([2, 3, 5, 8, 12, 19])
    x = [[rnd.randint(-9, 9) for _ in range(D)] for _ in range(n)]
    z = [[rnd.randint(-10, 10) for _ in range(D)] for _ in range(3)] + [rnd.choice(x)]
    o = {'e': {'op': 'gauss', 'kind': 'gauss', 'x': x, 'z': z, 'mx': rnd.choice([0, 0, 2, 3, 4, 6, 10, 20])}, 'dtype': rnd.choice(['float64', 'float64', 'float32', 'int64']), 'scale': rnd.choice([1., 4., .5]), 'how': rnd.choice(['data', 'data', 'tool']), 'file': rnd.random() < .3, 'old': rnd.random() < .3}
    o.update(topts(rnd))
    return o


def from_design(kind, d):
    H = [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    if kind in ('lda', 'nda', 'nap'):
        ms = [(d['c'] + d['b'], 0), (d['c'] - d['b'], 0)] if d['x'] == 0 else [(d['c'] + d['b'] * p, (d['x'] + d['b']) * q) for p, q in H]
        z = [[m[0] + d['a'] * p, m[1] + d['b'] * q] for m in ms for p, q in H]
        return z, [1] * len(z), [i // 4 + 1 for i in range(len(z))]
    z = [[d['c'] + d['a'] * p, d['b'] * q - d['c']] for p, q in H] + [[d['c'], -d['c']]] * d['x']
    return z, [d['w']] * 4 + [1] * d['x'], [0] * len(z)


def from_model(rnd, c):
    for _ in range(200):
        ops = life(rnd, c['kind'], 1, 2, c)
        if ops is not None:
            return {'style': rnd.randint(0, 3), 'ops': ops}
    return None


KINDS = ['mvn', 'cw', 'cw', 'lnorm', 'lnorm', 'pca', 'pca', 'lda', 'lda', 'nda', 'nap', 'cwup', 'lnormup']


def gen_script(rnd):
    ops = []
    r = 0
    for _ in range(rnd.choice([1, 2, 2, 3])):
        if rnd.random() < .3:
            ops.append(rnd.choice([op_sbsw, op_nsbsw, op_gauss, op_gauss, op_agree])(rnd))
        else:
            r += 1
            ops += gen_life(rnd, rnd.choice(KINDS), r)
    return {'style': rnd.randint(0, 3), 'ops': ops}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc']:
            continue
        if e['op'] == 'predict':
            e['y'][0][0] += 40
            return b
        if e['op'] == 'gauss':
            e['p'][0][0] += 1000 * (len(e['x']) + 1)
            return b
        if e['op'] == 'sbsw':
            e['Sw'][0][0] += 30
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Transf', cfg='MC_Transf.cfg', want=200)
    if ck.thorough:
        ms += ck.model('MC_Transf', cfg='MC_Transf_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [s for s in (from_model(rnd, m) for m in ms[:ck.pick(500, 4000)]) if s is not None]
    scripts += [gen_script(rnd) for _ in range(ck.pick(2000, 25000))]
    behs = ck.execute('checks.p27', scripts)
    ck.judge('Trace_Transf', behs, scripts, 'checks.p27', label='learned transforms', batch=3000)
    ck.negative_control('Trace_Transf', behs[-600:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P27', run)
