"""P23: saved models and chains of transforms."""
import inspect
import json
import os
import random

import numpy as np
import vf
from vf import call

FLAGS = {'um': True, 'ut': True, 'diag': False}
TOY = ['MVN', 'PCA', 'LDA', 'NDA', 'NAP', 'CentWhiten']
FIT = ['PCA', 'LDA', 'NDA', 'NAP', 'CentWhiten', 'LNorm', 'Gaussianizer', 'MVN']
BIG = ['CentWhitenUP', 'LNormUP', 'LinearGBE', 'LinearSVMC', 'LogisticRegression', 'BinaryLogisticRegression', 'GaussCalibration', 'Normal', 'NormalDiagCov',
       'GMM', 'GMMDiagCov', 'GMMTiedDiagCov', 'FRPLDA', 'SPLDA', 'PLDA', 'KMeans', 'SbSw', 'NSbSw']
LOADER = {'NormalDiagCov', 'Normal', 'GMMDiagCov', 'GMMTiedDiagCov', 'GMM', 'FRPLDA', 'SPLDA', 'PLDA', 'CentWhiten', 'CentWhitenUP', 'LNorm', 'LNormUP', 'PCA', 'LDA', 'NDA', 'NAP', 'SbSw', 'MVN', 'Gaussianizer', 'TransformList'}


def classes():
    import hyperion.transforms as T
    import hyperion.pdfs as P
    from hyperion.transforms.sb_sw import NSbSw
    from hyperion.pipeline.pipeline import Pipeline
    from hyperion.clustering.kmeans import KMeans
    from hyperion.calibration.gauss_calibration import GaussCalibration
    from hyperion.classifiers.linear_gbe import LinearGBE
    from hyperion.classifiers.linear_svmc import LinearSVMC
    from hyperion.classifiers.logistic_regression import LogisticRegression
    from hyperion.classifiers.binary_logistic_regression import BinaryLogisticRegression
    c = {n: v for m in (T, P) for n, v in vars(m).items() if isinstance(v, type)}
    c.update({n: v for n, v in locals().items() if isinstance(v, type)})
    return c


def data(seed):
    r = np.random.RandomState(seed)
    y = np.repeat(np.arange(5), 6)
    return np.round(8 * (r.randn(30, 3) + 2 * r.randn(5, 3)[y])) / 8, y


OPT = {'PCA': ['update_mu', 'update_T'], 'LDA': ['update_mu', 'update_T'], 'CentWhiten': ['update_mu', 'update_T'], 'LNorm': ['update_mu', 'update_T'], 'CentWhitenUP': ['update_mu', 'update_T'],
       'LNormUP': ['update_mu', 'update_T'], 'Gaussianizer': [('max_vectors', 7)], 'LinearGBE': ['update_mu', 'update_W', 'balance_class_weight', ('prior_beta', 2.), ('prior_nu', 3.), ('post_beta', 2.)],
       'LinearSVMC': ['balance_class_weight'], 'GaussCalibration': [('prior', 0.25)],
       'Normal': ['update_mu', 'update_Lambda', ('var_floor', 0.5)], 'NormalDiagCov': ['update_mu', 'update_Lambda', ('var_floor', 0.5)], 'GMM': ['update_mu', 'update_Lambda', 'update_pi', ('var_floor', 0.5), ('min_N', 2)],
       'FRPLDA': ['fullcov_W', 'update_mu', 'update_B', 'update_W'], 'SPLDA': ['fullcov_W', 'update_mu', 'update_V', 'update_W'], 'PLDA': ['update_mu', 'update_V', 'update_U', 'update_D', ('floor_iD', 0.5)],
       'KMeans': [('rtol', 0.5)], 'NSbSw': [('K', 5), ('alpha', 2)]}
OPT['GMMDiagCov'] = OPT['GMMTiedDiagCov'] = OPT['GMM']


def settings(m):
    """the simple constructor arguments of a model, as it remembers them"""
    s = {}
    for k in type(m).__mro__:
        if '__init__' in vars(k):
            for a in inspect.signature(k.__init__).parameters:
                v = getattr(m, a, None)
                if a not in ('transforms', 'nu', 'mu1', 'mu2', 'sigma2', 'lambda_reg') and (v is None or isinstance(v, (bool, int, float, str, np.integer, np.floating))):
                    s[a] = v if v is None or isinstance(v, str) else float(v)
    return [s] + [settings(k) for k in getattr(m, 'transforms', [])]


def fitted(C, t, name):
    m = fitted0(C, t, name)
    r = random.Random(t['fit'])
    for o in OPT.get(t['cls'], []):
        if r.random() < 0.4:
            k, v = (o, False) if isinstance(o, str) else o
            if hasattr(m, k):
                setattr(m, k, v)
    return m


def fitted0(C, t, name):
    """a fitted model; fit: seed, which also picks options"""
    c, s = t['cls'], t['fit']
    x, y = data(s % 7)
    kw = {'name': name}
    if c in ('PCA', 'LDA', 'CentWhiten'):
        kw.update(update_mu=s % 3 != 0)
        if c == 'LDA' or c == 'PCA' and s % 2:
            kw[c.lower() + '_dim'] = 2 if s % 4 == 3 else 3
    if c in ('CentWhitenUP', 'LNormUP'):
        return C[c](mu=x.mean(0), T=np.round(4 * np.linalg.cholesky(np.cov(x.T))) / 4, **kw)
    if c in ('LogisticRegression', 'BinaryLogisticRegression', 'LinearSVMC', 'LinearGBE', 'GaussCalibration'):
        if c in ('LogisticRegression', 'BinaryLogisticRegression', 'LinearSVMC') and s % 2:
            kw.update(bias_scaling=4.) if c != 'LinearSVMC' else kw.update(C=0.5)
        if c == 'LinearGBE' and s % 2:
            kw.update(update_W=True, do_map=s % 4 > 1, update_mu=True)
        if c == 'GaussCalibration' and s % 2:
            kw.update(prior=0.2)
        m = C[c](**kw)
        y2 = (y > 2).astype(int) if c in ('BinaryLogisticRegression', 'GaussCalibration') else y
        m.fit(x[:, 0] if c[0] == 'G' else x, y2)
        return m
    if c in ('Normal', 'NormalDiagCov'):
        m = C[c](x_dim=3, **kw)
        m.fit(x=x)
        return m
    if c.startswith('GMM'):
        m = C[c](num_comp=2 if c == 'GMMTiedDiagCov' else 1 + s % 2, x_dim=3, **kw)
        m.fit(x=x, epochs=1 + s % 3)
        return m
    if c in ('FRPLDA', 'SPLDA', 'PLDA'):
        m = C[c](**dict(kw, **({} if c == 'FRPLDA' else {'y_dim': 2} if c == 'SPLDA' else {'y_dim': 2, 'z_dim': 1})))
        m.fit(x, y, epochs=1 + s % 2)
        return m
    if c == 'KMeans':
        m = C[c](3, **kw)
        m.fit(x)
        return m
    if c == 'NSbSw':
        m = C[c](K=3, **kw)
        m.fit(x, y)
        return m
    if c == 'NDA':
        q = C['SbSw']()
        q.fit(x, y)
        m = C[c](**kw)
        m.fit(q.mu, q.Sb, q.Sw, 2 + s % 2)
        return m
    m = C[c](**kw)
    if c == 'LNorm' and s % 4 == 0:
        return m                        # length normalization only
    if c in ('LDA', 'SbSw'):
        m.fit(x, y)
    elif c == 'NAP':
        m.fit(x, 1, y)
    else:
        m.fit(x)
    return m


def build(C, t):
    name = None if t['name'] == '~' else t['name']
    if t['cls'] in ('TransformList', 'Pipeline'):
        k = [build(C, q) for q in t['kids']]
        return C[t['cls']](k[0] if len(k) == 1 and t['flags']['um'] is False else k, name=name)
    if t['fit']:
        return fitted(C, t, name)
    c = t['cls']
    mu = np.array(t['mu'], dtype='float64') if t['mu'] else None
    T = np.array(t['T'], dtype='float64') if t['T'] else None
    if c == 'NAP':
        return C[c](U=T, name=name)
    if c == 'MVN':
        return C[c](mu=mu, s=None if T is None else 1 / T[0], name=name)
    if t['flags']['diag']:
        T = T[0]
    kw = {} if c == 'NDA' else {'update_mu': t['flags']['um'], 'update_T': t['flags']['ut']}
    return C[c](mu=mu, T=T, name=name, **kw)


def predict(m, c, x):
    if c in ('SbSw', 'NSbSw'):
        return np.hstack([np.ravel(v) for v in (m.Sb, m.Sw, m.mu, m.num_classes)])
    if c == 'GaussCalibration':
        return m.predict(x[:, 0])
    if c in ('CentWhitenUP', 'LNormUP'):
        return m.predict(np.hstack((x, np.abs(x) + 1)))
    if 'Normal' in c or c.startswith('GMM'):
        return np.hstack((m.log_prob(x), m.log_prob(x, None, 'std')))
    if 'PLDA' in c:
        return m.llr_1vs1(x, x[::-1] + 1)
    if c == 'KMeans':
        i, s = m.predict(x)
        return i
    return m.predict(x)


def names(m):
    n = lambda v: '~' if v is None else v
    return [n(m.name)] + [n(k.name) for k in getattr(m, 'transforms', [])]


def leaf(m, k):
    L = []

    def f(q):
        if hasattr(q, 'transforms'):
            for i in q.transforms:
                f(i)
        else:
            L.append(q)
    f(m)
    return L[k - 1]


def borrows(m):
    """members of one name that write different parameters: loaded, one would take what it has not from the other, which is nobody's promise"""
    def leaves(m):
        return [x for k in m.transforms for x in leaves(k)] if hasattr(m, 'transforms') else [m]
    L = [(x.name, {p for p in ('mu', 'T', 's', 'U') if getattr(x, p, None) is not None}) for x in leaves(m)]
    return any(a[0] == b[0] and not a[1] & b[1] for i, a in enumerate(L) for b in L[:i])


def execute(script, wd):
    C = classes()
    ML = __import__('hyperion.model_loader', fromlist=['ModelLoader']).ModelLoader
    HM = C['PCA'].__mro__[1]
    cwd = os.getcwd()
    os.chdir(wd)
    evs, H, cfgs, outs = [], {}, {}, []

    def cfg(m):
        return cfgs.setdefault(m if isinstance(m, str) else json.dumps(json.loads(m.to_json()), sort_keys=True), len(cfgs))

    def obj(e, m, exc):
        e.update(exc=exc, cls='', names=[], cfg=0, sets=0)
        if not exc:
            H[e['o']] = m
            q, exc = call(lambda: (type(m).__name__, names(m), cfg(m), cfg(json.dumps(settings(m), sort_keys=True))))
            if exc:
                e.update(exc='config: ' + exc)
            else:
                e.update(cls=q[0], names=q[1], cfg=q[2], sets=q[3])
    try:
        for o in script['ops']:
            e = {'op': o['op'], 'exc': ''}
            k = o['op']
            if k == 'new':
                e.update(o=o['o'], t=o['t'])
                m, exc = call(build, C, o['t'])
                obj(e, m, exc)
            elif k == 'copy':
                e.update(o=o['o'], **{'from': o['from']})
                m, exc = call(lambda: H[o['from']].copy())
                obj(e, m, exc)
            elif k == 'append':
                e.update(o=o['o'], t=o['t'])

                def f():
                    H[o['o']].append(build(C, o['t']))
                    return H[o['o']]
                m, exc = call(f)
                obj(e, m, exc)
            elif k == 'shift':
                def f():
                    leaf(H[o['o']], o['k']).mu[0] += o['d']
                e.update(o=o['o'], k=o['k'], d=o['d'])
                _, e['exc'] = call(f)
            elif k == 'save':
                if borrows(H[o['o']]):
                    break
                e.update(o=o['o'], p=o['p'])
                _, e['exc'] = call(lambda: H[o['o']].save(o['p']))
            elif k == 'load':
                e.update(o=o['o'], p=o['p'])
                if o['p'] not in o['known']:
                    continue
                m, exc = call(lambda: ML.load(o['p']) if o['loader'] and o['cls'] in LOADER else C[o['cls']].load(o['p']))
                obj(e, m, exc)
            elif k == 'config':
                e.update(p=o['p'], cfg=-1)
                m, e['exc'] = call(lambda: HM.load_config(o['p']))
                if not e['exc']:
                    e['cfg'] = cfg(json.dumps(m, sort_keys=True))
            else:
                x = np.array(o['x'], dtype=o.get('dtype', 'float64'))
                b = x.copy()
                y, exc = call(predict, H[o['o']], type(H[o['o']]).__name__, x)
                e.update(o=o['o'], x=o['x'], exc=exc, same=bool(np.array_equal(b, x)), y=[], id=-1)
                if not exc:
                    y = np.asarray(y)
                    if o['exact']:
                        e['y'] = [[int(v) if v == int(v) else -99999 for v in r] for r in np.atleast_2d(y)] if np.all(np.isfinite(y)) and np.all(np.abs(y) < 1e9) else [[-99999]]
                    else:
                        for i, q in enumerate(outs):
                            if q.shape == y.shape and np.allclose(q, y, rtol=3e-4, atol=3e-4):
                                e['id'] = i
                                break
                        else:
                            e['id'] = len(outs)
                            outs.append(y)
            evs.append(e)
            if e['exc'] and k != 'save':
                break
    finally:
        os.chdir(cwd)
    return {'init': 0, 'ev': evs}


# ---------------------------------------------------------------- generation
def toy(rnd, din, dout, name, c=None):
    c = c or rnd.choice(TOY)
    if din != dout and c in ('MVN', 'NAP'):
        c = rnd.choice(['PCA', 'LDA', 'NDA'])
    t = {'cls': c, 'name': name, 'mu': [rnd.randint(-3, 3) for _ in range(din)], 'T': [[rnd.randint(-2, 2) for _ in range(dout)] for _ in range(din)], 'kids': [], 'fit': 0, 'flags': dict(FLAGS)}
    if c == 'MVN':
        t['T'] = [[rnd.choice([1, 2, 4]) for _ in range(din)]]
    elif c == 'NAP':
        t['mu'] = []
        t['T'] = [[rnd.randint(-1, 1) for _ in range(din)] for _ in range(rnd.choice([1, 2]))]
    elif c in ('PCA', 'LDA', 'CentWhiten'):
        t['flags'].update(um=rnd.random() < 0.5, ut=rnd.random() < 0.5)
        if c == 'CentWhiten' and din == dout and rnd.random() < 0.4:
            t['flags']['diag'] = True
            t['T'] = [[rnd.randint(-2, 3) for _ in range(din)]]
    if c != 'NAP' and rnd.random() < 0.25:
        t['mu'] = []
    if c in ('MVN', 'CentWhiten') and din == dout and rnd.random() < 0.2:
        t['T'] = []
        t['flags']['diag'] = False
    return t


def fit_leaf(rnd, c, name):
    return {'cls': c, 'name': name, 'mu': [], 'T': [], 'kids': [], 'fit': rnd.randint(1, 40), 'flags': dict(FLAGS)}


def chain(rnd, dims, name, exact, depth=0):
    n = len(dims) - 1
    pool = ['a', 'b', 'c', 'm/n', 'd1', 'T1']
    rnd.shuffle(pool)
    ks = []
    for i in range(n):
        nm = pool[i]
        if depth == 0 and n > 1 and rnd.random() < 0.15:
            k = chain(rnd, [dims[i], dims[i], dims[i + 1]], nm, exact, 1)
        elif exact:
            k = toy(rnd, dims[i], dims[i + 1], nm)
        else:
            k = None
        ks.append(k)
    return {'cls': 'Pipeline' if depth == 0 and rnd.random() < 0.25 else 'TransformList', 'name': name, 'mu': [], 'T': [], 'kids': ks, 'fit': 0, 'flags': dict(FLAGS, um=rnd.random() < 0.5)}


def tree(rnd, kind):
    """a model and its input dimension"""
    name = rnd.choice(['a', 'z', 'u/v', '~'])
    if kind == 'toy':
        d = rnd.choice([2, 3])
        return toy(rnd, d, rnd.choice([d, 2]), name), d
    if kind == 'chain':
        dims = [rnd.choice([2, 3])]
        for _ in range(rnd.choice([1, 2, 3])):
            dims.append(rnd.choice([dims[-1], 2]))
        t = chain(rnd, dims, rnd.choice(['l', 'list', 'a', '~']), True)
        if rnd.random() < 0.15 and len(t['kids']) > 1:      # members that may want the same place in the file
            for d, k in zip(dims, t['kids']):
                if k['kids']:
                    continue
                k['name'] = 'a' if t['name'] != '~' or rnd.random() < 0.5 else '~'
                if k['cls'] != 'NAP' and not k['mu']:
                    k['mu'] = [1] * d
                if not k['T']:
                    k.update(T=[[1] * d])
                    k['flags']['diag'] = k['cls'] == 'CentWhiten'
        return t, dims[0]
    if kind == 'fitchain':
        cs = rnd.choice([['PCA', 'LNorm'], ['CentWhiten', 'LNorm', 'MVN'], ['MVN', 'NAP'], ['NAP', 'Gaussianizer', 'LNorm'], ['LDA', 'LNormUP'][:1], ['NDA'], ['Gaussianizer', 'CentWhiten']])
        nm = rnd.sample(['a', 'b', 'c', 'd'], len(cs))
        ks = [fit_leaf(rnd, c, n) for c, n in zip(cs, nm)]
        for i, k in enumerate(ks):
            if k['cls'] in ('PCA', 'LDA', 'NDA') and i < len(ks) - 1:
                k['fit'] += k['fit'] % 2          # full dimension
        return {'cls': rnd.choice(['TransformList', 'Pipeline']), 'name': rnd.choice(['l', '~']), 'mu': [], 'T': [], 'kids': ks, 'fit': 0, 'flags': dict(FLAGS)}, 3
    return fit_leaf(rnd, rnd.choice(FIT + BIG), name), 3


def inputs(rnd, d, fit, n=None):
    if fit:
        return [[rnd.randint(-4, 4) + 0 for _ in range(d)] for _ in range(n or 4)]
    return [[rnd.randint(-6, 6) for _ in range(d)] for _ in range(n or rnd.choice([1, 2, 3]))]


def exact(t):
    return t['fit'] == 0 and all(exact(k) for k in t['kids'])


PATHS = ['m.h5', './m2.h5', 'd/m.h5', 'd/e/f.h5', 'd2/x']


def norm(p):
    return os.path.normpath(p)


def paths_of(t):
    """what a model writes: only used to know when a save is refused"""
    n = lambda q: '' if q['name'] == '~' else q['name'] + '/'

    def build(q):
        return dict(q, kids=[dict(build(k), name=k['name'] if q['name'] == '~' else q['name'] + '/' + k['name']) for k in q['kids']])

    def leaves(q):
        return [v for k in q['kids'] for v in leaves(k)] if q['kids'] else [q]
    return [n(q) + p for q in leaves(build(t)) for p in ((['mu'] if q['mu'] or q['fit'] and q['cls'] != 'NAP' else []) + (['U' if q['cls'] == 'NAP' else 's' if q['cls'] == 'MVN' else 'T'] if q['T'] or q['fit'] else []))]


def leaf_list(t):
    return [v for k in t['kids'] for v in leaf_list(k)] if t['kids'] else [t]


def gen_script(rnd):
    return build_ops(rnd, None)


def build_ops(rnd, plan):
    kinds = ['toy', 'chain', 'chain', 'fitchain', 'fit', 'fit']
    heap, files, ops = {}, {}, []
    X = {}

    def probe(o):
        t, d = heap[o]
        ex = exact(t)
        if ex:
            x = inputs(rnd, d, False)
        else:
            x = X.setdefault(d, inputs(rnd, d, True))
        ops.append({'op': 'predict', 'o': o, 'x': x, 'exact': ex, 'dtype': rnd.choice(['float64', 'float64', 'int64', 'float32']) if ex else 'float64'})

    def new(o, t=None, d=None):
        if t is None:
            t, d = tree(rnd, rnd.choice(kinds))
        heap[o] = (json.loads(json.dumps(t)), d)
        ops.append({'op': 'new', 'o': o, 't': t})

    def save(o, p):
        ops.append({'op': 'save', 'o': o, 'p': p})
        q = paths_of(heap[o][0])
        if len(set(q)) == len(q):
            files[p] = json.loads(json.dumps(heap[o]))
        else:
            files.pop(p, None)

    def load(o, p):
        heap[o] = json.loads(json.dumps(files[p]))
        ops.append({'op': 'load', 'o': o, 'p': p, 'loader': rnd.random() < 0.4, 'cls': heap[o][0]['cls'], 'known': list(files)})

    def copy(o, q):
        heap[o] = json.loads(json.dumps(heap[q]))
        ops.append({'op': 'copy', 'o': o, 'from': q})

    def shift(o):
        L = leaf_list(heap[o][0])
        c = [i + 1 for i, q in enumerate(L) if q['mu']]
        if c and exact(heap[o][0]):
            k, d = rnd.choice(c), rnd.choice([-2, 1, 5])
            L[k - 1]['mu'][0] += d
            ops.append({'op': 'shift', 'o': o, 'k': k, 'd': d})

    def append(o):
        t, d = heap[o]
        out = len(call_dim(t, d))
        k = toy(rnd, out, rnd.choice([out, 2]), rnd.choice(['p', 'q', 'r']) + str(len(ops)))
        t['kids'].append(k)
        ops.append({'op': 'append', 'o': o, 't': json.loads(json.dumps(k))})
    if plan is None:
        objs, paths = ['x', 'y', 'w'], rnd.sample(PATHS, 2)
        new('x')
        for _ in range(rnd.choice([3, 5, 7])):
            a = rnd.choice(['probe', 'save', 'save', 'load', 'load', 'copy', 'shift', 'append', 'new', 'config'])
            o = rnd.choice(sorted(heap))
            if a == 'probe':
                probe(o)
            elif a == 'save':
                probe(o)
                save(o, rnd.choice(paths))
            elif a == 'load' and files:
                o = rnd.choice(objs)
                load(o, rnd.choice(sorted(files)))
                probe(o)
            elif a == 'copy':
                q = rnd.choice(objs)
                if q != o:
                    copy(q, o)
            elif a == 'shift':
                shift(o)
            elif a == 'append' and heap[o][0]['cls'] in ('TransformList', 'Pipeline') and exact(heap[o][0]):
                append(o)
            elif a == 'new':
                new(rnd.choice(objs))
            elif a == 'config' and files:
                ops.append({'op': 'config', 'p': rnd.choice(sorted(files))})
        if not files:
            save('x', paths[0])
        if files:
            load('y', sorted(files)[0])
        for o in sorted(heap):
            probe(o)
        return {'ops': ops}
    # a history of the model, with probes; the toy chain members take other shapes
    big = rnd.random() < 0.5
    tr = {}
    for h in plan:
        k = h['op']
        if k == 'new':
            if big:
                kind = 'toy' if not h['t']['kids'] else 'chain'
                if h['t']['name'] == '~':
                    new(h['o'], h['t'], 1)
                else:
                    t, d = tree(rnd, kind)
                    new(h['o'], t, d)
            else:
                new(h['o'], h['t'], 1)
        elif k == 'save':
            save(h['o'], h['p'])
        elif k == 'load':
            if h['p'] not in files:
                return None
            load(h['o'], h['p'])
            probe(h['o'])
        elif k == 'copy':
            copy(h['o'], h['from'])
        elif k == 'shift':
            shift(h['o'])
        elif k == 'append':
            if heap[h['o']][0]['cls'] in ('TransformList', 'Pipeline'):
                append(h['o'])
        if rnd.random() < 0.3:
            probe(h['o'])
    for o in sorted(heap):
        probe(o)
    return {'ops': ops}


def call_dim(t, d):
    """a vector of the output dimension"""
    if t['kids']:
        for k in t['kids']:
            d = len(call_dim(k, d))
        return [0] * d
    if t['cls'] in ('MVN', 'NAP') or t['flags']['diag'] or not t['T']:
        return [0] * d
    return [0] * len(t['T'][0])


def corrupt(b):
    for e in reversed(b['ev']):
        if e['op'] == 'predict' and e['y']:
            e['y'][0][0] += 1
            return b
    for e in reversed(b['ev']):
        if e['op'] == 'load' and e['names']:
            e['names'][0] += 'x'
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Store', cfg='MC_Store.cfg', want=100)
    if ck.thorough:
        ms += ck.model('MC_Store', cfg='MC_Store_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [s for s in (build_ops(rnd, m['ops']) for m in ms[:ck.pick(900, 9000)]) if s]
    scripts += [gen_script(rnd) for _ in range(ck.pick(3000, 40000))]
    behs = ck.execute('checks.p23', scripts)
    ck.judge('Trace_Store', behs, scripts, 'checks.p23', label='saved models', batch=4000)
    ck.negative_control('Trace_Store', [b for b in behs if b][-400:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P23', run)
