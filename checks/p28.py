"""P28: classifiers of vectors."""
import copy
import os
import random

import numpy as np
import vf
from vf import call
from checks.p26 import tool, World
from checks.p27 import r100, held

BIG = 999990000


def r1(v, s):
    return r100(v, s)[0]


def execute(script, wd):
    w = World(script['style'], os.path.join(wd, ''))
    regs, evs = [], []
    for o in script['ops']:
        e = copy.deepcopy(o['e'])
        e['exc'], e['same'] = '', True
        r, exc = call(globals()['do_' + e['op']], w, regs, o, copy.deepcopy(e))
        e['exc'] = exc
        if not exc:
            e.update(r)
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


def train(w, name, o, x, cls, extra):
    """a model trained by the command line; gives the file"""
    from hyperion.transforms import TransformList, MVN
    from hyperion.io import DataWriterFactory as DWF
    n, D = x.shape
    p = w.path('')
    spec = 'h5:%s.h5' % p if o['vec'] == 'h5' else 'ark,scp:%s.ark,%s.scp' % (p, p)
    order = list(range(n))
    random.Random(o['seed']).shuffle(order)
    with DWF.create(spec) as wr:
        wr.write([w.name(1000)], [np.full(D, 77., dtype='float32')])
        for i in order:
            wr.write([w.name(i)], [x[i].astype('float32')])
    names = sorted(w.name(2000 + c) for c in range(max(cls) + 1))
    argv = ['--iv-file', {'h5': 'h5:%s.h5', 'scp': 'scp:%s.scp'}[o['vec']] % p,
            '--train-list', w.lines([(w.name(i), names[cls[i]]) for i in range(n)])]
    if o['pre']:
        m = np.arange(1., D + 1.)
        if name.endswith('-up') or name.startswith('train-q'):
            m[D // 2:] = 0
        argv += ['--preproc-file', w.path('.h5')]
        TransformList([MVN(mu=m, s=np.ones(D), name='first')]).save(argv[-1])
    out = w.path('.h5')
    tool(name, argv + ['--output-path', out, '-v', '1'] + list(extra))
    return out


def shifted(o, x, d):
    """vectors that the first transform of the chain brings to x"""
    x = np.array(x, dtype='float64')
    if o['pre']:
        x[:, :d] += np.arange(1., x.shape[1] + 1.)[:d]
    return x


# -------------------------------- Gaussian back-end -------------------------
def do_given(w, regs, o, e):
    from hyperion.classifiers import LinearGBE
    regs.append(LinearGBE(mu=np.array(e['mu'], dtype='float64'), W=np.linalg.inv(np.array(e['S'], dtype='float64')),
                          beta=np.array(e['beta'], dtype='float64'), nu=float(e['nu']), name='prior'))
    return {}


def do_fit(w, regs, o, e):
    from hyperion.classifiers import LinearGBE
    x = np.array(e['x'], dtype=o['dtype'])
    kw = {}
    if e['pr']:
        p = regs[e['pr'] - 1]
        if o['how'] == 'tool' or o['file']:
            kw['prior'] = w.path('.h5')
            p.save(kw['prior'])
        else:
            kw['prior'] = copy.deepcopy(p)
    for a, b in (('prior_beta', 'pb'), ('prior_nu', 'pn'), ('post_beta', 'qb'), ('post_nu', 'qn')):
        if e[b] >= 0:
            kw[a] = float(e[b]) if o['flt'] else e[b]
    same = lambda: True
    if o['how'] == 'tool':
        extra = ['--balance-class-weight'] if e['bal'] else []
        for k, v in sorted(kw.items()):
            extra += ['--' + k.replace('_', '-'), v]
        m = LinearGBE.load(train(w, 'train-linear-gbe', o, shifted(o, x, x.shape[1]), o['cls'], extra))
    else:
        if e['bal'] or o['flt']:
            kw['balance_class_weight'] = e['bal']
        else:
            kw['balance_class_weight'] = False
        if not e['upmu']:
            kw['update_mu'] = False
        if not e['upW']:
            kw['update_W'] = False
        if e['r']:
            q = regs[e['r'] - 1]
            if o['object']:
                m = copy.deepcopy(q)
                m.update_mu, m.update_W, m.balance_class_weight = e['upmu'], e['upW'], e['bal']
                m.prior, m.prior_beta, m.prior_nu, m.post_beta, m.post_nu = [kw.get(c) for c in ('prior', 'prior_beta', 'prior_nu', 'post_beta', 'post_nu')]
            else:
                m = LinearGBE(mu=q.mu.copy(), W=q.W.copy(), beta=copy.copy(q.beta), nu=q.nu, **kw)
        else:
            m = LinearGBE(**kw)
        sw = np.array(o['sw']) if o['sw'] else None
        if sw is not None and o['flt']:
            sw = sw.astype('float64')
        if o['cls']:
            c = np.array(o['cls'])
            same = held(x, c, sw)
            if o['empty']:
                m.num_classes = len(e['w'][0])
            m.fit(x, c, sample_weight=sw) if sw is not None else m.fit(x, class_ids=c)
        else:
            p = np.array(e['w']) / 4. / (np.array(o['sw'])[:, None] if o['sw'] else 1)
            same = held(x, p, sw)
            m.fit(x, p_theta=p, sample_weight=sw)
        if o['file']:
            f = w.path('.h5')
            m.save(f)
            m = LinearGBE.load(f)
    S = np.linalg.inv(m.W)
    regs.append(m)
    z = np.array(o['z'], dtype='float64')
    return {'obs': {'mu': r100(m.mu, 1000), 'S': r100(S, 1000), 'beta': r1(m.beta, 100), 'nu': r1(m.nu, 100)[0]}, 'same': same(),
            'pred': r100(m.predict(z), 10), 'want': r100(LinearGBE(mu=m.mu, W=m.W).predict(z), 10)}


def do_eval(w, regs, o, e):
    from hyperion.classifiers import LinearGBE
    from scipy.special import gammaln
    mu, W, be, nu = np.array(e['mu'], dtype='float64'), np.array(e['W'], dtype='float64'), np.array(e['beta'], dtype='float64'), float(e['nu'])
    m = LinearGBE(mu=mu, W=W, beta=be, nu=nu, name='b')
    if o['file']:
        f = w.path('.h5')
        m.save(f)
        m = LinearGBE.load(f)
    x = np.array(e['x'], dtype=o['dtype'])
    same = held(x)
    y = m.predict(x) if e['how'] == 'linear' and o['file'] else m.predict(x, eval_method=e['how'])
    D = x.shape[1]
    r = {'y': None, 'raw': r100(y, 1000), 'nrm': [], 'post': []}
    if o['nrm']:
        v = m.predict(x, e['how'], True)
        if v.min() > -300:
            r['nrm'], r['post'] = r100(v, 1000), r100(np.exp(v), 10000)
    y = np.asarray(y, dtype='float64')
    ld = np.linalg.slogdet(W)[1]
    if e['how'] == 'linear':
        r['y'] = r100(y, 1000)
    elif e['how'] == 'llk':
        r['y'] = r100(-2 * y + ld - D * np.log(2 * np.pi), 1000)
    else:
        c = nu + 1 - D
        be = be[None, :]
        lg = gammaln((c + D) / 2) - gammaln(c / 2) - .5 * D * np.log(c * np.pi) + .5 * (ld - D * np.log(nu)) + .5 * D * np.log(c * be / (be + 1))
        r['y'] = r100(np.exp(-2 * (y - lg) / (c + D)) * nu * (be + 1), 100)
    r['same'] = same()
    return r


def do_up(w, regs, o, e):
    from hyperion.classifiers import LinearGBEUP
    m = LinearGBEUP(mu=np.array(e['mu'], dtype='float64'), W=np.diag(1. / np.array(e['S'], dtype='float64')), name='u',
                    beta=np.ones(len(e['mu'])), nu=1.)
    if o['file']:
        f = w.path('.h5')
        m.save(f)
        m = LinearGBEUP.load(f)
    x = np.hstack((np.array(e['x'], dtype='float64'), np.array(e['u'], dtype='float64')))
    same = held(x)
    return {'y': r100(m.predict(x), 1000), 'same': same()}


def upmodel(r, **kw):
    from hyperion.classifiers import LinearGBEUP
    return LinearGBEUP(mu=np.array(r['mu']) / 1000., W=np.linalg.inv(np.array(r['S']) / 1000.), beta=np.array(r['beta']) / 100., nu=r['nu'] / 100., **kw)


def do_upfit(w, regs, o, e):
    from hyperion.classifiers import LinearGBEUP
    x = np.hstack((np.array(e['x'], dtype='float64'), np.array(e['u'], dtype='float64')))
    D = len(e['x'][0])
    kw = {}
    if e['pr']:
        kw['prior'] = upmodel(e['prm'], name='p')
        if o['how'] == 'tool' or o['file']:
            f = w.path('.h5')
            kw['prior'].save(f)
            kw['prior'] = f
    for a, b in (('prior_beta', 'pb'), ('prior_nu', 'pn'), ('post_beta', 'qb'), ('post_nu', 'qn')):
        if e[b] >= 0:
            kw[a] = float(e[b]) if o['flt'] else e[b]
    if o['how'] == 'tool':
        extra = ['--balance-class-weight'] if e['bal'] else []
        for k, v in sorted(kw.items()):
            extra += ['--' + k.replace('_', '-'), v]
        m = LinearGBEUP.load(train(w, 'train-linear-gbe-up', o, shifted(o, x, D), o['cls'], extra))
        same = lambda: True
    else:
        for k, v in (('update_mu', 'upmu'), ('update_W', 'upW')):
            if not e[v]:
                kw[k] = False
        if e['bal'] or o['flt']:
            kw['balance_class_weight'] = e['bal']
        else:
            kw['balance_class_weight'] = False
        m = upmodel(e['old'], **kw) if e['r'] else LinearGBEUP(**kw)
        if o['empty'] and not e['r']:
            m.num_classes = len(e['w'][0])
        sw = np.array(o['sw'], dtype='float64') if o['sw'] else None
        if o['soft']:
            p = np.array(e['w']) / 4. / (np.array(o['sw'])[:, None] if o['sw'] else 1)
            same = held(x, p, sw)
            m.fit(x, p_theta=p, sample_weight=sw)
        else:
            c = np.array(o['cls'])
            same = held(x, c, sw)
            m.fit(x, c, sample_weight=sw) if sw is not None else m.fit(x, c)
        if o['file']:
            f = w.path('.h5')
            m.save(f)
            m = LinearGBEUP.load(f)
    return {'obs': {'mu': r100(m.mu, 1000), 'S': r100(np.linalg.inv(m.W), 1000), 'beta': r1(m.beta, 100), 'nu': r1(m.nu, 100)[0]}, 'same': same()}


# --------------------------------- Q-scoring ---------------------------------
def do_q(w, regs, o, e):
    from hyperion.classifiers import QScoringHomoGBE
    x = np.hstack((np.array(e['x'], dtype='float64'), 1. / np.array(e['p'], dtype='float64')))
    D = len(e['x'][0])
    kw = {}
    if e['pr'] != []:
        p = QScoringHomoGBE(mu=np.array(e['pr']['mu'], dtype='float64'), W=np.array(e['pr']['W'], dtype='float64'), N=np.array(e['pr']['N'], dtype='float64'), name='p')
        kw['prior'] = p
        if o['how'] == 'tool' or o['file']:
            kw['prior'] = w.path('.h5')
            p.save(kw['prior'])
    if e['pn'] >= 0:
        kw['prior_N'] = e['pn']
    if e['qn'] >= 0:
        kw['post_N'] = e['qn']
    same = lambda: True
    if o['how'] == 'tool':
        extra = ['--balance-class-weight']
        for k, v in sorted(kw.items()):
            extra += ['--' + k.replace('_', '-').lower(), v]
        m = QScoringHomoGBE.load(train(w, 'train-q-scoring-homo-gbe', o, shifted(o, x, D), o['cls'], extra))
    else:
        m = QScoringHomoGBE(**kw)
        sw = np.array(o['sw'], dtype='float64') if o['sw'] else None
        if o['cls']:
            c = np.array(o['cls'])
            same = held(x, c, sw)
            m.fit(x, c, sample_weight=sw)
        else:
            p = np.array(e['w']) / 4. / (np.array(o['sw'])[:, None] if o['sw'] else 1)
            same = held(x, p, sw)
            m.fit(x, p_theta=p, sample_weight=sw)
        if o['file']:
            f = w.path('.h5')
            m.save(f)
            m = QScoringHomoGBE.load(f)
    return {'obs': {'mu': r100(m.mu, 1000), 'W': r1(m.W, 1000), 'N': r1(m.N, 100)}, 'same': same()}


def do_qeval(w, regs, o, e):
    from hyperion.classifiers import QScoringHomoGBE
    L, p = np.array(e['W'], dtype='float64'), np.array(e['p'], dtype='float64')
    m = QScoringHomoGBE(mu=np.array(e['mu'], dtype='float64'), W=L, N=np.ones(len(e['mu'])), name='q')
    if o['file']:
        f = w.path('.h5')
        m.save(f)
        m = QScoringHomoGBE.load(f)
    x = np.hstack((np.array(e['x'], dtype='float64'), 1. / p))
    same = held(x)
    y = m.predict(x)
    r = {'nrm': [], 'post': [], 'same': same()}
    if o['nrm']:
        v = m.predict(x, True)
        if v.min() > -300:
            r['nrm'], r['post'] = r100(v, 1000), r100(np.exp(v), 10000)
    lg = np.sum(np.log(L)) + np.sum(np.log(p), axis=1) - np.sum(np.log(L + p - 1), axis=1)
    r['y'] = r100(2 * y - lg[:, None], 1000)
    if r['nrm']:
        r['y'] = r100(2 * y - lg[:, None], 1000)
    return r


# ---------------------------- discriminative classifiers ---------------------
def do_lr(w, regs, o, e):
    from hyperion.classifiers import LogisticRegression
    from hyperion.classifiers.binary_logistic_regression import BinaryLogisticRegression
    x = np.array(e['x'], dtype='float64')
    c = np.array(e['cls']) - 1
    K = len(e['pi'])
    pi = np.array(e['pi'], dtype='float64') / e['pd']
    kw = dict(lambda_reg=1. / e['lam'], solver=o['solver'], tol=1e-9, max_iter=2000)
    if o['bs'] != 1:
        kw['bias_scaling'] = o['bs']
    if not e['bias']:
        kw['use_bias'] = False
    same = lambda: True
    cl = BinaryLogisticRegression if e['bin'] else LogisticRegression
    if o['how'] == 'tool':
        extra = ['--lambda-reg', kw['lambda_reg'], '--solver', o['solver'], '--tol', '1e-9', '--max-iter', 2000]
        if e['how'] != 'ovr' or o['flt']:
            extra += ['--multi-class', e['how']]
        if o['bs'] != 1:
            extra += ['--bias-scaling', o['bs']]
        if not e['bias']:
            extra += ['--no-use-bias']
        m = cl.load(train(w, 'train-logistic-regression', o, shifted(o, x, x.shape[1]), [int(v) for v in c], extra))
    else:
        if e['bin']:
            if o['pri']:
                kw['prior'] = pi[1]
        else:
            if o['pri']:
                kw['priors'] = {i: v for i, v in enumerate(pi)}
            if e['how'] != 'multinomial' or o['flt']:
                kw['multi_class'] = e['how']
        m = cl(**kw)
        sw = np.array(e['v'], dtype='int64' if o['flt'] else 'float64') if o['sw'] else None
        same = held(x, c, sw)
        if o['again']:
            m.fit(x[::-1] * 2, c[::-1])
        m.fit(x, c, sample_weight=sw) if sw is not None else m.fit(x, c)
        if o['file']:
            f = w.path('.h5')
            m.save(f)
            m = cl.load(f)
    A, b = np.array(m.A), np.array(m.b)
    s = np.dot(x, A) + b
    if e['bin']:
        t = s[:, 0] + np.log(pi[1] / pi[0])
        p1 = 1 / (1 + np.exp(-t))
        p = np.stack((1 - p1, p1), axis=1)
        rb = b + np.log(pi[1] / pi[0])
        ty = {'logit': s[:, 0], 'post': p1, 'log-post': np.log(p1)}
    else:
        if e['how'] == 'ovr':
            rb = b + np.log(pi / (1 - pi))
            p = 1 / (1 + np.exp(-(np.dot(x, A) + rb)))
        else:
            rb = b + np.log(pi)
            p = np.exp(np.dot(x, A) + rb)
            p /= p.sum(axis=1, keepdims=True)
        y = np.dot(x, A) + b + np.log(pi)
        y = np.exp(y - y.max(axis=1, keepdims=True))
        y /= y.sum(axis=1, keepdims=True)
        ty = {'logit': s, 'post': y, 'log-post': np.log(y + 1e-10)}
    pred = m.predict(x) if e['ty'] == 'logit' else m.predict(x, e['ty'])
    return {'p': r100(p, 10000), 'A': r100(A.T, 1000), 'rb': r1(rb, 1000), 'nb': s.shape[1], 'same': same(),
            'pred': r100(pred, 100), 'want': [[u if abs(u - v) > 1 else v for u, v in zip(*q)] for q in zip(r100(ty[e['ty']], 100), r100(pred, 100))] if np.shape(pred) == np.shape(ty[e['ty']]) else [[BIG]]}


def do_svm(w, regs, o, e):
    from hyperion.classifiers import LinearSVMC
    from sklearn.svm import LinearSVC
    x, c = np.array(e['x'], dtype='float64'), np.array(e['cls']) - 1
    kw = dict(o['kw'])
    same = lambda: True
    if o['how'] == 'tool':
        extra = ['--max-iter', 1000]
        for k, v in sorted(kw.items()):
            if k in ('use_bias', 'dual'):
                extra += [] if v else ['--no-' + k.replace('_', '-')]
            elif k == 'balance_class_weight':
                extra += ['--balance-class-weight'] if v else []
            else:
                extra += ['--' + k.replace('_', '-').lower(), v]
        m = LinearSVMC.load(train(w, 'train-linear-svmc', o, shifted(o, x, x.shape[1]), [int(v) for v in c], extra))
        kw.setdefault('balance_class_weight', False)
        sw = None
    else:
        m = LinearSVMC(max_iter=1000, **kw)
        sw = np.array(o['sw'], dtype='float64') if o['sw'] else None
        same = held(x, c, sw)
        m.fit(x, c, sample_weight=sw)
        if o['file']:
            f = w.path('.h5')
            m.save(f)
            m = LinearSVMC.load(f)
    r = LinearSVC(penalty=kw.get('penalty', 'l2'), C=kw.get('C', 1.), loss=kw.get('loss', 'squared_hinge'), dual=kw.get('dual', True), tol=kw.get('tol', 1e-4),
                  multi_class=kw.get('multi_class', 'ovr'), fit_intercept=kw.get('use_bias', True), intercept_scaling=kw.get('bias_scaling', 1),
                  class_weight='balanced' if kw.get('balance_class_weight', True) else None, random_state=np.random.RandomState(seed=kw.get('lr_seed', 1024)), max_iter=1000)
    r.fit(x, c, sample_weight=sw)
    z = np.array(e['z'], dtype='float64')
    ref = r.decision_function(z).reshape(len(z), -1)
    g = np.exp(ref - ref.max(axis=1, keepdims=True))
    g /= g.sum(axis=1, keepdims=True)
    ref = {'logit': ref, 'bin-logpost': -np.log(1 + np.exp(-ref)), 'bin-post': 1 / (1 + np.exp(-ref)), 'cat-post': g, 'cat-logpost': np.log(g)}[e['ty']]
    y = m.predict(z) if e['ty'] == 'logit' else m.predict(z, e['ty'])
    return {'y': r100(y, 1000), 'ref': r100(ref, 1000), 'same': same()}


def do_cal(w, regs, o, e):
    from hyperion.calibration.gauss_calibration import GaussCalibration
    x, y = np.array(e['x'], dtype=o['dtype']), np.array(e['y'])
    sw = np.array(e['v'], dtype='int64' if o['flt'] else 'float64') if o['sw'] else None
    same = held(x, y, sw)
    m = GaussCalibration(prior=.3)
    if o['again']:
        m.fit(x[::-1] + 3, y)
    m.fit(x, y, sample_weight=sw)
    if o['file']:
        f = w.path('.h5')
        m.save(f)
        m = GaussCalibration.load(f)
    z = np.arange(-3., 4.)
    return {'obs': r1([m.mu1, m.mu2, m.sigma2, m.prior], 1000), 'same': same(), 'pred': r1(m.predict(z), 100), 'want': r1(GaussCalibration(m.mu1, m.mu2, m.sigma2).predict(z), 100)}


def do_caleval(w, regs, o, e):
    from hyperion.calibration.gauss_calibration import GaussCalibration
    m = GaussCalibration(mu1=float(e['m1']), mu2=float(e['m2']), sigma2=float(e['s2']))
    if o['file']:
        f = w.path('.h5')
        m.save(f)
        m = GaussCalibration.load(f)
    x = np.array(e['x'], dtype='float64')
    same = held(x)
    return {'y': r1(m.predict(x), 1000), 'same': same()}


# ------------------------------- generation ---------------------------------
def pd(rnd, D, inv=False):
    while True:
        M = [[rnd.choice([0, 0, -1, 1, 2]) for _ in range(D)] for _ in range(D)]
        S = [[sum(M[k][a] * M[k][b] for k in range(D)) + (rnd.randint(1, 3) if a == b else 0) for b in range(D)] for a in range(D)]
        if np.linalg.cond(np.array(S)) < 60:
            return S


def topts(rnd):
    return {'vec': rnd.choice(['h5', 'scp']), 'seed': rnd.randint(0, 999), 'pre': rnd.random() < .3, 'file': rnd.random() < .3, 'flt': rnd.random() < .5}


def data(rnd, K, D, soft=True):
    """integer vectors, classes or posteriors in quarters, integer weights"""
    for _ in range(200):
        n = rnd.randint(K * 2 + D, 10)
        x = [[rnd.randint(-6, 6) for _ in range(D)] for _ in range(n)]
        sw = [rnd.randint(1, 3) for _ in range(n)] if rnd.random() < .4 else []
        if rnd.random() < .7 or not soft:
            cls = list(range(K)) + [rnd.randrange(K) for _ in range(n - K)]
            rnd.shuffle(cls)
            w = [[4 * (cls[i] == k) for k in range(K)] for i in range(n)]
        else:
            cls, w = [], []
            for i in range(n):
                cut = sorted(rnd.randint(0, 4) for _ in range(K - 1))
                w.append([b - a for a, b in zip([0] + cut, cut + [4])])
        if sw:
            w = [[v * sw[i] for v in r] for i, r in enumerate(w)]
        W, X = np.array(w, dtype='float64'), np.array(x, dtype='float64')
        N = W.sum(axis=0)
        if N.min() <= 0:
            continue
        C = [(W[:, k] * (X - W[:, k].dot(X) / N[k]).T).dot(X - W[:, k].dot(X) / N[k]) for k in range(K)]
        if min(np.linalg.eigvalsh(sum(C) / N.sum())[0], np.linalg.eigvalsh(sum(c / N[k] for k, c in enumerate(C)) / K)[0]) > .4:
            return x, cls, w, sw
    return None


def op_fit(rnd, regs, K, D):
    d = data(rnd, K, D)
    if d is None:
        return None
    x, cls, w, sw = d
    how = rnd.choice(['data', 'data', 'tool']) if cls and not sw else 'data'
    e = {'op': 'fit', 'x': x, 'w': w, 'r': 0, 'pr': 0, 'pb': -1, 'pn': -1, 'qb': -1, 'qn': -1, 'upmu': True, 'upW': True, 'bal': rnd.random() < .5}
    o = topts(rnd)
    o.update({'e': e, 'cls': cls, 'sw': sw, 'how': how, 'dtype': rnd.choice(['float64', 'float64', 'float32', 'int64']), 'object': rnd.random() < .5, 'empty': False,
              'z': [[rnd.randint(-5, 5) for _ in range(D)] for _ in range(2)]})
    if regs and rnd.random() < .6:
        e['pr'] = rnd.randint(1, regs)
        if rnd.random() < .4:
            e['pb'] = rnd.choice([0, 1, 4, 16])
        if rnd.random() < .4:
            e['pn'] = rnd.choice([1, 2, 8, 16])
        if how == 'tool':
            e['pb'], e['pn'] = (16 if rnd.random() < .3 or e['pb'] < 0 else e['pb']), (16 if e['pn'] < 0 else e['pn'])
    if rnd.random() < .2:
        e['qb'] = rnd.choice([1, 5, 20])
    if rnd.random() < .2:
        e['qn'] = rnd.choice([4, 10])
    if how != 'tool' and regs and rnd.random() < .4:
        e['r'] = rnd.randint(1, regs)
        e['upmu'], e['upW'] = rnd.choice([(True, True), (False, True), (True, False), (False, False)])
        if not e['upmu'] and e['pr'] and rnd.random() < .5:
            e['pr'] = e['r']
    if e['pr'] and e['upmu'] and how == 'data' and cls and rnd.random() < .15 and e['pb'] != 0:
        # no data of one class: the prior stays
        k = rnd.randrange(K)
        keep = [i for i in range(len(x)) if cls[i] != k]
        e['x'], e['w'] = [x[i] for i in keep], [w[i] for i in keep]
        o['cls'], o['sw'], o['empty'] = [cls[i] for i in keep], [sw[i] for i in keep] if sw else [], True
        if e['bal'] and e['pn'] == 0:
            e['pn'] = 4
    return o


def op_eval(rnd):
    K, D = rnd.choice([2, 3]), rnd.choice([1, 2, 3])
    e = {'op': 'eval', 'how': rnd.choice(['linear', 'llk', 'predictive']), 'mu': [[rnd.randint(-3, 3) for _ in range(D)] for _ in range(K)], 'W': pd(rnd, D),
         'beta': [rnd.randint(1, 20) for _ in range(K)], 'nu': D + rnd.randint(0, 12), 'x': [[rnd.randint(-3, 3) for _ in range(D)] for _ in range(rnd.choice([1, 3, 5]))]}
    if rnd.random() < .3:
        e['beta'] = [e['beta'][0]] * K
    return {'e': e, 'file': rnd.random() < .3, 'nrm': rnd.random() < .6, 'dtype': rnd.choice(['float64', 'float64', 'float32', 'int64'])}


def op_up(rnd):
    K, D, n = rnd.choice([2, 3]), rnd.choice([1, 2, 3]), rnd.choice([1, 2, 4])
    return {'e': {'op': 'up', 'mu': [[rnd.randint(-4, 4) for _ in range(D)] for _ in range(K)], 'S': [rnd.randint(1, 5) for _ in range(D)],
                  'x': [[rnd.randint(-5, 5) for _ in range(D)] for _ in range(n)], 'u': [[rnd.randint(0, 4) for _ in range(D)] for _ in range(n)]}, 'file': rnd.random() < .3}


def op_upfit(rnd):
    K, D = rnd.choice([2, 3]), rnd.choice([1, 1, 2])
    H = {1: [[1], [-1]], 2: [[1, 1], [1, -1], [-1, 1], [-1, -1]]}[D]
    x, cls = [], []
    for k in range(K):
        m, s = [rnd.randint(-3, 3) for _ in range(D)], [rnd.randint(1, 4) for _ in range(D)]
        for _ in range(rnd.choice([1, 1, 2]) if D == 1 else 1):
            for h in H:
                x.append([m[a] + h[a] * s[a] for a in range(D)])
                cls.append(k)
    if D == 1:
        x, cls = x + [[rnd.randint(-4, 4)]], cls + [rnd.randrange(K)]
    u = [[rnd.randint(1, 5) for _ in range(D)] for _ in x]
    o = topts(rnd)
    o.update({'e': {'op': 'upfit', 'x': x, 'u': u, 'w': [[4 * (c == k) for k in range(K)] for c in cls], 'r': 0, 'pr': 0, 'pb': -1, 'pn': -1, 'qb': -1, 'qn': -1, 'upmu': True, 'upW': True, 'bal': rnd.random() < .5},
              'cls': cls, 'sw': [], 'soft': False, 'empty': False, 'how': rnd.choice(['data', 'data', 'tool'])})
    e = o['e']
    e['prm'] = e['old'] = NONE
    if D == 1 and rnd.random() < .7:
        old = lambda: {'mu': [[1000 * rnd.randint(-4, 4)] for _ in range(K)], 'S': [[1000 * rnd.randint(1, 6)]], 'beta': [100 * rnd.randint(1, 9) for _ in range(K)], 'nu': 100 * rnd.randint(2, 20)}
        if rnd.random() < .7:
            e['pr'], e['prm'] = 1, old()
            e['pb'], e['pn'] = rnd.choice([-1, -1, 1, 4]), rnd.choice([-1, -1, 2, 8])
            if o['how'] == 'tool':
                e['pb'], e['pn'] = rnd.choice([16, 2]), rnd.choice([16, 3])
        if rnd.random() < .2:
            e['qb'] = rnd.choice([1, 5])
        if rnd.random() < .2:
            e['qn'] = rnd.choice([4, 10])
        if o['how'] != 'tool':
            if rnd.random() < .4:
                e['r'], e['old'] = 1, old()
                e['upmu'], e['upW'] = rnd.choice([(True, True), (False, True), (True, False), (False, False)])
            if e['pr'] and e['upmu'] and rnd.random() < .2:
                k = rnd.randrange(K)
                keep = [i for i in range(len(x)) if cls[i] != k]
                for a in ('x', 'u', 'w'):
                    e[a] = [e[a][i] for i in keep]
                o['cls'], o['empty'] = [cls[i] for i in keep], True
            n = len(e['x'])
            if rnd.random() < .4:
                o['sw'] = [rnd.randint(1, 3) for _ in range(n)]
            if rnd.random() < .3 and not o['empty']:
                o['soft'] = True
                e['w'] = [rnd.choice([[4 * (c == j) for j in range(K)], [2 * (j in (c, (c + 1) % K)) for j in range(K)]]) for c in o['cls']]
            if o['sw']:
                e['w'] = [[a * b for a in r] for b, r in zip(o['sw'], e['w'])]
    return o


NONE = {'mu': [], 'S': [], 'beta': [], 'nu': 0}


def op_q(rnd):
    K, D = rnd.choice([2, 3]), rnd.choice([1, 2, 3])
    d = data(rnd, K, D)
    if d is None:
        return op_qeval(rnd)
    x, cls, w, sw = d
    e = {'op': 'q', 'x': x, 'p': [[rnd.choice([1, 1, 2, 4]) for _ in range(D)] for _ in x], 'w': w, 'pr': [], 'pn': -1, 'qn': -1}
    if rnd.random() < .5:
        e['pr'] = {'mu': [[rnd.randint(-4, 4) for _ in range(D)] for _ in range(K)], 'W': [rnd.randint(1, 6) for _ in range(D)], 'N': [rnd.randint(1, 9) for _ in range(K)]}
        if rnd.random() < .5:
            e['pn'] = rnd.choice([1, 2, 8])
    if rnd.random() < .3:
        e['qn'] = rnd.choice([1, 5, 10])
    o = topts(rnd)
    o.update({'e': e, 'cls': cls, 'sw': sw, 'how': rnd.choice(['data', 'data', 'tool']) if cls and not sw else 'data'})
    return o


def op_qeval(rnd):
    K, D, n = rnd.choice([2, 3]), rnd.choice([1, 2, 3]), rnd.choice([1, 2, 4])
    e = {'op': 'qeval', 'mu': [[rnd.randint(-3, 3) for _ in range(D)] for _ in range(K)], 'W': [rnd.randint(1, 5) for _ in range(D)],
         'x': [[rnd.randint(-3, 3) for _ in range(D)] for _ in range(n)], 'p': [[rnd.choice([1, 2, 4]) for _ in range(D)] for _ in range(n)]}
    return {'e': e, 'file': rnd.random() < .3, 'nrm': rnd.random() < .6}


def op_lr(rnd):
    K, D = rnd.choice([2, 2, 3]), rnd.choice([1, 2, 3])
    while True:
        n = rnd.randint(2 * K + 2, 12)
        cls = list(range(1, K + 1)) + [rnd.randint(1, K) for _ in range(n - K)]
        mu = [[rnd.randint(-1, 1) for _ in range(D)] for _ in range(K)]
        x = [[mu[c - 1][a] + rnd.randint(-2, 2) for a in range(D)] for c in cls]
        if min(cls.count(k) for k in range(1, K + 1)) > 1:
            break
    bn = K == 2 and rnd.random() < .5
    how = 'ovr' if bn else rnd.choice(['ovr', 'multinomial'])
    solver = rnd.choice(['lbfgs', 'lbfgs', 'newton-cg'] + (['liblinear'] * 2 if how == 'ovr' else []))
    if bn and rnd.random() < .5:
        solver = 'liblinear'
    o = topts(rnd)
    pri = rnd.random() < .4
    pi = rnd.choice([[20, 80], [60, 40], [90, 10], [50, 50]]) if K == 2 else rnd.choice([[20, 30, 50], [60, 20, 20], [40, 40, 20]])
    t = not bn and rnd.random() < .3
    if t:
        pri = False
    if not pri:
        pi = [1] * K
    lam = 10 if solver == 'liblinear' else rnd.choice([10, 100])
    bias = rnd.random() < .8
    bs = rnd.choice([1, 1, 2, 5])
    sw = not t and rnd.random() < .3
    v = [rnd.randint(1, 3) if sw else 1 for _ in cls]
    e = {'op': 'lr', 'x': x, 'cls': cls, 'pi': pi, 'pd': sum(pi), 'v': v, 'lam': lam, 'bin': bn, 'how': how, 'bias': bias, 'lb': 1000 // (lam * bs * bs) if solver == 'liblinear' else 0, 'sh': 1,
         'ty': rnd.choice(['logit', 'logit', 'post', 'log-post'])}
    o.update({'e': e, 'solver': solver, 'bs': bs, 'pri': pri, 'sw': sw, 'again': rnd.random() < .3, 'how': 'tool' if t else 'data'})
    return o


def op_svm(rnd):
    K, D = rnd.choice([2, 3, 3]), rnd.choice([1, 2, 3])
    n = rnd.randint(2 * K, 12)
    cls = list(range(1, K + 1)) + [rnd.randint(1, K) for _ in range(n - K)]
    mu = [[rnd.randint(-3, 3) for _ in range(D)] for _ in range(K)]
    x = [[mu[c - 1][a] + rnd.randint(-2, 2) for a in range(D)] for c in cls]
    kw = {}
    for k, vs in (('C', [.1, 4.]), ('use_bias', [False]), ('bias_scaling', [2., 5.]), ('balance_class_weight', [True, False]), ('tol', [1e-6]), ('lr_seed', [7]), ('dual', [False]), ('multi_class', ['crammer_singer'])):
        if rnd.random() < .25:
            kw[k] = rnd.choice(vs)
    if rnd.random() < .15 and kw.get('dual', True):
        kw['loss'] = 'hinge'
    if rnd.random() < .15 and not kw.get('dual', True) and 'loss' not in kw:
        kw['penalty'] = 'l1'
    if 'multi_class' in kw and K == 2:
        del kw['multi_class']
    o = topts(rnd)
    t = rnd.random() < .3
    o.update({'e': {'op': 'svm', 'x': x, 'cls': cls, 'z': [[rnd.randint(-4, 4) for _ in range(D)] for _ in range(3)], 'ty': rnd.choice(['logit', 'logit', 'bin-logpost', 'bin-post', 'cat-logpost', 'cat-post'])},
              'kw': kw, 'how': 'tool' if t else 'data', 'sw': [rnd.randint(1, 3) for _ in x] if not t and rnd.random() < .3 else []})
    return o


def op_cal(rnd):
    if rnd.random() < .4:
        return {'e': {'op': 'caleval', 'm1': rnd.randint(-5, 9), 'm2': rnd.randint(-9, 5), 's2': rnd.randint(1, 9), 'x': [rnd.randint(-20, 20) for _ in range(rnd.choice([1, 4]))]}, 'file': rnd.random() < .3}
    n = rnd.randint(3, 12)
    while True:
        y = [rnd.randint(0, 1) for _ in range(n)]
        x = [rnd.randint(-9, 9) + 4 * t for t in y]
        if 0 < sum(y) < n and any(x[i] != x[j] and y[i] == y[j] for i in range(n) for j in range(n)):
            break
    sw = rnd.random() < .5
    o = topts(rnd)
    o.update({'e': {'op': 'cal', 'x': x, 'y': y, 'v': [rnd.randint(1, 3) if sw else 1 for _ in x]}, 'sw': sw, 'again': rnd.random() < .3, 'dtype': rnd.choice(['float64', 'float32', 'int64'])})
    return o


def given(rnd, K, D):
    return {'e': {'op': 'given', 'mu': [[rnd.randint(-4, 4) for _ in range(D)] for _ in range(K)], 'S': pd(rnd, D), 'beta': [rnd.randint(1, 16) for _ in range(K)], 'nu': rnd.choice([2, 6, 12, 30])}}


def gen_script(rnd):
    ops, regs = [], 0
    if rnd.random() < .55:
        K, D = rnd.choice([2, 2, 3]), rnd.choice([1, 2, 2, 3])
        for _ in range(rnd.randint(1, 2)):
            ops.append(given(rnd, K, D))
            regs += 1
        for _ in range(rnd.choice([1, 2, 3])):
            o = op_fit(rnd, regs, K, D)
            if o is not None:
                ops.append(o)
                regs += 1
    else:
        for _ in range(rnd.choice([1, 2, 3])):
            ops.append(rnd.choice([op_eval, op_eval, op_eval, op_up, op_upfit, op_q, op_q, op_qeval, op_lr, op_lr, op_svm, op_cal])(rnd))
    return {'style': rnd.randint(0, 3), 'ops': ops}


def from_model(rnd, c):
    """a chain of batches of one dimension: learn from the first one, adapt to each of the others"""
    ops = []
    for j, bt in enumerate(c['b']):
        o = topts(rnd)
        cls = [k - 1 for k in bt['c']]
        e = {'op': 'fit', 'x': [[v] for v in bt['x']], 'w': [[4 * (q == k) for k in range(2)] for q in cls], 'r': 0, 'pr': j, 'pb': -1, 'pn': -1, 'qb': -1, 'qn': -1, 'upmu': True, 'upW': True, 'bal': bool(c['bal'])}
        o.update({'e': e, 'cls': cls, 'sw': [], 'how': 'data', 'dtype': 'float64', 'object': False, 'empty': len(set(cls)) < 2, 'z': [[1], [-2]]})
        if not (j == 0 and len(set(cls)) < 2):
            ops.append(o)
    return {'style': rnd.randint(0, 3), 'ops': ops}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc']:
            continue
        if e['op'] in ('eval', 'up', 'qeval', 'svm'):
            e['y'][0][0] += 40 + abs(e['y'][0][0]) // 50
            return b
        if e['op'] in ('fit', 'upfit', 'q'):
            e['obs']['mu'][0][0] += 12
            return b
        if e['op'] == 'caleval':
            e['y'][0] += 40
            return b
        if e['op'] == 'cal':
            e['obs'][0] += 12
            return b
        if e['op'] == 'lr':
            e['pred'][0][0] += 9
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Classif', cfg='MC_Classif.cfg', want=200)
    if ck.thorough:
        ms += ck.model('MC_Classif', cfg='MC_Classif_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(500, 4000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(3500, 30000))]
    behs = ck.execute('checks.p28', scripts)
    ck.judge('Trace_Classif', behs, scripts, 'checks.p28', label='classifiers', batch=3000)
    ck.negative_control('Trace_Classif', behs[-600:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P28', run)
