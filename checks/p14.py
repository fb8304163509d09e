"""P14: detection metrics against counts."""
import math
import os
import random

import numpy as np

import vf
from vf import call


def h(v):
    return vf.as_int(round(float(v) * 100000))


def cnt(v, n):
    k = float(v) * n
    if abs(k - round(k)) > 1e-6:
        return -1
    return vf.as_int(round(k))


def execute(script, wd):

    import sys
    from hyperion.metrics import roc as R, utils as U, cllr as C, dcf as D, eer as E
    import hyperion.metrics.confusion_matrix, hyperion.metrics.acc
    CM, AC = sys.modules['hyperion.metrics.confusion_matrix'], sys.modules['hyperion.metrics.acc']
    evs = []
    for o in script['ops']:
        op = o['op']
        e = dict(o, exc='', same=True)
        rnd = random.Random(o['seed'])
        tar, non = list(o.get('tar', [])), list(o.get('non', []))
        # any order, and any increasing map where the metric is free of it
        rnd.shuffle(tar)
        rnd.shuffle(non)
        mp = [lambda v: v * 0.5, lambda v: math.exp(v * 0.25), lambda v: 3. * v - 7, lambda v: math.atan(v * 0.1), lambda v: v * 1e-8][o.get('map', 0) if op in ('roc', 'rocch', 'eer', 'auc', 'opt', 'dcf') else 0]
        dt = 'f4' if o.get('f4') and o.get('map', 0) in (0, 2) else 'f8'
        if op == 'cllr':
            mp = lambda v: v * math.log(2)
        a = np.array([mp(v) for v in tar], dt)
        b = np.array([mp(v) for v in non], dt)
        a0, b0 = a.copy(), b.copy()
        nt, nn = len(tar), len(non)

        def go():
            if op == 'roc' or op == 'rocch':
                pm, pf = (R.compute_roc if op == 'roc' else R.compute_rocch)(a, b)
                return {'miss': [cnt(v, nt) for v in pm], 'fa': [cnt(v, nn) for v in pf]}
            if op == 'eer':
                if o['fast']:
                    r = D.fast_eval_dcf_eer(a, b, 0.5)
                    return {'eer': h(r[2]), 'prbep': h(r[3])}
                return {'eer': h(E.compute_eer(a, b)), 'prbep': h(E.compute_prbep(a, b))}
            if op == 'auc':
                return {'auc': h(R.compute_area_under_rocch(*R.compute_rocch(a, b)))}
            if op == 'dcf':
                # scores are ratios for the actual cost only
                x, y = np.array([v * 0.5 for v in tar], dt), np.array([v * 0.5 for v in non], dt)
                pr = [p / float(q) for p, q in o['priors']]
                pr = pr[0] if o['scalar'] and len(pr) == 1 else (np.array(pr) if o['arr'] else pr)
                mn, pm, pf = D.compute_min_dcf(a, b, pr, o['norm'])
                ac, am, af = D.compute_act_dcf(x, y, pr, o['norm'])
                if o['fast']:
                    mn = D.fast_eval_dcf_eer(a, b, pr, o['norm'])[0]
                    ac = D.fast_eval_dcf_eer(x, y, pr, o['norm'])[1]
                mn, pm, pf, ac, am, af = [np.atleast_1d(np.asarray(v)) for v in (mn, pm, pf, ac, am, af)]
                return {'min': [h(v) for v in mn], 'act': [h(v) for v in ac], 'minpt': [[cnt(u, nt), cnt(v, nn)] for u, v in zip(pm, pf)],
                        'actpt': [[cnt(u, nt), cnt(v, nn)] for u, v in zip(am, af)]}
            if op == 'pav':
                y = np.array(o['y'], 'i8' if o['int'] else 'f8')
                y0 = y.copy()
                g, w, ht = U.pavx(y)
                e['same'] = bool((y == y0).all())
                return {'fit': [h(v) for v in g], 'width': [vf.as_int(int(v)) for v in w], 'height': [h(v) for v in ht]}
            if op == 'opt':
                t, n = U.opt_loglr(a, b, 'laplace' if o['laplace'] else 'raw')
                pl = math.log(nt / float(nn))

                def post(v):
                    v = float(v) + pl
                    return 1. if v > 500 else 0. if v < -500 else 1 / (1 + math.exp(-v))
                # back to the order of the script
                pt = dict(zip([float(v) for v in a], [post(v) for v in t]))
                pn = dict(zip([float(v) for v in b], [post(v) for v in n]))
                q = lambda v: float(np.array([mp(v)], dt)[0])
                return {'pt': [h(pt[q(v)]) for v in o['tar']] if len(t) == nt else [], 'pn': [h(pn[q(v)]) for v in o['non']] if len(n) == nn else []}
            if op == 'cllr':
                u, v = U.opt_loglr(a, b, 'raw')
                s = [vf.as_int(round(float(f) * 1000000)) for f in (C.compute_cllr(a, b), C.compute_min_cllr(a, b), C.compute_cllr(u, v))]
                return dict(zip(('cllr', 'min', 'minref'), s))
            if op == 'filter':
                P = o['pts']
                m, f = R.filter_roc(np.array([p[0] for p in P]) / 64., np.array([p[1] for p in P]) / 64.)
                return {'kept': [[cnt(x, 64), cnt(y, 64)] for x, y in zip(m, f)]}
            if op == 'conf':
                nm = (lambda v: v) if o['int'] else (lambda v: 'c' + 'x' * (v % 3) + str(v))
                mk = (lambda v: v) if o['lists'] else (lambda v: np.array(v))
                y, p = mk([nm(v) for v in o['y']]), mk([nm(v) for v in o['p']])
                w = None if o['now'] else np.array(o['w'], float)
                kw = {}
                if o['x']:
                    if o['lab']:
                        kw = {'labels_train': mk([nm(v) for v in o['cols']]), 'labels_test': mk([nm(v) for v in o['rows']])}
                elif o['lab']:
                    kw = {'labels': mk([nm(v) for v in o['rows']])}
                keep = [list(q) for q in (y, p) + tuple(kw.values())]
                r = (CM.compute_xlabel_confusion_matrix if o['x'] else CM.compute_confusion_matrix)(y, p, normalize=o['norm'], sample_weight=w, **kw)
                e['same'] = keep == [list(q) for q in (y, p) + tuple(kw.values())]
                f = os.path.join(wd, 'c')
                with open(f, 'w') as g:
                    CM.write_confusion_matrix(g, r if o['norm'] else r.astype(int), [str(nm(v)) for v in o['rows']], [str(nm(v)) for v in o['cols']])
                L = [l.split() for l in open(f)]
                ok = L[0] == [str(nm(v)) for v in o['cols']] and [l[0] for l in L[1:]] == [str(nm(v)) for v in o['rows']] and \
                    all(abs(float(x) - float(z)) <= 0.006 for l, row in zip(L[1:], r) for x, z in zip(l[1:], row))
                if not ok:
                    return {'c': []}
                return {'c': [[h(v) for v in row] for row in r]}
            if op == 'acc':
                y, p = np.array(o['y']), np.array(o['p'])
                w = None if o['now'] else np.array(o['w'], float)
                return {'acc': h(AC.compute_accuracy(y, p, o['norm'], w))}
            if op == 'eff':
                return {'out': h(U.effective_prior(o['pa'] / float(o['pb']), o['cm'], o['cf']))}
        v, exc = call(go)
        e['exc'] = exc
        if v is not None:
            e.update(v)
        if not ((a == a0).all() and (b == b0).all()):
            e['same'] = False
        evs.append(e)
    return {'init': {'none': True}, 'ev': evs}


PRIORS = [(1, 100), (1, 20), (1, 10), (1, 5), (1, 4), (1, 2), (2, 3), (3, 4), (9, 10)]


def scores(rnd):
    w = rnd.choice([1, 2, 4, 10, 30])
    c = rnd.randint(-2, 4)
    nt, nn = rnd.choice([1, 1, 2, 3, 4, 6, 8]), rnd.choice([1, 2, 3, 4, 6, 9])
    k = rnd.random()
    tar = [rnd.randint(-w, w) + c for _ in range(nt)]
    non = [rnd.randint(-w, w) for _ in range(nn)]
    if k < 0.1:
        tar = [v + 2 * w + 3 for v in tar]
    elif k < 0.2:
        tar = [v - 2 * w - 8 for v in tar]
    return tar, non


def with_scores(rnd, op, tar, non):
    o = {'op': op, 'seed': rnd.randint(0, 9999), 'tar': tar, 'non': non, 'map': rnd.randint(0, 4), 'f4': rnd.random() < 0.2}
    if op == 'eer':
        o['fast'] = rnd.random() < 0.4
    if op == 'dcf':
        ps = sorted(rnd.sample(PRIORS, rnd.randint(1, 4)), key=lambda p: p[0] / float(p[1]))
        if rnd.random() < 0.15:
            ps.insert(0, ps[0])
        o.update(priors=[list(p) for p in ps], scalar=rnd.random() < 0.6, arr=rnd.random() < 0.5, norm=rnd.random() < 0.6, fast=rnd.random() < 0.4)
    if op == 'opt':
        o['laplace'] = rnd.random() < 0.5
    if op == 'cllr':
        o['f4'] = False
    return o


OPS = ['roc', 'rocch', 'eer', 'dcf', 'opt', 'cllr', 'auc']


def gen_script(rnd):
    ops = []
    for _ in range(rnd.randint(3, 6)):
        k = rnd.random()
        sd = {'seed': rnd.randint(0, 9999)}
        if k < 0.7:
            ops.append(with_scores(rnd, rnd.choice(OPS), *scores(rnd)))
        elif k < 0.78:
            ops.append(dict(sd, op='pav', y=[rnd.randint(-6, 6) for _ in range(rnd.randint(1, 9))], int=rnd.random() < 0.3))
        elif k < 0.84:
            p, P = [0, 64], [[0, 64]]
            while p != [64, 0]:
                d = rnd.choice([(1, 0), (0, 1), (1, 1)])
                p = [min(64, p[0] + d[0] * rnd.choice([1, 8, 20])), max(0, p[1] - d[1] * rnd.choice([1, 8, 20]))]
                if p != P[-1]:
                    P.append(p)
            ops.append(dict(sd, op='filter', pts=P))
        elif k < 0.94:
            n = rnd.randint(1, 8)
            x = rnd.random() < 0.6
            R = rnd.sample(range(0, 7), rnd.randint(1, 4))
            K = rnd.sample(range(0, 7), rnd.randint(1, 4)) if x else R
            y, p = [rnd.choice(R) for _ in range(n)], [rnd.choice(K) for _ in range(n)]
            lab = rnd.random() < 0.6
            norm = rnd.random() < 0.5
            if norm:
                # every class has samples
                y += R
                p += [rnd.choice(K) for _ in R]
            if not lab:
                R, K = sorted(set(y)), sorted(set(p))
                if not x:
                    R = K = sorted(set(y) | set(p))
            if norm and not set(R) <= set(y):
                norm = False
            it = rnd.random() < 0.6
            if not it:
                # names sort as the numbers do
                nm = lambda v: 'c' + 'x' * (v % 3) + str(v)
                if not lab:
                    R, K = sorted(R, key=nm), sorted(K, key=nm)
                    if not x:
                        K = R
            now = rnd.random() < 0.5
            ops.append(dict(sd, op='conf', x=x, lab=lab, rows=R, cols=K, y=y, p=p, w=[1 if now else rnd.randint(1, 5) for _ in y], now=now, norm=norm, int=it, lists=rnd.random() < 0.3))
        elif k < 0.97:
            n = rnd.randint(1, 8)
            now = rnd.random() < 0.5
            ops.append(dict(sd, op='acc', y=[rnd.randint(0, 3) for _ in range(n)], p=[rnd.randint(0, 3) for _ in range(n)], now=now, w=[1 if now else rnd.randint(1, 5) for _ in range(n)], norm=rnd.random() < 0.6))
        else:
            q = rnd.randint(2, 20)
            ops.append(dict(sd, op='eff', pa=rnd.randint(1, q - 1), pb=q, cm=rnd.randint(1, 10), cf=rnd.randint(1, 10)))
    return {'ops': ops}


def from_model(rnd, m):
    return {'ops': [with_scores(rnd, op, m['tar'], m['non']) for op in OPS]}


def corrupt(b):
    for e in b['ev']:
        if e['op'] == 'eer':
            e['eer'] += 4000
            return b
        if e['op'] == 'rocch' and len(e['miss']) > 1:
            e['miss'] = e['miss'][1:]
            e['fa'] = e['fa'][1:]
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Metrics', want=200)
    if ck.thorough:
        ck.model('MC_Metrics', cfg='MC_Metrics_deep.cfg', timeout=1800)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(700, 10000)]]
    for i in range(ck.pick(2500, 60000)):
        scripts.append(gen_script(rnd))
    behs = ck.execute('checks.p14', scripts)
    ck.judge('Trace_Metrics', behs, scripts, 'checks.p14', label='metrics', batch=1500)
    ck.negative_control('Trace_Metrics', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P14', run)
