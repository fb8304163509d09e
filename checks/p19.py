"""P19: agglomerative clustering and k-means."""
import random

import numpy as np
import vf
from vf import call

LINK = ('single', 'complete', 'average', 'weighted')


def execute(script, wd):
    return (ahc if script['what'] == 'ahc' else kmeans)(script)


def lab(a):
    return [vf.as_int(v) for v in np.asarray(a).ravel()]


def ahc(script):
    from hyperion.clustering.ahc import AHC
    m, metric = script['method'], script['metric']
    a, evs, n = None, [], 0

    def cut(k):
        return lab(a.get_flat_clusters(k, 'num_clusters') if script['generic'] else a.get_flat_clusters_from_num_clusters(k))
    for o in script['ops']:
        op = o['op']
        if op == 'fit':
            n = len(o['s'])
            s = np.array(o['s'], dtype=float)
            x = s if metric == 'llr' else s / 16 if metric == 'prob' else -s
            mk = np.array(o['mask']) if o['mask'] else None
            x0, m0 = x.copy(), None if mk is None else mk.copy()

            def f():
                nonlocal a
                if a is None or o['new']:
                    a = AHC(m, metric)
                a.fit(x) if mk is None else a.fit(x, mk) if script['generic'] else a.fit(x, mask=mk)
                if o['cache']:
                    a.compute_flat_clusters()
                return [cut(k) for k in range(n, 0, -1)]
            r, exc = call(f)
            evs.append({'op': op, 'exc': exc, 'n': n, 's': o['s'], 'mask': (mk if mk is not None else np.ones((n, n), bool)).tolist(), 'method': m, 'cuts': r or [],
                        'same': bool(np.array_equal(x, x0) and (mk is None or np.array_equal(mk, m0)))})
        elif op == 'num':
            r, exc = call(lambda: cut(o['k']))
            evs.append({'op': op, 'exc': exc, 'k': o['k'], 'lab': r or []})
        elif op == 'thr':
            t = o['t'][0] / o['t'][1]
            t = t if metric == 'llr' else t / 16 if metric == 'prob' else -t
            r, exc = call(lambda: lab(a.get_flat_clusters(t) if script['generic'] else a.get_flat_clusters_from_thr(t)))
            evs.append({'op': op, 'exc': exc, 't': o['t'], 'lab': r or []})
        else:
            r, exc = call(lambda: a.evaluate_impurity_det(np.array(o['labels'])))
            evs.append({'op': op, 'exc': exc, 'labels': o['labels'], 'h': [vf.as_int(round(v * 1000)) for v in (r or ([], []))[0]], 'c': [vf.as_int(round(v * 1000)) for v in (r or ([], []))[1]]})
        if evs[-1]['exc']:
            break
    return {'init': 0, 'ev': evs}


def kmeans(script):
    from hyperion.clustering.kmeans import KMeans
    evs = []
    km = None
    for o in script['ops']:
        x = np.array(o['x'], dtype=float) * script['u']
        if o['op'] == 'fit':
            def f():
                nonlocal km
                with np.errstate(all='ignore'):
                    if km is None or o['new']:
                        km = KMeans(o['k'], rtol=1. / o['rt'])
                    km.rtol = 1. / o['rt']
                    return km.fit(x, o['epochs'])
            if km is not None and not o['new'] and km.num_clusters != o['k']:
                km = None
            r, exc = call(f)
            loss, a = r or ([], [])
            u2 = script['u'] ** 2
            evs.append({'op': 'fit', 'exc': exc, 'x': o['x'], 'k': o['k'], 'rt': o['rt'], 'epochs': o['epochs'], 'loss': [vf.as_int(round(v / u2 * 10000)) for v in loss],
                        'tot': vf.as_int(round(loss[-1] / u2 * len(x) * 1000)) if len(loss) else 0, 'a': [v + 1 for v in lab(a)],
                        'mu': [[vf.as_int(round(v / script['u'] * 1000)) for v in row] for row in km.mu] if r else []})
        else:
            c = np.array(o['c'], dtype=float) * script['u']
            r, exc = call(lambda: KMeans(len(c), mu=c).predict(x))
            evs.append({'op': 'predict', 'exc': exc, 'x': o['x'], 'c': o['c'], 'a': [v + 1 for v in lab(r[0])] if r else [],
                        'err': [vf.as_int(round(v / script['u'] ** 2)) for v in r[1]] if r else []})
        if evs[-1]['exc']:
            break
    return {'init': 0, 'ev': evs}


def thresholds(rnd, m, lo, hi):
    j = rnd.randint(lo - 1, hi + 1)
    return {'op': 'thr', 't': [j, 1] if m in ('single', 'complete') and rnd.random() < 0.6 else [2 * j + 1, 2] if m in ('single', 'complete') else [64 * j + 3, 64] if m == 'average' else [3 * j + 1, 3]}


def after_fit(rnd, m, metric, n, lo, hi):
    ops = []
    for _ in range(rnd.choice([1, 2, 4])):
        z = rnd.random()
        if z < 0.45:
            ops.append(thresholds(rnd, m, lo, hi))
        elif z < 0.75:
            ops.append({'op': 'num', 'k': rnd.choice([1, 2, n - 1, n, n + 1, n + 5, rnd.randint(1, n)]) or 1})
        elif n <= 13:
            c = rnd.choice([1, 2, 3, n])
            ops.append({'op': 'det', 'labels': [rnd.randint(0, c) for _ in range(n)]})
    return ops


def gen_ahc(rnd):
    m, metric = rnd.choice(LINK), rnd.choice(['llr', 'llr', 'prob', 'euclidean', 'cosine'])
    ops = []
    for i in range(rnd.choice([1, 1, 2, 3])):
        n = rnd.choice([2, 3, 4, 5, 6, 8])
        if m == 'weighted':
            n = min(n, 6)
        lo, hi = {'llr': rnd.choice([(-3, 3), (-40, 40), (-9, -5), (3, 4)]), 'prob': (0, 16)}.get(metric, rnd.choice([(-9, 0), (-3, -1)]))
        s = [[0] * n for _ in range(n)]
        for a in range(n):
            for b in range(a, n):
                s[a][b] = s[b][a] = rnd.randint(lo, hi)
            if metric not in ('llr', 'prob'):
                s[a][a] = 0
        mask = None
        if rnd.random() < 0.4:
            mask = [[True] * n for _ in range(n)]
            pr = rnd.choice([0.1, 0.3, 0.7, 1.])
            for a in range(n):
                for b in range(a):
                    mask[a][b] = mask[b][a] = rnd.random() >= pr
        ops.append({'op': 'fit', 's': s, 'mask': mask, 'new': rnd.random() < 0.3, 'cache': rnd.random() < 0.5})
        ops += after_fit(rnd, m, metric, n, lo, hi)
    return {'what': 'ahc', 'method': m, 'metric': metric, 'generic': rnd.random() < 0.5, 'ops': ops}


def gen_kmeans(rnd):
    ops = []
    for _ in range(rnd.choice([1, 1, 2])):
        d, n = rnd.choice([1, 1, 2, 3]), rnd.randint(2, 8)
        v = rnd.choice([3, 9, 20])
        x = [[rnd.randint(-v, v) for _ in range(d)] for _ in range(n)]
        if rnd.random() < 0.75:
            k = rnd.randint(1, min(4, n))
            ops.append({'op': 'fit', 'x': x, 'k': k, 'rt': rnd.choice([1000, 1000, 10, 3]), 'epochs': rnd.choice([1, 2, 3, 5, 10]), 'new': rnd.random() < 0.5})
        else:
            ops.append({'op': 'predict', 'x': x, 'c': [[rnd.randint(-v, v) for _ in range(d)] for _ in range(rnd.randint(1, 4))]})
    return {'what': 'kmeans', 'u': rnd.choice([1., 0.5, 8.]), 'ops': ops}


def gen_script(rnd, what='ahc'):
    return gen_ahc(rnd) if what == 'ahc' else gen_kmeans(rnd)


def from_ahc(rnd, m):
    n, mx = len(m['s']), max(max(r) for r in m['s'])
    metric = rnd.choice(['llr', 'prob', 'euclidean'])
    s = m['s'] if metric != 'euclidean' else [[(v - mx) * (a != b) for b, v in enumerate(r)] for a, r in enumerate(m['s'])]
    return {'what': 'ahc', 'method': m['method'], 'metric': metric, 'generic': rnd.random() < 0.5,
            'ops': [{'op': 'fit', 's': s, 'mask': m['mask'] if not all(map(all, m['mask'])) else None, 'new': True, 'cache': rnd.random() < 0.5}]
            + after_fit(rnd, m['method'], metric, n, min(map(min, s)), max(map(max, s)))}


def corrupt(b):
    e = b['ev'][0]
    if e['op'] == 'fit' and 'cuts' in e and e['n'] > 2:
        e['cuts'][1] = list(e['cuts'][0])
        return b
    if e['op'] == 'fit' and 'mu' in e and len(set(map(tuple, e['x']))) > 2:
        e['loss'].append(e['loss'][-1] + 5000)
        return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    scripts = []
    for cfg in ['MC_Ahc', 'MC_Ahc_mask'] + ck.pick([], ['MC_Ahc_deep', 'MC_Ahc_maskdeep']):
        ms = ck.model('MC_Ahc', cfg=cfg + '.cfg', want=200, timeout=ck.pick(600, 1500))
        rnd.shuffle(ms)
        scripts += [from_ahc(rnd, m) for m in ms[:ck.pick(600, 6000)]]
    for i in range(ck.pick(2500, 30000)):
        scripts.append(gen_ahc(rnd))
    behs = ck.execute('checks.p19', scripts)
    ck.judge('Trace_Ahc', behs, scripts, 'checks.p19', label='agglomerative clustering', batch=1500)
    ck.negative_control('Trace_Ahc', behs[-300:], corrupt, n=20)
    scripts = []
    for cfg in ['MC_KMeans', 'MC_KMeans2'] + ck.pick([], ['MC_KMeans_deep']):
        ms = ck.model('MC_KMeans', cfg=cfg + '.cfg', want=50, timeout=ck.pick(600, 1500))
        rnd.shuffle(ms)
        for m in ms[:ck.pick(400, 4000)]:
            scripts.append({'what': 'kmeans', 'u': 1., 'ops': [{'op': 'fit', 'x': m['x'], 'k': rnd.choice([2, 3]), 'rt': 1000, 'epochs': rnd.choice([1, 2, 10]), 'new': True}]})
    for i in range(ck.pick(2000, 20000)):
        scripts.append(gen_kmeans(rnd))
    behs = ck.execute('checks.p19', scripts)
    ck.judge('Trace_KMeans', behs, scripts, 'checks.p19', label='k-means', batch=1000)
    ck.negative_control('Trace_KMeans', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P19', run)
