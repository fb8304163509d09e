"""P22: score normalisation."""
import math
import random

import numpy as np
import vf
from vf import call

KINDS = ['z', 't', 's', 'zt', 'tz', 'as']
BIG = 1000000000


def q100(v):
    if v != v:
        return 2 * BIG
    return int(max(-BIG, min(BIG, round(float(v) * 100))))


def execute(script, wd):
    from hyperion.score_norm import ZNorm, TNorm, SNorm, ZTNorm, TZNorm, AdaptSNorm
    evs, objs = [], {}
    for o in script['ops']:
        k = o['kind']
        A = {n: np.asfortranarray(np.array(o[n], dtype=o['dtype'])) if o['fort'] else np.array(o[n], dtype=o['dtype']) for n in ('sc', 'ec', 'ct', 'cc')}
        M = {n: (np.array(o[n], dtype=o['mtype']) if o['use'][n] else None) for n in ('mec', 'mct', 'mcc')}
        for n in M:
            if not o['use'][n]:
                o = dict(o, **{n: [[True] * len(r) for r in o[n]]})
        if k == 'as' and (o['use']['mec'] or o['use']['mct']) and o['int_mask']:
            M = {n: m if m is None else m.astype('int64') for n, m in M.items()}
        before = {n: a.copy() for n, a in list(A.items()) + [(n, m) for n, m in M.items() if m is not None]}

        def f():
            kw = {} if o['fl'] is None else {'std_floor': o['fl'][0] / o['fl'][1]}
            key = (k, str(kw), o['nb'], o['nd'])
            if o['again'] and key in objs:
                m = objs[key]
            elif k == 'as':
                if o['nb'] != 100:
                    kw['nbest'] = o['nb']
                if o['nd']:
                    kw['nbest_discard'] = o['nd']
                m = AdaptSNorm(**kw)
            else:
                m = {'z': ZNorm, 't': TNorm, 's': SNorm, 'zt': ZTNorm, 'tz': TZNorm}[k](**kw)
            objs[key] = m
            with np.errstate(all='ignore'):
                if k == 'z':
                    return m.predict(A['sc'], A['ec']) if M['mec'] is None else m.predict(A['sc'], A['ec'], M['mec'])
                if k == 't':
                    return m.predict(A['sc'], A['ct'], mask=M['mct'])
                a = [A['sc'], A['ct'], A['ec']] + ([A['cc']] if k in ('zt', 'tz') else [])
                kw2 = {n: M[m] for n, m in (('mask_coh_test', 'mct'), ('mask_enr_coh', 'mec'), ('mask_coh_coh', 'mcc')) if M[m] is not None and (m != 'mcc' or k in ('zt', 'tz'))}
                return m.predict(*a, **kw2)
        y, exc = call(f)
        same = all(np.array_equal(before[n], (A.get(n) if n in A else M[n])) for n in before)
        c = math.sqrt(2) if k in ('s', 'as') else 1
        e = {n: o[n] for n in ('kind', 'sc', 'ec', 'ct', 'cc', 'mec', 'mct', 'mcc', 'nb', 'nd')}
        e.update(op='norm', exc=exc, same=bool(same), fl=o['fl'] or [0, 1], y=[] if exc else [[q100(v * c) for v in r] for r in np.asarray(y)])
        for n in ('mec', 'mct', 'mcc'):
            e[n] = [[bool(b) for b in r] for r in e[n]]
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


def mask(rnd, r, c, axis, full=0.4):
    if rnd.random() < full:
        return [[True] * c for _ in range(r)]
    m = np.array([[rnd.random() < 0.7 for _ in range(c)] for _ in range(r)])
    for i in range(m.shape[1 - axis]):
        v = m[:, i] if axis == 0 else m[i]
        if not v.any():
            v[rnd.randrange(len(v))] = True
    return m.tolist()


def matrix(rnd, r, c, v):
    return [[rnd.randint(-v, v) for _ in range(c)] for _ in range(r)]


def op(rnd, kind=None):
    k = kind or rnd.choice(KINDS)
    I, J, N = rnd.choice([1, 1, 2, 3]), rnd.choice([1, 2, 3]), rnd.choice([1, 2, 3, 4, 5] if k not in ('zt', 'tz') else [2, 3, 4])
    D = N if k in ('as', 'zt', 'tz') or rnd.random() < 0.5 else rnd.randint(1, 5)
    if k in ('zt', 'tz'):
        D = rnd.choice([2, 3, 4])
    v = rnd.choice([1, 3, 5, 9])
    return {'kind': k, 'sc': matrix(rnd, I, J, v), 'ec': matrix(rnd, I, D, v), 'ct': matrix(rnd, N, J, v), 'cc': matrix(rnd, N, D, v),
            'mec': mask(rnd, I, D, 1), 'mct': mask(rnd, N, J, 0), 'mcc': mask(rnd, N, D, 1 if k == 'zt' else 0), 'nb': rnd.choice([1, 2, 3, 4, 100]), 'nd': rnd.choice([0, 0, 0, 1, 2]) if N > 2 else 0,
            'fl': rnd.choice([None, None, [1, 4], [1, 1], [2, 1]]), 'dtype': rnd.choice(['float64', 'float32']), 'mtype': rnd.choice(['bool', 'bool', 'int64', 'float64']) if k != 'as' else 'bool',
            'use': {n: rnd.random() < 0.6 for n in ('mec', 'mct', 'mcc')}, 'int_mask': rnd.random() < 0.3, 'again': rnd.random() < 0.6, 'fort': rnd.random() < 0.2}


def gen_script(rnd):
    return {'ops': [op(rnd) for _ in range(rnd.choice([1, 2, 3]))]}


def from_model(rnd, m):
    o = dict(op(rnd, 'as'), **{n: m[n] for n in ('sc', 'ec', 'ct', 'mec', 'mct', 'nb', 'nd', 'fl')})
    N = len(m['ct'])
    o['cc'], o['mcc'] = matrix(rnd, N, N, 3), mask(rnd, N, N, 0)
    o['use'] = {'mec': not all(m['mec'][0]) or rnd.random() < 0.5, 'mct': not all(r[0] for r in m['mct']) or rnd.random() < 0.5, 'mcc': False}
    return {'ops': [o] + [dict(o, kind=k) for k in rnd.sample(['z', 't', 's'], 1)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if not e['exc'] and e['kind'] in ('z', 't', 's') and abs(e['y'][0][0]) < 100000:
            e['y'][0][0] += 50 + abs(e['y'][0][0]) // 5
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_ScoreNorm', cfg='MC_ScoreNorm.cfg', want=100)
    if ck.thorough:
        ms += ck.model('MC_ScoreNorm', cfg='MC_ScoreNorm_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(700, 5000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(6000, 60000))]
    behs = ck.execute('checks.p22', scripts)
    ck.judge('Trace_ScoreNorm', behs, scripts, 'checks.p22', label='score norm', batch=4000)
    ck.negative_control('Trace_ScoreNorm', behs[-400:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P22', run)
