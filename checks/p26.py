"""P26: evaluation tools of the command line."""
import os
import random
import runpy
import sys
import types

import numpy as np
import vf
from vf import call
from checks import p25

LN2 = np.log(2.)
NA = -999999
SETS = ['enroll-test', 'enroll-coh', 'coh-test', 'coh-coh']


def tool(name, argv):
    import hyperion
    p = os.path.join(os.path.dirname(hyperion.__file__), 'bin', name + '.py')
    old = sys.argv
    sys.argv = [p] + [str(a) for a in argv]
    try:
        runpy.run_path(p, run_name='__main__')
    except SystemExit as ex:
        if ex.code:
            raise RuntimeError('exit status %s' % ex.code)
    finally:
        sys.argv = old


def q(v, s=1000):
    v = float(v) * s
    return int(round(v)) if np.isfinite(v) and abs(v) < 2e9 else NA


class World(object):
    """names and files of one script"""

    def __init__(self, style, wd):
        self.style, self.wd, self.n, self.back = style, wd, 0, {}

    def name(self, k):
        s = [lambda: 'k%d' % k, lambda: 'spk-%s_%d' % ('zyxw'[k % 4], 7 * k), lambda: 'f%d.b%s' % (k * 37 % 101, 'a' * (k % 3)) + str(k), lambda: '%03d' % (900 - k)][self.style]()
        self.back[s] = k
        return s

    def key(self, s):
        return self.back.get(str(s), -1)

    def path(self, ext):
        self.n += 1
        return os.path.join(self.wd, 'f%d%s' % (self.n, ext))

    def lines(self, rows, ext='.lst'):
        p = self.path(ext)
        with open(p, 'w') as f:
            f.writelines(' '.join(r) + '\n' for r in rows)
        return p

    def vectors(self, emb, kind):
        from hyperion.io import DataWriterFactory as DWF
        p = self.path('')
        spec = 'h5:%s.h5' % p if kind == 'h5' else 'ark,scp:%s.ark,%s.scp' % (p, p)
        with DWF.create(spec) as w:
            for k, v in emb:
                w.write([self.name(k)], [np.array(v, dtype='float32')])
        return {'h5': 'h5:%s.h5', 'scp': 'scp:%s.scp'}[kind] % p

    def chain(self, chain, tl):
        if not chain:
            return None
        from hyperion.transforms import TransformList, CentWhiten, LDA, PCA, MVN
        ts = []
        for i, c in enumerate(chain):
            mu, T = np.array(c['mu'], dtype='float64'), np.array(c['T'], dtype='float64')
            kw = {'name': 't%d' % i}
            if c['cls'] == 'MVN':
                ts.append(MVN(mu=mu, s=np.ones(len(mu)), **kw))
            else:
                ts.append({'CentWhiten': CentWhiten, 'LDA': LDA, 'PCA': PCA}[c['cls']](mu=mu, T=T, **kw))
        p = self.path('.h5')
        TransformList(ts).save(p)
        return p

    def save_table(self, t, ext):
        from hyperion.utils.trial_scores import TrialScores
        p = self.path(ext)
        TrialScores([self.name(m) for m in t['m']], [self.name(s) for s in t['s']], np.array(t['v'], dtype='float64')).save(p)
        return p

    def table(self, p, s=1000):
        if p.endswith('.txt'):
            rows = [l.split() for l in open(p)]
            ms, ss = sorted({r[0] for r in rows}), sorted({r[1] for r in rows})
            d = {(r[0], r[1]): float(r[2]) for r in rows}
            if len(d) != len(rows):
                return {'m': [], 's': [], 'v': []}
            return {'m': [self.key(m) for m in ms], 's': [self.key(k) for k in ss], 'v': [[q(d[m, k], s) if (m, k) in d else NA for k in ss] for m in ms]}
        from hyperion.utils.trial_scores import TrialScores
        t = TrialScores.load(p)
        return {'m': [self.key(m) for m in t.model_set], 's': [self.key(k) for k in t.seg_set],
                'v': [[q(v, s) if b else NA for v, b in zip(r, k)] for r, k in zip(t.scores, t.score_mask)]}


def execute(script, wd):
    w = World(script['style'], os.path.join(wd, ''))
    evs = []
    for o in script['ops']:
        e = dict(o['e'])
        e.setdefault('tool', e['op'])
        e['exc'] = ''
        r, exc = call(globals()['do_' + o['e']['op']], w, o, dict(o['e']))
        e['exc'] = exc
        if not exc:
            e.update(r)
        evs.append(e)
    return {'init': 0, 'ev': evs}


def do_eval(w, o, e):
    from hyperion.utils.trial_ndx import TrialNdx
    vf_ = w.vectors(e['emb'], o['vec'])
    en = w.lines([(w.name(k), w.name(m)) for k, m in e['enr']])
    ndx = w.path(o['nx'])
    n = e['ndx']
    TrialNdx([w.name(m) for m in n['m']], [w.name(s) for s in n['s']], np.array(n['mask'], dtype=bool)).save(ndx)
    argv = ['--iv-file', vf_, '--ndx-file', ndx, '--enroll-file', en]
    if e['set'] in ('enroll-coh', 'coh-coh') or o['tst']:
        argv += ['--test-file', w.lines([(w.name(k), w.name(k)) for k in e['test']])]
    if e['set'] != 'enroll-test' or o['tst']:
        argv += ['--eval-set', e['set']]
    ch = w.chain(e['chain'], o['tl'])
    if ch:
        argv += ['--preproc-file', ch]
    ref = {'m': [], 's': [], 'v': []}
    if e['tool'] != 'cos':
        g = p25.make(o['m'], o['x'])
        mf = w.path('.h5')
        g.save(mf)
        argv += ['--model-file', mf]
        if o['m']['kind'] != 'splda' or o['tst']:
            argv += ['--plda-type', o['m']['kind']]
        if e['tool'] == 'pldan':
            if e['method'] != 'vavg-lnorm' or o['tst']:
                argv += ['--pool-method', e['method']]
            if e['method'] == 'vavg-lnorm':
                ref = reference(g, e)
    tl = {'cos': 'eval-cos-1vs1', 'plda1': 'eval-plda-1vs1', 'pldan': 'eval-plda-nvs1'}[e['tool']]
    obs = []
    M, S = e['parts']
    for i in range(M):
        for j in range(S):
            out = w.path(o['ext'])
            a = argv + ['--score-file', out]
            if M > 1 or o['tst']:
                a += ['--num-model-parts', M, '--model-part-idx', i + 1]
            if S > 1:
                a += ['--num-seg-parts', S, '--seg-part-idx', j + 1]
            tool(tl, a)
            obs.append(w.table(out))
    return {'obs': obs, 'ref': ref}


def reference(g, e):
    """length normalised averages, by the library on the right vectors"""
    d = {k: np.array(v, dtype='float64') for k, v in e['emb']}
    for c in e['chain']:
        d = {k: (v - np.array(c['mu'])) @ np.array(c['T'], dtype='float64') for k, v in d.items()}
    ms = sorted({m for _, m in e['enr']}) if e['set'].startswith('coh') else sorted(e['ndx']['m'])
    ss = e['test'] if e['set'].endswith('coh') else e['ndx']['s']
    rows = [(ms.index(m), k) for k, m in e['enr'] if m in ms]
    v = g.llr_Nvs1(np.array([d[k] for _, k in rows]), np.array([d[k] for k in ss]), method='vavg-lnorm', ids1=np.array([i for i, _ in rows]))
    return {'m': ms, 's': list(ss), 'v': [[q(t) for t in r] for r in v]}


def do_cls(w, o, e):
    from hyperion.classifiers import LinearGBE, LogisticRegression, LinearSVMC
    A, b = np.array(e['A'], dtype='float64'), np.array(e['b'], dtype='float64')
    mf = w.path('.h5')
    if e['tool'] == 'gbe':
        g = LinearGBE(mu=A, W=2 * LN2 * np.eye(A.shape[1]), beta=np.ones(len(A)), nu=10. * np.ones(1), name='g')
    else:
        g = {'lr': LogisticRegression, 'svm': LinearSVMC}[e['tool']](A=(A * LN2).T, b=b * LN2, name='c')
    g.save(mf)
    v = w.vectors(e['emb'], 'h5')[3:]
    argv = ['--iv-file', v, '--class2int-file', w.lines([(w.name(c), str(i)) for i, c in enumerate(e['cls'])]),
            '--test-file', w.lines([(w.name(k),) + (('x',) if o['two'] else ()) for k in e['test']]), '--model-file', mf]
    ch = w.chain(e['chain'], 0)
    if ch:
        argv += ['--preproc-file', ch]
    ty = e['type']
    if e['tool'] == 'gbe':
        argv += ['--normalize'] if ty == 'normalized' else ['--eval-method', ty]
    elif ty != 'logit' or o['two']:
        argv += ['--eval-type', ty]
    obs, vecs = [], []
    for j in range(e['parts']):
        out, vs = w.path(o['ext']), w.path('.h5')
        a = argv + ['--score-file', out]
        if e['parts'] > 1:
            a += ['--num-seg-parts', e['parts'], '--seg-part-idx', j + 1]
        if o['vs']:
            a += ['--vector-score-file', vs]
        tool({'gbe': 'eval-linear-gbe', 'lr': 'eval-logistic-regression', 'svm': 'eval-linear-svmc'}[e['tool']], a)
        obs.append(w.table(out))
        if o['vs']:
            import h5py
            with h5py.File(vs, 'r') as f:
                vecs.append([[w.key(k), [q(t) for t in f[k]]] for k in f])
    return {'obs': obs, 'vecs': vecs}


def do_v2s(w, o, e):
    v = w.vectors([(k, [t / 1000. for t in x]) for k, x in e['vecs']], o['vec'])
    out = w.path(o['ext'])
    tool('vectors2scores', ['--input-file', v, '--output-file', out, '--class-file', w.lines([(w.name(c), str(i)) for i, c in enumerate(e['cls'])])])
    return {'obs': w.table(out)}


def do_lre(w, o, e):
    t = dict(e['t'], v=[[x / 1000. for x in r] for r in e['t']['v']])
    out = w.path('.tsv')
    argv = ['--input-file', w.save_table(t, o['ext']), '--output-file', out]
    xt = ['.sph', '.flac']
    if e['test']:
        argv += ['--test-list', w.lines(([('segmentid', 'language')] if o['hd'] else []) + [(w.name(k) + (xt[k % 2] if o['addx'] else ''), 'x') for k in e['test']])]
        if o['addx']:
            argv += ['--add-ext']
    if e['cls']:
        argv += ['--class-file', w.lines([(w.name(c), str(i)) for i, c in enumerate(e['cls'])])]
    tool('scores2lre_format', argv)
    rows = [l.rstrip('\n').split('\t') for l in open(out)]
    ok, rs = rows[0][0] == 'segmentid', []
    for r in rows[1:]:
        k = r[0]
        if e['test'] and o['addx']:
            k, x = os.path.splitext(k)
            ok = ok and x == xt[w.key(k) % 2]
        rs.append([w.key(k), [q(v) for v in r[1:]]])
    return {'head': [w.key(m) for m in rows[0][1:]], 'rows': rs, 'exts': bool(ok)}


def do_norm(w, o, e):
    out = w.path(o['ext'])
    kind = {'as': 's'}.get(e['kind'], e['kind'])
    argv = ['--score-file', w.save_table(e['t'], o['ext']), '--output-file', out]
    for n, k in (('ec', 'enr-coh'), ('ct', 'coh-test'), ('cc', 'coh-coh')):
        if e[n]['m']:
            argv += ['--%s-file' % k, w.save_table(e[n], o['ext'])]
    if kind != 's' or o['say']:
        argv += ['--norm-type', kind + '-norm']
    if e['kind'] == 'as':
        argv += ['--adapt-coh', e['nb']]
    tool('eval-score-norm', argv)
    t = w.table(out, 100 * (np.sqrt(2) if kind == 's' else 1))
    ms, ss = e['t']['m'], e['t']['s']
    if sorted(t['m']) == sorted(ms) and sorted(t['s']) == sorted(ss):     # the order of text files is that of the names
        t = {'m': ms, 's': ss, 'v': [[t['v'][t['m'].index(m)][t['s'].index(k)] for k in ss] for m in ms]}
    return {'obs': t}


def do_perf(w, o, e):
    from hyperion.utils.trial_key import TrialKey
    k = e['key']
    lab = np.array(k['lab'])
    kp = w.path(o['nx'])
    TrialKey([w.name(m) for m in k['m']], [w.name(s) for s in k['s']], lab == 1, lab == 2).save(kp)
    base = os.path.join(w.wd, o['dir'], 'res%d' % w.n)
    tool('eval-2class-performance', ['--score-file', w.save_table(e['t'], o['ext']), '--key-file', kp, '--output-path', base])
    d = dict(l.split() for l in open(base + '.res'))
    return {'eer': q(float(d['EER']), 10000), 'nt': int(d['NTAR']), 'nn': int(d['NNON'])}


# ------------------------------------------------------------------ scripts
def inv(A):
    B = np.linalg.inv(np.array(A, dtype='float64'))
    assert np.allclose(B, np.round(B))
    return np.round(B).astype(int)


def chain(rnd, d):
    st = []
    for _ in range(rnd.choice([0, 0, 1, 1, 2, 3])):
        c = rnd.choice(['CentWhiten', 'LDA', 'PCA', 'MVN'])
        T = [[int(i == j) for j in range(d)] for i in range(d)]
        if c != 'MVN' and d > 1:
            T = rnd.choice(p25.A2 if d == 2 else p25.A3)
        st.append({'cls': c, 'mu': [rnd.randint(-4, 4) for _ in range(d)], 'T': T})
    return st


def raw(ch, y):
    y = np.array(y)
    for c in reversed(ch):
        y = y @ inv(c['T']) + np.array(c['mu'])
    return [int(v) for v in y]


def fits(m):
    return max(8 * s + 8 * b for s, b in zip(m['sn'], m['bn'])) <= 600


def trials(rnd, case=None):
    """enrollment, trial and test lists"""
    st = case['set'] if case else rnd.choice(SETS)
    many = case['many'] if case else rnd.random() < 0.5
    nm, ns, nt = (case['nm'], case['ns'], case['nt']) if case else (rnd.randint(1, 5), rnd.randint(1, 5), rnd.randint(1, 4))
    ids = list(range(1, 60))
    rnd.shuffle(ids)
    take = lambda n: [ids.pop() for _ in range(n)]
    segs, test = take(ns), take(nt)
    if st.startswith('coh'):
        coh = take(nm)
        enr = [[k, k] for k in coh]
        nd = take(rnd.randint(1, 2))
        mods = coh
        if rnd.random() < 0.4:                        # a model of the list in the cohort
            nd[0] = rnd.choice(coh)
        if rnd.random() < 0.3:                        # the same segments in both cohorts
            test[:min(nm, nt)] = rnd.sample(coh, min(nm, nt))
        if rnd.random() < 0.2:
            segs[0] = coh[0]
    else:
        nd = mods = take(nm)
        enr = []
        for m in mods:
            for _ in range(rnd.choice([1, 2, 3]) if many else 1):
                enr.append([ids.pop() if ids else m, m])
        for m in take(rnd.choice([0, 1, 2])):         # enrolled, but in no trial
            enr.append([ids.pop(), m])
        rnd.shuffle(enr)
        if rnd.random() < 0.2 and ns > 1 and st == 'enroll-test':
            segs[0] = enr[0][0]                       # a file on both sides
    if rnd.random() < 0.2 and not set(test) & set(segs):
        test[-1] = segs[-1]
    mask = [[rnd.random() < 0.6 for _ in segs] for _ in nd]
    for i in range(len(nd)):
        mask[i][rnd.randrange(len(segs))] = True
    for j in range(len(segs)):
        mask[rnd.randrange(len(nd))][j] = True
    parts = case['parts'] if case else [rnd.choice([1, 1, 2, 3]), rnd.choice([1, 1, 2, 3])]
    parts = [min(parts[0], len(mods)), min(parts[1], len(test if st.endswith('coh') else segs))]
    one = len({m for _, m in enr}) == len(enr)
    return st, enr, {'m': nd, 's': segs, 'mask': mask}, test, parts, one


def op_eval(rnd, case=None):
    st, enr, ndx, test, parts, one = trials(rnd, case)
    tl = rnd.choice(['cos', 'plda1', 'pldan', 'pldan']) if one else 'pldan'
    while True:
        m, x, _ = p25.model(rnd)
        if fits(m) and not x['ldl']:
            break
    d = len(m['bn'])
    if tl == 'cos':
        d = rnd.choice([2, 3])
    ch = chain(rnd, d)
    keys = sorted({k for k, _ in enr} | set(ndx['s']) | set(test))
    rnd.shuffle(keys)
    emb = []
    for k in keys + ([99] if rnd.random() < 0.5 else []):
        z = [rnd.randint(-4, 4) for _ in range(d)]
        if tl == 'cos':
            while not any(z):
                z = [rnd.randint(-4, 4) for _ in range(d)]
            y = z
        else:
            y = [int(v) for v in np.array(x['mu']) + np.array(x['A']) @ np.array(z)]
        emb.append([k, raw(ch, y)])
    mt = rnd.choice(['book', 'vavg', 'savg', 'vavg-lnorm']) if tl == 'pldan' else '1vs1'
    e = {'op': 'eval', 'tool': tl, 'set': st, 'enr': enr, 'ndx': ndx, 'test': test, 'parts': parts, 'emb': emb, 'chain': ch, 'method': mt,
         'p': m if tl != 'cos' else {'kind': ''}, 'mu': x['mu'] if tl != 'cos' else [0] * d, 'Ai': [[int(v) for v in r] for r in (inv(x['A']).T if tl != 'cos' else np.eye(d))]}
    if mt == 'vavg-lnorm' and any(not np.any(np.array(x['mu'])) for _ in [0]):
        e['method'] = mt = 'vavg'
    return {'e': e, 'm': m, 'x': x, 'vec': rnd.choice(['h5', 'scp']), 'nx': rnd.choice(['.txt', '.h5', '.ndx', '']), 'ext': rnd.choice(['.txt', '.h5', '.scr', '']), 'tst': rnd.random() < 0.4, 'tl': 0}


TYPES = {'gbe': ['linear', 'linear', 'llk', 'normalized'], 'lr': ['logit', 'post', 'log-post'], 'svm': ['logit', 'bin-post', 'bin-logpost', 'cat-post', 'cat-logpost']}


def op_cls(rnd):
    d, C, n = rnd.choice([1, 2, 3]), rnd.choice([2, 3, 4]), rnd.randint(1, 6)
    ids = rnd.sample(range(1, 60), C + n + 2)
    tl = rnd.choice(sorted(TYPES))
    ch = chain(rnd, d)
    test = ids[C:C + n]
    emb = [[k, raw(ch, [rnd.randint(-2, 2) for _ in range(d)])] for k in rnd.sample(ids[C:], n + 2)]
    A = [[rnd.randint(-2, 2) for _ in range(d)] for _ in range(C)]
    e = {'op': 'cls', 'tool': tl, 'type': rnd.choice(TYPES[tl]), 'cls': ids[:C], 'test': test, 'emb': emb, 'chain': ch, 'A': A, 'b': [rnd.randint(-2, 2) for _ in range(C)], 'parts': rnd.choice([1, min(2, n), min(3, n)])}
    return {'e': e, 'ext': rnd.choice(['.txt', '.h5']), 'two': rnd.random() < 0.5, 'vs': rnd.random() < 0.5}


def tab(rnd, ms, ss, v):
    return {'m': ms, 's': ss, 'v': [[rnd.randint(-v, v) for _ in ss] for _ in ms]}


def op_v2s(rnd):
    C, n = rnd.choice([1, 2, 3, 4]), rnd.randint(1, 5)
    ids = rnd.sample(range(1, 60), C + n)
    return {'e': {'op': 'v2s', 'cls': ids[:C], 'vecs': [[k, [rnd.randint(-9000, 9000) for _ in range(C)]] for k in ids[C:]]}, 'vec': rnd.choice(['h5', 'scp']), 'ext': rnd.choice(['.txt', '.h5'])}


def op_lre(rnd):
    C, n = rnd.choice([1, 2, 3]), rnd.randint(1, 4)
    ids = rnd.sample(range(1, 60), C + n + 3)
    ms, ss, more = ids[:C], ids[C:C + n], ids[C + n:]
    sub = lambda q: rnd.sample(q, rnd.randint(1, len(q)))
    test = [] if rnd.random() < 0.3 else rnd.sample(sub(ss) + more[:rnd.choice([0, 1])], 1) if rnd.random() < 0.2 else sub(ss + more[:1])
    cls = [] if rnd.random() < 0.3 else sub(ms + more[2:])
    return {'e': {'op': 'lre', 't': tab(rnd, sorted(ms), sorted(ss), 9000), 'test': test, 'cls': cls}, 'ext': '.h5', 'hd': rnd.random() < 0.5, 'addx': rnd.random() < 0.4}


EMPTY = {'m': [], 's': [], 'v': []}


def op_norm(rnd):
    k = rnd.choice(['z', 't', 's', 'as', 'zt'])
    I, J, K, D = rnd.randint(1, 3), rnd.randint(1, 3), rnd.randint(2, 4), rnd.randint(2, 4)
    ids = rnd.sample(range(1, 60), I + J + K + D + 4)
    ms, ss, cm, cs = ids[:I], ids[I:I + J], ids[I + J:I + J + K], ids[I + J + K:I + J + K + D]
    if k == 'as':
        cs = rnd.sample(cm, len(cm))
    more = ids[-4:]
    v = rnd.choice([2, 5, 9])

    def sh(q, n):
        q = list(q) + more[:n]
        rnd.shuffle(q)
        return q
    x = lambda: rnd.choice([0, 0, 1])
    ec = tab(rnd, sh(ms, x()), cs, v) if k != 't' else EMPTY
    ct = tab(rnd, cm, sh(ss, x()), v) if k != 'z' else EMPTY
    cc = tab(rnd, sh(cm, x()), sh(cs, x()), v) if k == 'zt' else EMPTY
    return {'e': {'op': 'norm', 'kind': k, 't': tab(rnd, ms, ss, v), 'ec': ec, 'ct': ct, 'cc': cc, 'nb': rnd.choice([1, 2, 3, 50])}, 'ext': rnd.choice(['.txt', '.h5']), 'say': rnd.random() < 0.5}


def op_perf(rnd):
    I, J = rnd.randint(1, 3), rnd.randint(2, 5)
    ids = rnd.sample(range(1, 60), I + J + 2)
    ms, ss = ids[:I], ids[I:I + J]
    lab = [[rnd.choice([0, 1, 2]) for _ in ss] for _ in ms]
    lab[0][0], lab[-1][-1] = 1, 2
    for j in range(J):
        if not any(r[j] for r in lab):
            lab[0][j] = 1
    for r in lab:
        if not any(r):
            r[0] = 2
    sh = lambda q: rnd.sample(q, len(q))
    return {'e': {'op': 'perf', 't': tab(rnd, sh(ms + ids[-1:]), sh(ss + ids[-2:-1]), rnd.choice([1, 4, 9])), 'key': {'m': ms, 's': ss, 'lab': lab}}, 'nx': rnd.choice(['.txt', '.h5']), 'ext': rnd.choice(['.txt', '.h5']), 'dir': rnd.choice(['', 'a', 'a/b'])}


OPS = [op_eval] * 6 + [op_cls] * 4 + [op_v2s, op_lre, op_lre, op_norm, op_norm, op_perf, op_perf]


def gen_script(rnd):
    return {'style': rnd.randint(0, 3), 'ops': [rnd.choice(OPS)(rnd) for _ in range(rnd.choice([1, 2, 3]))]}


def from_model(rnd, c):
    return {'style': rnd.randint(0, 3), 'ops': [op_eval(rnd, c)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc']:
            continue
        if e['op'] in ('eval', 'cls') and e['obs'][0]['v']:
            e['obs'][0]['v'][0][0] += 300 + abs(e['obs'][0]['v'][0][0]) // 50
            return b
        if e['op'] == 'perf':
            e['nt'] += 1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Evals', cfg='MC_Evals.cfg', want=100)
    if ck.thorough:
        ms += ck.model('MC_Evals', cfg='MC_Evals_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(300, 3000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(900, 15000))]
    behs = ck.execute('checks.p26', scripts)
    ck.judge('Trace_Evals', behs, scripts, 'checks.p26', label='evaluation tools', batch=3000)
    ck.negative_control('Trace_Evals', behs[-400:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P26', run)
