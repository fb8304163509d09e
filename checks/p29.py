"""P29: tools that make, convert and count data of recordings."""
import copy
import math
import os
import random
import sys
import types

import numpy as np
import vf
from vf import call
from checks.p26 import tool, World, q
from checks.p27 import r100


def execute(script, wd):
    w = World(script['style'], os.path.join(wd, ''))
    evs = []
    for o in script['ops']:
        e = copy.deepcopy(o['e'])
        e['exc'] = ''
        r, exc = call(globals()['do_' + e['op']], w, o, e)
        e['exc'] = exc
        if not exc:
            e.update(r)
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


def out_spec(w, fmt):
    """write and read specifiers of a new archive"""
    p = w.path('')
    if fmt == 'h5':
        return 'h5:%s.h5' % p, 'h5:%s.h5' % p
    if fmt == 'txt':
        return 'ark,t:%s.ark' % p, 'ark:%s.ark' % p
    return 'ark,scp:%s.ark,%s.scp' % (p, p), 'scp:%s.scp' % p


def write(w, recs, fmt, dtype='float32'):
    from hyperion.io import DataWriterFactory as DWF
    a, b = out_spec(w, fmt)
    with DWF.create(a) as wr:
        for k, x in recs:
            wr.write([w.name(k)], [np.array(x, dtype=dtype)])
    return b


def read(w, spec):
    from hyperion.io import SequentialDataReaderFactory as DRF
    with DRF.create(spec) as r:
        return [(w.key(k), np.asarray(x)) for k, x in r]


def ints(x):
    return [int(v) if np.isfinite(v) and abs(v - round(float(v))) < 1e-4 else -99 for v in np.ravel(x)]


# ------------------------------ voice activity -------------------------------
def do_vad(w, o, e):
    S, nf = e['S'], []
    sec = lambda t: ('%.3f' if o['digits'] else '%s') % (t / 1000.)
    if e['src'] == 'segments':
        p = w.lines([('%s-%d' % (w.name(f), i) if o['ids'] else 'u%d' % (500 - i), w.name(f), sec(b), sec(d)) for i, (f, b, d) in enumerate(e['segs'])])
        argv = ['--segments', p]
    else:
        p = w.lines([('SPEAKER', w.name(f), '1', sec(b), sec(d - b), '<NA>', '<NA>', 'spk%d' % (i % 3), '<NA>', '<NA>') for i, (f, b, d) in enumerate(e['segs'])], '.rttm')
        argv = ['--rttm', p]
    if e['nf']:
        argv += ['--num-frames', w.lines([(w.name(f), str(n)) for f, n in e['nf']])]
    if S != 10 or o['digits']:
        argv += ['--frame-shift', S]
    obs = []
    for k in range(o['parts']):
        a, b = out_spec(w, o['fmt'])
        tool(e['src'] + '-to-bin-vad', argv + ['--output-path', a] + (['--part-idx', k + 1, '--num-parts', o['parts']] if o['parts'] > 1 else []))
        obs.append([[f, ints(v)] for f, v in read(w, b)])
    return {'obs': obs}


def do_nist(w, o, e):
    p = write(w, e['recs'], 'h5' if o['src'] == 'h5' else o['ark'], o['dtype'])
    d = w.path('') + '/out'
    if o['src'] == 'h5':
        tool('h5vad2nist', ['--input-file', p.split(':')[1], '--output-dir', d])
    else:
        tool('arkvad2nist', ['--input-file', p.split(':')[1], '--output-dir', d])
    obs = []
    for f in sorted(os.listdir(d)):
        k = w.key(f[:-4])
        rows = []
        for l in open(os.path.join(d, f)):
            c = l.rstrip('\n').split('\t')
            if c[:4] != ['X', 'X', 'X', 'SAD'] or c[4] != w.name(k) or c[7] not in ('speech', 'non-speech') or float(c[8]) != 1:
                raise RuntimeError('line of intervals')
            rows.append([int(round(100 * float(c[5]))), int(round(100 * float(c[6]))), int(c[7] == 'speech')])
        obs.append([k, rows])
    return {'obs': obs}


# --------------------------------- conversion --------------------------------
def do_conv(w, o, e):
    ins = [write(w, [(k, np.array(x).reshape(sh)) for k, (sh, x) in recs], f) for recs, f in zip(e['recs'], o['fmts'])]
    if e['tool'] == 'copy':
        a, b = out_spec(w, o['out'])
        argv = ['--input'] + ins + ['--output', a]
        tool('copy-feats', argv)
        obs = read(w, b)
    elif e['tool'] == 'merge':
        p = w.path('.h5')
        tool('merge-h5-files', ['--input-files'] + [i.split(':')[1] for i in ins] + ['--output-path', p] + (['--chunk-size', o['chunk']] if o['chunk'] else []))
        obs = read(w, 'h5:' + p)
    else:
        import h5py
        p = w.path('') + '/x.h5' if o['flag'] else w.path('.h5')
        tool('ark2hyp', ['--input-file', ins[0].split(':')[1], '--output-file', p] + (['--chunk-size', o['chunk']] if o['chunk'] else []) + (['--field', '.z'] if o['field'] else []) + (['--squeeze'] if e['squeeze'] else []))
        with h5py.File(p, 'r') as f:
            obs = [(w.key(k[:-2] if o['field'] else k) if not o['field'] or k.endswith('.z') else -1, f[k][()]) for k in f]
    return {'obs': [[k, [list(np.shape(x)), ints(x)]] for k, x in obs]}


def do_frames(w, o, e):
    import soundfile as sf
    rows = []
    thr = math.log(3e4)
    for k, r in e['recs']:
        x = np.zeros((r['n'],), dtype='int16')
        for i, b in enumerate(r['burst']):
            x[b] = 1000 * (-1) ** i
        if r['dc']:
            x[:] = 1000
        f = w.path('.wav')
        sf.write(f, x, 1000, 'PCM_16')
        rows.append((w.name(k), f))
    argv = ['--input', w.lines(rows, '.scp'), '--sample-frequency', 1000, '--frame-length', e['L'], '--frame-shift', e['S'], '--dither', o['dither']]
    if not e['snip'] or o['flag']:
        argv += ['--snip-edges', str(e['snip']).lower()]
    obs, lens = [], []
    for k in range(o['parts']):
        a, b = out_spec(w, o['fmt'])
        v = argv + ['--output', a] + (['--part-idx', k + 1, '--num-parts', o['parts']] if o['parts'] > 1 else [])
        if e['tool'] == 'compute-energy-vad':
            tool(e['tool'], v + ['--vad-energy-mean-scale', 0, '--vad-energy-threshold', thr])
            x = [[f, [bool(c) for c in y]] for f, y in read(w, b)]
        else:
            nn = w.path('.len')
            tool(e['tool'], v + ['--fft-length', 64, '--num-filters', 4, '--low-freq', 60, '--output-step', 'logfb', '--use-energy', 'true', '--remove-dc-offset', str(o['nodc']).lower(), '--high-freq', 400] + (['--compress'] if o['comp'] else []) + (['--write-num-frames', nn] if o['lens'] else []))
            x = [[f, [bool(c > thr) for c in y[:, 0]]] for f, y in read(w, b)]
            if o['lens']:
                lens += [[w.key(l.split()[0]), int(l.split()[1])] for l in open(nn)]
        if o['fmt'] == 'h5':
            order = [f for f, _ in e['recs']]
            x.sort(key=lambda y: order.index(y[0]) if y[0] in order else -1)
        obs.append(x)
    return {'obs': obs, 'lens': lens}


# ---------------------------------- mixtures ---------------------------------
def mixture(w, g, kaldi):
    from hyperion.pdfs import DiagGMM
    m, P, pi = np.array(g['m'], dtype='float64'), 4. ** np.array(g['q']), 2. ** -np.array(g['k'])
    if not kaldi:
        p = w.path('.h5')
        DiagGMM(mu=m, Lambda=P, pi=pi, x_dim=m.shape[1], num_comp=len(m)).save(p)
        return p
    p = w.path('.txt')
    row = lambda v: '  ' + ' '.join('%.9g' % u for u in v) + ' '
    mat = lambda M: '[\n' + '\n'.join(row(v) for v in M) + ']\n'
    with open(p, 'w') as f:
        f.write('<DiagGMM> \n<GCONSTS>  [ %s ]\n<WEIGHTS>  [ %s ]\n<MEANS_INVVARS>  %s<INV_VARS>  %s</DiagGMM> \n' % (
            ' '.join('%.9g' % v for v in -g['off'] * np.ones(len(m))), ' '.join('%.9g' % v for v in pi), mat(m * P), mat(P)))
    return p


def seqs(w, o, e):
    """files of sequences, list and first transform"""
    from hyperion.transforms import TransformList, MVN
    D = len(e['g']['m'][0])
    x = [(k, np.array(v, dtype='float64')) for k, v in e['recs']]
    argv = []
    if o['pre']:
        x = [(k, v + np.arange(1., D + 1.)) for k, v in x]
        argv = ['--preproc-file', w.path('.h5')]
        TransformList([MVN(mu=np.arange(1., D + 1.), s=np.ones(D), name='first')]).save(argv[-1])
    extra = [(77, np.full((2, D), 50.))]
    import h5py
    p = w.path('.h5')
    with h5py.File(p, 'w') as f:
        for k, v in x + extra:
            f.create_dataset(w.name(k) + ('.f' if o['field'] else ''), data=v.astype('float32'))
    lst = w.path('.lst')
    sep = o['sep']
    with open(lst, 'w') as f:
        f.writelines('%s%s%s\n' % (w.name(k + 300) if o['ids'] else w.name(k), sep, w.name(k)) for k, _ in x)
    argv += ['--seq-file', p, '--file-list', lst]
    if sep != '=':
        argv += ['--scp-sep', sep]
    if o['field']:
        argv += ['--seq-field', '.f']
    return argv


def do_elbo(w, o, e):
    argv = seqs(w, o, e)
    argv += ['--model-file', mixture(w, e['g'], o['kaldi'])]
    if o['kaldi']:
        argv += ['--ubm-type', 'kaldi-diag-gmm']
    obs = []
    for k in range(o['parts']):
        p = w.path('.txt')
        tool('eval-elbo-ubm', argv + ['--output-file', p] + (['--part-idx', k + 1, '--num-parts', o['parts']] if o['parts'] > 1 else []))
        l = open(p).read().split('\n')
        obs.append([q(float(l[0].split(':')[1])), q(float(l[1].split()[1]))])
    from hyperion.utils.list_utils import split_list_group_by_key
    names = [w.name(k + 300) if o['ids'] else w.name(k) for k, _ in e['recs']]
    fr = []
    for k in range(o['parts']):
        _, idx = split_list_group_by_key(np.array(names), k + 1, o['parts'])
        fr.append(int(sum(len(e['recs'][i][1]) for i in idx)))
    return {'obs': obs, 'frames': fr}


def do_post(w, o, e):
    import h5py
    argv = seqs(w, o, e) + ['--model-file', mixture(w, e['g'], True)]
    p = w.path('.h5')
    k = types.ModuleType('keras')
    k.backend = types.ModuleType('keras.backend')
    old = {n: sys.modules.get(n) for n in ('keras', 'keras.backend')}
    sys.modules.update({'keras': k, 'keras.backend': k.backend})
    try:
        tool('compute-gmm-post', argv + ['--output-path', p, '--num-comp', e['n']])
    finally:
        for n, m in old.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m
    obs = []
    with h5py.File(p, 'r') as f:
        for n in f:
            if n.endswith('.r'):
                r, c = f[n][()], f[n[:-2] + '.index'][()]
                obs.append([w.key(n[:-2]), [{'c': [v + 1 for v in ints(b)], 'p': [q(v, 10000) for v in a], 'l': [max(q(np.log(v)), -99999) if v > 0 else -99999 for v in a]} for a, b in zip(r, c)]])
    return {'obs': obs}


# ----------------------------------- scores ----------------------------------
def do_back(w, o, e):
    from hyperion.classifiers import LinearGBEUP, QScoringHomoGBE
    from hyperion.transforms import TransformList, MVN
    from hyperion.io import DataWriterFactory as DWF
    D = len(e['S'])
    mu, S = np.array(e['mu'], dtype='float64'), np.array(e['S'], dtype='float64')
    m = w.path('.h5')
    if e['tool'] == 'up':
        LinearGBEUP(mu=mu, W=np.diag(1 / S), beta=np.ones(len(mu)), nu=1., name='b').save(m)
    else:
        QScoringHomoGBE(mu=mu, W=S, N=np.ones(len(mu)), name='b').save(m)
    argv = ['--model-file', m]
    sh = np.zeros(2 * D)
    if o['pre']:
        sh[:D] = np.arange(1., D + 1.)
        argv += ['--preproc-file', w.path('.h5')]
        TransformList([MVN(mu=sh, s=np.ones(2 * D), name='first')]).save(argv[-1])
    v = w.path('.h5')
    recs = list(e['recs']) + [[77, {'x': [9] * D, 'u': [1] * D}]]
    random.Random(o['seed']).shuffle(recs)
    with DWF.create('h5:' + v) as wr:
        for k, r in recs:
            u = np.array(r['u'], dtype='float64')
            wr.write([w.name(k) + ('.f' if o['field'] else '')], [(np.hstack((r['x'], u if e['tool'] == 'up' else 1 / u)) + sh).astype('float32')])
    cls = sorted(w.name(200 + c) for c in range(len(mu)))
    argv += ['--iv-file', v, '--class2int-file', w.lines([(c, str(i)) for i, c in enumerate(cls)]), '--test-file', w.lines([(w.name(k),) for k, _ in e['recs']])]
    if o['field']:
        argv += ['--v-field', '.f']
    if e['norm']:
        argv += ['--normalize']
    ts, vecs = [], []
    for k in range(o['parts']):
        s = w.path('.h5')
        a = argv + ['--score-file', s] + (['--seg-part-idx', k + 1, '--num-seg-parts', o['parts']] if o['parts'] > 1 else [])
        if o['vec']:
            a += ['--vector-score-file', w.path('.h5')]
        tool('eval-linear-gbe-up' if e['tool'] == 'up' else 'eval-q-scoring-homo-gbe', a)
        from hyperion.utils.trial_scores import TrialScores
        t = TrialScores.load(s)
        ts.append(t)
        if o['vec']:
            import h5py
            with h5py.File(a[-1], 'r') as f:
                vecs += [f[str(n)][()] for n in t.seg_set]
    lg = np.zeros(sum(len(t.seg_set) for t in ts))
    segs = [w.key(n) for t in ts for n in t.seg_set]
    if e['tool'] == 'q' and not e['norm']:
        d = dict((k, r) for k, r in e['recs'])
        L = S
        lg = np.array([np.sum(np.log(L)) + np.sum(np.log(d[k]['u'])) - np.sum(np.log(L + np.array(d[k]['u']) - 1)) if k in d else 0 for k in segs])
    f = (lambda v: 2 * v - lg) if e['tool'] == 'q' else (lambda v: v)
    rows = [f(np.hstack([t.scores[i] for t in ts])) for i in range(len(cls))]
    names = [[str(n) for n in t.model_set] for t in ts]
    return {'obs': {'m': [cls.index(n) + 1 if n in cls else 0 for n in names[0]] if all(n == names[0] for n in names) else [], 's': segs, 'v': [[q(v) for v in r] for r in rows],
                    'z': [q(np.sum(np.exp(t.scores[:, j])), 1000) for t in ts for j in range(len(t.seg_set))] if e['norm'] else []},
            'vec': [[q(2 * u - lg[j] if e['tool'] == 'q' else u) for u in v] for j, v in enumerate(vecs)]}


def do_plda(w, o, e):
    from hyperion.helpers import PLDAFactory as F
    x, cls = np.array(e['x'], dtype='float32'), e['cls']
    D = x.shape[1]
    names = sorted(w.name(200 + c) for c in range(max(cls) + 1))
    sh = np.arange(1., D + 1.).astype('float32') if o['pre'] else np.zeros(D, dtype='float32')
    argv = []
    if o['pre']:
        from hyperion.transforms import TransformList, MVN
        argv += ['--preproc-file', w.path('.h5')]
        TransformList([MVN(mu=sh.astype('float64'), s=np.ones(D), name='first')]).save(argv[-1])
    p = write(w, [(i, x[i] + sh) for i in random.Random(o['seed']).sample(range(len(x)), len(x))], o['fmt'])
    tr, va = list(range(0, len(x) - e['nv'])), list(range(len(x) - e['nv'], len(x)))
    out = w.path('.h5')
    argv += ['--iv-file', p, '--train-list', w.lines([(w.name(i), names[cls[i]]) for i in tr]), '--output-path', out, '--plda-type', o['type'], '--y-dim', o['y'], '--epochs', o['epochs']]
    if o['type'] == 'plda':
        argv += ['--z-dim', o['z']]
    kw = {}
    if va:
        argv += ['--val-list', w.lines([(w.name(i), names[cls[i]]) for i in va])]
    for k in o['flags']:
        argv += ['--' + k]
    if o['ml_md']:
        argv += ['--ml-md', o['ml_md']]
    if o['md_epochs']:
        argv += ['--md-epochs'] + o['md_epochs']
    tool('train-plda', argv)
    m = F.load_plda(o['type'], out)
    fl = {k.replace('-', '_'): True for k in o['flags']}
    kw = {'update_mu': not fl.get('no_update_mu', False)}
    ref = {'frplda': lambda: F.create_plda('frplda', x_dim=D, **kw), 'splda': lambda: F.create_plda('splda', y_dim=o['y'], x_dim=D, **kw), 'plda': lambda: F.create_plda('plda', y_dim=o['y'], z_dim=o['z'], x_dim=D, **kw)}[o['type']]()
    c = np.array([cls[i] for i in tr])
    u = np.unique(c)
    c = np.searchsorted(u, c)
    vx = x[va].astype('float64') if va else None
    vc = np.searchsorted(np.unique([cls[i] for i in va]), [cls[i] for i in va]) if va else None
    fk = {}
    if o['ml_md']:
        fk['ml_md'] = o['ml_md']
    if o['md_epochs']:
        fk['md_epochs'] = o['md_epochs']
    el = ref.fit(x[tr].astype('float64'), c, x_val=vx, class_ids_val=vc, epochs=o['epochs'], **fk)
    z = np.array(e['z'], dtype='float64')
    k1, k2 = z[:2], z[2:]
    snap = lambda v, ref: r100(v, 1000)
    a, b = r100(m.llr_1vs1(k1, k2), 100), r100(ref.llr_1vs1(k1, k2), 100)
    log = np.atleast_2d(np.loadtxt(os.path.splitext(out)[0] + '.csv', delimiter=','))
    want = np.vstack((np.arange(o['epochs']),) + tuple(el)).T
    same = log.shape == want.shape and np.allclose(log, want, rtol=1e-3, atol=1e-2)
    tie = lambda a, b: [[v if abs(u - v) <= 2 + abs(v) // 500 else u for u, v in zip(r, s)] for r, s in zip(a, b)]
    return {'pred': tie(a, b), 'want': b, 'log': 1 if same else 0, 'wantlog': 1}


# --------------------------------- generation --------------------------------
def names(rnd, n):
    return rnd.sample(range(1, 60), n)


def op_vad(rnd, case=None):
    if case:
        segs, nf, S = case['segs'], case['nf'], case['S']
        src = rnd.choice(['segments', 'rttm'])
    else:
        S = rnd.choice([10, 10, 5, 16, 20])
        fs = names(rnd, rnd.randint(1, 4))
        src = rnd.choice(['segments', 'rttm'])
        segs = []
        for f in fs:
            for _ in range(rnd.choice([1, 2, 4])):
                b = rnd.randint(0, 40 * S)
                segs.append([f, b, b + rnd.randint(1, 12 * S)])
        rnd.shuffle(segs)
        nf = []
        for f in fs + names(rnd, 2):
            if f not in [k for k, _ in nf] and (f in fs or rnd.random() < .5):
                nf.append([f, rnd.choice([60, 60, 30, 5, 41])])
    segs = [[f, b + 1 if (2 * b) % (2 * S) == S else b, d + 1 if (2 * d) % (2 * S) == S else d] for f, b, d in segs]
    segs = [[f, b, max(d, b + 1 if (2 * b + 2) % (2 * S) != S else b + 2)] for f, b, d in segs]
    if rnd.random() < .3:
        nf = []
    else:
        rnd.shuffle(nf)
    if src == 'rttm':
        segs.sort(key=lambda s: s[1])
        if rnd.random() < .5:
            segs.sort(key=lambda s: (s[0] * 37) % 101)
    k = len({f for f, _, _ in segs})
    return {'e': {'op': 'vad', 'src': src, 'segs': segs, 'nf': nf, 'S': S}, 'digits': rnd.random() < .5, 'ids': rnd.random() < .5, 'fmt': rnd.choice(['ark', 'h5']), 'parts': rnd.randint(1, min(3, k)) if rnd.random() < .5 else 1}


def op_nist(rnd):
    recs = []
    for k in names(rnd, rnd.randint(1, 3)):
        v = []
        while len(v) < rnd.choice([1, 5, 30]):
            v += [rnd.randint(0, 1)] * rnd.choice([1, 1, 2, 7])
        recs.append([k, v])
    src = rnd.choice(['ark', 'h5'])
    return {'e': {'op': 'nist', 'recs': recs}, 'src': src, 'ark': 'ark', 'dtype': rnd.choice(['float32', 'float32', 'float64', 'int64'] if src == 'h5' else ['float32', 'float64'])}


def op_conv(rnd):
    t = rnd.choice(['copy', 'merge', 'ark2hyp', 'ark2hyp'])
    n = 1 if t == 'ark2hyp' else rnd.randint(1, 3)
    ks = names(rnd, 9)
    recs = []
    for _ in range(n):
        rs = []
        for _ in range(rnd.randint(1, 3)):
            sh = [rnd.randint(1, 4), rnd.randint(2, 3)] if rnd.random() < .7 else [rnd.randint(2, 4)]
            if len(sh) == 1:
                d = sh[0]
            else:
                d = sh[0] * sh[1]
            rs.append([ks.pop(), [sh, [rnd.randint(-50, 50) for _ in range(d)]]])
        recs.append(rs)
    sq = t == 'ark2hyp' and rnd.random() < .4
    return {'e': {'op': 'conv', 'tool': t, 'recs': recs, 'squeeze': sq}, 'fmts': ['h5' if t == 'merge' else 'ark' if t == 'ark2hyp' else rnd.choice(['h5', 'ark']) for _ in recs], 'out': rnd.choice(['h5', 'ark', 'txt']),
            'chunk': rnd.choice([0, 1, 2]), 'field': rnd.random() < .3, 'flag': rnd.random() < .5}


def op_frames(rnd):
    S = rnd.choice([2, 5, 10])
    L = S * rnd.choice([2, 3, 4]) + rnd.choice([0, 0, 1])
    recs = []
    t = rnd.choice(['compute-energy-vad', 'compute-mfcc-feats'])
    for k in names(rnd, rnd.randint(1, 4)):
        if rnd.random() < .3:
            n = rnd.choice([300, 500])
            b = list(range(n)) if rnd.random() < .5 else []
        else:
            n = L + rnd.randint(0, 8 * L)
            b = sorted(rnd.sample(range(n), min(n, rnd.choice([1, 1, 2]))))
        recs.append([k, {'n': n, 'burst': b, 'dc': b == []}])
    comp = t != 'compute-energy-vad' and rnd.random() < .3
    return {'e': {'op': 'frames', 'tool': t, 'recs': recs, 'L': L, 'S': S, 'snip': rnd.random() < .5}, 'flag': rnd.random() < .5, 'nodc': rnd.random() < .7, 'dither': 1 if comp else rnd.choice([0, 1]), 'fmt': rnd.choice(['ark', 'h5']) if not comp else 'ark', 'comp': comp, 'lens': rnd.random() < .5,
            'parts': rnd.randint(1, min(3, len(recs))) if rnd.random() < .4 else 1}


def op_gmm(rnd):
    D = rnd.choice([1, 2, 3])
    post = rnd.random() < .5
    ks = rnd.choice([[0], [1, 1], [1, 2, 2], [2, 2, 2, 2], [1, 2, 3, 3], [3, 3, 3, 3, 2, 2]])
    K = len(ks)
    ks = rnd.sample(ks, K)
    if post:
        m = [[rnd.randint(-2, 2) for _ in range(D)] for _ in ks]
    else:
        m = [[14 * (c + 1) * (1 if a % 2 else -1) + rnd.randint(0, 1) for a in range(D)] for c in range(K)]
    qs = [[rnd.randint(0, 1) for _ in range(D)] for _ in ks]
    recs = []
    for k in names(rnd, rnd.randint(1, 3)):
        fr = []
        for _ in range(rnd.choice([1, 2, 5])):
            c = rnd.choice(m)
            fr.append([v + rnd.randint(-1, 1) for v in c])
        recs.append([k, fr])
    e = {'op': 'post' if post else 'elbo', 'g': {'k': ks, 'm': m, 'q': qs, 'off': rnd.randint(0, 9)}, 'recs': recs}
    if post:
        e['n'] = rnd.randint(1, K)
    return {'e': e, 'pre': rnd.random() < .3, 'sep': rnd.choice(['=', '=', ' ']), 'ids': not post and rnd.random() < .5, 'field': rnd.random() < .2, 'kaldi': rnd.random() < .5, 'parts': rnd.randint(1, len(recs)) if not post and rnd.random() < .4 else 1}


def op_back(rnd):
    K, D = rnd.choice([2, 3]), rnd.choice([1, 2, 3])
    t = rnd.choice(['up', 'q'])
    n = rnd.randint(1, 4)
    e = {'op': 'back', 'tool': t, 'norm': rnd.random() < .3, 'mu': [[rnd.randint(-3, 3) for _ in range(D)] for _ in range(K)], 'S': [rnd.randint(1, 5) for _ in range(D)],
         'recs': [[k, {'x': [rnd.randint(-3, 3) for _ in range(D)], 'u': [rnd.choice([1, 2, 4]) for _ in range(D)]}] for k in names(rnd, n)]}
    return {'e': e, 'pre': rnd.random() < .3, 'field': rnd.random() < .2, 'vec': rnd.random() < .4, 'parts': rnd.randint(1, n) if rnd.random() < .4 else 1, 'seed': rnd.randint(0, 99)}


def op_plda(rnd):
    t = rnd.choice(['frplda', 'splda', 'plda'])
    D = rnd.choice([2, 3])
    K = rnd.randint(4, 6)
    M = [[rnd.randint(-9, 9) for _ in range(D)] for _ in range(K)]
    cls = [k for k in range(K) for _ in range(rnd.randint(3, 4))]
    rnd.shuffle(cls)
    nv = rnd.choice([0, 0, 4])
    x = [[M[c][a] + rnd.randint(-3, 3) for a in range(D)] for c in cls]
    if nv and rnd.random() < .5:
        pass
    return {'e': {'op': 'plda', 'x': x, 'cls': cls, 'nv': nv, 'z': [[rnd.randint(-6, 6) for _ in range(D)] for _ in range(4)]}, 'type': t, 'y': rnd.randint(1, D - 1), 'z': 1, 'epochs': rnd.randint(1, 4), 'pre': rnd.random() < .3, 'fmt': rnd.choice(['ark', 'h5']),
            'flags': ['no-update-mu'] if rnd.random() < .2 else [], 'ml_md': rnd.choice(['', '', 'ml', 'md']), 'md_epochs': rnd.choice([[], [], [0], [1, 2]]), 'seed': rnd.randint(0, 99)}


def gen_script(rnd):
    return {'style': rnd.randint(0, 3), 'ops': [rnd.choice([op_vad, op_vad, op_vad, op_nist, op_conv, op_frames, op_gmm, op_gmm, op_back, op_plda])(rnd) for _ in range(rnd.choice([1, 2]))]}


def from_model(rnd, c):
    return {'style': rnd.randint(0, 3), 'ops': [op_vad(rnd, c)]}


def corrupt(b):
    for e in reversed(b['ev']):
        if e['exc']:
            continue
        if e['op'] == 'vad':
            e['obs'][-1][-1][1][-1] ^= 1
            return b
        if e['op'] == 'nist':
            e['obs'][0][1][-1][1] += 1
            return b
        if e['op'] == 'conv':
            e['obs'][0][1][1][0] += 1
            return b
        if e['op'] == 'frames':
            e['obs'][0][0][1][0] = not e['obs'][0][0][1][0]
            return b
        if e['op'] == 'elbo':
            e['obs'][0][0] += 100
            return b
        if e['op'] == 'back':
            e['obs']['v'][0][0] += 30 + abs(e['obs']['v'][0][0]) // 1000
            return b
        if e['op'] == 'plda':
            e['pred'][0][0] += 1
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Tools', cfg='MC_Tools.cfg', want=200)
    if ck.thorough:
        ms += ck.model('MC_Tools', cfg='MC_Tools_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(400, 3000)]]
    scripts += [gen_script(rnd) for _ in range(ck.pick(2000, 16000))]
    behs = ck.execute('checks.p29', scripts)
    ck.judge('Trace_Tools', behs, scripts, 'checks.p29', label='tools', batch=2500)
    ck.negative_control('Trace_Tools', behs[-600:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P29', run)
