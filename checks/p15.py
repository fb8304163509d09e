"""P15: training vectors (VectorClassReader, VectorReader)."""
import argparse
import os
import random

import numpy as np

import vf
from vf import as_int, call
from checks.p04 import KEYSTYLES as KS

PM = ['random', 'last', 'first']
CM = ['sequential', 'random', 'random_1part']


class Plus(object):
    """A preprocessing step: adds 100 to the third column."""
    def predict(self, x):
        x = np.array(x)
        x[:, 2] += 100
        return x


def execute(script, wd):
    from hyperion.io import DataWriterFactory as WF
    from hyperion.utils import Utt2Info, SCPList
    from hyperion.helpers import VectorClassReader as VCR, VectorReader as VR
    c, sty = script['cfg'], script['style']
    cls = c['cls']
    un, cn = KS[sty[0] % len(KS)], KS[sty[1] % len(KS)]
    names = [un(i + 1) for i in range(len(cls))]
    h5 = sty[2] % 2 if ''.join(names).isascii() else 1
    base = os.path.join(wd, 'v')
    with WF.create('h5:%s.h5' % base if h5 else 'ark,scp:%s.ark,%s.scp' % (base, base)) as w:
        order = list(range(len(cls)))
        random.Random(sty[3]).shuffle(order)
        w.write([names[i] for i in order], [np.array([i + 1, 7, i], dtype='float32') for i in order])
    vfile = 'h5:%s.h5' % base if h5 else 'scp:%s.scp' % base
    kf = os.path.join(wd, 'u2c')
    sep = ' ' if sty[4] % 3 else ','
    Utt2Info.create(np.array(names), np.array([cn(k) for k in cls])).save(kf, sep=sep)
    pre = Plus() if sty[5] % 4 == 0 else None
    cnum = {cn(k): k for k in set(cls) | set(c['map'])}
    kw = {}
    if c['map']:
        mf = os.path.join(wd, 'map')
        ent = list(enumerate(c['map']))
        random.Random(sty[6]).shuffle(ent)
        with open(mf, 'w') as f:
            f.write(''.join('%s %d\n' % (cn(k), i) for i, k in ent))
        kw['class2int_file'] = mf
    kw.update(vlist_sep=sep, min_spc=c['min'], max_spc=c['max'] or None, spc_pruning_mode=PM[c['mode'] - 1])
    if c['cmax']:
        kw.update(csplit_max_spc=c['cmax'], csplit_min_spc=c['cmin'], csplit_mode=CM[c['cmode'] - 1], csplit_overlap=c['ov'])
    kw.update(csplit_once=c['once'], vcr_seed=sty[7])
    evs = []
    if script['args']:
        # the same through the command line
        pf = ['', 'train'][sty[6] % 2]
        p = argparse.ArgumentParser()
        d = '--' + (pf + '-' if pf else '')
        argv = []
        for k, v in kw.items():
            if k == 'csplit_once':
                argv += [] if v else [d + 'no-csplit-once']
            elif k == 'csplit_mode' and v == 'random_1part':
                argv += [d + 'csplit-mode', 'random_1subclass']
            elif v is not None and not (k == 'csplit_min_spc' and v == 1) and not (k == 'vlist_sep' and v == ' ') and not (k == 'csplit_overlap' and v == 0) and not (k == 'min_spc' and v == 1):
                argv += [d + k.replace('_', '-') if k != 'class2int_file' else d + 'class2int-file', str(v)]

        def parse():
            VCR.add_argparse_args(p, pf or None)
            a = vars(p.parse_args(argv))
            return VCR.filter_args(pf or None, **a)
        kw2, exc = call(parse)
        evs.append({'op': 'args', 'exc': exc, 'same': True, 'lost': []})
        if kw2 is None:
            return {'init': c, 'ev': evs}
        lost = sorted(k for k, v in kw.items() if v is not None and k not in kw2)
        evs[-1].update(same=not lost, lost=lost)
        kw = kw2
    rs = []
    for o in script['ops']:
        op = o['op']
        if op == 'make':
            np.random.seed(len(evs))
            r, exc = call(lambda: VCR(vfile, kf, pre, **kw))
            rs.append(r)
            evs.append({'op': 'make', 'exc': exc})
            if exc:
                break
        elif op == 'read':
            if o['r'] > len(rs):
                continue
            r = rs[o['r'] - 1]

            def read():
                e = {'xs': [], 'ids': [], 'ok': True, 'flat': not o['d3'], 'names': [], 'counts': []}
                if o['names'] and (c['once'] or not c['cmax']):
                    cntfirst = o['names'] % 2
                    if cntfirst:
                        e['counts'] = [as_int(v) for v in r.samples_per_class]
                    nm = list(r.class_names)
                    e['names'] = [cnum.get(str(v), -1) for v in nm]
                    if c['cmax'] and any(v not in cnum for v in nm):
                        it = {v: i + 1000 for i, v in enumerate(sorted(set(map(str, nm))))}
                        e['names'] = [it[str(v)] for v in nm]
                    if not cntfirst:
                        e['counts'] = [as_int(v) for v in r.samples_per_class]
                    e['ok'] = bool(as_int(r.max_samples_per_class) == max(list(r.samples_per_class)))
                if o['d3']:
                    x, w = r.read(return_3d=True, max_length=o['ml'])
                    ok = x.shape[:2] == w.shape and x.shape[2] == 3 and (not o['ml'] or x.shape[1] == o['ml'])
                    if ok and not o['ml']:
                        ok = x.shape[1] == int(np.max(np.sum(w != 0, axis=1)))
                    for i in range(len(x)):
                        n = int(np.sum(w[i] != 0))
                        ok = ok and np.all(w[i][:n] == 1) and np.all(x[i][n:] == 0)
                        rows = x[i][:n]
                        e['xs'] += [as_int(v) for v in rows[:, 0]]
                        e['ids'] += [i] * n
                        ok = ok and np.all(rows[:, 1] == 7) and np.all(rows[:, 2] == rows[:, 0] - 1 + (100 if pre else 0))
                else:
                    x, y = r.read()
                    e['xs'], e['ids'] = [as_int(v) for v in x[:, 0]], [as_int(v) for v in y]
                    ok = len(x) == len(y) and np.all(x[:, 1] == 7) and np.all(x[:, 2] == x[:, 0] - 1 + (100 if pre else 0))
                e['ok'] = bool(e['ok'] and ok)
                return e
            for _ in range(o['n']):
                e, exc = call(read)
                evs.append(dict(e or {'xs': [], 'ids': [], 'ok': False, 'flat': False, 'names': [], 'counts': []}, op='read', r=o['r'], exc=exc))
                if exc:
                    break
            if exc:
                break
            if o.get('tally'):
                evs.append({'op': 'tally', 'r': o['r']})
        else:
            sf = os.path.join(wd, 'scp')
            SCPList(np.array(names), np.array(['x%d' % i for i in range(len(names))])).save(sf, sep=sep)

            def vread():
                k = {'vlist_sep': sep}
                if o['args']:
                    p = argparse.ArgumentParser()
                    VR.add_argparse_args(p, 'a')
                    k = VR.filter_args('a', **vars(p.parse_args(['--a-vlist-sep', sep] if sep != ' ' else [])))
                x = VR(vfile, sf, pre, **k).read()
                return {'xs': [as_int(v) for v in x[:, 0]], 'ok': bool(np.all(x[:, 1] == 7) and np.all(x[:, 2] == x[:, 0] - 1 + (100 if pre else 0)))}
            e, exc = call(vread)
            evs.append(dict(e or {'xs': [], 'ok': False}, op='vread', exc=exc))
    return {'init': c, 'ev': evs}


def empty(c):
    """Nothing is left of the list."""
    n = {k: c['cls'].count(k) for k in set(c['cls'])}
    n = {k: (0 if v < c['min'] else v if not c['max'] else min(v, c['max'])) for k, v in n.items()}
    if not c['cmax']:
        return not any(n.values())
    return not any(v >= c['cmin'] for v in n.values())


def finish(rnd, c, style=None):
    c = dict(c)
    ops = []
    fixed = c['once'] or not c['cmax'] or c['cmode'] == 1
    if c['map'] and (c['cmax'] and c['cmode'] != 3):
        c['map'] = []
    if c['map'] and rnd.random() < 0.9:
        c['map'] = rnd.sample(sorted(set(c['map'])), len(set(c['map'])))
    nm = max(c['cls'].count(k) for k in set(c['cls']))
    nr = 0
    for _ in range(rnd.choice([2, 3, 5])):
        if nr == 0 or rnd.random() < 0.2:
            ops.append({'op': 'make'})
            nr += 1
        if not empty(c):
            # counts of subclasses drawn anew at each read would use up the generator
            ops.append({'op': 'read', 'r': rnd.randint(1, nr), 'n': rnd.choice([1, 1, 2]), 'd3': rnd.random() < 0.4, 'ml': rnd.choice([0, 0, nm, nm + 2]),
                        'names': 0 if not (c['once'] or not c['cmax']) else rnd.choice([0, 1, 2])})
    if not fixed and rnd.random() < 0.5 and not empty(c) and len(c['cls']) <= 8 and c['cmin'] == 1:
        ops.append({'op': 'read', 'r': 1, 'n': 90, 'd3': False, 'ml': 0, 'names': 0, 'tally': True})
    if rnd.random() < 0.2:
        ops.append({'op': 'vread', 'args': rnd.random() < 0.6})
    return {'cfg': c, 'ops': ops, 'args': rnd.random() < 0.3, 'style': style or [rnd.randint(0, 99) for _ in range(8)]}


def gen_script(rnd):
    nc = rnd.choice([1, 2, 3, 5, 12])
    n = rnd.choice([1, 3, 6, 10, 20, 40])
    cls = [rnd.randint(1, nc) for _ in range(n)]
    if rnd.random() < 0.3:
        cls.sort()
    m = max(cls.count(k) for k in set(cls))
    mx = rnd.choice([0, 0, rnd.randint(1, m + 1)])
    cmax = rnd.choice([0, 0, rnd.randint(1, m + 1), rnd.randint(1, max(1, m // 2))])
    cmode = rnd.randint(1, 3) if cmax else 1
    c = {'cls': cls, 'min': rnd.choice([1, 1, 2, 3]), 'max': mx, 'mode': rnd.randint(1, 3) if mx else 1, 'cmax': cmax, 'cmode': cmode,
         'ov': rnd.choice([0, rnd.randint(0, cmax - 1)]) if cmax and cmode != 3 else 0, 'cmin': rnd.choice([1, 1, rnd.randint(1, cmax)]) if cmax else 1,
         'once': rnd.random() < 0.5, 'map': []}
    if rnd.random() < 0.3:
        ks = sorted(set(cls)) + ([nc + 1] if rnd.random() < 0.3 else [])
        c['map'] = ks
    return finish(rnd, c)


def corrupt(b):
    k = [e for e in b['ev'] if e['op'] == 'read' and len(set(e['xs'])) > 1]
    if not k:
        return None
    cl = b['init']['cls']
    other = [u + 1 for u in range(len(cl)) if cl[u] != cl[k[-1]['xs'][0] - 1]]
    if not other:
        return None
    k[-1]['xs'][0] = other[0]
    return b


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_VecClass', want=5000)
    if ck.thorough:
        ck.model('MC_VecClass', cfg='MC_VecClass_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = []
    for m in ms[:ck.pick(2000, 30000)]:
        m['once'] = rnd.random() < 0.5
        scripts.append(finish(rnd, m))
    for i in range(ck.pick(2500, 25000)):
        scripts.append(gen_script(rnd))
    behs = ck.execute('checks.p15', scripts)
    ck.judge('Trace_VecClass', behs, scripts, 'checks.p15', label='vector readers', batch=4000)
    ck.negative_control('Trace_VecClass', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P15', run)
