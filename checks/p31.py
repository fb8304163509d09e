"""P31: options of the command line reach the component they are for."""
import argparse
import importlib
import json
import os
import random

import numpy as np
import vf
from vf import call

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'options.json')))
# classes whose objects can be made with the arguments alone
BUILD = {'BinaryLogisticRegression', 'LinearGBE', 'LinearGBEUP', 'LinearSVMC', 'LogisticRegression', 'QScoringHomoGBE', 'EnergyVAD', 'FrameSelector', 'MFCC', 'MeanVarianceNorm',
         'CentWhiten', 'CentWhitenUP', 'Gaussianizer', 'LNorm', 'LNormUP', 'PCA', 'PLDAFactory'}


def show(v):
    if isinstance(v, (bool, np.bool_)) or v is None:
        return str(bool(v)) if v is not None else 'None'
    if isinstance(v, (int, float, np.number)):
        return '%.9g' % v
    if isinstance(v, (list, tuple)):
        return ' '.join(show(a) for a in v)
    return 's:' + str(v)


def klass(t):
    return getattr(importlib.import_module(t['mod']), t['cls'])


def made(t, a):
    """object made with the arguments"""
    if t['cls'] == 'PLDAFactory':
        a = dict(a)
        return klass(t).create_plda(a.pop('plda_type'), **{k: v for k, v in a.items()})
    return klass(t)(**a)


def keeps(t, obj):
    """(argument, value) that the object has under its own name"""
    out = []
    for o in t['opts']:
        a = {'num_jobs': 'n_jobs'}.get(o['arg'], o['arg'])
        for x in (obj, getattr(obj, '_lr', None), getattr(obj, 'lr', None), getattr(obj, 'svm', None)):
            if o['arg'] in t['keeps'] and x is not None and hasattr(x, a):
                out.append([o['arg'], show(getattr(x, a))])
                break
    return out


def execute(script, wd):
    evs = []
    for ln in script['lines']:
        ts = [TABLE[c['t']] for c in ln['comps']]
        comps = [[{'o': o['o'], 'arg': o['arg'], 'kind': o['kind'], 'def': show(o['def'])} for o in t['opts']] for t in ts]
        e = {'comps': comps, 'line': [[i + 1, k + 1, v] for i, k, v, _ in ln['line']], 'extra': [t['extra'] for t in ts], 'obs': [], 'built': []}

        def go():
            p = argparse.ArgumentParser(prog='x')
            for j in ln['order']:
                pre = ln['comps'][j]['pre']
                f = getattr(klass(ts[j]), ts[j]['add'])
                f(p, pre) if pre else (f(p) if ln['bare'] else f(p, None))
            argv = []
            for i, k, v, words in ln['line']:
                pre = ln['comps'][i]['pre']
                o = '--%s%s' % (pre + '-' if pre else '', ts[i]['opts'][k]['o'])
                argv += [o + '=' + words[0]] if ln['eq'] and len(words) == 1 else [o] + words
            try:
                z = vars(p.parse_args(argv))
            except SystemExit:
                raise ValueError('parser')
            obs, built = [], []
            for j, t in enumerate(ts):
                g = getattr(klass(t), t['filter'])(ln['comps'][j]['pre'], **z)
                obs.append([[k, show(v)] for k, v in sorted(g.items())])
                b = []
                if t['cls'] in BUILD and 'eval' not in t['add'] and ln['build']:
                    g = dict(g)
                    if t['cls'] == 'LinearGBE' or t['cls'] == 'LinearGBEUP' or t['cls'] == 'QScoringHomoGBE':
                        g['prior'] = None if g.get('prior') is None else g['prior']
                    b = keeps(t, made(t, g))
                built.append(b)
            return obs, built
        r, exc = call(go)
        e['exc'] = exc
        if r:
            e['obs'], e['built'] = r
        evs.append(e)
        if exc:
            break
    return {'init': 0, 'ev': evs}


# ------------------------------- generation ---------------------------------
def word(rnd, t, o):
    """value of an option: words of the line and the text of the value"""
    if o['kind'] != 'value':
        return [], ''
    d = o['def']
    if o['vals']:
        v = rnd.choice(o['vals'])
        w = v.upper() if o['type'] == 'lower' and rnd.random() < .3 else v
        return [str(w)], show(v)
    if o['type'] in ('int', 'ints') or (o['type'] == 'auto' and rnd.random() < .7):
        if o['type'] == 'ints':
            v = [rnd.randint(0, 20) for _ in range(rnd.randint(1, 3))]
            return [str(a) for a in v], show(v)
        v = (d if isinstance(d, int) else 0) + rnd.choice([1, 2, 3, 7])
        if t['cls'] == 'MFCC':
            v = {'fs': [8000, 22050], 'fft_length': [512, 1024], 'num_filters': [20, 24, 30], 'num_ceps': [5, 13, 19], 'frame_length': [20, 25], 'frame_shift': [5, 10, 12]}[o['arg']]
            v = rnd.choice(v)
        return [str(v)], show(v)
    if o['type'] == 'auto':
        return ['auto'], show('auto')
    if o['type'] == 'float':
        v = rnd.choice([.125, .5, 2., 3.75, 10.])
        if o['arg'] == 'high_freq':
            v = rnd.choice([3000., 3700.])
        elif o['arg'] in ('prior', 'preemph_coeff', 'vad_proportion_threshold'):
            v = rnd.choice([.125, .25, .75])
        elif o['arg'] in ('dither', 'energy_floor'):
            v = rnd.choice([0., .25, 1.5])
        return [repr(v) if rnd.random() < .5 else '%g' % v], show(v)
    if o['type'] == 'str2bool':
        v = rnd.random() < .5
        return [rnd.choice([['false', 'no', 'n', 'f'], ['true', 'yes', 'y', 't']][v])], show(v)
    v = rnd.choice(['a', 'b.h5', 'dir/x y', '7', ',', 'None'])
    if t['cls'] not in ('MFCC',):
        return [v], show(v)
    return [v], show(v)


def ok_line(t, got):
    """options that cannot go together in an object are not used together"""
    return True


def gen_line(rnd, ts=None, pick=None):
    n = rnd.choice([1, 1, 2, 2, 3])
    ts = ts if ts is not None else [rnd.randrange(len(TABLE)) for _ in range(n)]
    pres = rnd.sample(['zz', 'in', 'out', 'x1', 'enroll'], len(ts))
    if rnd.random() < .5:
        pres[rnd.randrange(len(ts))] = ''
    comps = [{'t': t, 'pre': p or None} for t, p in zip(ts, pres)]
    line = []
    sets = []
    for i, t in enumerate(ts):
        m = len(TABLE[t]['opts'])
        ks = [rnd.randrange(m) for _ in range(rnd.choice([0, 1, 1, 2, 3, 4]))] if pick is None else [k % m for c, k in pick if c == i]
        for k in set(ks):
            if TABLE[t]['opts'][k]['kind'] != 'value':
                while ks.count(k) > 1:
                    ks.remove(k)
        ks += [k for k, o in enumerate(TABLE[t]['opts']) if o['req'] and k not in ks]
        sets += [(i, k) for k in ks]
    if pick is None:
        rnd.shuffle(sets)
    for i, k in sets:
        w, v = word(rnd, TABLE[ts[i]], TABLE[ts[i]]['opts'][k])
        line.append([i, k, v, w])
    order = list(range(len(ts)))
    rnd.shuffle(order)
    return {'comps': comps, 'line': line, 'order': order, 'eq': rnd.random() < .4, 'bare': rnd.random() < .5, 'build': True}


def gen_script(rnd):
    return {'lines': [gen_line(rnd) for _ in range(rnd.randint(1, 4))]}


def from_model(rnd, b):
    return {'lines': [gen_line(rnd, [rnd.randrange(len(TABLE)) for _ in range(b['n'])], [(c - 1, k - 1) for c, k, _ in b['line']])]}


def corrupt(b):
    for e in b['ev']:
        if not e['exc'] and e['obs'] and e['obs'][0]:
            e['obs'][0][0][1] = 's:other'
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Options', cfg='MC_Options.cfg', want=200)
    if ck.thorough:
        ms += ck.model('MC_Options', cfg='MC_Options_deep.cfg', timeout=1500)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(600, 4000)]]
    # each option of each component by itself, with and without prefix
    for t, T in enumerate(TABLE):
        for k in range(len(T['opts'])):
            scripts.append({'lines': [gen_line(rnd, [t], [(0, k)]) for _ in range(2)]})
    scripts += [gen_script(rnd) for _ in range(ck.pick(1500, 15000))]
    behs = ck.execute('checks.p31', scripts)
    ck.judge('Trace_Options', behs, scripts, 'checks.p31', label='command lines', batch=1500)
    ck.negative_control('Trace_Options', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P31', run)
