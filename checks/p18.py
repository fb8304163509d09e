"""P18: training killed at any point and started again, with the stand-in for torch of lib/faketorch.py."""
import csv
import gc
import logging
import os
import random

import numpy as np

import faketorch
import vf
from vf import call


ORIG = {}


class Kill(BaseException):
    pass


def mil(v):
    return vf.as_int(round(float(v) * 1000000))


def execute(script, wd):
    t = faketorch.install()
    logging.disable(logging.CRITICAL)
    from hyperion.torch.torch_trainer import TorchTrainer
    from hyperion.torch.loggers import LoggerList, CSVLogger, ProgLogger, Logger
    from hyperion.torch.lr_schedulers import ReduceLROnPlateau, ExponentialLR, CosineLR
    from hyperion.torch import metrics as M
    c, u = script['cfg'], script['unit']
    s = c['s']
    evs = []
    exp = os.path.join(wd, 'exp', 'a')
    log = os.path.join(exp, 'train.log')
    sep = script['sep']
    cur = {'epoch': 0, 'kill': None}

    def at(point, j=0):
        k = cur['kill']
        if k and k[0] == point and k[1] == cur['epoch'] and (k[2] == j or point in ('eend', 'ebegin', 'sched', 'save0', 'save1', 'save2')):
            cur['kill'] = None
            raise Kill()

    class Model(t.nn.Module):
        def __init__(self):
            super(Model, self).__init__()
            self.w, self.r = faketorch.Param('w', 1), faketorch.Param('r', 0)

        def forward(self, x):
            at('vfwd' if faketorch.NoGrad.on else 'fwd', cur['j'])
            flush()
            d = x.a[:, 0]
            if self.training:
                self.r.a = (self.r.a + d.sum()) % 17
            cur['seen'] = {'d': [int(v) for v in d], 'train': bool(self.training), 'grad': faketorch.NoGrad.on == 0}
            cur['pend'] = dict(cur['seen'], op='val')
            if faketorch.NoGrad.on:
                flush()
            return t.Tensor((self.w.a + self.r.a + d) % 11)

    class Loss(t.nn.Module):
        def __init__(self):
            super(Loss, self).__init__()
            self.l = faketorch.Param('l', 0)

        def forward(self, out, target):
            at('loss', cur['j'])
            ls = (out.a + self.l.a) % 7
            d = target.a[:, 0]
            model = cur['model']

            def back():
                at('bwd', cur['j'])
                self.l.a = (self.l.a + d.sum()) % 13
                model.w.grad = (0 if model.w.grad is None else model.w.grad) + ls.sum()
            return t.Tensor(np_mean(ls), back)

    class Opt(t.optim.Optimizer):
        def __reduce__(self):
            return faketorch.Device, ()

        def step(self):
            at('step0', cur['j'])
            lr = lrs(self)
            w = self.param_groups[0]['params'][0]
            b = (self.state.get('b', 0) + w.grad) % 97
            self.state['b'] = b
            w.a = (w.a + lr[0] * b) % 97
            cur['pend'] = None
            at('step1', cur['j'])
            evs.append(dict(state(), op='step', lr=lr, **cur['seen']))

    def np_mean(a):
        return float(a.sum()) / len(a)

    def lrs(opt):
        return [vf.as_int(round(g['lr'] / u * 1000)) for g in opt.param_groups]

    def state():
        m, l, o = cur['model'], cur['loss'], cur['opt']
        return {'w': int(m.w.a), 'r': int(m.r.a), 'l': int(l.l.a), 'b': int(o.state.get('b', 0))}

    def flush():
        if cur.get('pend'):
            evs.append(cur['pend'])
            cur['pend'] = None

    def logs_of(g):
        return {'keys': list(g.keys()), 'loss': mil(g.get('loss', -1)), 'met': mil(g.get('met', -1)), 'vloss': mil(g.get('val_loss', -1)),
                'vmet': mil(g.get('val_met', -1)), 'lr': vf.as_int(round(float(g.get('lr', -1)) / u * 1000))}

    class Obs(Logger):
        def on_epoch_begin(self, epoch, logs=None, **kw):
            cur['epoch'], cur['j'] = int(epoch), 0
            flush()
            at('ebegin')
            evs.append({'op': 'begin', 'epoch': int(epoch)})
            self.cur_epoch = epoch

        def on_batch_end(self, logs=None, **kw):
            flush()
            evs.append({'op': 'blog', 'loss': mil(logs['loss']), 'met': mil(logs.get('met', -1)), 'lr': vf.as_int(round(logs['lr'] / u * 1000))})
            at('bend', cur['j'])

        def on_epoch_end(self, logs=None, **kw):
            flush()
            evs.append(dict(state(), op='eend', epoch=int(self.cur_epoch), logs=logs_of(logs)))
            at('eend')

    class Loader(object):
        dataset = range(script['len'])

        def __init__(self, val):
            self.val = val

        def __iter__(self):
            bs = c['va'] if self.val else c['tr'][cur['epoch'] % len(c['tr'])]
            for j, d in enumerate(bs):
                cur['j'] = j
                at('vload' if self.val else 'load', j)
                x = t.Tensor([[v] for v in d])
                yield x, x

    def met(out, target):
        at('vmet' if faketorch.NoGrad.on else 'met', cur['j'])
        return float((out.a % 3).sum()) / len(out.a)

    def save(obj, f, *a, **k):
        flush()
        evs.append({'op': 'sv', 'k': 1})
        at('save0')
        import io
        b = io.BytesIO()
        faketorch.save(obj, b)
        h = f if hasattr(f, 'write') else open(f, 'wb')
        b = b.getvalue()
        h.write(b[:len(b) // 2])
        h.flush()
        at('save1')
        h.write(b[len(b) // 2:])
        h.flush()
        if h is not f:
            h.close()
        evs.append({'op': 'sv', 'k': 2})
        at('save2')
    t.save = save

    def sched(opt):
        if s['kind'] == 0:
            return None
        base = [ReduceLROnPlateau, ExponentialLR, CosineLR][s['kind'] % 3]

        S = base
        orig = ORIG.setdefault(base, base.epoch_end_step)

        def epoch_end_step(self, *a, **k):
            at('sched')
            return orig(self, *a, **k)
        base.epoch_end_step = epoch_end_step
        mn = [m * u for m in s['min']]
        if s['kind'] == 1:
            return S(opt, 2. ** -s['rk'], s['ds'], s['hold'], min_lr=mn, warmup_steps=s['warm'], update_lr_on_batch=s['onb'])
        if s['kind'] == 2:
            return S(opt, s['T'], s['mul'], min_lr=mn, warmup_steps=s['warm'], warm_restarts=s['wr'], gamma=2. ** -s['gk'], update_lr_on_batch=s['onb'])
        return S(opt, 'loss' if c['mon'] == 'loss' else 'val_loss', 'max' if s['max'] else 'min', factor=1. / s['f'], patience=s['pat'], threshold=(s['thr'] + 0.5) / 2520,
                 threshold_mode='abs', cooldown=s['cool'], min_lr=mn, warmup_steps=s['warm'], eps=s['eps'] / 1000 * u if s['eps'] else 1e-8 * u)

    def make(r):
        cur['model'], cur['loss'] = Model(), Loss()
        m = cur['model']
        groups = [{'params': [m.w], 'lr': s['base'][0] * u}] + [{'params': [faketorch.Param('x%d' % i, 0)], 'lr': b * u} for i, b in enumerate(s['base'][1:])]
        cur['opt'] = Opt(groups, s['base'][0] * u)
        ls = None
        if script['loggers'] == 1:
            ls = [Obs(), CSVLogger(log, sep=sep, append=True)]
        elif script['loggers'] == 2:
            ls = LoggerList([ProgLogger(metrics=['loss'], interval=2), CSVLogger(log, sep=sep, append=True), Obs()])
        kw = {}
        if c['met']:
            kw['metrics'] = {'met': met}
        elif script['nomet'] == 1:
            kw['metrics'] = {}
        if script['dev']:
            kw['device'] = t.device('cpu')
        if ls is not None:
            kw['loggers'] = ls
        sc = sched(cur['opt'])
        if sc is not None:
            kw['lr_scheduler'] = sc
        tr = TorchTrainer(m, cur['opt'], cur['loss'], r['epochs'], exp, **kw)
        if ls is None:
            tr.loggers.append(Obs())
        return tr
    tr = None
    for r in script['runs']:
        cur['pend'], cur['j'] = None, 0
        have = os.path.isdir(exp) and any(f.endswith('.pth') for f in os.listdir(exp))

        def start():
            g = tr if r['same'] and tr is not None and have else make(r)
            g.epochs = r['epochs']
            if r['same'] and tr is not None and not have:
                pass
            lo = g.load_last_checkpoint()
            return g, lo
        v, exc = call(start)
        if v is None:
            evs.append({'op': 'run', 'exc': exc})
            break
        tr, lo = v
        evs.append(dict(state(), op='run', exc='', cur=vf.as_int(tr.cur_epoch), lr=lrs(cur['opt']), haslogs=lo is not None, logs=logs_of(lo or {}), epochs=r['epochs']))
        cur['kill'] = r['kill']
        faketorch.NoGrad.on = 0
        killed = False

        def fit():
            try:
                tr.fit(Loader(False), Loader(True) if c['va'] else None)
            except Kill:
                return True
            return False
        killed, exc = call(fit)
        if killed is None or killed:
            evs.append({'op': 'crash', 'exc': exc})
            if killed is None:
                break
            if not r['next_same']:
                # what the kill leaves is what is on disk now
                kept = open(log).read() if os.path.exists(log) else None
                tr = cur['model'] = cur['loss'] = cur['opt'] = None
                gc.collect()
                if kept is not None:
                    with open(log, 'w') as f:
                        f.write(kept)
            continue
        flush()
        evs.append(dict(state(), op='done', cur=vf.as_int(tr.cur_epoch)))

        def rows():
            with open(log) as f:
                rs = list(csv.DictReader(f, delimiter=sep if script['loggers'] else ','))
            return [{'epoch': vf.as_int(int(x.pop('epoch'))), 'logs': logs_of(x)} for x in rs]
        v, exc = call(rows)
        evs.append({'op': 'log', 'rows': v or [], 'exc': exc})
        if not r['next_same']:
            tr = None
    for a in script.get('acc', []):
        x, tg = t.Tensor(np.array(a['x'], 'f4')), t.Tensor(np.array(a['t']))
        if a['kind'] == 'cat' and a['hot']:
            tg = t.Tensor(np.eye(len(a['x'][0]))[a['t']])
        w = t.Tensor(np.array(a['w'], 'f4')) if a['w'] else None
        if w is not None and len(a['w']) != len(a['x']):
            w = t.Tensor(w.a.reshape(x.a.shape))
        if a['kind'] == 'cat':
            f = (lambda: M.CategoricalAccuracy(w, a['red'])(x, tg)) if a['cls'] else (lambda: M.categorical_accuracy(x, tg, w, a['red']))
        else:
            kw = {'thr': a['thr']}
            f = (lambda: M.BinaryAccuracy(w, a['red'], **kw)(x, tg)) if a['cls'] else (lambda: M.binary_accuracy(x, tg, w, a['red'], **kw))
        v, exc = call(f)
        e = dict(a, op='acc', exc=exc, ok=[], val=0)
        if not exc:
            if a['red'] == 'none':
                e['ok'] = [vf.as_int(int(k)) for k in v.a.reshape(-1)]
            else:
                e['val'] = mil(v)
        evs.append(e)
    return {'init': c, 'ev': evs}


POINTS = ['ebegin', 'load', 'fwd', 'loss', 'bwd', 'step0', 'step1', 'met', 'bend', 'vload', 'vfwd', 'vmet', 'eend', 'sched', 'save0', 'save1', 'save2']
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 18, 20]


def gen_sched(rnd, val):
    from checks.p17 import gen_cfg
    s = gen_cfg(rnd)
    s['rel'], s['max'], s['thr'] = False, rnd.random() < 0.3, rnd.choice([0, 0, 300, 1300])
    s['kind'] = rnd.choice([0, 1, 2, 3, 3])
    if s['kind'] == 3:
        s['onb'] = False
    if s['kind'] == 0:
        s['min'] = [0] * len(s['base'])
    return s


def batches(rnd, n, k):
    cuts = sorted(rnd.randint(0, n) for _ in range(k - 1))
    ns = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    return [[rnd.randint(0, 20) for _ in range(m)] for m in ns if m > 0]


def gen_acc(rnd):
    kind = rnd.choice(['cat', 'bin'])
    n, k = rnd.randint(1, 6), rnd.randint(2, 4)
    a = {'kind': kind, 'x': [rnd.sample(range(-9, 10), k) for _ in range(n)], 'thr': 0, 'hot': rnd.random() < 0.4, 'cls': rnd.random() < 0.5, 'red': rnd.choice(['mean', 'mean', 'sum', 'none'])}
    if kind == 'cat':
        a['t'] = [rnd.randint(0, k - 1) for _ in range(n)]
        if rnd.random() < 0.4:
            a['t'] = [r.index(max(r)) if rnd.random() < 0.7 else v for r, v in zip(a['x'], a['t'])]
    else:
        a['t'] = [[rnd.randint(0, 1) for _ in range(k)] for _ in range(n)]
        a['thr'] = rnd.choice([0, 2, -3])
    a['w'] = []
    if a['red'] != 'none' and rnd.random() < 0.5:
        m = n * k if kind == 'bin' and rnd.random() < 0.4 else n
        a['w'] = [rnd.randint(0, 5) for _ in range(m)]
        a['w'][0] += 1
    return a


def decorate(rnd, c, runs):
    rs = []
    for i, (ep, kill) in enumerate(runs):
        rs.append({'epochs': ep, 'kill': kill, 'same': rs[-1]['next_same'] if rs else False, 'next_same': rnd.random() < 0.3})
    return {'cfg': c, 'unit': rnd.choice([2. ** -10, 1e-3, 1.]), 'sep': rnd.choice([',', ';', '\t']), 'loggers': rnd.randint(0, 2), 'nomet': rnd.randint(0, 1),
            'dev': rnd.random() < 0.5, 'len': rnd.choice([1, 7, 1000]), 'runs': rs}


def gen_script(rnd):
    val = rnd.random() < 0.7
    ne = rnd.randint(1, 3)
    c = {'tr': [batches(rnd, rnd.choice(SIZES), rnd.randint(1, 4)) for _ in range(ne)], 'va': batches(rnd, rnd.choice(SIZES), rnd.randint(1, 3)) if val else [],
         'met': rnd.random() < 0.6, 'mon': 'val' if val and rnd.random() < 0.6 else 'loss', 's': gen_sched(rnd, val)}
    runs = []
    ep = rnd.randint(1, 4)
    for _ in range(rnd.randint(0, 4)):
        k = [rnd.choice(POINTS), rnd.randint(0, ep - 1), rnd.randint(0, 2)]
        runs.append((ep, k if rnd.random() < 0.9 else None))
        if rnd.random() < 0.25:
            ep += rnd.randint(0, 3)
    runs.append((ep, None))
    sc = decorate(rnd, c, runs)
    sc['acc'] = [gen_acc(rnd) for _ in range(rnd.randint(0, 3))]
    return sc


def from_model(rnd, m):
    return decorate(rnd, m['c'], [(m['e'], k[:3] if k else None) for k in m['h']] + [(m['e'], None)])


def corrupt(b):
    k = [e for e in b['ev'] if e['op'] == 'step']
    if not k:
        return None
    k[-1]['w'] = (k[-1]['w'] + 1) % 97
    return b


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Trainer', want=500)
    if ck.thorough:
        ck.model('MC_Trainer', cfg='MC_Trainer_deep.cfg', timeout=1800)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(1500, 15000)]]
    for i in range(ck.pick(3000, 50000)):
        scripts.append(gen_script(rnd))
    behs = ck.execute('checks.p18', scripts)
    ck.judge('Trace_Trainer', behs, scripts, 'checks.p18', label='training', batch=2000)
    ck.negative_control('Trace_Trainer', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P18', run)
