"""P17: learning rate schedulers, with the stand-in for torch of lib/faketorch.py."""
import argparse
import copy
import io
import random

import faketorch
import vf
from vf import call


def execute(script, wd):
    t = faketorch.install()
    from hyperion.torch.lr_schedulers import ReduceLROnPlateau, ExponentialLR, CosineLR, AdamCosineLR, LRSchedulerFactory
    c, how = script['cfg'], script['how']
    u = script['unit']
    base, mn = [b * u for b in c['base']], [m * u for m in c['min']]
    ml = mn[0] if len(set(mn)) == 1 and how['scalar'] else list(mn)
    adam = c['kind'] == 2 and how['adam'] and not any(mn)

    def optim():
        return faketorch.Optimizer([{'params': [faketorch.Param('p%d' % i, 1.)], 'lr': b} for i, b in enumerate(base)], base[0])

    eps = c['eps'] / 1000 * u if c['eps'] else 1e-8 * u
    thr = 2. ** -c['thr'] if c['rel'] else c['thr'] * how['mu']

    def sched(opt):
        if how['factory'] and not isinstance(ml, list):
            kw = {'lrsch_type': ['exp_lr', 'adamcos_lr' if adam else 'cos_lr', 'red_lr_on_plateau'][c['kind'] - 1], 'warmup_steps': c['warm']}
            if not adam:
                kw['min_lr'] = ml
            if c['kind'] == 1:
                kw.update(decay_rate=2. ** -c['rk'], decay_steps=c['ds'], hold_steps=c['hold'])
            elif c['kind'] == 2:
                kw.update(T=c['T'], T_mul=c['mul'], warm_restarts=c['wr'], gamma=2. ** -c['gk'])
            else:
                kw.update(monitor='m1', mode='max' if c['max'] else 'min', factor=1. / c['f'], patience=c['pat'], threshold=thr, threshold_mode='rel' if c['rel'] else 'abs',
                          cooldown=c['cool'], eps=eps)
            if c['kind'] != 3:
                kw['update_lr_on_batch'] = c['onb']
            if how['args']:
                p = argparse.ArgumentParser()
                LRSchedulerFactory.add_argparse_args(p, 'a')
                argv = []
                for k, v in kw.items():
                    o = {'T': 't', 'T_mul': 't-mul', 'threshold_mode': 'threshold_mode'}.get(k, k.replace('_', '-'))
                    argv += (['--a-' + o] if v else []) if isinstance(v, bool) else ['--a-' + o, repr(v) if isinstance(v, float) else str(v)]
                kw = LRSchedulerFactory.filter_args('a', **vars(p.parse_args(argv)))
            return LRSchedulerFactory.create(opt, **kw)
        if c['kind'] == 1:
            return ExponentialLR(opt, 2. ** -c['rk'], c['ds'], c['hold'], min_lr=ml, warmup_steps=c['warm'], update_lr_on_batch=c['onb'])
        if c['kind'] == 2:
            cl = AdamCosineLR if adam else CosineLR
            kw = dict(warmup_steps=c['warm'], warm_restarts=c['wr'], gamma=2. ** -c['gk'], update_lr_on_batch=c['onb'])
            if not adam:
                kw['min_lr'] = ml
            return cl(opt, c['T'], c['mul'], **kw)
        return ReduceLROnPlateau(opt, 'm1', 'max' if c['max'] else 'min', factor=1. / c['f'], patience=c['pat'], threshold=thr, threshold_mode='rel' if c['rel'] else 'abs',
                                 cooldown=c['cool'], min_lr=ml, warmup_steps=c['warm'], eps=eps)

    def lrs(opt):
        return [vf.as_int(round(g['lr'] / u * 1000)) for g in opt.param_groups]
    pairs, saved, evs = [], [], []
    for o in script['ops']:
        op = o['op']
        if op == 'make':
            def mk():
                opt = optim()
                s = sched(opt)
                pairs.append((s, opt))
                return lrs(opt)
            r, exc = call(mk)
            evs.append({'op': 'make', 'exc': exc, 'lr': r or []})
        elif op == 'restore':
            if not saved:
                continue
            k = o['k'] % len(saved)

            def rs():
                opt = optim()
                if o['late']:
                    opt.load_state_dict(copy.deepcopy(saved[k][1]))
                    s = sched(opt)
                else:
                    s = sched(opt)
                    opt.load_state_dict(copy.deepcopy(saved[k][1]))
                s.load_state_dict(t.load(io.BytesIO(saved[k][0])))
                pairs.append((s, opt))
                return lrs(opt)
            r, exc = call(rs)
            evs.append({'op': 'restore', 'k': k + 1, 'exc': exc, 'lr': r or []})
        else:
            i = o['r'] - 1 if o['r'] > 0 else len(pairs) - 1
            if i >= len(pairs):
                continue
            s, opt = pairs[i]
            if op == 'save':
                def sv():
                    b = io.BytesIO()
                    t.save(s.state_dict(), b)
                    saved.append((b.getvalue(), copy.deepcopy(opt.state_dict())))
                _, exc = call(sv)
                evs.append({'op': 'save', 'r': i + 1, 'exc': exc})
            else:
                if op == 'begin':
                    f = (lambda: s.epoch_begin_step()) if o['epoch'] == -1 else (lambda: s.epoch_begin_step(o['epoch']))
                elif op == 'batch':
                    f = s.batch_step
                else:
                    f = lambda: s.epoch_end_step({'m0': -1., 'm1': o['m'] * how['mu'], 'm2': 5.})
                def go():
                    f()
                    return lrs(opt)
                r, exc = call(go)
                evs.append({'op': op, 'r': i + 1, 'exc': exc, 'lr': r or [], 'epoch': o.get('epoch', -1), 'm': o.get('m', 0)})
        if evs[-1]['exc']:
            break
    return {'init': c, 'ev': evs}


def how(rnd):
    return {'scalar': rnd.random() < 0.5, 'factory': rnd.random() < 0.5, 'args': rnd.random() < 0.5, 'adam': rnd.random() < 0.4, 'mu': rnd.choice([1., 0.125, 1. / 1024])}


def gen_cfg(rnd):
    ng = rnd.choice([1, 1, 2, 3])
    base = [rnd.choice([1, 4, 10, 64, 100, 200]) for _ in range(ng)]
    mn = [rnd.choice([0, 0, 1, b // 2, b // 10]) for b in base]
    if rnd.random() < 0.4:
        mn = [0] * ng
    return {'kind': rnd.randint(1, 3), 'base': base, 'min': mn, 'warm': rnd.choice([0, 0, 1, 2, 3, 5, 12]), 'onb': rnd.random() < 0.5,
            'rk': rnd.choice([1, 1, 2, 4, 7]), 'ds': rnd.choice([1, 2, 3, 4, 5, 7, 12, 30]), 'hold': rnd.choice([0, 0, 1, 2, 3, 10]),
            'T': rnd.choice([1, 2, 3, 4, 5, 6, 8, 10, 20]), 'mul': rnd.choice([1, 1, 2, 3]), 'wr': rnd.random() < 0.6, 'gk': rnd.choice([0, 0, 1, 3]),
            'f': rnd.choice([2, 2, 4, 10]), 'pat': rnd.choice([0, 1, 2, 4]), 'thr': rnd.choice([1, 2, 4]), 'rel': rnd.random() < 0.5, 'max': rnd.random() < 0.5,
            'cool': rnd.choice([0, 0, 1, 2, 3]), 'eps': rnd.choice([0, 0, 0, 300, 1300])}


def gen_script(rnd):
    c = gen_cfg(rnd)
    if c['kind'] == 3:
        c['onb'] = False
    ops = [{'op': 'make'}]
    nb = rnd.choice([1, 1, 2, 3, 4, 7])
    n = rnd.choice([6, 20, 40, 80])
    z = 0
    r = -1
    val = rnd.randint(-20, 40)
    ep = 0
    while len(ops) < n:
        if z == 0:
            ops.append({'op': 'begin', 'r': r, 'epoch': -1 if rnd.random() < 0.5 else ep})
        elif z <= nb:
            ops.append({'op': 'batch', 'r': r})
        else:
            val += rnd.choice([0, 0, -1, 1, -3, 3, -12, 12, -30, 30]) if rnd.random() < 0.7 else 0
            val = max(-500, min(500, val))
            ops.append({'op': 'end', 'r': r, 'm': val})
        z += 1
        if z > nb + 1:
            z, ep = 0, ep + 1
        if rnd.random() < 0.08:
            ops.append({'op': 'save', 'r': r})
            if rnd.random() < 0.7:
                # go on with the restored one, or run the original ahead first
                ops.append({'op': 'restore', 'k': -1, 'late': rnd.random() < 0.5})
    return {'cfg': c, 'how': how(rnd), 'unit': rnd.choice([2. ** -10, 1e-3, 1e-5, 1.]), 'ops': ops}


def from_model(rnd, m):
    return {'cfg': m['c'], 'how': how(rnd), 'unit': rnd.choice([2. ** -10, 1e-3]),
            'ops': [{'op': 'make'}] + [dict(h, r=-1, epoch=-1) if h['op'] != 'restore' else {'op': 'restore', 'k': 0, 'late': rnd.random() < 0.5} for h in m['h']]}


def corrupt(b):
    k = [e for e in b['ev'] if e['op'] in ('batch', 'begin')]
    if not k:
        return None
    k[-1]['lr'][0] = k[-1]['lr'][0] * 2 + 500
    return b


def run(ck):
    rnd = random.Random(ck.seed)
    scripts = []
    for k in (1, 2, 3):
        ms = ck.model('MC_LrSched', cfg='MC_LrSched%d%s.cfg' % (k, ''), want=500)
        if ck.thorough:
            ck.model('MC_LrSched', cfg='MC_LrSched%d_deep.cfg' % k, timeout=1500)
        rnd.shuffle(ms)
        scripts += [from_model(rnd, m) for m in ms[:ck.pick(1000, 10000)]]
    for i in range(ck.pick(5000, 60000)):
        scripts.append(gen_script(rnd))
    behs = ck.execute('checks.p17', scripts)
    ck.judge('Trace_LrSched', behs, scripts, 'checks.p17', label='learning rates', batch=4000)
    ck.negative_control('Trace_LrSched', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P17', run)
