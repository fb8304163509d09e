"""P13: background queues deliver every item once, under controlled schedules."""
import contextlib
import importlib
import random
import sys

import vf
from simthread import Sched, make, Abort, Stuck

MODS = ['hyperion.utils.queues', 'hyperion.io.queues']


class It(object):
    def __init__(self, k):
        self.k = k

    def __len__(self):         # some items are false in a condition
        return self.k % 3


@contextlib.contextmanager
def patched(mods, s):
    th, q, tm, mp = make(s)
    old = []
    try:
        for m in mods:
            for name, v in (('threading', th), ('queue', q), ('time', tm), ('multiprocessing', mp), ('ThreadPool', mp.Pool),
                            ('Thread', th.Thread), ('Event', th.Event), ('Lock', th.Lock), ('Queue', q.Queue), ('sleep', tm.sleep)):
                if name in m.__dict__:
                    old.append((m, name, m.__dict__[name]))
                    setattr(m, name, v)
        yield th
    finally:
        for m, name, v in old:
            setattr(m, name, v)


def execute(script, wd):
    qm = importlib.import_module(MODS[script['mod'] % 2])
    mt = importlib.import_module('hyperion.utils.multithreading')
    rnd = random.Random(script['seed'])
    random.seed(script['seed'])
    lines = [m.__file__ for m in (qm, mt)] if script['lines'] else []
    s = Sched(script['choices'], rnd, limit=script.get('limit', 6000 if lines else 2500), lines=lines, patience=script['patience'])
    evs = []
    items = script['items']            # per item: 1 an item, 0 None, 2 an error
    made = [0]

    def log(op, **k):
        evs.append(dict(k, op=op, t=s.me().id, ep=s.me().epoch))

    def source():
        for v in items:
            log('next')
            s.point()
            if v == 2:
                log('err')
                raise RuntimeError('generator')
            if v == 0:
                log('made', k=0)
                yield None
            else:
                made[0] += 1
                k = made[0]
                log('made', k=k)
                yield It(k)
        s.point()
        log('fin')

    count = [0]

    class Seq(object):
        def __len__(self):
            return len(items)

        def __getitem__(self, i):
            count[0] += 1
            log('item', n=count[0])
            s.point()
            if items[i] == 2:
                log('err')
                raise RuntimeError('item')
            return It(i + 1) if items[i] else None

    epoch = [0]
    import threading as _th
    hook = _th.excepthook
    with patched([qm, mt], s):
        try:
            if s.lines:
                sys.settrace(s._trace)
            if script['kind'] == 1:
                g = mt.threadsafe_generator(source)() if script['safe'] else source()
                Q = qm.GeneratorQueue(g, wait_time=0.01)
            else:
                Q = qm.OrderedQueue(Seq(), scheduling='random' if script['rand'] else 'sequential')
            cons = None
            started = False
            for o in script['ops']:
                op = o['op']
                if op == 'start':
                    if started:
                        continue
                    s.epoch += 1
                    s.main.epoch = s.epoch
                    count[0] = 0
                    k = len(evs)
                    evs.append({'op': 'start', 'w': o['w'] if script['kind'] == 1 else 1, 'max': o['max'], 'ep': s.epoch, 't': 0, 'exc': ''})
                    try:
                        Q.start(workers=o['w'], max_queue_size=o['max'])
                    except Exception as e:
                        evs[k]['exc'] = type(e).__name__
                        break
                    started, cons = True, Q.get()
                elif op == 'ask':
                    if cons is None:
                        continue
                    dead = False
                    for _ in range(o['n']):
                        log('ask')
                        try:
                            x = next(cons)
                            log('got', k=x.k if isinstance(x, It) else -1)
                        except StopIteration:
                            log('end')
                            dead = True
                            break
                        except Exception as e:
                            log('cerr', exc=type(e).__name__)
                            dead = True
                            break
                    if dead:
                        cons = None
                        if script['kind'] == 2:
                            started = False
                elif op == 'stop':
                    if not started:
                        continue
                    exc = ''
                    try:
                        if o.get('limit'):
                            Q.stop(timeout=0.5)
                        else:
                            Q.stop()
                    except Exception as e:
                        exc = type(e).__name__
                    s.quiet = 1
                    try:
                        running = bool(Q.is_running())
                    except Exception:
                        running = True
                    s.quiet = 0
                    log('stop', exc=exc, limit=bool(o.get('limit')), alive=[t.id for t in s.ts[1:] if not t.done], running=running)
                    started = False
                    if o.get('ask') and cons is not None:
                        log('ask')
                        try:
                            x = next(cons)
                            log('got', k=x.k if isinstance(x, It) else -1)
                        except StopIteration:
                            log('end')
                        except Exception as e:
                            log('cerr', exc=type(e).__name__)
                    cons = None
                elif op == 'run':
                    exc = ''
                    s.quiet = 1
                    try:
                        r = bool(Q.is_running())
                    except Exception as e:
                        r, exc = False, type(e).__name__
                    s.quiet = 0
                    log('run', res=r, exc=exc)
                elif op == 'pause':
                    for _ in range(o['n']):
                        s.point(sleeping=True)
        except Stuck as e:
            evs.append({'op': 'stuck', 't': 0, 'ep': 0, 'exc': str(e)})
        except Abort:
            evs.append({'op': 'stuck', 't': 0, 'ep': 0, 'exc': 'aborted'})
        finally:
            sys.settrace(None)
            s.shutdown()
    if not evs:
        evs.append({'op': 'run', 't': 0, 'ep': 0, 'res': False, 'exc': ''})
    return {'init': {'kind': script['kind'], 'seq': items if script['kind'] == 2 else [], 'rand': bool(script['rand'])}, 'ev': evs}


def gen_script(rnd):
    kind = rnd.choice([1, 1, 1, 2])
    n = rnd.choice([0, 1, 2, 3, 5, 8])
    fin = rnd.random() < 0.7
    if not fin:
        n = 150
    if kind == 2:
        n = rnd.choice([1, 2, 3, 5])
    items = [1] * n
    if rnd.random() < 0.3:
        for i in range(n):
            if rnd.random() < 0.3:
                items[i] = 0
        if kind == 2:
            items[rnd.randrange(n)] = 1
    if n and rnd.random() < 0.15:
        items[rnd.randrange(min(n, 12))] = 2
    w = rnd.choice([1, 1, 2, 3]) if kind == 1 else rnd.choice([1, 2, 3])
    mx = rnd.choice([1, 1, 2, 3, 6])
    ops = [{'op': 'start', 'w': w, 'max': mx}]
    for _ in range(rnd.choice([0, 1, 2, 4])):
        z = rnd.random()
        if z < 0.5:
            ops.append({'op': 'ask', 'n': rnd.randint(1, 5)})
        elif z < 0.65:
            ops.append({'op': 'pause', 'n': rnd.choice([1, 5, 30])})
        elif z < 0.75:
            ops.append({'op': 'run'})
        else:
            ops.append({'op': 'stop', 'limit': rnd.random() < 0.3, 'ask': rnd.random() < 0.3})
            if rnd.random() < 0.4:
                ops.append({'op': 'run'})
            ops.append({'op': 'start', 'w': w, 'max': rnd.choice([mx, 1, 4])})
    if (fin or 2 in items) and kind == 1 and rnd.random() < 0.8:
        ops.append({'op': 'ask', 'n': 60})
    if rnd.random() < 0.7:
        ops.append({'op': 'stop'})
        if rnd.random() < 0.3:
            ops.append({'op': 'run'})
    timed = any(o.get('limit') for o in ops)
    return {'mod': rnd.randint(0, 1), 'kind': kind, 'safe': w > 1 or timed or rnd.random() < 0.3, 'rand': kind == 2 and rnd.random() < 0.3, 'items': items, 'ops': ops,
            'choices': [rnd.randint(0, w + 1) for _ in range(rnd.choice([0, 20]))], 'seed': rnd.randint(0, 10 ** 6),
            'patience': rnd.choice([0.0, 0.5, 0.8, 0.9]), 'lines': rnd.random() < 0.4}


def from_model(rnd, hist, w, mx):
    """A schedule of the model: codes 102 start, 100 ask, 101 stop, 0 consumer, i worker."""
    ops, choices, ep = [], [], 0
    for h in hist:
        if h == 102:
            ops.append({'op': 'start', 'w': w, 'max': mx})
            ep += 1
        elif h == 100:
            ops.append({'op': 'ask', 'n': 1})
        elif h == 101:
            ops.append({'op': 'stop', 'limit': False})
        choices.append(0 if h == 0 or h >= 100 else h + (ep - 1) * w)
    if ops and ops[-1]['op'] != 'stop' and rnd.random() < 0.6:
        ops.append({'op': 'ask', 'n': 30} if rnd.random() < 0.5 else {'op': 'stop'})
    return {'mod': rnd.randint(0, 1), 'kind': 1, 'safe': w > 1, 'rand': False, 'items': [1] * 9, 'ops': ops, 'choices': choices, 'seed': rnd.randint(0, 10 ** 6),
            'patience': 0.5, 'lines': False}


def corrupt(b):
    k = [i for i, e in enumerate(b['ev']) if e['op'] == 'got']
    if not k:
        return None
    b['ev'][k[-1]]['k'] += 1000
    return b


def run(ck):
    rnd = random.Random(ck.seed)
    for c in ['live1', 'live2', 'stop1', 'stop2'] + ck.pick([], ['deep3']):
        ck.model('MC_Queues', cfg='MC_Queues_%s.cfg' % c, timeout=1200)
    scripts = []
    for c, w in (('sched1', 1), ('sched2', 2)):
        hs = ck.model('MC_Queues', cfg='MC_Queues_%s.cfg' % c, want=500)
        rnd.shuffle(hs)
        scripts += [from_model(rnd, h, w, 1) for h in hs[:ck.pick(2500, 10000)]]
    for i in range(ck.pick(6000, 60000)):
        scripts.append(gen_script(rnd))
    behs = ck.execute('checks.p13', scripts)
    ck.judge('Trace_Queues', behs, scripts, 'checks.p13', label='queues', batch=12000)
    ck.negative_control('Trace_Queues', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P13', run)
