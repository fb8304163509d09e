"""A stand-in for the parts of torch that hyperion/torch's trainer and schedulers touch: torch is not installed here.
Tensors are numpy arrays, gradients are whatever the loss of the driver leaves in .grad, files are pickles."""
import math
import pickle
import sys
import types

import numpy as np


class Device(object):
    def __init__(self, name='cpu', *a):
        self.name = str(name)


class Tensor(object):
    def __init__(self, a, grad_fn=None):
        self.a = np.asarray(a)
        self.grad = None
        self.grad_fn = grad_fn

    shape = property(lambda s: s.a.shape)

    def to(self, *a, **k):
        return self

    cpu = cuda = detach = to

    def size(self, i=None):
        return self.a.shape if i is None else self.a.shape[i]

    def __len__(self):
        return len(self.a)

    def item(self):
        if self.a.size != 1:
            raise ValueError('only one element tensors can be converted to Python scalars')
        return float(self.a.reshape(-1)[0])

    def backward(self):
        self.grad_fn()

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    def eq(self, o):
        return Tensor(self.a == raw(o))

    def float(self):
        return Tensor(self.a.astype(np.float32))

    def mean(self, *a, **k):
        return Tensor(self.a.mean(*a, **k))

    def sum(self, *a, **k):
        return Tensor(self.a.sum(*a, **k))

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, d))

    def __gt__(self, o):
        return Tensor(self.a > raw(o))

    def __ge__(self, o):
        return Tensor(self.a >= raw(o))

    def __mul__(self, o):
        return Tensor(self.a * raw(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Tensor(self.a / raw(o))

    def __imul__(self, o):
        self.a = (self.a * raw(o)).astype(self.a.dtype)
        return self

    def __getitem__(self, i):
        return Tensor(self.a[i])


def raw(o):
    return o.a if isinstance(o, Tensor) else o


def tmax(t, dim=None):
    return Tensor(t.a.max()) if dim is None else (Tensor(t.a.max(dim)), Tensor(t.a.argmax(dim)))


class Optimizer(object):
    def __init__(self, params, lr):
        ps = list(params)
        if not ps or not isinstance(ps[0], dict):
            ps = [{'params': ps}]
        self.param_groups = [dict(g, lr=g.get('lr', lr)) for g in ps]
        self.state = {'steps': 0}

    def zero_grad(self):
        for g in self.param_groups:
            for p in g['params']:
                p.grad = None

    def step(self):
        self.state['steps'] += 1
        for g in self.param_groups:
            for p in g['params']:
                if p.grad is not None:
                    m = 0.5 * self.state.get(id_of(p), 0.0) + p.grad      # momentum
                    self.state[id_of(p)] = m
                    p.a = p.a - g['lr'] * m

    def state_dict(self):
        return {'state': dict(self.state), 'param_groups': [{k: v for k, v in g.items() if k != 'params'} for g in self.param_groups]}

    def load_state_dict(self, d):
        self.state = dict(d['state'])
        for g, h in zip(self.param_groups, d['param_groups']):
            g.update(h)


def id_of(p):
    return p.name


class Param(Tensor):
    def __init__(self, name, a):
        super(Param, self).__init__(np.float64(a))
        self.name = name


class Module(object):
    def __init__(self, *a, **k):
        self.training = True

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def parameters(self):
        return [v for v in self.__dict__.values() if isinstance(v, Param)]

    def state_dict(self):
        return {k: np.array(v.a) for k, v in self.__dict__.items() if isinstance(v, Param)}

    def load_state_dict(self, d):
        for k, v in d.items():
            self.__dict__[k].a = np.float64(v)


class NoGrad(object):
    on = 0

    def __enter__(self):
        NoGrad.on += 1

    def __exit__(self, *a):
        NoGrad.on -= 1

    def __call__(self, f):
        def g(*a, **k):
            with self:
                return f(*a, **k)
        return g


def save(obj, f, *a, **k):
    if hasattr(f, 'write'):
        pickle.dump(obj, f)
    else:
        with open(f, 'wb') as h:
            pickle.dump(obj, h)


def load(f, *a, **k):
    if hasattr(f, 'read'):
        return pickle.load(f)
    with open(f, 'rb') as h:
        return pickle.load(h)


def install():
    if 'torch' in sys.modules and getattr(sys.modules['torch'], 'fake', False):
        return sys.modules['torch']
    t = types.ModuleType('torch')
    t.fake = True
    t.optim = types.ModuleType('torch.optim')
    t.optim.Optimizer = Optimizer
    t._six = types.ModuleType('torch._six')
    t._six.inf = math.inf
    t.inf = math.inf
    t.nn = types.ModuleType('torch.nn')
    t.nn.Module = Module
    t.Tensor, t.device, t.no_grad, t.save, t.load = Tensor, Device, NoGrad, save, load
    t.enable_grad = NoGrad
    t.max = tmax
    t.argmax = lambda x, dim=None: Tensor(x.a.argmax(dim))
    t.is_tensor = lambda x: isinstance(x, Tensor)
    t.float32, t.float64 = 'float32', 'float64'
    t.cuda = types.ModuleType('torch.cuda')
    t.cuda.is_available = lambda: False
    for k, m in (('torch', t), ('torch.optim', t.optim), ('torch._six', t._six), ('torch.nn', t.nn), ('torch.cuda', t.cuda)):
        sys.modules[k] = m
    return t
