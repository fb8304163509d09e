T = 'hyperion/torch/torch_trainer.py'
PRE = '''
import sys, types, math, os, pickle, copy
t = types.ModuleType('torch'); o = types.ModuleType('torch.optim'); n = types.ModuleType('torch.nn'); s = types.ModuleType('torch._six')
class Optimizer(object):
    def __init__(self, ps, lr):
        self.param_groups = [{'lr': lr}]
        self.ps = ps
    def zero_grad(self): pass
    def step(self):
        for p in self.ps:
            p.v = p.v - self.param_groups[0]['lr'] * p.g
    def state_dict(self): return {'lr': self.param_groups[0]['lr']}
    def load_state_dict(self, d): self.param_groups[0]['lr'] = d['lr']
class Module(object):
    def __init__(self, *a, **k): pass
    def train(self, m=True): self.training = m
    def eval(self): self.training = False
    def __call__(self, *a): return self.forward(*a)
class P(object):
    v = 1.0
    g = 0.0
class T(object):
    def __init__(self, a): self.a = a; self.shape = (len(a),)
    def to(self, d): return self
    def item(self): return self.a[0]
    def backward(self): pass
class NG(object):
    def __enter__(self): pass
    def __exit__(self, *a): pass
o.Optimizer = Optimizer; n.Module = Module; s.inf = math.inf; t.optim = o; t.nn = n; t._six = s; t.no_grad = NG
t.device = lambda x: x
def save(x, f):
    with open(f, 'wb') as h: pickle.dump(x, h)
def load(f):
    with open(f, 'rb') as h: return pickle.load(h)
t.save = save; t.load = load
for k, m in (('torch', t), ('torch.optim', o), ('torch.nn', n), ('torch._six', s)):
    sys.modules[k] = m
from hyperion.torch.torch_trainer import TorchTrainer
from hyperion.torch.lr_schedulers import ReduceLROnPlateau
from hyperion.torch.loggers import Logger
class M(Module):
    def __init__(self): self.p = P()
    def forward(self, x): self.p.g = 1.0; return T([self.p.v + v for v in x.a])
    def state_dict(self): return {'p': self.p.v}
    def load_state_dict(self, d): self.p.v = d['p']
class L(Module):
    def forward(self, y, z): return T([sum(z.a) / len(z.a)])
    def state_dict(self): return {}
    def load_state_dict(self, d): pass
class Data(list):
    dataset = [1, 2, 3]
'''
SEEDS = [
 dict(id='p18-save-early', property='P18',
  edits=[(T, """            self.loggers.on_epoch_end(logs)
            if self.lr_scheduler is not None:
                self.lr_scheduler.epoch_end_step(logs)

            self.save_checkpoint(logs)
""", """            self.loggers.on_epoch_end(logs)
            self.save_checkpoint(logs)
            if self.lr_scheduler is not None:
                self.lr_scheduler.epoch_end_step(logs)
""")],
  needs='a scheduler that acts at the end of the epoch, and a restart after an epoch that counted',
  breaks='the checkpoint misses what the scheduler did at the end of its epoch',
  demo=PRE + '''
d = os.environ['SCRATCH'] + '/exp'
def make(n):
    m = M(); op = Optimizer([m.p], 1.0)
    return TorchTrainer(m, op, L(), n, d, device='cpu', metrics={}, loggers=[Logger()], lr_scheduler=ReduceLROnPlateau(op, 'loss', factor=0.5, patience=1, threshold=0.1, threshold_mode='abs', warmup_steps=1)), m, op
data = Data([(T([1.0]), T([1.0])), (T([1.0]), T([1.0])), (T([1.0]), T([1.0]))])
import pickle as pk
a, m, op = make(7)
# the scheduler of the demonstration need not be pickled whole
ReduceLROnPlateau.state_dict = lambda self: {k: v for k, v in self.__dict__.items() if k in ('best', 'num_bad_epochs', 'cooldown_counter', 'last_epoch', 'last_batch')}
ReduceLROnPlateau.load_state_dict = lambda self, s: self.__dict__.update(s)
a.fit(data)
for k in range(1, 7):
    import glob
    b, m2, op2 = make(7)
    b.load_checkpoint(d + '/model_ep%04d.pth' % k)
    b.fit(data)
    assert m2.p.v == m.p.v and op2.param_groups == op.param_groups, (k, m2.p.v, m.p.v)
'''),
 dict(id='p18-val-weights', property='P18',
  edits=[(T, """                    batch_metrics[k] = metric(output, target)
            
                metric_acc.update(batch_metrics, batch_size)
""", """                    batch_metrics[k] = metric(output, target)
            
                metric_acc.update(batch_metrics)
""")],
  needs='validation batches of different sizes, such as a shorter last one',
  breaks='validation metrics are averages over batches, not over samples',
  demo=PRE + '''
d = os.environ['SCRATCH'] + '/exp'
m = M(); op = Optimizer([m.p], 1.0); seen = []
class O(Logger):
    def on_epoch_end(self, logs, **k): seen.append(dict(logs))
a = TorchTrainer(m, op, L(), 1, d, device='cpu', metrics={}, loggers=[O()])
a.fit(Data([(T([1.0]), T([1.0]))]), Data([(T([1.0, 2.0, 3.0]), T([1.0, 2.0, 3.0])), (T([8.0]), T([8.0]))]))
assert abs(seen[0]['val_loss'] - 3.5) < 1e-9, seen
'''),
]
