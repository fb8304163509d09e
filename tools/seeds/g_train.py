L = 'hyperion/torch/lr_schedulers/'
PRE = '''
import sys, types, math, os, pickle, copy
t = types.ModuleType('torch'); o = types.ModuleType('torch.optim'); n = types.ModuleType('torch.nn'); s = types.ModuleType('torch._six')
class Optimizer(object):
    def __init__(self, lrs):
        self.param_groups = [{'lr': v} for v in lrs]
class Module(object): pass
o.Optimizer = Optimizer; n.Module = Module; s.inf = math.inf; t.optim = o; t.nn = n; t._six = s
for k, m in (('torch', t), ('torch.optim', o), ('torch.nn', n), ('torch._six', s)):
    sys.modules[k] = m
'''
SEEDS = [
 dict(id='p17-cooldown', property='P17',
  edits=[(L + 'red_lr_on_plateau.py', """        if self.in_cooldown:
            self.cooldown_counter -= 1
            self.num_bad_epochs = 0  # ignore any bad epochs in cooldown

        if self.num_bad_epochs > self.patience:
""", """        if self.num_bad_epochs > self.patience and self.in_cooldown:
            self.num_bad_epochs = 0  # ignore bad epochs in cooldown

        if self.in_cooldown:
            self.cooldown_counter -= 1

        if self.num_bad_epochs > self.patience:
""")],
  needs='a drop, epochs without improvement during the cool-down, and the epochs right after it',
  breaks='epochs without improvement inside the cool-down count towards the patience after it',
  demo=PRE + '''
from hyperion.torch.lr_schedulers import ReduceLROnPlateau
op = Optimizer([1.0])
r = ReduceLROnPlateau(op, 'l', factor=0.5, patience=2, cooldown=2, threshold=0.1, threshold_mode='abs', warmup_steps=1)
drops = []
for e in range(20):
    r.epoch_begin_step(); a = op.param_groups[0]['lr']
    r.batch_step(); r.batch_step(); r.batch_step()
    a = op.param_groups[0]['lr']
    r.epoch_end_step({'l': 1.0})
    if op.param_groups[0]['lr'] < a:
        drops.append(e)
# first after 3 epochs without improvement, then 2 of cool-down and 3 more
assert drops == [3, 8, 13, 18], drops
'''),
 dict(id='p17-cos-restart-state', property='P17',
  edits=[(L + 'lr_scheduler.py', """        self.__dict__.update(state_dict)


    def get_warmup_lr""", """        for key, value in state_dict.items():
            if key in ('last_epoch', 'last_batch') or getattr(self, key, None) is None:
                self.__dict__[key] = value


    def get_warmup_lr""")],
  needs='saving and loading a cosine schedule after a warm restart',
  breaks='the period, the last restart and the number of restarts are those of a new schedule after loading',
  demo=PRE + '''
from hyperion.torch.lr_schedulers import CosineLR
def run(k):
    op = Optimizer([1.0])
    c = CosineLR(op, 4, 2, warm_restarts=True, gamma=0.5, warmup_steps=1)
    out = []
    for e in range(12):
        if e == k:
            st = pickle.loads(pickle.dumps(c.state_dict()))
            op = Optimizer([1.0])
            c = CosineLR(op, 4, 2, warm_restarts=True, gamma=0.5, warmup_steps=1)
            c.load_state_dict(st)
        c.epoch_begin_step(e)
        for _ in range(3):
            c.batch_step()
        out.append(op.param_groups[0]['lr'])
        c.epoch_end_step({})
    return out
assert run(7) == run(-1), (run(7), run(-1))
'''),
]
