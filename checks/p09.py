"""P09: batches of drawn classes (SequenceBatchGeneratorV2)."""
import random

import vf
from checks.batches import gen_script, from_model, corrupt


def run(ck):
    rnd = random.Random(ck.seed)
    ms = ck.model('MC_Draws', want=300)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m, 2) for m in ms]
    for i in range(ck.pick(1800, 15000)):
        scripts.append(gen_script(rnd, 2))
    behs = ck.execute('checks.batches', scripts)
    ck.judge('Trace_Batches', behs, scripts, 'checks.batches', label='batches', batch=3000)
    ck.negative_control('Trace_Batches', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P09', run)
