"""P08: batches cut from the utterances in turn (SequenceBatchGeneratorV1)."""
import random

import vf
from checks.batches import gen_script, from_model, corrupt


def run(ck):
    rnd = random.Random(ck.seed)
    for c in ck.pick(['full', 'rand', 'seq'], ['full', 'rand', 'seq', 'deep']):
        ck.model('MC_Batches', cfg='MC_Batches_%s.cfg' % c, timeout=1500)
    ms = ck.model('MC_Batches', cfg='MC_Batches_cfgs.cfg', want=1000)
    rnd.shuffle(ms)
    scripts = [from_model(rnd, m) for m in ms[:ck.pick(800, 6720)]]
    for i in range(ck.pick(1800, 15000)):
        scripts.append(gen_script(rnd, 1))
    behs = ck.execute('checks.batches', scripts)
    ck.judge('Trace_Batches', behs, scripts, 'checks.batches', label='batches', batch=3000)
    ck.negative_control('Trace_Batches', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P08', run)
