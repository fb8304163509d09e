V1 = 'hyperion/generators/sequence_batch_generator_v1.py'
V2 = 'hyperion/generators/sequence_batch_generator_v2.py'
PRE = '''
import os, numpy as np
from hyperion.io import DataWriterFactory as WF
from hyperion.utils import Utt2Info
from hyperion.generators.sequence_batch_generator_v1 import SequenceBatchGeneratorV1 as G1
from hyperion.generators.sequence_batch_generator_v2 import SequenceBatchGeneratorV2 as G2
T = os.environ['SCRATCH']

def corpus(lens, cls):
    names = ['u%d' % i for i in range(len(lens))]
    with WF.create('h5:%s/a.h5' % T) as w:
        w.write(names, [np.stack([np.full(n, i), np.arange(n)], axis=1).astype('float32') for i, n in enumerate(lens)])
    Utt2Info.create(np.array(names), np.array(cls)).save(T + '/u2c')
    return 'h5:%s/a.h5' % T, T + '/u2c'
'''
SEEDS = [
 dict(id='p08-class-order', property='P08',
  edits=[(V1, """                class_dict={line.rstrip().split()[0]: i for i, line in enumerate(f)}
""", """                class_list = set(line.rstrip().split()[0] for line in f)
            class_dict = {k:i for i, k in enumerate(sorted(class_list))}
""")],
  needs='a class list that is not in alphabetical order',
  breaks='examples are marked with the class of another column than the one the class list gives',
  demo=PRE + '''
cls = ['a', 'b', 'c', 'a']
r, k = corpus([4, 5, 6, 4], cls)
open(T + '/classes', 'w').write('c 1\\na 2\\nb 3\\n')
g = G1(r, k, class_list=T + '/classes', min_seq_length=2, max_seq_length=3, batch_size=2)
for i in range(4):
    b = g.read()
    for key, y in zip(b[0], b[-1]):
        assert 'cab'[int(np.argmax(y))] == cls[int(key[1:])], (key, y)
'''),
 dict(id='p08-short-wrap', property='P08',
  edits=[(V1, """            seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
            first_frame = self.rng.randint(
                low=0, high=full_seq_length-seq_length+1)
""", """            seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
            first_frame = self.rng.randint(
                low=0, high=max(full_seq_length, self.min_seq_length)-seq_length+1)
""")],
  needs='random cutting of an utterance shorter than the minimum length',
  breaks='the segment asked for begins after or ends past the end of the utterance',
  demo=PRE + '''
r, k = corpus([3, 9], ['a', 'b'])
g = G1(r, k, min_seq_length=5, max_seq_length=6, batch_size=2)
for i in range(20):
    b = g.read(squeeze=False)
    for key, x in zip(b[0], b[1]):
        assert len(x) == 3 if key == 'u0' else 5 <= len(x) <= 6, (key, len(x))
'''),
 dict(id='p09-last-frame', property='P09',
  edits=[(V2, """            first_frame = self.rng.randint(
                low=0, high=full_seq_length-seq_length+1)
""", """            first_frame = self.rng.randint(
                low=0, high=max(full_seq_length-seq_length, 1))
""")],
  needs='segments shorter than the utterance, watched until the last position should have come',
  breaks='segments never end at the last frame of an utterance',
  demo=PRE + '''
r, k = corpus([6, 6], ['a', 'b'])
g = G2(r, k, min_seq_length=5, max_seq_length=5, batch_size=4)
seen = set()
for i in range(60):
    for x in g.read()[1]:
        seen.add((int(x[0, 0]), int(x[0, 1])))
assert seen == {(0, 0), (0, 1), (1, 0), (1, 1)}, seen
'''),
 dict(id='p09-prune-index', property='P09',
  edits=[(V2, """        if prune_min_length > 0:
            self._prune_min_length(prune_min_length)

        self.class_weight = class_weight
""", """        self.class_weight = class_weight
"""), (V2, """        self._prepare_class_info(class_list)
        
        self.seed = sg_seed
""", """        self._prepare_class_info(class_list)
        if prune_min_length > 0:
            self._prune_min_length(prune_min_length)
            for k, idx in self.class2utt_idx.items():
                self.class2utt_idx[k] = idx[idx < self.num_seqs]
                self.class2num_utt[k] = len(self.class2utt_idx[k])
            self.num_class_zero_utt = np.sum(self.class2num_utt==0)

        self.seed = sg_seed
""")],
  needs='a list with utterances shorter than prune_min_length before longer ones of other classes',
  breaks='after pruning the classes index the list as it was before: segments are labelled with the class of another utterance',
  demo=PRE + '''
cls = ['a', 'b', 'a', 'b', 'a', 'b']
r, k = corpus([2, 9, 2, 9, 9, 9], cls)
g = G2(r, k, min_seq_length=4, max_seq_length=4, batch_size=3, prune_min_length=4)
for i in range(20):
    b = g.read()
    for key, y in zip(b[0], b[-1]):
        assert cls[int(key[1:])] == 'ab'[int(np.argmax(y))], (key, y)
'''),
]
