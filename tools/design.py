#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the table below, known_findings.json and tools/seed_results.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (specified, enumerated by TLC, executed and judged, domain: what is not promised, cost)
D = {}


def d(id, spec, model, bind, domain='', why=''):
    D[id] = (spec, model, bind, domain, why)


d('P01', 'Archive.tla: an archive is the ordered sequence of records written; a script line is a record with a row range; a reader holds a source of lines and a cursor.  Values are integers in units of 1/8000; for each compression method the spec has the quantisation step it allows.',
  'MC_Archive_write: every sequence of writes of up to 3 (thorough 4) records over format, element type, grouping of write calls and script or not; emitted as scripts.',
  'Scripts from the model and random ones (shapes 1..12 x 1..9, all 7 compression methods, text and binary, float and double, several archives behind one script, bare Kaldi archives written by the harness byte by byte) are written with DataWriterFactory writers and read by every kind of reader; each record delivered is an event.',
  'ascii keys, no "/" in hdf5 keys, no zero-row matrices in text or with compression, compression of vectors may be refused; what squeeze does with empty results is not promised.')
d('P02', 'Archive.tla: cursor semantics of sequential readers: read(n), shapes, row counts, dims, next, eof, reset; parts of a source.',
  'MC_Archive_cursor: all histories of 5 (thorough 6) calls over sources of 0..3 records (26 244 histories), with the invariant that the records delivered between resets are a prefix of the source, each once.',
  'Every emitted history (sampled in quick) is run against ark, hdf5, script and bare archives, plus random longer ones and partitions into 1..5 parts, whose union is judged.',
  'the position after a call that raised is not promised until reset.')
d('P03', 'Archive.tla: composition of script range and requested range; outside = error or cut.',
  'MC_Archive_range: all (rows <= 4 (5), script range, request) combinations.',
  'All combinations on all formats and compression methods (values of a compressed slice equal those of the complete matrix), per-record ranges, vectors, announced shapes against delivered ones.')
d('P04', 'ScpList.tla: pool of tables; every operation gives the next pool, so that leaking into another table is an error.',
  'MC_ScpList: all histories of 3 operations over small tables (90 804 states, 89 328 histories emitted).',
  'emitted histories and random ones of up to 12 operations over lists of up to 12 rows with every optional column; sort/shuffle must be permutations; numeric and text paths.')
d('P05', 'Utt2Info.tla, as P04, with 0..3 value columns.', 'MC_Utt2Info: all histories of 3 operations (92 650 states).',
  'as P04; also keys and values that spell like numbers or missing data.')
d('P06', 'Trials.tla: a trial list is a partial map (model, segment) -> label with model, segment and trial conditions; all operations on pools of lists.',
  'MC_Trials: all histories of 3 operations over 2x2 lists of the three kinds (36 900 states), MC_Trials2 with conditions.',
  'emitted and random histories over TrialNdx/TrialKey/SparseTrialKey, text, hdf5, and matrix files; labels of all pairs compared.',
  'ascii names in hdf5 files; merge of at least two objects.')
d('P07', 'Trials.tla, kind "scr": scores are a partial map (model, segment) -> value.',
  'as P06.', 'TrialScores (and SparseTrialScores): filter, align with ndx/key (with missing trials), split, merge, transform, get_tar_non, save/load.', '')
d('P08', 'Batches.tla: the schedule of epochs, iterations and batches of SequenceBatchGeneratorV1, which examples each batch may hold, where each example is cut.',
  'MC_Batches_{full,rand,seq}: the schedules of each mode (161k states) with the invariants that every utterance is used the promised number of times per epoch and cuts stay inside; MC_Batches_cfgs: all 6720 option combinations, emitted.',
  'every option combination (sampled in quick) over archives whose values encode key, frame and column, so that every frame of every batch is traced back to where it came from; resets; statistics of random cuts by exact bounds on tallies.',
  'steps_per_epoch >= 1; with full sequences max length >= the longest when squeezed.  AdaptSequenceBatchGenerator is stale and not covered.')
d('P09', 'Batches.tla kind 2 and MC_Draws: drawn classes, draws of utterances within a class, balance and imbalance limits.',
  'MC_Draws: 504 option combinations with the draws they permit.',
  'as P08 for SequenceBatchGeneratorV2: class labels, balance of classes within a batch, epochs, resets with equal seeds.', 'draws are with replacement by design.')
d('P10', 'FoldLists.tla: parts as a function element -> part with mask and groups.',
  'MC_FoldLists: creation of all small lists (33 820 states) with the invariants partition, no group in two parts, balance.',
  'emitted and random lists through create, fold, parts, copy, align, save/load.', 'groups nested in balance classes.')
d('P11', 'Segments.tla: pool of segment lists (plain and extended); each operation maps time spans.',
  'MC_Segments (33 696 states) and MC_Segments2 (extended lists): all histories of 2..3 operations.',
  'emitted and random histories; indexing by id, by file, masks at frame rate, file round trips.',
  'unique segment ids for by-id lookups; lists non-empty for save/load; ExtSegmentList files in time order; the score after merge_adjacent is missing by design; frame mask is the closed interval.')
d('P12', 'Rttm.tla: marks as rows with type, file, channel, times in 1/64 s, name, confidence.',
  'MC_Rttm, MC_Rttm2, MC_Rttm3: histories of operations; overlap elimination; joining (165k states).',
  'emitted and random histories of the operations of RTTM objects.',
  'times given (no SPKR-INFO rows); joining is skipped when names are missing; overlap elimination drops marks inside an earlier one, else cuts in the middle; order-dependent operations only when the marks of each file are in time order.')
d('P13', 'Queues.tla: what may be delivered after any interleaving of workers, generator and consumer.',
  'MC_Queues_*: the queue protocol with 1..3 workers and queue sizes 1..2: safety over all interleavings, liveness (everything is delivered, stop ends) under fairness, schedules emitted.',
  'the real code runs with a controlled scheduler (lib/simthread.py replaces threading, queue and time primitives by cooperative ones; every blocking point is a choice point); schedules from the model and random ones, stops in the middle, errors in the generator, timed stops.',
  'threads mode; a generator shared by several workers is thread-safe; queue size >= 1; None items are skipped; a single consumer.')
d('P14', 'Metrics.tla: misses and false alarms as counts; ROC, convex hull, pool-adjacent-violators, EER, DCF, Cllr, AUC, confusion matrices.',
  'MC_Metrics: all score sets with up to 3 targets and 3 non-targets over 4 values (13 042 states), with the theorems relating hull, EER and PAV.',
  'emitted and random score sets (with ties, one-sided, shifted, float32).',
  'at ties the ROC may pass through anything inside the tie step; normalised confusion rows non-empty; priors ascending.')
d('P15', 'VecClass.tla: pruning, class splitting, once-only use.', 'MC_VecClass: all option combinations over small class lists (69 440 states).',
  'VectorClassReader and VectorReader over archives whose values name the vector; command line options round trip.',
  'class2int only without splitting; cmin <= cmax, overlap < max; max_length 0 or at least the class size; empty results are not read.')
d('P16', 'Copy.tla: copies of records between archives, merging, and the grammar of read and write specifiers.',
  'MC_Copy (histories of writes, copies and merges), MC_Specifiers_r/_w (all token sequences up to a length).',
  'CopyFeats, H5Merger, RSpecifier/WSpecifier parsing.',
  'no contradictory options together; no ":" or "," in file names; empty scripts have no type; reading an ark by parts may be refused; duplicates in hdf5 are refused.')
d('P17', 'LrSched.tla: rate of every group after any history, as intervals of thousandths of a unit (cosine by table).',
  'MC_LrSched1..3 (exponential, cosine, plateau; 150k states), histories of epochs, batches, metrics, saves and restores.',
  'the schedulers of hyperion/torch with a stand-in for torch (lib/faketorch.py), since torch is not installed.',
  'min <= base; thresholds dyadic; at least one batch per epoch; warm-up resets the plateau count.')
d('P18', 'Trainer.tla: training as a resumable state machine: model, optimizer, loss, scheduler, log files, checkpoint files; Crash at each of 17 points.',
  'MC_Trainer: all schedules of crashes and restarts over small configurations (40 920 states); invariant: state after n epochs is that of an uninterrupted run.',
  'TorchTrainer with the stand-in torch and an exact toy model; the process is killed at every point, also in the middle of writing a checkpoint; weights, logs and rates are compared.',
  'a line logged for an epoch whose checkpoint was lost may be repeated; one experiment per directory.')
d('P19', 'Ahc.tla, KMeans.tla: clusters as sets with exact rational similarities; centroids as <<sum, count>>.',
  'MC_Ahc, MC_Ahc_mask (85k states): merges are in order of similarity for all small score matrices, flat clusterings follow them; MC_KMeans: assignment and update steps never raise the loss.',
  'AHC (four linkages, masks, thresholds, cluster numbers), metrics of partitions, KMeans fit/predict with given seeds.',
  'monotone linkages only; k-means not judged when a point is equally near to two centroids or a cluster empties.')
d('P20', 'Frames.tla: windows of sliding normalisation, context of selections and energy VAD, framing of waves, feature stages.',
  'MC_Frames: all short value sequences x windows (98k states).',
  'mean-variance normalisation (all algorithms), frame selection, VAD, framing with all options, inverse transforms, filter banks by their stage inputs.',
  'frame_length >= 2 shift with padding; waves of at least one frame; filters leave out frequency zero when energy is stored there; log spectra down to -12; fft length >= frame for inverses.')
d('P21', 'Audio.tla: recordings as integer samples; segments in 1/64 s; sequential and random readers; parts.',
  'MC_Audio: histories of reads over recordings and segments (171k states).',
  '20 file formats; segments, time offsets and durations per call, pipes, parts.',
  'unique keys; end >= begin; recordings are divided by key; PCM_24 may be refused; position after a failing read not promised until reset.')
d('P22', 'ScoreNorm.tla: Z, T, S, ZT, TZ and adaptive S norm over exactly the permitted cohort scores.',
  'MC_ScoreNorm: all small matrices and masks (17k states).', 'the classes of hyperion/score_norm over integer scores, masks, duplicated and permuted cohorts.',
  'at least one permitted cohort score per statistic; ties among the best broken any way; second stages judged only when the deviation is well above the floor.')
d('P23', 'Store.tla: models as trees of parameters, files as sets of trees; prediction of integer toy models.',
  'MC_Store: histories of new, append, save, load, copy, shift (187k states).',
  'every class with save/load: transforms, Gaussian back-ends, classifiers, mixtures, calibration, pipelines and TransformLists; loaded by class and by ModelLoader.',
  'members of a named chain have names; equal names have all their parameters set; optimiser options of logistic regression are not saved.  Not covered: QScoringHomoGBE, GreedyFusion, LinearGBEUP, JFATotal, calibration with missing imports, models of keras, tensorflow or torch (not installed).')
d('P24', 'Em.tla: exact E- and M-steps of Gaussians and mixtures on separated clusters in integer arithmetic; the likelihood never falls.',
  'MC_Em: small data sets, EM steps (17k transitions) with the invariants of sums of posteriors and monotone likelihood.',
  'GMM, GMMDiagCov, GMMTiedDiagCov, Normal, NormalDiagCov: statistics, sums of statistics of parts and weights, steps, natural parameters, fitting.',
  'the objective the library reports is by design the expected log-likelihood with components, which need not grow; monotonicity is judged on the likelihood.  fit_generator is not covered (see known limits).')
d('P25', 'Plda.tla: two-covariance model in coordinates where it is diagonal; exact rational posteriors, log ratios with a table of logarithms (LnTab); EM never lowers the evidence.',
  'MC_Plda: all small class structures (65k states): ratio symmetry, all scoring methods agree on 1 vs 1, posterior identities.',
  'FRPLDA, SPLDA, PLDA under random rotations: statistics, posteriors, evidence, all llr methods and pool methods, EM and minimum divergence steps, weights, averages of models, adaptation, sampling, option round trips, and trained models against a dense Gaussian evaluation in the harness.',
  'class labels 0..M-1 all present; averages of scores from single samples; averaged models share the support of between-class dimensions; more samples than dimensions.  fit_adapt is not covered.')
d('P26', 'Evals.tla: files of vectors, lists and tables as functions; scores of trials in integer arithmetic (cosine, two-covariance PLDA, linear classifiers), normalization, conversions, reports.',
  'MC_Evals: all small lists, cohorts and divisions in parts: parts make up the whole, scores do not depend on orders.',
  'the tools of hyperion/bin run with command lines over files written for the purpose; score files and reports are read back.',
  'one enrolment segment per model for the 1 vs 1 tools; lists of cohorts name each segment as its own model; no more parts than models or segments; no zero vectors in cosine scoring; averages with length normalization are compared with the library on the right vectors.')
d('P27', 'Transf.tla: data given in coordinates in which they are uncorrelated by design, so that the transform that has to be learned is known exactly (centre, scatter per axis, order of the axes) whatever rotation, scale and offset the code sees; scatters of SbSw and NSbSw and ranks of the Gaussianizer in integer arithmetic of any data.',
  'MC_Transf: lives of transforms (flags, initial parameters, one data set after another): what is learned is what the last data say, independent of the order and repetition of samples; whitened variance, order of axes.',
  'the transforms of hyperion/transforms and the training tools, trained with data, with statistics, or with the command line; predictions are projected back to the designed coordinates.',
  'more samples than dimensions, non-singular scatters, distinct eigenvalues; signs of axes are free but have to stay; class weights of SbSw are not implemented; length normalization of the very centre.')
d('P28', 'Classif.tla: counting of weighted samples in integer arithmetic: means, covariance and counts of Gaussian back-ends alone or adapted to a prior, the precision-weighted statistics of Q-scoring, scores and Student-t kernels; conditions of optimality of the logistic regression (posteriors of the training data add up to the priors, gradient of the regularised objective is zero); Gaussian calibration.',
  'MC_Classif: lives of back-ends (learned, adapted, adapted again): adaptation is a convex combination, with no data it is the prior, with a flat prior it is plain counting, the order of samples does not matter.',
  'the classes of hyperion/classifiers, GaussCalibration and the training tools: enumerated and random data sets, weights as labels, posteriors or samples weights, priors from memory or file, flags, relevance factors before and after, save and load.',
  'more samples than dimensions; balance_class_weight=False of Q-scoring with a prior is not judged; the support vector machine is compared with a scikit-learn one built from the same options; adaptation of LinearGBEUP is not covered.')
d('P29', 'Tools.tla: frames marked by segments, maximal intervals of marks, numbers of frames and frames with energy of recordings (Frames.tla), log-likelihood and posteriors of mixtures whose weights are powers of two and precisions powers of four (integers in 1/1000), scores of back-ends (Classif.tla), records that keep their data; each run of a tool is judged by itself.',
  'MC_Tools: segments added one by one: the intervals are disjoint, maximal, cover the recording and say what the marks say; the order of segments does not matter; a segment takes no mark and touches no other file.',
  'the tools as run from the command line (in-process), names of recordings of several styles, archives of several formats, parts, chunk sizes, fields, list separators, offsets of recordings before others, mixtures of Kaldi and of the library, transforms.',
  'times half way between two frames are not used; the list of RTTM is in order of time as the class requires; GMM of full covariance of Kaldi not covered; train-plda is compared with the library (P25 judges the library); the keras tools cannot run here; init-ubm is unfinished and plots are not judged.')
d('P30', 'SeqRead.tla: state of the reader (pieces left of each sequence, frame of the next piece, sequence where the search begins, batches given); actions open / read / a second reader with the same seed; parts of lists and readers of trials over parts of recordings are judged by themselves.',
  'MC_SeqRead: all options with sequences of small lengths: there is a piece until the epoch ends; pieces are not shorter than the minimum nor longer than the maximum; without overlap no frame is given twice; what the epoch leaves is shorter than the minimum; the options go to the real readers.',
  'readers with and without labels, posteriors, transforms, fields, separators, options from the command line (with and without prefix), three-dimensional tensors with padding; several epochs, that end with pieces left; readers of trials with parts of models and segments, a recording at a time, archives of several formats.',
  'sequences shorter than the overlap and minimum lengths not over the overlap are not used (the number of pieces has no meaning there); posteriors go with slices only (random samples are not implemented for them); the option subsample does nothing.')
d('P31', 'Options.tla: the values given so far for each option of each component; Read consumes the words of the line; Gets(component) is the set of its arguments. lib/options.json (made by tools/mkoptions.py, committed) has the 45 tables of options, 293 in all, with their arguments, kinds, types and values when absent.',
  'MC_Options: components that share a parser, all lines up to a length: what a component gets depends only on its own words; words of different options may change places; the last word of an option counts; flags.',
  'every option of every component by itself, behaviours of the model and random lines, with and without prefix, `--o v` and `--o=v`, components declared in any order, objects built with the arguments they get.',
  'components of keras and torch cannot be loaded here; AdaptSequenceBatchGenerator (stale: its base class has no `scp` any more) and the older LinearGBE of classifiers/linear_gbe1.py are left out. The table fixes the names and values when absent of the current command line: a deliberate change of them needs tools/mkoptions.py to be run again.')
d('P32', 'Numeric.tla: integer matrices with integer results: A = R\'R with powers of two in the diagonal of R; covariances C\' Q diag(d) Q\' C with rotations Q of 3-4-5 triangles, floored by taking the larger of d and 1; packing as places of a triangle; softmax and sums of powers of two with a table of logarithms.',
  'MC_Numeric: all upper factors, eigenvalues and rotations of two dimensions: the floored covariance less the floor and less the covariance are positive semidefinite, nothing changes when it is over the floor, packing loses nothing; the covariances go to the real routines.',
  'random systems of 1 to 4 dimensions with vectors and matrices on either side, both triangles and orders of memory, arrays of one to three axes with any axis and offsets to 30000, numbers far from zero in both precisions, floors as matrices, upper and lower factors and numbers; arguments are compared with copies.',
  'numbers are chosen so that results are exact to 1/1000; ill-conditioned matrices are not used.')
EXTRA = os.path.join(V, 'tools', 'design_extra.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    o = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
    res = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
    for p in props:
        s = D[p['id']]
        o += ['### %s %s' % (p['id'], p['title']), '', '* **Specified:** ' + s[0], '* **Explored by TLC:** ' + s[1],
              '* **Bound to the code:** ' + s[2], '* **Why not tests:** ' + p.get('why_tests_cant', s[4]) if (p.get('why_tests_cant') or s[4]) else None,
              '* **Outside the property:** ' + s[3] if s[3] else None, '']
        o = [x for x in o if x is not None]
    o += ['## Planted bugs', '', '`seeded/<id>/`, made by `tools/mkseed.py` from `tools/seeds/*.py`; each builds, passes the stable tests, and its demonstration '
          'fails with it.  "caught" is the quick check of its property run against a copy with the bug.', '', '| bug | property | needs | caught |', '|---|---|---|---|']
    for k in sorted(res):
        r = res[k]
        m = os.path.join(V, 'seeded', k, 'meta.json')
        if not os.path.exists(m):
            continue
        o.append('| %s | %s | %s | %s |' % (k, r['property'], json.load(open(m))['needs'].replace('|', '/'), 'yes' if r.get('caught') else 'no'))
    o += ['', '## Defects found and repaired', '', 'Each was shown by a check against the real code, and is one `fix:` commit in /repo (`known_findings.json` lists them with their commits).', '']
    kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    for p in props:
        f = [x for x in kf if x['property'] == p['id']]
        if f:
            o += ['**%s** (%d)' % (p['id'], len(f)), '']
            for x in f:
                w = x['what'].split(' ', 3)[-1] if x['status'] == 'fixed' else x['what']
                o.append('* `%s` %s' % (x.get('commit', x['status']), w))
            o.append('')
    tail = os.path.join(V, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        o += [open(tail).read().rstrip(), '']
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))


main()
