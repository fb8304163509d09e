#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# properties whose check is registered
CLAIMED = open(os.path.join(V, 'tools', 'claimed.txt')).read().split()

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, level_note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, na=na, level_note=level_note))


U = 'hyperion/utils/'
prop('P01', 'Archives give back exactly what was written',
     'Whatever named matrices and vectors are written, in any grouping of write calls, to a Kaldi ark (binary or text) or '
     'hdf5 archive with or without script file, the archive read back sequentially or by key, directly or through its script file, '
     'yields exactly those keys (ark: in the order written), each with the shape and values written. '
     'With a compression option the values deviate by no more than that option\'s quantisation step, and keys, shapes and order stay exact. '
     'Asking for a key that was not written is an error, or with permissive reading an empty result in its place, never other data.',
     ['inputs', 'configurations', 'histories'],
     'all archive formats, element types, compression methods, record shapes, key spellings, groupings of writes and ways of reading',
     'The tests write one fixed feature set per format and compare a few reads; the guarantee is over every mix of shapes, names, formats and access orders.',
     ['hyperion/io/ark_data_writer.py', 'hyperion/io/ark_data_reader.py', 'hyperion/io/h5_data_writer.py', 'hyperion/io/h5_data_reader.py',
      'hyperion/io/data_rw_factory.py', U + 'kaldi_matrix.py', U + 'kaldi_io_funcs.py'],
     [('write of a record and of its script line', 'hyperion/io/ark_data_writer.py ArkDataWriter.write; hyperion/io/h5_data_writer.py H5DataWriter.write'),
      ('read of records', 'hyperion/io/ark_data_reader.py, hyperion/io/h5_data_reader.py read()'),
      ('binary and text layout', U + 'kaldi_matrix.py KaldiMatrix/KaldiCompressedMatrix read, write')],
     [('archive', 'ordered sequence of (key, matrix)', 'files on disk'), ('script', 'key to position of the record', 'scp file')],
     ['return values of the readers', 'script file'])
prop('P02', 'Sequential readers deliver each record exactly once, whatever the calls',
     'Under any interleaving of reading some or all remaining records, reading only shapes, row counts or dimensions, iterating, asking for end of file and resetting, '
     'a sequential reader delivers the records of its archive or script in their order, each exactly once between resets, and signals the end exactly when none remain. '
     'Readers created for part i of n together deliver every record exactly once.',
     ['histories', 'configurations'],
     'all call histories over one reader, all reader kinds (ark, hdf5, each directly or through a script), all partitions',
     'The tests read everything at once or in fixed chunks; interleavings of reads, shape-only reads, iteration and resets are unbounded histories.',
     ['hyperion/io/ark_data_reader.py', 'hyperion/io/h5_data_reader.py', 'hyperion/io/data_reader.py'],
     [('cursor', 'hyperion/io/h5_data_reader.py, ark_data_reader.py read/read_shapes/reset/eof/__next__')],
     [('cursor', 'number of records already delivered', 'Sequential*DataReader')], ['return values of the readers'])
prop('P03', 'Row ranges select exactly the requested rows',
     'Reading with a first row and a number of rows, given once or per record, returns exactly those rows of the record, also when the script file already restricts the record to a range '
     'and also from compressed archives, where the rows equal those of the complete matrix. '
     'A range that reaches outside the record or outside the range of its script line is rejected or cut at that limit, never filled from outside it, and the shapes and row counts announced for a range agree with the data delivered for it.',
     ['inputs', 'configurations'],
     'all matrices, script ranges, offsets, lengths, archive formats and compression methods',
     'The tests use a handful of ranges; boundaries, nested ranges, per-record ranges and compressed blocks multiply.',
     ['hyperion/io/data_reader.py', 'hyperion/io/ark_data_reader.py', 'hyperion/io/h5_data_reader.py', U + 'kaldi_matrix.py'],
     [('combination of ranges', 'hyperion/io/data_reader.py _combine_ranges/_apply_range_to_shape'),
      ('row slices', U + 'kaldi_matrix.py read(row_offset, num_rows)')], [], ['return values of read, read_shapes, read_num_rows'])
prop('P04', 'Script lists keep rows whole under every history of operations',
     'A script list is a table whose rows (key, path, position, range) stay whole: under any history of sorting, shuffling, filtering by key, path or index, merging, splitting, prefixing, copying, saving and loading, '
     'each result holds exactly the rows the operation selects, in the documented order, and no other list changes. '
     'Looking up a key at any moment gives a row that has that key now. '
     'The parts of a split hold every row exactly once and differ in size by at most one, and when grouped by key no key is in two parts.',
     ['histories', 'inputs'],
     'all histories of operations over several lists, with repeated keys, absent columns and empty lists',
     'The tests apply each operation once to one list; stale lookups, aliasing and lost columns need sequences of operations.',
     [U + 'scp_list.py', U + 'list_utils.py'],
     [('row association', U + 'scp_list.py SCPList.sort/shuffle/filter*/split/merge'), ('lookup cache', U + 'scp_list.py SCPList.get_index')],
     [('rows', 'sequence of (key, path, offset, range)', U + 'scp_list.py')], ['attributes and lookups of SCPList'])
prop('P05', 'Utterance tables keep rows whole under every history of operations',
     'A table of utterance information keeps each key together with its values under any history of sorting, shuffling, filtering by key, value or position, merging, splitting, copying, saving and loading: '
     'each result holds exactly the rows the operation selects, in the documented order, no other table changes, and looking up a key at any moment gives its own values. '
     'The parts of a split hold every row exactly once, and when grouped by a column no value of that column is in two parts.',
     ['histories', 'inputs'],
     'all histories of operations over several tables with one or more value columns',
     'The tests apply each operation once to a one-column table.',
     [U + 'utt2info.py', U + 'list_utils.py'],
     [('row association', U + 'utt2info.py Utt2Info.sort/shuffle/filter*/split/merge/save/load'), ('lookup', U + 'utt2info.py __getitem__/get_index')],
     [('rows', 'sequence of (key, values)', U + 'utt2info.py')], ['attributes and lookups of Utt2Info'])
prop('P06', 'Trial lists keep the label of every (model, segment) pair',
     'Trial index and key objects are maps from (model, segment) to no-trial, trial, target or non-target: sorting, filtering, splitting, merging, copying, converting a key to an index, applying a segmentation and saving to and loading from text or hdf5 '
     'change only which pairs are present, never the label or condition of a pair that stays. '
     'The parts of a split cover every pair exactly once, and merging lists with different models or segments is the union of their labels.',
     ['histories', 'inputs'],
     'all sets of models, segments and trials and all histories of operations over them',
     'The tests of these classes need data files that are not in the repository and do not run.',
     [U + 'trial_ndx.py', U + 'trial_key.py'],
     [('row and column selection', U + 'trial_ndx.py, trial_key.py filter/split/sort/merge'), ('storage', U + 'trial_key.py save_h5/load_h5/save_txt/load_txt')],
     [('label', 'map from model x segment to label', 'TrialNdx.trial_mask, TrialKey.tar/non')], ['attributes of TrialNdx and TrialKey'])
prop('P07', 'Scores stay attached to their trial',
     'A score table maps (model, segment) to a score or to no score; sorting, filtering, splitting, merging, aligning with a trial list or key, extracting target and non-target scores, filling missing scores, transforming and saving to and loading from text or hdf5 '
     'never attach a score to another pair, never invent or drop a scored pair that the operation selects, and give every selected pair without a score the documented treatment (error, or the chosen missing value).',
     ['histories', 'inputs'],
     'all score tables, trial lists and histories of operations',
     'The tests of this class need data files that are not in the repository and do not run.',
     [U + 'trial_scores.py'],
     [('alignment by name', U + 'trial_scores.py align_with_ndx/filter/get_tar_non/set_missing_to_value')],
     [('score', 'partial map from model x segment to value', 'TrialScores.scores/score_mask')], ['attributes of TrialScores'])
prop('P08', 'Sequence batches are cut from the right utterance, on schedule',
     'Every example of a training batch is a contiguous run of frames of the utterance it is labelled with, inside the utterance and of a configured length (the whole utterance when it is shorter), with that utterance\'s class, and padded frames have weight zero; batches have the configured size and epochs the configured number of batches. '
     'Pass after pass the generator visits utterances as its sampling mode promises: each once per pass for whole utterances and random cutting, and for sequential cutting each chunk begins where the previous one of that utterance ended less the overlap, every utterance giving its number of chunks; utterances left out by pruning or by the part are never seen, and class balancing repeats utterances of small classes only. '
     'Generators built alike yield identical batches, also when one starts at the epoch the other has reached, while successive epochs differ.',
     ['histories', 'configurations', 'inputs'],
     'all corpora, lengths, sampling modes, batch sizes, seeds and numbers of epochs',
     'The tests draw a few batches from one corpus and compare sizes.',
     ['hyperion/generators/sequence_batch_generator_v1.py'],
     [('epoch schedule', 'SequenceBatchGeneratorV1.reset/read/_read_*'), ('segment choice', 'SequenceBatchGeneratorV1._read_random/_read_sequential')],
     [('epoch, step, cursor', 'position in the epoch', 'SequenceBatchGeneratorV1')], ['batches returned by read()'])
prop('P09', 'Class-balanced batches draw the right examples of the right classes',
     'Each batch of the class-based generator is made of groups: the configured number of segments of each utterance drawn, the configured number of utterances of each class drawn (draws may repeat, classes without utterances are never drawn); every segment is a contiguous run of frames, inside the bounds and of a configured length, of the utterance it is labelled with, marked with the class of that utterance, and segments share the utterance column exactly when they are of the same utterance. '
     'Every class, utterance and position that can be drawn is drawn sooner or later; generators built alike, also when started at the epoch the other has reached, yield identical batches, and successive epochs differ.',
     ['histories', 'configurations', 'inputs'],
     'all corpora, class sizes, batch shapes, seeds and numbers of epochs',
     'The tests draw a few batches from one corpus and compare sizes.',
     ['hyperion/generators/sequence_batch_generator_v2.py'],
     [('batch construction', 'SequenceBatchGeneratorV2._balance/_select/_read')],
     [('remaining classes and utterances', 'what has not been drawn in this pass', 'SequenceBatchGeneratorV2')], ['batches returned by read()'])
prop('P10', 'Cross-validation parts partition the data without leakage',
     'Splitting a list into folds, or into train, validation and evaluation parts, puts every selected element in exactly one part; elements of one group are never in two parts, each class is shared among the parts in the requested proportion up to rounding, and masked elements are in none. '
     'The training set of a fold is exactly the complement of its test set, saving and loading and aligning by key preserve the assignment, and the same seed gives the same parts.',
     ['inputs', 'configurations'],
     'all lists, group and balance labels, masks, numbers of parts and seeds',
     'There are no tests of fold and train/validation/evaluation lists.',
     [U + 'fold_list.py', U + 'train_val_eval_list.py'],
     [('assignment', U + 'fold_list.py FoldList.create; ' + U + 'train_val_eval_list.py create')],
     [('fold', 'assignment of elements to parts', 'FoldList.fold, TrainValEvalList.part')], ['attributes and accessors'])
prop('P11', 'Segment lists describe the same time spans after every operation',
     'A segment keeps its file and time span under any history of filtering, splitting, merging, copying, looking up by file, index or name, saving and loading, and no operation changes another list. '
     'The frame mask of a file marks exactly the frames whose time lies in one of its segments, and merging neighbouring segments leaves the marked time of every (file, label) unchanged.',
     ['histories', 'inputs'],
     'all lists of segments of all files, overlapping, nested and touching, and all histories of operations',
     'There are no tests of segment lists.',
     [U + 'segment_list.py', U + 'ext_segment_list.py'],
     [('segments', U + 'segment_list.py SegmentList; ' + U + 'ext_segment_list.py ExtSegmentList')],
     [('segments', 'sequence of (id, file, begin, end)', 'SegmentList.segments')], ['attributes and lookups'])
prop('P12', 'Diarization marks keep who speaks when',
     'Under any history of operations on a diarization (saving and loading, filtering, splitting and merging lists, merging adjacent marks, removing overlaps, renaming, converting to segments or masks) every instant of every file keeps the speakers the operation promises: '
     'joining adjacent marks only fills gaps shorter than the limit between marks of the same speaker, removing overlaps leaves at most one speaker at a time without losing spoken time, and counts and name lookups agree with the marks.',
     ['histories', 'inputs'],
     'all diarizations, overlapping, nested and touching marks, limits and histories of operations',
     'There are no tests of diarization marks.',
     [U + 'rttm.py'],
     [('marks', U + 'rttm.py RTTM')], [('marks', 'set of (file, speaker, begin, duration)', 'RTTM.segments')], ['attributes and accessors'])
prop('P13', 'Background batch queues deliver every batch exactly once, in every schedule',
     'Under every schedule of worker threads and the consumer, the queue delivers each item of the generator at most once and nothing else, in generator order with one worker; the consumer that keeps asking gets all items of a finite generator and then the end, or the generator\'s error. '
     'The number of items waiting never exceeds the configured size (plus one per extra worker), and stopping ends all workers, drops what is pending and allows a fresh start.',
     ['schedules', 'histories'],
     'all interleavings of up to several workers, the consumer and stop/start, all generator lengths and queue sizes',
     'No test starts the queue; schedules cannot be sampled exhaustively by running it.',
     [U + 'queues.py', 'hyperion/io/queues.py', U + 'multithreading.py'],
     [('worker loop', U + 'queues.py GeneratorQueue.start.data_generator_task'), ('stop', U + 'queues.py GeneratorQueue.stop'), ('consumer', U + 'queues.py GeneratorQueue.get')],
     [('queue', 'items produced and not yet consumed', 'GeneratorQueue.queue')], ['items yielded by get()'])
prop('P14', 'Detection metrics are the counts they are defined by',
     'For every list of target and non-target scores, with ties, the ROC runs from accepting all to rejecting all through every achievable pair of miss and false-alarm rates, in between leaving nothing but the step of a tie; the convex hull ROC is its lower convex hull and gives the equal error rate, break-even point and area of that hull; '
     'the minimum detection cost is the smallest over all thresholds, the actual cost is the one at the Bayes threshold, for one or several priors, normalised or not; isotonic regression is the closest non-decreasing fit and the optimised log-likelihood ratios are those of that fit, each given to its score; Cllr is the mean cost of the ratios and its minimum that of the optimised ones. '
     'All are unchanged by the order of the scores, ROC, EER and minimum cost also by any increasing transformation of them, and no input is modified. Confusion matrices and accuracies count the weights of the samples of each pair of labels; filtering a curve drops only points inside its straight stretches.',
     ['inputs'],
     'all finite score lists, including ties, single scores and all priors',
     'The tests evaluate one random set against rounded constants.',
     ['hyperion/metrics/roc.py', 'hyperion/metrics/dcf.py', 'hyperion/metrics/eer.py', 'hyperion/metrics/utils.py', 'hyperion/metrics/cllr.py', 'hyperion/metrics/confusion_matrix.py', 'hyperion/metrics/acc.py'],
     [('counting', 'hyperion/metrics/roc.py compute_roc, compute_rocch; dcf.py compute_min_dcf/compute_act_dcf; utils.py pavx')],
     [], ['return values'])
prop('P15', 'Training vectors keep their class through pruning and class splitting',
     'Whatever pruning and class splitting is configured, every vector handed to training is the stored vector of a key of the list with a label that stands for the class of that key alone; classes below the minimum are absent, none has more than the maximum, '
     'and pruning removes the first, the last or a random subset, as asked, and nothing else. Splitting in sequence cuts each large class into parts of the maximum size with the configured overlap that together cover it, splitting at random draws as many parts of that size, parts below their minimum are left out, '
     'and class names, samples per class, padding and weights agree with the labels, in every read; command line options have the same effect as arguments.',
     ['inputs', 'configurations', 'histories'],
     'all class sizes, limits, pruning and splitting modes, overlaps, seeds and repeated reads',
     'The tests cover a few configurations of one small table.',
     ['hyperion/helpers/vector_class_reader.py', 'hyperion/helpers/vector_reader.py', U + 'tensors.py'],
     [('pruning', 'VectorClassReader._filter_by_spc'), ('splitting', 'VectorClassReader._split_classes'), ('padding', U + 'tensors.py to3D_by_class')],
     [], ['arrays returned by read()'])
prop('P16', 'Copying and merging feature archives loses and duplicates nothing',
     'Copying archives, in chunks of any size, of one or several inputs into one or several outputs, with or without script files, writes every input record exactly once with unchanged key and data: to the output of its part when dividing, in input order when merging. '
     'Read and write specifiers mean the same however their options are ordered or combined: the archive type, file names, text, compression and permissive flags they spell.',
     ['inputs', 'configurations'],
     'all numbers of inputs and outputs, chunk sizes, formats and option strings',
     'The tests copy fixed files with a few chunk sizes.',
     ['hyperion/io/copy_feats.py', 'hyperion/io/h5_merger.py', 'hyperion/io/rw_specifiers.py'],
     [('copy loop', 'hyperion/io/copy_feats.py CopyFeats'), ('option parsing', 'hyperion/io/rw_specifiers.py WSpecifier.create/RSpecifier.create')],
     [], ['files written, parsed specifiers'])
prop('P17', 'Learning rates follow their schedule through every training history',
     'Under any sequence of epoch and batch steps the learning rate of every parameter group is the one its schedule defines: it rises linearly from the minimum to the base rate over the warm-up batches, holds and decays, follows the cosine with its restarts, '
     'or drops by the factor exactly after more than the allowed number of epochs without improvement and outside the cool-down; it is never below the minimum. '
     'Saving the state at any step and loading it into a fresh scheduler continues identically.',
     ['histories', 'configurations', 'crash_points'],
     'all sequences of steps and metrics, all scheduler kinds and parameters, all save and restore points',
     'There are no tests of the schedulers.',
     ['hyperion/torch/lr_schedulers/lr_scheduler.py', 'hyperion/torch/lr_schedulers/exp_lr.py', 'hyperion/torch/lr_schedulers/cos_lr.py',
      'hyperion/torch/lr_schedulers/red_lr_on_plateau.py', 'hyperion/torch/lr_schedulers/factory.py'],
     [('steps', 'LRScheduler.epoch_begin_step/batch_step/epoch_end_step'), ('state', 'LRScheduler.state_dict/load_state_dict')],
     [('epoch, batch, lr', 'scheduler state', 'LRScheduler')], ['param_groups[i]["lr"]'])
prop('P18', 'Training resumed from a checkpoint continues as if never interrupted',
     'If training is interrupted at any point and restarted from the last checkpoint, the epochs run, the batches seen by the model, learning rates and final state of model, optimizer, loss and scheduler are those of an uninterrupted run; completed epochs are not repeated. '
     'Reported metrics are the averages over all samples of the epoch, weighted by batch size, and the log holds one line per completed epoch.',
     ['crash_points', 'histories', 'configurations'],
     'all interruption points, numbers of epochs, batch sizes and checkpoint sets',
     'There are no tests of the trainer.',
     ['hyperion/torch/torch_trainer.py', 'hyperion/torch/loggers/csv_logger.py', 'hyperion/torch/loggers/loggers.py', 'hyperion/torch/utils/metric_acc.py'],
     [('epoch loop and checkpoint', 'TorchTrainer.fit/save_checkpoint/load_last_checkpoint'), ('averaging', 'MetricAcc.update')],
     [('checkpoint', 'state after the last completed epoch', 'model_epNNNN.pth')], ['model state, log file'])
prop('P19', 'Clusterings follow their merge order and nearest centroids',
     'For every similarity matrix, cutting the clustering into k clusters gives exactly k, nested as k grows, obtained by always merging the two clusters most similar under the chosen linkage; '
     'cutting at a threshold merges exactly while the similarity is at least the threshold, and elements masked as not to be joined are joined last; the impurities reported are those of these cuts. '
     'K-means starts from points far apart, gives every point to its nearest centroid, a mean of its points, and never raises its loss from one epoch to the next until the loss stops improving.',
     ['inputs', 'histories'],
     'all similarity matrices, linkages, thresholds, numbers of clusters and orders of queries',
     'There are no tests of the clustering.',
     ['hyperion/clustering/ahc.py', 'hyperion/clustering/kmeans.py'],
     [('cuts', 'AHC.get_flat_clusters*'), ('epochs', 'KMeans.fit/_choose_seeds/predict')], [('merge list', 'sequence of merges', 'AHC.Z')], ['cluster labels'])
prop('P20', 'Frame-level processing uses exactly the frames it should',
     'Sliding-window normalisation of frame t uses exactly the frames within the left and right context of t that exist, whatever algorithm is selected and whether the file is shorter or longer than the window; voice activity decisions follow the energy threshold and the vote of exactly the existing frames in context; '
     'frame selection keeps exactly the marked frames, in order, and refuses marks whose number differs by more than tolerated. Waveforms are cut into frames at multiples of the shift, whole frames only or one per shift around its middle; the inverse short-time transform gives the samples back; '
     'the energy of a frame is the one of its samples before pre-emphasis, never below the floor, and its spectrum the one of its samples after pre-emphasis, which starts anew for every recording after a reset; '
     'and computing features in several steps, from any stage to any later one, gives what computing them at once gives. No input is modified, and command line options have the same effect as arguments.',
     ['inputs', 'configurations', 'histories'],
     'all feature and waveform lengths (shorter and longer than the window), contexts, masks, thresholds, frame lengths and shifts, and sequences of stages',
     'The tests compare two algorithms on one matrix and one window size, and one feature configuration.',
     ['hyperion/feats/feature_normalization.py', 'hyperion/feats/energy_vad.py', 'hyperion/feats/frame_selector.py', 'hyperion/feats/mfcc.py', 'hyperion/feats/stft.py'],
     [('sliding sums', 'MeanVarianceNorm.normalize_cumsum/normalize_conv/normalize_slow'), ('vote', 'EnergyVAD.compute'), ('selection', 'FrameSelector.select'), ('stages', 'MFCC.compute')],
     [], ['returned features, decisions'])
prop('P21', 'Audio readers deliver each recording or segment exactly, once and in order',
     'Reading audio sequentially, in parts or by key, whole recordings or segments of them, delivers for each key exactly the samples of its recording between its begin and end times, with the sampling rate of the file and the configured scale, each item once and in list order under any history of reads, end-of-file queries and resets. '
     'Audio written and read back is unchanged up to the sample format.',
     ['histories', 'inputs', 'configurations'],
     'all lists of recordings and segments, partitions and call histories',
     'The tests read one short list without segments.',
     ['hyperion/io/audio_reader.py', 'hyperion/io/audio_writer.py', U + 'segment_list.py'],
     [('cursor', 'SequentialAudioReader.read'), ('segment cut', 'AudioReader._read_segment')], [('cursor', 'items delivered', 'SequentialAudioReader.cur_item')], ['returned samples'])
prop('P22', 'Score normalisation uses exactly the permitted cohort scores',
     'Normalised scores of a trial depend only on the cohort scores of its own enrolment model (Z), test segment (T) or both (ZT, TZ, S, adaptive S): each is the score minus the mean, over the deviation, of exactly the cohort scores that the masks permit and, when adaptive, that are among the configured best. '
     'Permuting cohort, models or segments permutes the result accordingly, and inputs without masks are left untouched.',
     ['inputs', 'configurations'],
     'all score matrices, cohort sizes, masks and numbers of best cohort scores',
     'There are no tests of score normalisation.',
     ['hyperion/score_norm/t_norm.py', 'hyperion/score_norm/z_norm.py', 'hyperion/score_norm/zt_norm.py', 'hyperion/score_norm/tz_norm.py',
      'hyperion/score_norm/s_norm.py', 'hyperion/score_norm/adapt_s_norm.py'],
     [('statistics', 'TNorm.predict, ZNorm.predict, AdaptSNorm.predict')], [], ['returned scores'])
prop('P23', 'Saved models and transform chains behave like the originals',
     'A model saved to a file and loaded again, any number of times, by its class or by the model loader, has the same class, configuration, names and settings and predicts the same as when it was saved, whatever is done to the original or to copies afterwards; a copy is independent of its original. '
     'A chain of transforms applies its members in order, members carry the name of their chain, and saving a chain whose members would write the same parameter is refused instead of losing one. Predicting never changes the input.',
     ['histories', 'configurations'],
     'all model classes with numpy parameters, chains of any length (also nested), names, parameters that are not set, and histories of save, load, copy, append and change in place',
     'The tests save and load single models of a few classes with default settings once, and no chains.',
     ['hyperion/hyp_model.py', 'hyperion/model_loader.py', 'hyperion/transforms', 'hyperion/pipeline/pipeline.py', 'hyperion/pdfs', 'hyperion/classifiers', 'hyperion/clustering/kmeans.py', 'hyperion/calibration/gauss_calibration.py'],
     [('storage', 'HypModel.save/load/copy'), ('chain', 'TransformList.predict/append/update_names/save_params/load_params')], [('chain', 'ordered list of named members', 'TransformList.transforms')], ['predictions, configurations, names'])
prop('P24', 'Training of Gaussians and mixtures by expectation-maximisation',
     'An epoch of expectation-maximisation gives the weights, means and (floored, pooled when tied) covariances that the responsibilities of the samples imply, of the parameters that are to be updated and no others, dropping components with too few samples; '
     'it never lowers the likelihood unless variances are floored or components dropped, and the objectives returned are those of the data, in total and per sample. Sufficient statistics of all samples, segments, sliding windows or segment probabilities '
     'are the weighted sums of the samples with their responsibilities, however they are divided into batches; class posteriors sum to one; likelihoods do not depend on the parameterisation; splitting halves weights and keeps the mean; data, weights and statistics given are not modified.',
     ['histories', 'inputs'],
     'all data sets, weights, models (full, diagonal, tied covariances; single Gaussians), flags, floors, batch divisions and sequences of training, splitting and reading of statistics',
     'The tests train one model on one data set per class with equal weights, all parameters updated, and look mostly at plots.',
     ['hyperion/pdfs/core/exp_family.py', 'hyperion/pdfs/core/normal.py', 'hyperion/pdfs/core/normal_diag_cov.py', 'hyperion/pdfs/mixtures/exp_family_mixture.py', 'hyperion/pdfs/mixtures/gmm.py',
      'hyperion/pdfs/mixtures/gmm_diag_cov.py', 'hyperion/pdfs/mixtures/gmm_tied_diag_cov.py'],
     [('E step', 'ExpFamilyMixture.accum_suff_stats*/Estep'), ('M step', 'GMM*.Mstep, Normal*.Mstep'), ('splitting', 'GMM*.split_comp')],
     [('parameters', 'weights, means, precisions and their natural and cached forms', 'pi, mu, Lambda, eta, A, _log_pi, _Sigma, _cholLambda, _logLambda')],
     ['parameters after training', 'sufficient statistics', 'objectives', 'log-likelihoods and posteriors'])
prop('P25', 'Probabilistic linear discriminant analysis: scores, posteriors and training',
     'In all its forms (full rank, simplified, full) a PLDA model scores a pair of sets of samples with the log-likelihood ratio that its mean and its covariances between and within classes define: one against one, one or several against several by the book, with averaged samples '
     '(length normalized or not) or averaged scores, from samples with class labels or from statistics, whatever the order of the samples and the numbers of them. Statistics are the (weighted) sums per class; posteriors of the class variable and the objective of training are those of the model, also with fractional counts; '
     'an epoch of training (maximum likelihood, minimum divergence or both, any combination of parameters to update, hard or soft labels, sample weights) never lowers the likelihood of the training data, changes no parameter that is not to be updated, keeps covariances diagonal that are to be, and returns the likelihoods of training and validation data before each epoch, in total and per sample; '
     'averages of models have the averaged means and covariances, and adaptation alternates training and averaging; samples drawn have the covariances of the model; options of the training tool select the parameters they name; data and statistics given are not modified.',
     ['inputs', 'histories'],
     'all models, sets of samples, class sizes, scoring methods, weights, flags, kinds of training and their sequences',
     'The tests train and score one full-rank model in two dimensions with classes of equal size (those of the other two kinds are not collected), and look at plots.',
     ['hyperion/pdfs/plda/plda_base.py', 'hyperion/pdfs/plda/frplda.py', 'hyperion/pdfs/plda/splda.py', 'hyperion/pdfs/plda/plda.py', 'hyperion/helpers/plda_factory.py'],
     [('scores', 'llr_1vs1, llr_NvsM*, llr_Nvs1*'), ('E step', 'compute_py_g_x, Estep, elbo'), ('M step', 'MstepML, MstepMD'), ('averages', 'weighted_avg_params, fit_adapt_weighted_avg_model')],
     [('model', 'mean and covariances, with caches in PLDA', 'mu, B, V, W, U, D, _VW, _VWV')],
     ['likelihood ratios', 'posteriors', 'objectives', 'parameters after training and averaging', 'samples'])

prop('P26', 'Evaluation tools: every trial is scored with its own data, and reports are right',
     'The evaluation tools (cosine and PLDA scoring one against one and several against one, linear classifiers and Gaussian back-ends, vectors to scores, score normalization, conversion to the format of language recognition evaluations, two-class performance) do for files what the library does for data in memory: '
     'each trial of the list (or of the set of cohorts chosen) is scored with the vectors of its own model and segment, after the chain of transformations given, and is written under their names, whatever the order of the names in the files, the formats of files, and the trials that are not in the list; '
     'the parts in which models and segments are divided make up the whole, each trial in one part; normalization uses the cohort scores of the models and segments themselves; classes are those of the model in its order; converted files have one line per segment of the test list, with -100 for scores that are missing; '
     'equal error rates and numbers of trials reported are those of the trials in the key.',
     ['inputs', 'configurations'],
     'all vector files, lists, chains of transformations, kinds of models and scoring, divisions in parts, sets of cohorts, score files and keys',
     'No test runs the command line tools.',
     ['hyperion/bin/eval-cos-1vs1.py', 'hyperion/bin/eval-plda-1vs1.py', 'hyperion/bin/eval-plda-nvs1.py', 'hyperion/bin/eval-linear-gbe.py', 'hyperion/bin/eval-linear-svmc.py',
      'hyperion/bin/eval-logistic-regression.py', 'hyperion/bin/eval-score-norm.py', 'hyperion/bin/eval-2class-performance.py', 'hyperion/bin/vectors2scores.py', 'hyperion/bin/scores2lre_format.py',
      'hyperion/helpers/trial_data_reader.py', 'hyperion/helpers/classif_trial_data_reader.py', 'hyperion/utils/trial_ndx.py'],
     [('trials and cohorts', 'TrialNdx.parse_eval_set, TrialDataReader.read'), ('scoring', 'eval_plda, eval_cos, eval_linear_gbe'), ('normalization', 'eval_score_norm, load_scores')],
     [('trials', 'models, segments and mask of the part to score', 'TrialDataReader.ndx, enroll')],
     ['score files', 'reports', 'exit status'])
prop('P27', 'Transforms learned from data have the statistics they promise',
     'Centering and whitening, length normalization, PCA, LDA, NDA, NAP, mean and variance normalization, their versions with uncertainty, and Gaussianization learn from data (or from means and covariances, with weights where they are taken) what they promise, in any coordinates: '
     'whitened training data have zero mean and identity covariance, principal and discriminant axes come in decreasing order of the (ratio of) variances and are cut to the dimension asked for, length-normalized vectors have the direction of the whitened vector and the same length, NAP removes the directions of largest spread within classes and nothing else, uncertainties are carried along, and Gaussianized values have the quantile of their rank; '
     'every class counts the same whatever its size; parameters that are not to be updated stay, those that are come from the last data alone; statistics of parts add up to those of the whole; arguments are not modified; saving and loading keep the transform; '
     'and the training tools of the command line (with or without previous transforms, appended to them or not) save the transform the library would learn from the vectors in the list.',
     ['inputs', 'configurations', 'sequences of operations'],
     'all training sets, weights, labels, dimensions, update flags, initial parameters, and sequences of training and application',
     'Tests compare a few random data sets with stored results; tools are not run.',
     ['hyperion/transforms/cent_whiten.py', 'hyperion/transforms/cent_whiten_up.py', 'hyperion/transforms/lnorm.py', 'hyperion/transforms/lnorm_up.py', 'hyperion/transforms/pca.py', 'hyperion/transforms/lda.py', 'hyperion/transforms/nda.py',
      'hyperion/transforms/nap.py', 'hyperion/transforms/mvn.py', 'hyperion/transforms/gaussianizer.py', 'hyperion/transforms/sb_sw.py', 'hyperion/bin/train-cw.py', 'hyperion/bin/train-lda.py', 'hyperion/bin/train-pca.py', 'hyperion/bin/train-nda.py', 'hyperion/bin/train-gaussianizer.py'],
     [('learning', 'fit of each transform, SbSw.fit, NSbSw.fit'), ('application', 'predict of each transform'), ('tools', 'train_cw, train_lda, load_model')],
     [('parameters', 'mean and matrix of the transform', 'CentWhiten.mu, T'), ('statistics', 'scatters between and within classes', 'SbSw.Sb, Sw')],
     ['transformed vectors', 'statistics', 'saved files'])

prop('P28', 'Classifiers of vectors learn and score what they promise',
     'Gaussian back-ends, with uncertainty of the vectors or without, Q-scoring, logistic regression of two or more classes, linear support vector machines and Gaussian calibration learn from labelled or weighted vectors what they promise: '
     'means and covariance of the classes, weighted or balanced, alone or adapted to a prior with the relevance factors given (classes without data stay at the prior), counts of data seen, and for logistic regression the optimum of the regularised objective where every class counts as much as its prior and every sample as its weight; '
     'scores are the log-likelihoods (linear, complete or predictive) or the log-likelihood ratios of the model, each vector by itself, posteriors add up to one and have the priors of the model; '
     'arguments are not modified, options given are used, models survive saving and loading, and the training tools of the command line save the model the library would learn.',
     ['inputs', 'configurations', 'sequences of operations'],
     'all training sets, labels and weights, priors and relevance factors, options, models and vectors to score',
     'Tests score with a few fixed models; adaptation, weights, predictive scores, options and tools are not tested.',
     ['hyperion/classifiers/linear_gbe.py', 'hyperion/classifiers/linear_gbe_up.py', 'hyperion/classifiers/q_scoring_homo_gbe.py', 'hyperion/classifiers/logistic_regression.py', 'hyperion/classifiers/binary_logistic_regression.py',
      'hyperion/classifiers/linear_svmc.py', 'hyperion/calibration/gauss_calibration.py', 'hyperion/bin/train-linear-gbe.py', 'hyperion/bin/train-linear-gbe-up.py', 'hyperion/bin/train-q-scoring-homo-gbe.py',
      'hyperion/bin/train-logistic-regression.py', 'hyperion/bin/train-linear-svmc.py'],
     [('learning', 'fit of each classifier'), ('scoring', 'predict of each classifier'), ('tools', 'train_linear_gbe, train_lr')],
     [('parameters', 'means, precision and counts of the classes', 'LinearGBE.mu, W, beta, nu'), ('weights', 'weights and biases', 'LogisticRegression.A, b')],
     ['scores', 'posteriors', 'saved models'])

prop('P29', 'Tools that make, convert and count data of recordings',
     'A tool of the command line gives what its name says for every recording it is given, once, and what the library gives with the same options: '
     'segments-to-bin-vad and rttm-to-bin-vad mark the frames from the beginning to the end of each segment as far as the recording goes (files without speech in the first part only); arkvad2nist and h5vad2nist write the maximal intervals of equal marks; '
     'copy-feats, merge-h5-files and ark2hyp keep every record unchanged whatever the size of the chunks; compute-energy-vad and compute-mfcc-feats give the frames of each recording whatever was before it, with the right number of frames; '
     'eval-elbo-ubm and compute-gmm-post give the log-likelihood and the posteriors of the best components of the mixture (of the library or of Kaldi) after the transform given; '
     'eval-linear-gbe-up and eval-q-scoring-homo-gbe score every segment and class; train-plda saves the model and the objective that the library computes. Parts together give the whole.',
     ['inputs', 'configurations', 'sequences of operations'],
     'all recordings, segments, marks, mixtures, back-ends, options, parts and formats',
     'Tests do not run the tools.',
     ['hyperion/bin/segments-to-bin-vad.py', 'hyperion/bin/rttm-to-bin-vad.py', 'hyperion/bin/arkvad2nist.py', 'hyperion/bin/h5vad2nist.py', 'hyperion/bin/ark2hyp.py', 'hyperion/bin/compute-energy-vad.py', 'hyperion/bin/compute-mfcc-feats.py',
      'hyperion/bin/eval-elbo-ubm.py', 'hyperion/bin/compute-gmm-post.py', 'hyperion/bin/train-plda.py', 'hyperion/io/kaldi_data_reader.py', 'hyperion/io/h5_merger.py', 'hyperion/helpers/sequence_reader.py', 'hyperion/pdfs/mixtures/gmm_diag_cov.py'],
     [('marks', 'to_bin_vad, bin2intervals'), ('copies', 'ark2hyp, H5Merger.merge'), ('mixtures', 'eval_elbo, compute_gmm_post'), ('training', 'train_plda')],
     [('archives', 'records in the output', 'files written')],
     ['archives and files written', 'exit status'])

prop('P30', 'Readers of sequences for training and of trials over parts of recordings',
     'In an epoch a reader of sequences gives each sequence of the list as many times as it has pieces (pieces of the maximum length that advance by the length less the overlap, plus a last one when at least the minimum length is left; one when a piece per sequence or the whole sequence is asked), in circles over the list, with batches of the size asked: '
     'sequential pieces follow each other from the first frame, random slices are consecutive frames and random samples ordered frames of the sequence; labels are those of the file of classes and posteriors those of the same frames; padding and weights agree; the epochs repeat from the beginning and readers with the same seed agree, with the numbers of pieces, frames and batches they declare; the parts of a list have all its sequences once. '
     'The readers of trials give, for each part or recording, the trials of the list, the vectors of their models and those of the parts (segments) of their test recordings, once each and in the order of the trials.',
     ['inputs', 'configurations', 'sequences of operations', 'seeds'],
     'all lengths of sequences, batch sizes, minimum and maximum lengths, overlaps, modes, labels, posteriors, lists of trials, segments and parts',
     'Tests do not cover these readers.',
     ['hyperion/helpers/sequence_reader.py', 'hyperion/helpers/sequence_class_reader.py', 'hyperion/helpers/sequence_post_reader.py', 'hyperion/helpers/sequence_post_class_reader.py', 'hyperion/helpers/multi_test_trial_data_reader.py', 'hyperion/helpers/tracking_data_reader.py', 'hyperion/utils/scp_list.py', 'hyperion/utils/trial_ndx.py', 'hyperion/utils/ext_segment_list.py', 'hyperion/io/hyp_data_reader.py'],
     [('epochs', 'SequenceReader.reset, num_subseqs, read'), ('pieces', '_read_subseqs_sequential, _read_subseqs_random'), ('posteriors', 'SequencePostReader.to_dense'), ('parts of recordings', 'TrialNdx.apply_segmentation_to_test')],
     [('epoch', 'cur_seq, cur_subseq, cur_frame, cur_batch', 'hyperion/helpers/sequence_reader.py'), ('generator', 'rng', 'hyperion/helpers/sequence_reader.py')],
     ['batches read', 'num_subseqs, num_batches, seq_length', 'trials and vectors read'])


prop('P31', 'Options of the command line reach the component they are for',
     'When components declare their options in one parser, each with its own prefix or without one, the arguments a component gets back are its own, exactly those of its options: with the value of the line (the last one when given more than once, in the type of the option), or the value when absent otherwise; flags that turn something off turn it off; '
     'the options of a component do not change those of another, nor does their place on the line; and objects made with the arguments have these values.',
     ['inputs', 'configurations', 'sequences of operations'],
     'all components with options that can be loaded here, all their options, prefixes, combinations of up to three components, lines of any length',
     'Tests make the objects with keyword arguments: the names of options, destinations and filter lists are nowhere compared.',
     ['hyperion/classifiers', 'hyperion/helpers', 'hyperion/feats', 'hyperion/io', 'hyperion/transforms', 'hyperion/generators'],
     [('declaration', 'add_argparse_args, add_argparse_train_args, add_argparse_eval_args'), ('selection', 'filter_args, filter_train_args, filter_eval_args'), ('construction', 'PLDAFactory.create_plda, constructors')],
     [('line', 'values given for each option of each component', 'hyperion/helpers')],
     ['dictionary of arguments of each component', 'attributes of the objects made with them'])


prop('P32', 'Routines of matrices, logarithms, labels and lists give the exact results',
     'For any matrices, right-hand sides (one or several, on the left or the right of the matrix) and orders of memory: the inverse of a positive definite or triangular matrix (upper or lower) solves its systems, and the factor, the inverse and the log of the determinant that come with it are its own; '
     'packing a symmetric or triangular matrix by its upper or lower part, with a factor for the diagonal, and unpacking it, gives it back; a floored covariance is not less than the floor nor the covariance, and is the least that has its directions, whether the floor is a matrix, a factor or a number; '
     'softmax, log of the sum of exponentials and sigmoids are exact along the axis asked for numbers of any size; one-hot labels and the Fisher ratio are those of their definitions; membership, order, intersection and parts of lists have the right elements and places (the parts together are the list, and elements of equal key are in one part); and arguments are left as they were.',
     ['inputs', 'configurations'],
     'all matrices, vectors, triangles, factors, axes, offsets, precisions and labels',
     'Tests use random matrices of ten dimensions, in one order and one form of call.',
     ['hyperion/utils/math.py', 'hyperion/utils/list_utils.py'],
     [('lists', 'ismember, sort, intersect, split_list, split_list_group_by_key'), ('inverses', 'invert_pdmat, invert_trimat, logdet_pdmat'), ('packing', 'symmat2vec, vec2symmat, trimat2vec, vec2trimat'), ('floor', 'fullcov_varfloor, fullcov_varfloor_from_cholS'), ('logarithms', 'softmax, logsumexp, sigmoid, logsigmoid, neglogsigmoid')],
     [('arguments', 'arrays given to the routines', 'hyperion/utils/math.py')],
     ['results of the routines', 'arguments after the call'])


NA_DEFAULT = 'not claimed yet: its specification and conformance driver are still to be built'
TECH = 'TLA+ specification checked with TLC; recorded executions of the real code judged against it by TLC'
NOTE = ('Bounded model exhaustively checked with TLC; every recorded call of enumerated and randomised scripts on the real code is judged by the same '
        'specification. Assurance is over the behaviours executed; trusts TLC, the projection functions of the driver and numpy/pandas/h5py.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks, na = [], []
    for p in P:
        if p['id'] in CLAIMED:
            checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                           'thorough_cmd': './run.sh %s thorough' % p['id'],
                           'technique': TECH, 'level': 'model_checking', 'level_note': p['level_note'] or NOTE})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or NA_DEFAULT})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the public API exposes the abstract state. Language: TLA+ with TLC.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
