#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

T = 'ABXpy/task.py'
p('C01', 'The task holds exactly the ABX triplets of the specification',
  "For any item table and any choice of ON, ACROSS and BY attributes, the generated task file lists, in each BY block, exactly the triplets (A, B, X) of items of that block such that A and X share the ON value and B has another one, A and B share all the ACROSS values and X differs from A on every ACROSS attribute (without ACROSS: X is any item other than A with the same ON value, B any item with another one). Each such triplet is listed exactly once, nothing else is listed, and BY blocks without any triplet do not appear.",
  ['inputs', 'configurations'], 'every item table (any number of items, labels, block sizes) and every on/across/by choice',
  'Four tests look at 8-item factorial tables; sizes that cross an integer type, unbalanced tables, several across or by attributes and missing combinations are never compared with the definition.',
  [T, 'ABXpy/h5tools/np2h5.py'],
  [('Task.on_across_triplets: A, B, X sets and factorial combination', T), ('Task._init_prepare_database: blocks by on/across/by', T), ('Task.generate_triplets / _compute_triplets: writing, by_index', T)],
  observe=['task file: triplets/data, triplets/by_index, bys'])
p('C02', 'Filters keep exactly the triplets that satisfy all of them',
  "With any list of filters (a column name or an expression over columns with the suffixes _A, _B, _X, _AX, _AB, _1, _2 or none), the task contains exactly the triplets of the unfiltered definition whose attributes make every filter true; filters without suffix or on BY attributes restrict the items before triplets are formed. The order of the filters and the stage at which each is evaluated do not matter; suffixes that do not make sense for a column are refused.",
  ['inputs', 'configurations'], 'every item table, task and list of filters over the extended column names',
  'Tests exercise one filter at a time on tiny factorial tables and compare counts or hand-written sets; combinations of lazily evaluated filters, filters emptying blocks and non-contiguous indices are not reached.',
  ['ABXpy/sideop/filter_manager.py', 'ABXpy/sideop/side_operations_manager.py', 'ABXpy/dbfun/dbfun_column.py', 'ABXpy/dbfun/dbfun_compute.py', T],
  [('vectorial_filter / singleton_filter', 'ABXpy/sideop/filter_manager.py'), ('classify_by/generic/on_across_by/ABX and evaluation contexts', 'ABXpy/sideop/side_operations_manager.py'), ('application of the filters in Task', T)],
  observe=['task file: triplets/data; Task.stats'])
p('C03', 'Thresholding samples min(threshold, size) triplets of each group',
  "With a sampling threshold t, every group of triplets of the same block sharing the same B and X attributes used as regressors keeps exactly min(t, size of the group) triplets. The kept triplets are distinct and all belong to the unthresholded task, and groups not larger than t are kept whole.",
  ['inputs', 'configurations'], 'every item table, task, list of regressors, threshold and random seed',
  'Two tests only compare counts for small factorial tables; groups larger than 255 or 65535 triplets, many regressors and identity of the sampled triplets are not checked.',
  [T, 'ABXpy/sampling/sampler.py'],
  [('sort_and_threshold', T), ('mixed radix index of the regressors in Task.on_across_triplets', T), ('sample_without_replacement', 'ABXpy/sampling/sampler.py')],
  observe=['task file: triplets/data, regressors'])
p('C04', 'The unique pairs are exactly the AX and BX pairs of the triplets',
  "For every BY block of a task, the stored pairs are, in strictly increasing order and without duplicates, exactly the codes a + m*x and b + m*x of the pairs (A, X) and (B, X) of its triplets, m being the stored base, larger than every item index of the block. The stored intervals of the BY blocks partition the list of pairs, so every pair code decodes to the two items of one AX or BX pair.",
  ['inputs', 'configurations'], 'every task, with any number of blocks, triplets and pairs',
  'Tests compare pairs of 4-item blocks; pairs spread over several buffers, repeated at buffer boundaries, or larger than one byte are not covered.',
  [T, 'ABXpy/h5tools/h5_handler.py', 'ABXpy/h5tools/h52np.py', 'ABXpy/h5tools/np2h5.py'],
  [('Task._generate_pairs: encoding, sort, unique over buffers, merge', T), ('sort_pairs', T)],
  observe=['task file: unique_pairs/data and its attributes'])
p('C05', 'Item indices always designate the right item and its location',
  "An index of a BY block used in triplets and pairs designates the same item in the table of locations stored in the task file: the row found at that index gives the file, onset and offset of the very item whose labels were used. This holds when rows with missing labels are dropped, when rows of the blocks are interleaved in the item file, when filters remove items and when labels come from auxiliary files.",
  ['inputs', 'configurations'], 'every item file (order of rows, missing labels, auxiliary files), by choice and filter',
  'No test looks at the stored locations; all the test tables have one source file per item in index order and no missing value.',
  ['ABXpy/database/database.py', T],
  [('load, load_aux_dbs', 'ABXpy/database/database.py'), ('Task._init_prepare_database: by_dbs and feat_dbs', T), ('Task._generate_pairs: feat_dbs stored', T)],
  observe=['task file: feat_dbs; Task.by_dbs, Task.feat_dbs'])
p('C06', 'The statistics of a task agree with the triplets it contains',
  "Without threshold, the announced number of triplets, globally, per BY block and per ON/ACROSS/BY block, equals the number of triplets of the task; the announced numbers of blocks and of BY levels are those of the item table after item filters. When computed, the number of levels counts the (block, level of B, level of X) combinations that have a triplet.",
  ['inputs', 'configurations'], 'every item table, task and list of filters',
  'Tests check global counts on factorial tables where every block has the same size.',
  [T], [('Task.compute_statistics', T), ('Task.compute_nb_levels', T)], observe=['Task.stats, Task.by_stats'])
p('C07', 'Each triplet is stored with the regressor values of its own items',
  "Row i of the regressors of a BY block describes row i of its triplets: each regressor column decodes, through its stored list of levels, to the label of the A, B or X item named by its suffix (_1 for the value shared by A and X for ON or by A and B for ACROSS, _2 for the other one, BY attributes for the block). This holds with any combination of filters, thresholds and additional column regressors.",
  ['inputs', 'configurations'], 'every task, filter, threshold and list of column regressors',
  'The only test on regressors compares one hand-written table without filter nor threshold.',
  [T, 'ABXpy/sideop/regressor_manager.py', 'ABXpy/dbfun/dbfun_column.py', 'ABXpy/h5tools/h5io.py'],
  [('Task._compute_regressors', T), ('reordering by regressors in on_across_triplets', T), ('DBfun_Column.evaluate', 'ABXpy/dbfun/dbfun_column.py'), ('H5IO.__write__', 'ABXpy/h5tools/h5io.py')],
  observe=['task file: regressors'])
D = 'ABXpy/distances/distances.py'
p('C08', 'Every pair gets the distance of its own two items, for any number of CPUs',
  "After a distance computation, the value stored at the position of each pair is the distance function applied to the features of the first and of the second item of that pair, in this order, for every pair of every BY block. The work is split into jobs that cover every pair exactly once whatever the number of CPUs and of pairs, the result does not depend on the number of CPUs, and the file is marked as done only then.",
  ['inputs', 'configurations'], 'every task file, feature file, distance function and number of cpus',
  'Tests run one small task with a symmetric distance and compare no value, or only with a frozen file.',
  [D], [('create_distance_jobs: load balancing', D), ('run_distance_job: decoding of pairs, storing', D), ('compute_distances', D)],
  observe=['distance file: distances/data, attribute done'])
p('C09', 'An item is represented by the frames inside its time interval',
  "The features given to the distance function for an item are exactly the frames of its own file whose time t satisfies onset <= t <= offset, in chronological order of storage, whole rows and unmodified. This holds for any frame times, onset, offset and number of feature files.",
  ['inputs'], 'every feature file and item (empty intervals, bounds equal to frame times, several files)',
  'In the tests every item covers the interval [0, 0] of its own file.',
  [D], [('Features_Accessor.get_features_from_raw', D), ('run_distance_job: loading of the feature files', D)])
p('C10', 'DTW returns the cost of an optimal alignment, normalized by its length',
  "For any matrix of frame to frame distances, the DTW cost is the minimum over all alignments from the first to the last pair of frames (steps: next frame of either or both) of the sum of distances along the alignment. With normalization this cost is divided by the number of pairs of the alignment found by backtracking; empty sequences are refused.",
  ['inputs'], 'every matrix of distances of any size, with ties and zeros, normalized or not',
  'Two tests on matrices of a handful of frames.',
  ['ABXpy/distances/metrics/dtw/dtw.pyx'], [('_dtw: recurrence and backtracking', 'ABXpy/distances/metrics/dtw/dtw.pyx'), ('dtw', 'ABXpy/distances/metrics/dtw/dtw.pyx')])
p('C11', 'Frame distances follow their definition and leave their inputs alone',
  "The frame to frame distances are those of the definition for every pair of rows: angle divided by pi for the cosine (1 with exactly one null vector, 0 with two, never negative), (symmetrized, smoothed) Kullback-Leibler, Jensen-Shannon and Hellinger on rows normalized to sum to one. The arrays passed by the caller are never modified, and item distances give 0 between two empty items and infinity between an empty and a non-empty one.",
  ['inputs'], 'every pair of feature matrices (sizes, null rows, one frame, float32 or float64) and options',
  'Only the cosine metric is run, on random frames, without checking a value.',
  ['ABXpy/distances/metrics/cosine.py', 'ABXpy/distances/metrics/kullback_leibler.py', 'ABXpy/distance.py'],
  [('cosine_distance', 'ABXpy/distances/metrics/cosine.py'), ('kl_divergence, js_divergence, hellinger_distance', 'ABXpy/distances/metrics/kullback_leibler.py'), ('default_distance, dtw_kl_distance, edit_distance', 'ABXpy/distance.py')])
p('C12', 'The score of each triplet is the sign of d(B,X) - d(A,X)',
  "For every triplet of a task and any distance file, the stored score is 1 if X is strictly closer to A, -1 if it is strictly closer to B and 0 when the distances are equal, at the position of that triplet in the task. This holds for any number of triplets, BY blocks and sizes of blocks.",
  ['inputs', 'configurations'], 'every task and distance file',
  'One test compares with a frozen file of a small task that fits in one buffer.',
  ['ABXpy/score.py', 'ABXpy/h5tools/h52np.py'], [('score', 'ABXpy/score.py')], observe=['score file: scores'])
AN = 'ABXpy/analyze.py'
p('C13', 'The analysis averages the scores of each combination of regressors',
  "The result file has, for each BY block, exactly one row per combination of regressor values present among its triplets, with the labels of that combination, n the number of its triplets and score the mean of 1 for correct, 0 for incorrect and 1/2 for ties. Consequently the n of a block sum to its number of triplets, whatever the number and cardinality of the regressors.",
  ['inputs', 'configurations'], 'every task and score file, any number of regressors and levels',
  'Tests compare one frozen file up to line order, or check nothing but the absence of crash.',
  [AN], [('collapse: encoding of the regressors', AN), ('unique', AN), ('npdecode', AN), ('analyze', AN)], observe=['csv file'])
SA = 'ABXpy/sampling/sampler.py'
p('C14', 'Sampling without replacement is exact for any chunking',
  "Sampling k out of n returns exactly k distinct integers of [0, n). An incremental sampler of K out of N items returns over the successive chunks, whatever their sizes, exactly K distinct positions, each inside the chunk that returned it, in relative or absolute indexing as requested, and never more than are left.",
  ['inputs', 'histories', 'configurations'], 'every n, N, K, sequence of chunk sizes, indexing mode and random draws',
  'Tests sample a few sizes with one seed and one step.',
  [SA], [('Knuth_sampling, rejection_sampling, sample_without_replacement', SA), ('hypergeometric_sample', SA), ('IncrementalSampler', SA)],
  state=[('N, K', 'items left and samples left', SA)])
p('C15', 'Buffered HDF5 reading and writing preserve every row in order',
  "Reading a dataset, or an interval of it, through the buffered reader by any sequence of requests returns exactly its rows, each once and in order, then stops. Rows written through the buffered writer in any sequence of pieces end up in the dataset exactly once and in order once closed, whatever the sizes of the pieces, of the buffer and of the initial dataset; a fixed size dataset not filled is reported.",
  ['inputs', 'histories', 'configurations'], 'every dataset, buffer size, interval and sequence of read or write sizes',
  'No test uses these classes directly and test tasks fit in one buffer.',
  ['ABXpy/h5tools/h52np.py', 'ABXpy/h5tools/np2h5.py'],
  [('H52NPbuffer.read / refill_buffer and the sub-dataset variant', 'ABXpy/h5tools/h52np.py'), ('NP2H5buffer.write / flush', 'ABXpy/h5tools/np2h5.py')],
  state=[('buf, buf_ix, dataset_ix', 'pending rows and position in the dataset', 'ABXpy/h5tools')])
p('C16', 'External sort returns the sorted rows, all datasets reordered together',
  "Sorting datasets of a file on a key dataset leaves the key in non-decreasing order and the same multiset of rows, where the rows of the other datasets have followed their key. This holds for any number of rows, key values, duplicates and buffer sizes that it accepts, and temporary files are removed.",
  ['inputs', 'configurations'], 'every set of datasets, keys and buffer sizes',
  'Exercised by the tests only through tasks that fit in one chunk.',
  ['ABXpy/h5tools/h5_handler.py', T], [('H5Handler.sort: chunks and merge', 'ABXpy/h5tools/h5_handler.py'), ('H5Handler.extract_chunk', 'ABXpy/h5tools/h5_handler.py')])
p('C17', 'Stored integers are never truncated by the chosen integer type',
  "The integer type chosen for a maximal value is the smallest of its signedness that can represent it, and values that fit in no 64 bits type are refused. No index, count or code stored in a task file or used to identify items, pairs or combinations wraps around in the type chosen for it, whatever the sizes.",
  ['inputs', 'configurations'], 'every maximal value; every number of items, triplets, levels and pairs',
  'All the numbers in the tests fit in 7 bits.',
  ['ABXpy/misc/type_fitting.py', T, 'ABXpy/score.py', 'ABXpy/h5tools/h5io.py', AN],
  [('fit_integer_type and its callers', 'ABXpy/misc/type_fitting.py')])
p('C18', 'The consistency check accepts exactly the consistent inputs',
  "Checking an item file against a feature file succeeds if and only if the header of the item file has the mandatory columns and every item refers to a file that is present in the feature file. Otherwise it raises an error.",
  ['inputs'], 'every item file and feature file', 'Not tested at all.',
  ['ABXpy/verify.py'], [('check', 'ABXpy/verify.py')])
p('C19', 'Uniform time warping aligns proportionally and symmetrically',
  "In the UTW distance every frame of the longer sequence is compared with the frame of the shorter one that contains its relative position, with weight 1, or with the two adjacent frames with weight 1/2 when it falls on their boundary. The result does not depend on the order of the two sequences for a symmetric frame distance.",
  ['inputs'], 'every pair of sequence lengths and frame distance', 'Only a commented-out example exists.',
  ['ABXpy/distances/metrics/utw.py'], [('utw', 'ABXpy/distances/metrics/utw.py'), ('distance_coordinates', 'ABXpy/distances/metrics/utw.py')])
p('C20', 'Existing results are refused, never silently altered',
  "Generating the triplets of a task or computing scores into a file that already exists, or computing distances into a file that already holds distances, raises an error and leaves the content of that file as it was; adding a dataset that already exists to an HDF5 file is likewise refused. This holds whatever the existing content is.",
  ['inputs', 'histories'], 'every existing file content', 'No test writes onto an existing file.',
  [T, 'ABXpy/score.py', D, 'ABXpy/h5tools/np2h5.py'],
  [('generate_triplets: test of the output', T), ('score: test of the output', 'ABXpy/score.py'), ('create_distance_jobs: creation of the group', D), ('NP2H5buffer: existing dataset', 'ABXpy/h5tools/np2h5.py')])
p('C21', 'Conversion to h5features keeps every file once, for any batch size',
  "Converting a list of feature files writes each of them exactly once, in order, under its name without extension and with its own times and features, whatever the batch size and the number of files.",
  ['inputs', 'configurations'], 'every list of files and batch size', 'Not tested at all.',
  ['ABXpy/misc/any2h5features.py'], [('any_to_h5features: batching', 'ABXpy/misc/any2h5features.py')])
p('C22', 'The same seed produces the same task file',
  "Generating a task twice from the same inputs with the same seed, in different processes or machines, produces the same triplets in the same order.",
  ['inputs', 'configurations'], 'every pair of runs with the same inputs and seed', 'Tests never compare two runs.',
  [T, SA], [('np.random.seed in generate_triplets', T)])
p('C23', 'Parallel workers never lose each other\'s distances',
  "With several processes writing to the same distance file, every interleaving of the workers leaves all the distances of all of them in the file.",
  ['schedules'], 'every interleaving of the worker processes', 'Tests use one process or one schedule.',
  [D], [('distance_file_lock in run_distance_job', D)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
print(len(P))
