"""Writes /verif/properties.jsonl (kept next to it so that the list is easy to edit)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p('C01', 'Every row is filed in the partition named by its own key',
  'Splitting a dataset by date (any resolution) or by a sequence of integer keys yields, for every input whose keys are non-decreasing, consecutive non-overlapping slices that together cover all the rows in their order, each slice holding exactly the rows whose own key is that partition\'s key. An input whose keys are not in non-decreasing order is rejected with an error and never filed under a wrong partition. Lazily loaded and in-memory datasets are split identically.',
  ['inputs', 'configurations'], 'all key sequences (length, repetition, order), all six date resolutions, one to three integer keys, eager and delayed arrays, any chunking',
  'Tests split a few regular grids; the guarantee is over every key sequence, including almost sorted ones and calendar boundaries.',
  ['zcollection/partitioning/abc.py', 'zcollection/partitioning/date.py', 'zcollection/partitioning/sequence.py'],
  [('unique keys plus a monotony check', 'partitioning/abc.py, date.py, sequence.py'), ('calendar truncation and path formatting', 'partitioning/date.py')],
  ['Partitioning.split_dataset', 'Partitioning.index_dataset', 'Collection.insert then Collection.load'])

p('C02', 'Loading a collection returns exactly what its history of writes left',
  'After any history of inserts (new partitions, overwrites, merges), partition drops and reopenings, loading the collection returns, partition by partition in increasing numeric key order, exactly the rows the last write left there: nothing lost, duplicated, reordered or leaked from another partition. Variables absent from an inserted dataset read back as missing, selecting variables returns only those, and neither the number of partitions processed at once nor eager or delayed arrays changes the result. A dataset that defines a variable unknown to the collection is refused and changes nothing.',
  ['histories', 'inputs', 'configurations'], 'all finite histories of insert, overwriting insert, merging insert, drop, reopen and load, over date and sequence partitionings',
  'Tests run one or two fixed inserts on fixed grids; interactions appear only along longer histories.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py', 'zcollection/collection/detail.py', 'zcollection/merging/__init__.py', 'zcollection/storage.py', 'zcollection/dataset.py'],
  [('insert then per-partition write or replace', 'collection/__init__.py insert, collection/detail.py _insert'), ('listing sorted by parsed keys', 'partitioning/abc.py list_partitions'), ('load and concatenate', 'collection/abc.py load')],
  ['Collection.load', 'Collection.partitions', 'the partition directories'])

p('C03', 'Merging a time series replaces only the period it covers',
  'Merging new records into an existing time series gives the existing records strictly before the first new date, then all the new records, then the existing records strictly after the last new date: no other record is lost, duplicated, altered or reordered, and the result stays sorted. With a gap tolerance, the rule applies separately to each run of new records, two consecutive records belonging to different runs when they are further apart than the tolerance.',
  ['inputs', 'configurations'], 'all pairs of non-empty sorted series, in all relative positions, with equal dates, any time unit, and any tolerance',
  'The tests check a dozen hand-picked relative positions with wide spacings; boundary positions (touching ends, neighbours one time unit apart) are not reached.',
  ['zcollection/merging/time_series.py', 'zcollection/merging/period.py'],
  [('relation between the two periods selects the surviving slices', 'merging/time_series.py'), ('gap detection', 'merging/time_series.py merge_time_series')],
  ['merging.merge_time_series', 'Collection.insert(merge_callable=...)'])

p('C04', 'A filter selects exactly the partitions that satisfy it',
  'For every operation that accepts a filter on the partition keys (listing, loading, mapping, updating, dropping, copying, validating), the partitions it covers are exactly those whose numeric keys satisfy the filter, given as an expression or as a function, in increasing key order; every other partition is left as it was. No filter selects them all, and a filter matching nothing covers nothing.',
  ['inputs', 'histories', 'configurations'], 'all filters over the key names, all sets of partitions, any location of the collection on disk',
  'Tests use two or three filters on one layout.',
  ['zcollection/collection/abc.py', 'zcollection/expression.py', 'zcollection/partitioning/abc.py', 'zcollection/view/__init__.py'],
  [('expression evaluated on parsed keys', 'expression.py, collection/abc.py partitions'), ('path parsing', 'partitioning/abc.py parse')],
  ['Collection.partitions/load/map/update/drop_partitions/copy/validate_partitions'])

p('C05', 'A failed write leaves the partitions as they were',
  'When an insertion, a merge or the writing of one partition fails with an error at any point, the error is reported to the caller, the partitions that existed before still hold either exactly their old rows or, for those whose replacement was finished, exactly their new rows, and no partially written partition is visible or loadable. After the failure the collection can still be listed, loaded, reopened, and the same insertion can be repeated, in the same process or another, with its normal result. (Local file system.)',
  ['fault_sequences', 'histories', 'inputs'], 'an error raised by any single mutating file system call, or by the merge function, of any insertion of any history',
  'Tests inject one fault in one function; the guarantee is over every fault position.',
  ['zcollection/collection/detail.py', 'zcollection/merging/__init__.py', 'zcollection/storage.py'],
  [('write to a temporary directory then swap', 'merging/__init__.py _update_fs, _rename'), ('clean-up of a partition whose creation failed', 'collection/detail.py _insert')],
  ['Collection.load', 'Collection.partitions', 'directory listing'])

p('C06', 'A crash never destroys or corrupts stored data',
  'If the process dies at any point of an insertion or of a merge into existing partitions, then afterwards the collection can be opened and listed, every partition that existed before still holds exactly its old rows or exactly its new rows, and temporary files left behind are never taken for partitions; a new partition whose creation was interrupted is reported by the validation. Repeating the interrupted insertion brings the collection to the state it would have had without the crash. (Local file system; a crash between the two renamings that swap a partition is a known finding.)',
  ['crash_points', 'histories'], 'process death before any single mutating file system operation of any insertion',
  'No test kills the process; the guarantee is over all crash points.',
  ['zcollection/merging/__init__.py', 'zcollection/collection/detail.py', 'zcollection/collection/__init__.py', 'zcollection/partitioning/abc.py'],
  [('temporary directory plus rename', 'merging/__init__.py'), ('hidden names ignored by the listing', 'partitioning/abc.py list_partitions'), ('consolidated metadata written last marks a complete partition', 'storage.py _write_meta')],
  ['directory tree after the crash', 'open_collection, partitions, load, insert'])

p('C07', 'Writers hold the collection lock for the whole of their writes',
  'With a synchronizer, every operation that modifies the partitions of a collection or the variables of a view modifies them only while the synchronizer is held, from before its first modification until after its last one, including when a task fails while others are still running; the lock is always released when the operation ends, normally or with an error. Consequently concurrent writers never interleave within a partition: what concurrent merging inserts leave in each partition is the result of some sequential order of them, and a synchronizer reports being locked exactly while it is held.',
  ['schedules', 'fault_sequences', 'histories'], 'all interleavings of writers and of the tasks of one operation, all single task failures',
  'The tests run one client with one thread and never observe when the lock is held.',
  ['zcollection/storage.py', 'zcollection/sync.py', 'zcollection/collection/__init__.py', 'zcollection/view/__init__.py'],
  [('tasks executed under the synchronizer', 'storage.py execute_transaction'), ('inter-process lock', 'sync.py ProcessSync')],
  ['a recording synchronizer and the file system events of the process'])

p('C08', 'An update rewrites exactly the chosen variables of the chosen partitions',
  'Updating applies the function once per selected partition to that partition\'s data and stores what it returns: every other variable, every other partition and the row counts are unchanged. With an overlap of depth d the function sees the rows of the d preceding and d following selected partitions around its own, in order, is told where its own rows are when it asks, and only those rows are stored after trimming. Masked results read back as missing, unknown variables are refused without any modification, and the caller\'s arguments are left unmodified. (What the function sees of the neighbours\' copies of the very variables being updated is a known finding.)',
  ['inputs', 'histories', 'configurations'], 'all selections, depths, batch counts, eager and delayed loading, and sets of variables returned',
  'Tests update with a few functions, one depth and regular partitions.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/detail.py', 'zcollection/storage.py', 'zcollection/view/__init__.py', 'zcollection/view/detail.py'],
  [('per-partition wrapper', 'collection/detail.py _wrap_update_func'), ('overlap loading and trimming', 'collection/detail.py _load_dataset_with_overlap, _update_with_overlap')],
  ['Collection.update then Collection.load', 'View.update then View.load'])

p('C09', 'Adding or dropping a variable keeps schema and partitions consistent',
  'After adding a variable, it is declared by the collection and by every later reopening and it exists in every partition, holding only its fill value, while all other data is unchanged; after dropping one it is gone from the declaration and from every partition. Invalid requests (existing name, dimensions that no existing variable has, unknown variable, dropping the axis, a partitioning variable or a variable that is not partitioned) are refused with an error and change nothing. A failed addition leaves the declaration, in memory and on disk, and the readable data as before; a removal that fails leaves the variable declared, so that it can be repeated. This holds for every state of the collection, including one without partitions.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of add, drop, insert, update and reopen, and failures of any partition',
  'Tests add and drop one variable on one populated collection.',
  ['zcollection/collection/__init__.py', 'zcollection/meta.py', 'zcollection/storage.py', 'zcollection/view/__init__.py'],
  [('metadata and configuration updated with rollback', 'collection/__init__.py add_variable, drop_variable'), ('array creation from a template variable', 'storage.py add_zarr_array')],
  ['Collection.metadata', 'open_collection(...).metadata', 'Collection.load'])

p('C10', 'A collection opened read-only never changes anything on disk',
  'On a collection opened read-only, every modifying request (insert, update, drop partitions, add or drop a variable, repair of invalid partitions) is refused with an error and leaves every file of the collection unchanged. Reading operations work and change no file either.',
  ['programs', 'histories', 'inputs'], 'all sequences of public operations on a read-only collection, healthy or damaged',
  'Tests try each modifying method at most once and do not compare the files.',
  ['zcollection/collection/__init__.py', 'zcollection/convenience/collection.py'],
  [('modifying methods replaced when the mode is read-only', 'collection/__init__.py _read_only_mode')],
  ['byte-level snapshot of the directory tree'])

p('C11', 'A view adds variables without ever touching its reference',
  'A view presents, for each partition selected from its reference collection, the reference rows together with the view\'s own variables, which read as their fill value until updated and afterwards as the last update left them; dropping one makes it disappear. No operation on a view changes any file of the reference collection, and adding or updating a variable that belongs to the reference is refused. (The reference\'s variables that are not partitioned are not part of the view.) Loading a view with filters, an index or a selection of variables returns exactly the requested rows and variables, and reopening the view gives the same content.',
  ['histories', 'inputs', 'configurations'], 'all histories of view creation, add, update, drop, load, map, reopen, over all partition selections',
  'Tests exercise one fixed scenario per method and never compare the reference\'s files.',
  ['zcollection/view/__init__.py', 'zcollection/view/detail.py'],
  [('reference opened read-only, separate view tree', 'view/__init__.py'), ('load merges reference and view arrays', 'view/detail.py _load_one_dataset')],
  ['View.load/map/map_overlap', 'snapshot of the reference tree'])

p('C12', 'Synchronising a view realigns it with its reference',
  'After synchronisation every partition of the reference is in the view with arrays of the reference\'s size: partitions whose axis did not change keep the view\'s values, partitions whose axis was extended at the end keep their values and have fill values for the added rows, and all others are reset to fill values. The view reports being synchronised exactly when no partition of the reference is missing from it, lacks one of its variables or has a different axis, and the predicate returned by synchronisation selects exactly the partitions it changed. This holds for any history of changes to the reference, including an empty one.',
  ['histories', 'inputs'], 'all histories of reference inserts, extensions, replacements and drops interleaved with view updates and synchronisations',
  'Tests cover one extension and one replacement.',
  ['zcollection/view/__init__.py', 'zcollection/view/detail.py'],
  [('checksum of the axis stored per partition', 'view/detail.py _write_checksum'), ('extend, reset or keep decision', 'view/detail.py _sync')],
  ['View.sync', 'View.is_synced', 'View.load'])

p('C13', 'An index query designates exactly the matching rows',
  'After an index is updated from a collection, its entries for each partition are exactly those computed from that partition\'s current data, and entries of partitions not covered by that update are unchanged. A query with at least one matching entry returns slices covering, within each partition, exactly the rows of the entries that match the criteria, and loading the collection (or a view) through that result returns exactly those rows in partition order. This holds across repeated updates and reopenings of the index.',
  ['histories', 'inputs'], 'all index contents, all criteria and combinations, all histories of index updates and collection changes',
  'Tests index one regular pass structure.',
  ['zcollection/indexing/abc.py', 'zcollection/collection/abc.py', 'zcollection/view/__init__.py'],
  [('replacement of the entries of re-indexed partitions', 'indexing/abc.py _update'), ('fusion of contiguous slices', 'indexing/abc.py _table_2_indexer'), ('load with indexer', 'collection/abc.py build_indexer_args')],
  ['Indexer.query', 'Collection.load(indexer=...)', 'View.load(indexer=...)'])

p('C14', 'A copy is an independent, identical collection',
  'Copying a collection produces at the target a collection with the same declaration and, for exactly the selected partitions, the same data, including the variables that are not partitioned. The source is unchanged, and later changes to either do not affect the other; copying works for any selection, including an empty one, and with the default file system.',
  ['histories', 'inputs', 'configurations'], 'all collections and partition selections, then any changes to either side',
  'One test copies one collection once.',
  ['zcollection/collection/__init__.py', 'zcollection/fs_utils.py'],
  [('tree copy of the selected partitions and root files', 'collection/__init__.py copy, fs_utils.py')],
  ['load of the copy and of the source', 'snapshots of both trees'])

p('C15', 'Validation reports exactly the unreadable partitions',
  'Validating a collection reports every selected partition that cannot be opened and read completely, whatever was damaged in it, and never reports a readable one. Without the repair option nothing is modified; with it exactly the reported partitions are removed, after which the rest loads as before.',
  ['fault_sequences', 'inputs'], 'all sets of damaged partitions and all kinds of damage to any file of a partition',
  'One test damages one file in one way.',
  ['zcollection/collection/__init__.py', 'zcollection/storage.py'],
  [('full read of each partition', 'storage.py check_zarr_group'), ('removal of the invalid partitions', 'collection/__init__.py validate_partitions')],
  ['Collection.validate_partitions', 'snapshot of the tree'])

p('C16', 'Declarations and partition keys survive being stored and reread',
  'Reopening a collection gives the declaration it was created with: axis, partitioning (with its options), dimensions, chunking, attributes, and each variable\'s type, dimensions, attributes (as JSON keeps them), fill value and codecs. Turning a partition key into a directory name and back, or into its encoded value and back, returns the same key, and distinct keys have distinct names.',
  ['inputs', 'configurations'], 'all declarations and all keys of all partitioning schemes, any base directory name without glob characters',
  'Tests round trip a handful of declarations and keys.',
  ['zcollection/meta.py', 'zcollection/partitioning/abc.py', 'zcollection/partitioning/date.py', 'zcollection/partitioning/sequence.py', 'zcollection/partitioning/registry.py', 'zcollection/collection/__init__.py'],
  [('configuration as JSON', 'meta.py get_config/from_config'), ('parse/join/encode/decode', 'partitioning')],
  ['open_collection', 'Partitioning.parse/join/encode/decode'])

p('C17', 'Mapping visits each selected partition once with the right data',
  'Mapping a function over a collection or a view yields one result per selected partition, in key order, labelled with that partition\'s key and computed from exactly that partition\'s rows and the selected variables. Mapping with an overlap of depth d presents the rows of up to d selected neighbours on each side, in order, with the position of the partition\'s own rows. The results do not depend on batch sizes, number of tasks or eager or delayed loading, and nothing is modified.',
  ['inputs', 'configurations', 'schedules'], 'all sets of partitions, depths, filters, batch sizes and loading modes',
  'Tests map over one regular layout with one depth.',
  ['zcollection/collection/abc.py', 'zcollection/collection/detail.py', 'zcollection/view/__init__.py', 'zcollection/view/detail.py'],
  [('bag over partitions', 'collection/abc.py map, map_overlap'), ('overlap selection', 'collection/detail.py, view/detail.py')],
  ['Collection.map/map_overlap', 'View.map/map_overlap'])

p('C18', 'Variables that are not partitioned are stored once and always present',
  'Variables that do not depend on the partitioned dimension are stored when data is first inserted and keep those values whatever is inserted, merged, updated or dropped later. They are present with these values in every load, map, overlap map and update function call, under any axis or dimension name, and cannot be dropped.',
  ['histories', 'inputs', 'configurations'], 'all histories of operations on collections with such variables, axis and dimension named alike or not',
  'Tests insert once with axis and dimension of the same name.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py', 'zcollection/collection/detail.py'],
  [('separate hidden group written on first insert', 'collection/__init__.py _write_immutable_dataset'), ('merged on load', 'collection/abc.py load, collection/detail.py')],
  ['Collection.load/map/map_overlap/update'])

p('C19', 'Period arithmetic agrees with sets of instants',
  'For all pairs of non-empty periods, containment, adjacency, intersection, union, span, ordering, before/after tests and the thirteen-way relation agree with what the sets of instants covered by the periods say, and exactly one relation holds, consistent with its converse. Shifting, expanding and building a period from a begin and an end or a duration give the corresponding set of instants.',
  ['inputs'], 'all pairs of periods, closed or half-open, and all instants, for any time unit shared by the pair',
  'Tests check a few dates.',
  ['zcollection/merging/period.py'],
  [('comparison of begin and last', 'merging/period.py')],
  ['Period public methods'])

p('C20', 'Stored values read back unchanged, whatever the storage options',
  'Any array of a supported type written through an insertion reads back with the same values, missing values, type and shape, for every chunking, block size, compressor, lossless filter and fill value, in eager and delayed form. Missing values are exactly those that were masked or equal to the fill value (a NaN or NaT fill value reads back as NaN or NaT); a variable created without data holds only its fill value.',
  ['inputs', 'configurations'], 'all values (extremes, special floats, fill values), shapes, types and storage options',
  'Tests use a few arrays of one type with default options.',
  ['zcollection/storage.py', 'zcollection/variable/abc.py', 'zcollection/variable/array.py', 'zcollection/variable/delayed_array.py', 'zcollection/compressed_array.py'],
  [('zarr creation and chunked store', 'storage.py write_zarr_variable'), ('mask from fill value', 'variable/array.py, delayed_array.py')],
  ['Collection.insert/load', 'Array/DelayedArray values', 'Dataset.persist(compress=True)'])

p('C21', 'Dataset operations act on all variables alike, eager or delayed',
  'Selecting rows, deleting rows, concatenating, merging, renaming, selecting and dropping variables, computing, persisting, pickling and converting to xarray and back act on each variable as the same operation on plain arrays along the named dimension, keep untouched variables and metadata, and give equal results for in-memory and delayed datasets. Inputs with conflicting dimensions, shapes or names are refused with an error, leaving the datasets unmodified, rather than silently dropping data (concatenation takes the variables of the first dataset, each of which must exist in the others). Operations that return a new dataset leave their operands unchanged.',
  ['inputs', 'programs'], 'all datasets and all compositions of operations',
  'Tests check each operation once on one dataset.',
  ['zcollection/dataset.py', 'zcollection/variable/abc.py', 'zcollection/variable/array.py', 'zcollection/variable/delayed_array.py'],
  [('per-variable application', 'dataset.py'), ('concatenation along a dimension', 'variable/abc.py concat')],
  ['Dataset public methods'])

p('C22', 'Computations on variables give what plain arrays give',
  'Evaluating an expression on a dataset, or applying operators, numpy functions and reductions to the variables of a dataset or to compressed arrays (alone, together or with numbers), gives, element by element, what the same computation on the plain arrays gives: an element is missing if it is missing in an operand, each operand having its own fill value, and reductions ignore missing values. Compression, chunking and delayed evaluation do not change the result, the operands are left unmodified, and an expression that uses an unknown name is refused.',
  ['inputs', 'programs', 'configurations'], 'all arrays, fill values, types, codecs, chunkings and expressions',
  'Tests evaluate a few expressions on arrays without missing values.',
  ['zcollection/compressed_array.py', 'zcollection/dataset.py', 'zcollection/variable/abc.py', 'zcollection/variable/array.py', 'zcollection/variable/delayed_array.py'],
  [('operators on compressed arrays', 'compressed_array.py _cast, __array_ufunc__, __array_function__'), ('evaluation of the expression', 'dataset.py Expression'), ('values from the fill value', 'variable')],
  ['zcollection.Expression(...)(dataset)', 'CompressedArray operators and functions', 'Dataset.persist(compress=True)'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
assert all(len(x['title']) <= 80 for x in P)
print(len(P))
