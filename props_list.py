# One prop(...) per property; see props.py.
NOT_APPLICABLE = []

prop('C01', 'CSV rows are split into fields by the quoting rules',
     'For every row, delimiter and quote character, the fields handed out are exactly those of the quoting rules: a field that starts with a quote runs to its closing quote, a doubled quote inside it stands for one, everything else is taken literally. A row whose quoted field is never closed is reported as corrupt, never silently shortened or misread.',
     [I, C], 'every row of up to the bound of bytes with every delimiter and quote character',
     'Tests tokenise a handful of well-formed rows with a comma and a double quote; adjacent quotes, quotes in the middle of a field and truncation at each place are not reached.',
     ['csv_record_tokenizer.cc'], [('tokenizer state machine', 'Csv_record_tokenizer::next')])

prop('C02', 'CSV streams are cut into rows the same way however they are delivered',
     'Every CSV stream is cut into exactly its rows: LF, CRLF and CR end a row unless they are inside a quoted field of a reader that allows quoted new lines, comment rows and (if asked for) blank rows are left out, a leading UTF-8 byte-order mark is dropped, and rows stay intact after the reader has moved on. A row that is longer than the limit or whose quotes are never closed is an error and every row before it is delivered. None of this depends on how many bytes each read of the underlying stream returns.',
     [I, C, H], 'every stream of up to the bound of bytes, every delimiter, quote and comment character, limit and option, every first chunk size and schedule of short reads',
     'Tests read small files in one chunk; a row, a CRLF or a quoted field that straddles two chunks is never produced.',
     ['record_readers/csv_record_reader.cc', 'record_readers/text_record_reader.cc', 'record_readers/detail/text_line.cc', 'record_readers/stream_record_reader.cc', 'record_readers/detail/default_chunk_reader.cc'],
     [('row boundary search', 'read_line / Csv_record_reader::decode_text_record'), ('leftover handling', 'Default_chunk_reader::read_chunk')])

prop('C03', 'Text streams are cut into lines the same way however they are delivered',
     'Every text stream is cut into exactly its lines: LF, CRLF and CR end a line, the last line may lack its terminator, blank lines are left out only if asked for, and a leading UTF-8 byte-order mark is dropped. This does not depend on how many bytes each read of the underlying stream returns, and a line stays intact after the reader has moved on.',
     [I, C, H], 'every stream of up to the bound of bytes, both blank-line options, every first chunk size and schedule of short reads',
     'Tests read small files in one chunk; terminators that straddle two chunks and chunks smaller than a line are never produced.',
     ['record_readers/text_line_record_reader.cc', 'record_readers/text_record_reader.cc', 'record_readers/detail/text_line.cc', 'record_readers/detail/default_chunk_reader.cc'],
     [('line boundary search', 'read_line'), ('leftover handling', 'Default_chunk_reader::read_chunk')])

prop('R01', 'RecordIO streams are cut into exactly their records',
     'Every RecordIO stream is cut into exactly its records, with the payload length and the kind (complete, beginning, middle, end of a split record) given by each header and payloads padded to four bytes. A wrong magic number, a truncated header and a truncated payload or padding are reported as corrupt records after every record before them was delivered. None of this depends on how many bytes each read of the underlying stream returns.',
     [I, H], 'every stream of up to the bound of bytes, every first chunk size and schedule of short reads',
     'Tests read well-formed files in one chunk; malformed headers, odd lengths and headers that straddle chunks are not reached.',
     ['record_readers/recordio_record_reader.cc', 'record_readers/detail/recordio_header.cc', 'record_readers/stream_record_reader.cc', 'record_readers/detail/default_chunk_reader.cc'],
     [('header decoding', 'decode_recordio_header'), ('record decoding', 'Recordio_record_reader::decode_record')])

prop('R02', 'Concatenated Parquet files are cut at their footers',
     'A stream of concatenated Parquet files is cut after each footer: a file begins with the magic number and ends at the first place where a plausible footer (metadata that fits into the file and the closing magic number) is found. A stream that does not begin with the magic number or ends before a footer is reported as corrupt.',
     [I], 'every stream of up to the bound of bytes',
     'One test reads one file; footers at unaligned places, magic numbers inside the data and truncated streams are not reached.',
     ['record_readers/parquet_record_reader.cc'], [('footer search', 'Parquet_record_reader::decode_record')])

prop('M02', 'Memory slices stay within their block and keep it alive',
     'A slice or sub-slice made from any position and length shows exactly the requested bytes of its block or is rejected; it never reaches outside its parent. A block lives exactly as long as something refers to it, whatever the order in which slices are copied, moved, reassigned and dropped; this also holds if what is assigned is owned by what it replaces.',
     [I, H], 'every pair of offsets, every sequence of slice operations up to the bound',
     'Tests slice at a few valid offsets; wrap-around offsets and orders of destruction are not reached.',
     ['memory/memory_slice.cc', 'memory/external_memory_block.cc', 'include/mlio/memory/memory_slice.h', 'include/mlio/intrusive_ptr.h'],
     [('bounds check', 'Memory_slice::subslice'), ('reference count', 'Intrusive_ptr, Intrusive_ref_counter')])

prop('M03', 'Resizable memory keeps its contents, also when it moves to a file',
     'Resizing a memory block keeps the bytes that both sizes have in common, whether the block stays in memory, moves to a file because it has become larger than the threshold, or is remapped. A block of an allocator with a threshold is in a file if it is larger than that and was never moved there if it was not (a threshold of zero stands for a quarter of the physical memory, at most 512 MiB, which is also taken if that is unknown). When the system refuses memory, a file or a mapping, the operation fails with an error (std::bad_alloc if there is no memory, std::system_error otherwise) and the block is as it was; no memory, descriptor, mapping or file is leaked or left behind.',
     [I, H, F], 'every sequence of sizes around the threshold up to the bound, with a failing system call at any place',
     'Tests resize a block a few times without failures; failing system calls and each crossing of the threshold are not reached.',
     ['memory/file_backed_memory_allocator.cc', 'memory/file_backed_memory_block.cc', 'memory/heap_memory_block.cc'],
     [('switch to a file', 'File_backed_memory_allocator / File_backed_memory_block::resize'), ('heap resize', 'Heap_memory_block::resize')])

prop('U01', 'Memory and file streams deliver their source byte for byte',
     'Whatever the sequence of reads, slice reads, seeks and closes, a stream over memory or over a file delivers the bytes of its source from its position on, reports its size and position truthfully, stays within its source, and ends with an empty read. A closed stream refuses every operation, and a failing system call surfaces as an error.',
     [I, H, F], 'every sequence of operations up to the bound with any lengths and positions, short and failing system calls',
     'Tests read a stream from front to back; seeks outside the source, short reads and failures are not reached.',
     ['streams/memory_input_stream.cc', 'streams/file_input_stream.cc', 'streams/input_stream_base.cc'],
     [('position bookkeeping', 'Memory_input_stream::seek / read'), ('file access', 'File_input_stream::read / seek / size')])

prop('U02', 'Text streams come out as UTF-8',
     'A text stream whose encoding is given, or is announced by a byte-order mark, comes out as the UTF-8 encoding of the same characters; one without a mark is passed through. Input that is not valid in its encoding, or ends inside a character, is an error and never produces wrong text. This does not depend on the size of the reads on either side.',
     [I, C, H], 'every stream of up to the bound of bytes in UTF-8, UTF-16 and UTF-32 of either byte order, seekable and not, every schedule of short reads, several buffer sizes',
     'Tests convert a few files in one read; characters that straddle buffers, surrogates, very short streams and truncation are not reached.',
     ['streams/utf8_input_stream.cc', 'streams/detail/iconv.cc', 'text_encoding.cc'],
     [('preamble', 'Utf8_input_stream / make_utf8_stream'), ('conversion loop', 'Iconv_desc::convert')],
     note='The conversion library is modelled, replays use the real one.')

prop('U03', 'Gzip streams are inflated completely or rejected',
     'A gzip stream of one or more members delivers exactly the concatenation of their contents and then ends. A corrupt or truncated stream is an error and never ends as if it were whole. The result does not depend on how the compressed bytes arrive or on the size of the reads.',
     [I, H], 'every sequence of members up to the bound, every schedule of short reads on either side',
     'Tests inflate one small file in large reads; member boundaries that coincide with buffer boundaries are not reached.',
     ['streams/gzip_inflate_stream.cc', 'streams/detail/zlib.cc'],
     [('inflate loop', 'Gzip_inflate_stream::read'), ('zlib wrapper', 'Zlib_inflater')],
     note='inflate() is replaced by a model with a toy format; what is decided is how the stream drives it.')

prop('U04', 'A SageMaker pipe channel has one reader and delivers FIFO after FIFO',
     'At most one stream of a channel is open at a time; opening it again is refused until that stream is closed or destroyed, however often it is closed. Each open takes the next FIFO (or the given one), waits for it and for its data within the given limits, delivers its bytes exactly, and reports a missing or silent writer as an error without leaking descriptors.',
     [H, S, F], 'every sequence of opens, reads, closes and destructions of two streams up to the bound, late or missing writers, short reads, large descriptors',
     'There are no tests for pipe channels.',
     ['streams/sagemaker_pipe_input_stream.cc', 'data_stores/sagemaker_pipe.cc'],
     [('channel ownership', 'fifo_ids_'), ('waiting', 'Sagemaker_pipe_input_stream::wait_for_data / open_fifo')])

prop('N01', 'Texts are parsed as integers exactly and fields get the right inferred type',
     'For every text and every integer data type: a text of the form [spaces][sign]digits[spaces] whose value lies in the range of the type gives exactly that value, one outside the range is reported as an overflow, and any other text fails; a text without digits is never called an overflow, and only the requested element is ever written. The inferred data type of a field is the first of int64, uint64 and float64 that can represent it, string otherwise.',
     [I, C], 'every text up to the bound of characters for each integer type, and texts around the limits of each type',
     'Tests parse a few numbers; the limits of each type, signs, stray characters and overflows are not reached.',
     ['parser.cc', 'include/mlio/util/number.h', 'include/mlio/parser.h'],
     [('integer parsers', 'try_parse_int / make_parser'), ('type inference', 'infer_data_type')])

prop('N02', 'Texts are parsed as floating-point numbers exactly',
     'For every text and both floating-point types: a decimal number gives the correctly rounded value, an infinite or too large one is reported as an overflow, nan and every text listed as a NaN value give NaN, any other text fails, and only the requested element is ever written.',
     [I, C], 'every text up to the bound of characters for float32 and float64, with and without listed NaN values',
     'Tests parse a few numbers; words, exponents, signs, listed NaN values next to spaces are not reached.',
     ['parser.cc', 'include/mlio/util/number.h'],
     [('float parsers', 'try_parse_float / make_parser')],
     note='absl::SimpleAtof and SimpleAtod are replaced by a model that is exact for short decimal numbers.')

prop('T01', 'A tensor fits its data, and what it shows of itself is true',
     'A dense tensor is made only if every element that its shape and strides address lies within its data (no overflow on the way), and a CSR or COO tensor only if its index arrays match its values and shape; anything else is rejected with an invalid-argument error. Shape, strides, data, type, indices and the visitor that is called are those of the tensor. A DLPack view shows the same memory, shape, strides and type, keeps them alive until its deleter runs, and refuses sparse tensors, strings and unknown versions.',
     [I], 'every shape and stride vector up to the bound including values whose products overflow, every size of the arrays, every data type',
     'Tests make a few valid tensors; overflowing products, negative strides and mismatched arrays are not reached.',
     ['tensor.cc', 'include/mlio/tensor.h', 'integ/dlpack.cc', 'tensor_visitor.cc'],
     [('validation', 'Dense_tensor / Coo_tensor / Csr_tensor constructors'), ('export', 'as_dlpack')])

prop('T02', 'A batch of sparse features is assembled at the right coordinates',
     'When the values and keys of the instances of a batch are collected into a COO tensor, every value appears once, in order, in the row of its instance and at the coordinates whose row-major position within the shape is its key; a key outside the shape is rejected.',
     [I, H], 'every batch of up to the bound of instances and values, every shape including empty and very large dimensions, every key',
     'Tests decode one batch of two-dimensional features; higher ranks, empty instances, the limits of the shape are not reached.',
     ['coo_tensor_builder.cc', 'coo_tensor_builder.h'],
     [('coordinates', 'Coo_tensor_builder_impl::append / append_indices')])

prop('T03', 'Arrays hold exactly their elements, copies are their own, and examples are found by name',
     'An array made by make_cpu_array has the asked type and number of elements, all zero (or empty texts); one made from a container has the elements of the container, in its memory. A clone has the same elements and is independent of the array it was made from, also after that is gone. Spans and views see the memory, size, type and device of their array. Kinds of devices are equal exactly if their names are, devices if their kinds and numbers are, and what is equal has equal hashes. An example has exactly one feature for every attribute of its schema (anything else is an invalid argument) and finds every one by its name, and nothing by any other.',
     [I], 'every element type, every size up to the bound, every value of every element; every name up to two characters and every number of a device; up to three attributes with every name over two letters, every number of features',
     'Tests make arrays of two or three types and compare one element; clones and equality are not tested.',
     ['cpu_array.cc', 'device.cc', 'example.cc', 'include/mlio/cpu_array.h', 'include/mlio/device_array.h', 'include/mlio/device.h'], [('arrays', 'make_cpu_array / wrap_cpu_array / Cpu_array::clone / Basic_device_array_span'), ('devices', 'operator== and std::hash of Device and Device_kind'), ('examples', 'Example / Example::find_feature')])

prop('G01', 'The log arrives whole at the level set, never disturbs its user, and the library is set up once',
     'A message reaches the handler that is set exactly once, with its level and its arguments put in, if its level is at most the one set (warnings, until it is set) and there is a handler; otherwise nothing happens. Setting a handler returns the one before. Nothing a handler throws, and no message that cannot be formatted, reaches the caller of the library. initialize() gives the library its memory allocator; calling it again only warns and leaves the allocator as it is, also one set since. The memory an allocator has given out stays valid when it is replaced.',
     [H, F], 'every sequence up to the bound of setting levels and handlers (four kinds, two of which throw) and logging at every level with and without arguments, well-formed or not; every sequence of setting up the library and replacing its allocator',
     'No test looks at the log or sets the library up twice.',
     ['logger.cc', 'logger.h', 'init.cc', 'memory/memory_allocator.cc'], [('log', 'logger::log / detail::handle_message / set_log_message_handler / set_log_level'), ('setup', 'initialize / set_memory_allocator')],
     note='Concurrent changes of the handler are outside (the library asks for none).')

prop('S01', 'A schema names its attributes uniquely and is compared by value',
     'A schema with two attributes of the same name is rejected. The index of a name is the position of its attribute, or nothing if there is none. Two schemas are equal exactly if their attributes agree in order, name, data type, shape, strides and sparseness, and equal attributes have equal hashes. Strides that are not given are the row-major ones, and a number of them other than that of the dimensions is rejected.',
     [I], 'every pair of schemas of up to the bound of attributes with any names, types, shapes and sparseness',
     'Tests compare a few schemas.',
     ['schema.cc', 'include/mlio/schema.h'], [('index', 'Schema constructor / get_index'), ('comparison', 'operator==, std::hash<Attribute>')])

prop('I01', 'Every read, peek and reset sees the dataset from its beginning, in order, to its end',
     'Whatever the sequence of read, peek, reset and read_schema calls, the examples read since the last reset are the batches of the dataset from its first instance on, none missing, repeated or out of order; nothing comes after the end. peek_example returns the very example that the next read_example returns; read_schema consumes nothing and is right at any time. num_bytes_read covers at least the delivered instances, equals their size at the end of the dataset and is zero after a reset.',
     [I, H], 'every sequence of operations up to the bound on every dataset of up to the bound of records in one or two stores, batch sizes and last-example options; every skip, limit, number of shards and shard index',
     'Tests read a dataset once from front to back, sometimes twice; peeks between reads and resets in the middle, with buffered examples, are not reached.',
     ['parallel_data_reader.cc', 'data_reader_base.cc', 'instance_batch_reader.cc', 'instance_readers/core_instance_reader.cc', 'instance_readers/instance_reader_base.cc'],
     [('queues', 'Parallel_data_reader::read_example_core / reset'), ('peeking', 'Data_reader_base, Instance_reader_base'), ('iteration', 'Core_instance_reader')],
     note='The TBB flow graph is modelled.')

prop('I02', 'Skipping and limiting instances selects exactly that range',
     'With num_instances_to_skip = s and num_instances_to_read = r, every epoch consists of exactly the instances s, s+1, ..., s+r-1 of the dataset (all from s on without a limit), across the stores of the dataset, however large s and r are, and the same after each reset.',
     [I, C], 'every 64-bit value of both numbers on every dataset of up to the bound of records in one or two stores, every batch size and last-example option',
     'Tests use one or two small values; values past the end, zero and values near the limits of the type are not reached.',
     ['instance_readers/ranged_instance_reader.cc'], [('range', 'Ranged_instance_reader::read_instance_core / reset')],
     note='The TBB flow graph is modelled.')

prop('I03', 'The shards of a dataset are a partition of it',
     'With num_shards = n > 1 and shard_index = i, every epoch consists of exactly the instances i, i+n, i+2n, ... of the (skipped and limited) dataset in order; so the n shards together hold every instance exactly once. An index that is not below n is rejected with an invalid-argument error.',
     [I, C], 'every 64-bit number of shards and index on every dataset of up to the bound of records; all shards of up to the bound together, with and without skip and limit',
     'Tests use a single sharding of one file.',
     ['instance_readers/sharded_instance_reader.cc', 'instance_readers/instance_reader.cc'], [('stride', 'Sharded_instance_reader::read_instance_core'), ('composition', 'make_instance_reader')],
     note='The TBB flow graph is modelled.')

prop('I04', 'Sampling keeps the given share of the instances, and only valid parameters are accepted',
     'With a sample ratio q, of every 100 consecutive instances of the dataset (or fewer at its end) the share q, give or take one, is delivered, each at most once and in order, and the same instances after a reset. A ratio outside (0, 1) or that is no number, a batch size of zero and a shard index out of range are rejected with an invalid-argument error when the reader is made; all other values are accepted.',
     [I, C], 'datasets of 0 to 205 records around the block boundaries, ratios from 0.004 to 0.999; every 64-bit batch size, number of shards and index and every float ratio for the validation',
     'Tests sample one dataset.',
     ['instance_readers/sampled_instance_reader.cc', 'instance_readers/instance_reader.cc', 'data_reader_base.cc', 'instance_batch_reader.cc'], [('sampler', 'Sampled_instance_reader'), ('validation', 'constructors')],
     note='The random number generator is replaced by symbolic choices.')

prop('I05', 'Shuffling permutes each epoch within its window',
     'With shuffling on, every epoch delivers each of its instances exactly once, whatever the random numbers are. With a window w > 0 the k-th instance delivered is one of the first k+w-1 of the dataset; a window of one keeps the order, one of zero shuffles the whole dataset. Two readers with the same seed deliver the same order epoch for epoch, and without reshuffling every epoch has the order of the first.',
     [I, C, H], 'every outcome of the random number generator on every dataset of up to the bound of records, windows, seeds and sequences of operations up to the bound',
     'Tests compare one shuffled epoch with one seed.',
     ['instance_readers/shuffled_instance_reader.cc'], [('window', 'Shuffled_instance_reader::read_instance_core / buffer_instances'), ('seeds', 'Shuffled_instance_reader::reset')],
     note='The random number generator is replaced by symbolic choices that depend on the seed.')

prop('B01', 'Instances are batched completely, and the last batch is handled as asked',
     'Every example but the last holds exactly batch_size instances. If the dataset ends with fewer, the last example holds just these, is dropped or is padded with zeros (empty strings) to batch_size, as last_example_handling says, and the padding of an example is the number of its instances that are no data; it is zero for full examples. No empty example is delivered.',
     [I, C], 'every dataset of up to the bound of records in one or two stores, every batch size up to the bound, all five last-example options',
     'Tests use one dataset with one batch size.',
     ['instance_batch_reader.cc', 'text_line_reader.cc', 'data_reader_base.cc'], [('batching', 'Instance_batch_reader::read_instance_batch'), ('padding', 'Text_line_reader::decode')],
     note='The TBB flow graph is modelled.')

prop('P01', 'Prefetching and parallel decoding never change what is delivered',
     'Whatever num_prefetched_examples and num_parallel_reads are, and however the threads of the pipeline are scheduled, a reader delivers the same examples in the same order as a sequential one, each once, in every epoch.',
     [S, C], 'every interleaving of the calling thread, the pipeline thread and up to two workers with up to the bound of preemptions, every order of the pending tasks, for datasets of up to the bound of examples and several prefetch and parallelism settings',
     'Tests see the few schedules that happen on the machine they run on.',
     ['parallel_data_reader.cc'], [('pipeline', 'Parallel_data_reader::run_pipeline / init_graph'), ('queues', 'Parallel_data_reader::read_example_core')],
     note='The TBB flow graph is modelled; interleavings are sequentially consistent and switch at synchronisation operations.')

prop('P02', 'Reading, resetting and destroying a reader always terminates',
     'No sequence of reads, peeks, resets and the destruction of the reader, at any point of the running pipeline and under any schedule of its threads, blocks forever, ends the process or leaks memory; a reader that was reset starts over with the first instance.',
     [S, H], 'every interleaving with up to the bound of preemptions of every sequence of operations up to the bound, with full, half-full and empty queues',
     'Tests reset and destroy readers only after they have been read to the end; a lost wake-up shows under rare schedules only.',
     ['parallel_data_reader.cc', 'detail/thread.h'], [('shutdown', 'Parallel_data_reader::stop / reset'), ('wake-ups', 'fill_condition_, read_condition_')],
     note='The TBB flow graph is modelled; interleavings are sequentially consistent and switch at synchronisation operations.')

prop('D01', 'The schema of a CSV dataset has the right columns, names and types',
     'The names of the columns are the given ones, else those of the header row (with the prefix), else their positions starting at 1 (with the prefix); their types are those given by index or by name, else the default type, else the ones inferred from the first row (string if there is none). Only the columns selected by name or index appear, in order; duplicate names X become X, X_1, X_2, ... or are a schema error if that is turned off, and no two attributes ever share a name. A row and header of different length, a corrupt header and a type for a column that does not exist are errors. The outcome is the same whenever the schema is asked for again, also after an error or a reset.',
     [I, C, H], 'every header, names and first row of up to the bound of columns over a small vocabulary of names that collide, with every combination of header position, prefix, default type, types by index and name, selection and deduplication, in groups; cells are any byte',
     'Tests check single options on well-formed files; combinations, repeated attempts and colliding generated names are not reached.',
     ['csv_reader.cc'], [('names', 'Csv_reader::read_names_from_header / set_or_validate_column_names'), ('types', 'Csv_reader::infer_column_types / apply_column_type_overrides'), ('selection and duplicates', 'Csv_reader::init_parsers_and_make_schema / should_skip')],
     note='The TBB flow graph is modelled.')

prop('B03', 'Good CSV rows arrive unchanged and bad ones are handled as asked',
     'Every field of a selected column of a well-formed row arrives in its own row and column. A row that is bad (a selected field that cannot be parsed or is too long, too few or too many fields, an unclosed quote) raises an invalid-instance error, makes its example be skipped as a whole, or is left out while the good rows of the example move up and the rest of it is zero and counted as padding, exactly as bad_example_handling says; a warning is issued if asked for and only then. Columns that are not selected never make a row bad. Header rows are never taken for data. Decoding rows in parallel gives the same result.',
     [I, C], 'every dataset of up to the bound of rows of five kinds with any byte in each field, every bad-example, last-example and long-field option, selections and header layouts over two stores, every batch size up to the bound, every split of the rows for parallel decoding',
     'Tests contain one or two bad rows with one option each; several bad rows per batch, combinations with a short last batch, corrupt rows and parallel decoding (ten million values) are not reached.',
     ['csv_reader.cc', 'csv_record_tokenizer.cc', 'parallel_data_reader.cc'], [('rows', 'Csv_reader::Decoder::decode'), ('handling', 'Csv_reader::decode / decode_ser / decode_prl')],
     note='The TBB flow graph is modelled; the cut-off of parallel decoding is lowered by a compile-time hook.')

prop('D02', 'RecordIO-protobuf instances are decoded faithfully and bad ones are handled as asked',
     'The schema has one attribute per label (named label_X) and feature of the first instance, with its type, shape and sparseness; a first instance that has no schema (corrupt, no value, binary data, a sparse feature without shape, clashing names) is an error each time. Every value of a good instance arrives in its own row, and a sparse value at the coordinates its key stands for, with all coordinates inside the shape. An instance that does not fit the schema (corrupt, a missing, unknown or repeated feature, another type, shape or sparseness, a wrong number of values or keys, a key beyond the shape, no value or binary data) raises an invalid-instance error, makes its example be skipped as a whole, or is left out while the good rows of the example move up and the rest of it is zero or empty and counted as padding, exactly as bad_example_handling says; a warning is issued if asked for and only then. Decoding in parallel gives the same result.',
     [I, C], 'every dataset of up to the bound of instances of twelve kinds with up to three features (dense, sparse, label) of several shapes and any values and keys, every bad- and last-example option, every batch size up to the bound, every split of the instances for parallel decoding',
     'Tests decode a few well-formed files; instances that do not fit in one detail, combinations with padding and parallel decoding (ten million values) are not reached.',
     ['recordio_protobuf_reader.cc', 'parallel_data_reader.cc', 'coo_tensor_builder.h'], [('schema', 'Recordio_protobuf_reader::infer_schema / make_attribute'), ('instances', 'Recordio_protobuf_reader::Decoder::decode'), ('sparse coordinates', 'Coo_tensor_builder_impl::append'), ('handling', 'Recordio_protobuf_reader::decode_serial / decode_parallel')],
     note='The generated protobuf classes are replaced by a small parser of the same wire format, the TBB flow graph is modelled and the cut-off of parallel decoding is lowered by a compile-time hook.')

prop('R03', 'A split record is one instance, and a broken one is an error',
     'The parts of a message written as begin, middle and end records come back as exactly one instance with the bytes of all parts in order, between the instances before and after it. A middle or end record without a begin record, a begin or complete record while a message is open, and a message still open at the end of the dataset are data reader errors, in every epoch and again on every further read; nothing is lost or made up before the error, and a message abandoned by an error never leaks into the next epoch.',
     [I, H], 'every sequence of up to the bound of records of the four kinds over one or two stores, every place where the message is split, two epochs',
     'No test of the suite contains a split record.',
     ['instance_readers/core_instance_reader.cc', 'record_readers/recordio_record_reader.cc'], [('joining', 'Core_instance_reader::read_split_record_payload'), ('kinds', 'Recordio_record_reader / Recordio_header')],
     note='Whether a message may go on in the next store is left open.')

prop('P03', 'A data store that cannot be opened or read is an error, never the end of the data',
     'A data store that cannot be opened or whose stream fails anywhere raises a data reader error (an exception of the store that the library does not know comes through as it is), whichever background task meets it and in whatever order the tasks run; read_example never hangs, never reports the end of the data instead and never delivers wrong data or data from behind the failure, every further read fails the same way, and so does the next epoch while the failure lasts. Once it has gone, a reset brings back the whole dataset. A store that could not be opened when the schema was asked for is tried again, and then the data is the same as without the failure, whatever is skipped, limited, sharded or sampled. A stream that fails once makes its record reader fail the same way on every further read, even if the stream would go on, and what is read before the failure is exact; so if a data reader forgets such a failure, nothing is lost. What is not needed, because it lies in a store behind the limit, does not fail. Readers can be dropped at any time.',
     [F, S, C], 'every store and stream position that fails, seven kinds of exceptions, lasting failures over two epochs and passing ones of up to two attempts, text and CSV readers with skip, limit, shards, sampling and batches, and every interleaving with up to two preemptions; record readers of text, CSV, RecordIO and Parquet over every short stream in chunks of a few bytes',
     'Tests only cover a file that does not exist; failures in the middle of a stream or while the schema is inferred, and the races of the error with queued examples, are not reached.',
     ['parallel_data_reader.cc', 'instance_readers/core_instance_reader.cc', 'instance_readers/ranged_instance_reader.cc', 'instance_readers/sampled_instance_reader.cc', 'record_readers/stream_record_reader.cc'], [('records', 'Stream_record_reader::read_record_core'), ('pipeline', 'Parallel_data_reader::run_pipeline / read_example_core'), ('translation', 'Core_instance_reader::handle_errors / init_next_record_reader')],
     note='The TBB flow graph and its scheduler are modelled; the threads of the reader itself are explored.')

prop('D04', 'CSV datasets come back cell for cell in any dialect',
     'Whatever delimiter, quote character, comment character, line end (\\n, \\r\\n, \\r, or none after the last row), encoding (UTF-8 with or without a byte order mark, UTF-16) and header layout (none, in the first or a later row of every store, in the first store only) a CSV dataset is written in, a reader told so returns the text of every cell as it was before quoting, doubled quotes and delimiters included, and quoted line breaks where allowed; the rows come in order, comment lines are no rows, nor are blank lines unless they are kept, the listed nan values are NaN. A line longer than max_line_length raises an error while a line of exactly that length does not. The same holds for every epoch after a reset.',
     [I, C], 'every dataset of up to the bound of rows over one or two stores, with cells of every kind (any printable character, delimiters, quotes, line breaks, comment characters, nothing), in every combination of the dialect options, in groups; two epochs',
     'Tests read a few files in the default dialect; options that act together (quoted line breaks in UTF-16, comments before a header in the second store, a second epoch) are not reached.',
     ['csv_reader.cc', 'record_readers/csv_record_reader.cc', 'csv_record_tokenizer.cc', 'streams/utf8_input_stream.cc'], [('rows', 'Csv_record_reader / Csv_record_tokenizer'), ('encoding', 'make_utf8_stream in Csv_reader::make_record_reader'), ('headers', 'Csv_reader::make_record_reader / read_names_from_header / reset')],
     note='The TBB flow graph and iconv are modelled.')

prop('D03', 'Images arrive scaled, cropped and coloured as asked, and bad ones are handled as asked',
     'An image arrives as height x width x channels bytes: decoded for the asked number of channels, its shorter edge scaled to the asked size with the longer edge in proportion (rounded down), cropped from the center, and with red and blue swapped if RGB is asked for (alpha is kept); a RecordIO image is what follows its 24-byte header. An image that cannot be decoded or scaled, has no header, a wrong number of channels or other than 8 bits per channel, or is smaller than the output raises an error, makes its example be skipped as a whole, or is left out while the good images of the example move up and the rest of it is zero and counted as padding, exactly as bad_example_handling says; a warning is issued if asked for and only then.',
     [I, C], 'every dataset of up to the bound of images of seven kinds with any content and every small geometry, output size, scaling, number of channels, frame and store layout, every bad- and last-example option and batch size up to the bound',
     'Tests decode a few JPEGs with one geometry each, and need OpenCV; bad images, alpha channels and odd sizes are not reached.',
     ['image_reader.cc'], [('pixels', 'Image_reader::decode_core / resize / crop'), ('handling', 'Image_reader::decode')],
     note='OpenCV is replaced by a model: imdecode yields made-up images and resize picks the nearest pixel. The products of edges and scaling are assumed to fit 31 bits.')

prop('A01', 'The insights about a dataset describe exactly its cells',
     'analyze_dataset of mlio.contrib.insights returns one analysis per column, named after it, that covers every row read and nothing else (not the padding of a batch): the numbers of rows, of empty, blank and null-like strings, of words, of numeric, finite, integer and non-numeric values, the minimum, maximum and mean of the finite ones, the shortest, shortest non-empty, longest and average length, a value that occurs, and for the asked columns the first max_capture_count unique values with their frequencies and whether there were more. The results do not depend on how rows are batched; the attributes and to_dict agree; the cardinality estimators receive exactly the non-empty values and their words. Anything but dense string columns is rejected.',
     [I, C], 'every dataset of up to the bound of rows and columns with any short text (and a list of numbers of all kinds) in each cell, every batch size, padding, capture limit',
     'The package has no tests; its README gives one example.',
     ['src/mlio-py/mlio/contrib/insights/column_analyzer.cc', 'src/mlio-py/mlio/contrib/insights/module.cc', 'src/mlio-py/mlio/contrib/insights/column_statistics.h', 'src/mlio-py/mlio/contrib/insights/utils.cc'], [('analysis', 'Column_analyzer::analyze'), ('results', 'analyze_dataset / PYBIND11_MODULE(insights)')],
     note='pybind11 is replaced by a stand-in that records what is bound. An infinite value may count as a number or not. Frequencies after an overflow are left open.')

prop('A02', 'The cardinality estimator is a HyperLogLog of what was added',
     'After any sequence of texts, each register of the estimator holds the largest rank (one more than the number of leading zeros of the rest of the hash, limited to its width) of the texts whose hash selects it, where the hash is XXH32 with the seed of the package; the order and repetition of texts do not matter, and merging two estimators equals adding the texts of both. The estimate is the one of HyperLogLog for these registers, with its corrections for small and large cardinalities; widths outside 4 to 30 bits and merging different widths are rejected.',
     [I, H], 'every hash value, every register content of a small estimator (for the estimate a family of contents), every text of up to the bound of bytes (for the hash)',
     'The package has no tests.',
     ['src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc', 'src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h', 'src/mlio-py/mlio/contrib/insights/hll/xxhash.h'], [('adding and merging', 'HyperLogLog::add / merge'), ('estimate', 'HyperLogLog::estimate'), ('hash', 'XXH32')])

prop('K01', 'A data store delivers exactly the content it stands for',
     'Every stream opened from a File or In_memory_store, however often it is opened and even after the store is gone, delivers exactly the bytes of the file or memory, inflated if the compression is gzip; compression infer goes by the ending of the name (.gz, .bz2, .zip with something in front of it, else none) and is not supported for memory. An empty path and one that ends with a slash are rejected as invalid; a compression that cannot be read (bzip2, zip) is a not-supported error when the store is opened. A file is memory-mapped exactly when asked for and not empty; zero copy is announced exactly when content is handed out without a copy. A failing system call is a system error, and no descriptor or mapping is left behind.',
     [I, F], 'every path of up to the bound of bytes, any content up to the bound, every compression, mapping or not, any one failing call',
     'Tests open files of a few names; odd names, repeated opening, failing calls and the life time of a stream are not reached.',
     ['data_stores/file.cc', 'data_stores/in_memory_store.cc', 'data_stores/detail/util.cc', 'data_stores/compression.cc', 'memory/file_mapped_memory_block.cc', 'streams/file_input_stream.cc', 'streams/gzip_inflate_stream.cc'], [('opening', 'File::open_read / In_memory_store::open_read'), ('compression', 'detail::infer_compression / make_inflate_stream')],
     note='The system calls and zlib are stand-ins (inflating flips each byte up to a final zero).')

prop('L01', 'An instance read as a whole has exactly the bytes of its data store',
     'bits() of an instance that stands for a whole data store loads the store once, on first use, and returns exactly its bytes, whether the stream hands out memory, knows its size or neither, delivers less than asked for or is empty, and whether the memory block can grow in place; it always ends. A store that cannot be opened and a stream that fails are data reader errors (an exception the library does not know comes through as it is), and the next attempt loads it again.',
     [I, F, H], 'any content up to the bound, every kind of stream, short reads up to the bound, any failing read or open, two attempts',
     'Tests read a few files of a known size; streams of unknown size and failures are not reached.',
     ['instance.cc', 'streams/utf8_input_stream.cc'], [('loading', 'Instance::bits')])

prop('K02', 'Listing files finds every regular file once, in natural order',
     'list_files returns exactly the regular files among the given paths and below them, each once, those of a directory in natural order (numbers in names compare by value), leaving out those that the pattern or the predicate rejects; the predicate is asked only for files that match the pattern. Each store has the path, memory mapping and compression asked for. What cannot be listed (a missing path, an unreadable directory, a failing call) is a system error and a malformed pattern an invalid argument, never a shorter list; nothing stays open. The order is a strict weak order for any names.',
     [I, F], 'every tree up to the bounds of paths, depth and entries with six kinds of entries, every answer of the pattern and the predicate, any one failing call; every pair of names up to the bound of characters (any bytes for the order axioms)',
     'Tests list one flat directory; nested directories, errors during the walk and odd names are not reached.',
     ['data_stores/file.cc', 'third-party/natsort/strnatcmp.c'], [('listing', 'list_files / detail::list_files'), ('order', 'strnatcmp')],
     note='fts and fnmatch are stand-ins; natural order is compared with its definition for names of digits without leading zeros and letters.')

prop('K03', 'S3 objects deliver their content and are listed completely',
     'An S3 URI names a bucket and key exactly if it is s3://bucket/key with neither empty; anything else is rejected. An S3_object reads exactly that object and version, inflated as its compression (or the ending of its name) says, and its stream delivers its bytes from any position up to the size, also when the service delivers less than asked for; positions behind the end and use after closing are errors. list_s3_objects returns exactly the keys with one of the prefixes, over all pages, in natural order, without those the pattern or predicate rejects. Errors of the service arrive as system errors with the matching code and leave the stream usable. A client uses the credentials, profile, region and scheme asked for, or the default credentials, for any number of clients.',
     [I, F, H], 'every URI of up to the bound of bytes, any content up to the bound, every sequence of calls up to the bound, every page size, eight kinds of service errors at any request, every combination of options',
     'S3 support is not built and has no test.',
     ['s3_client.cc', 'data_stores/s3_object.cc', 'streams/s3_input_stream.cc', 'detail/s3_utils.cc'], [('URIs', 'detail::split_s3_uri_to_bucket_and_prefix'), ('reading', 'S3_input_stream::read / S3_client::read_object'), ('listing', 'list_s3_objects / S3_client::list_objects'), ('options', 'make_s3_client')],
     note='The AWS SDK is replaced by a stand-in whose service the harness decides, zlib and fnmatch as in K01 and K02.')

prop('Y01', 'Python buffers and tensors see the same elements',
     'Every Python object with the buffer protocol (or its absence) that is passed to the module is taken or refused by its format, and what is made from it (a tensor, an in-memory store, a memory slice) has exactly its elements, in order, whatever its strides; it shares the memory exactly if asked not to copy and the memory is contiguous, keeps the object alive as long as needed and no longer, and never reads outside it. Every tensor, device array and memory slice is exported with the right format, item size, shape and strides, strings as the text they hold, and text that is not UTF-8 never ends the process.',
     [I, C, H], 'every format character, item size and layout (up to two dimensions with positive, negative and zero strides) up to the bound, any content, every element type and small shape, every way to drop the references',
     'Python tests convert a few contiguous arrays; strided and odd buffers, unusual formats and object life times are not reached.',
     ['src/mlio-py/mlio/core/py_buffer.cc', 'src/mlio-py/mlio/core/py_device_array.cc', 'src/mlio-py/mlio/core/py_memory_block.cc', 'src/mlio-py/mlio/core/memory.cc', 'src/mlio-py/mlio/core/tensor.cc', 'src/mlio-py/mlio/core/data_store.cc'],
     [('taking', 'make_device_array / Py_memory_block / py_buffer'), ('exporting', 'to_py_buffer')],
     note='pybind11 and the Python API are replaced by a stand-in that records what is bound and calls it as pybind11 would.')

prop('Y02', 'What Python passes is what the library gets',
     'Every argument of a reader, parameter object, data store, stream, schema, attribute or tensor of the Python module ends up in exactly the field or argument of the C++ library that it is named after, by position and by name; an argument that is left out has the default of the C++ library. Every property reads and writes the field of its name, every enumeration has exactly the members of the C++ enumeration under their names, and every method calls the C++ function of its name. ==, hash() and repr() of attributes, schemas, stores and devices are those of C++.',
     [I, C], 'every value of every argument (one at a time and all together), every combination of given and left out arguments of the same kind, every member of every enumeration',
     'Python tests set a few options of each reader; most arguments are never set to anything but the default.',
     ['src/mlio-py/mlio/core/data_reader.cc', 'src/mlio-py/mlio/core/data_store.cc', 'src/mlio-py/mlio/core/schema.cc', 'src/mlio-py/mlio/core/tensor.cc', 'src/mlio-py/mlio/core/stream.cc', 'src/mlio-py/mlio/core/record_reader.cc'],
     [('parameters', 'make_data_reader_params / make_csv_params and the like'), ('stores', 'py_register_data_stores')],
     note='pybind11 is replaced as for Y01.')

prop('Y03', 'Every error of the library arrives in Python as the error of its name, with its causes',
     'Every exception of the library arrives as the Python class of its name with its message, a system error as OSError with its number; the classes are derived from each other as the C++ classes are. The exceptions nested in it arrive as the chain of causes, in order and each with its own class and message. Nothing is lost, kept or released twice.',
     [F, H], 'every chain of up to the bound of errors of the thirteen kinds',
     'Python tests provoke two or three errors; chains of causes and most classes are never seen.',
     ['src/mlio-py/mlio/core/error.cc'], [('translation', 'py_register_exceptions and the translator')],
     note='pybind11 and the Python API are replaced as for Y01.')

prop('Y04', 'Python objects live as long as they are used, and Python runs while the library waits',
     'Iterating a data reader, record reader or example from Python gives exactly what the C++ calls give, in order, ends with StopIteration (and not before), and passes on errors; an example is indexed by position and by name, and a position or name that it does not have is a KeyError. Whatever is still iterated or viewed is kept alive, and released afterwards. Calls that can block are made without the interpreter lock, which is held again when they return or fail and whenever Python code is called; log messages arrive at the handler that is set, at the level that is set.',
     [S, H, F], 'every sequence of calls up to the bound, every place where the reader ends or fails, every order in which objects are dropped, every index',
     'Python tests iterate a reader to its end with all objects alive; errors, dropped objects and the interpreter lock are not observed.',
     ['src/mlio-py/mlio/core/data_reader.cc', 'src/mlio-py/mlio/core/record_reader.cc', 'src/mlio-py/mlio/core/example.cc', 'src/mlio-py/mlio/core/logging.cc'],
     [('iteration', 'Py_data_reader_iterator / Py_record_reader_iterator'), ('examples', 'py_register_example')],
     note='pybind11, its life-time annotations and the interpreter lock are modelled as for Y01.')

prop('Y05', 'Tensors converted to NumPy, SciPy and pandas and back keep every element',
     'A tensor made of a NumPy array (as_tensor, to_tensor) has its shape and at every index the element of the array, whatever the strides and the item size of the array; as_tensor shares the memory of the array, or refuses an array that is not contiguous, not writable or not of scalars with an error, to_tensor copies and takes every array. An array made of a dense tensor (as_numpy, to_numpy) has its shape and elements and shares its memory, or is a copy. A SciPy matrix made of a COO tensor has exactly its entries, each in its row and column (a one-dimensional tensor is one row), and is a copy; a COO tensor made of a matrix has its shape and entries. A data frame made of an example has one column per feature, in order, with its name and its elements row by row. What is of another kind, or has too many dimensions, is a ValueError.',
     [I, C], 'every array up to two dimensions (three in the thorough tier) of any strides, offset and item size; every tensor of any strides; every matrix and COO tensor up to two entries at any coordinates; examples of up to two features',
     'Tests convert a few contiguous arrays; strided, transposed and empty arrays, other item sizes and one-dimensional COO tensors are not reached.',
     ['src/mlio-py/mlio/integ/numpy.py', 'src/mlio-py/mlio/integ/scipy.py', 'src/mlio-py/mlio/integ/pandas.py'],
     [('NumPy', 'as_numpy / to_numpy / as_tensor / to_tensor'), ('SciPy', 'to_coo_matrix / to_tensor'), ('pandas', 'to_pandas')],
     note='NumPy, SciPy, pandas and mlio._core are stand-ins; CrossHair executes the Python source with z3 terms for all arguments.')

prop('P04', 'Background threads take no signals, and one that cannot be started is an error',
     'The background thread of a reader runs with all asynchronous signals blocked, so that they stay with the threads of the caller, whose signal mask is the same after every call as before. If the thread cannot be started, that read (or peek) fails with the error of the system; the next one tries again and delivers what comes next, and resetting or destroying the reader works as ever and does not block.',
     [F, S, H], 'every signal mask of the caller, every sequence of reads, peeks, resets and schema reads up to the bound, each start of a thread failing or not, up to two failures, with preemptions up to the bound',
     'No test makes the start of a thread fail or looks at signals.',
     ['detail/thread.h', 'parallel_data_reader.cc'], [('starting', 'detail::start_thread / Parallel_data_reader::ensure_pipeline_running')])
