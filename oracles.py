# Per property: how it is decided and against what; used for DESIGN.md.
ORACLES = {
'C01': 'Csv_record_tokenizer runs on a row of symbolic bytes with symbolic delimiter and quote; a second tokenizer, written from the quoting rules as a small state machine, says which fields must come out or that the row is broken.',
'C02': 'The record reader runs over a symbolic stream whose reads return as few bytes as the solver likes, from symbolic first-chunk sizes; a reference splitter that sees the whole stream at once says which rows there are and which offset they start at.',
'C03': 'As C02 for the text-line record reader.',
'R01': 'As C02 for RecordIO, with a reference decoder of headers; malformed bytes are symbolic too, so every corruption class must match the reference.',
'R02': 'As C02 for Parquet: the reference looks for the first plausible footer of the whole stream.',
'R03': 'Split records: sequences of the four kinds over stores; the reference joins parts or says which record is an error.',
'M02': 'Slices against intervals of integers; shared ownership against a count of owners.',
'M03': 'Histories of resizes against an array of bytes; mmap, mremap, ftruncate, mkstemp and sysinfo are stand-ins of the harness that may fail and that check descriptors, mappings and names; the executor counts live heap objects.',
'U01': 'Histories of stream operations against an array and a position.',
'U02': 'utf8 stream over a symbolic encoded stream in a symbolic encoding against a reference decoder; iconv is a stand-in that converts as few bytes as the solver likes.',
'U03': 'gzip stream over a stand-in zlib whose progress per call is chosen by the solver, truncated or corrupted at any place.',
'U04': 'FIFO system calls are stand-ins whose delays, time-outs and short reads are chosen by the solver; ownership of the channel is tracked by the harness.',
'N01': 'try_parse and infer_data_type on every text up to the bound (and on texts around the limits of each type) against 128-bit arithmetic of the harness.',
'N02': 'The float parsers on every text up to the bound; which texts are numbers is decided by a grammar in the harness, the value by exact arithmetic where the text is short.',
'T01': 'Tensor constructors with symbolic shapes, strides and sizes against 128-bit arithmetic; DLPack views are compared field by field.',
'T02': 'Coo_tensor_builder against row-major arithmetic in 128 bits.',
'S01': 'Schemas of symbolic attributes against maps and equality written in the harness.',
'I01': 'Sequences of operations on a real reader over the real pipeline (TBB flow graph stand-in) against a list of batches.',
'I02': 'Symbolic 64-bit skip and limit against list slicing.', 'I03': 'Symbolic 64-bit shard numbers against list striding.',
'I04': 'Sampling against counts per hundred; validation of every float.', 'I05': 'Random numbers are symbolic; window and permutation conditions are checked on what comes out.',
'B01': 'Batching against list chunking for each last-example option.', 'B03': 'Datasets of CSV rows with every kind of bad row against the documented policy of each option, decoded sequentially and with the rows decoded in parallel.',
'P01': 'The same reader with every schedule of its threads and flow-graph tasks within the preemption bound, against the sequential result.',
'P02': 'As P01 with resets and destruction at any point; deadlock, termination of the process and leaks are detected by the executor (and LeakSanitizer in the replay).',
'P03': 'Stores and streams that fail at a solver-chosen point with a solver-chosen exception.',
'P04': 'The harness tracks the signal mask and decides which thread starts fail.',
'D01': 'The schema of a CSV reader against rules written from the documentation (names, types, selection, overrides, duplicates).',
'D02': 'Batches of symbolic RecordIO-protobuf messages (the generated message class is a stand-in; its wire format is not the question) against a reference that computes every feature, batch size, padding and bad-instance outcome.',
'D03': 'Image geometry against integer arithmetic over made-up images whose pixels are known; OpenCV is a stand-in.',
'D04': 'Datasets are written by the harness from the cells, in the dialect the reader is told; iconv is a stand-in.',
'T03': 'Arrays, devices and examples against the values they were made of.', 'G01': 'The handler and allocator of the harness against a record of what was set.',
'A01': 'Column statistics against direct counting over symbolic cells.', 'A02': 'Registers and estimates against the definition of HyperLogLog; the hash against the published XXH algorithm.',
'K01': 'Stores over a stand-in file system and zlib, with one call failing anywhere.', 'K02': 'Listing over stand-in fts and fnmatch trees; the order against the definition of natural order.',
'K03': 'S3 over a stand-in service.', 'L01': 'Whole-store instances over streams of every kind.',
'Y01': 'The real binding code is compiled against a stand-in for pybind11 and the Python API that records what is registered; the harness plays Python. Buffers of symbolic content and layout against index arithmetic.',
'Y05': 'The Python code runs unchanged under CrossHair, on arrays whose strides, offset and content are terms; arrays, matrices and data frames are stand-ins that are compared with NumPy on every run, what the C++ part does with a buffer is Y01.',
'Y02': 'Every bound argument is set to a marked value and looked for in the C++ object.',
'Y03': 'Chains of exceptions go through the registered translator.',
'Y04': 'The harness plays Python: drops references, tracks the interpreter lock, and fails reads.',
}
