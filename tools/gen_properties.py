#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here in a readable form)."""
import json, os, sys
P = []
S = "src/streaming/"


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))


# ---------------------------------------------------------------- API boundary
prop("C01", "No exception ever crosses the C API or kills the process",
     """Every function of the public C API returns normally for every input and every failure of the file system,
     the S3 endpoint, the settings or the start of a thread: a failure is turned into a status code, a null stream or a log line, never into
     a C++ exception leaving the library, and no exception other than memory exhaustion reaches a point where the
     language terminates the process (a no-throw function, a destructor, a thread's entry).""",
     ["inputs", "fault_sequences"],
     "all API calls x all arguments x all failing I/O operations underneath",
     """The tests call the API with good settings on a healthy file system; no test makes an operation fail inside
     create, append or destroy.""",
     [S + "acquire.zarr.cpp", S + "zarr.stream.cpp", S + "array.writer.cpp", S + "thread.pool.cpp"],
     [("catch clauses of the API functions", "ZarrStream_create / ZarrStream_append / ZarrStream_destroy"),
      ("noexcept functions and destructors", "ThreadPool::await_stop, ~ThreadPool, make_buffers_, ...")],
     observe=["return value of every function of include/acquire.zarr.h"])

prop("C02", "Null pointers handed to the API are rejected, never dereferenced",
     """Passing a null pointer for any pointer argument of the API, or leaving any pointer of the settings null
     (store path, dimension array, a dimension's name, any S3 string), makes the call fail cleanly (error status,
     null stream, or a no-op); no null pointer is dereferenced or turned into a string.""",
     ["inputs"], "all subsets of null pointers among the API arguments and the settings' pointer fields",
     "The existing tests pass a null settings pointer once and never a null inner pointer.",
     ["include/acquire.zarr.h", S + "acquire.zarr.cpp", S + "zarr.stream.cpp"],
     [("argument checks", "acquire.zarr.cpp EXPECT_VALID_ARGUMENT"), ("settings validation", "zarr.stream.cpp validate_settings")])

prop("C03", "Rejected settings have no effect on the store or the network",
     """When stream creation is refused because of its settings, nothing has been created, truncated or deleted on the
     file system and no S3 request has been made; in particular an existing data set at the store path is removed only
     after every setting has been accepted.""",
     ["inputs", "configurations"], "all invalid settings, including those with a single bad field anywhere",
     """The one creation test uses a null pointer and a few fields; the order of validation and effects over all invalid
     combinations is not tested, and the effect is destructive.""",
     [S + "zarr.stream.cpp", S + "acquire.zarr.cpp"],
     [("validation precedes every effect", "ZarrStream_s::ZarrStream_s"), ("store removal", "ZarrStream_s::create_store_")])

prop("C04", "Settings are accepted exactly when every field is within its documented range",
     """A stream is created only if version is 2 or 3, data type / compressor / codec / dimension type are known
     enumerators, level is 0..9, shuffle is 0, 1 or 2, there are at least three dimensions of which the last two are
     spatial, chunk sizes are nonzero, array sizes are nonzero except for the first dimension, shard sizes are nonzero
     for version 3, a codec is set when a compressor is, and store path, names and S3 strings are nonblank (bucket name
     3..63 characters), and custom metadata, if any, are a JSON document; a value at either end of a range is accepted and the first value past it is rejected.""",
     ["inputs", "configurations"], "every settings field at, inside and past each of its boundaries",
     "Tests use one valid configuration per scenario; boundary values of each field are not covered.",
     [S + "zarr.stream.cpp", S + "zarr.common.cpp", "include/zarr.types.h"],
     [("settings validation", "zarr.stream.cpp validate_settings and its helpers")])

# ---------------------------------------------------------------- concurrency
prop("C05", "The thread pool runs every accepted job exactly once and then stops",
     """For every interleaving of submissions, workers and a stop request: a job whose submission reported success is
     executed exactly once, and has finished when an orderly stop returns; a job whose submission reported failure is
     never executed, and every submission after a stop request fails. The pool always has at least one worker, no
     wake-up is lost, and stop always returns once the running jobs do.""",
     ["schedules", "histories"], "all interleavings of submitters, workers and stop; any number of threads and jobs",
     "The only test pushes one job on one thread and sees it run; schedules are not explored.",
     [S + "thread.pool.cpp", S + "thread.pool.hh"],
     [("queue + accepting flag under one mutex", "ThreadPool::push_job / await_stop / process_tasks_"),
      ("wait predicate and exit test", "ThreadPool::process_tasks_, should_stop_"),
      ("worker creation", "ThreadPool::ThreadPool")],
     [("jobs queue", "accepted, not yet started jobs", "ThreadPool::jobs_"),
      ("accepting flag", "cleared by stop", "ThreadPool::is_accepting_jobs_")])

prop("C06", "A failing job is reported once, with a message, and never kills the process",
     """When a background job fails, for whatever reason, the failure reaches the stream exactly once as a nonempty
     message and no exception leaves the job; after a background failure the next append, and every one after it,
     reports an error instead of writing on.""",
     ["fault_sequences", "schedules"], "every job kind x every failing operation inside it",
     "No test makes a background job fail.",
     [S + "thread.pool.cpp", S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp",
      S + "sink.creator.cpp", S + "zarr.stream.cpp"],
     [("worker loop calls the error handler on failure", "ThreadPool::process_tasks_"),
      ("job bodies catch and describe their errors", "lambdas passed to push_job"),
      ("append refuses after an error", "ZarrStream_s::append, set_error_")])

prop("C07", "Every batch of background jobs is waited for and always completes",
     """Whoever hands a batch of jobs to the thread pool waits for all of them, each job signals completion exactly
     once on every path through it (success, failure or exception), and as many signals are expected as jobs are
     submitted, so the wait neither hangs nor ends early.""",
     ["schedules", "fault_sequences"], "all paths through all jobs, all batch sizes, all failures inside a job",
     "Tests run the success path of the jobs only.",
     [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "sink.creator.cpp"],
     [("std::latch per batch", "compress_buffers_, flush_impl_, make_dirs_, make_files_")])

prop("C08", "A background job never touches its submitter's data after signalling completion",
     """Everything a background job reads or writes in its submitter (results, flags, buffers) is accessed before the
     job signals its completion, so that the submitter, once woken, sees every result and may release that storage.""",
     ["schedules"], "all interleavings of a submitter that returns as soon as it is signalled with its jobs",
     "The window between the signal and the late access is a few instructions; tests never hit it.",
     [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "sink.creator.cpp"],
     [("captures by reference in jobs", "lambdas passed to push_job")])

prop("C09", "State shared between threads is free of data races",
     """The job queue and its accepting flag, the S3 connection list, the stream's error message and the log level are
     shared between user threads and workers; every access to each of them is either atomic or made while holding the
     one lock that guards it.""",
     ["schedules"], "all interleavings of API calls, workers and log calls",
     "Data races do not fail functional tests; no test runs under a race detector.",
     [S + "thread.pool.cpp", S + "s3.connection.cpp", S + "zarr.stream.cpp", "src/logger/logger.cpp", "src/logger/logger.hh"],
     [("jobs mutex", "ThreadPool::jobs_mutex_"), ("connections mutex", "S3ConnectionPool::connections_mutex_"),
      ("error message", "ZarrStream_s::error_"), ("log level", "Logger::current_level_")])

prop("C10", "No deadlock: locks are never held across jobs, callbacks or waits",
     """No thread runs a job or an error callback, joins a worker, or blocks on anything but the condition belonging to
     a lock, while holding that lock, unless nothing it waits for needs it; locks are acquired in one order; and a
     background job neither submits jobs and waits for them nor holds one S3 connection while asking for another.""",
     ["schedules"], "all interleavings and all pool sizes down to one worker and one connection",
     "Needs particular interleavings or a pool of size one; the tests never provoke either.",
     [S + "thread.pool.cpp", S + "s3.connection.cpp", S + "s3.sink.cpp", S + "array.writer.cpp", "src/logger/logger.hh"],
     [("lock scopes", "unique_lock / scoped_lock in ThreadPool, S3ConnectionPool, ArrayWriter, Logger")])

# ---------------------------------------------------------------- file output
prop("C11", "The file sink puts the given bytes at the given offset or reports failure",
     """Writing to a file sink stores every byte handed over at exactly the (64-bit) offset asked for, whatever was
     written before; write and flush report success only if the operating system accepted all of it, including when
     the file could not be opened; a newly created sink starts from an empty file.""",
     ["inputs", "fault_sequences", "histories"], "all offsets, sizes, write sequences and stream failures",
     "The test writes ten bytes at offset zero to a healthy disk.",
     [S + "file.sink.cpp", S + "file.sink.hh"],
     [("open mode", "FileSink::FileSink"), ("seek, write, check", "FileSink::write"), ("flush, check", "FileSink::flush_")])

prop("C12", "No I/O failure is swallowed on its way to the caller",
     """A failure reported by a lower layer (sink, connection, writer, job submission, file-system call) is never
     discarded by the layer above: every such result is tested and turned into a failure of the enclosing operation,
     and an operation reports success only when everything it did succeeded.""",
     ["fault_sequences"], "every call whose result says whether it worked x both results, along the whole call chain",
     "No test injects I/O failures.",
     [S + "sink.cpp", S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp",
      S + "s3.sink.cpp", S + "sink.creator.cpp", S + "zarr.stream.cpp", S + "acquire.zarr.cpp"],
     [("boolean / etag results and CHECK/EXPECT", "all callers of write, flush, finalize, push_job, put_object, ...")])

prop("C13", "The vectored writer writes all buffers at the 64-bit offset, or reports failure",
     """A vectored write stores the concatenation of all its buffers at exactly the given offset, for offsets and totals
     beyond 2 and 4 GiB too, and reports success only if the operating system took every byte; opening a file never
     destroys what is already in it, and a file that cannot be opened is an error.""",
     ["inputs", "fault_sequences"], "all offsets, buffer lists and results of the write call",
     "The test writes a few pages at offset zero; it cannot afford multi-gigabyte offsets or short writes.",
     [S + "vectorized.file.writer.cpp", S + "vectorized.file.writer.hh"],
     [("gather list and write call", "VectorizedFileWriter::write_vectors"), ("open flags", "VectorizedFileWriter::VectorizedFileWriter")])

prop("C14", "Every S3 connection taken from the pool is given back",
     """On every path, including those where an S3 operation fails or throws, a connection taken from the pool is
     returned to it exactly once, is not used afterwards, and is never used when the pool handed out none.""",
     ["fault_sequences", "schedules"], "all paths through all users of a connection",
     "Tests need a live S3 server and only run the success path.",
     [S + "s3.connection.cpp", S + "s3.sink.cpp", S + "sink.creator.cpp", S + "zarr.stream.cpp"],
     [("get/return pairs", "S3Sink::put_object_, flush_part_, create_multipart_upload_, finalize_multipart_upload_, SinkCreator::bucket_exists_, ZarrStream_s::create_store_")])

prop("C15", "An S3 object is completed only from parts that were all uploaded, in order",
     """A multipart upload is created before its first part and once per object, parts are numbered 1, 2, 3, ... without
     gaps, a part is recorded only after its upload succeeded, and completion is requested only after all buffered data
     was uploaded and no part failed; success is reported only if completion succeeded.""",
     ["fault_sequences", "histories"], "all sequences of writes, part failures and flushes",
     "Tests need a live S3 server and never fail a part.",
     [S + "s3.sink.cpp"],
     [("multipart typestate", "S3Sink::write, flush_part_, finalize_multipart_upload_, flush_")])

prop("C16", "Writes to an S3 sink are contiguous and never leave its part buffer",
     """Data written to an S3 sink is buffered at the position its offset implies and never outside the fixed part
     buffer; bytes already buffered are neither overwritten nor dropped by a sequential write, and a write that would
     leave a hole or go backwards is refused.""",
     ["inputs", "histories"], "all offsets and sizes in all orders",
     "Tests write one small and one large object from offset zero.",
     [S + "s3.sink.cpp", S + "s3.sink.hh"],
     [("offset bookkeeping and bounded copy", "S3Sink::write")])

# ---------------------------------------------------------------- tables and metadata
prop("C17", "Tables over public enumerations are total and agree with each other",
     """For every pixel type, the size in bytes, the Zarr V2 and V3 type names and the element type used for downsampling
     denote the same type; every log level maps to and from the logger's own level unchanged; every status code has its
     own message; every codec is passed on and recorded under its Blosc name; every dimension type is recorded under its
     own name; values outside an enumeration are reported as errors, not given another entry's value.""",
     ["inputs", "configurations"], "every enumerator (and a value outside) of every public enumeration x every table over it",
     "Tests use uint8, uint16 or int32 data and one codec; nine tables of ten entries are never compared.",
     ["include/zarr.types.h", S + "zarr.common.cpp", S + "blosc.compression.params.cpp", S + "zarrv2.array.writer.cpp",
      S + "zarrv3.array.writer.cpp", S + "zarr.stream.cpp", S + "acquire.zarr.cpp"],
     [("switch tables", "bytes_of_type, sample_type_to_dtype (V2, V3), write_multiscale_frames_, blosc_codec_to_string, dimension_type_to_string, Zarr_*_log_level, Zarr_get_status_message")])

prop("C18", "Array metadata describes the encoding that was actually used",
     """The metadata written for an array names, for each dimension in order, the array size, chunk size and (V3) shard
     size the data were laid out with, the pixel type of the data, and the compressor, codec, level and shuffle actually
     handed to the compressor (or none if data were stored raw), together with every key the format requires.""",
     ["configurations", "inputs"], "all settings",
     "Tests compare a few literal values for a few configurations.",
     [S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "array.writer.cpp", S + "zarr.stream.cpp"],
     [("metadata construction", "write_array_metadata_ (V2, V3)"), ("compression call", "ArrayWriter::compress_buffers_")])

# ---------------------------------------------------------------- layout
prop("C19", "Chunk buffers never carry stale bytes into a later chunk",
     """Before the first frame of every chunk is stored, each chunk buffer has its full uncompressed size and contains
     only zeros, so that padding and unwritten regions of a stored chunk read as the fill value.""",
     ["histories", "inputs"], "all sequences of frames, flushes and compressions",
     "The tests' ragged cases check sizes, not the padding bytes of later chunks.",
     [S + "array.writer.cpp"],
     [("buffers recreated after each flush", "ArrayWriter::flush_, make_buffers_, write_frame")])

prop("C20", "Destroying a stream finishes everything that was started",
     """Destroying a stream writes the outstanding data and metadata, finalises every sink exactly once (the sinks of an
     array whose writing failed excepted), stops the worker threads before it frees the stream, and frees it on every
     path; no sink is used after it was finalised; and data appended before destruction is in a finalised sink whether
     or not the last frame completed a chunk or a shard.""",
     ["histories", "fault_sequences"], "all numbers of frames modulo chunk and shard size, both formats, all failures",
     "Tests end at one or two positions relative to chunk and shard boundaries, on a healthy disk.",
     [S + "zarr.stream.cpp", S + "array.writer.cpp", S + "acquire.zarr.cpp", S + "sink.cpp"],
     [("finalisation", "ZarrStream_destroy, finalize_stream, finalize_array, finalize_sink, close_sinks_")])

prop("C21", "Frame-to-chunk arithmetic is the mixed-radix formula for every array geometry",
     """For every number of dimensions, array size and chunk size, the chunk a frame falls in along each dimension, its
     position among the buffered chunks and its byte offset inside its chunk are those of the row-major chunk grid, so
     that distinct frames of one buffered layer get distinct, in-bounds places; intermediate products do not wrap at 32
     bits.""",
     ["inputs", "configurations"], "all dimension counts, sizes and frame numbers",
     "Tests evaluate two or three fixed geometries with small sizes.",
     [S + "zarr.dimension.cpp", S + "zarr.dimension.hh"],
     [("mixed-radix decomposition", "ArrayDimensions::chunk_lattice_index, tile_group_offset, chunk_internal_offset")])

prop("C22", "Chunk and shard counts cover the array exactly, and sizes in bytes are exact",
     """The number of chunks (shards) along a dimension is the smallest that covers all its pixels (chunks); the number of
     buffered chunks, of open shards and of chunks per shard is the product over the right dimensions; the sizes in bytes
     of a frame and of a chunk are the product of the pixel size with the right extents, computed without 32-bit
     overflow; a zero chunk size is an error and a zero shard size means no shards.""",
     ["inputs", "configurations"], "all sizes, including non-divisible and large ones",
     "Tests use a handful of small geometries.",
     [S + "zarr.common.cpp", S + "zarr.dimension.cpp"],
     [("ceil division", "chunks_along_dimension, shards_along_dimension"),
      ("products", "number_of_chunks_in_memory, number_of_shards, chunks_per_shard, bytes_per_chunk, bytes_of_frame")])

prop("C23", "Chunks map one-to-one onto shard slots for every geometry",
     """For every geometry, each chunk is assigned to the shard that contains it in the shard grid and to the slot given
     by its position inside that shard, so that no two chunks of a layer share a slot, every slot number is below the
     number of chunks per shard, and every shard number is below the number of shards.""",
     ["inputs", "configurations"], "all dimension counts, sizes, shard sizes and chunk numbers",
     "Tests tabulate two small geometries.",
     [S + "zarr.dimension.cpp"],
     [("shard arithmetic", "ArrayDimensions::shard_index_for_chunk, shard_internal_index")])

prop("C24", "Chunks and shards are flushed and rolled over exactly at their boundaries",
     """Buffered chunks are written out exactly when the number of frames received reaches a multiple of the frames held
     by one layer of chunks, and output files are closed and replaced exactly at multiples of the frames held by one
     layer of chunks (V2) or shards (V3), for every geometry, without 32-bit overflow.""",
     ["histories", "inputs", "configurations"], "all geometries and frame counts",
     "Tests run a few small geometries through one or two boundaries.",
     [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp"],
     [("flush and rollover tests", "ArrayWriter::should_flush_, ZarrV2ArrayWriter::should_rollover_, ZarrV3ArrayWriter::should_rollover_")])

prop("C25", "The shard index records where every chunk of the shard was written",
     """Each chunk of a shard is recorded in the slot of that chunk, across all append layers the shard holds, with the
     byte offset at which it was written and the number of bytes written; unused slots hold the empty marker; the index
     is written after the last chunk of a shard and then reset.""",
     ["histories", "inputs"], "all geometries, frame counts and chunk sizes after compression",
     "Tests use shards that hold one chunk along the append dimension or look only at file sizes.",
     [S + "zarrv3.array.writer.cpp", S + "zarr.dimension.cpp"],
     [("shard tables and file offsets", "ZarrV3ArrayWriter::flush_impl_")])

# ---------------------------------------------------------------- stream
prop("C26", "Append consumes the caller's bytes in order, once, however they are split",
     """The frames handed to the array writers are exactly the consecutive frame-sized pieces of the concatenation of all
     byte ranges appended so far, wherever the caller splits them, and the number of bytes reported is the number
     consumed by that call; every frame given to the full-resolution array also feeds the multiscale levels.""",
     ["inputs", "histories"], "all partitions of the byte stream into append calls",
     "All tests append whole frames.",
     [S + "zarr.stream.cpp"], [("frame assembly", "ZarrStream_s::append")],
     [("frame buffer and its offset", "partial frame carried between calls", "ZarrStream_s::frame_buffer_, frame_buffer_offset_")])

prop("C27", "Downsampled frames are built from whole pixels and their memory is owned once",
     """Downsampling reads and averages pixels at the array's pixel width inside the bounds of its source, and each
     downsampled frame's memory is released exactly once, by the matching deallocation, after its last use.""",
     ["inputs", "histories", "configurations"], "all pixel types, frame sizes (odd and even) and frame counts",
     "Multiscale tests use 8-bit pixels or check file sizes only; leaks and wrong deallocation do not fail tests.",
     [S + "zarr.stream.cpp"], [("scale, average, ownership", "scale_image, average_two_frames, write_multiscale_frames_")])

# ---------------------------------------------------------------- logging, names, paths
prop("C28", "Log filtering honours the configured level for every message and level",
     """A message is emitted if and only if its level is at or above the configured level, nothing is emitted at level
     None, errors go to standard error and the rest to standard output, and setting a level outside the enumeration is
     refused and leaves the level unchanged.""",
     ["inputs", "configurations"], "all pairs of message level and configured level, and values outside",
     "No test covers the logger.",
     ["src/logger/logger.hh", "src/logger/logger.cpp"],
     [("filter and stream selection", "Logger::log"), ("validation", "Logger::set_log_level")])

prop("C29", "Log lines from different threads never interleave",
     """Each message is written as one complete line while the one logging lock is held, for every interleaving of
     logging threads, and the lock is released on every path.""",
     ["schedules"], "all interleavings of logging threads",
     "No test logs from two threads and inspects the output.",
     ["src/logger/logger.hh", "src/logger/logger.cpp"], [("log mutex", "Logger::log, Logger::log_mutex_")])

prop("C30", "All file-system effects stay below the store path",
     """Every file or directory the library creates, truncates or removes is the store path (as given, without
     surrounding blanks and a leading "file://") itself or has a name built by appending fixed names and chunk indices to
     it; only the store path itself is ever removed, before writing starts.""",
     ["inputs", "configurations"], "all settings, geometries and frame counts",
     "Tests look for expected files; they do not look for unexpected effects elsewhere.",
     [S + "zarr.stream.cpp", S + "sink.creator.cpp", S + "array.writer.cpp", S + "file.sink.cpp"],
     [("path construction", "make_data_sinks_, make_metadata_sink_, make_data_sink_paths_, make_metadata_sink_paths_"),
      ("removal", "ZarrStream_s::create_store_")])

prop("C31", "Compressed chunks hold exactly what the compressor produced",
     """When compression is on, each chunk is replaced by exactly the bytes the compressor reports, in an output buffer
     large enough for incompressible data, with the pixel size as type size; a compressor error or an uncompressed
     result is never stored as if it were the compressed chunk.""",
     ["inputs", "fault_sequences"], "all chunk contents, sizes and compressor results",
     "Tests compress zeros; the compressor never fails in them.",
     [S + "array.writer.cpp"], [("compression job", "ArrayWriter::compress_buffers_")])

prop("C32", "The multiscale pyramid is finite and its levels are consistent",
     """For every geometry the set of resolution levels is finite, level n has the type of level 0, half its (rounded-up)
     extent along every non-channel dimension, nonzero chunk and shard sizes no larger than needed, and its own place in
     the store and in the metadata.""",
     ["configurations", "inputs"], "all geometries with multiscale on",
     "One test downsamples one geometry by hand.",
     [S + "array.writer.cpp", S + "zarr.stream.cpp"], [("level construction", "downsample, ZarrStream_s::create_writers_")])

prop("C33", "Python settings reach the C settings field of the same name unchanged",
     """Each keyword argument and property of the Python settings classes sets and reads the one field it is named after and no
     other, values of the field's whole range are taken, an optional setting that is None (or was not given) is absent, and
     when a stream is created each is forwarded to the C settings field of the same meaning, through pointers that are
     valid for the whole call; every documented enumerator has the value of its C counterpart, and the log level is set and
     read unchanged, a refusal being raised.""",
     ["configurations", "inputs"], "all fields of all settings classes, all values",
     "The Python tests set a few fields and cannot be run here.",
     ["python/acquire-zarr-py.cpp"], [("kwargs, properties, forwarding", "python/acquire-zarr-py.cpp")])

prop("C34", "Data stored with a stream read back equal to what was appended",
     """A conforming Zarr reader that opens a finished data set with the metadata stored in it reads back, at every index
     of the full-resolution array, exactly the pixel appended there, and the fill value where none was appended, for
     every format version, pixel type, geometry, compression setting, storage back end and way of splitting the data
     over calls; every lower level is readable and each of its pixels is made from the block of pixels it covers.""",
     ["inputs", "configurations", "histories"], "all pixel data and settings",
     "Tests compare sizes of files for a few configurations.",
     [S + "zarr.stream.cpp", S + "array.writer.cpp"], [("whole pipeline", "all of src/streaming")])

prop("C35", "A crash leaves every finalised chunk readable",
     """After a crash of the process or the machine at any point, every chunk or shard whose flush had been acknowledged
     before is complete in the store.""",
     ["crash_points"], "all crash points",
     "No test crashes the writer.",
     [S + "file.sink.cpp", S + "s3.sink.cpp"], [("flush", "FileSink::flush_ (no sync to disk), S3Sink::flush_")])

prop("C36", "Downsampled pixel values are the mean of the pixels they cover",
     """Each pixel of a lower-resolution frame is the mean of the pixels it covers in two consecutive frames of the level above
     (blocks of 2 by 2, the last row and column repeated where the size is odd), within the rounding of the pixel type, for
     every pixel type and over the type's whole range.""",
     ["inputs", "configurations"], "all pixel values, pixel types and frame shapes",
     "No test looks at the values of downsampled pixels.",
     [S + "zarr.stream.cpp"], [("averaging", "scale_image, average_two_frames, ZarrStream_s::write_multiscale_frames_")])

prop("C37", "Every chunk and shard goes to its own place in the store",
     """Each chunk (Zarr V2) or shard (V3) of each level is written to a file or object of its own, named by the format's key
     for its position in the grid: store/level/append index/i1/../in for V2 and store/data/root/level/c<append index>/i1/../in
     for V3, in the file system and in the configured bucket alike; every chunk of a layer is written, once, with its whole
     contents, and files are created only at the beginning of a layer (V2) or of a layer of shards (V3).""",
     ["configurations", "histories"], "all geometries, levels and numbers of frames",
     "Tests look for the files of two or three geometries; swapped or shared names with the right total go unnoticed.",
     [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "sink.creator.cpp"],
     [("naming", "SinkCreator::make_data_sinks, make_data_sink_paths_, data_root_"), ("assignment", "flush_impl_")])

prop("C38", "Each frame is cut into its chunks without loss, overlap or misplacement",
     """Every pixel of an appended frame is copied exactly once, to its chunk and its position in the chunk (partial chunks at
     the right and bottom edges included), inside the bounds of frame and chunk, and the whole frame is reported as
     consumed; a frame of any other size is refused and changes no chunk.""",
     ["inputs", "configurations", "histories"], "all geometries, pixel types, frame numbers, frames beyond 4 Gi pixels",
     "Tests write constant frames of small geometries and check file sizes.",
     [S + "array.writer.cpp"], [("tiling", "ArrayWriter::write_frame, write_frame_to_chunks_")])

prop("C39", "Group metadata are complete, name every axis and level, and are whole JSON",
     """Every metadata file a stream creates holds, once the stream exists and after it is destroyed, one whole JSON document:
     the group metadata the format requires (.zgroup and .zattrs, or zarr.json and meta/root.group.json), whose
     multiscales entry (version 0.4) lists every axis in order with its name, type and, for the last two, unit, and one
     dataset per resolution level made, whose path is the level's and whose scale is 2^level along both image
     dimensions; and the caller's custom metadata, or an empty object.""",
     ["configurations"], "all settings, both formats, file system and S3, with and without levels",
     "Tests check a few keys for one configuration; nothing reads the auxiliary files.",
     [S + "zarr.stream.cpp", S + "sink.creator.cpp"],
     [("group metadata", "ZarrStream_s::write_base_metadata_, write_group_metadata_, write_external_metadata_, make_multiscale_metadata_"),
      ("metadata files", "SinkCreator::make_metadata_sinks")])

prop("C40", "After a failed write-out an array is left alone",
     """When writing out chunks, shards, an index or array metadata fails at any point, the append that did it reports an
     error, and from then on no frame is accepted for that array and neither later appends nor destroying the stream
     write, finalise, recreate or compress anything of it again, or use a sink that is already gone; the process goes
     on.""",
     ["fault_sequences", "histories"], "a failure of every operation of a write-out, followed by appends and destruction",
     "Tests run on a healthy disk; a retry after a partial write-out never happens there.",
     [S + "array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarr.stream.cpp"],
     [("write-out", "ArrayWriter::write_frame, flush_, close_sinks_, rollover_, finalize_array")])

prop("C41", "Jobs that run at the same time do not interfere",
     """Between a set of jobs being handed to the thread pool and the wait for them, no two of these jobs, and no job and
     the code that submitted it, access the same memory with one of them writing, unless through an atomic object or
     under a common lock; no two of them use the same sink, or create or truncate the same file or directory or one
     inside the other. What the jobs leave behind therefore does not depend on their order.""",
     ["schedules", "inputs"], "all batches of jobs of all streams x all interleavings of their jobs",
     "Functional tests see one interleaving per run, nearly always an undisturbed one; interference needs two jobs to overlap in time.",
     [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "sink.creator.cpp"],
     [("jobs", "lambdas given to push_job in compress_buffers_, flush_impl_, make_dirs_, make_files_"),
      ("shared results", "all_successful, shard_file_offsets_, shard_tables_, sinks")])

prop("C42", "A Python stream hands over whole arrays in C order and raises on failure",
     """A Python ZarrStream exists only if the C stream was created (otherwise its constructor raises), owns exactly that
     stream, and destroys it exactly once; append hands over, once, all bytes of the given array laid out contiguously in C
     order, whatever its strides, raises when the array cannot be laid out so or the C call reports a failure, and returns
     only on success; an object without a stream never reaches the C API.""",
     ["inputs", "fault_sequences"], "all arrays x all outcomes of the C API",
     "The Python tests append a few contiguous arrays, make nothing fail, and cannot be run here.",
     ["python/acquire-zarr-py.cpp"], [("PyZarrStream: constructor, append, destructor", "python/acquire-zarr-py.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
