"""Which function decides which property."""
import importlib

CHECKS = {
    "C21": ("geometry", "c21", "value-number term extraction by abstract interpretation of the IR, decided against the mixed-radix law by random interpretation (term identity testing)",
            "Every path of the three placement functions, 3..5 (quick) / 3..8 (thorough) dimensions, all sizes symbolic with machine widths; identity of terms is tested by random interpretation, so a difference is missed only with small probability."),
    "C22": ("geometry", "c22", "value-number term extraction by abstract interpretation of the IR, decided against the counting law by random interpretation",
            "As C21, for the counting and size functions."),
    "C23": ("geometry", "c23", "value-number term extraction by abstract interpretation of the IR, decided against the shard-grid law by random interpretation",
            "As C21, for the two chunk-to-shard functions, chunk numbers of all append layers of a shard."),
    "C11": ("files", "c11", "path-sensitive typestate (open / seek / write / check) over the stream operations of FileSink, argument terms compared by random interpretation",
            "All paths of FileSink's constructor, write and flush_; what an ofstream does with the bytes is an axiom."),
    "C13": ("files", "c13", "path-sensitive dataflow to the pwritev/open call sites; argument and path-condition terms decided by random interpretation with sizes and offsets beyond 2 and 4 GiB",
            "All paths of VectorizedFileWriter's constructor and write_vectors for 0..3 (thorough 0..8) buffers of symbolic place and size; what pwritev does is an axiom."),
    "C28": ("logger", "c28", "finite abstract interpretation: every level x configured level constant-propagated through the instances of Logger::log, effects on the standard streams observed",
            "All four message levels x five configured levels over every fourth (quick) / every (thorough) template instance; the level range checks for boundary values."),
    "C29": ("logger", "c29", "path-sensitive lockset analysis of every instance of Logger::log, plus an effect query for console writes elsewhere",
            "Every path of every instance."),
    "C17": ("enums", "c17", "constant propagation of every enumerator (and values outside) through each enumeration table found by signature; composition of the two log-level maps; call-target analysis of the downsampling dispatch",
            "Every enumerator; 4..8 values outside each enumeration."),
    "C05": ("pool", "c05", "property simulation (path-sensitive typestate) of every thread-pool function with the shared state havocked at each lock acquisition and wait; lockset rules",
            "All paths of constructor, push_job, await_stop, destructor and the worker loop; interleavings are covered because the shared state is arbitrary whenever the lock is (re)acquired; liveness assumes a fair scheduler."),
    "C06": ("jobs", "c06", "property simulation of every job body and of the worker loop; summary composition handler -> stream error -> append",
            "All paths of every job found at a push_job site (functions submitting jobs explored for concrete small geometries, file and directory counts), every sink or file-system call able to fail or throw; worker paths as in C05."),
    "C07": ("jobs", "c07", "counting abstraction over job submissions and latch operations (constant propagation of the batch size), typestate of the latch inside every job body",
            "All paths of every function that submits jobs, for several geometries / batch sizes; all paths of every job."),
    "C08": ("jobs", "c08", "escape / happens-before analysis of every job body: accesses to memory of the submitter after the latch signal",
            "All paths of every job found at a push_job site."),
    "C24": ("writer", "c24", "path-condition extraction from write_frame by abstract interpretation (both writer classes), boundary conditions decided against the multiples law by random interpretation",
            "All paths of write_frame and what it calls except the tiling and the batch of a flush; 3..4 (thorough 3..6) dimensions of symbolic size, frame counts around multiples of layer and shard, beyond 2^32."),
    "C19": ("writer", "c19", "dataflow (last-writer) analysis of every chunk buffer along all paths of write_frame: size and zero-fill before the first frame and after each write-out",
            "Both writer classes, with and without compression, first frame and after a flush that left buffers of arbitrary size; 3 buffers of symbolic size."),
    "C14": ("s3", "c14", "ownership (typestate) analysis of the connection handle in every function that takes one from the pool, with every S3 operation able to fail or throw; exact list analysis of the pool itself",
            "All paths of every caller of get_connection (and of their callers when the handle is passed on); pool functions with 0..3 idle connections. Assumes the pool outlives its users (it is held by shared_ptr)."),
    "C15": ("s3", "c15", "property simulation (typestate of the multipart upload, provenance of part numbers, tags and upload id) of S3Sink from construction through a family of write histories and the final flush, every S3 operation able to fail or throw",
            "All success/failure paths of 27 (thorough 33) histories of writes with concrete sizes around the part size; the S3 client library is an axiom."),
    "C16": ("s3", "c16", "exact dataflow (interval map) of the part buffer along all paths of S3Sink's construction, writes and flush, against the byte stream the writes denote",
            "All success/failure paths of 27 (thorough 33) histories of writes with concrete offsets and sizes around the part size, holes and backward writes beyond 4 GiB."),
    "C31": ("writer", "c31", "escape and provenance analysis of every compression job found at a push_job site under write_frame; argument terms compared by random interpretation",
            "All paths of the jobs; both writer classes; chunk sizes up to 2^31; what Blosc does is an axiom (it reports the bytes it wrote, or a value <= 0)."),
    "C25": ("flush", "c25", "abstract interpretation of one V3 write-out per class of geometry, layer and trigger: symbolic shard tables, offsets and compressed sizes, every write compared by term with the shard layout law",
            "4 (thorough 7) geometries x layers of a shard x (frame completing a layer, finalizing with and without pending data) x compression; shard offsets, table contents and compressed sizes are symbolic; jobs run in submission order (C07, C08, C09 cover their concurrency)."),
    "C37": ("flush", "c37", "constant propagation of sink names through the sink creator joined with a provenance analysis of the buffers handed to each sink",
            "V2 and V3, file and S3, 4 (thorough 7) geometries x layers x triggers; assumes the file system succeeds."),
    "C38": ("tiles", "c38", "constant propagation of frame geometry through the tiling code with an interval map of the copies (chunk, position, source range) compared with the tiling law",
            "11 (thorough 15) geometries up to 70000x70000 and 2^32-pixel rows, frame numbers around layers and beyond 2^32, every pixel size; frame contents are arbitrary."),
    "C26": ("append", "c26", "inductive step over the frame-assembly state by abstract interpretation: interval map of the frame buffer and provenance of every span given to an array writer, from every (buffered bytes, appended bytes) class",
            "Frames of 1..24 bytes with every number of buffered bytes and 0..3 frames appended, frames beyond 4 GiB at the boundaries, writers that fail or throw, one and two levels; by induction over calls any split is covered for these frame sizes."),
    "C27": ("append", "c27", "ownership (typestate) analysis of every heap frame along all paths of append with multiscale on, interval analysis of every access to it; pixel contents symbolic",
            "6 (thorough 10) frame shapes x pixel types x pending levels, writers that fail or throw, and stream destruction."),
    "C36": ("append", "c36", "value-number term extraction of every downsampled pixel (machine integer and IEEE operations), decided against the exact rational mean by random interpretation biased to the ends of the type",
            "6 (thorough 11) frame shapes x all pixel types x pending levels, three levels; pixel values symbolic."),
    "C18": ("meta", "c18", "constant propagation of the array's geometry and provenance of type, codec, level and shuffle into the JSON tree of the metadata (exact model of the JSON library), compared with what the same run hands to the compressor and with the format",
            "Both writers, the geometries, layers and triggers of C25/C37, all ten pixel types, with and without compression; configuration of the level-0 writer for 3 geometries x codec x storage. Level and shuffle are symbolic."),
    "C20": ("life", "c20", "typestate of every sink (created, written, finalised, destroyed) and of the stream along all paths from creation through appends to destruction",
            "3 (thorough 5) geometries x numbers of frames around layers and shards x versions x levels x storage; and one failing sink operation at every place while appending and destroying. Frame contents symbolic; jobs run in submission order."),
    "C32": ("meta", "c32", "constant propagation of level geometry through stream creation, every level compared with the halving law; a bound on the levels made",
            "10 (thorough 40) geometries including one-pixel, odd, channel and 2^32-1-pixel dimensions x both versions."),
    "C34": ("life", "c34", "value provenance: abstract interpretation of the whole life of a stream over symbolic frame bytes, what the recorded writes leave in each file decoded by an independent reader from the stored metadata",
            "4 (thorough 8) geometries x numbers of frames around layers and shards x versions x raw/compressed x levels x storage x split calls; every byte of data symbolic; Blosc is an axiom (decompression inverts compression); jobs run in submission order (C07-C10 cover concurrency)."),
    "C39": ("meta", "c39", "provenance of the JSON text written to every metadata sink of stream creation and destruction (exact model of the JSON library), compared with the documents the formats require",
            "3 geometries x versions x levels x storage x custom metadata."),
    "C02": ("settings", "c02", "null-value propagation (abstract interpretation) from every pointer of the settings and every pointer argument of the public functions to dereferences, strings and calls",
            "Every pointer field and pair of pointer fields of the settings, in file and S3 form; every null pattern of the arguments of each public function; messages logged or filtered."),
    "C03": ("settings", "c03", "effect analysis of stream creation: file-system and network effects on every path to a refusal, settings enumerated by constant propagation and once all symbolic",
            "Some 150 kinds of refused settings x versions x storage explored to the end of creation, nothing else failing; plus all refusing paths with every scalar setting symbolic."),
    "C04": ("settings", "c04", "path-condition extraction of acceptance with every scalar setting symbolic, decided against the documented ranges by evaluation at all boundary values; constant propagation for strings and counts",
            "3 (thorough 6) shapes with all scalars symbolic, all 8-bit values, 36 edge values per 32-bit field and random combinations; 159 strings; 0..8 dimensions; creation followed to the end for 38 accepted settings."),
    "C40": ("life", "c40", "typestate of sinks and buffers along all paths in which one operation of a write-out fails, through a further append and destruction",
            "3 (thorough 5) geometries x frame counts x versions x raw/compressed; one failure per path, at every sink operation and compression."),
    "C12": ("io", "c12", "abstract interpretation of whole stream lives in which one operation fails, at every place where one can: the failure must come out at the call of the C API",
            "2 (thorough 4) geometries x versions x file/S3 x multiscale x raw/compressed; one failing file-system operation, sink creation, write, flush, compression, job submission or S3 request per path; each S3 connection operation and sink with every response."),
    "C30": ("io", "c30", "abstract interpretation collecting every path-taking effect along whole stream lives with hostile settings strings, judged against the store path; inventory of effect sites in the call graph",
            "11 store paths x 2 (thorough 4) geometries x versions x file/S3; also with one failing file-system operation."),
    "C09": ("race", "c09", "lockset analysis by abstract interpretation: every access to the fields of the thread pool, the connection pool and the stream and to mutable globals, with the locks held, by role of the thread",
            "All paths of constructor, submission, stop, destructor and worker of the thread pool; of the connection pool with 0..2 idle connections; of a stream's life against its error handler and jobs; of the logger."),
    "C01": ("exceptions", "c01", "exception-set fixpoint over the call graph of the IR with landing-pad clauses matched by type (what can leave every public function, thread entry and non-throwing function); abstract interpretation of calls and stream lives with one failing operation",
            "Whole library: every function, call and clause. Exceptions that need memory exhaustion or a contradiction inside the program (bad_alloc, logic errors) are decided only in the explored calls and lives."),
    "C10": ("locks", "c10", "lock-order graph and held-lock analysis by abstract interpretation: locks held at every lock, wait, join, job and callback; call-graph reachability of waits from job bodies",
            "All paths of the thread pool, the connection pool, the logger and all users of S3 connections; stream lives of 1 (thorough 2) geometries x versions x file/S3 x compressed x multiscale x one failing operation; deadlocks through a lock order, a held lock or a held connection only."),
    "C41": ("race", "c41", "may-happen-in-parallel analysis of job batches: abstract interpretation of whole stream lives recording every memory access of every job and of its submitter, and the files they create; conflicting pairs without common lock or atomicity",
            "2 (thorough 4) geometries x versions x file/S3 x raw/compressed, also with one failing operation; every batch of every life, every pair of its jobs."),
    "C33": ("py", "c33", "abstract interpretation of the Python module's initialiser against a stand-in for pybind11, then of every registered constructor, property and function on symbolic Python values; the C settings compared field by field, with the lifetime of every string pointed into",
            "Every class, property, keyword and enumerator registered; every field symbolic; each optional part absent or given; 0, 1, 3 and 12 dimensions. What pybind11 itself does is an axiom."),
    "C42": ("py", "c42", "abstract interpretation of the Python stream's constructor, append and destructor on symbolic arrays, with every outcome of the C API",
            "Contiguous and strided arrays of symbolic size, arrays that cannot be copied, every status; a failed creation; an object without a stream."),
}
CHECKS = {k: {"mod": v[0], "fn": v[1], "technique": v[2], "note": v[3]} for k, v in CHECKS.items()}

NOT_APPLICABLE = {
    "C35": "the code has no durability point (no fsync or rename anywhere) to anchor a crash-ordering rule on; what survives a crash is decided by the operating system",
}


def runner(p):
    c = CHECKS[p]
    return getattr(importlib.import_module("az.checks." + c["mod"]), c["fn"])
