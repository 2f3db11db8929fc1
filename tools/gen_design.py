"""Writes DESIGN.md: prose from this file, the per-property part from the registry,
properties.jsonl, known_findings.json and the last evidence."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from az.registry import CHECKS, NOT_APPLICABLE  # noqa: E402

HEAD = """# Static analysis of acquire-zarr: design

(Generated by `tools/gen_design.py`; edit there.)

## Approach

Every check works on the *current* source of /repo, never on a copy and never by running it:

1. each translation unit under `src/streaming` and `src/logger` is compiled by clang to LLVM IR
   (`-O0 -g`, exceptions on, whole-program vtables). The absent third-party header `miniocpp`
   is replaced by a declarations-only stub (`stubs/decl`), so the files which the sandbox cannot
   build (the array writers, the S3 code, the stream, the C API) are analysed all the same. The
   Python module is compiled on its own against a stand-in for pybind11 (`stubs/py`) whose
   registrations and conversions are calls of external functions the analysis interprets;
2. the modules are linked and `azx` (LLVM 18, C++) exports the resolved program as JSON: typed
   instructions, resolved callees, vtables, type tests (for devirtualisation), exception edges with
   their landing-pad clauses, loops, record layouts, enumerations, source locations;
3. Python analyses in `az/` run on that program. The workhorse is an abstract interpreter
   (`az/interp.py`): a forward, interprocedural dataflow analysis that propagates *value-number
   terms* and a finite *property state* (locks held, connection typestate, sink typestate, ...),
   keeps property states that differ apart (ESP-style property simulation / trace partitioning),
   merges those that agree, and widens at loop heads. Library types (strings, vectors, maps,
   functions, mutexes, streams, paths, the JSON library, the S3 client, Blosc) have abstract
   transformers (`az/models.py`, `az/jsonm.py`, `az/minio.py`); everything in the repository is
   analysed from its body wherever it is called, so extracting a helper, renaming a private
   member, reordering statements or rewriting a loop leaves the result unchanged.
   No solver is involved and no code of the repository is executed.
4. Whole-program questions use their own analyses: `az/exc.py` (which exceptions can leave which
   function: a fixpoint over the call graph with handler types), `az/cg.py` (call graph with
   virtual and function-object targets), `az/race.py` (locksets, parallel batches).
5. Arithmetic laws (C21-C24, C36, parts of C04, C13, C18, C26) are decided on the closed-form term
   each function computes, compared with the reference law by *random interpretation*
   (Gulwani & Necula): term identity testing over the abstract domain, with the machine's bit
   widths in the terms. Where a law is about *layout* (C18, C25, C34, C37-C39), geometry is
   constant-propagated over a family of concrete geometries while data, offsets, compressed sizes
   and outcomes stay symbolic.

A check reports a specific construct (function, file:line, path summary), writes it to
`evidence/replay/<id>.json`, and prints `VIOLATION property=<id> replay=<path>`. Three outcomes
exist besides: *holds*; *undecided* (a budget, an unknown library function, a widened loop or a
vague model stood between the analysis and the answer; listed in the evidence, never reported,
zero on the current tree); and an error exit when an anchor vanished (no such function or call
site at all), so that a check cannot become vacuous silently. Every check has a deadline of 720 s
(quick) inside the 900 s it is given; what is not finished then is undecided.

### Whole-stream lives

Many properties are decided on *lives* of a stream (`az/stream.py`): `ZarrStream_create` with
settings of one geometry, some `ZarrStream_append` calls, `ZarrStream_destroy`, interpreted
abstractly from the public entry points down to the operations on files, connections, locks and
jobs, with every choice the environment has (an operation may fail or throw) a separate path.
Frame contents, compressed sizes and so on are symbols. A check is a judge of the events on each
path. Since only public names (the C API, the standard library's, minio's and Blosc's) are
matched, edits behind them do not disturb a judge.

"""

# what the check specifies / against which oracle
ORACLE = {
 "C01": "no type but bad_alloc/logic errors in the exception set of any extern \"C\" function, of any thread entry, destructor or noexcept function; and no `terminate` event on any path of the lives. Oracle: the C++ rules for landing pads (type match by RTTI, catch-all, noexcept).",
 "C02": "no dereference, string construction or library call on a value whose term is the null of an argument. Oracle: the null lattice.",
 "C03": "on every path to a null stream because of the settings, no mutating file-system effect and no S3 request. Oracle: the empty effect set.",
 "C04": "accepted <=> the documented predicate, written in the check from include/ and the README. Oracle: that predicate evaluated at boundary values.",
 "C05": "every accepted job leaves the queue exactly once to be run; every wait is re-tested and woken; stop joins all threads. Shared state is havocked at every acquisition, so all interleavings are covered.",
 "C06": "a job that fails (returns false or throws) leads to exactly one error-handler call with a non-empty message, no exception leaves a worker, later appends report it.",
 "C07": "submissions == latch count on each path; every path of a job (refused, failed, thrown) counts down exactly once.",
 "C08": "no access through a submitter's pointer after the job's count_down. Oracle: event order.",
 "C09": "every pair of accesses to a shared place from different roles has a common lock, is atomic or ordered by start/join.",
 "C10": "acyclic lock order; no lock or pool connection held across a job, handler, foreign callback or wait except the one released by it; no wait inside a job for jobs.",
 "C11": "FileSink writes exactly (data, size) at offset with 64-bit positions and returns false when the stream failed.",
 "C12": "every path with a failed operation returns an error from the API call (or logs in destroy). Oracle: the injected failure's identity.",
 "C13": "pwritev gets every buffer, the 64-bit offset, and a result other than the total is a failure.",
 "C14": "connections given back exactly once on every path, none used afterwards.",
 "C15": "complete only after all parts succeeded, with contiguous part numbers, their own tags and the upload's id.",
 "C16": "the object denoted by parts == the byte stream denoted by the writes; all stores inside the buffer.",
 "C17": "tables total and mutually inverse where they must be; downsampling and type sizes agree with the enumerators.",
 "C18": ".zarray / zarr.json of each level equal the format's fields computed from the settings, and the codec parameters equal the ones the same run gave to Blosc.",
 "C19": "between a flush and the first tile every chunk buffer is sized and zeroed on every path.",
 "C20": "at the end of destroy: every sink finalised and destroyed, no buffer, job or stream left, metadata written, also with one failure.",
 "C21": "mixed-radix law of chunk index, lattice index and in-chunk offset.",
 "C22": "ceil-division counting law and product sizes in 64 bits.",
 "C23": "shard index / internal index law; the pair is injective.",
 "C24": "flush iff frames written is a multiple of the layer, rollover iff of the shard (or finalizing).",
 "C25": "bytes of a shard at [offset, offset+n) of its table are the chunk's; table, checksum and empty slots per the sharding codec.",
 "C26": "the concatenation of spans given to the writer is the concatenation of appended bytes cut into frames.",
 "C27": "no access outside a heap frame, one delete of the right kind on all paths.",
 "C28": "message printed iff its level >= configured level, to the right stream.",
 "C29": "one common mutex over all writes of a line.",
 "C30": "every path handed to a mutating file-system operation is the store path or below it, with no `..` climbing out.",
 "C31": "chunk stored == (buffer, bytes) that Blosc returned, with the configured codec, level, shuffle, type size; failure reported.",
 "C32": "level k+1 == halving of level k for spatial dimensions; number of levels bounded; last level where the law says.",
 "C33": "class, keyword, property and enumerator tables of the module against the documented names; `ZarrStream(settings)` followed to `ZarrStream_create`, whose argument is compared field by field. Oracle: names of the C header and of acquire_zarr.pyi.",
 "C34": "an independent reader (written from the Zarr V2/V3 specifications) decodes the recorded writes by the recorded metadata; result equals the appended symbols, fill elsewhere.",
 "C36": "exact rational mean of the covered pixels, rounded as documented, for every type.",
 "C37": "chunk (i,j,..) goes to the path the format gives it, every path once.",
 "C38": "the copies of one frame partition it into the tiles of the tiling law.",
 "C39": "group metadata documents equal the required JSON trees; each metadata sink receives one whole JSON text.",
 "C40": "after a failed write-out no sink write, no second compression, no new sink; append and destroy report/return.",
 "C42": "bytes given to `ZarrStream_append` are (data, itemsize*size) of an array in C order; an exception iff a failure; one destroy per created stream.",
 "C41": "no two jobs of a batch touch the same memory or file with a write, without a common lock or atomic.",
}

TAIL = """
## What the checks found

`known_findings.json` lists no open finding. %(nfix)d genuine defects were repaired in /repo by
`fix:` commits (one defect each, unguarded, existing tests unedited and passing):

%(fixed)s

There are no hooks: nothing had to be added to /repo for the analyses.

## Planted bugs

`seeded/` holds bugs which compile, pass the stable tests and have a demonstration. All of them are
caught by the check of the property they break:

| bug | property | what it needs to show |
|---|---|---|
%(seeds)s

Besides these, several hundred smaller mutants (dropped, reordered or weakened statements in
append, flush, I/O, locks, metadata, settings, exception handling, races) were run against the
checks in scratch copies while they were built; a mutant that broke a property and was missed led
to a stronger rule, one that broke nothing (and was reported) to a corrected one.

## Staying quiet

* *Refactored trees*: three rewrites of the code base which keep the behaviour (every loop,
  helper, container and control structure of the array writers, sinks and sink creator; of the
  stream and C API; of the thread pool, S3 code, file sinks, dimensions and common code) pass the
  upstream tests (built here against fakes of minio and json outside /repo), and all checks are
  quiet on all three. Every alarm they raised was corrected in the models or in how a check finds
  its anchor (by signature, type or public name instead of private name).
* *Model conformance*: 186 small C++20 idioms (containers, ranges, maps, strings, optional,
  variant, function objects, smart pointers, bit casts, streams, locks, threads, ...) are
  interpreted by the analysis and compared with what the compiled program prints; 175 give the
  exact value, the others are unknown (never wrong) values.
* *False alarms corrected on the unchanged tree*: C32 (levels stop when a dimension is one chunk
  long: the property was stated too strongly at first), C17 (index types wider than an enumeration),
  C10 (a lock held across a callback that is the lock's own predicate), C40 (a failed *metadata*
  write does not forbid later data writes), C03 (removing the old store after acceptance is not an
  effect of a refusal), C15 (aborted uploads need not be completed), C12 (a failed removal of a
  path that does not exist is no failure). None of them is listed as a finding.

## Limits

* The stub of minio declares interfaces only, and json is not followed into; their behaviour is axioms in `az/minio.py`
  and `az/jsonm.py` (any S3 request may fail, throw or succeed; JSON trees are exact). What
  `ofstream`, `pwritev`, Blosc, CRC and the OS do with the bytes they are given is an axiom too.
* Random interpretation can miss a difference of two terms with small probability per run; the
  points tried contain all boundary values of every width in the terms.
* Checks on lives are exhaustive over paths, data and failures for each geometry of a family, not
  over all geometries; the arithmetic that depends on geometry is decided for all sizes by
  C21-C24 and C38.
* Interleavings are not enumerated: C05 havocs shared state, C07-C10 and C41 show that jobs neither
  race nor interfere, and the checks on lives then run jobs in submission order.
* Undecided results are quiet by construction. A change that drives a check into them (an
  unmodelled library function on the deciding path) would be missed; the evidence shows it
  (`coverage.undecided`, `coverage.opaque_calls`), and the current tree has none.
* `VectorizedFileWriter` is not reachable from the C API; C13 decides it as a component.
"""


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    out = [HEAD, "## Properties\n\nStatements are in `properties.jsonl`. Per property: what is specified and its oracle; the\nmethod; the bounds; the cost; and why tests cannot settle it.\n"]
    for p in props:
        i = p["id"]
        out.append("\n### %s %s\n\n" % (i, p["title"]))
        if i not in CHECKS:
            out.append("Not applicable: %s.\n" % NOT_APPLICABLE[i])
            continue
        c = CHECKS[i]
        out.append("* specified: %s\n* method: %s (`az/checks/%s.py`, `%s`)\n* bounds: %s\n" % (
            ORACLE[i], c["technique"], c["mod"], c["fn"], c["note"]))
        try:
            e = json.load(open(os.path.join(ROOT, "evidence", i + ".json")))
            s = e.get("wall_s") or e.get("seconds") or e.get("coverage", {}).get("seconds")
            if s:
                out.append("* cost (quick): %d s\n" % max(1, round(float(s) / 5) * 5) if s > 5 else "* cost (quick): under 5 s\n")
        except (OSError, ValueError):
            pass
        out.append("* beyond tests: %s\n" % p["why_tests_cant"])
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    fixed = "\n".join("* " + re.sub(r"^fixed: property=", "", x if isinstance(x, str) else x["line"]) for x in k["fixed"])
    seeds = []
    d = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, "meta.json")))
        seeds.append("| %s | %s | %s |" % (s, m["property"], str(m["needs"]).replace("\n", " ").replace("|", "/")))
    out.append(TAIL % {"nfix": len(k["fixed"]), "fixed": fixed, "seeds": "\n".join(seeds)})
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))


if __name__ == "__main__":
    main()
