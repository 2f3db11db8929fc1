"""C20, C34: the whole life of a stream, from its creation to its destruction."""
import re
from ..stream import *
from .. import jsonm
from ..check import path
from .geometry import BYTES
from .flush import clean
from ..terms import T
from .meta import Diff, documents_of, text_of, show, same, relative

STORE = "some/store.zarr"
S3VAL = {"s3.bucket_name": "buck", "s3.endpoint": "http://x", "s3.access_key_id": "a", "s3.secret_access_key": "b"}


def made(chk, rule, what, dims, types, version, s3=False, val=None, **kw):
    v = dict(val or {})
    if s3:
        v.update(S3VAL)
    K = Created(chk, dims, types, version=version, s3=s3, val=v, store=STORE, **kw)
    try:
        good = K.run()
    except (Unsupported, Budget) as e:
        chk.undec(rule, "%s: %s" % (what, e))
        return K, []
    if K.I.inexact():
        chk.undec(rule, "%s: creation is not followed exactly (%s)" % (what, K.I.inexact()))
        return K, []
    if not good:
        chk.undec(rule, "%s: no stream" % what)
    return K, good


def fed(K, st, stream, calls):
    """outcomes of a history of appends: [(state, kind, value, taken)] of the last call"""
    cur = [(st, "ret", C(32, 0), C(64, 0))]
    for n in calls:
        nxt = []
        for a, k, v, _ in cur:
            if k != "ret":
                continue
            nxt += K.append(a, stream, n)
        cur = nxt
    return cur


def array_of(name):
    m = re.match(r"(?:data/root/|meta/root/)?(\d+)[/.]", name)
    return m.group(1) if m and not name.endswith(".zattrs") else None


def sinks_of(st):
    r = {}
    for e in st.events():
        if e[0] == "sink_new":
            r[e.sink] = relative(e, None, STORE) or t.show(e.names[-1])
    return r


def c20(chk):
    T, CH, Z, O = 2, 1, 0, 3
    fams = [(((0, 2, 2), (2, 1, 1), (4, 2, 1), (6, 3, 2)), (T, O, Z, Z), (0, 1, 3, 4, 8)),
            (((0, 2, 2), (3, 2, 1), (3, 3, 1)), (T, Z, Z), (1, 2, 3, 4, 6)),
            (((4, 3, 1), (2, 2, 1), (4, 4, 1), (2, 2, 1)), (T, CH, Z, Z), (3, 5, 8))]
    if chk.thorough:
        fams += [(((0, 1, 3), (5, 2, 1), (3, 3, 1), (7, 4, 2)), (T, Z, Z, Z), (0, 4, 5, 6, 14, 15, 16)),
                 (((0, 3, 1), (8, 4, 1), (8, 4, 2)), (O, Z, Z), (1, 3, 4, 7))]
    for ver in (2, 3):
        for fi, (dims, types, counts) in enumerate(fams):
            for ci, n in enumerate(counts):
                for ms in (False, True):
                    s3 = bool((ci + fi + ms) % 2)
                    comp = dict(compressor=1, codec=1) if ci % 3 == 2 else None
                    finished(chk, ver, dims, types, n, ms, s3, comp)
    for ver in (2, 3):
        failing(chk, ver, ((0, 2, 1), (2, 2, 1), (2, 2, 1)), (T, Z, Z), 0)
        failing(chk, ver, ((0, 2, 1), (2, 2, 1), (2, 2, 1)), (T, Z, Z), 1)
        failing(chk, ver, ((0, 2, 2), (2, 2, 1), (4, 2, 1)), (T, Z, Z), 2)
        failing(chk, ver, ((0, 2, 1), (2, 2, 1), (2, 2, 1)), (T, Z, Z), 3, "append")
        failing(chk, ver, ((0, 1, 1), (2, 2, 1), (4, 2, 1)), (T, Z, Z), 2, "append")
        failing(chk, ver, ((0, 1, 4), (4, 1, 1), (1, 1, 1)), (T, Z, Z), 6, ms=True)
    chk.at_least("finished", 30)
    chk.at_least("data-finalised", 30)
    chk.at_least("failing", 30)


def finished(chk, ver, dims, types, n, ms, s3, comp):
    what = "version %d, %s, %d frames%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), n, ", multiscale" if ms else "", ", S3" if s3 else "", ", compressed" if comp else "")
    K, good = made(chk, "finished", what, dims, types, ver, s3, multiscale=ms, comp=comp)
    frame = dims[-1][0] * dims[-2][0] * 2
    half = n * frame // 2 + 1
    for st, stream in good:
        try:
            outs = fed(K, st, stream, [half, n * frame - half] if n else [])
            ends = [(a, o) for a, k, v, x in outs if k == "ret" for o in K.destroy(a, stream)]
        except (Unsupported, Budget) as e:
            chk.undec("finished", "%s: %s" % (what, e))
            continue
        if K.I.inexact():
            chk.undec("finished", "%s: not followed exactly (%s)" % (what, K.I.inexact()))
            continue
        for _, (end, k, _) in ends:
            judge20(chk, "finished", K, stream, end, k, what)
            if k == "ret":
                outstanding(chk, K, end, ver, dims, n, comp, what)


def outstanding(chk, K, end, ver, dims, n, comp, what):
    """the chunks (shards) all appended frames belong to are written to sinks that are finalised"""
    sinks = sinks_of(end)
    flushed, size = set(), {}
    for e in end.events():
        if e[0] not in ("sink_write", "sink_flush_") or e.sink not in sinks:
            continue
        nm = sinks[e.sink]
        if e[0] == "sink_flush_":
            flushed.add(nm)
        else:
            z = e.args[2]
            size[nm] = size.get(nm, 0) + t.cv(z) if z.op == "c" and size.get(nm, 0) is not None else None
    layer = dims[0][1]
    for a, _, _ in dims[1:-2]:
        layer *= a
    layers = -(-n // layer)
    one = 2
    for _, c, _ in dims:
        one *= c
    counts = [layers] + [-(-a // c) for a, c, _ in dims[1:]]
    want = {}
    for ix in product([range(c) for c in counts]):
        if ver == 2:
            nm = "0/" + "/".join(str(i) for i in ix)
        else:
            nm = "data/root/0/c" + "/".join(str(i // s) for i, (_, _, s) in zip(ix, dims))
        want[nm] = want.get(nm, 0) + one
    have = {nm: nm for nm in sinks.values()}
    for nm, z in sorted(want.items()):
        if not any(k == nm or k.endswith("/" + nm) for k in have):
            chk.bad("data-finalised", site(K.p.fns["ZarrStream_destroy"]), "%s: %s, to which appended frames belong, is never created" % (what, nm), key="absent", path=path(end))
            return
        k = next(k for k in have if k == nm or k.endswith("/" + nm))
        if k not in size:
            chk.bad("data-finalised", site(K.p.fns["ZarrStream_destroy"]), "%s: nothing is written to %s, to which appended frames belong" % (what, nm), key="empty", path=path(end))
            return
        if k not in flushed:
            chk.bad("data-finalised", site(K.p.fns["ZarrStream_destroy"]), "%s: %s, to which appended frames belong, is not finalised" % (what, nm), key="open", path=path(end))
            return
        if not comp and size[k] is not None and size[k] < z:
            chk.bad("data-finalised", site(K.p.fns["ZarrStream_destroy"]), "%s: %d bytes are written to %s, the chunks the appended frames belong to have %d" % (what, size[k], nm, z), key="short", path=path(end))
            return
    chk.ok("data-finalised", "%s: %d" % (what, len(want)))


def failing(chk, ver, dims, types, n, when="destroy", ms=False):
    """the same with one failing operation while the stream is written to or destroyed"""
    what = "version %d, %s, %d frames, a failure at %s" % (ver, "x".join("%d/%d/%d" % d for d in dims), n, when + (", multiscale" if ms else ""))
    K, good = made(chk, "failing", what, dims, types, ver, multiscale=ms)
    frame = dims[-1][0] * dims[-2][0] * 2
    for st, stream in good:
        try:
            K.J.write_fails, K.J.fail_budget = when == "append", 1
            outs = fed(K, st, stream, [n * frame] if n else [])
            K.J.write_fails = when == "destroy"
            ends = [o for a, k, v, x in outs if k == "ret" for o in K.destroy(a, stream)]
        except (Unsupported, Budget) as e:
            chk.undec("failing", "%s: %s" % (what, e))
            continue
        if K.I.inexact():
            chk.undec("failing", "%s: not followed exactly (%s)" % (what, K.I.inexact()))
            continue
        for end, k, _ in ends:
            judge20(chk, "failing", K, stream, end, k, what)


def judge20(chk, rule, K, stream, end, kind, what):
    f = K.p.fns["ZarrStream_destroy"]
    if kind == "exc":
        chk.bad("completes", site(f), "%s: destroying the stream throws" % what, key="exc", path=path(end))
        return
    sinks = sinks_of(end)
    flushed, gone, failed = {}, {}, set()
    stopped, freed = False, 0
    bad = None
    for e in end.events():
        if e[0] in ("sink_write", "sink_flush_", "sinkdtor") and e.sink in sinks:
            nm = sinks[e.sink]
            if e.sink in gone:
                bad = bad or ("after-end", e.site, "%s is used after it was destroyed" % nm)
            if e[0] == "sinkdtor":
                gone[e.sink] = 1
                continue
            if e.r != 1:
                failed.add(array_of(nm))
            if e[0] == "sink_flush_":
                flushed[e.sink] = flushed.get(e.sink, 0) + 1
            elif e.sink in flushed:
                bad = bad or ("after-end", e.site, "%s is written after it was finalised" % nm)
        elif e[0] == "mapdrop":
            if e.v in sinks:
                gone[e.v] = 1
        elif e[0] == "await_stop":
            stopped = True
        elif e[0] in ("delete",) and e.p is stream:
            freed += 1
            if not stopped:
                bad = bad or ("stops-workers", e.site, "the stream is freed before its workers are stopped")
    if bad is None:
        for x, nm in sorted(sinks.items(), key=lambda y: y[1]):
            n = flushed.get(x, 0)
            a = array_of(nm)
            if n > 1:
                bad = ("once", site(f), "%s is finalised %d times" % (nm, n))
            elif n == 0 and not (a is not None and a in failed):
                bad = ("all-finalised", site(f), "%s is not finalised" % nm)
            elif x not in gone and rule == "finished":
                bad = ("all-finalised", site(f), "%s is never destroyed" % nm)
            if bad:
                break
    if bad is None and freed != 1:
        bad = ("frees-stream", site(f), "the stream is freed %d times" % freed)
    if bad is None and not stopped:
        bad = ("stops-workers", site(f), "the worker threads are not stopped")
    if bad:
        chk.bad(bad[0], bad[1], "%s: %s" % (what, bad[2]), key=bad[0], path=path(end))
        return
    chk.ok(rule, "%s: %d sinks" % (what, len(sinks)))


# ---- C34 ----------------------------------------------------------------------------------------
NP2 = {"u1": 0, "u2": 1, "u4": 2, "u8": 3, "i1": 4, "i2": 5, "i4": 6, "i8": 7, "f4": 8, "f8": 9}
NP3 = {"uint8": 0, "uint16": 1, "uint32": 2, "uint64": 3, "int8": 4, "int16": 5, "int32": 6, "int64": 7, "float32": 8, "float64": 9}


class Vagueness(Exception):
    pass


def store_of(st):
    """{name: {offset: byte term} or tree} as left behind by the recorded writes"""
    sinks, files = {}, {}
    for e in st.events():
        if e[0] == "sink_new":
            n = relative(e, None, STORE)
            if n is None:
                raise Diff("a file %s is created outside the data set" % show(e.names[-1]))
            sinks[e.sink] = n
            files[n] = {}
        elif e[0] == "stored" and e.sink in sinks:
            n = sinks[e.sink]
            if e.data is None:
                d = e.p
                if d.op == "ptr" and d.a[0][0] == "STR" and jsonm.dumped(d.a[0][1]) is not None:
                    files[n] = jsonm.dumped(d.a[0][1])
                    continue
                raise Vagueness("%s: %s bytes" % (n, t.show(e.n)[:60]))
            if e.off.op != "c":
                raise Vagueness("%s: offset %s" % (n, t.show(e.off)[:60]))
            if not isinstance(files[n], dict):
                raise Diff("%s, a JSON document, is overwritten with data" % n)
            for i, x in enumerate(e.data):
                files[n][t.cv(e.off) + i] = x
    return files


def reader(files, level, version, blobs):
    """an array as a Zarr reader sees it: (dtype number, shape, chunk shape, function from chunk index to list of bytes or None)"""
    mn = "%d/.zarray" % level if version == 2 else "meta/root/%d.array.json" % level
    m = files.get(mn)
    if m is None or isinstance(m, dict):
        raise Diff("there is no %s" % mn)
    m = jsonm.py(m)
    need = lambda d, *ks: d if not ks else need(d[ks[0]], *ks[1:])
    try:
        if version == 2:
            shape, chunks, dt, comp, sep = m["shape"], m["chunks"], NP2[m["dtype"][1:]], m["compressor"], m["dimension_separator"]
            per = None
        else:
            shape, chunks, dt, comp, sep = m["shape"], m["chunk_grid"]["chunk_shape"], NP3[m["data_type"]], m["compressor"], m["chunk_grid"]["separator"]
            per = m["storage_transformers"][0]["configuration"]["chunks_per_shard"]
    except (KeyError, TypeError, IndexError) as x:
        raise Diff("%s lacks %s" % (mn, x))
    if not all(isinstance(v, int) for v in shape + chunks + (per or [])):
        raise Vagueness("shape %s" % shape)
    size = BYTES[dt]
    for c in chunks:
        size *= c

    def decode(raw, what):
        if comp is None:
            if len(raw) != size:
                raise Diff("%s has %d bytes, an uncompressed chunk has %d" % (what, len(raw), size))
            return raw
        ids = {x.a[1] if x.op == "ap" and x.a[0] == "cbyte" else None for x in raw}
        if len(ids) != 1 or None in ids:
            raise Diff("%s does not hold one compressed chunk" % what)
        n = ids.pop()
        content, k = blobs[n]
        if [x.a[2] for x in raw] != list(range(k)):
            raise Diff("%s holds %d bytes of a compressed chunk of %d" % (what, len(raw), k))
        if content is None:
            raise Vagueness("compression of %s" % what)
        if len(content) != size:
            raise Diff("%s decompresses to %d bytes, a chunk has %d" % (what, len(content), size))
        return list(content)

    def contiguous(d, a, b, what):
        miss = [i for i in range(a, b) if i not in d]
        if miss:
            raise Diff("%s is not written at byte %d" % (what, miss[0]))
        return [d[i] for i in range(a, b)]

    def chunk(ix):
        if version == 2:
            n = sep.join([str(level)] + [str(i) for i in ix]) if sep == "/" else "%d/%s" % (level, sep.join(str(i) for i in ix))
            f = files.get(n)
            if f is None:
                return None
            return decode(contiguous(f, 0, max(f) + 1 if f else 0, n), n)
        sh = [i // p for i, p in zip(ix, per)]
        n = "data/root/%d/c%s" % (level, sep.join(str(i) for i in sh))
        f = files.get(n)
        if f is None:
            return None
        k = 0
        tot = 1
        for i, p in zip(ix, per):
            k = k * p + i % p
            tot *= p
        end = max(f) + 1 if f else 0
        if end < 16 * tot:
            raise Diff("%s has %d bytes, its index alone has %d" % (n, end, 16 * tot))

        def word(at):
            bs = contiguous(f, at, at + 8, n)
            v = 0
            for j, x in enumerate(bs):
                if x.op != "c":
                    raise Diff("the index of %s holds chunk data" % n) if x.op == "ap" else Vagueness("index of %s" % n)
                v |= t.cv(x) << 8 * j
            return v
        a, b = word(end - 16 * tot + 16 * k), word(end - 16 * tot + 16 * k + 8)
        if a == b == (1 << 64) - 1:
            return None
        if a + b > end - 16 * tot:
            raise Diff("chunk %s of %s is said to be at %d..%d, the index begins at %d" % (list(ix), n, a, a + b, end - 16 * tot))
        return decode(contiguous(f, a, a + b, "%s chunk %s" % (n, list(ix))), "chunk %s in %s" % (list(ix), n))
    return dt, shape, chunks, chunk


def c34(chk):
    T, CH, Z, O = 2, 1, 0, 3
    fams = [(((0, 2, 2), (2, 1, 2), (4, 2, 1), (6, 4, 2)), (T, O, Z, Z), (1, 3, 4, 8, 9)),
            (((0, 2, 2), (3, 2, 1), (5, 3, 2)), (T, Z, Z), (1, 2, 3, 4, 7)),
            (((4, 3, 2), (3, 2, 1), (2, 2, 1), (4, 4, 1), (3, 2, 2)), (T, CH, Z, Z, Z), (5, 7, 18, 24)),
            (((0, 5, 1), (4, 4, 1), (4, 1, 4)), (O, Z, Z), (4, 5, 6, 11))]
    if chk.thorough:
        fams += [(((0, 1, 3), (5, 2, 2), (3, 3, 1), (7, 4, 2)), (T, Z, Z, Z), (4, 5, 6, 14, 15, 16, 31)),
                 (((0, 3, 2), (2, 1, 1), (3, 2, 2), (9, 5, 2), (8, 3, 1)), (T, CH, O, Z, Z), (1, 5, 6, 17, 18, 19, 37)),
                 (((0, 1, 1), (1, 1, 1), (1, 1, 1)), (T, Z, Z), (1, 2, 5)),
                 (((7, 2, 3), (2, 2, 1), (3, 4, 1)), (T, Z, Z), (3, 6, 7))]
    for fi, (dims, types, counts) in enumerate(fams):
        for ver in (2, 3):
            for ci, n in enumerate(counts):
                for comp in (None, dict(compressor=1, codec=1 + (ci + fi) % 2)):
                    dt = (fi * 7 + ci * 3 + ver * 5 + (comp is not None)) % 10
                    if chk.thorough:
                        dt = chk.rng.randrange(10)
                    if BYTES[dt] == 8 and n > 9:
                        dt = 1
                    readback(chk, ver, dims, types, n, dt, comp, s3=bool((ci + fi + ver) % 3 == 0), ms=bool((ci + fi + (comp is None)) % 2))
    chk.at_least("reads-back", 30)


def readback(chk, ver, dims, types, n, dt, comp, s3, ms):
    what = "version %d, %s, %d frames of %d-byte pixels%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), n, BYTES[dt], ", multiscale" if ms else "", ", S3" if s3 else "", ", compressed" if comp else "")
    K, good = made(chk, "reads-back", what, dims, types, ver, s3, multiscale=ms, comp=comp, dtype=dt, content=True)
    frame = dims[-1][0] * dims[-2][0] * BYTES[dt]
    tot = n * frame
    cut = sorted({0, min(tot, max(1, frame // 2 - 1)), min(tot, 2 * frame + 1), tot})
    calls = [b - a for a, b in zip(cut, cut[1:])]
    for st, stream in good:
        data = heap(st, "data")
        want = [sym("byte%d" % i, 8) for i in range(tot)]
        for i, x in enumerate(want):
            put(st, data, i, x, 1)
        try:
            cur = [st]
            for i, c in enumerate(calls):
                # every call hands over the next part of the same data
                nxt = []
                for a in cur:
                    f = K.p.fns["ZarrStream_append"]
                    K._settle()
                    ob = heap(a, "taken%d" % i)
                    for o, k, v in K.I.run(a, f, [stream, ptr(data, cut[i]), C(64, c), ptr(ob, 0)]):
                        if k == "dead":
                            continue
                        if k != "ret" or v.op != "c" or t.cv(v):
                            chk.bad("accepted", site(f), "%s: appending %d bytes fails although nothing went wrong" % (what, c), key="accept", path=path(o))
                            return
                        nxt.append(o)
                cur = nxt
            ends = [o for a in cur for o in K.destroy(a, stream)]
        except (Unsupported, Budget) as e:
            chk.undec("reads-back", "%s: %s" % (what, e))
            continue
        if K.I.inexact():
            chk.undec("reads-back", "%s: not followed exactly (%s)" % (what, K.I.inexact()))
            continue
        for end, k, _ in ends:
            if k != "ret":
                continue
            levels = len(K.writers(st, stream))
            try:
                m = compare(K, end, ver, dims, dt, n, want, levels)
            except Vagueness as x:
                chk.undec("reads-back", "%s: %s" % (what, x))
                continue
            except Diff as x:
                chk.bad("reads-back", site(K.f), "%s: %s" % (what, x), key=re.sub(r"\d+", "", str(x))[:50], path=path(end))
                continue
            chk.ok("reads-back", "%s: %d pixels, %d levels" % (what, m, levels))


def grid(shape, chunks):
    r = [()]
    for s, c in zip(shape, chunks):
        r = [x + (i,) for x in r for i in range(-(-s // c))]
    return r


def compare(K, end, ver, dims, dt, n, want, levels):
    files = store_of(end)
    blobs = {e.id: (e.content, t.cv(e.r) if e.r.op == "c" else None) for e in end.events() if e[0] == "blosc"}
    px = BYTES[dt]
    (hh, _, _), (ww, _, _) = dims[-2:]
    pixels = 0
    for lv in range(levels):
        try:
            gdt, shape, chunks, chunk = reader(files, lv, ver, blobs)
        except Diff:
            if lv and not any(x.startswith(("%d/" % lv, "data/root/%d/" % lv)) for x in files):
                continue          # too few frames for this level
            raise
        if gdt != dt:
            raise Diff("level %d reads as pixels of type %d" % (lv, gdt))
        if lv == 0:
            lead = [a for a, _, _ in dims[1:-2]]
            rows = 1
            for a in lead:
                rows *= a
            exp = [-(-n // rows)] + lead + [hh, ww]
            if shape != exp:
                raise Diff("the array reads with shape %s, %d frames were appended to %s" % (shape, n, exp))
        for ix in grid(shape, chunks):
            d = chunk(ix)
            if lv:
                if d is None:
                    raise Diff("chunk %s of level %d is not stored" % (list(ix), lv))
                reduced(d, ix, lv, shape, chunks, n, hh, ww, px)
                continue
            # every pixel of the array in this chunk
            inner = [range(min(c, s - i * c)) for i, c, s in zip(ix, chunks, shape)]
            for pos in product(inner):
                g = [i * c + q for i, c, q in zip(ix, chunks, pos)]
                fr = 0
                for v, s in zip(g[:-2], [0] + shape[1:-2]):
                    fr = fr * s + v
                o = 0
                for q, c in zip(pos, chunks):
                    o = o * c + q
                for b in range(px):
                    x = d[o * px + b] if d is not None else C(8, 0)
                    if fr < n:
                        w = want[(fr * hh * ww + g[-2] * ww + g[-1]) * px + b]
                        if x is not w:
                            if x.op not in ("c",) and not leaf(x):
                                raise Vagueness("pixel %s is %s" % (g, t.show(x)[:60]))
                            raise Diff("pixel %s reads back as %s, appended was byte %d of the data" % (g, "byte %s" % t.show(x)[:60], (fr * hh * ww + g[-2] * ww + g[-1]) * px + b))
                        pixels += 1
                    elif not (x.op == "c" and t.cv(x) == 0):
                        if x.op != "c" and not leaf(x):
                            raise Vagueness("pixel %s is %s" % (g, t.show(x)[:60]))
                        raise Diff("pixel %s, which was not appended, reads as %s instead of the fill value" % (g, t.show(x)[:60]))
    return pixels // px


def leaves(x, seen, out):
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, (T, tuple)):
                leaves(y, seen, out)
        return
    if x.n in seen:
        return
    seen.add(x.n)
    if x.op == "sym":
        out.add(x)
    leaves(x.a, seen, out)


def reduced(d, ix, lv, shape, chunks, n, hh, ww, px):
    """a pixel of level lv is made from its block of 2^lv frames, rows and columns"""
    k = 1 << lv
    inner = [range(min(c, s - i * c)) for i, c, s in zip(ix, chunks, shape)]
    num = lambda f, y, x: (f * hh * ww + y * ww + x) * px
    for pos in product(inner):
        g = [i * c + q for i, c, q in zip(ix, chunks, pos)]
        fr = 0
        for v, s in zip(g[:-2], [0] + shape[1:-2]):
            fr = fr * s + v
        o = 0
        for q, c in zip(pos, chunks):
            o = o * c + q
        got = set()
        seen = set()
        for b in range(px):
            leaves(d[o * px + b], seen, got)
        want = set()
        if fr < n // k:
            rows, cols = span(g[-2], lv, hh), span(g[-1], lv, ww)
            for f in range(fr * k, fr * k + k):
                for y in rows:
                    for x in cols:
                        w = num(f, y, x)
                        want.update("byte%d" % i for i in range(w, w + px))
        names = {x.a[0] for x in got}
        if not all(isinstance(x, str) and x.startswith("byte") for x in names):
            raise Vagueness("pixel %s of level %d" % (g, lv))
        if names != want:
            raise Diff("pixel %s of level %d is made from bytes %s.., it covers %s.." % (g, lv, sorted(names, key=lambda z: int(z[4:]))[:4], sorted(want, key=lambda z: int(z[4:]))[:4]))


def span(i, lv, n):
    """positions that end up in position i after halving lv times (an odd end is repeated)"""
    r = {i}
    sizes = [n]
    for _ in range(lv):
        sizes.append((sizes[-1] + 1) // 2)
    for k in range(lv, 0, -1):
        r = {min(q, sizes[k - 1] - 1) for v in r for q in (2 * v, 2 * v + 1)}
    return r


def leaf(x):
    return x.op in ("sym", "c", "init", "ld") or x.op == "ap" and x.a[0] == "cbyte"


def product(rs):
    r = [()]
    for a in rs:
        r = [x + (i,) for x in r for i in a]
    return r


# ---- C40 ----------------------------------------------------------------------------------------
def c40(chk):
    T, Z = 2, 0
    fams = [(((0, 2, 1), (2, 2, 1), (2, 2, 1)), (2, 3)), (((0, 1, 1), (2, 2, 1), (4, 2, 1)), (1, 2)), (((0, 1, 2), (2, 1, 2), (3, 3, 1)), (1, 2))]
    if chk.thorough:
        fams += [(((0, 2, 2), (2, 1, 1), (2, 2, 1), (2, 1, 1)), (4, 8)), (((0, 1, 3), (3, 1, 2), (2, 2, 1)), (2, 3))]
    for ver in (2, 3):
        for dims, counts in fams:
            for n in counts:
                for comp in (None, dict(compressor=1, codec=1)):
                    for again in (True, False):
                        left_alone(chk, ver, dims, (T,) + (Z,) * (len(dims) - 1), n, comp, again)
    chk.at_least("left-alone", 30)
    chk.at_least("reported", 30)


def left_alone(chk, ver, dims, types, n, comp, again):
    what = "version %d, %s, %d frames%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), n, ", compressed" if comp else "")
    K, good = made(chk, "left-alone", what, dims, types, ver, comp=comp)
    K.blosc_fails = True
    f = K.p.fns["ZarrStream_append"]
    frame = dims[-1][0] * dims[-2][0] * 2
    for st, stream in good:
        K.J.write_fails, K.J.fail_budget = True, 1
        try:
            outs = fed(K, st, stream, [n * frame])
            cur = []
            for a, k, v, _ in outs:
                if not a.cnt.get("sinkfail"):
                    continue
                if k != "ret":
                    chk.bad("reported", site(f), "%s: a failure leaves append as an exception" % what, key="exc", path=path(a))
                    continue
                ok0 = allow(a, K.I, cmp("eq", v, C(v.bits, 0)))
                if ok0 is not None:
                    chk.bad("reported", site(f), "%s: append reports success although an operation failed" % what, key="success", path=path(ok0))
                    continue
                chk.ok("reported")
                cur.append((a, len(a.events())))
            if again:
                nxt = []
                for a, m in cur:
                    for b, k, v, _ in K.append(a, stream, frame):
                        if k == "ret" and allow(b, K.I, cmp("eq", v, C(v.bits, 0))) is not None:
                            chk.bad("refused", site(f), "%s: a frame is accepted for an array whose writing has failed" % what, key="accepted", path=path(b))
                            continue
                        nxt.append((b, m))
                        chk.ok("refused")
                cur = nxt
            ends = [(o, m) for a, m in cur for o in K.destroy(a, stream)]
        except (Unsupported, Budget) as e:
            chk.undec("left-alone", "%s: %s" % (what, e))
            continue
        if K.I.inexact():
            chk.undec("left-alone", "%s: not followed exactly (%s)" % (what, K.I.inexact()))
            continue
        for (end, k, _), m in ends:
            ev = end.events()
            sinks = sinks_of(end)
            bad = None
            for i, e in enumerate(ev):
                if e[0] in ("nullderef", "nullcall"):
                    bad = ("no-null", e.site, "a null pointer is used (%s)" % e.d.get("what", ""))
                elif e[0] in ("sink_write", "sink_flush_") and t.isc(e.sink, 0):
                    bad = ("no-null", e.site, "a sink that was finalised before is used (null pointer)")
                elif i >= m:
                    nm = sinks.get(e.d.get("sink")) if e[0] in ("sink_new", "sink_write", "sink_flush_") else None
                    if nm is not None and array_of(nm) is not None:
                        bad = ("left-alone", e.site, "%s is %s after the array's writing had failed" % (nm, {"sink_new": "created", "sink_write": "written", "sink_flush_": "finalised"}[e[0]]))
                    elif e[0] in ("blosc", "blosc_fails"):
                        bad = ("left-alone", e.site, "chunks are compressed again after the array's writing had failed")
                if bad:
                    break
            if bad:
                chk.bad(bad[0], bad[1], "%s: %s" % (what, bad[2]), key=bad[0], path=path(end))
                continue
            chk.ok("left-alone", what)
