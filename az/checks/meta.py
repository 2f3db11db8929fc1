"""C18, C32, C39: the JSON documents of a data set, and the levels of a pyramid."""
import re
from ..flush import *
from ..stream import Created, Settings
from .. import jsonm
from ..check import path
from .geometry import BYTES
from .flush import cases, clean

V2D = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8"]
V3D = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"]
BLOSC = "https://purl.org/zarr/spec/codec/blosc/1.0"
SHARD = "https://purl.org/zarr/spec/storage_transformers/sharding/1.0"
CORE = "https://purl.org/zarr/spec/protocol/core/3.0"


class Diff(Exception):
    pass


def documents(st, ev):
    """[(event, tree or None)] of the writes whose data are not a chunk or an index: JSON texts and others"""
    out = []
    for e in st.events():
        if e[0] != ev:
            continue
        d, n, off = (e.data, e.n, e.off) if ev == "out" else (e.args[1], e.args[2], e.args[0])
        if d.op == "ptr" and d.a[0][0] == "STR":
            out.append((e, d.a[0][1], t.split(d)[1], n, off))
    return out


def text_of(d):
    """(tree, error) of one write of a string: the whole text, from its start, at the start of the file"""
    e, s, at, n, off = d
    tr = jsonm.dumped(s)
    if off.op != "c" or t.cv(off) != 0:
        return tr, "it is written at offset %s of its file" % t.show(off)
    if at.op != "c" or t.cv(at) != 0:
        return tr, "it is written without its first %s bytes" % t.show(at)
    full = models.slen(s)
    if n is not full:
        for k in (3, 1000):      # the length of a text may be computed in several ways
            try:
                a, b = t.evalt(n, {}), t.evalt(full, {})
            except KeyError:
                return tr, "%s bytes of it are written" % t.show(n)[:60]
            if a != b:
                return tr, "%d of its %d bytes are written" % (a, b)
    return tr, None


def same(got, want, where, tol=True):
    """want: dict / list / scalar / T / predicate; unknown additional keys are tolerated"""
    if callable(want) and not isinstance(want, T):
        if not want(got):
            raise Diff("%s is %s" % (where, show(got)))
        return
    if isinstance(want, dict):
        if not isinstance(got, dict):
            raise Diff("%s is %s, not an object" % (where, show(got)))
        for k, v in want.items():
            if k not in got:
                raise Diff("%s has no key \"%s\"" % (where, k))
            same(got[k], v, where + "." + k)
        return
    if isinstance(want, (list, tuple)):
        if not isinstance(got, list):
            raise Diff("%s is %s, not a list" % (where, show(got)))
        if len(got) != len(want):
            raise Diff("%s has %d elements, it must have %d" % (where, len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            same(a, b, "%s[%d]" % (where, i))
        return
    if got is want:
        return
    if isinstance(got, T) or isinstance(want, T):
        raise Diff("%s is %s, it must be %s" % (where, show(got), show(want)))
    if type(got) is bool or type(want) is bool or isinstance(got, str) != isinstance(want, str) or got != want:
        raise Diff("%s is %s, it must be %s" % (where, show(got), show(want)))


def show(x):
    return t.show(x)[:80] if isinstance(x, T) else repr(x)[:80]


def scalar(term):
    """predicate: this JSON number has the value of a machine integer"""
    def p(got):
        if not isinstance(got, T) and isinstance(got, int):
            return term.op == "c" and t.cv(term) == got
        if not isinstance(got, T):
            return False
        x = got
        while x.op in ("zext", "trunc", "sext"):
            x = x.a[0]
        y = term
        while y.op in ("zext", "trunc", "sext"):
            y = y.a[0]
        return x is y
    return p


def stringly(term):
    def p(got):
        if isinstance(got, str):
            return term.op == "str" and term.a[0] == got
        return got is term
    return p


def compression(F, s2):
    """(level, shuffle, codec, pixel size) handed to the compressor; None if chunks are stored raw; ... if nothing was stored"""
    bl = [e for e in s2.events() if e[0] == "blosc"]
    if bl:
        return bl
    if any(e[0] == "out" and e.chunk is not None for e in s2.events()):
        return None
    return ...


def expected(F, c, comp, dtype):
    geo = c.geo
    sh = F.N
    for a, _, _ in geo.d[1:-2]:
        sh = -(-sh // a)
    shape = [sh] + [a for a, _, _ in geo.d[1:]]
    chunks = [ch for _, ch, _ in geo.d]
    if c.cls == V2:
        px = BYTES[dtype]
        d = {"zarr_format": 2, "shape": shape, "chunks": chunks, "fill_value": 0, "order": "C", "filters": None, "dimension_separator": "/",
             "dtype": lambda g: g in (["<" + V2D[dtype]] + (["|" + V2D[dtype]] if px == 1 else []))}
        if comp is None:
            d["compressor"] = None
        elif comp is not ...:
            d["compressor"] = {"id": "blosc", "cname": stringly(comp.codec), "clevel": scalar(comp.level), "shuffle": scalar(comp.shuffle)}
        return d
    d = {"attributes": {}, "chunk_grid": {"chunk_shape": chunks, "separator": "/", "type": "regular"}, "chunk_memory_layout": "C", "data_type": V3D[dtype],
         "extensions": [], "fill_value": 0, "shape": shape,
         "storage_transformers": [{"type": "indexed", "extension": SHARD, "configuration": {"chunks_per_shard": [h for _, _, h in geo.d]}}]}
    if comp is None:
        d["compressor"] = None
    elif comp is not ...:
        d["compressor"] = {"codec": BLOSC, "configuration": {"blocksize": 0, "cname": stringly(comp.codec), "clevel": scalar(comp.level), "shuffle": scalar(comp.shuffle)}}
    return d


def metacases(chk, cls):
    """the write-outs, with every pixel type on one of them"""
    done = set()
    for c in cases(chk, cls):
        if cls == V2 and not c.first:
            continue
        k = (str(c.geo), c.root, c.comp)
        c.dtype = 1
        yield c
        if (c.root, c.comp) not in done and c.root == "finalize" and len(c.geo.d) == 3 or chk.thorough and k not in done and c.root == "finalize":
            done.add((c.root, c.comp))
            done.add(k)
            for dt in range(10):
                if dt != 1:
                    n = type(c)(**c.__dict__)
                    n.dtype = dt
                    yield n


def one(chk, c, first=None, pending=None, root=None):
    F = Flush(chk, c.cls, c.geo, c.N, root or c.root, c.first if first is None else first, c.s3, c.comp, c.pending if pending is None else pending, dtype=c.dtype, meta=True, level=c.level, append=c.q)
    try:
        outs = [o for o in F.run() if o[1] != "dead"]
    except (Unsupported, Budget) as e:
        chk.undec("describes", "%s %s: %s" % (c.cls, c.geo, e))
        return F, None
    if F.I.inexact():
        chk.undec("describes", "%s %s: %s is not followed exactly" % (c.cls, c.geo, F.I.inexact()))
        return F, None
    return F, outs


def metadata_name(F, c):
    b = F.store
    return "%s/%d/.zarray" % (b, F.level) if c.cls == V2 else "%s/meta/root/%d.array.json" % (b, F.level)


def c18(chk):
    p = chk.p
    for cls in (V2, V3):
        for c in metacases(chk, cls):
            F, outs = one(chk, c)
            if outs is None:
                continue
            what = "%s, %s, %s%s, %s after %d frames" % (cls[6:], c.geo, V3D[c.dtype], ", compressed" if c.comp else "", "last frame of a layer" if c.root == "frame" else "finalizing", c.N)
            for s2, k, v in outs:
                if k == "exc":
                    chk.bad("completes", site(F.f), "%s: an exception although nothing failed" % what, key=cls + "exc", path=path(s2))
                    continue
                docs = documents(s2, "out")
                if not docs:
                    if c.root == "frame" and not c.table:
                        continue          # more layers of this shard follow
                    if c.root == "frame":
                        G, o2 = one(chk, c, first=True, pending=False, root="finalize")
                        if o2 is None or any(documents(x, "out") for x, kk, _ in o2 if kk == "ret"):
                            chk.ok("written", what)
                            continue
                    chk.bad("written", site(F.f), "%s: no array metadata are written" % what, key=cls, path=path(s2))
                    continue
                chk.ok("written")
                e = docs[-1][0]
                tr, err = text_of(docs[-1])
                if err:
                    chk.bad("whole", site(F.f), "%s: the array metadata are not a whole document: %s" % (what, err), key=cls, path=path(s2))
                    continue
                chk.ok("whole")
                if tr is None:
                    chk.undec("describes", "%s: metadata text %s" % (what, t.show(docs[-1][1])[:80]))
                    continue
                name = [x for x in s2.events() if x[0] == "sink_new" and x.sink is e.sink]
                if name:
                    x = name[0]
                    nm = clean(x.names[-1].a[0]) if x.names[-1].op == "str" else t.show(x.names[-1])
                    if nm != metadata_name(F, c) or (x.d["cls"] == "S3Sink") != bool(c.s3) or c.s3 and x.names[0] is not t.lit(F.bucket):
                        chk.bad("place", x.site, "%s: the array metadata are written to %s %s, they belong in %s" % (what, x.d["cls"], nm, metadata_name(F, c)), key=cls, path=path(s2))
                        continue
                    chk.ok("place", nm)
                comp = compression(F, s2)
                raw = comp is None
                want = expected(F, c, comp[0] if isinstance(comp, list) else comp, c.dtype)
                try:
                    for b in (comp if isinstance(comp, list) else []):
                        b0 = comp[0]
                        if b.level is not b0.level or b.shuffle is not b0.shuffle or b.codec is not b0.codec:
                            raise Diff("chunks are compressed with different parameters")
                        if b.px.op == "c" and t.cv(b.px) != BYTES[c.dtype]:
                            raise Diff("pixels of %d bytes are compressed as elements of %d bytes" % (BYTES[c.dtype], t.cv(b.px)))
                    same(jsonm.py(tr), want, "document")
                except Diff as x:
                    chk.bad("describes", site(F.f), "%s: the array metadata do not describe the data: %s" % (what, x), key=cls + re.sub(r"\d+", "", str(x))[:40], path=path(s2))
                    continue
                chk.ok("describes", "%s: %s" % (what, str(jsonm.py(tr))[:200]))
    configured(chk)
    chk.at_least("describes", 30)
    chk.at_least("configured", 12)


def configured(chk):
    """the writer of level 0 is set up with what the caller asked for"""
    geos = [((0, 4, 2), (48, 16, 2), (64, 32, 1)),
            ((0, 5, 1), (3, 1, 3), (7, 2, 2), (33, 33, 1), (19, 4, 5)),
            ((9, 3, 2), (2, 2, 1), (1 << 30, 1 << 28, 2), (4, 4, 1))]
    for ver in (2, 3):
        for gi, dims in enumerate(geos):
            for codec in (None, 1, 2):
                for s3 in (False, True):
                    if not chk.thorough and (gi + ver + (codec or 0) + s3) % 2:
                        continue
                    nd = len(dims)
                    types = [(2, 1, 3)[i % 3] for i in range(nd - 2)] + [0, 0]
                    comp = None if codec is None else dict(compressor=1, codec=codec)
                    val = {"s3.bucket_name": "buck", "s3.endpoint": "http://x", "s3.access_key_id": "a", "s3.secret_access_key": "b"} if s3 else {}
                    dt = chk.rng.randrange(10)
                    K = Created(chk, dims, types, version=ver, comp=comp, dtype=dt, s3=s3, val=val)
                    what = "version %d, %s, %s%s" % (ver, dims, "raw" if codec is None else ("lz4", "zstd")[codec - 1], ", S3" if s3 else "")
                    try:
                        good = K.run()
                    except (Unsupported, Budget) as e:
                        chk.undec("configured", "%s: %s" % (what, e))
                        continue
                    if K.I.inexact() or not good:
                        chk.undec("configured", "%s: %s, %d streams" % (what, K.I.inexact(), len(good)))
                        continue
                    for st, stream in good:
                        try:
                            consistent_config(K, st, stream, dims, types, dt, codec, s3)
                        except Diff as x:
                            chk.bad("configured", site(K.f), "%s: %s" % (what, x), key=re.sub(r"\d+", "", str(x))[:40], path=path(st))
                            continue
                        chk.ok("configured", what)


def consistent_config(K, st, stream, dims, types, dt, codec, s3):
    ws = K.writers(st, stream)
    if not ws:
        raise Diff("the stream has no array writer")
    if len(ws) != 1:
        raise Diff("the stream has %d array writers although it is not multiscale" % len(ws))
    cf = K.config(st, ws[0])
    if cf["dims"] is None:
        raise Diff("the array writer has no dimensions")
    want = [(t.lit("n%d" % i), C(32, ty), C(32, a), C(32, c), C(32, h)) for i, ((a, c, h), ty) in enumerate(zip(dims, types))]
    if len(cf["dims"]) != len(want):
        raise Diff("the array writer has %d dimensions, %d were given" % (len(cf["dims"]), len(want)))
    for i, (g, w) in enumerate(zip(cf["dims"], want)):
        for n, a, b in zip(("name", "type", "array size", "chunk size", "shard size"), g, w):
            if a is not b:
                raise Diff("the %s of dimension %d is %s, it was given as %s" % (n, i, t.show(a), t.show(b)))
    if cf["dtype"] is not C(32, dt):
        raise Diff("the data type is %s, it was given as %d" % (t.show(cf["dtype"]), dt))
    if not cv0(cf["level"], 0):
        raise Diff("the array writer is of level %s" % t.show(cf["level"]))
    if not cv0(cf["has_bucket"], int(s3)):
        raise Diff("a bucket is %s" % ("missing" if s3 else "set"))
    if s3 and cf["bucket"] is not t.lit("buck"):
        raise Diff("the bucket is %s" % t.show(cf["bucket"]))
    if not cv0(cf["has_comp"], int(codec is not None)):
        raise Diff("the data are %s" % ("compressed although no compressor was chosen" if codec is None else "not compressed although a compressor was chosen"))
    if codec:
        nm = cf["comp.codec_id"]
        if nm is not t.lit("lz4" if codec == 1 else "zstd"):
            raise Diff("the codec is %s, %s was chosen" % (t.show(nm), ("lz4", "zstd")[codec - 1]))
        for k, s in (("level", "clevel"), ("shuffle", "shuffle")):
            if not scalar(K.S.syms["comp." + k])(cf["comp." + s]):
                raise Diff("the compression %s is %s, not the one given" % (k, t.show(cf["comp." + s])))


def cv0(x, n):
    return x.op == "c" and t.cv(x) == n


# ---- C32 ----------------------------------------------------------------------------------------
def pyramids(chk):
    """(dims, types) with V3 shard sizes; append dimension first"""
    T, CH, Z, O = 2, 1, 0, 3
    M = (1 << 32) - 1
    g = [(((0, 4, 2), (48, 16, 2), (64, 32, 1)), (T, Z, Z)),
         (((0, 5, 1), (7, 7, 1), (13, 5, 2)), (T, Z, Z)),
         (((0, 4, 1), (3, 1, 2), (9, 2, 3), (64, 16, 2), (48, 16, 1)), (T, CH, Z, Z, Z)),
         (((16, 2, 4), (5, 3, 1), (40, 40, 1), (30, 7, 2)), (T, O, Z, Z)),
         (((0, 2, 1), (M, 1 << 29, 4), (8, 8, 1), (8, 8, 1)), (T, O, Z, Z)),
         (((0, 1, 1), (1, 1, 1), (1, 1, 1)), (T, Z, Z)),
         (((6, 6, 1), (4, 2, 1), (17, 16, 1), (16, 5, 3)), (CH, CH, Z, Z)),
         (((0, 3, 2), (2, 1, 1), (M, 1 << 30, 2), (100, 64, 1)), (T, CH, Z, Z)),
         (((0, 1, 7), (5, 5, 1), (6, 3, 2), (1000, 100, 3)), (O, T, Z, Z)),
         (((0, 9, 3), (65, 33, 2), (40000, 3000, 5), (50000, 4000, 5)), (T, Z, Z, Z))]
    if not chk.thorough:
        return g
    for _ in range(30):
        nd = chk.rng.choice((3, 3, 4, 5))
        d, ty = [], []
        for i in range(nd):
            a = sample(chk.rng, 1, 1 << 16 if i else 40)
            if i == 0 and chk.rng.random() < .6:
                a = 0
            c = sample(chk.rng, 1, max(1, a)) if a else sample(chk.rng, 1, 40)
            n = max(1, -(-a // c))
            d.append((a, c, sample(chk.rng, 1, n) if a else chk.rng.randrange(1, 5)))
            ty.append(Z if i >= nd - 2 else chk.rng.choice((T, CH, O, Z)))
        if -(-d[-1][0] // d[-1][1]) * -(-d[-2][0] // d[-2][1]) > 64:
            continue
        g.append((tuple(d), tuple(ty)))
    return g


MAXLEVELS = 40


class Endless(Exception):
    pass


def make_pyramid(chk, dims, types, version, s3=False, comp=None, **kw):
    val = {"s3.bucket_name": "buck", "s3.endpoint": "http://x", "s3.access_key_id": "a", "s3.secret_access_key": "b"} if s3 else {}
    val.update(kw.pop("val", {}))
    K = Created(chk, dims, types, version=version, multiscale=True, comp=comp, s3=s3, val=val, **kw)
    n = [0]

    def ctor(J, st, c):
        k = st.cnt["levels"] = st.cnt.get("levels", 0) + 1
        n[0] = max(n[0], k)
        if k > MAXLEVELS:
            raise Endless()
        return NotImplemented
    for f in chk.p.fns.values():
        if f.ctx == "zarr::ArrayWriter" and f.base == "ArrayWriter":
            K.I.over[f.n] = ctor
    return K


def c32(chk):
    p = chk.p
    if not any(f.ctx == "zarr::ArrayWriter" and f.base == "ArrayWriter" for f in p.fns.values()):
        raise Anchor("ArrayWriter constructor")
    for dims, types in pyramids(chk):
        for ver in (2, 3):
            s3, comp = (ver == 3) != (len(dims) % 2 == 0), dict(compressor=1, codec=2) if len(dims) % 2 else None
            K = make_pyramid(chk, dims, types, ver, s3, comp)
            what = "version %d, %s" % (ver, ", ".join("%d/%d/%d%s" % (d + ("c" if ty == 1 else "",)) for d, ty in zip(dims, types)))
            try:
                good = K.run()
            except Endless:
                chk.bad("finite", site(p.fns["ZarrStream_create"]), "%s: more than %d levels are made" % (what, MAXLEVELS), key="endless")
                continue
            except (Unsupported, Budget) as e:
                chk.undec("levels", "%s: %s" % (what, e))
                continue
            if K.I.inexact():
                chk.undec("levels", "%s: %s" % (what, K.I.inexact()))
                continue
            if not good:
                # a refused geometry has no levels; every one here is legal
                o = [x for x in K.outs if x[1] != "dead"]
                why = ""
                chk.bad("levels", site(K.f), "%s: no stream is made for these settings although nothing fails" % what, key="refused", path=path(o[0][0]) if o else [])
                continue
            for st, stream in good:
                chk.ok("finite")
                try:
                    n = pyramid(K, st, stream, dims, types, ver, s3, comp)
                except Diff as x:
                    chk.bad("levels", site(K.f), "%s: %s" % (what, x), key=re.sub(r"\d+", "", str(x))[:40], path=path(st))
                    continue
                chk.ok("levels", "%s: %d levels" % (what, n))
    chk.at_least("levels", 14)
    chk.at_least("finite", 14)


def pyramid(K, st, stream, dims, types, ver, s3, comp):
    ws = K.writers(st, stream)
    if not ws:
        raise Diff("the stream has no levels")
    cfs = [K.config(st, w) for w in ws]
    base = cfs[0]
    want0 = [(C(32, a), C(32, c)) for a, c, h in dims]
    if [(d[2], d[3]) for d in base["dims"] or []] != want0:
        raise Diff("level 0 has dimensions %s" % [tuple(map(t.show, d)) for d in base["dims"] or []])
    prev = None
    for i, cf in enumerate(cfs):
        if not cv0(cf["level"], i):
            raise Diff("the writer in place %d is of level %s" % (i, t.show(cf["level"])))
        for k, nm in (("dtype", "data type"), ("store", "store path"), ("has_bucket", "bucket"), ("bucket", "bucket"), ("has_comp", "compression"),
                      ("comp.codec_id", "codec"), ("comp.clevel", "compression level"), ("comp.shuffle", "shuffle")):
            if k in cf and k in base and (not k.startswith("comp.") or comp) and (k != "bucket" or s3) and cf[k] is not base[k]:
                raise Diff("the %s of level %d is %s, of level 0 %s" % (nm, i, t.show(cf[k]), t.show(base[k])))
        d = cf["dims"]
        if d is None or len(d) != len(dims):
            raise Diff("level %d has %s dimensions" % (i, len(d) if d else "no"))
        for j, ((a, c, h), ty) in enumerate(zip(dims, types)):
            nm, tp, ga, gc, gh = d[j]
            w = "dimension %d of level %d" % (j, i)
            if nm is not t.lit("n%d" % j) or not cv0(tp, ty):
                raise Diff("%s is called %s and has type %s" % (w, t.show(nm), t.show(tp)))
            if not all(x.op == "c" for x in (ga, gc, gh)):
                raise Diff("%s has sizes %s" % (w, [t.show(x) for x in (ga, gc, gh)]))
            ga, gc, gh = map(t.cv, (ga, gc, gh))
            if prev is not None:
                pa, pc, ph = prev[j]
                if ty == 1:
                    if (ga, gc, gh) != (pa, pc, ph):
                        raise Diff("%s is a channel dimension but has %d/%d/%d, level %d %d/%d/%d" % (w, ga, gc, gh, i - 1, pa, pc, ph))
                else:
                    if ga != (pa + 1) // 2:
                        raise Diff("%s has %d pixels, half of %d is %d" % (w, ga, pa, (pa + 1) // 2))
                    top = min(pc, ga) if ga else pc
                    if not 1 <= gc <= top:
                        raise Diff("%s has chunks of %d of its %d pixels (level %d has %d)" % (w, gc, ga, i - 1, pc))
                    if ver == 3:
                        top = -(-ga // gc) if ga else max(ph, 1)
                        if not 1 <= gh <= max(1, top):
                            raise Diff("%s has shards of %d chunks, it has %d" % (w, gh, top))
        prev = [tuple(map(t.cv, x[2:])) for x in d]
    return len(cfs)


# ---- C39 ----------------------------------------------------------------------------------------
AXIS = ["space", "channel", "time", "other"]


def multiscales(dims, types, names, levels):
    axes = []
    for i, ty in enumerate(types):
        a = {"name": names[i], "type": AXIS[ty]}
        if i >= len(types) - 2:
            a["unit"] = "micrometer"
        axes.append(a)
    one = lambda v: lambda g: not isinstance(g, T) and isinstance(g, (int, float)) and g == v
    ds = []
    for n in range(levels):
        k = float(2 ** n)
        free = lambda g, k=k: not isinstance(g, T) and isinstance(g, (int, float)) and g in (1.0, k)     # how frames are combined in more than 3 dimensions is not settled
        sc = [one(k) if len(dims) == 3 and types[0] != 1 else free] + [free] * (len(dims) - 3) + [one(k), one(k)]
        ds.append({"path": str(n), "coordinateTransformations": [{"type": "scale", "scale": sc}]})
    return [{"version": "0.4", "axes": axes, "datasets": ds}]




def relative(e, s3, store):
    """name of a sink inside the data set"""
    nm = e.names[-1]
    if nm.op != "str":
        return None
    n = clean(nm.a[0])
    if not n.startswith(store + "/"):
        return None
    return n[len(store) + 1:]


def c39(chk):
    store = "some/store.zarr"
    cases = [(((0, 4, 2), (48, 16, 2), (64, 32, 1)), (2, 0, 0)),
             (((0, 5, 1), (3, 1, 1), (9, 2, 3), (33, 33, 1), (19, 4, 1)), (2, 1, 3, 0, 0)),
             (((6, 3, 2), (4, 2, 1), (16, 8, 1), (40, 40, 1)), (1, 0, 0, 0)),
             (((0, 2, 1), (64, 4, 2), (80, 5, 2)), (2, 0, 0))]           # five levels
    customs = [None, "", '{"a": 1}']
    for ver in (2, 3):
        for ci, (dims, types) in enumerate(cases):
            for ms in (False, True):
                for s3 in (False, True):
                    cust = customs[(ci + ms + s3 + ver) % 3]
                    for cust in (customs if chk.thorough else (cust,)):
                        names = ["t", "c", "z", "y", "x"][-len(dims):] if ci else ["frame", "row", "col"]
                        val = {"custom_metadata": cust}
                        what = "version %d, %d dimensions%s%s, custom metadata %r" % (ver, len(dims), ", multiscale" if ms else "", ", S3" if s3 else "", cust)
                        val.update({"s3.bucket_name": "buck", "s3.endpoint": "http://x", "s3.access_key_id": "a", "s3.secret_access_key": "b"} if s3 else {})
                        K = Created(chk, dims, types, version=ver, multiscale=ms, s3=s3, val=val, names=names, store=store)
                        try:
                            good = K.run()
                            ends = [(a, v, o) for a, v in good for o in K.destroy(a, v)]
                        except (Unsupported, Budget) as e:
                            chk.undec("documents", "%s: %s" % (what, e))
                            continue
                        if K.I.inexact() or not good:
                            chk.undec("documents", "%s: %s, %d streams" % (what, K.I.inexact(), len(good)))
                            continue
                        for st, stream, (end, k, _) in ends:
                            if k == "exc":
                                chk.bad("documents", site(K.f), "%s: destroying the stream throws" % what, key="exc", path=path(end))
                                continue
                            try:
                                n = group_documents(chk, K, st, stream, end, dims, types, names, ver, ms, s3, cust, store)
                            except Diff as x:
                                chk.bad("documents", site(K.f), "%s: %s" % (what, x), key=re.sub(r"\d+", "", str(x))[:50], path=path(end))
                                continue
                            chk.ok("documents", "%s: %s" % (what, n))
    chk.at_least("documents", 12)


def group_documents(chk, K, st, stream, end, dims, types, names, ver, ms, s3, cust, store):
    sinks = {}
    for e in end.events():
        if e[0] == "sink_new":
            r = relative(e, s3, store)
            if r is None:
                raise Diff("a file %s is created outside the data set" % show(e.names[-1]))
            if e.d["cls"] != ("S3Sink" if s3 else "FileSink") or s3 and e.names[0] is not t.lit("buck"):
                raise Diff("%s is created as a %s" % (r, e.d["cls"]))
            if r in sinks.values():
                raise Diff("%s is created twice" % r)
            sinks[e.sink] = r
    docs, size = {}, {}
    for e in end.events():
        if e[0] == "sink_write" and e.sink in sinks:
            n = sinks[e.sink]
            d = documents_of(e)
            if d is None:
                raise Diff("%s is written with something that is no text" % n)
            tr, err = text_of(d)
            if err:
                raise Diff("%s: %s" % (n, err))
            if n in docs and docs[n] is not tr:
                raise Diff("%s is written twice with different contents" % n)
            docs[n] = tr
    for n in sinks.values():
        if n not in docs:
            raise Diff("%s is created but nothing is written to it" % n)
        if docs[n] is None:
            raise Diff("%s is not written as the text of a JSON value" % n)
    levels = len(K.writers(st, stream))
    if not ms and levels != 1:
        raise Diff("there are %d levels" % levels)
    mm = multiscales(dims, types, names, levels)
    if ver == 2:
        want = {".zgroup": {"zarr_format": 2}, ".zattrs": {"multiscales": mm}}
    else:
        want = {"zarr.json": {"extensions": [], "metadata_encoding": CORE, "metadata_key_suffix": ".json", "zarr_format": CORE},
                "meta/root.group.json": {"attributes": {"multiscales": mm}}}
    for n, w in want.items():
        if n not in docs:
            raise Diff("%s is not written" % n)
        same(jsonm.py(docs[n]), w, n)
    n = "acquire.json" if ver == 2 else "meta/acquire.json"
    if n in docs or cust:
        if n not in docs:
            raise Diff("the custom metadata are not written")
        d = docs[n]
        if jsonm.kind(d) == "parsed":
            x = d.a[1]
            w = (cust or "{}").strip()
            if x.op != "str" or x.a[0].strip() != w:
                raise Diff("%s holds %s, given was %r" % (n, show(x), cust))
        elif cust or jsonm.py(d) != {}:
            raise Diff("%s holds %s, given was %r" % (n, show(d), cust))
    return "%d documents, %d levels" % (len(docs), levels)


def documents_of(e):
    d = e.args[1]
    if d.op == "ptr" and d.a[0][0] == "STR":
        return (e, d.a[0][1], t.split(d)[1], e.args[2], e.args[0])
    return None
