"""Abstract settings objects, and streams made from them."""
from . import terms as t, models
from .terms import C, sym, ptr, cmp
from .interp import State, Obj, Budget, Unsupported
from .ir import Anchor
from .lib import *

SET = "ZarrStreamSettings_s"
S3 = "#_ZTS14ZarrS3Settings"
COMP = "#_ZTS23ZarrCompressionSettings"
DIM = "#_ZTS23ZarrDimensionProperties"


def offs(p, rec):
    if rec not in p.records:
        raise Anchor("record " + rec)
    return {n: (o, sz, ty) for n, o, sz, ty in p.fields(rec)}


class Settings:
    """A settings object whose fields are symbols, with chosen concrete values.
    val: {"path": value}; a path is "store_path", "dim0.name", "s3.endpoint", "comp.level", ...
    A value is an int, None (null pointer) or a term."""

    def __init__(s, p, st, ndims=3, s3=False, comp=False, val=None, valid=True):
        s.p, s.st = p, st
        s.syms = {}
        s.val = dict(val or {})
        s.ndims = ndims
        if valid:
            d = dict(version=2, data_type=1, custom_metadata=None)
            for i in range(ndims):
                e = dict(p.enum("ZarrDimensionType_Space"))
                d["dim%d.type" % i] = e["ZarrDimensionType_Space"] if i >= ndims - 2 else e["ZarrDimensionType_Time"] if i == 0 else e["ZarrDimensionType_Channel"]
            for k, v in d.items():
                s.val.setdefault(k, v)
        s.b = heap(st, "settings")
        o = offs(p, SET)
        s.fill(s.b, 0, SET, "")
        put(st, s.b, o["dimension_count"][0], s.value("dimension_count", 64, C(64, ndims)))
        if s.val.get("dimensions", 0) is None:
            put(st, s.b, o["dimensions"][0], C(64, 0))
        else:
            d = heap(st, "dims")
            s.dims = d
            sz = p.records[DIM]["size"]
            for i in range(ndims):
                s.fill(d, i * sz, DIM, "dim%d." % i)
            put(st, s.b, o["dimensions"][0], ptr(d, 0))
        for k, rec, on in (("s3_settings", S3, s3), ("compression_settings", COMP, comp)):
            if on:
                x = heap(st, k)
                s.fill(x, 0, rec, "s3." if rec == S3 else "comp.")
                put(st, s.b, o[k][0], ptr(x, 0))
            else:
                put(st, s.b, o[k][0], C(64, 0))

    def value(s, path, bits, default=None):
        if path in s.val:
            v = s.val[path]
            if v is None:
                return C(64, 0)
            if isinstance(v, int):
                return C(bits, v)
            return v
        if default is not None:
            return default
        x = sym(path, bits)
        s.syms[path] = x
        return x

    def fill(s, b, base, rec, pre):
        for n, o, sz, ty in s.p.fields(rec):
            path = pre + n
            if ty == "const char*" or ty == "char const*":
                if path in s.val and s.val[path] is None:
                    v = C(64, 0)
                elif path in s.val and isinstance(s.val[path], str):
                    v = models.strptr(t.lit(s.val[path]))
                else:
                    x = sym(path, 0)
                    s.syms[path] = x
                    v = models.strptr(x)
                put(s.st, b, base + o, v)
            elif ty == "bool":
                put(s.st, b, base + o, s.value(path, 8))
            elif ty.endswith("*"):
                continue
            elif n == "dimension_count":
                continue
            else:
                put(s.st, b, base + o, s.value(path, sz * 8))


def trim_of(x):
    if x.op == "str":
        return t.lit(x.a[0].strip(" \t\n\r\f\v"))
    if x.op == "ap" and x.a[0] == "trim":
        return x
    return t.ap("trim", 0, x)


def h_trim(I, st, c):
    """zarr::trim of an unknown text; with known texts its body is followed"""
    x = models.sv(I, st, c.args, 1)
    if x.op == "str":
        return NotImplemented
    models.sets(I, st, c.args[0], trim_of(x))
    return None


def light(I):
    I.over["zarr::trim"] = h_trim
    return I


POOLC = "zarr::ThreadPool::ThreadPool"


def capture(chk, **kw):
    """run stream creation up to the construction of its thread pool
    -> [(state, stream base, error handler object, site)]"""
    from .lib import quiet_log
    I = light(quiet_log(chk.interp()))
    I.fs_throws = False
    st = State()
    S = Settings(chk.p, st, **kw)
    got = []

    def ctor(J, s2, c):
        news = [e for e in s2.events() if e[0] == "new" and not e.arr]
        got.append((s2.fork(), t.split(news[0].p)[0] if news else None, c.args[2], J.repo_site(c.ctx), c.args[1]))
        return [(s2, "dead", None)]
    I.over[POOLC] = ctor
    f = chk.p.fns.get("ZarrStream_create")
    if f is None:
        raise Anchor("ZarrStream_create")
    I.run(st, f, [ptr(S.b, 0)])
    if not got:
        raise Anchor("stream creation reaches no ThreadPool constructor")
    return I, S, got


# ---- whole streams ------------------------------------------------------------------------------
def dimvals(dims, types=None, names=None, space="ZarrDimensionType_Space"):
    """settings values for concrete dimensions (array, chunk, shard)"""
    v = {}
    for i, (a, c, h) in enumerate(dims):
        v["dim%d.array_size_px" % i], v["dim%d.chunk_size_px" % i], v["dim%d.shard_size_chunks" % i] = a, c, h
        v["dim%d.name" % i] = names[i] if names else "n%d" % i
        if types:
            v["dim%d.type" % i] = types[i]
    return v


def shift(p, i):
    b, o = t.split(p)
    return ptr(b, t.add(o, C(64, i)))


class Created:
    """ZarrStream_create on concrete settings, in a world where nothing fails; sinks are recorded, jobs run at once."""

    def __init__(s, chk, dims, types=None, version=2, multiscale=False, comp=None, dtype=1, s3=False, val=None, names=None, store="some/store.zarr", content=False):
        from .jobs import Jobs
        from . import jsonm
        s.chk, s.p, s.content, s.blosc_fails = chk, chk.p, content, False
        s.makes_fail, s.env = False, None
        J = s.J = Jobs(chk, "run")
        J.write_fails = False
        I = s.I = J.I
        light(I)
        I.fs_throws, I.fs_ok = False, True
        I.hw = 2
        jsonm.install(I)
        st = s.st = State()
        I.assume(st, J.stopped, False)
        v = dimvals(dims, types, names)
        v.update(version=version, multiscale=int(multiscale), store_path=store, data_type=dtype)
        v.update(val or {})
        for k, x in (comp or {}).items():
            v["comp." + k] = x
        s.S = Settings(chk.p, st, ndims=len(dims), comp=comp is not None, s3=s3, val=v)
        I.over[POOLC] = lambda JJ, s_, c: None
        I.over["blosc_compress_ctx"] = s.compress
        if content:
            I.hooks.append(s.keep)
        if s3:
            from .checks.s3 import S3Env
            s.env = S3Env(I, chk.p, fails=False)
            s.env.jobs = J
        for f in chk.p.fns.values():
            if f.base in ("FileSink", "S3Sink") and f.ctx in ("zarr::FileSink", "zarr::S3Sink"):
                I.over[f.n] = s.newsink
            elif f.ctx == "zarr::S3ConnectionPool" and f.base in ("S3ConnectionPool", "~S3ConnectionPool"):
                I.over[f.n] = s.newpool if f.base[0] != "~" else lambda JJ, s_, c: None

    def unreliable(s, on=True, budget=1):
        """from now on operations may fail, at most `budget` of them on each path"""
        s.J.write_fails, s.J.refuse, s.J.fail_budget = on, on, budget
        s.makes_fail = s.blosc_fails = on
        s.I.fs_vary = budget if on else None
        if s.env:
            s.env.fails = on

    def newpool(s, J, st, c):
        """an S3 connection pool: there is none if the server cannot be reached"""
        return s.ormaybe(J, st, c, "pool_new")

    def ormaybe(s, J, st, c, what):
        if J.sick and J.sick(st, what):
            J.emit(st, what + "_fails", c.ctx)
            return [(st, "exc", J.make_exc(st, c, "_ZTISt13runtime_error"))]
        if not s.makes_fail or not s.J.may(st):
            return None
        bad = s.J.broken(st)
        if J.sick:
            J.sick(bad, what, True)
        J.emit(bad, what + "_fails", c.ctx)
        return [(st, "ret", None), (bad, "exc", J.make_exc(bad, c, "_ZTISt13runtime_error"))]

    def compress(s, J, st, c):
        """Blosc compresses what it is given (to a nonempty result)"""
        outs = None
        if J.sick and J.sick(st, "blosc"):
            J.emit(st, "blosc_fails", c.ctx, r=0)
            return C(32, 0)
        if s.blosc_fails and s.J.write_fails and (s.J.fail_budget is None or st.cnt.get("sinkfail", 0) < s.J.fail_budget):
            bad = st.fork()
            bad.cnt["sinkfail"] = bad.cnt.get("sinkfail", 0) + 1
            if J.sick:
                J.sick(bad, "blosc", True)
            J.emit(bad, "blosc_fails", c.ctx, r=0)
            outs = [(bad, "ret", C(32, 0))]
        r = s.compress_ok(J, st, c)
        return r if outs is None else outs + [(st, "ret", r)]

    def compress_ok(s, J, st, c):
        a = c.args
        if J.access is not None:
            for i, k, w in ((4, 3, "r"), (5, 6, "w")):
                if a[i].op == "ptr":
                    J.access(st, *t.split(a[i]), t.cv(a[k]) if a[k].op == "c" else None, w, False, c.ctx)
        n = st.cnt.get("blosc", 0)
        st.cnt["blosc"] = n + 1
        if s.content and a[6].op == "c" and a[3].op == "c" and a[5].op == "ptr" and a[4].op == "ptr":
            k = max(1, min(t.cv(a[6]), 3 + (n * 7 + t.cv(a[3])) % 11))
            r = C(32, k)
            src = s.bytes(st, a[4], t.cv(a[3]))
            for i in range(k):
                J.store(st, shift(a[5], i), t.ap("cbyte", 8, n, i, k), 1)
        else:
            r = sym("csize%d" % n, 32)
            J.assume(st, cmp("slt", C(32, 0), r), True)
            src = None
        J.emit(st, "blosc", c.ctx, n=a[3], src=a[4], dst=a[5], room=a[6], r=r, level=a[0], shuffle=a[1], px=a[2], codec=J.cstring(st, a[7]), content=src, id=n)
        return r

    def bytes(s, st, p, n):
        return tuple(s.I.load(st, shift(p, i), 1, 8) for i in range(n))

    def keep(s, J, st, e):
        """record what is written"""
        if e[0] == "sink_write" and e.r == 1:
            off, d, n = e.args[:3]
            if d.op == "ptr" and d.a[0][0] != "STR" and n.op == "c" and t.cv(n) <= 1 << 16:
                J.emit(st, "stored", None, sink=e.sink, off=off, data=s.bytes(st, d, t.cv(n)))
            else:
                J.emit(st, "stored", None, sink=e.sink, off=off, data=None, p=d, n=n)

    def newsink(s, J, st, c):
        a = list(c.args)
        this = a.pop(0)
        strs, k = [], 0
        for ty in c.f.pt:
            if "basic_string_view" in ty and not ty.endswith("&"):
                strs.append(models.sv(J, st, a, k))
                k += 2
            elif "basic_string" in ty:
                strs.append(models.gets(J, st, a[k]))
                k += 1
            else:
                k += 1
        r = s.ormaybe(J, st, c, "sink_new")
        J.emit(st, "sink_new", c.ctx, sink=this, names=tuple(strs), cls=c.f.base)
        return r

    def run(s):
        """[(state, stream)] of the outcomes in which a stream was made"""
        f = s.f = s.p.fns.get("ZarrStream_create")
        if f is None:
            raise Anchor("ZarrStream_create")
        s.outs = [o for o in s.I.run(s.st, f, [ptr(s.S.b, 0)]) if o[1] != "dead"]
        return [(a, v) for a, k, v in s.outs if k == "ret" and v.op == "ptr" and v.a[0][0] == "H"]

    def writers(s, st, stream):
        """array writer objects of a stream, in order"""
        p, I = s.p, s.I
        off = field(p, "ZarrStream_s", ty=lambda x: x.startswith("std::vector<std::unique_ptr<zarr::ArrayWriter"))[0]
        b, o = t.split(stream)
        lo, hi, _ = models.vget(I, st, ptr(b, t.add(o, C(64, off))))
        if lo.op != "ptr" or hi.op != "ptr":
            return []
        n = t.sub(hi, lo)
        if n.op != "c":
            return None
        b, o = t.split(lo)
        return [I.load(st, ptr(b, t.add(o, C(64, 8 * i))), 8, 64) for i in range(t.cv(n) // 8)]

    def config(s, st, w):
        """what an array writer was configured with"""
        p, I = s.p, s.I
        CFG, BASE = "zarr::ArrayWriterConfig", "zarr::ArrayWriter"
        b, o = t.split(w)
        at = lambda x: ptr(b, t.add(o, C(64, x)))
        co = field(p, BASE, ty=lambda x: "ArrayWriterConfig" in x)[0]
        r = {}
        for n, off, sz, ty in p.fields(CFG):
            q = co + off
            if "ArrayDimensions" in ty:
                r["dims"] = s.dims(st, I.load(st, at(q), 8, 64))
            elif ty == "ZarrDataType" or ty == "?":
                r["dtype"] = I.load(st, at(q), 4, 32)
            elif ty in ("int", "unsigned int", "uint32_t", "unsigned long"):
                r["level"] = I.load(st, at(q), sz, 8 * sz)
            elif ty.startswith("std::optional<std::__cxx11"):
                r["has_bucket"] = I.load(st, at(q + 32), 1, 8)
                r["bucket"] = models.gets(I, st, at(q))
            elif ty.startswith("std::__cxx11::basic_string"):
                r["store"] = models.gets(I, st, at(q))
            elif "BloscCompressionParams" in ty:
                r["has_comp"] = I.load(st, at(q + sz - 8), 1, 8)
                for bn, bo, bsz, bty in p.fields("zarr::BloscCompressionParams"):
                    r["comp." + bn] = models.gets(I, st, at(q + bo)) if bty.startswith("std::__cxx11::basic_string") else I.load(st, at(q + bo), bsz, 8 * bsz)
        return r

    def dims(s, st, d):
        """[(name, type, array, chunk, shard)] of an ArrayDimensions object"""
        p, I = s.p, s.I
        if d.op != "ptr":
            return None
        off, _, _ = field(p, "ArrayDimensions", ty=lambda x: "vector<" in x)
        b, o = t.split(d)
        lo, hi, _ = models.vget(I, st, ptr(b, t.add(o, C(64, off))))
        n = t.sub(hi, lo)
        sz = p.records["ZarrDimension"]["size"]
        fo = {n_: (x, z) for n_, x, z, _ in p.fields("ZarrDimension")}
        if n.op != "c" or lo.op != "ptr":
            return None
        out = []
        b, o = t.split(lo)
        for i in range(t.cv(n) // sz):
            at = lambda x: ptr(b, t.add(o, C(64, i * sz + x)))
            out.append((models.gets(I, st, at(fo["name"][0])),) + tuple(I.load(st, at(fo[k][0]), fo[k][1], 8 * fo[k][1]) for k in ("type", "array_size_px", "chunk_size_px", "shard_size_chunks")))
        return out

    # ---- the rest of a stream's life
    def _settle(s):
        def stop(J, s_, c):
            J.emit(s_, "await_stop", c.ctx, held=models.held(s_))
            s_.cnt["stopped"] = 1       # from now on the pool takes no jobs
        for g in s.p.byq.get("zarr::ThreadPool::await_stop", []):
            s.I.over[g.n] = stop
        s.I.fs_ok = True

    def append(s, st, stream, nbytes, data=None):
        """[(state, status, bytes taken)] of handing over nbytes of symbolic data"""
        s._settle()
        f = s.p.fns.get("ZarrStream_append")
        if f is None:
            raise Anchor("ZarrStream_append")
        n = st.cnt.get("appends", 0)
        st.cnt["appends"] = n + 1
        d, ob = data or heap(st, "appended%d" % n), heap(st, "taken%d" % n)
        st.mem.setdefault(d, Obj({}, (), 0, st.tok))
        outs = [o for o in s.I.run(st, f, [stream, ptr(d, 0), C(64, nbytes), ptr(ob, 0)]) if o[1] != "dead"]
        return [(a, k, v, s.I.load(a, ptr(ob, 0), 8, 64)) for a, k, v in outs]

    def destroy(s, st, stream):
        s._settle()
        f = s.p.fns.get("ZarrStream_destroy")
        if f is None:
            raise Anchor("ZarrStream_destroy")
        return [o for o in s.I.run(st, f, [stream]) if o[1] != "dead"]
