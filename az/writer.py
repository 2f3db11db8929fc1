"""Abstract array writers (both versions), over symbolic or concrete dimensions."""
from . import terms as t, models
from .terms import C, sym, ptr, cmp
from .interp import State, Obj, Budget, Unsupported
from .ir import Anchor
from .lib import *
from .jobs import set_vptr, Jobs, Geo, GEOS, fill_dims
from .mk import Mk, strip

V2, V3 = "zarr::ZarrV2ArrayWriter", "zarr::ZarrV3ArrayWriter"
CFG = "zarr::ArrayWriterConfig"
BASE = "zarr::ArrayWriter"


def rec(p, n):
    if n not in p.records:
        raise Anchor("record " + n)
    return p.records[n]


class Writer:
    """dims: a lib.Dims or a Geo. n chunk buffers of `bytes` bytes, m data sinks."""

    def __init__(s, p, st, cls, dims, n=2, m=2, bytes_=None, compressed=False, s3=False, meta=None, pool=True, name="w"):
        s.p, s.st, s.cls = p, st, cls
        for r in (cls, CFG, BASE):
            rec(p, r)
        s.b = heap(st, name)
        s.this = ptr(s.b, 0)
        set_vptr(p, st, s.b, cls)
        f = lambda ty, r=BASE: field(p, r, ty=ty)[0]
        co = f(lambda x: "ArrayWriterConfig" in x)
        s.co = co
        cf = {n_: (o, sz, ty) for n_, o, sz, ty in p.fields(CFG)}
        s.cf = cf
        if isinstance(dims, Geo):
            mk = Mk(p, st)
            o = heap(st, name + ".dimobj")
            mk.objs["dims"] = (o, 0)
            fill_dims(p, st, mk, "dims", dims)
            dt = [(x, sz) for x, sz, _ in [dtfield(p)]][0]
            s.dtype = sym("dtype", 32)
            put(st, o, dt[0], s.dtype)
            dp = ptr(o, 0)
        else:
            dp = dims.this
            s.dtype = dims.dtype
        s.dims = dims
        s.cfgoff = lambda k: co + cf[k][0]
        put(st, s.b, co + f2(p, CFG, lambda x: "ArrayDimensions" in x), dp)
        put(st, s.b, co + f2(p, CFG, lambda x: "ArrayDimensions" in x) + 8, C(64, 0))
        put(st, s.b, co + f2(p, CFG, lambda x: x == "?" or x == "ZarrDataType"), s.dtype)
        s.lod = sym("level", 32)
        for n_, (o, sz, ty) in cf.items():
            if ty in ("int", "unsigned int", "uint32_t", "unsigned long") and sz in (4, 8):
                s.lod = sym("level", 8 * sz)
                put(st, s.b, co + o, s.lod)
            elif ty.startswith("std::optional<std::__cxx11"):
                put(st, s.b, co + o + 32, C(8, int(s3)))
                if s3:
                    st.wobj(s.b).c[("s", co + o)] = (sym("bucket", 0), 32)
            elif ty.startswith("std::__cxx11::basic_string"):
                st.wobj(s.b).c[("s", co + o)] = (sym("store", 0), 32)
                s.store = sym("store", 0)
            elif "BloscCompressionParams" in ty:
                put(st, s.b, co + o + sz - 8, C(8, int(compressed)))
                s.blosc = co + o
                if compressed:
                    for bn, bo, bsz, bty in p.fields("zarr::BloscCompressionParams"):
                        if bty.startswith("std::__cxx11::basic_string"):
                            st.wobj(s.b).c[("s", co + o + bo)] = (sym("codec", 0), 32)
                        else:
                            put(st, s.b, co + o + bo, sym(bn, 8 * bsz))
        # chunk buffers
        s.o_bufs = f(lambda x: x.startswith("std::vector<std::vector<std::byte"))
        s.bytes = bytes_ if bytes_ is not None else sym("chunkbytes", 64)
        v = heap(st, name + ".chunks")
        s.bufs = []
        for i in range(n):
            d = heap(st, "%s.chunk%d" % (name, i))
            s.bufs.append(d)
            end = ptr(d, s.bytes)
            for k, x in ((0, ptr(d, 0)), (8, end), (16, end)):
                put(st, v, 24 * i + k, x)
        s.vec(s.o_bufs, v, 24 * n)
        # sinks
        s.o_sinks = f(lambda x: x.startswith("std::vector<std::unique_ptr<zarr::Sink"))
        v = heap(st, name + ".sinks")
        s.sinks = []
        for i in range(m):
            d = heap(st, "%s.sink%d" % (name, i))
            s.sinks.append(d)
            put(st, v, 8 * i, ptr(d, 0))
        s.vec(s.o_sinks, v, 8 * m)
        s.o_meta = f(lambda x: x.startswith("std::unique_ptr<zarr::Sink"))
        if meta:
            s.meta = heap(st, name + ".metasink")
            put(st, s.b, s.o_meta, ptr(s.meta, 0))
        else:
            put(st, s.b, s.o_meta, C(64, 0))
        tp = heap(st, name + ".pool")
        o = f(lambda x: "ThreadPool" in x)
        put(st, s.b, o, ptr(tp, 0))
        put(st, s.b, o + 8, C(64, 0))
        o = f(lambda x: "S3ConnectionPool" in x)
        if s3:
            cp = heap(st, name + ".conns")
            put(st, s.b, o, ptr(cp, 0))
        else:
            put(st, s.b, o, C(64, 0))
        put(st, s.b, o + 8, C(64, 0))
        # counters
        fl = p.fields(BASE)
        names = {n_: (o, sz, ty) for n_, o, sz, ty in fl}
        ints = [(n_, o, sz) for n_, o, sz, ty in fl if strip(ty) in ("unsigned int", "unsigned long", "uint32_t", "uint64_t", "size_t", "int")]
        s.counters = {}
        for n_, o, sz in ints:
            x = sym("w." + n_, 8 * sz)
            s.counters[n_] = (o, sz, x)
            put(st, s.b, o, x)
        for n_, o, sz, ty in fl:
            if ty == "bool":     # nothing has failed, nothing is being finalized
                put(st, s.b, o, C(8, 0))
        s.own = [x for x in p.fields(cls) if x[1] >= rec(p, BASE)["size"] - 8 and x[0] not in names]

    def vec(s, o, v, n):
        for k, x in ((0, 0), (8, n), (16, n)):
            put(s.st, s.b, o + k, ptr(v, x))

    def counter(s, word):
        c = [x for n, x in s.counters.items() if word in n]
        if len(c) != 1:
            raise Anchor("ArrayWriter counter " + word)
        return c[0]


def f2(p, r, ty):
    return field(p, r, ty=ty)[0]


def stub(I, p, names, ret=1, miss=True):
    """these member functions of the array writers are only recorded, and return true"""
    for nm in names:
        c = [f for f in p.fns.values() if f.base == nm and "ArrayWriter" in f.ctx]
        if not c:
            if miss:
                raise Anchor("no ArrayWriter function " + nm)
            continue
        for f in c:
            def h(J, st, c, nm=nm):
                J.emit(st, "aw_" + nm, c.ctx, held=models.held(st))
                return [(st, "ret", C(1, ret))]
            I.over[f.n] = h
    return I
