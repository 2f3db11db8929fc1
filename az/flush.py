"""One write-out of an array writer on an I/O system where nothing fails: which bytes go to which file, where."""
from .writer import *
from .checks.geometry import BYTES
from . import terms as t, models


def px_bytes(k):
    return BYTES[k]


class Flush:
    """root 'frame': write_frame receiving frame number N (the last of its layer);
    root 'finalize': finalize_array after N frames. first: no files are open yet."""

    def __init__(s, chk, cls, geo, N, root="frame", first=True, s3=False, compressed=False, pending=True, dtype=1, level=2, append=13, meta=False):
        p = s.p = chk.p
        s.chk, s.cls, s.geo, s.N, s.root, s.first, s.s3 = chk, cls, geo, N, root, first, s3
        J = s.J = Jobs(chk, "run")
        J.write_fails = False
        I = s.I = J.I
        I.fs_throws = False
        I.fs_ok = True
        v3 = s.v3 = cls == V3
        st = s.st = State()
        I.assume(st, J.stopped, False)
        n = geo.chunks()
        s.parts = geo.shards() if v3 else n
        s.px = px_bytes(dtype)
        cb = s.px
        for a, c, h in geo.d:
            cb *= c
        s.chunkbytes = cb
        w = s.w = Writer(p, st, cls, geo, n=n, m=0 if first else s.parts, bytes_=C(64, cb), compressed=compressed, s3=s3)
        o = field(p, CFG, ty=lambda x: x == "?" or x == "ZarrDataType")[0]
        put(st, w.b, w.co + o, C(32, dtype))
        dob = t.split(I.load(st, ptr(w.b, w.co + f2(p, CFG, lambda x: "ArrayDimensions" in x)), 8, 64))[0]
        put(st, dob, dtfield(p)[0], C(32, dtype))
        fo, fsz, _ = w.counter("frames_written")
        put(st, w.b, fo, C(8 * fsz, N - 1 if root == "frame" else N), fsz)
        s.ao, s.asz, _ = w.counter("append_chunk")
        s.level, s.append = level, append
        put(st, w.b, s.ao, C(8 * s.asz, append), s.asz)
        s.store, s.bucket = "some/store.zarr", "buck"
        for n_, (o, sz, ty) in w.cf.items():
            if ty in ("int", "unsigned int", "uint32_t", "unsigned long") and sz in (4, 8):
                put(st, w.b, w.co + o, C(8 * sz, level), sz)
            elif ty.startswith("std::optional<std::__cxx11"):
                if s3:
                    st.wobj(w.b).c[("s", w.co + o)] = (t.lit(s.bucket), 32)
            elif ty.startswith("std::__cxx11::basic_string"):
                st.wobj(w.b).c[("s", w.co + o)] = (t.lit(s.store), 32)
        bo, bsz, _ = w.counter("bytes_to_flush")
        put(st, w.b, bo, C(8 * bsz, 4096 if pending else 0), bsz)
        if v3:
            s.tables()
        s.blosc = {}
        I.over["blosc_compress_ctx"] = s.compress
        s.names = {}
        for f in p.fns.values():
            if f.base in ("FileSink", "S3Sink") and f.ctx in ("zarr::FileSink", "zarr::S3Sink"):
                I.over[f.n] = s.newsink
        if meta:
            from . import jsonm
            jsonm.install(I)
        else:
            stub(I, p, ["write_array_metadata_"])
        for f in p.byq.get("zarr::ArrayWriter::write_frame_to_chunks_", []):
            I.over[f.n] = lambda JJ, s_, c: C(64, s.framebytes())
        fs = p.byq.get("zarr::finalize_sink", [])
        for f in fs:
            I.over[f.n] = s.finsink
        J.finalized = fs
        I.hooks.append(s.hook)
        if s3:
            for f in p.fns.values():
                if f.base == "bucket_exists_":
                    I.over[f.n] = lambda JJ, s_, c: C(1, 1)

    def framebytes(s):
        (a, _, _), (b, _, _) = s.geo.d[-2:]
        return s.px * a * b

    def tables(s):
        p, st, w = s.p, s.st, s.w
        per, m = s.geo.per_shard(), s.geo.shards()
        s.per = per
        o = field(p, V3, ty=lambda x: x.startswith("std::vector<std::vector<unsigned long"))[0]
        s.to = o
        v = heap(st, "w.tables")
        s.T = []
        mx = C(64, -1)
        for i in range(m):
            tb = heap(st, "w.table%d" % i)
            row = []
            for k in range(2 * per):
                x = mx if s.first else sym("table%d.%d" % (i, k), 64)
                row.append(x)
                put(st, tb, 8 * k, x)
            s.T.append(row)
            for k, x in ((0, 0), (8, 16 * per), (16, 16 * per)):
                put(st, v, 24 * i + k, ptr(tb, x))
        w.vec(o, v, 24 * m)
        o = field(p, V3, ty=lambda x: x.startswith("std::vector<unsigned long"))[0]
        s.oo = o
        v = heap(st, "w.offsets")
        s.F = []
        for i in range(m):
            x = C(64, 0) if s.first else sym("offset%d" % i, 64)
            s.F.append(x)
            put(st, v, 8 * i, x)
        w.vec(o, v, 8 * m)

    def compress(s, J, st, c):
        a = c.args
        n = st.cnt.get("blosc", 0)
        st.cnt["blosc"] = n + 1
        r = sym("csize%d" % n, 32)
        J.assume(st, cmp("slt", C(32, 0), r), True)
        J.emit(st, "blosc", c.ctx, src=a[4], dst=a[5], r=r, level=a[0], shuffle=a[1], px=a[2], codec=J.cstring(st, a[7]))
        return r

    def newsink(s, J, st, c):
        a = list(c.args)
        this = a.pop(0)
        strs, k = [], 0
        for ty in c.f.pt:
            if "basic_string_view" in ty and not ty.endswith("&"):
                strs.append(models.sv(J, st, a, k))
                k += 2
            elif "basic_string" in ty:
                strs.append(models.gets(J, st, a[k]))
                k += 1
            else:
                k += 1
        J.emit(st, "sink_new", c.ctx, sink=this, names=tuple(strs), cls=c.f.base)
        return None

    def finsink(s, J, st, c):
        v = J.load(st, c.args[0], 8, 64)
        J.emit(st, "sink_final", c.ctx, sink=v)
        J.store(st, c.args[0], C(64, 0), 8)
        return [(st, "ret", C(1, 1))]

    def hook(s, J, st, e):
        if e[0] == "sink_write":
            off, a = e.args[0], e.args[1:]
            data, n = (a[0], a[1])
            b = t.split(data)[0] if data.op == "ptr" else None
            ch = s.chunk_at(J, st, data)
            words = None
            if ch is None and b is not None and n.op == "c" and t.cv(n) % 8 == 0 and t.cv(n) <= 1 << 14:
                o = t.split(data)[1]
                words = tuple(J.load(st, ptr(b, t.add(o, C(64, 8 * k))), 8, 64) for k in range(t.cv(n) // 8))
            J.emit(st, "out", None, sink=e.sink, off=off, n=n, chunk=ch, words=words, data=data)

    def chunk_at(s, J, st, data):
        """index of the chunk buffer whose first byte this is (following compression)"""
        w = s.w
        lo, hi = (J.load(st, ptr(w.b, w.o_bufs + o), 8, 64) for o in (0, 8))
        if lo.op == "ptr":
            n = t.sub(hi, lo)
            if n.op == "c":
                b, o = t.split(lo)
                for i in range(t.cv(n) // 24):
                    if J.load(st, ptr(b, t.add(o, C(64, 24 * i))), 8, 64) is data:
                        return i
        return None

    def run(s):
        I, p, st, w = s.I, s.p, s.st, s.w
        if s.root == "frame":
            f = s.f = fns(p, "zarr::ArrayWriter::write_frame")[0]
            return I.run(st, f, [w.this, sym("data", 64), C(64, s.framebytes())])
        f = s.f = fns(p, "zarr::finalize_array")[0]
        up = heap(st, "writerptr")
        put(st, up, 0, w.this)
        for d in p.fns.values():   # the destructor of the writer is not of interest
            if d.base.startswith("~") and "ArrayWriter" in d.ctx:
                I.over[d.n] = lambda JJ, s_, c: None
        return I.run(st, f, [ptr(up, 0)])
