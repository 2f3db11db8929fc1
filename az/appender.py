"""An abstract stream whose array writers only record the frames they are given."""
from . import terms as t, models
from .terms import C, sym, ptr, cmp
from .interp import State, Obj, Budget, Unsupported
from .ir import Anchor
from .lib import *
from .jobs import Geo, fill_dims
from .mk import Mk, strip
from .checks.geometry import BYTES

REC = "ZarrStream_s"


def one(p, what, ty):
    c = [(n, o, sz, x) for n, o, sz, x in p.fields(REC) if ty(x, n, sz)]
    if len(c) != 1:
        raise Anchor("ZarrStream_s: %d fields for its %s" % (len(c), what))
    return c[0][1]


class Appender:
    """levels: number of array writers. o bytes of a frame are buffered.
    fail: set of outcomes a writer may have besides consuming the frame: "zero", "throw"."""

    def __init__(s, chk, w, h, dtype=0, levels=1, o=0, fail=(), have=(), frame=None, track=False):
        p = s.p = chk.p
        s.chk, s.w, s.h, s.fail, s.levels = chk, w, h, fail, levels
        I = s.I = quiet_log(chk.interp())
        I.fs_throws = False
        s.px = BYTES[dtype]
        F = s.F = s.px * w * h
        if REC not in p.records:
            raise Anchor("record ZarrStream_s")
        st = s.st = State()
        b = s.b = heap(st, "stream")
        s.this = ptr(b, 0)
        for n, off, sz, ty in p.fields(REC):
            if ty.startswith("std::__cxx11::basic_string<"):
                st.wobj(b).c[("s", off)] = (t.lit(""), 32)
            elif sz == 4 and "*" not in ty:
                put(st, b, off, C(32, dtype))
            elif ty.startswith("std::optional"):
                st.wobj(b).f += ((off, off + sz, 0),)
        mk = Mk(p, st)
        d = heap(st, "streamdims")
        mk.objs["dims"] = (d, 0)
        fill_dims(p, st, mk, "dims", Geo((0, 4, 1), (h, max(1, h // 2), 1), (w, max(1, w // 2), 1)))
        put(st, d, dtfield(p)[0], C(32, dtype))
        off = one(p, "dimensions", lambda x, n, sz: "ArrayDimensions" in x)
        put(st, b, off, ptr(d, 0))
        put(st, b, off + 8, C(64, 0))
        put(st, b, one(p, "multiscale flag", lambda x, n, sz: x == "bool"), C(8, int(levels > 1)))
        s.ofb = one(p, "frame buffer", lambda x, n, sz: x.startswith("std::vector<std::byte"))
        s.fb = heap(st, "framebuffer")
        for k, x in ((0, 0), (8, F), (16, F)):
            put(st, b, s.ofb + k, ptr(s.fb, x))
        s.oo = one(p, "frame buffer offset", lambda x, n, sz: x == "unsigned long")
        put(st, b, s.oo, C(64, o))
        off = one(p, "array writers", lambda x, n, sz: x.startswith("std::vector<std::unique_ptr<zarr::ArrayWriter"))
        v = heap(st, "writers")
        s.writers = []
        for i in range(levels):
            x = heap(st, "writer%d" % i)
            s.writers.append(x)
            put(st, v, 8 * i, ptr(x, 0))
        for k, x in ((0, 0), (8, 8 * levels), (16, 8 * levels)):
            put(st, b, off + k, ptr(v, x))
        s.om = None
        if levels > 1:
            off = s.om = one(p, "pending frames", lambda x, n, sz: x.startswith("std::unordered_map<unsigned long, std::optional<std::byte"))
            mp = ptr(b, off)
            mid = models.mapid(I, st, mp)
            keys = tuple(C(64, i) for i in range(1, levels))
            models.mxset(st, mp, keys)
            s.nodes = {}
            s.have = {}
            for i in range(1, levels):
                models.mxnode(I, st, mid, keys[i - 1], 8)
                n = ("M", mid, keys[i - 1])
                s.nodes[i] = n
                o_ = st.wobj(n)
                if i in have:
                    x = heap(st, "pending%d" % i)
                    s.have[x] = s.size(i)
                    o_.c[0] = (ptr(x, 0), 8)
                    o_.c[8] = (C(8, 1), 1)
                else:
                    o_.c[0] = (C(64, 0), 8)
                    o_.c[8] = (C(8, 0), 1)
        s.data = heap(st, "data")
        s.out = heap(st, "bytes_out")
        wf = p.byq.get("zarr::ArrayWriter::write_frame", [])
        if not wf:
            raise Anchor("ArrayWriter::write_frame")
        for f in wf:
            I.over[f.n] = s.write_frame
        if track:
            def rec(kind):
                def h_(J, st_, *a):
                    if kind == "load":
                        p_, q, bits, f, cx = a
                        size, v = max(1, bits // 8), None
                        s.touch(J, st_, "ld", p_, size, cx, v)
                    else:
                        p_, v, q, f, cx = a
                        s.touch(J, st_, "sd", p_, max(1, (v.bits if v.op != "ptr" else 64) // 8), cx, v)
                return h_
            I.on_load = rec("load")
            I.on_store = rec("store")

    def size(s, level):
        w, h = s.dim(level)
        return w * h * s.px

    def dim(s, level):
        w, h = s.w, s.h
        for _ in range(level):
            w, h = (w + 1) // 2, (h + 1) // 2
        return w, h

    def touch(s, J, st, kind, q, size, cx, v):
        if q.op == "ptr" and q.a[0][0] == "H" and (q.a[0] in (s.data, s.fb) or q.a[0][1].__class__ is not str or q.a[0][1].startswith("pending")):
            J.emit(st, kind, cx, b=q.a[0], o=q.a[1], n=size, v=v)

    def write_frame(s, J, st, c):
        lv = -1
        th = c.args[0]
        if th.op == "ptr" and th.a[0] in s.writers:
            lv = s.writers.index(th.a[0])
        outs = []
        rs = [("ok", None)] + [(k, None) for k in s.fail]
        for i, (k, _) in enumerate(rs):
            s2 = st if i == len(rs) - 1 else st.fork()
            J.emit(s2, "frame", c.ctx, level=lv, at=c.args[1], n=c.args[2], res=k)
            if k == "ok":
                outs.append((s2, "ret", c.args[2]))
            elif k == "zero":
                outs.append((s2, "ret", C(64, 0)))
            else:
                outs.append((s2, "exc", J.make_exc(s2, c, "_ZTISt13runtime_error")))
        return outs

    def append(s, st, n, at=0):
        """ZarrStream_append of n bytes -> outcomes"""
        f = s.f = s.p.fns.get("ZarrStream_append")
        if f is None:
            raise Anchor("ZarrStream_append")
        put(st, s.out, 0, sym("bytes_out?", 64))
        return [x for x in s.I.run(st, f, [s.this, ptr(s.data, at), C(64, n), ptr(s.out, 0)]) if x[1] != "dead"]
