"""C38: how a frame is cut into tiles."""
from ..writer import *
from ..check import path
from .geometry import BYTES

BIG = (1 << 31) + 5
TGEOS = [Geo((0, 2, 1), (4, 2, 1), (3, 2, 1)),
         Geo((0, 3, 1), (5, 2, 2), (7, 3, 2)),
         Geo((0, 1, 1), (1, 4, 1), (6, 6, 1)),
         Geo((0, 1, 1), (9, 1, 2), (1, 1, 1)),
         Geo((0, 2, 2), (3, 2, 1), (4, 3, 1), (5, 2, 2)),
         Geo((0, 1, 2), (3, 3, 1), (2, 1, 2), (3, 2, 2), (7, 5, 1)),
         Geo((0, 2, 1), (2, 2, 1), (3, 2, 1), (4, 4, 1)),
         Geo((0, 2, 1), (3, 2, 1), (BIG, 1 << 31, 1)),
         Geo((0, 1, 1), (3, 3, 1), (BIG, BIG, 1)),
         Geo((0, 1, 1), (2, 1, 1), (70000, 70000, 1)),
         Geo((0, 5, 1), (4, 2, 1), (70000, 40000, 1))]
MORE = [Geo((0, 2, 1), (3, 2, 1), ((1 << 32) - 1, 1 << 31, 1)),
        Geo((0, 4, 1), (3, 1, 1), (2, 2, 1), (5, 3, 1), (2, 3, 1), (3, 2, 1)),
        Geo((0, 1, 1), (13, 4, 1), (11, 4, 1)),
        Geo((0, 7, 1), (2, 1, 1), (6, 5, 1), (6, 1, 1))]


def place(geo, f):
    """(number of the first chunk of frame f's plane among the buffered chunks, pixel offset of the frame inside each of its chunks)"""
    ix = []
    for a, c, _ in reversed(geo.d[1:-2]):
        ix.append((f % a, a, c))
        f //= a
    ix.reverse()
    g = 0
    for i, a, c in ix:
        g = g * Geo.up(a, c) + i // c
    for a, c, _ in geo.d[-2:]:
        g *= Geo.up(a, c)
    o = f % geo.d[0][1]
    for i, a, c in ix:
        o = o * c + i % c
    for a, c, _ in geo.d[-2:]:
        o *= c
    return g, o


def expected(geo, f, px):
    (rows, tr, _), (cols, tc, _) = geo.d[-2:]
    g, o = place(geo, f)
    ntx, nty = Geo.up(cols, tc), Geo.up(rows, tr)
    out = []
    for i in range(nty):
        for j in range(ntx):
            for k in range(tr):
                y = i * tr + k
                if y >= rows:
                    continue
                x = j * tc
                w = min(x + tc, cols) - x
                out.append((g + i * ntx + j, px * (o + k * tc), px * (y * cols + x), px * w))
    return out


def norm(segs):
    out = []
    for c, d, s, n in sorted(segs):
        if not n:
            continue
        if out and out[-1][0] == c and out[-1][1] + out[-1][3] == d and out[-1][2] + out[-1][3] == s:
            out[-1] = (c, out[-1][1], out[-1][2], out[-1][3] + n)
        else:
            out.append((c, d, s, n))
    return out


def c38(chk):
    p = chk.p
    dts = [k for k in sorted(BYTES) if BYTES[k]]
    for gi, geo in enumerate(TGEOS + (MORE if chk.thorough else [])):
        inner = 1
        for a, _, _ in geo.d[1:-2]:
            inner *= a
        layer = inner * geo.d[0][1]
        frames = sorted({0, 1, layer // 2, layer - 1, layer, layer + inner, 5 * layer + inner // 2 + 1, (1 << 32) + 3, (1 << 31) + 5 * inner + 1, (1 << 33) + 3 * layer - 1, (1 << 30) + 1})
        for f in frames:
            dt = dts[(gi + f) % len(dts)]
            for dt in ([dt] if not chk.thorough else dts[::3] + [dt]):
                one(chk, geo, f, dt)
    # frames of another size are refused and change nothing
    for geo in TGEOS[:3]:
        for n in (0, 1, -1, +1):
            one(chk, geo, 3, 1, delta=n)
    chk.at_least("placed", 30)
    chk.at_least("refused", 4)


def one(chk, geo, f, dt, delta=0):
    p = chk.p
    px = BYTES[dt]
    J = Jobs(chk, "note")
    J.write_fails = False
    I = J.I
    I.fs_ok = True
    st = State()
    cb = px
    for a, c, h in geo.d:
        cb *= c
    n = geo.chunks()
    w = Writer(p, st, V2, geo, n=n, m=0, bytes_=C(64, cb))
    o = field(p, CFG, ty=lambda x: x == "?" or x == "ZarrDataType")[0]
    put(st, w.b, w.co + o, C(32, dt))
    dob = t.split(I.load(st, ptr(w.b, w.co + f2(p, CFG, lambda x: "ArrayDimensions" in x)), 8, 64))[0]
    put(st, dob, dtfield(p)[0], C(32, dt))
    fo, fsz, _ = w.counter("frames_written")
    if f >= 1 << (8 * fsz):
        return
    put(st, w.b, fo, C(8 * fsz, f), fsz)
    stub(I, p, ["flush_impl_", "write_array_metadata_"])
    for nm in ("flush_", "compress_buffers_"):
        stub(I, p, [nm], miss=False)
    data = heap(st, "frame")
    (rows, _, _), (cols, _, _) = geo.d[-2:]
    nb = px * rows * cols
    if delta:
        nb = nb + delta * px
    stores = []
    bufs = {b: i for i, b in enumerate(w.bufs)}

    def on_store(JJ, s_, q, v, ins, fn, cx):
        b = t.split(q)[0]
        if b in bufs:
            stores.append(cx)
    I.on_store = on_store
    fn = fns(p, "zarr::ArrayWriter::write_frame")[0]
    what = "%s, %d-byte pixels, frame %d" % (geo, px, f)
    try:
        outs = [o for o in I.run(st, fn, [w.this, ptr(data, 0), C(64, nb)]) if o[1] != "dead"]
    except (Unsupported, Budget) as e:
        chk.undec("placed", "%s: %s" % (what, e))
        return
    if I.inexact():
        chk.undec("placed", "%s: %s is not followed exactly" % (what, I.inexact()))
        return
    for s2, k, v in outs:
        ev = s2.events()
        cp = [e for e in ev if e[0] in ("memcpy", "memmove") and e.d["d"].op == "ptr" and e.d["d"].a[0] in bufs]
        if delta:
            if k == "ret" and v.op == "c" and t.cv(v) == 0 and not cp:
                chk.ok("refused", "%s: %d bytes" % (what, nb))
            elif k == "exc" and not cp:
                chk.ok("refused", "%s: %d bytes" % (what, nb))
            else:
                chk.bad("refused", site(fn), "%s: a frame of %d bytes is taken, frames have %d" % (what, nb, px * rows * cols), key="size", path=path(s2))
            continue
        if stores and not cp:
            chk.undec("placed", "%s: pixels are stored one by one" % what)
            continue
        if k == "exc" or not (v.op == "c" and t.cv(v) == nb):
            chk.bad("consumed", site(fn), "%s: a frame of %d bytes is %s" % (what, nb, "refused" if k == "exc" else "reported as %s bytes" % t.show(v)), key="ret", path=path(s2))
            continue
        got, unk = [], False
        for e in cp:
            d, src, n_ = e.d["d"], e.d["src"], e.d["n"]
            if not (src.op == "ptr" and src.a[0] == data and all(x.op == "c" for x in (d.a[1], src.a[1], n_))):
                unk = True
                break
            got.append((bufs[d.a[0]], t.cv(d.a[1]), t.cv(src.a[1]), t.cv(n_)))
        if unk:
            chk.undec("placed", "%s: a copy is not followed" % what)
            continue
        for c, d, s_, n_ in got:
            if d + n_ > cb or s_ + n_ > nb:
                chk.bad("in-bounds", cp[0].site, "%s: copies bytes %d..%d of a frame of %d to %d of chunk %d (%d bytes)" % (what, s_, s_ + n_, nb, d, c, cb), key="bounds", path=path(s2))
                break
        else:
            a, b = norm(got), norm(expected(geo, f, px))
            if a != b:
                x = [z for z in a if z not in b][:1] or [("nothing",)]
                y = [z for z in b if z not in a][:1] or [("nothing",)]
                chk.bad("placed", cp[0].site if cp else site(fn), "%s: (chunk, position in it, position in the frame, bytes) is %s, it must be %s" % (what, x[0], y[0]), key="place", path=path(s2))
            else:
                chk.ok("placed", "%s: %d runs of pixels" % (what, len(a)))
                chk.ok("in-bounds")
                chk.ok("consumed")
