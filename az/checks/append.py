"""C26, C27, C36: appending to a stream, with and without multiscale levels."""
import random
from ..appender import *
from ..check import path


# ---- C26 ---------------------------------------------------------------------------------------
def put_iv(iv, at, n, pos):
    """record that buffer bytes at..at+n hold stream bytes pos.."""
    out = []
    for a, l, p_ in iv:
        if a + l <= at or a >= at + n:
            out.append((a, l, p_))
            continue
        if a < at:
            out.append((a, at - a, p_))
        if a + l > at + n:
            out.append((at + n, a + l - at - n, p_ + at + n - a))
    out.append((at, n, pos))
    return norm(out)


def norm(iv):
    out = []
    for a, l, p_ in sorted(iv):
        if not l:
            continue
        if out and out[-1][0] + out[-1][1] == a and out[-1][2] + out[-1][1] == p_:
            out[-1] = (out[-1][0], out[-1][1] + l, out[-1][2])
        else:
            out.append((a, l, p_))
    return out


def cut(iv, at, n):
    out = []
    for a, l, p_ in iv:
        lo, hi = max(a, at), min(a + l, at + n)
        if lo < hi:
            out.append((lo, hi - lo, p_ + lo - a))
    return norm(out)


def c26(chk):
    small = [(3, 2, 1), (1, 1, 0)] + ([(2, 2, 8), (3, 1, 1), (5, 1, 4)] if chk.thorough else [])
    for w, h, dt in small:
        F = w * h * BYTES[dt]
        ns = range(0, 3 * F + 2) if F <= 6 or chk.thorough else sorted({0, 1, 2, F // 2, F - 1, F, F + 1, 2 * F - 1, 2 * F, 2 * F + 1, 3 * F + 5})
        os_ = range(0, F + 1) if F <= 6 or chk.thorough else sorted({0, 1, F // 2, F - 1, F})
        for o in os_:
            for n in ns:
                step(chk, w, h, dt, o, n, ())
    # frames and pieces beyond 4 GiB
    W = 1 << 16
    F = W * (W + 1)
    for o in (0, 5, F - 3, (1 << 32) + 1):
        for n in (1, 2, 3, (1 << 31) + 1, 1 << 32, F - 5, F, F + 1, 2 * F + 7):
            step(chk, W, W + 1, 0, o, n, ())
    # writers that fail
    for o in (0, 2, 4):
        for n in (1, 2, 3, 4, 6, 9, 13):
            step(chk, 2, 2, 0, o, n, ("zero", "throw"))
    # multiscale
    for w, h, dt in ((3, 2, 1), (2, 2, 0), (1, 3, 2)):
        F = w * h * BYTES[dt]
        for o, n in ((0, F), (0, 2 * F + 1), (1, F - 1), (1, 2 * F - 1), (F - 1, F + 1), (F, 1)):
            for have in ((), (1,)):
                step(chk, w, h, dt, o, n, (), levels=2, have=have)
    chk.at_least("in-order", 60)
    chk.at_least("reported", 60)
    chk.at_least("levels-fed", 10)


def step(chk, w, h, dt, o, n, fail, levels=1, have=()):
    """one append from an arbitrary reachable state: o bytes of a frame are buffered"""
    A = Appender(chk, w, h, dt, levels=levels, o=o, fail=fail, have=have, track=levels > 1)
    I, F = A.I, A.F
    what = "frames of %d bytes, %d buffered, append of %d%s" % (F, o, n, ", %d levels" % levels if levels > 1 else "")
    try:
        outs = A.append(A.st, n)
    except (Unsupported, Budget) as e:
        chk.undec("in-order", "%s: %s" % (what, e))
        return
    where = site(chk.p.byq.get("ZarrStream_s::append", [A.f])[0])
    if I.inexact():
        chk.undec("in-order", "%s: %s is not followed exactly" % (what, I.inexact()))
        return
    if not outs:
        chk.undec("in-order", "%s: no outcome" % what)
        return
    for s2, k, v in outs:
        iv = [(0, o, -o)] if o else []
        done = 0
        last = False
        bad = None
        threw = False
        fed = []      # reads of the frame last handed to the full-resolution array
        cur = None
        unk = None
        for e in s2.events():
            if e[0] in ("memcpy", "memmove", "memset", "fill", "sd"):
                d = e.d.get("d") or e.d.get("at") or (ptr(e.b, e.o) if e[0] == "sd" else None)
                if d is None or d.op != "ptr" or d.a[0] != A.fb:
                    if e[0] == "memcpy" and cur is not None and e.src.op == "ptr" and e.src.a[0] == cur[0] and e.src.a[1].op == "c" and e.n.op == "c":
                        fed.append((t.cv(e.src.a[1]), t.cv(e.n), 0))
                    continue
                if e[0] == "sd":
                    continue
                src = e.d.get("src")
                if src is None or src.op != "ptr" or any(x.op != "c" for x in (d.a[1], src.a[1], e.n)) or src.a[0] not in (A.data, A.fb):
                    unk = "a write to the frame buffer"
                    break
                dn, sn, nn = t.cv(d.a[1]), t.cv(src.a[1]), t.cv(e.n)
                if dn + nn > F:
                    bad = ("in-bounds", "bytes %d..%d of the frame buffer (%d bytes) are written" % (dn, dn + nn, F))
                    break
                if src.a[0] == A.data:
                    if sn + nn > n:
                        bad = ("in-bounds", "bytes %d..%d of the caller's %d are read" % (sn, sn + nn, n))
                        break
                    iv = put_iv(iv, dn, nn, sn)
                else:
                    got = cut(iv, sn, nn)
                    for a, l, p_ in got:
                        iv = put_iv(iv, a - sn + dn, l, p_)
            elif e[0] == "ld":
                if cur is not None and e.b == cur[0] and e.o.op == "c":
                    fed.append((t.cv(e.o), e.n, 0))
            elif e[0] == "frame" and e.level == 0:
                if cur is not None and not feeds(cur, fed):
                    bad = ("levels-fed", "the frame before is not read in full to make the next level")
                    break
                cur, fed = None, []
                at_, m = e.at, e.n
                if at_.op != "ptr" or at_.a[0] not in (A.data, A.fb) or at_.a[1].op != "c" or m.op != "c":
                    unk = "a frame"
                    break
                m, off = t.cv(m), t.cv(at_.a[1])
                if m != F:
                    bad = ("in-order", "a piece of %d bytes is given to the array writer, frames have %d" % (m, F))
                    break
                if at_.a[0] == A.data:
                    if off + m > n:
                        bad = ("in-bounds", "bytes %d..%d of the caller's %d are read" % (off, off + m, n))
                        break
                    got = [(0, F, off)]
                else:
                    got = [(a - off, l, p_) for a, l, p_ in cut(iv, off, m)]
                want = [(0, F, done * F - o)]
                if got != want:
                    bad = ("in-order", "frame %d is made of stream bytes %s, it must be %d.." % (done, [(p_, l) for a, l, p_ in got], done * F - o))
                    break
                if e.res == "ok":
                    done += 1
                    if levels > 1:
                        cur = (at_.a[0], off, F)
                elif e.res == "throw":
                    threw = True
            elif e[0] == "frame" and e.level < 0:
                unk = "the writer a frame goes to"
                break
        if unk:
            chk.undec("in-order", "%s: %s is not followed" % (what, unk))
            continue
        if bad is None and cur is not None and not feeds(cur, fed) and not (threw or k == "exc"):
            bad = ("levels-fed", "the last frame is not read in full to make the next level")
        if bad:
            chk.bad(bad[0], where, "%s: %s" % (what, bad[1]), key=bad[0], path=path(s2))
            continue
        chk.ok("in-order", what)
        if levels > 1 and done:
            chk.ok("levels-fed", what)
        if k == "exc":
            chk.bad("status", where, "%s: an exception leaves ZarrStream_append" % what, key="exc", path=path(s2))
            continue
        if v.op != "c":
            chk.undec("status", what)
            continue
        if threw:
            if t.cv(v) == 0:
                chk.bad("status", where, "%s: success is reported although a writer threw" % what, key="threw", path=path(s2))
            continue
        if t.cv(v) != 0:
            chk.bad("status", where, "%s: fails with status %d although nothing went wrong" % (what, t.cv(v)), key="status", path=path(s2))
            continue
        r, no = I.load(s2, ptr(A.out, 0), 8, 64), I.load(s2, ptr(A.b, A.oo), 8, 64)
        if r.op != "c" or no.op != "c":
            chk.undec("reported", "%s: %s bytes, offset %s" % (what, t.show(r), t.show(no)))
            continue
        r, no = t.cv(r), t.cv(no)
        exp = r - (done * F - o)
        failed = any(e[0] == "frame" and e.res == "zero" for e in s2.events())
        if no != exp or no > F or (no == F and not failed and n > 0):
            chk.bad("reported", where, "%s: %d bytes are reported, %d frames were written, %d bytes are then buffered" % (what, r, done, no), key="count", path=path(s2))
        elif not failed and r != n:
            chk.bad("reported", where, "%s: only %d bytes are consumed although nothing failed" % (what, r), key="short", path=path(s2))
        elif no and cut(iv, 0, no) != [(0, no, done * F - o)]:
            chk.bad("in-order", where, "%s: the frame buffer then holds stream bytes %s, it must hold %d.." % (what, [(p_, l) for a, l, p_ in cut(iv, 0, no)], done * F - o), key="buffer", path=path(s2))
        else:
            chk.ok("reported", "%s: %d" % (what, r))


def feeds(cur, fed):
    b, off, F = cur
    iv = []
    for a, l, _ in fed:
        iv = put_iv(iv, a, l, a)
    return cut(iv, off, F) == [(off, F, off)]


# ---- C27 ---------------------------------------------------------------------------------------
SHAPES = [(3, 2), (2, 2), (1, 1), (5, 3), (1, 4), (4, 1)]


def c27(chk):
    dts = sorted(k for k in BYTES if BYTES[k])
    shapes = SHAPES + ([(7, 5), (8, 4), (2, 9), (6, 6)] if chk.thorough else [])
    for i, (w, h) in enumerate(shapes):
        for dt in (dts if chk.thorough or i < 1 else dts[i % 3::3]):
            for have in ((), (1,), (1, 2)) if i < 3 or chk.thorough else ((1,),):
                levels = 3 if have or w > 2 else 2
                own(chk, w, h, dt, levels, have, ())
    for w, h, dt in ((3, 2, 1), (2, 2, 0), (3, 3, 9)):
        for have in ((1,), (1, 2)):
            own(chk, w, h, dt, 3, have, ("zero", "throw"))
    for have in ((), (1,), (2,), (1, 2)):
        finish(chk, have)
    chk.at_least("in-bounds", 20)
    chk.at_least("whole-pixels", 20)
    chk.at_least("freed-once", 20)
    chk.at_least("freed-at-end", 3)


def own(chk, w, h, dt, levels, have, fail):
    A = Appender(chk, w, h, dt, levels=levels, o=0, fail=fail, have=have, track=True)
    I, F, px = A.I, A.F, A.px
    what = "%dx%d pixels of %d bytes, %d levels, pending at %s" % (w, h, px, levels, list(have) or "none")
    try:
        outs = A.append(A.st, F)
    except (Unsupported, Budget) as e:
        chk.undec("freed-once", "%s: %s" % (what, e))
        return
    if I.inexact():
        chk.undec("freed-once", "%s: %s is not followed exactly" % (what, I.inexact()))
        return
    for s2, k, v in outs:
        r = judge27(chk, A, s2, px, F)
        if r == "undec":
            chk.undec("freed-once", what)
        elif r:
            chk.bad(r[0], r[2] or site(A.f), "%s: %s" % (what, r[1]), key=r[0], path=path(s2))
        else:
            for x in ("in-bounds", "whole-pixels", "freed-once"):
                chk.ok(x, what)


def judge27(chk, A, st, px, F):
    I = A.I
    live = {b: (n, True) for b, n in A.have.items()}
    dead = {}
    size = {A.data: F, A.fb: F}
    size.update(A.have)
    made = []
    wrote = {}
    for e in st.events():
        if e[0] == "new":
            b = t.split(e.p)[0]
            if e.d["size"].op != "c":
                return "undec"
            live[b] = (t.cv(e.d["size"]), e.arr)
            size[b] = t.cv(e.d["size"])
        elif e[0] == "delete":
            if e.p.op == "c":
                continue
            b, o = t.split(e.p)
            if b in dead:
                return ("freed-once", "a frame is freed twice", e.site)
            if b in (A.data, A.fb):
                return ("freed-once", "memory of the caller or of the frame buffer is freed", e.site)
            if b not in live:
                continue
            if live[b][1] != e.arr:
                return ("matching", "memory from new%s is freed with delete%s" % ("[]" if live[b][1] else "", "[]" if e.arr else ""), e.site)
            if t.cv(o) != 0 if o.op == "c" else True:
                return ("matching", "a pointer into a frame is freed", e.site)
            del live[b]
            dead[b] = 1
        elif e[0] in ("ld", "sd", "memcpy", "memset", "memmove"):
            acc = []
            if e[0] in ("ld", "sd"):
                acc.append((ptr(e.b, e.o), C(64, e.n), e[0] == "sd"))
            else:
                for key, wr in (("d", True), ("at", True), ("src", False)):
                    if key in e.d:
                        acc.append((e.d[key], e.n, wr))
            for q, n, wr in acc:
                if q.op != "ptr" or q.a[0] not in size:
                    continue
                b, o = q.a
                if b in dead:
                    return ("freed-once", "a frame is used after it was freed", e.site)
                if o.op != "c" or n.op != "c":
                    return "undec"
                o, n = t.cv(o), t.cv(n)
                if o + n > size[b]:
                    return ("in-bounds", "bytes %d..%d of %d are %s" % (o, o + n, size[b], "written" if wr else "read"), e.site)
                if b in live or b in (A.data, A.fb):
                    if b in A.have or b == A.data or e[0] == "sd" or size[b] % px == 0:
                        if (o % px or n % px) and e[0] in ("ld", "sd") or (e[0] == "ld" and n != px and b != A.fb and n % px):
                            return ("whole-pixels", "bytes %d..%d are accessed, pixels have %d" % (o, o + n, px), e.site)
                if wr and e[0] != "memset":
                    wrote[b] = put_iv(wrote.get(b, []), o, n, o)
        elif e[0] == "frame" and e.level != 0:
            if e.at.op != "ptr" or e.n.op != "c":
                return "undec"
            b, o = e.at.a
            if b in dead:
                return ("freed-once", "the frame given to level %d was freed before" % e.level, e.site)
            n = t.cv(e.n)
            if e.level > 0 and n != A.size(e.level):
                return ("whole-pixels", "a frame of %d bytes is given to level %d, its frames have %d" % (n, e.level, A.size(e.level)), e.site)
            if b in size and o.op == "c" and t.cv(o) + n > size[b]:
                return ("in-bounds", "a frame of %d bytes is given to level %d from a block of %d" % (n, e.level, size[b]), e.site)
            if b in live and b not in A.have and cut(wrote.get(b, []), 0, n) != [(0, n, 0)]:
                return ("whole-pixels", "the frame given to level %d is not filled" % e.level, e.site)
    # what is left belongs to the pending table, once
    refs = {}
    for i, node in A.nodes.items():
        on = I.load(st, ptr(node, 8), 1, 8)
        q = I.load(st, ptr(node, 0), 8, 64)
        if on.op != "c":
            return "undec"
        if not t.cv(on) or (q.op == "c" and t.cv(q) == 0):
            continue
        if q.op != "ptr":
            return "undec"
        b = q.a[0]
        if b in dead:
            return ("freed-once", "level %d keeps a pointer to a frame that was freed" % i, None)
        if b in refs:
            return ("freed-once", "levels %d and %d keep the same frame" % (refs[b], i), None)
        refs[b] = i
        if b in size and size[b] != A.size(i):
            return ("whole-pixels", "level %d keeps a frame of %d bytes, its frames have %d" % (i, size[b], A.size(i)), None)
        if b in live and b not in A.have and cut(wrote.get(b, []), 0, size[b]) != [(0, size[b], 0)]:
            return ("whole-pixels", "the frame kept for level %d is not filled" % i, None)
    for b, (n, arr) in live.items():
        if arr and b not in refs:
            return ("freed-once", "a frame of %d bytes is neither freed nor kept" % n, None)
    return None


def finish(chk, have):
    """destroying the stream frees what is pending"""
    A = Appender(chk, 3, 2, 1, levels=3, o=0, have=have, track=True)
    I, p = A.I, chk.p
    f = p.fns.get("ZarrStream_destroy")
    if f is None:
        raise Anchor("ZarrStream_destroy")
    for q in ("zarr::finalize_array", "zarr::finalize_sink", "zarr::ThreadPool::await_stop"):
        for g in p.byq.get(q, []):
            I.over[g.n] = lambda J, s_, c: C(1, 1) if c.f.ret != "void" else None
    for g in p.fns.values():
        if g.base == "write_group_metadata_":
            I.over[g.n] = lambda J, s_, c: C(1, 1)
    for n, off, sz, ty in p.fields(REC):
        if ty.startswith("std::shared_ptr<zarr::ThreadPool"):
            put(A.st, A.b, off, ptr(heap(A.st, "pool"), 0))
            put(A.st, A.b, off + 8, C(64, 0))
        elif ty.startswith("std::shared_ptr") and "Dimensions" not in ty:
            put(A.st, A.b, off, C(64, 0))
            put(A.st, A.b, off + 8, C(64, 0))
        elif ty.startswith("std::unordered_map<std::__cxx11"):
            models.mxset(A.st, ptr(A.b, off), ())
    what = "destroying a stream with pending frames at %s" % (list(have) or "no level")
    try:
        outs = [x for x in I.run(A.st, f, [A.this]) if x[1] != "dead"]
    except (Unsupported, Budget) as e:
        chk.undec("freed-at-end", "%s: %s" % (what, e))
        return
    if I.inexact():
        chk.undec("freed-at-end", "%s: %s is not followed exactly" % (what, I.inexact()))
        return
    for s2, k, v in outs:
        n = {b: 0 for b in A.have}
        bad = None
        for e in s2.events():
            if e[0] == "delete" and e.p.op == "ptr" and e.p.a[0] in n:
                b = e.p.a[0]
                n[b] += 1
                if not e.arr:
                    bad = ("matching", "a frame from new[] is freed with delete", e.site)
                if n[b] > 1:
                    bad = ("freed-at-end", "a pending frame is freed twice", e.site)
        left = [b for b in n if not n[b]]
        if bad is None and left:
            bad = ("freed-at-end", "%d pending frames are not freed" % len(left), site(f))
        if bad:
            chk.bad(bad[0], bad[2], "%s: %s" % (what, bad[1]), key=bad[0], path=path(s2))
        else:
            chk.ok("freed-at-end", what)


# ---- C36 ---------------------------------------------------------------------------------------
def c36(chk):
    p = chk.p
    names = dict((v, n.split("_")[1]) for n, v in p.enum("ZarrDataType_uint8") if "_" in n)
    dts = sorted(k for k in BYTES if BYTES[k])
    shapes = SHAPES if not chk.thorough else SHAPES + [(7, 5), (8, 4), (2, 9), (6, 6), (9, 1)]
    for w, h in shapes:
        for dt in dts:
            for have in ((), (1,), (1, 2)) if (w, h) in SHAPES[:3] or chk.thorough else ((1,),):
                value(chk, w, h, dt, names[dt], have)
    chk.at_least("mean", 60)


def pick(rng, kind, bits, mode):
    if kind == "float":
        x = rng.choice([0.0, 1.0, -1.0, rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-6, 7)])
        return float(t.f32(x)) if bits == 32 else x
    lo, hi = (0, (1 << bits) - 1) if kind == "uint" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    if mode == 0:
        return hi
    if mode == 1:
        return lo
    if mode == 2:
        return rng.choice([lo, hi])
    if mode == 3:
        return rng.choice([hi, hi - 1, hi - 2, hi - 3])
    if mode == 4:
        return rng.choice([0, 1, 2, 3]) if lo == 0 else rng.choice([-2, -1, 0, 1, 2])
    return rng.randrange(lo, hi + 1)


def enc(x, kind, bits):
    import struct
    if kind == "float":
        return struct.unpack("<I", struct.pack("<f", x))[0] if bits == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
    return x & t.mask(bits)


def dec(v, kind, bits):
    import struct
    if kind == "float":
        return struct.unpack("<f", struct.pack("<I", v))[0] if bits == 32 else struct.unpack("<d", struct.pack("<Q", v))[0]
    return t.sgn(v, bits) if kind == "int" else v


def halve(img, w, h):
    from fractions import Fraction as Q
    W, H = (w + 1) // 2, (h + 1) // 2
    out = []
    for r in range(H):
        for c in range(W):
            s = 0
            for y in (2 * r, min(2 * r + 1, h - 1)):
                for x in (2 * c, min(2 * c + 1, w - 1)):
                    s += Q(img[y * w + x])
            out.append(s / 4)
    return out


def value(chk, w, h, dt, name, have):
    levels = 3
    A = Appender(chk, w, h, dt, levels=levels, o=0, have=have, track=True)
    I, px = A.I, A.px
    bits = 8 * px
    kind = name.rstrip("0123456789")
    what = "%dx%d pixels of type %s, pending at %s" % (w, h, name, list(have) or "no level")
    where = site(A.p.byq.get("ZarrStream_s::append", [None])[0] or A.p.fns["ZarrStream_append"])
    got = {}      # level -> (terms, written)
    pend = {b: [sym(("pend", b, i), bits) for i in range(A.size(int(b[1][7:])) // px)] for b in A.have}
    for b, l in pend.items():
        for i, x in enumerate(l):
            put(A.st, b, i * px, x, px)
    src = [sym(("pixel", i), bits) for i in range(w * h)]
    for i, x in enumerate(src):
        put(A.st, A.data, i * px, x, px)

    def read(st, q, n):
        b, o = t.split(q)
        return [I.load(st, ptr(b, t.add(o, C(64, i * px))), px, bits) for i in range(n)]
    hk = I.hooks

    def on(J, st, e):
        if e[0] == "frame" and e.level > 0 and e.at.op == "ptr":
            n = A.size(e.level) // px
            I.on_load, s_ = None, I.on_load
            got[e.level] = (read(st, e.at, n), True, e.site)
            I.on_load = s_
    hk.append(on)
    try:
        outs = A.append(A.st, A.F)
    except (Unsupported, Budget) as e:
        chk.undec("mean", "%s: %s" % (what, e))
        return
    if I.inexact() or len(outs) != 1:
        chk.undec("mean", "%s: %s is not followed exactly" % (what, I.inexact() or "a branch on pixel values"))
        return
    s2, k, v = outs[0]
    I.on_load = None
    for i, node in A.nodes.items():
        onf = I.load(s2, ptr(node, 8), 1, 8)
        q = I.load(s2, ptr(node, 0), 8, 64)
        if onf.op == "c" and t.cv(onf) and q.op == "ptr" and i not in got:
            got[i] = (read(s2, q, A.size(i) // px), False, where)
    if not got:
        chk.bad("mean", where, "%s: no frame of a lower resolution is made" % what, key="none", path=path(s2))
        return
    rng = random.Random(chk.rng.random())
    for trial in range(12 if chk.thorough else 7):
        env, val = {}, {}
        for x in src + [y for l in pend.values() for y in l]:
            val[x] = pick(rng, kind, bits, trial)
            env[x] = enc(val[x], kind, bits)
        cache = {}
        ref = [val[x] for x in src]
        rw, rh = w, h
        for lv in sorted(got):
            terms, written, at = got[lv]
            if lv > 1 and not (lv - 1 in got and got[lv - 1][1]):
                chk.bad("mean", at, "%s: level %d is given an image while level %d still waits for its second one" % (what, lv, lv - 1), key="order", path=path(s2))
                return
            if written and lv + 1 < levels and lv + 1 not in got:
                chk.bad("mean", at, "%s: the image of level %d is not passed on to level %d" % (what, lv, lv + 1), key="dropped", path=path(s2))
                return
            ref = halve(ref, rw, rh)
            rw, rh = A.dim(lv)
            pb = [b for b in A.have if b[1] == "pending%d" % lv]
            if written:
                if not pb:
                    chk.bad("mean", at, "%s: level %d is given a frame although it waits for a second one" % (what, lv), key="early", path=path(s2))
                    return
                ref = [(a + frac(val[x])) / 2 for a, x in zip(ref, pend[pb[0]])]
            tol = 2 * lv - (0 if written else 1)
            for i, (x, m) in enumerate(zip(terms, ref)):
                try:
                    z = dec(t.evalt(x, env, cache), kind, bits)
                except t.Undefined as e:
                    chk.bad("mean", at, "%s: pixel %d of level %d has no defined value: %s (its mean is %s)" % (what, i, lv, e, float(m)), key="undef" + name, path=path(s2))
                    return
                except KeyError as e:
                    z = e.args[0]
                    z = z.a[0] if getattr(z, "op", "") == "sym" and z.a else None
                    if isinstance(z, tuple) and z[0] == "L" and z[1][0] == "H" and not z[3]:
                        chk.bad("mean", at, "%s: pixel %d of level %d depends on memory that no pixel was written to (its mean is %s)" % (what, i, lv, float(m)), key="outside", path=path(s2))
                    else:
                        chk.undec("mean", "%s: %s" % (what, str(e)[:80]))
                    return
                if kind == "float":
                    big = max([abs(y) for y in val.values()] + [1e-30])
                    ok = abs(frac(z) - m) <= frac(big * (1e-5 if bits == 32 else 1e-12))
                else:
                    ok = abs(z - m) < tol
                if not ok:
                    chk.bad("mean", at, "%s: pixel %d of level %d is %s, the mean of what it covers is %s" % (what, i, lv, z, float(m)), key=name, path=path(s2))
                    return
        chk.ok("mean", what)


def frac(x):
    from fractions import Fraction as Q
    return Q(x)
