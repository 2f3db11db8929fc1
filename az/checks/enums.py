"""C17: tables over the public enumerations."""
from ..interp import State, Unsupported, Budget
from .. import terms as t, models
from ..terms import sym, ptr, C, ap
from ..lib import *
from ..check import path

KIND = {"int8": ("i", 1), "int16": ("i", 2), "int32": ("i", 4), "int64": ("i", 8), "uint8": ("u", 1), "uint16": ("u", 2),
        "uint32": ("u", 4), "uint64": ("u", 8), "float32": ("f", 4), "float64": ("f", 8), "float16": ("f", 2)}
CTYPE = {"signed char": ("i", 1), "short": ("i", 2), "int": ("i", 4), "long": ("i", 8), "unsigned char": ("u", 1), "unsigned short": ("u", 2),
         "unsigned int": ("u", 4), "unsigned long": ("u", 8), "float": ("f", 4), "double": ("f", 8), "char": ("c", 1)}
BAD = (-1, 11, 12, 77, 255, 256, 1 << 20)


def strval(x):
    return x.a[0] if x is not None and getattr(x, "op", "") == "str" else None


def entries(p, first, drop="Count"):
    return [(n, v) for n, v in p.enum(first) if not n.endswith(drop)]


def ctype_of(f):
    """the arithmetic template argument of an instance"""
    d = f.dem
    k = d.find("<")
    while k >= 0:
        e = d.find(">", k)
        a = d[k + 1:e]
        if a in CTYPE:
            return a
        k = d.find("<", k + 1)
    return None


def run1(chk, f, args, **kw):
    I = quiet_log(chk.interp())
    st = State()
    return I, I.run(st, f, args)


def str_table(chk, rule, f, good, bad, want, make):
    """make(v) -> outcomes [(value string | None when refused)]"""
    seen = {}
    for n, v in good:
        for s in make(v):
            w = want(n)
            if s not in w:
                chk.bad(rule, site(f), "%s is given %r, expected %s" % (n, s, " or ".join(map(repr, w))), key="%s|%s" % (f.q, n))
            else:
                chk.ok(rule, "%s -> %s" % (n, s))
            seen[s] = n
    for v in bad:
        for s in make(v):
            if s is not None and s in seen:
                chk.bad(rule, site(f), "the value %d, outside the enumeration, is given %r, the entry of %s" % (v, s, seen[s]), key="%s|outside" % f.q)
            else:
                chk.ok(rule)


def by_sret(chk, f):
    def make(v):
        I = quiet_log(chk.interp())
        st = State()
        r = ptr(heap(st, "r"), 0)
        out = []
        for s, k, x in I.run(st, f, [r, C(32, v & 0xffffffff)]):
            out.append(strval(models.gets(I, s, r)) if k == "ret" else None)
        return out
    return make


def by_ref(chk, f):
    def make(v):
        I = quiet_log(chk.interp())
        st = State()
        r = ptr(heap(st, "r"), 0)
        models.sets(I, st, r, t.lit(""))
        out = []
        for s, k, x in I.run(st, f, [C(32, v & 0xffffffff), r]):
            if k != "ret" or (x is not None and x.op == "c" and t.cv(x) == 0):
                out.append(None)
            else:
                out.append(strval(models.gets(I, s, r)))
        return out
    return make


def by_cstr(chk, f):
    def make(v):
        I = quiet_log(chk.interp())
        st = State()
        return [strval(I.cstring(s, x)) if k == "ret" else None for s, k, x in I.run(st, f, [C(32, v & 0xffffffff)])]
    return make


def c17(chk):
    p = chk.p
    dt = entries(p, "ZarrDataType_uint8")
    chk.at_least("pixel-size", len(dt))
    out = [v for v in BAD if v not in [x for _, x in dt]] + [len(dt)]
    # size in bytes
    f, = fns(p, "zarr::bytes_of_type")
    for n, v in dt:
        w = KIND[n.split("_")[-1]][1]
        I, outs = run1(chk, f, [C(32, v)])
        for s, k, x in outs:
            if k != "ret" or x.op != "c" or t.cv(x) != w:
                chk.bad("pixel-size", site(f), "%s has size %s, expected %d" % (n, x if k == "ret" else "(exception)", w), key=n)
            else:
                chk.ok("pixel-size", "%s: %d" % (n, w))
    for v in out:
        I, outs = run1(chk, f, [C(32, v & 0xffffffff)])
        for s, k, x in outs:
            if k == "ret":
                chk.bad("pixel-size", site(f), "the value %d, outside the enumeration, has a size (%s)" % (v, x), key="outside")
            else:
                chk.ok("pixel-size")
    # names
    tabs = [g for g in p.fns.values() if g.repo and g.blocks and g.pt and g.q.split("::")[-1] != "operator<<"]
    n2 = n3 = nd = nc = 0
    for g in tabs:
        if g.pt == ["ZarrDataType"] and "sret" in g.params:
            mk = by_sret(chk, g)
            if not any(s is not None for n, v in dt for s in mk(v)):
                continue        # no text: not a table of names
            if "v2" in g.file:
                n2 += 1
            else:
                n3 += 1
            str_table(chk, "pixel-name", g, dt, out, lambda n: dtname(n, g), by_sret(chk, g))
        elif len(g.pt) == 2 and g.pt[0] == "ZarrDataType" and "basic_string" in g.pt[1] and g.pt[1].endswith("&"):
            n2 += 1
            str_table(chk, "pixel-name", g, dt, out, lambda n: dtname(n, g), by_ref(chk, g))
        elif g.pt == ["ZarrDimensionType"] and "sret" in g.params:
            e = entries(p, "ZarrDimensionType_Space")
            nd += 1
            str_table(chk, "dimension-name", g, e, [-1, len(e), len(e) + 1, 99], lambda n: [n.split("_")[-1].lower()], by_sret(chk, g))
        elif g.pt == ["ZarrCompressionCodec"] and (g.ret == "ptr" or "sret" in g.params):
            e = entries(p, "ZarrCompressionCodec_None")
            nc += 1
            pos = [(n, v) for n, v in e if not n.endswith("_None")]
            mk = by_cstr(chk, g) if g.ret == "ptr" else by_sret(chk, g)
            str_table(chk, "codec-name", g, pos, [-1, len(e), len(e) + 1, 99] + [v for n, v in e if n.endswith("_None")],
                      lambda n: [n.split("Blosc")[-1].lower()], mk)
    for g in fns(p, "Zarr_get_status_message"):
        if True:
            e = entries(p, "ZarrStatusCode_Success")
            seen = {}
            mk = by_cstr(chk, g)
            for n, v in e:
                for s in mk(v):
                    if not s:
                        chk.bad("status-message", site(g), "%s has no message" % n, key=n)
                    elif s in seen and seen[s] != n:
                        chk.bad("status-message", site(g), "%s and %s have the same message %r" % (seen[s], n, s), key=n)
                    else:
                        chk.ok("status-message", "%s: %s" % (n, s))
                    seen[s] = n
            for v in (-1, len(e), len(e) + 1, 1000):
                for s in mk(v):
                    if s in seen or not s:
                        chk.bad("status-message", site(g), "the value %d, outside the enumeration, has the message %r" % (v, s), key="outside")
                    else:
                        chk.ok("status-message")
    for what, n in (("V3 pixel name", n3), ("V2 pixel name", n2), ("dimension name", nd), ("codec name", nc)):
        if not n:
            chk.undec("tables", "no function recognised as the %s table" % what)
    chk.at_least("status-message", 10)
    loglevels(chk)
    scale(chk, dt)


def dtname(n, g):
    k, b = KIND[n.split("_")[-1]]
    if "sret" in g.params and "v2" not in g.file:
        return [n.split("_")[-1]]
    return ["<%s%d" % (k, b)] + (["|%s%d" % (k, b)] if b == 1 else [])


def loglevels(chk):
    p = chk.p
    pub = entries(p, "ZarrLogLevel_Debug")
    inn = {n.split("_")[-1]: v for n, v in p.enum("LogLevel_Debug")}
    setf, = fns(p, "Zarr_set_log_level")
    getf, = fns(p, "Zarr_get_log_level")
    lget = fns(p, "Logger::get_log_level")[0]
    for n, v in pub:
        I = quiet_log(chk.interp())
        for s, k, x in I.run(State(), setf, [C(32, v)]):
            if k != "ret" or x.op != "c" or t.cv(x) != 0:
                chk.bad("log-level", site(setf), "%s is refused" % n, key=n)
                continue
            for s2, k2, x2 in I.run(s, lget, []):
                if x2.op != "c" or t.cv(x2) != inn.get(n.split("_")[-1]):
                    chk.bad("log-level", site(setf), "%s sets the logger's level to %s" % (n, x2), key=n)
            for s2, k2, x2 in I.run(s, getf, []):
                if k2 != "ret" or x2.op != "c" or t.cv(x2) != v:
                    chk.bad("log-level", site(getf), "%s (%d) reads back as %s" % (n, v, x2), key=n)
                else:
                    chk.ok("log-level", "%s reads back" % n)
    for v in (-1, len(pub), len(pub) + 1, 255):
        for old in (0, 3):
            I = quiet_log(chk.interp())
            for s0, k0, x0 in I.run(State(), setf, [C(32, old)]):
                for s, k, x in I.run(s0, setf, [C(32, v & 0xffffffff)]):
                    if k == "ret" and (x.op != "c" or t.cv(x) == 0):
                        chk.bad("log-level", site(setf), "the value %d, outside the enumeration, is accepted as a log level" % v, key="outside")
                        continue
                    for s2, k2, x2 in I.run(s, getf, []):
                        if x2.op != "c" or t.cv(x2) != old:
                            chk.bad("log-level", site(setf), "refusing %d changes the level" % v, key="outside")
                        else:
                            chk.ok("log-level")
    chk.at_least("log-level", 5)


def scale(chk, dt):
    """element type the downsampling code is instantiated with, per pixel type"""
    p = chk.p
    cand = [f for f in p.fns.values() if f.repo and f.blocks and "stream" in f.file and ctype_of(f) and
            f.pt and any("byte" in x or x in ("void*", "void const*") for x in f.pt) and "std::" not in f.q and "Logger" not in f.q]
    fs = [f for f in p.fns.values() if f.q.endswith("write_multiscale_frames_") and f.blocks]
    if not cand or not fs:
        chk.undec("element-type", "downsampling kernels or their caller not recognised (%d, %d)" % (len(cand), len(fs)))
        return
    f = fs[0]
    rec = "ZarrStream_s"
    fo = {n: (o, sz) for n, o, sz, _ in p.fields(rec)}
    if "dtype_" in fo:
        off = fo["dtype_"]
    else:
        c = [(o, sz) for n, o, sz, tp in p.fields(rec) if "dtype" in n or "data_type" in n]
        if len(c) != 1:
            chk.undec("element-type", "no field for the pixel type")
            return
        off = c[0]
    for n, v in dt:
        I = quiet_log(chk.interp())
        hits = []

        def over(J, st, c):
            hits.append((ctype_of(c.f), c.f, J.repo_site(c.ctx)))
            if c.f.ret == "void":
                return None
            return J.fresh(st, ("scaled", c.ctx), 64)
        for g in cand:
            I.over[g.n] = over
        for g in {g.q for g in cand}:
            if len([x for x in p.find(g)]) >= 1:
                I.over[g] = over
        st = State()
        this = heap(st, "stream")
        put(st, this, off[0], C(off[1] * 8, v), off[1])
        wv = [o for _, o, _, tp in p.fields(rec) if tp.startswith("std::vector<std::unique_ptr<zarr::ArrayWriter")]
        if len(wv) == 1:        # a stream with one further level
            lv = heap(st, "levels")
            for i, o in enumerate((0, 16, 16)):
                put(st, this, wv[0] + 8 * i, ptr(lv, o), 8)
        I.max_steps = 200_000
        for g in p.fns.values():
            if g.base == "write_frame" and g.repo:
                I.over[g.n] = lambda J, st_, c: sym("written", 64)
        try:
            outs = I.run(st, f, [ptr(this, 0), sym("data", 64), sym("bytes", 64)])
        except (Unsupported, Budget) as e:
            chk.undec("element-type", str(e))
            continue
        if not hits:
            chk.undec("element-type", "%s: no kernel call seen" % n)
            continue
        w = KIND[n.split("_")[-1]]
        for ct, g, where in hits:
            if CTYPE[ct] != w:
                chk.bad("element-type", where, "%s is downsampled as %s (%s)" % (n, ct, g.q), key=n)
            else:
                chk.ok("element-type", "%s: %s<%s>" % (n, g.q, ct))
