"""C33, C42: the Python module, analysed on its own against a stand-in for pybind11 (stubs/py) whose registrations and
conversions are calls of azpy_* functions: running the module's initialiser abstractly yields the table of classes,
keywords, properties and functions, whose code is then interpreted on symbolic Python values."""
from .. import build, models, terms as t
from ..ir import Program, Anchor
from ..interp import State, Obj, Budget, Unsupported
from ..terms import C, sym, ptr, T, split, NULL, isc
from ..lib import *
from ..models import gets, sets
from ..stream import SET, S3, COMP, DIM, offs

# documented names: class -> property -> (kind, bits, C record, C field)
CLASSES = {
    "S3Settings": {k: ("s", 0, S3, k) for k in ("endpoint", "bucket_name", "access_key_id", "secret_access_key")},
    "CompressionSettings": {"compressor": ("e", 32, COMP, "compressor"), "codec": ("e", 32, COMP, "codec"),
                            "level": ("i", 8, COMP, "level"), "shuffle": ("i", 8, COMP, "shuffle")},
    "Dimension": {"name": ("s", 0, DIM, "name"), "kind": ("e", 32, DIM, "type"), "array_size_px": ("i", 32, DIM, "array_size_px"),
                  "chunk_size_px": ("i", 32, DIM, "chunk_size_px"), "shard_size_chunks": ("i", 32, DIM, "shard_size_chunks")},
    "StreamSettings": {"store_path": ("s", 0, SET, "store_path"), "custom_metadata": ("s?", 0, SET, "custom_metadata"),
                       "s3": ("c?", "S3Settings", SET, "s3_settings"), "compression": ("c?", "CompressionSettings", SET, "compression_settings"),
                       "dimensions": ("v", "Dimension", SET, "dimensions"), "multiscale": ("b", 8, SET, "multiscale"),
                       "data_type": ("e", 32, SET, "data_type"), "version": ("e", 32, SET, "version")},
}
ENUMS = {
    "ZarrVersion": ("ZarrVersion_2", {"V2": "ZarrVersion_2", "V3": "ZarrVersion_3"}),
    "DataType": ("ZarrDataType_uint8", {n.upper(): "ZarrDataType_" + n for n in
                 ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64")}),
    "Compressor": ("ZarrCompressor_None", {"NONE": "ZarrCompressor_None", "BLOSC1": "ZarrCompressor_Blosc1"}),
    "CompressionCodec": ("ZarrCompressionCodec_None", {"NONE": "ZarrCompressionCodec_None", "BLOSC_LZ4": "ZarrCompressionCodec_BloscLZ4",
                                                       "BLOSC_ZSTD": "ZarrCompressionCodec_BloscZstd"}),
    "DimensionType": ("ZarrDimensionType_Space", {n.upper(): "ZarrDimensionType_" + n for n in ("Space", "Channel", "Time", "Other")}),
    "LogLevel": ("ZarrLogLevel_Debug", {n.upper(): "ZarrLogLevel_" + n for n in ("Debug", "Info", "Warning", "Error", "None")}),
}


def boolb(v):
    """(of a bool) as a number"""
    return v


class Lost(Exception):
    pass


class Module:
    def __init__(s, chk):
        s.chk = chk
        s.cls, s.ctor, s.prop, s.meth, s.enum, s.fn = {}, {}, {}, {}, {}, {}
        s.tagname, s.enumtag, s.size, s.dtor = {}, {}, {}, {}
        s.k = 0
        s.ndims = 3
        I = s.I = quiet_log(chk.interp())
        I.want = {"cstr", "sdead", "ret", "create", "append", "destroy", "pyerr", "level", "badcast", "vpush", "vreserve", "nullderef", "pyview"}
        I.on_str = s.on_str
        I.hooks.append(s.pushed)
        for n in ("class", "ctor", "method", "prop", "enum", "value", "function", "item", "has", "is_none", "get", "none", "pack", "ret", "ret_none", "ret_obj"):
            I.over["azpy_" + n] = getattr(s, "h_" + n)
        for n in ("ensure", "ptr", "itemsize", "size", "nbytes", "flags", "ndim"):
            I.over["azpy_array_" + n] = getattr(s, "a_" + n)
        I.over["PyErr_SetString"] = s.h_err
        I.over["PyErr_Clear"] = lambda J, st, c: None
        I.over["ZarrStream_create"] = s.create
        I.over["ZarrStream_append"] = s.append
        I.over["ZarrStream_destroy"] = s.destroy
        I.over["Zarr_set_log_level"] = s.setlevel
        I.over["Zarr_get_log_level"] = lambda J, st, c: sym("~pylevel", 32)
        I.over["Zarr_get_status_message"] = lambda J, st, c: models.strptr(ap_("message", c.args[0]))
        s.env = {"status": 0, "stream": True, "ensure": True}
        s.spec = {}          # object's base -> description
        st = State()
        m = heap(st, "module")
        f = [g for g in chk.p.fns.values() if g.n == "azpy_module" and g.blocks]
        if not f:
            raise Anchor("no Python module is defined")
        outs = [o for o in I.run(st, f[0], [ptr(m, 0)]) if o[1] == "ret"]
        if len(outs) != 1:
            raise Lost("%d outcomes of the module's initialiser" % len(outs))
        s.st = outs[0][0]

    # ---- registrations
    def name(s, st, c, i):
        x = s.I.cstring(st, c.args[i])
        if x.op != "str":
            raise Lost("a name that is not a constant: %s" % x)
        return x.a[0]

    def h_class(s, I, st, c):
        n = s.name(st, c, 1)
        s.tagname[c.args[0]] = n
        s.cls[n] = c.args[0]
        s.size[n] = t.cv(c.args[2])
        s.dtor[n] = c.args[3]

    def h_ctor(s, I, st, c):
        n = s.tagname[c.args[0]]
        s.ctor[n] = (c.args[1], c.args[2], t.cv(c.args[3]), t.cv(c.args[4]))

    def h_method(s, I, st, c):
        s.meth[s.tagname[c.args[0]], s.name(st, c, 1)] = (c.args[2], c.args[3], t.cv(c.args[4]))

    def h_prop(s, I, st, c):
        k = s.tagname[c.args[0]], s.name(st, c, 1)
        s.prop[k] = c.args[2:6] + [I.repo_site(c.ctx)]

    def h_enum(s, I, st, c):
        n = s.name(st, c, 1)
        s.enumtag[c.args[0]] = n
        s.enum[n] = []

    def h_value(s, I, st, c):
        v = c.args[2]
        if v.op != "c":
            raise Lost("an enumerator's value that is not a constant")
        s.enum[s.enumtag[c.args[0]]].append((s.name(st, c, 1), t.cv(v), I.repo_site(c.ctx)))

    def h_function(s, I, st, c):
        s.fn[s.name(st, c, 0)] = (c.args[1], c.args[2], t.cv(c.args[3]), I.repo_site(c.ctx))

    # ---- values
    def new(s, st, **d):
        s.k += 1
        b = heap(st, "py%d" % s.k)
        s.spec[b] = d
        return ptr(b, 0)

    def of(s, h):
        b, o = split(h)
        d = s.spec.get(b)
        if d is None:
            raise Lost("an unknown Python object %s" % h)
        return d

    def value(s, st, kind, v, bits=0):
        """a Python object holding v: a term, an (address, class), None or a list"""
        if v is None:
            return s.new(st, kind="none")
        return s.new(st, kind=kind, v=v, bits=bits)

    def h_item(s, I, st, c):
        n = s.name(st, c, 1)
        d = s.of(c.args[0])
        if n not in d.get("kw", {}):
            I.emit(st, "badcast", c.ctx, what="the keyword %r is read although it may be absent" % n)
            return s.new(st, kind="none")
        return d["kw"][n]

    def h_has(s, I, st, c):
        return C(1, s.name(st, c, 1) in s.of(c.args[0]).get("kw", {}))

    def h_is_none(s, I, st, c):
        return C(1, s.of(c.args[0])["kind"] == "none")

    def h_none(s, I, st, c):
        return s.new(st, kind="none")

    def h_get(s, I, st, c):
        h, kind, size, sgn, tag = c.args
        kind, size = chr(t.cv(kind)), t.cv(size)
        d = s.of(h)
        s.k += 1
        b = heap(st, "cell.%d" % s.k)
        k = d["kind"]
        if k == "none" or k == "unset":
            I.emit(st, "badcast", c.ctx, what="None is converted to a C++ value")
            return ptr(b, 0)
        v = d["v"]
        if kind == "s" and k == "s":
            sets(I, st, ptr(b, 0), v)
        elif kind in "ibe" and k in "ibe":
            if k != kind and not (k == "b" and kind == "i"):
                I.emit(st, "badcast", c.ctx, what="a %s is converted to a %s" % (k, kind))
            elif kind == "i" and (size * 8 < d["bits"] or size * 8 == d["bits"] and t.cv(sgn)):
                I.emit(st, "badcast", c.ctx, what="the value is converted to an integer of %d bits: values of the field's range are refused" % (size * 8))
            bits = size * 8
            w = v if v.bits == bits else t.zext(v, bits) if v.bits < bits else t.trunc(v, bits)
            put(st, b, 0, w, size)
        elif kind == "c" and k == "c":
            if s.tagname.get(tag) != v[1]:
                I.emit(st, "badcast", c.ctx, what="a %s is converted to a %s" % (v[1], s.tagname.get(tag)))
            return v[0]
        elif kind == "v" and k == "v":
            return v
        else:
            I.emit(st, "badcast", c.ctx, what="a value of kind %s is converted to one of kind %s" % (k, kind))
        return ptr(b, 0)

    def read(s, st, a, kind, size, tag):
        """what a C++ value at an address is to Python"""
        if kind == "s":
            return gets(s.I, st, a)
        if kind in "ibef":
            return s.I.load(st, a, size, size * 8)
        if kind == "c":
            n = s.tagname.get(tag)
            return s.describe(st.fork(), a, n) if n in CLASSES else ("obj", n)
        if kind == "z":
            return s.I.cstring(st, s.I.load(st, a, 8, 64))
        n = s.tagname.get(tag)
        b, o = split(a)
        e = [s.I.load(st, ptr(b, t.add(o, C(64, 8 * i))), 8, 64) for i in range(2)]
        if isc(e[0], 0) and isc(e[1], 0):
            return []
        if any(x.op != "ptr" for x in e) or e[0].a[0] != e[1].a[0] or e[0].a[1].op != "c" or e[1].a[1].op != "c":
            raise Lost("a list of unknown length")
        i, j = t.cv(e[0].a[1]), t.cv(e[1].a[1])
        return [s.describe(st.fork(), ptr(e[0].a[0], k), n) for k in range(i, j, s.size[n])]

    def h_ret(s, I, st, c):
        a, kind, size, sgn, tag = c.args
        I.emit(st, "ret", c.ctx, v=s.read(st, a, chr(t.cv(kind)), t.cv(size), tag))

    def h_ret_none(s, I, st, c):
        I.emit(st, "ret", c.ctx, v=None)

    def h_pack(s, I, st, c):
        a, kind, size, sgn, tag = c.args
        return s.new(st, kind="val", v=s.read(st, a, chr(t.cv(kind)), t.cv(size), tag))

    def h_ret_obj(s, I, st, c):
        d = s.of(c.args[0])
        I.emit(st, "ret", c.ctx, v=None if d["kind"] == "none" else d["v"])

    def h_err(s, I, st, c):
        I.emit(st, "pyerr", c.ctx, text=s.I.cstring(st, c.args[1]))

    def pushed(s, I, st, e):
        if e[0] == "vpush":
            v = I.load(st, e[1]["v"], 8, 64)
            e[1]["at"] = split(v)[0] if v.op == "ptr" else None

    def on_str(s, st, what, p, x):
        s.I.emit(st, "cstr" if what == "taken" else "sdead", s.I.ccur, p=p, v=x)

    # ---- the C API
    def create(s, I, st, c):
        I.emit(st, "create", c.ctx, p=c.args[0], mem=st.fork())
        return ptr(heap(st, "zarrstream"), 0) if s.env["stream"] else NULL

    def append(s, I, st, c):
        I.emit(st, "append", c.ctx, a=list(c.args))
        b, o = split(c.args[3])
        if b[0] != "N":
            put(st, b, t.cv(o) if o.op == "c" else o, sym("~bytes_out", 64))
        return C(32, s.env["status"])

    def destroy(s, I, st, c):
        I.emit(st, "destroy", c.ctx, p=c.args[0])

    def setlevel(s, I, st, c):
        I.emit(st, "level", c.ctx, v=c.args[0])
        return C(32, s.env["status"])

    # ---- arrays
    def a_ensure(s, I, st, c):
        d = s.of(c.args[0])
        if not s.env["ensure"]:
            return NULL
        f = c.args[1]
        if f.op != "c":
            raise Lost("array flags that are not a constant")
        f = t.cv(f)
        if d.get("flags", 0) & 1 and f & 2 == 0:
            return c.args[0]
        return s.array(st, (f & 1) and not (f & 2), d["name"] + "'")

    def array(s, st, c, name="array"):
        return s.new(st, kind="array", flags=1 if c else 0, name=name)

    def part(s, h, what):
        return sym("~%s.%s" % (s.of(h)["name"], what), 64)

    def a_ptr(s, I, st, c):
        n = s.of(c.args[0])["name"]
        return ptr(("H", n + ".data", 0), 0)

    def a_itemsize(s, I, st, c):
        return s.part(c.args[0], "itemsize")

    def a_size(s, I, st, c):
        return s.part(c.args[0], "size")

    def a_nbytes(s, I, st, c):
        return t.mul(s.part(c.args[0], "itemsize"), s.part(c.args[0], "size"))

    def a_ndim(s, I, st, c):
        return s.part(c.args[0], "ndim")

    def a_flags(s, I, st, c):
        return C(32, s.of(c.args[0])["flags"])

    # ---- use of the module
    def call(s, st, thunk, fn, slf, args):
        """-> outcomes [(state, 'ret'|'exc', result, new events)]"""
        st = st.fork()
        b = heap(st, "args%d" % s.k)
        s.k += 1
        for i, a in enumerate(args):
            put(st, b, 8 * i, a)
        n0 = len(st.events())
        if thunk.op != "fn":
            raise Lost("an unknown function is registered")
        f = s.chk.p.fns[thunk.a[0]]
        s.chk.fns.add(f.n)
        outs = []
        for o, k, v in s.I.run(st, f, [fn, slf, ptr(b, 0)]):
            if k == "dead":
                continue
            ev = o.events()[n0:]
            r = [e for e in ev if e[0] == "ret"]
            outs.append((o, k, r[-1][1]["v"] if r else None, ev))
        return outs

    def one(s, outs, what):
        if len(outs) != 1:
            raise Lost("%d outcomes of %s" % (len(outs), what))
        return outs[0]

    def getter(s, st, a, cls, k):
        g = s.prop[cls, k]
        o, kind, v, ev = s.one(s.call(st, g[0], g[1], a, []), "reading %s.%s" % (cls, k))
        return v if kind == "ret" else "(raises)"

    def describe(s, st, a, cls):
        return {k: s.getter(st, a, cls, k) for k in CLASSES[cls] if (cls, k) in s.prop}

    def make(s, st, cls, kw):
        """-> (state, address, events) of cls(**kw); None when it raises"""
        th, fn, n, kwargs = s.ctor[cls]
        st = st.fork()
        a = ptr(heap(st, "%s%d" % (cls, s.k)), 0)
        s.k += 1
        args = [s.new(st, kind="dict", kw=kw)] if n else []
        f = s.chk.p.fns[th.a[0]]
        b = heap(st, "args%d" % s.k)
        for i, x in enumerate(args):
            put(st, b, 8 * i, x)
        n0 = len(st.events())
        outs = [(o, k) for o, k, v in s.I.run(st, f, [fn, a, ptr(b, 0)]) if k != "dead"]
        if len(outs) != 1:
            raise Lost("%d outcomes of %s(...)" % (len(outs), cls))
        o, k = outs[0]
        return o, a if k == "ret" else None, o.events()[n0:]

    def given(s, st, cls, k, tag="", depth=0):
        """a Python object for this keyword -> (state, handle, what reading it must give)"""
        kind, w, _, _ = CLASSES[cls][k]
        if kind[0] == "s":
            v = sym("%s.%s%s" % (cls, k, tag), 0)
            return st, s.value(st, "s", v), v
        if kind == "b":
            v = t.zext(sym("%s.%s%s" % (cls, k, tag), 1), 8)
            return st, s.value(st, "b", v, 8), v
        if kind in "ie":
            v = sym("%s.%s%s" % (cls, k, tag), w)
            return st, s.value(st, kind, v, w), v
        if kind[0] == "c":
            st, a, d = s.full(st, w, tag)
            return st, s.value(st, "c", (a, w)), d
        n = s.ndims
        base = heap(st, "list%d%s" % (s.k, tag))
        s.k += 1
        sz = s.size[w]
        ds = []
        for i in range(n):
            st, a, d = s.full(st, w, "%s.%d" % (tag, i), at=ptr(base, i * sz))
            ds.append(d)
        v = heap(st, "listv%d" % s.k)
        s.k += 1
        for i, x in enumerate((0, n * sz, n * sz)):
            put(st, v, 8 * i, ptr(base, x))
        return st, s.value(st, "v", ptr(v, 0)), ds

    def full(s, st, cls, tag="", at=None, skip=()):
        """an object whose fields are all given"""
        kw, d = {}, {}
        for k in CLASSES[cls]:
            if k in skip:
                continue
            st, h, v = s.given(st, cls, k, tag)
            kw[k] = h
            d[k] = v
        if at is not None:
            th, fn, n, kwargs = s.ctor[cls]
            b = heap(st, "args%d" % s.k)
            s.k += 1
            put(st, b, 0, s.new(st, kind="dict", kw=kw))
            outs = [(o, k) for o, k, v in s.I.run(st, s.chk.p.fns[th.a[0]], [fn, at, ptr(b, 0)]) if k == "ret"]
            if len(outs) != 1:
                raise Lost("%d outcomes of %s(...)" % (len(outs), cls))
            return outs[0][0], at, d
        o, a, ev = s.make(st, cls, kw)
        if a is None:
            raise Lost("%s(...) raises" % cls)
        return o, a, d


def ap_(op, *a):
    return t.ap(op, 0, *a)


def load(chk):
    try:
        chk._p = Program(build.program(py=True))
    except build.BuildError as e:
        # the module uses a part of pybind11 the stand-in does not have
        chk._p = Program()
        chk.undec("module", "not analysed: " + str(e)[-300:])
        return None
    try:
        return Module(chk)
    except (Lost, Unsupported, Budget, KeyError) as e:
        chk.undec("module", "%s: %s" % (type(e).__name__, e))
        return None


def where(m, cls, k):
    return m.prop[cls, k][4] if (cls, k) in m.prop else "python (%s)" % cls


def differ(m, a, b, p=""):
    """first difference of two descriptions"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            x = differ(m, a.get(k), b.get(k), p + "." + k)
            if x:
                return x
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s has %d elements, not %d" % (p, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            z = differ(m, x, y, "%s[%d]" % (p, i))
            if z:
                return z
        return None
    if isinstance(a, T) and isinstance(b, T):
        if a is b:
            return None
        if a.bits and a.bits == b.bits and same(a, b):
            return None
    elif a is None and b is None:
        return None
    return "%s is %s, not %s" % (p, a, b)


def same(a, b):
    """the same number under all valuations tried"""
    import random
    r = random.Random(5)
    sy = set()
    for x in (a, b):
        sy |= {y for y in syms(x)}
    for _ in range(40):
        env = {y: r.choice([0, 1, 2, (1 << y.bits) - 1, 1 << (y.bits - 1), r.getrandbits(y.bits)]) & ((1 << y.bits) - 1) for y in sy}
        try:
            if t.evalt(a, env, {}) != t.evalt(b, env, {}):
                return False
        except (KeyError, ZeroDivisionError):
            return False
    return True


def syms(x):
    out, work, seen = set(), [x], set()
    while work:
        y = work.pop()
        if id(y) in seen or not isinstance(y, T):
            continue
        seen.add(id(y))
        if y.op == "sym":
            out.add(y)
        work += [z for z in y.a if isinstance(z, T)]
    return out


def casts(chk, m, ev, what, key):
    ok = True
    for e in ev:
        if e[0] == "badcast":
            chk.bad("conversion", e[2], "%s: %s" % (what, e[1]["what"]), key=key)
            ok = False
    return ok


def c33(chk):
    m = load(chk)
    if m is None:
        return
    try:
        enums(chk, m)
        classes(chk, m)
        forward(chk, m)
        levels(chk, m)
    except (Lost, Unsupported, Budget) as e:
        chk.undec("module", "%s: %s" % (type(e).__name__, e))
    x = m.I.inexact()
    if x and chk.viol:
        chk.undec("module", "inexact: " + x)
        chk.viol = []


def enums(chk, m):
    for n, (first, tab) in ENUMS.items():
        if n not in m.enum:
            chk.bad("enumeration", "python", "the enumeration %s is not registered" % n, key=n)
            continue
        vals = dict(chk.p.enum(first)) if first in chk.p.enums else None
        if vals is None:
            chk.undec("enumeration", "no enumeration starting with " + first)
            continue
        got = {}
        for k, v, at_ in m.enum[n]:
            if k in got:
                chk.bad("enumeration", at_, "%s.%s is registered twice" % (n, k), key=n + k)
            got[k] = v
            if k in tab and v != vals[tab[k]]:
                chk.bad("enumeration", at_, "%s.%s is %d, not %s (%d)" % (n, k, v, tab[k], vals[tab[k]]), key=n + k)
            elif k in tab:
                chk.ok("enumeration", "%s.%s = %d" % (n, k, v))
        for k in tab:
            if k not in got:
                chk.bad("enumeration", "python", "%s.%s is not registered" % (n, k), key=n + k)


def classes(chk, m):
    chk.at_least("keyword", 21)
    chk.at_least("property", 21)
    for cls, tab in CLASSES.items():
        if cls not in m.cls or cls not in m.ctor:
            chk.bad("class", "python", "the class %s is not registered" % cls, key=cls)
            continue
        for k in tab:
            if (cls, k) not in m.prop:
                chk.bad("property", "python", "%s.%s is not registered" % (cls, k), key=cls + k)
            elif isc(m.prop[cls, k][2], 0):
                chk.bad("property", where(m, cls, k), "%s.%s cannot be set" % (cls, k), key=cls + k)
        st0, a0, ev = m.make(m.st, cls, {})
        if a0 is None:
            chk.bad("class", "python", "%s() raises" % cls, key=cls)
            continue
        if not casts(chk, m, ev, cls + "()", cls):
            continue
        base = m.describe(st0, a0, cls)
        for k, (kind, w, _, _) in tab.items():
            if (cls, k) not in m.prop or isc(m.prop[cls, k][2], 0):
                continue
            if kind.endswith("?") and base[k] is not None:
                chk.bad("default", where(m, cls, k), "%s().%s is not None" % (cls, k), key=cls + k)
            # keyword
            cases = [False] + ([True] if kind.endswith("?") else [])
            for none in cases:
                st = m.st.fork()
                if none:
                    h, v = m.value(st, "", None), None
                else:
                    st, h, v = m.given(st, cls, k)
                st, a, ev = m.make(st, cls, {k: h})
                what = "%s(%s=%s)" % (cls, k, "None" if none else "value")
                if a is None:
                    chk.bad("keyword", where(m, cls, k), what + " raises", key=cls + k)
                elif casts(chk, m, ev, what, cls + k):
                    d = differ(m, m.describe(st, a, cls), dict(base, **{k: v}))
                    if d:
                        chk.bad("keyword", where(m, cls, k), "after %s the property %s" % (what, d), key=cls + k)
                    else:
                        chk.ok("keyword", what)
                # property, on an object with all fields given
                st = m.st.fork()
                st, a, full = m.full(st, cls, ".old")
                if none:
                    h, v = m.value(st, "", None), None
                else:
                    st, h, v = m.given(st, cls, k)
                g = m.prop[cls, k]
                o, kd, _, ev = m.one(m.call(st, g[2], g[3], a, [h]), "setting %s.%s" % (cls, k))
                what = "%s.%s = %s" % (cls, k, "None" if none else "value")
                if kd != "ret":
                    chk.bad("property", where(m, cls, k), what + " raises", key=cls + k)
                elif casts(chk, m, ev, what, cls + k):
                    d = differ(m, m.describe(o, a, cls), dict(full, **{k: v}))
                    if d:
                        chk.bad("property", where(m, cls, k), "after %s the property %s" % (what, d), key=cls + k)
                    else:
                        chk.ok("property", what)
        # all keywords at once
        st, a, full = m.full(m.st.fork(), cls)
        d = differ(m, m.describe(st, a, cls), full)
        if d:
            chk.bad("keywords", "python", "after %s(all keywords) the property %s" % (cls, d), key=cls)
        else:
            chk.ok("keywords", cls)


def settings(m, skip=(), ndims=3):
    m.ndims = ndims
    st, a, d = m.full(m.st.fork(), "StreamSettings", skip=skip + (("dimensions",) if ndims == 0 else ()))
    m.ndims = 3
    return st, a, d


def streams(m, st, a):
    """ZarrStream(settings) -> outcomes (state, kind, address, events)"""
    th, fn, n, kw = m.ctor["ZarrStream"]
    st = st.fork()
    x = ptr(heap(st, "stream%d" % m.k), 0)
    m.k += 1
    b = heap(st, "args%d" % m.k)
    put(st, b, 0, m.new(st, kind="c", v=(a, "StreamSettings")))
    n0 = len(st.events())
    return [(o, k, x, o.events()[n0:]) for o, k, v in m.I.run(st, m.chk.p.fns[th.a[0]], [fn, x, ptr(b, 0)]) if k != "dead"]


def dangling(m, ev, e, p, text):
    """is this pointer's string gone (or changed) when the stream is created? -> why, or None"""
    if p.op != "ptr" or p.a[0][0] != "STR":
        return None
    last = None
    i = ev.index(e)
    for j, x in enumerate(ev[:i]):
        if x[0] == "cstr" and x[1]["v"] is text:
            last = (j, x[1]["p"])
    if last is None:
        return None
    ok = False
    for j0, x0 in [(j, x) for j, x in enumerate(ev[:i]) if x[0] == "cstr" and x[1]["v"] is text]:
        q = x0[1]["p"]
        b, o = split(q)
        gone = False
        for x in ev[j0 + 1:i]:
            if x[0] == "sdead" and x[1]["p"] is q:
                gone = True
            if x[0] == "vpush" and x[1]["at"] == b and split(x[1]["v"]) not in reserved(ev[:i]):
                gone = True     # the strings of a growing vector move
        if not gone and gets(m.I, e[1]["mem"].fork(), q) is text:
            ok = True
    return None if ok else "the string it points into does not live until the stream is created"


def reserved(ev):
    return {split(x[1]["v"]) for x in ev if x[0] == "vreserve"}


def forward(chk, m):
    p = chk.p
    chk.at_least("forward", 40)
    O = {r: offs(p, r) for r in (SET, S3, COMP, DIM)}
    dsz = p.records[DIM]["size"]
    opt = [k for k, v in CLASSES["StreamSettings"].items() if v[0].endswith("?")]
    cases = [((), 3), (tuple(opt), 3), ((), 0), ((), 1), (tuple(opt), 12)] + [(tuple(x for x in opt if x != k), 3) for k in opt]
    for skip, nd in cases:
        st, a, d = settings(m, skip, nd)
        outs = streams(m, st, a)
        what = "ZarrStream(settings%s%s)" % ("" if not skip else " without " + ", ".join(skip), "" if nd == 3 else " of %d dimensions" % nd)
        if not outs:
            raise Lost("no outcome of " + what)
        for o, k, x, ev in outs:
            cr = [e for e in ev if e[0] == "create"]
            if len(cr) != 1:
                chk.bad("forward", "python (ZarrStream)", "%s creates %d streams" % (what, len(cr)), key="n")
                continue
            casts(chk, m, ev, what, "ZarrStream")
            e = cr[0]
            mem = e[1]["mem"].fork()

            def rd(base, rec, f):
                b, off = split(base)
                fo, sz, _ = O[rec][f]
                return m.I.load(mem, ptr(b, t.add(off, C(64, fo))), sz, sz * 8)

            def chk1(base, rec, name, kind, v):
                g = rd(base, rec, name)
                lbl = "%s.%s" % (rec.strip("#_").split("Zarr")[-1], name)
                if kind[0] == "s":
                    if v is None:
                        if not isc(g, 0):
                            chk.bad("forward", e[2], "%s: %s is not null" % (what, lbl), key=lbl)
                        else:
                            chk.ok("forward", lbl + " null")
                        return
                    s_ = m.I.cstring(mem, g) if not isc(g, 0) else None
                    if s_ is not v:
                        chk.bad("forward", e[2], "%s: %s is %s, not the %s given" % (what, lbl, s_, v), key=lbl)
                        return
                    w = dangling(m, ev, e, g, v)
                    if w:
                        chk.bad("forward", e[2], "%s: %s: %s" % (what, lbl, w), key=lbl + "|life")
                        return
                    chk.ok("forward", lbl)
                    return
                if differ(m, g, v):
                    chk.bad("forward", e[2], "%s: %s is %s, not the %s given" % (what, lbl, g, v), key=lbl)
                else:
                    chk.ok("forward", lbl)

            for f, (kind, w, rec, name) in CLASSES["StreamSettings"].items():
                v = d.get(f)
                if kind == "c?":
                    g = rd(e[1]["p"], SET, name)
                    if v is None:
                        if not isc(g, 0):
                            chk.bad("forward", e[2], "%s: %s is not null" % (what, name), key=name)
                        else:
                            chk.ok("forward", name + " null")
                        continue
                    if g.op != "ptr" or g.a[0][0] == "N":
                        chk.bad("forward", e[2], "%s: %s is %s" % (what, name, g), key=name)
                        continue
                    for f2, (k2, w2, r2, n2) in CLASSES[w].items():
                        chk1(g, r2, n2, k2, v[f2])
                elif kind == "v":
                    v = v or []
                    n = rd(e[1]["p"], SET, "dimension_count")
                    if not isc(n, len(v)):
                        chk.bad("forward", e[2], "%s: dimension_count is %s, not %d" % (what, n, len(v)), key="count")
                        continue
                    g = rd(e[1]["p"], SET, name)
                    for i, dv in enumerate(v):
                        if g.op != "ptr" or g.a[0][0] == "N":
                            chk.bad("forward", e[2], "%s: dimensions is %s" % (what, g), key=name)
                            break
                        q = ptr(g.a[0], t.add(g.a[1], C(64, i * dsz)))
                        for f2, (k2, w2, r2, n2) in CLASSES[w].items():
                            chk1(q, r2, n2, k2, dv[f2])
                    else:
                        chk.ok("forward", "dimensions")
                else:
                    chk1(e[1]["p"], SET, name, kind, v)


def levels(chk, m):
    if "set_log_level" not in m.fn or "get_log_level" not in m.fn:
        chk.bad("log-level", "python", "set_log_level or get_log_level is not registered", key="reg")
        return
    th, fn, n, at_ = m.fn["set_log_level"]
    for status in (0, 1, 5):
        m.env["status"] = status
        st = m.st.fork()
        v = sym("level", 32)
        h = m.value(st, "e", v, 32)
        for o, k, r, ev in m.call(st, th, fn, NULL, [h]):
            l = [e[1]["v"] for e in ev if e[0] == "level"]
            if l != [v]:
                chk.bad("log-level", at_, "set_log_level(level) sets %s" % l, key="set")
            elif (k == "exc") != (status != 0):
                chk.bad("log-level", at_, "set_log_level %s although the status is %d" % ("raises" if k == "exc" else "returns", status), key="status")
            elif k == "exc" and not any(e[0] == "pyerr" for e in ev):
                chk.bad("log-level", at_, "set_log_level raises without an error being set", key="status")
            else:
                chk.ok("log-level", "set, status %d" % status)
    m.env["status"] = 0
    th, fn, n, at_ = m.fn["get_log_level"]
    for o, k, r, ev in m.call(m.st.fork(), th, fn, NULL, []):
        if k != "ret" or not isinstance(r, T) or differ(m, r, sym("~pylevel", 32)):
            chk.bad("log-level", at_, "get_log_level() returns %s" % r, key="get")
        else:
            chk.ok("log-level", "get")


def c42(chk):
    m = load(chk)
    if m is None:
        return
    try:
        life(chk, m)
    except (Lost, Unsupported, Budget) as e:
        chk.undec("module", "%s: %s" % (type(e).__name__, e))
    x = m.I.inexact()
    if x and chk.viol:
        chk.undec("module", "inexact: " + x)
        chk.viol = []


def life(chk, m):
    chk.at_least("create", 2)
    chk.at_least("append", 4)
    chk.at_least("destroy", 2)
    st, a, d = settings(m)
    if "ZarrStream" not in m.ctor or ("ZarrStream", "append") not in m.meth or ("ZarrStream", "is_active") not in m.meth:
        chk.bad("class", "python", "ZarrStream, its append or its is_active is not registered", key="reg")
        return
    ap1 = m.meth["ZarrStream", "append"]
    act = m.meth["ZarrStream", "is_active"]
    w = "python (ZarrStream)"
    # creation that fails
    m.env["stream"] = False
    for o, k, x, ev in streams(m, st, a):
        if k != "exc":
            chk.bad("create", w, "ZarrStream(settings) returns although no stream was created", key="fail")
        elif not any(e[0] == "pyerr" for e in ev) and pyexc(m, o):
            chk.bad("create", w, "ZarrStream(settings) raises without an error being set", key="fail")
        elif any(e[0] == "destroy" and not isc(e[1]["p"], 0) for e in ev):
            chk.bad("create", w, "a stream that was not created is destroyed", key="fail")
        else:
            chk.ok("create", "fails")
    m.env["stream"] = True
    for o, k, x, ev in streams(m, st, a):
        if k != "ret":
            chk.bad("create", w, "ZarrStream(settings) raises although the stream was created", key="ok")
            continue
        if any(e[0] == "destroy" for e in ev):
            chk.bad("create", w, "the stream is destroyed while it is created", key="ok")
            continue
        chk.ok("create", "succeeds")
        for o2, k2, r, ev2 in m.call(o, act[0], act[1], x, []):
            if k2 != "ret" or not isinstance(r, T) or not (r.op == "c" and t.cv(r) & 1 == 1):
                chk.bad("active", w, "is_active() of a stream that was created is %s" % r, key="a")
            else:
                chk.ok("active", "created")
        # append
        for cstyle in (True, False):
            for ens in (True, False):
                for status in (0, 1, 3, 7):
                    m.env["ensure"], m.env["status"] = ens, status
                    st1 = o.fork()
                    h = m.array(st1, cstyle)
                    outs = m.call(st1, ap1[0], ap1[1], x, [h])
                    what = "append of %s array%s" % ("a contiguous" if cstyle else "a strided", "" if ens else " that cannot be laid out contiguously")
                    if not outs:
                        raise Lost("no outcome of " + what)
                    for o2, k2, r, ev2 in outs:
                        appended(chk, m, what, cstyle, ens, status, o2, k2, ev2, x, w)
        m.env["ensure"], m.env["status"] = True, 0
        # destruction
        st1 = o.fork()
        n0 = len(st1.events())
        for o2, k2, v in m.I.run(st1, chk.p.fns[m.dtor["ZarrStream"].a[0]], [x]):
            if k2 == "dead":
                continue
            ds = [e for e in o2.events()[n0:] if e[0] == "destroy" and not isc(e[1]["p"], 0)]
            if len(ds) != 1 or ds[0][1]["p"].op != "ptr" or ds[0][1]["p"].a[0][1] != "zarrstream":
                chk.bad("destroy", w, "when a ZarrStream goes away its stream is destroyed %d times" % len(ds), key="n")
            else:
                chk.ok("destroy", "once")
    # an object without a stream
    st1 = m.st.fork()
    z = ptr(heap(st1, "inactive"), 0)
    st1.mem[z.a[0]].f = ((0, None, 0),)
    for o2, k2, r, ev2 in m.call(st1, ap1[0], ap1[1], z, [m.array(st1, True)]):
        if any(e[0] == "append" for e in ev2):
            chk.bad("append", w, "append() of an inactive ZarrStream uses a null stream", key="inactive")
        elif k2 != "exc":
            chk.bad("append", w, "append() of an inactive ZarrStream does not raise", key="inactive")
        else:
            chk.ok("append", "inactive")
    n0 = len(st1.events())
    for o2, k2, v in m.I.run(st1.fork(), chk.p.fns[m.dtor["ZarrStream"].a[0]], [z]):
        if any(e[0] == "destroy" and not isc(e[1]["p"], 0) for e in o2.events()[n0:]):
            chk.bad("destroy", w, "a ZarrStream without a stream destroys one", key="none")
        else:
            chk.ok("destroy", "without a stream")


def pyexc(m, o):
    """does the path throw error_already_set (which needs an error to be set)"""
    return any("error_already_set" in str(x) for x in m.I.exc_ti.values())


def appended(chk, m, what, cstyle, ens, status, o, k, ev, x, w):
    ap1 = [e for e in ev if e[0] == "append"]
    site_ = ap1[0][2] if ap1 else w
    if not ap1:
        if not ens:
            if k != "exc":
                chk.bad("append", w, "%s returns without having appended anything" % what, key="ens")
            else:
                chk.ok("append", what)
        else:
            chk.bad("append", w, "%s appends nothing" % what, key="none")
        return
    if len(ap1) != 1:
        chk.bad("append", site_, "%s appends %d times" % (what, len(ap1)), key="twice")
        return
    s_, p_, n_, out = ap1[0][1]["a"]
    if s_.op != "ptr" or s_.a[0][1] != "zarrstream":
        chk.bad("append", site_, "%s uses the stream %s" % (what, s_), key="stream")
        return
    names = ["array", "array'", "array''"]
    src = [n for n in names if p_.op == "ptr" and p_.a[0] == ("H", n + ".data", 0) and isc(p_.a[1], 0)]
    if not src:
        chk.bad("append", site_, "%s: the data handed over are %s" % (what, p_), key="ptr")
        return
    n = src[0]
    flags = [d["flags"] for d in m.spec.values() if d.get("kind") == "array" and d["name"] == n][-1]
    if not flags:
        chk.bad("append", site_, "%s: the bytes of an array that need not be contiguous in C order are handed over" % what, key="order")
        return
    if not same(n_, t.mul(sym("~%s.itemsize" % n, 64), sym("~%s.size" % n, 64))):
        chk.bad("append", site_, "%s: the number of bytes is %s, not item size x number of items" % (what, n_), key="size")
        return
    if (k == "exc") != (status != 0):
        chk.bad("append", site_, "%s %s although the status is %d" % (what, "raises" if k == "exc" else "returns", status), key="status")
        return
    if k == "exc" and not any(e[0] == "pyerr" for e in ev) and pyexc(m, o):
        chk.bad("append", site_, "%s raises without an error being set" % what, key="err")
        return
    chk.ok("append", "%s, status %d" % (what, status))
