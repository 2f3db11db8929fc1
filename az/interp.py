"""Forward interprocedural dataflow over the exported IR: value-number terms, memory cells, facts,
events; property states kept apart, widening at loop heads. See DESIGN.md."""
import time
import sys
from . import terms as t
from .terms import T, C, sym, ap, ptr, split, cmp, not_, TRUE, FALSE, NULL, isc, lit, cat, slen
from .ir import strip_t

sys.setrecursionlimit(60000)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("c", "f", "ver", "own")

    def __init__(s, c=None, f=(), ver=0, own=None):
        s.c = {} if c is None else c
        s.f, s.ver, s.own = f, ver, own

    def key(s):
        return (frozenset(s.c.items()), s.f, s.ver)

    def fill(s, lo, hi, byte):
        """bytes [lo, hi) are all this byte (None: unknown), whatever earlier fills said"""
        s.f = tuple(x for x in s.f if x[0] < lo or hi is not None and (x[1] is None or x[1] > hi)) + ((lo, hi, byte),)


class State:
    __slots__ = ("mem", "facts", "rng", "props", "trace", "cnt", "vt", "tok", "__weakref__")
    toks = 0

    def __init__(s):
        s.disown()
        s.mem, s.facts, s.rng, s.props, s.trace, s.cnt, s.vt = {}, {}, {}, {}, None, {}, {}

    def disown(s):
        """objects reachable now may be shared: write to copies from here on"""
        State.toks += 1
        s.tok = State.toks

    def fork(s):
        s.disown()
        n = State()
        n.mem = dict(s.mem)
        n.facts = dict(s.facts)
        n.rng = dict(s.rng)
        n.props = dict(s.props)
        n.trace = s.trace
        n.cnt = dict(s.cnt)
        n.vt = dict(s.vt)
        return n

    def obj(s, base):
        return s.mem.get(base)

    def wobj(s, base):
        o = s.mem.get(base)
        if o is None:
            o = s.mem[base] = Obj(own=s.tok)
        elif o.own != s.tok:
            o = s.mem[base] = Obj(dict(o.c), o.f, o.ver, s.tok)
        return o

    def events(s):
        out, x = [], s.trace
        while x is not None:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out


class Ev(tuple):
    """(kind, data dict, site) ; site = (fn, loc)"""
    __slots__ = ()

    @property
    def kind(s):
        return s[0]

    @property
    def d(s):
        return s[1]

    @property
    def site(s):
        return s[2]

    def __getattr__(s, k):
        try:
            return s[1][k]
        except KeyError:
            raise AttributeError(k)

    def where(s):
        return s[2]

    def __repr__(s):
        return "%s(%s)@%s" % (s[0], ", ".join("%s=%s" % (k, t.show(v) if isinstance(v, T) else v) for k, v in s[1].items()), s[2])


class Call:
    __slots__ = ("I", "inst", "f", "name", "args", "ctx", "caller", "depth", "inv")

    def uid(s):
        return s.ctx


STD_EXC = {  # typeinfo -> base typeinfo
    "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
    "_ZTISt11logic_error": "_ZTISt9exception",
    "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error",
    "_ZTISt12system_error": "_ZTISt13runtime_error",
    "_ZTISt17bad_function_call": "_ZTISt9exception",
    "_ZTISt19bad_optional_access": "_ZTISt9exception",
    "_ZTISt8bad_cast": "_ZTISt9exception",
    "_ZTINSt10filesystem7__cxx1116filesystem_errorE": "_ZTISt12system_error",
    "_ZTISt9exception": None,
    "_ZTINSt8ios_base7failureB5cxx11E": "_ZTISt12system_error",
    "nlohmann": "_ZTISt9exception",
}


def exc_base(prog, ti):
    if ti in STD_EXC:
        return STD_EXC[ti]
    g = prog.globals.get(ti)
    if g and g.get("init") and g["init"][0] == "arr":
        v0 = g["init"]
        for off, v in v0[1] if len(v0) == 2 and v0[1] and isinstance(v0[1][0], list) else v0[1:]:
            if off == 16:
                w = v
                if w[0] == "g":
                    return w[1]
    if ti and "nlohmann" in ti:
        return "_ZTISt9exception"
    return None


def exc_matches(prog, ti, clause):
    if clause is None:
        return True
    n = 0
    while ti is not None and n < 20:
        if ti == clause:
            return True
        ti = exc_base(prog, ti)
        n += 1
    return False


def isenv(c):
    return c is not None and isinstance(c[0], T) and c[0].op == "sym" and isinstance(c[0].a[0], str) and c[0].a[0].startswith("~")


class Interp:
    def __init__(s, prog, models, max_steps=3_000_000, unroll=70, max_depth=120):
        s.p = prog
        s.models = models
        s.over = {}          # qualified name -> handler, checked before everything
        s.hooks = []         # event observers
        s.steps = 0
        s.max_steps = max_steps
        s.deadline = None    # when to give up (undecided, never an alarm)
        s.unroll = unroll
        s.max_depth = max_depth
        s.recursion = 16
        s.ctxtab = {}
        s.ctxinfo = []
        s.stack = []
        s.inlined = set()
        s.opaque = {}
        s.unsupported = {}
        s.may_throw = lambda I, st, call: None
        s.on_opaque = None
        s.vague = set()      # library operations whose result was not modelled exactly
        s.merge = True
        s.disj = 12
        s.atomic_load = None
        s.on_load = None
        s.on_store = None
        s.access = None      # called with (state, object, offset, size or None, 'r' or 'w', atomic?, context) for every memory access
        s.atom, s.ccur = False, None
        s.vcall = None
        s.icall = None
        s._ginit = {}
        s._siginit = {}
        s.closed = None      # list collecting the states of paths that reach a loop's fixpoint
        s.truncated = 0
        s.loop_cap = None
        s.fs_throws = False
        s.no_thread_at = None       # the how manieth thread the system refuses to start
        s.exc_ti = {}      # exception object -> its type
        s.fatal = []       # states in which the process ended
        s.sick = None      # sick(st, kind, mark): has an operation of this kind failed in the open batch? (mark: it has)
        s.fs_vary = None   # number of operations per path that may turn out the unusual way
        s.fs_ok = False      # every file-system operation succeeds, directories exist
        s.on_lock = s.on_wait = s.on_join = s.on_os = None
        s.json = s.minio = None
        s.on_str = None      # on_str(st, 'taken'|'dead', string object, content): pointers into strings and their ends
        s.hw = None
        s.map_zero = True
        s.want = None
        s._wsyms = {}
        s.widened_loops = set()
        s.record_branches = False

    # ---- sites -----------------------------------------------------------------------
    def ctx(s, parent, fn, b, i):
        k = (parent, fn.n, b, i)
        c = s.ctxtab.get(k)
        if c is None:
            c = s.ctxtab[k] = len(s.ctxinfo)
            s.ctxinfo.append((parent, fn, b, i))
        return c

    def loc(s, fn, inst):
        l = inst.get("loc") if inst else None
        if not l:
            return "%s:%d" % (fn.file, fn.line)
        f = fn.file
        if len(l) > 2:
            f = l[2]
        return "%s:%d" % (f, l[0])

    def chain(s, ctx):
        out = []
        while ctx is not None and ctx >= 0:
            parent, fn, b, i = s.ctxinfo[ctx]
            inst = fn.blocks[b][i] if b >= 0 and i < len(fn.blocks[b]) else None
            out.append((fn, s.loc(fn, inst)))
            ctx = parent
        return out

    def repo_site(s, ctx):
        """innermost repository frame of a call context"""
        for fn, loc in s.chain(ctx):
            if fn.repo:
                return "%s (%s)" % (loc, short(fn))
        return "?"

    def emit(s, st, kind, ctx, **d):
        if s.want is not None and kind not in s.want:
            return None
        e = Ev((kind, d, s.repo_site(ctx)))
        st.trace = (st.trace, e)
        for h in s.hooks:
            h(s, st, e)
        return e

    # ---- memory ----------------------------------------------------------------------
    def meta_name(s, c, i):
        v = c.inst["a"][i]
        return v[1] if v[0] == "m" and len(v) > 1 else None

    def const_init(s, g):
        r = s._ginit.get(g)
        if r is None:
            r = {}
            x = s.p.globals.get(g)
            if x is not None and x.get("init") is not None:
                s._fill(r, 0, x["init"], x.get("size", 0))
            s._ginit[g] = r
        return r

    def _fill(s, r, off, v, size):
        k = v[0]
        if k == "arr":
            for o, e in v[1]  if len(v) == 2 and isinstance(v[1], list) and v[1] and isinstance(v[1][0], list) and len(v[1][0]) == 2 and isinstance(v[1][0][0], int) else v[1:]:
                s._fill(r, off + o, e, None)
        elif k == "s":
            bs = bytes.fromhex(v[1])
            r[("bytes", off)] = bs
        elif k == "z":
            r[("zero", off)] = v[1]
        elif k == "i":
            r[off] = (C(v[1], int(v[2])), max(1, v[1] // 8))
        elif k in ("n", "g", "gep", "ce"):
            r[off] = (s.const(v), 8)
        elif k == "f":
            r[off] = (s.const(v), 8 if v[1] == "double" else 4)
        elif k == "u":
            pass

    def gload(s, g, off, size):
        r = s.const_init(g)
        x = s.p.globals.get(g)
        if x is None or not x.get("const"):
            return None
        h = r.get(off)
        if h and h[1] == size:
            return h[0]
        for k, v in r.items():
            if isinstance(k, tuple) and k[0] == "bytes" and k[1] <= off and off + size <= k[1] + len(v):
                return C(size * 8, int.from_bytes(v[off - k[1]:off - k[1] + size], "little"))
            if isinstance(k, tuple) and k[0] == "zero" and k[1] <= off and off + size <= k[1] + v:
                return C(size * 8, 0)
        return None

    def cstring(s, st, p):
        """content of the C string a pointer denotes"""
        base, off = split(p)
        if base[0] == "STR" and isc(off, 0):
            return base[1]
        if base[0] == "G" and off.op == "c":
            for k, v in s.const_init(base[1]).items():
                if isinstance(k, tuple) and k[0] == "bytes":
                    o = t.cv(off) - k[1]
                    if 0 <= o < len(v):
                        z = v[o:]
                        return lit(z.split(b"\0")[0].decode("utf8", "surrogateescape"))
                if isinstance(k, tuple) and k[0] == "zero" and 0 <= t.cv(off) - k[1] < v and (s.p.globals.get(base[1]) or {}).get("const"):
                    return lit("")
        return ap("cstr", 0, p)

    def tyinfo(s, ty, sz):
        if ty == "ptr":
            return 64
        if ty and ty[0] == "i" and ty[1:].isdigit():
            return int(ty[1:])
        if ty == "double":
            return 64
        if ty == "float":
            return 32
        return sz * 8

    def load(s, st, p, size, bits, site=None):
        base, off = split(p)
        k = base[0]
        if s.access is not None:
            s.access(st, base, off, size, "r", s.atom, site if site is not None else s.ccur)
        key = t.cv(off) if off.op == "c" else off
        if k == "N":
            s.emit(st, "nullderef", site, what="load")
            return s.fresh(st, ("null",), bits)
        if k == "STR":
            if base[1].op == "str" and off.op == "c" and size == 1:
                bs = base[1].a[0].encode("utf8", "surrogateescape") + b"\0"
                if t.cv(off) < len(bs):
                    return C(bits, bs[t.cv(off)])
            return ap("strbyte", bits, base[1], off)
        o = st.mem.get(base)
        if k == "S" and size == 8 and isinstance(key, int) and base[1] in st.vt and o is None:
            return ap("vfn", 64, st.vt[base[1]], C(64, key))
        if k == "G":
            if o is None or key not in o.c:
                if isinstance(key, int):
                    v = s.gload(base[1], key, size)
                    if v is None and base[1].startswith("_ZGV"):
                        v = C(size * 8, 0)      # a local static not initialised yet on this path
                    if v is not None:
                        return s.conv(v, bits)
        if o is not None:
            h = o.c.get(key)
            if h is not None:
                v, sz = h
                if sz == size:
                    return s.conv(v, bits)
                if sz > size and isinstance(v, T) and v.op not in ("ptr", "fn"):
                    return s.conv(t.trunc(v, size * 8) if v.bits >= size * 8 else v, bits)
            if isinstance(key, int):
                v = s.compose(o, key, size, base)
                if v is not None:
                    return s.conv(v, bits)
                for lo, hi, byte in reversed(o.f):
                    if lo <= key and (hi is None or key + size <= hi):
                        if byte == 0:
                            return C(bits, 0)
                        if byte is None:
                            break
                        return C(bits, int.from_bytes(bytes([byte]) * size, "little"))
            ver = o.ver
        else:
            ver = 0
        v = sym(("L", base, key, ver, size), bits)
        return v

    def compose(s, o, key, size, base=None):
        # exact containing constant/integer cell, or small cells that tile the range
        for d in range(1, 16):
            h = o.c.get(key - d)
            if h is not None and h[1] > d:
                v, sz = h
                if sz >= d + size and isinstance(v, T) and v.bits == sz * 8 and v.op not in ("ptr", "fn"):
                    return t.trunc(t.bin_("lshr", v, C(v.bits, 8 * d)), size * 8)
                return None
        if size > 1:
            parts, pos = [], 0
            while pos < size:
                h = o.c.get(key + pos)
                if h is None or pos + h[1] > size:
                    # maybe a zero fill covers the gap
                    got = None
                    for lo, hi, byte in reversed(o.f):
                        if lo <= key + pos and (hi is None or key + pos < hi):
                            got = byte
                            break
                    if got is None:
                        # between (or behind) members: padding, whatever it holds
                        if size <= 8 and parts:
                            parts.append((pos, sym(("L", base, key + pos, o.ver, 1), 8)))
                            pos += 1
                            continue
                        return None
                    parts.append((pos, C(8, got)))
                    pos += 1
                    continue
                v, sz = h
                if not isinstance(v, T) or v.op in ("ptr", "fn", "str", "cat"):
                    return None
                parts.append((pos, v))
                pos += sz
            if not any(key + q in o.c for q in range(size)):
                return None
            r = C(size * 8, 0)
            for q, v in parts:
                r = t.add(r, t.bin_("shl", t.zext(v, size * 8), C(size * 8, 8 * q)))
            return r
        return None

    def conv(s, v, bits):
        if not isinstance(v, T) or v.bits == bits:
            return v
        if v.op in ("str", "cat"):
            return v
        if v.bits == 0:
            return v
        return t.zext(v, bits) if v.bits < bits else t.trunc(v, bits)

    def store(s, st, p, v, size, site=None):
        base, off = split(p)
        if base[0] == "N":
            s.emit(st, "nullderef", site, what="store")
            return
        if base[0] == "STR":
            s.vague.add("a text changed through its characters")
            return
        if s.access is not None:
            s.access(st, base, off, size, "w", s.atom, site if site is not None else s.ccur)
        o = st.wobj(base)
        if off.op == "c":
            k = t.cv(off)
            if isinstance(v, tuple):
                pos = k
                for x in v:
                    n = max(1, (x.bits + 7) // 8)
                    pos = (pos + n - 1) // n * n
                    o.c[pos] = (x, n)
                    pos += n
                return
            if k not in o.c or o.c[k][1] != size:
                for d in range(-15, size):
                    h = o.c.get(k + d)
                    if h is not None and k + d + h[1] > k:
                        w, n = h
                        if d != 0:
                            del o.c[k + d]
                        if (d < 0 or n > size) and isinstance(w, T) and w.bits == 8 * n and w.op not in ("ptr", "fn", "str", "cat"):
                            # what stays of a value that is overwritten in part
                            if d < 0:
                                o.c[k + d] = (t.trunc(w, -8 * d), -d)
                            r = d + n - size
                            if r > 0:
                                o.c[k + size] = (t.trunc(t.bin_("lshr", w, C(w.bits, 8 * (n - r))), 8 * r), r)
            o.c[k] = (v, size)
        else:
            for k in [k for k in o.c if isinstance(k, T) and k is not off]:
                del o.c[k]
            o.c[off] = (v, size)

    def clear_range(s, st, base, lo, n):
        o = st.wobj(base)
        for k in [k for k in o.c if isinstance(k, int) and lo <= k < lo + n]:
            del o.c[k]
        for k in [k for k in o.c if isinstance(k, tuple) and isinstance(k[1], int) and lo <= k[1] < lo + n]:
            del o.c[k]

    def havoc(s, st, p):
        base, off = split(p)
        if base[0] in ("N", "STR", "F"):
            return
        if base[0] == "G" and (s.p.globals.get(base[1]) or {}).get("const"):
            return
        if s.access is not None:
            s.access(st, base, C(64, 0), None, "w", False, s.ccur)
        o = st.mem.get(base)
        st.mem[base] = Obj({}, (), (o.ver if o else 0) + 1, st.tok)

    def memcpy(s, st, d, src, n, site):
        bd, od = split(d)
        bs, os = split(src)
        if "N" in (bd[0], bs[0]):
            if not isc(n, 0):
                s.emit(st, "nullderef", site, what="memcpy")
            return
        if s.access is not None and not isc(n, 0):
            k = t.cv(n) if n.op == "c" else None
            s.access(st, bs, os, k, "r", False, site)
            s.access(st, bd, od, k, "w", False, site)
        if n.op == "c" and od.op == "c" and os.op == "c":
            n_, od_, os_ = t.cv(n), t.cv(od), t.cv(os)
            if n_ > 1 << 20:
                s.clear_range(st, bd, od_, n_)
                o = st.wobj(bd)
                for k in [k for k in o.c if isinstance(k, T)]:
                    del o.c[k]
                o.fill(od_, od_ + n_, None)
                return
            srco = st.mem.get(bs)
            cells = []
            if srco:
                for k, v in srco.c.items():
                    if isinstance(k, int) and os_ <= k < os_ + n_:
                        cells.append((k - os_ + od_, v))
                    elif isinstance(k, tuple) and isinstance(k[1], int) and os_ <= k[1] < os_ + n_:
                        cells.append(((k[0], k[1] - os_ + od_), v))
            if bs[0] == "G" and (srco is None or not srco.c):
                for k, v in s.const_init(bs[1]).items():
                    if isinstance(k, int) and os_ <= k < os_ + n_:
                        cells.append((k - os_ + od_, v))
                    elif isinstance(k, tuple) and k[0] == "bytes":
                        for i, byte in enumerate(v):
                            if os_ <= k[1] + i < os_ + n_ and n_ <= 256:
                                cells.append((k[1] + i - os_ + od_, (C(8, byte), 1)))
                    elif isinstance(k, tuple) and k[0] == "zero":
                        cells.append(None)
            else:
                # cells of the source that are still unknown: give the copy the same value numbers
                have = set()
                if srco:
                    for k, v in srco.c.items():
                        if isinstance(k, int):
                            have.update(range(k, k + v[1]))
                fills = srco.f if srco else ()
                if n_ <= 512:
                    ver = srco.ver if srco else 0
                    for q in range(os_, os_ + n_ - 7, 8):
                        if not any(x in have for x in range(q, q + 8)) and not any(lo <= q and (hi is None or q + 8 <= hi) for lo, hi, b in fills):
                            cells.append((q - os_ + od_, (sym(("L", bs, q, ver, 8), 64), 8)))
                for lo, hi, b in fills:
                    lo2 = max(lo, os_)
                    hi2 = os_ + n_ if hi is None else min(hi, os_ + n_)
                    if lo2 < hi2:
                        cells.append(("fill", lo2 - os_ + od_, hi2 - os_ + od_, b))
            s.clear_range(st, bd, od_, n_)
            o = st.wobj(bd)
            o.fill(od_, od_ + n_, None)
            for c in cells:
                if c is None:
                    o.fill(od_, od_ + n_, 0)
                elif c[0] == "fill":
                    o.fill(c[1], c[2], c[3])
                else:
                    o.c[c[0]] = c[1]
        else:
            o = st.wobj(bd)
            for k in [k for k in o.c if not isinstance(k, int) or od.op != "c" or k >= t.cv(od)]:
                if not isinstance(k, tuple):
                    del o.c[k]
            o.ver += 1

    def fresh(s, st, key, bits):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return sym((key, n), bits)

    def alloc(s, st, ctx, tag="H"):
        n = 0
        while (tag, ctx, n) in st.mem and n < 40:
            n += 1
        b = (tag, ctx, n)
        st.mem[b] = Obj({}, (), 0, st.tok)
        return b

    # ---- facts -----------------------------------------------------------------------
    def decide(s, st, c, d=0):
        if c.op == "c":
            return bool(c.a[0])
        if c.op == "not":
            r = s.decide(st, c.a[0], d)
            return None if r is None else not r
        r = st.facts.get(c)
        if r is not None:
            return r
        if d > 8:
            return None
        if c.op in ("and", "or") and c.bits == 1:
            x, y = s.decide(st, c.a[0], d + 1), s.decide(st, c.a[1], d + 1)
            if c.op == "and":
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
            return None
        if c.op == "xor" and c.bits == 1:
            x, y = s.decide(st, c.a[0], d + 1), s.decide(st, c.a[1], d + 1)
            if x is not None and y is not None:
                return x != y
            return None
        if c.op == "eq":
            a, b = c.a
            if a.op == "c":
                lo, hi, ne = s.range(st, b)
                v = a.a[0]
                if v < lo or v > hi or v in ne:
                    return False
                if lo == hi == v:
                    return True
                if b.op == "sel":
                    x, y = s.decide(st, cmp("eq", a, b.a[1]), d + 1), s.decide(st, cmp("eq", a, b.a[2]), d + 1)
                    if x is not None and x == y:
                        return x
            else:
                la, ha, _ = s.range(st, a)
                lb, hb, _ = s.range(st, b)
                if ha < lb or hb < la:
                    return False
                if la == ha == lb == hb:
                    return True
                # a+k == a
                r2 = st.facts.get(cmp("eq", b, a))
                if r2 is not None:
                    return r2
                if st.facts.get(cmp("ult", a, b)) or st.facts.get(cmp("ult", b, a)):
                    return False
        if c.op in ("ult", "slt"):
            a, b = c.a
            la, ha, _ = s.range(st, a)
            lb, hb, _ = s.range(st, b)
            half = 1 << (a.bits - 1)
            if c.op == "slt":
                def srng(lo, hi):
                    if hi < half or lo >= half:
                        return t.sgn(lo, a.bits), t.sgn(hi, a.bits)
                    return -half, half - 1
                la, ha = srng(la, ha)
                lb, hb = srng(lb, hb)
            if ha < lb:
                return True
            if la >= hb:
                return False
            if st.facts.get(mk_eq(a, b)):
                return False
            if st.facts.get(cmp(c.op, b, a)):
                return False
            if c.op == "slt":
                # same-sign facts carry over
                pass
        return None

    def range(s, st, x):
        r = st.rng.get(x)
        lo, hi, ne = r if r else (0, t.mask(x.bits), frozenset())
        o = x.op
        if o == "c":
            return x.a[0], x.a[0], ne
        if o in ("zext",):
            l2, h2, n2 = s.range(st, x.a[0])
            lo, hi = max(lo, l2), min(hi, h2)
            ne = ne | n2
        elif o == "sext":
            l2, h2, _ = s.range(st, x.a[0])
            if h2 < 1 << (x.a[0].bits - 1):
                lo, hi = max(lo, l2), min(hi, h2)
        elif o == "urem":
            l2, h2, _ = s.range(st, x.a[1])
            hi = min(hi, max(h2 - 1, 0))
        elif o == "and":
            for y in x.a:
                if y.op == "c":
                    hi = min(hi, y.a[0])
        elif o == "sel":
            a, b = s.range(st, x.a[1]), s.range(st, x.a[2])
            lo, hi = max(lo, min(a[0], b[0])), min(hi, max(a[1], b[1]))
        elif o == "lin" and len(x.a[1]) <= 3:
            l2 = h2 = x.a[0]
            for y, cc in x.a[1]:
                a, b, _ = s.range(st, y)
                if cc >> (x.bits - 1):
                    cc -= 1 << x.bits
                    l2, h2 = l2 + cc * b, h2 + cc * a
                else:
                    l2, h2 = l2 + cc * a, h2 + cc * b
            M = t.mask(x.bits)
            if l2 >= 0 and h2 <= M:
                lo, hi = max(lo, l2), min(hi, h2)
            elif l2 > M and h2 <= 2 * M + 1:
                lo, hi = max(lo, l2 - M - 1), min(hi, h2 - M - 1)
        elif o == "ptr":
            if t.nonnull_base(x.a[0]) or x.a[1].op == "c":
                lo = max(lo, 1)
        elif o == "fn":
            lo = max(lo, 1)
        elif o == "udiv" and x.a[1].op == "c" and x.a[1].a[0]:
            l2, h2, _ = s.range(st, x.a[0])
            lo, hi = max(lo, l2 // x.a[1].a[0]), min(hi, h2 // x.a[1].a[0])
        while lo in ne and lo < hi:
            lo += 1
        while hi in ne and hi > lo:
            hi -= 1
        return lo, hi, ne

    def setrng(s, st, x, lo, hi, ne=frozenset()):
        l, h, n = s.range(st, x)
        l, h, n = max(l, lo), min(h, hi), n | ne
        if l > h:
            return False
        st.rng[x] = (l, h, n)
        # invert simple linear forms
        if x.op == "lin" and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[0]:
            y = x.a[1][0][0]
            k = x.a[0]
            M = t.mask(x.bits)
            a, b = l - k, h - k
            if a >= 0 or b < 0:
                s.setrng(st, y, a & M, b & M)
        if x.op == "zext":
            m = t.mask(x.a[0].bits)
            if not s.setrng(st, x.a[0], min(l, m), min(h, m), frozenset(v for v in n if v <= m)):
                return False
        return True

    def assume(s, st, c, val):
        """add a fact; False if it contradicts"""
        if c.op == "c":
            return bool(c.a[0]) == val
        if c.op == "not":
            return s.assume(st, c.a[0], not val)
        k = s.decide(st, c)
        if k is not None and k != val:
            return False
        st.facts[c] = val
        if c.op == "and" and c.bits == 1 and val:
            return s.assume(st, c.a[0], True) and s.assume(st, c.a[1], True)
        if c.op == "or" and c.bits == 1 and not val:
            return s.assume(st, c.a[0], False) and s.assume(st, c.a[1], False)
        if c.op == "eq":
            a, b = c.a
            if a.op == "c":
                v = a.a[0]
                if val:
                    return s.setrng(st, b, v, v)
                return s.setrng(st, b, 0, t.mask(b.bits), frozenset([v]))
            if val:
                la, ha, na = s.range(st, a)
                lb, hb, nb = s.range(st, b)
                return s.setrng(st, a, lb, hb, nb) and s.setrng(st, b, la, ha, na)
        if c.op == "ult":
            a, b = c.a
            if not val:
                a, b = b, a
            la, ha, _ = s.range(st, a)
            lb, hb, _ = s.range(st, b)
            if val:
                return s.setrng(st, a, 0, hb - 1) and s.setrng(st, b, la + 1, t.mask(b.bits))
            return s.setrng(st, a, 0, hb) and s.setrng(st, b, la, t.mask(b.bits))
        if c.op == "slt":
            a, b = c.a
            half = 1 << (a.bits - 1)
            la, ha, _ = s.range(st, a)
            lb, hb, _ = s.range(st, b)
            if ha < half and hb < half:
                x, y = (a, b) if val else (b, a)
                d = 1 if val else 0
                _, hy, _ = s.range(st, y)
                lx, _, _ = s.range(st, x)
                return s.setrng(st, x, 0, hy - d) and s.setrng(st, y, lx + d, half - 1)
            # signed comparisons with a constant
            if not val and isc(b) and t.sgn(b.a[0], a.bits) >= 0:      # a >= k >= 0
                return s.setrng(st, a, b.a[0], half - 1)
            if val and isc(a) and t.sgn(a.a[0], a.bits) >= -1:         # k < b
                return s.setrng(st, b, t.sgn(a.a[0], a.bits) + 1, half - 1)
            if val and isc(b, 0):                                      # a < 0
                return s.setrng(st, a, half, t.mask(a.bits))
            if not val and isc(a) and t.sgn(a.a[0], a.bits) == -1:     # b <= -1
                return s.setrng(st, b, half, t.mask(a.bits))
        return True

    # ---- constants -------------------------------------------------------------------
    def const(s, v):
        k = v[0]
        if k == "i":
            return C(v[1], int(v[2]))
        if k == "n":
            return NULL
        if k == "g":
            n = v[1]
            if n in s.p.fns:
                return t.fn(n)
            return ptr(("G", n), 0)
        if k == "f":
            return t.mk("fc", 64 if v[1] == "double" else 32, v[2])
        if k == "u":
            return sym("undef", max(1, v[1] * 8)) if v[1] <= 8 else ()
        if k == "z":
            return () if v[1] > 8 else C(v[1] * 8, 0)
        if k == "gep":
            b = s.const(v[1])
            if v[2] is None:
                raise Unsupported("gep const")
            off = C(64, v[2][0])
            for x, sc in v[2][1]:
                off = t.add(off, t.scale(t.sext(s.const(x), 64), sc))
            return t.add(b, off) if b.op != "fn" else b
        if k == "ce":
            a = [s.const(x) for x in v[2:] if isinstance(x, list)]
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return a[0]
            if v[1] in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
                return t.bin_(v[1], a[0], a[1])
            if v[1] == "icmp":
                return sym("cecmp", 1)
            raise Unsupported("ce " + v[1])
        if k == "arr":
            items = v[1] if len(v) == 2 and v[1] and isinstance(v[1][0], list) and isinstance(v[1][0][0], int) and len(v[1][0]) == 2 else v[1:]
            return tuple(s.const(e) for _, e in items)
        if k == "m":
            return lit(v[1]) if len(v) > 1 else lit("")
        return sym("const?" + str(k), 64)

    def val(s, env, v):
        if v[0] == "v":
            return env[v[1]]
        return s.const(v)

    # ---- execution -------------------------------------------------------------------
    def run(s, st, f, args, ctx=None, depth=0):
        """-> list of (state, kind, value): kind 'ret' | 'exc' (value = (typeinfo, pointer)) | 'dead'"""
        if not f.blocks:
            raise Unsupported("no body " + f.dem)
        if ctx is None:
            ctx = s.ctx(None, f, -1, 0)
        s.inlined.add(f.n)
        s.stack.append(f.n)
        outs = []
        env = {i: a for i, a in enumerate(args)}
        work = [(st, 0, None, 0, env, {})]
        try:
            while work:
                s._block(work.pop(), f, ctx, depth, work, outs)
        finally:
            s.stack.pop()
        # locals die
        for o in outs:
            m = o[0].mem
            for b in [b for b in m if b[0] == "A" and b[1] == ctx]:
                del m[b]
        if s.merge and len(outs) > 1:
            outs = s.join(outs)
        return outs

    def join(s, outs):
        groups = {}
        order = []
        for o in outs:
            st, kind, v = o
            key = (kind, v if not isinstance(v, list) else tuple(v), tuple(sorted(st.props.items(), key=lambda x: str(x[0]))) if st.props else (), id(st.trace) if st.trace else 0)
            # traces compare by content
            key = key[:3] + (s.trkey(st.trace),)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(o)
        res = []
        for k in order:
            g = groups[k]
            kept = []
            for o in g:
                for q in kept:
                    if s.samemem(q[0], o[0]):
                        a, b = q[0], o[0]
                        com = {c: v for c, v in a.facts.items() if b.facts.get(c) == v}
                        da = [(c, v) for c, v in a.facts.items() if c not in com]
                        db = [(c, v) for c, v in b.facts.items() if c not in com]
                        a.facts = com
                        if da and db and len(da) + len(db) <= s.disj:
                            e = s.conj(da)
                            e = t.bin_("or", e, s.conj(db))
                            if e.op != "c":
                                com[e] = True
                        nr = {}
                        for x, (l, h, n) in a.rng.items():
                            l2, h2, n2 = s.range(b, x)
                            nr[x] = (min(l, l2), max(h, h2), n & n2)
                        a.rng = nr
                        for c, n in b.cnt.items():
                            if a.cnt.get(c, 0) < n:
                                a.cnt[c] = n
                        break
                else:
                    kept.append(o)
            res.extend(kept)
        return res

    @staticmethod
    def conj(l):
        r = None
        for c, v in l:
            x = c if v else t.not_(c)
            r = x if r is None else t.bin_("and", r, x)
        return r

    def trkey(s, tr):
        # linked lists share tails: compare structurally but cheaply
        k = getattr(s, "_trk", None)
        if k is None:
            k = s._trk = {}
            s._trkeep = []
        if tr is None:
            return 0
        r = k.get(id(tr))
        if r is not None:
            return r
        chain = []
        x = tr
        while x is not None and id(x) not in k:
            chain.append(x)
            x = x[0]
        base = 0 if x is None else k[id(x)]
        tab = getattr(s, "_trt", None)
        if tab is None:
            tab = s._trt = {}
        for x in reversed(chain):
            e = x[1]
            kk = (base, e[0], tuple(sorted(e[1].items(), key=lambda z: z[0])), e[2])
            try:
                r = tab.get(kk)
            except TypeError:
                kk = (base, id(x))
                r = tab.get(kk)
            if r is None:
                r = tab[kk] = len(tab) + 1
            base = r
            k[id(x)] = r
            s._trkeep.append(x)
        return base

    def samemem(s, a, b):
        if a.mem.keys() != b.mem.keys():
            return False
        for k, x in a.mem.items():
            y = b.mem[k]
            if x is y:
                continue
            if x.f != y.f or x.ver != y.ver or x.c != y.c:
                return False
        return True

    def _block(s, item, f, ctx, depth, work, outs):
        st, b, prev, i, env, lp = item
        blocks = f.blocks
        while True:
            insts = blocks[b]
            if i == 0:
                # loop bookkeeping
                if b in f.head:
                    r = s._head(st, f, b, prev, env, lp, ctx)
                    if r is None:
                        return
                    st, env, lp, phis_done = r
                else:
                    phis_done = False
                # phis
                n = 0
                if insts and insts[0]["op"] == "phi" and not phis_done:
                    new = {}
                    for q in insts:
                        if q["op"] != "phi":
                            break
                        for pb, v in q["a"]:
                            if pb == prev:
                                new[q["id"]] = s.val(env, v)
                                break
                        n += 1
                    env.update(new)
                while i < len(insts) and insts[i]["op"] == "phi":
                    i += 1
            while i < len(insts):
                q = insts[i]
                s.steps += 1
                if s.steps > s.max_steps:
                    raise Budget()
                if s.deadline and not s.steps & 1023 and time.time() > s.deadline:
                    raise Budget("out of time")
                op = q["op"]
                if op in ("call", "invoke"):
                    res = s._call(st, q, f, b, i, ctx, depth, env)
                    if op == "call":
                        nxt = (b, prev, i + 1)
                    cont = []
                    for st2, kind, v in res:
                        if kind == "ret":
                            cont.append((st2, v))
                        elif kind == "exc":
                            if op == "invoke":
                                e2 = dict(env)
                                e2["exc"] = v
                                if s._pad(f, q["unwind"], v):
                                    work.append((st2, q["unwind"], b, 0, e2, dict(lp)))
                                else:
                                    outs.append((st2, "exc", v))
                            else:
                                outs.append((st2, "exc", v))
                        else:
                            outs.append((st2, kind, v))
                    if not cont:
                        return
                    for st2, v in cont[1:]:
                        e2 = dict(env)
                        if "id" in q:
                            e2[q["id"]] = v if v is not None else s.fresh(st2, ("void", ctx, b, i), 64)
                        if op == "call":
                            work.append((st2, b, prev, i + 1, e2, dict(lp)))
                        else:
                            work.append((st2, q["normal"], b, 0, e2, dict(lp)))
                    st, v = cont[0]
                    if len(cont) > 1:
                        env = dict(env)
                        lp = dict(lp)
                    if "id" in q:
                        env[q["id"]] = v if v is not None else s.fresh(st, ("void", ctx, b, i), 64)
                    if op == "call":
                        i += 1
                        continue
                    prev, b, i = b, q["normal"], 0
                    break
                if op == "br":
                    to = q["to"]
                    if len(to) == 1:
                        prev, b, i = b, to[0], 0
                        break
                    c = s.val(env, q["a"][0])
                    d = s.decide(st, c)
                    if d is not None:
                        if c.op == "c":
                            s._mark(f, b, lp, to)
                        if s.record_branches:
                            s.on_branch(st, c, d, f, q)
                        prev, b, i = b, to[0] if d else to[1], 0
                        break
                    st2 = st.fork()
                    ok2 = s.assume(st2, c, False)
                    ok1 = s.assume(st, c, True)
                    if s.record_branches:
                        s.on_branch(st, c, True, f, q)
                        s.on_branch(st2, c, False, f, q)
                    if ok1 and ok2:
                        work.append((st2, to[1], b, 0, dict(env), dict(lp)))
                        prev, b, i = b, to[0], 0
                    elif ok1:
                        prev, b, i = b, to[0], 0
                    elif ok2:
                        st = st2
                        prev, b, i = b, to[1], 0
                    else:
                        return
                    break
                if op == "switch":
                    c = s.val(env, q["a"][0])
                    if c.op == "c":
                        x = t.sgn(c.a[0], c.bits)
                        tgt = q["def"]
                        for cvv, bb in q["cases"]:
                            if cvv == x or cvv == c.a[0]:
                                tgt = bb
                                break
                        s._mark(f, b, lp, [q["def"]] + [bb for _, bb in q["cases"]])
                        prev, b, i = b, tgt, 0
                        break
                    nxt = []
                    rest = st
                    dead = False
                    for cvv, bb in q["cases"]:
                        e = cmp("eq", c, C(c.bits, cvv))
                        d = s.decide(rest, e)
                        if d is False:
                            continue
                        st2 = rest.fork()
                        if s.assume(st2, e, True):
                            nxt.append((st2, bb))
                        if d is True or not s.assume(rest, e, False):
                            dead = True
                            break
                    if not dead:
                        nxt.append((rest, q["def"]))
                    if not nxt:
                        return
                    for st2, bb in nxt[1:]:
                        work.append((st2, bb, b, 0, dict(env), dict(lp)))
                    if len(nxt) > 1:
                        env, lp = dict(env), dict(lp)
                    st = nxt[0][0]
                    prev, b, i = b, nxt[0][1], 0
                    break
                if op == "ret":
                    outs.append((st, "ret", s.val(env, q["a"][0]) if q["a"] else None))
                    return
                if op == "unreachable":
                    outs.append((st, "dead", None))
                    return
                if op == "resume":
                    outs.append((st, "exc", env["exc"]))
                    return
                s._simple(st, q, f, b, i, ctx, env)
                i += 1
            else:
                raise Unsupported("fell off block")

    def _mark(s, f, b, lp, to):
        # a constant decided a branch: if it can leave a loop, that loop makes concrete progress
        for h, body in f.loops:
            if b in body and h in lp and any(x not in body for x in to):
                rec = dict(lp[h])
                rec["conc"] = True
                lp[h] = rec

    def _pad(s, f, b, exc):
        for q in f.blocks[b]:
            if q["op"] == "landingpad":
                if q["cleanup"]:
                    return True
                for kind, v in q["clauses"]:
                    if kind == "catch":
                        if v[0] == "n" or exc_matches(s.p, exc[0], v[1] if v[0] == "g" else None):
                            return True
                    else:
                        return True
                return False
        return True

    def typeid(s, name):
        k = s._siginit
        if name not in k:
            k[name] = len(k) + 1
        return k[name]

    def _head(s, st, f, b, prev, env, lp, ctx):
        body = f.head[b]
        insts = f.blocks[b]
        phis = [q for q in insts if q["op"] == "phi"]
        if prev not in body:
            vals = {}
            for q in phis:
                for pb, v in q["a"]:
                    if pb == prev:
                        vals[q["id"]] = s.val(env, v)
            lp[b] = {"n": 0, "mem": dict(st.mem), "phi": vals, "conc": False, "w": False, "props": (), "tr": st.trace}
            for x in list(lp):
                if x != b and x in body:
                    del lp[x]
            st.disown()
            return st, env, lp, False
        rec = dict(lp[b])
        rec["n"] += 1
        new = {}
        for q in phis:
            for pb, v in q["a"]:
                if pb == prev:
                    new[q["id"]] = s.val(env, v)
        st.disown()
        if not rec["w"] and rec["conc"] and rec["n"] <= s.unroll:
            rec["mem"], rec["phi"], rec["conc"] = dict(st.mem), new, False
            env.update(new)
            lp[b] = rec
            for x in list(lp):
                if x != b and x in body:
                    del lp[x]
            return st, env, lp, True
        # widen
        s.widened_loops.add((f.n, b))
        changed = False
        old = rec["mem"]
        wtag = ("w", ctx, b)
        flags = rec.get("flags", frozenset())
        for base in list(st.mem):
            o, p = st.mem[base], old.get(base)
            if p is o or p is None:
                continue
            if base[0] == "A" and False:
                continue
            if p.c == o.c and p.f == o.f and p.ver == o.ver:
                continue
            w = None
            for k in set(o.c) | set(p.c):
                x, y = p.c.get(k), o.c.get(k)
                if x == y:
                    continue
                if x is not None and isinstance(x[0], T) and x[0].op == "sym" and x[0].a[0][0] == wtag:
                    # already widened: value may be anything; keep the widened symbol
                    if w is None:
                        w = st.wobj(base)
                    w.c[k] = x
                    continue
                if x is not None and isinstance(x[0], T) and x[0].op == "ptr" and isinstance(x[0].a[1], T) and x[0].a[1].op == "sym" and x[0].a[1].a[0][0] == wtag and y is not None and isinstance(y[0], T) and y[0].op == "ptr" and y[0].a[0] == x[0].a[0]:
                    if w is None:
                        w = st.wobj(base)
                    w.c[k] = x
                    continue
                if isenv(y):
                    # set by the environment (other threads): already arbitrary, a new value on each arrival
                    if not isenv(x):
                        changed = True
                    continue
                if x is not None and isinstance(x[0], T) and x[0].op == "ap" and x[0].a[0] == "wstr" and y is not None:
                    if w is None:
                        w = st.wobj(base)
                    w.c[k] = x
                    continue
                if x is not None and y is not None and x[1] == y[1] == 1 and isc(x[0]) and isc(y[0]) and x[0].a[0] < 2 and y[0].a[0] < 2 and ((base, k) in flags or len(flags) < 3):
                    # a flag: followed exactly, as part of the path's property state
                    flags = flags | {(base, k)}
                    continue
                changed = True
                if w is None:
                    w = st.wobj(base)
                if y is None and x is None:
                    continue
                v0 = (y or x)
                sz = v0[1]
                vx, vy = (x[0] if x else None), (y[0] if y else None)
                n = st.cnt.get(wtag, 0)
                st.cnt[wtag] = n + 1
                if isinstance(k, tuple) and k[0] == "s":
                    w.c[k] = (ap("wstr", 0, sym((wtag, n), 0)), sz)
                elif isinstance(k, tuple):
                    z = vy if vy is not None else vx
                    if isinstance(z, T) and z.bits:
                        w.c[k] = (sym((wtag, n), z.bits), sz)
                    else:
                        w.c.pop(k, None)
                elif isinstance(vx, T) and isinstance(vy, T) and vx.op == "ptr" and vy.op == "ptr" and vx.a[0] == vy.a[0]:
                    w.c[k] = (ptr(vx.a[0], sym((wtag, n), 64)), sz)
                else:
                    z = vy if vy is not None else vx
                    bits = z.bits if isinstance(z, T) and z.bits else sz * 8
                    w.c[k] = (sym((wtag, n), bits), sz)
            if o.f != p.f:
                if w is None:
                    w = st.wobj(base)
                common = tuple(x for x in p.f if x in o.f)
                if common != p.f:
                    changed = True
                w.f = common
        wphi = {}
        for k, y in new.items():
            x = rec["phi"][k]
            if x == y and isinstance(x, T):
                wphi[k] = x
                continue
            if isinstance(x, T) and x.op == "sym" and isinstance(x.a[0], tuple) and x.a[0] and x.a[0][0] == wtag:
                wphi[k] = x
                continue
            if isinstance(x, T) and isinstance(y, T) and x.op == "ptr" and y.op == "ptr" and x.a[0] == y.a[0] and x.a[1].op == "sym" and isinstance(x.a[1].a[0], tuple) and x.a[1].a[0][0] == wtag:
                wphi[k] = x
                continue
            changed = True
            n = st.cnt.get(wtag, 0)
            st.cnt[wtag] = n + 1
            if isinstance(x, T) and isinstance(y, T) and x.op == "ptr" and y.op == "ptr" and x.a[0] == y.a[0]:
                wphi[k] = ptr(x.a[0], sym((wtag, n), 64))
            else:
                wphi[k] = sym((wtag, n), y.bits if isinstance(y, T) else 64)
        props = s.prop_key(st)
        if flags:
            rec["flags"] = flags
            props += tuple(sorted((str(x), str(st.mem[x[0]].c.get(x[1]))) for x in flags if x[0] in st.mem))
        seen = rec["props"]
        if rec["w"] and not changed and props in seen:
            if s.closed is not None:
                s.closed.append((st, f, b))
            return None
        if s.loop_cap and rec["n"] > s.loop_cap:
            if s.closed is not None:
                s.closed.append((st, f, b))
            return None
        if len(seen) > 12:
            s.truncated += 1
            return None
        rec["w"] = True
        s.purge(st, wtag)
        rec["props"] = seen + (props,)
        rec["mem"], rec["phi"] = dict(st.mem), wphi
        st.disown()
        env.update(wphi)
        lp[b] = rec
        for x in list(lp):
            if x != b and x in body:
                del lp[x]
        return st, env, lp, True

    def mentions(s, x, wtag):
        k = (x, wtag)
        r = s._wsyms.get(k)
        if r is None:
            r = False
            if x.op == "sym":
                r = isinstance(x.a[0], tuple) and s.inkey(x.a[0], wtag)
            else:
                for y in x.a:
                    if isinstance(y, T):
                        if s.mentions(y, wtag):
                            r = True
                            break
                    elif isinstance(y, tuple) and s.inkey(y, wtag):
                        r = True
                        break
            s._wsyms[k] = r
        return r

    def inkey(s, tup, wtag):
        for y in tup:
            if y == wtag:
                return True
            if isinstance(y, T):
                if s.mentions(y, wtag):
                    return True
            elif isinstance(y, tuple) and s.inkey(y, wtag):
                return True
        return False

    def purge(s, st, wtag):
        """a widened symbol denotes a new value on each arrival at the loop head"""
        st.facts = {c: v for c, v in st.facts.items() if not s.mentions(c, wtag)}
        st.rng = {c: v for c, v in st.rng.items() if not s.mentions(c, wtag)}

    def prop_key(s, st):
        return tuple(sorted(((str(k), v) for k, v in st.props.items()), key=lambda x: x[0]))

    # ---- plain instructions ----------------------------------------------------------
    def _simple(s, st, q, f, b, i, ctx, env):
        op = q["op"]
        if op == "load":
            p = s.val(env, q["a"][0])
            bits = s.tyinfo(q["ty"], q["sz"])
            s.atom = bool(q.get("atomic"))
            if q["ty"][0] == "{":
                v = s.load_agg(st, p, q["ty"], ctx)
            else:
                v = None
                if s.on_load is not None:
                    v = s.on_load(s, st, p, q, bits, f, s.ctx(ctx, f, b, i))
                if v is None:
                    v = s.load(st, p, max(1, (bits + 7) // 8), bits, s.ctx(ctx, f, b, i))
            s.atom = False
            env[q["id"]] = v
        elif op == "store":
            v, p = s.val(env, q["a"][0]), s.val(env, q["a"][1])
            if s.on_store is not None:
                s.on_store(s, st, p, v, q, f, s.ctx(ctx, f, b, i))
            s.atom = bool(q.get("atomic"))
            s.store(st, p, v, q["vsz"], s.ctx(ctx, f, b, i))
            s.atom = False
        elif op == "getelementptr":
            p = s.val(env, q["a"][0])
            g = q["gep"]
            if g is None:
                env[q["id"]] = s.fresh(st, ("gep", ctx, b, i), 64)
                return
            off = C(64, g[0])
            for v, sc in g[1]:
                x = s.val(env, v)
                if x.bits == 64:
                    y = x
                elif s.range(st, x)[1] < 1 << (x.bits - 1):
                    y = t.zext(x, 64)
                else:
                    y = t.sext(x, 64)
                off = t.add(off, t.scale(y, sc))
            base, o = split(p)
            env[q["id"]] = ptr(base, t.add(o, off)) if base[0] != "N" else t.add(p, off) if isc(off, 0) else ptr(("N",), t.add(o, off)) if False else (p if isc(off, 0) else ptr(("N",), off))
        elif op == "alloca":
            base = ("A", ctx, b, i)
            st.mem[base] = Obj({}, (), 0, st.tok)
            env[q["id"]] = ptr(base, 0)
        elif op == "icmp":
            a, c = s.val(env, q["a"][0]), s.val(env, q["a"][1])
            env[q["id"]] = cmp(q["pred"], a, c)
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, c = s.val(env, q["a"][0]), s.val(env, q["a"][1])
            env[q["id"]] = t.bin_(op, a, c)
        elif op in ("zext", "sext", "trunc"):
            a = s.val(env, q["a"][0])
            env[q["id"]] = getattr(t, op)(a, s.tyinfo(q["ty"], q["sz"]))
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = s.val(env, q["a"][0])
            env[q["id"]] = C(v.bits, t.fbits(v.a[0], v.bits)) if op == "bitcast" and isinstance(v, T) and v.op == "fc" and q["ty"] in ("i32", "i64") else v
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            a = s.val(env, q["a"][0])
            bits = s.tyinfo(q["ty"], q["sz"])
            if a.op == "c" and op in ("sitofp", "uitofp"):
                env[q["id"]] = t.mk("fc", bits, t.fround(float(t.sgn(a.a[0], a.bits) if op == "sitofp" else a.a[0]), bits))
            elif a.op == "fc" and op in ("fptosi", "fptoui"):
                env[q["id"]] = C(bits, int(a.a[0]))
            elif a.op == "fc":
                env[q["id"]] = t.mk("fc", bits, t.fround(a.a[0], bits))
            else:
                env[q["id"]] = t.mk(op, bits, a)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            a = [s.val(env, x) for x in q["a"]]
            bits = s.tyinfo(q["ty"], q["sz"])
            if all(x.op == "fc" for x in a) and (op in ("fadd", "fsub", "fmul") or op == "fdiv" and a[1].a[0] != 0):
                x, y = a[0].a[0], a[1].a[0]
                env[q["id"]] = t.mk("fc", bits, t.fround(x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y, bits))
            elif op == "fneg" and a[0].op == "fc":
                env[q["id"]] = t.mk("fc", bits, -a[0].a[0])
            else:
                env[q["id"]] = t.mk(op, bits, *a)
        elif op == "fcmp":
            a = [s.val(env, x) for x in q["a"]]
            if all(x.op == "fc" for x in a):
                env[q["id"]] = C(1, t.fcompare(q["pred"], a[0].a[0], a[1].a[0]))
            else:
                env[q["id"]] = t.mk("fcmp", 1, q["pred"], *a)
        elif op == "select":
            c, a, d = [s.val(env, x) for x in q["a"]]
            k = s.decide(st, c)
            env[q["id"]] = (a if k else d) if k is not None else (t.sel(c, a, d) if isinstance(a, T) and isinstance(d, T) else a)
        elif op == "extractvalue":
            v = s.val(env, q["a"][0])
            for ix in q["idx"]:
                if isinstance(v, tuple) and ix < len(v) and v[ix] is not None:
                    v = v[ix]
                elif isinstance(v, T):
                    v = ap("ex%d" % ix, s.tyinfo(q["ty"], q.get("sz", 8)), v)
                else:
                    v = s.fresh(st, ("ex", ctx, b, i), s.tyinfo(q["ty"], q.get("sz", 8)))
            env[q["id"]] = v
        elif op == "insertvalue":
            v, x = s.val(env, q["a"][0]), s.val(env, q["a"][1])
            env[q["id"]] = ins(v if isinstance(v, tuple) else (), q["idx"], x)
        elif op == "landingpad":
            exc = env["exc"]
            selv = 0
            for kind, v in q["clauses"]:
                if kind == "catch":
                    if v[0] == "n":
                        selv = s.typeid("...")
                        break
                    if exc_matches(s.p, exc[0], v[1] if v[0] == "g" else None):
                        selv = s.typeid(v[1])
                        break
            env[q["id"]] = (exc[1], C(32, selv))
        elif op == "atomicrmw":
            p, v = s.val(env, q["a"][0]), s.val(env, q["a"][1])
            bits = s.tyinfo(q["ty"], q["sz"])
            s.atom = True
            old = s.load(st, p, q["sz"], bits, s.ctx(ctx, f, b, i))
            if s.on_store is not None:
                s.on_store(s, st, p, v, q, f, s.ctx(ctx, f, b, i))
            r = q["rmw"]
            if r in ("add", "sub", "and", "or", "xor"):
                new = t.bin_(r, old, v)
            elif r == "xchg":
                new = v
            else:
                new = s.fresh(st, ("rmw", ctx, b, i), bits)
            s.store(st, p, new, q["sz"], s.ctx(ctx, f, b, i))
            s.atom = False
            env[q["id"]] = old
        elif op == "cmpxchg":
            p, e, v = [s.val(env, x) for x in q["a"]]
            if s.on_store is not None:
                s.on_store(s, st, p, v, q, f, s.ctx(ctx, f, b, i))
            s.atom = True
            old = s.load(st, p, max(1, e.bits // 8), e.bits, s.ctx(ctx, f, b, i))
            ok = cmp("eq", old, e)
            s.store(st, p, t.sel(ok, v, old), max(1, e.bits // 8), s.ctx(ctx, f, b, i))
            s.atom = False
            env[q["id"]] = (old, ok)
        elif op == "fence":
            pass
        elif op == "va_arg":
            env[q["id"]] = s.fresh(st, ("va", ctx, b, i), 64)
        elif op in ("extractelement", "insertelement", "shufflevector"):
            env[q["id"]] = s.fresh(st, ("vec", ctx, b, i), 64)
        else:
            raise Unsupported(op)

    def load_agg(s, st, p, ty, ctx):
        out, off = [], 0
        for e in ty.strip("{} ").split(","):
            e = e.strip()
            bits = s.tyinfo(e, 8)
            n = max(1, bits // 8)
            off = (off + n - 1) // n * n
            base, o = split(p)
            out.append(s.load(st, ptr(base, t.add(o, C(64, off))), n, bits, ctx))
            off += n
        return tuple(out)

    # ---- calls -----------------------------------------------------------------------
    def _call(s, st, q, f, b, i, ctx, depth, env):
        cal = q["callee"]
        args = [s.val(env, a) for a in q["a"]]
        tgt = s.val(env, cal) if cal[0] != "asm" else None
        c = Call()
        c.I, c.inst, c.args, c.caller, c.depth = s, q, args, f, depth
        c.ctx = s.ctx(ctx, f, b, i)
        c.inv = q["op"] == "invoke"
        if tgt is None:
            return [(st, "ret", s.fresh(st, ("asm", c.ctx), 64))]
        return s.call_target(st, c, tgt)

    def call_target(s, st, c, tgt):
        if tgt.op == "fn":
            return s.call_fn(st, c, s.p.fns[tgt.a[0]])
        # indirect
        if tgt.op == "ap" and tgt.a[0] == "vfn":
            cls, off = tgt.a[1], t.cv(tgt.a[2])
            cands = s.vcands(cls, off)
            if s.vcall is not None:
                r = s.vcall(s, st, c, cls, off, cands)
                if r is not None:
                    return r
            outs = []
            if not cands:
                return s.opaque_call(st, c, "vcall %s+%d" % (cls, off), None)
            for k, g in enumerate(cands):
                st2 = st.fork() if k < len(cands) - 1 else st
                # remember the choice: the object has this dynamic type
                outs += s.call_fn(st2, c, g)
            return outs
        if tgt.op == "sel":
            d = s.decide(st, tgt.a[0])
            if d is not None:
                return s.call_target(st, c, tgt.a[1] if d else tgt.a[2])
            st2 = st.fork()
            s.assume(st, tgt.a[0], True)
            s.assume(st2, tgt.a[0], False)
            return s.call_target(st, c, tgt.a[1]) + s.call_target(st2, c, tgt.a[2])
        if isc(tgt, 0):
            s.emit(st, "nullcall", c.ctx)
            return [(st, "dead", None)]
        if s.icall is not None:
            r = s.icall(s, st, c, tgt)
            if r is not None:
                return r
        return s.opaque_call(st, c, "indirect", tgt)

    def vcands(s, cls, off):
        out = []
        for g, ap_ in s.p.vt.get(cls, []):
            v = s.gload(g, ap_ + off, 8)
            if v is not None and v.op == "fn" and v.a[0] != "__cxa_pure_virtual":
                fn = s.p.fns[v.a[0]]
                if fn not in out:
                    out.append(fn)
        return out

    def call_fn(s, st, c, g):
        c.f, c.name = g, g.n
        q = g.q
        s.ccur = c.ctx
        h = s.over.get(q)
        if h is None:
            h = s.over.get(g.n)
        if h is not None:
            r = h(s, st, c)
            if r is not NotImplemented:
                return s.wrap(r, st)
        h = s.models.lookup(g)
        if h is not None:
            r = h(s, st, c)
            if r is not NotImplemented:
                return s.wrap(r, st)
        if g.blocks and c.depth < s.max_depth and s.stack.count(g.n) < s.recursion:
            args = c.args
            r = s.run(st, g, args, c.ctx, c.depth + 1)
            return r
        return s.opaque_call(st, c, g.dem, None)

    def wrap(s, r, st):
        if isinstance(r, list):
            return r
        return [(st, "ret", r)]

    def opaque_call(s, st, c, name, tgt):
        s.opaque[name] = s.opaque.get(name, 0) + 1
        if s.on_opaque is not None:
            r = s.on_opaque(s, st, c, name, tgt)
            if r is not None:
                return r
        for a in c.args:
            if isinstance(a, T) and a.bits == 64 and a.op in ("ptr",):
                s.havoc(st, a)
        q = c.inst
        v = None
        if "id" in q:
            v = s.unknown(st, ("ret", c.ctx), q["ty"], q.get("sz", 8))
        outs = [(st, "ret", v)]
        ex = s.may_throw(s, st, c)
        if ex:
            st2 = st.fork()
            outs.append((st2, "exc", s.make_exc(st2, c, ex)))
        return outs

    def maperase(s, st, node, c):
        """a map entry goes away; its value's destructor is not followed"""
        s.emit(st, "mapdrop", c.ctx, v=s.load(st, ptr(node, 0), 8, 64), key=node[2])
        st.mem.pop(node, None)

    def inexact(s):
        """why results of this exploration may lack precision, or None"""
        x = sorted(s.opaque) + sorted(s.vague) + sorted(f for f, _ in s.widened_loops)
        return x[0] if x else None

    def make_exc(s, st, c, ti):
        b = s.alloc(st, c.ctx, "X")
        s.exc_ti[ptr(b, 0)] = ti
        return (ti, ptr(b, 0))

    def unknown(s, st, key, ty, sz):
        if ty.startswith("{"):
            return tuple(s.fresh(st, key, s.tyinfo(e.strip(), 8)) for e in ty.strip("{} ").split(","))
        return s.fresh(st, key, s.tyinfo(ty, sz))


def mk_eq(a, b):
    return cmp("eq", a, b)


def ins(v, idx, x):
    v = list(v)
    k = idx[0]
    while len(v) <= k:
        v.append(None)
    v[k] = x if len(idx) == 1 else ins(v[k] if isinstance(v[k], tuple) else (), idx[1:], x)
    return tuple(v)


def short(fn):
    d = strip_t(fn.dem)
    k = d.find("(")
    return (d[:k] if k > 0 and "operator()" not in d[:k + 3] else d)[:120]
