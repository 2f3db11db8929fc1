"""Hash-consed value-number terms with machine widths (the abstract values of the analysis)."""
import math
import struct

_tab = {}


class T:
    __slots__ = ("op", "bits", "a", "h", "n")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h


def mk(op, bits, *a):
    k = (op, bits, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.bits, t.a = op, bits, a
        t.h = hash(k)
        t.n = len(_tab)
        _tab[k] = t
    return t


def mask(bits):
    return (1 << bits) - 1


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


def C(bits, v):
    return mk("c", bits, v & mask(bits))


TRUE, FALSE = C(1, 1), C(1, 0)
NULL = C(64, 0)


def sym(name, bits=64):
    return mk("sym", bits, name)


def ap(name, bits, *args):
    return mk("ap", bits, name, *args)


def isc(t, v=None):
    return isinstance(t, T) and t.op == "c" and (v is None or t.a[0] == v & mask(t.bits))


def cv(t):
    return t.a[0]


# ---- linear forms -------------------------------------------------------------------------
def _lin(t):
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _unpack(a, k):
    """a >> k where a is made of values that lie side by side, none across bit k; or None"""
    used = a.a[0]
    low = a.a[0] >> k
    m = {}
    for x, c in a.a[1]:
        q = c.bit_length() - 1
        if c != 1 << q or x.op != "zext":
            return None
        w = x.a[0].bits
        r = mask(w) << q
        if used & r or q + w > a.bits:
            return None
        used |= r
        if q >= k:
            m[x] = m.get(x, 0) + (1 << (q - k))
        elif q + w > k:
            return None
    return _mklin(a.bits, low, m)


def _mklin(bits, k, m):
    M = mask(bits)
    k &= M
    m = {t: c & M for t, c in m.items() if c & M}
    if not m:
        return C(bits, k)
    if k == 0 and len(m) == 1:
        (t, c), = m.items()
        if c == 1:
            return t
    return mk("lin", bits, k, tuple(sorted(m.items(), key=lambda x: x[0].n)))


def add(a, b):
    bits = a.bits
    if a.op == "ptr" and b.op != "ptr":
        return ptr(a.a[0], add(a.a[1], b))
    if b.op == "ptr" and a.op != "ptr":
        return ptr(b.a[0], add(b.a[1], a))
    if bits == 1:
        return xor(a, b)
    ka, ma = _lin(a)
    kb, mb = _lin(b)
    for t, c in mb.items():
        ma[t] = ma.get(t, 0) + c
    return _mklin(bits, ka + kb, ma)


def scale(a, k):
    ka, ma = _lin(a)
    return _mklin(a.bits, ka * k, {t: c * k for t, c in ma.items()})


def sub(a, b):
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return sub(a.a[1], b.a[1])
    if a.op == "ptr" and b.op != "ptr":
        return ptr(a.a[0], sub(a.a[1], b))
    if a.bits == 1:
        return xor(a, b)
    return add(a, scale(b, -1))


def mul(a, b):
    bits = a.bits
    if a.op == "c":
        return scale(b, a.a[0]) if b.op != "ptr" else ap("mul", bits, a, b)
    if b.op == "c":
        return scale(a, b.a[0]) if a.op != "ptr" else ap("mul", bits, a, b)
    fs = []
    k = 1
    for t in (a, b):
        if t.op == "mul":
            fs.extend(t.a)
        elif t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1:
            (x, c), = t.a[1]
            k *= c
            if x.op == "mul":
                fs.extend(x.a)
            else:
                fs.append(x)
        else:
            fs.append(t)
    fs.sort(key=lambda x: x.n)
    r = mk("mul", bits, *fs)
    return scale(r, k) if k != 1 else r


def bin_(op, a, b):
    bits = a.bits
    if op == "add":
        return add(a, b)
    if op == "sub":
        return sub(a, b)
    if op == "mul":
        return mul(a, b)
    if op == "xor":
        return xor(a, b)
    if op == "and" and a.op == "fn" and b.op == "c" and b.a[0] == 1:
        return C(bits, 0)  # pointers to members: the low bit of a function's address is clear
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        if op == "and":
            return C(bits, x & y)
        if op == "or":
            return C(bits, x | y)
        if op == "shl":
            return C(bits, x << y if y < bits else 0)
        if op == "lshr":
            return C(bits, x >> y if y < bits else 0)
        if op == "ashr":
            return C(bits, sgn(x, bits) >> min(y, bits - 1))
        if y and op == "udiv":
            return C(bits, x // y)
        if y and op == "urem":
            return C(bits, x % y)
        if y and op in ("sdiv", "srem"):
            p, q = sgn(x, bits), sgn(y, bits)
            d = abs(p) // abs(q)
            d = d if (p < 0) == (q < 0) else -d
            return C(bits, d if op == "sdiv" else p - d * q)
    if op == "and":
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if isc(x, 0):
                return x
            if x.op == "c" and x.a[0] == mask(bits):
                return y
            if x.op == "c" and y.op == "zext" and (x.a[0] & mask(y.a[0].bits)) == mask(y.a[0].bits):
                return y
        if bits == 1 and a is not_(b):
            return FALSE
    if op == "or":
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if isc(x, 0):
                return y
            if x.op == "c" and x.a[0] == mask(bits):
                return x
        if bits == 1 and a is not_(b):
            return TRUE
    if op in ("udiv", "sdiv"):
        if isc(b, 1):
            return a
        if op == "sdiv" and b.op == "c":
            k = sgn(b.a[0], bits)
            if k > 0:
                ka, ma = _lin(a)
                ka = sgn(ka, bits)
                cs = {t: sgn(c, bits) for t, c in ma.items()}
                if ka % k == 0 and all(c % k == 0 for c in cs.values()) and ma:
                    return _mklin(bits, ka // k, {t: c // k for t, c in cs.items()})
        if op == "sdiv" and a is b:
            return C(bits, 1)
    if op in ("shl", "lshr", "ashr") and isc(b, 0):
        return a
    if op == "lshr" and b.op == "c" and a.op == "lin":
        r = _unpack(a, b.a[0])
        if r is not None:
            return r
    if op == "shl" and b.op == "c" and b.a[0] < bits:
        return scale(a, 1 << b.a[0])
    if op in ("and", "or"):
        if a.n > b.n:
            a, b = b, a
    return mk(op, bits, a, b)


def xor(a, b):
    bits = a.bits
    if a.op == "c" and b.op == "c":
        return C(bits, a.a[0] ^ b.a[0])
    if a is b:
        return C(bits, 0)
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            if x.a[0] == 0:
                return y
            if bits == 1:
                return not_(y)
    if bits == 1:
        if a.op == "not":
            return not_(xor(a.a[0], b))
        if b.op == "not":
            return not_(xor(a, b.a[0]))
    if a.n > b.n:
        a, b = b, a
    return mk("xor", bits, a, b)


def not_(t):
    if t.op == "c":
        return C(1, 1 - t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", 1, t)


def zext(t, bits):
    if t.bits == bits:
        return t
    if t.op == "c":
        return C(bits, t.a[0])
    if t.op == "zext":
        return mk("zext", bits, t.a[0])
    return mk("zext", bits, t)


def sext(t, bits):
    if t.bits == bits:
        return t
    if t.op == "c":
        return C(bits, sgn(t.a[0], t.bits))
    if t.op == "zext":
        return zext(t.a[0], bits)
    if t.op == "sext":
        return mk("sext", bits, t.a[0])
    return mk("sext", bits, t)


def trunc(t, bits):
    if t.bits == bits:
        return t
    if t.op == "c":
        return C(bits, t.a[0])
    if t.op in ("zext", "sext"):
        x = t.a[0]
        if x.bits == bits:
            return x
        if x.bits > bits:
            return trunc(x, bits)
        return mk(t.op, bits, x)
    if t.op == "trunc":
        return trunc(t.a[0], bits)
    if t.op == "lin":
        # truncation distributes over + and constant *
        ms = {}
        for x, c in t.a[1]:
            y = trunc(x, bits)
            k2, m2 = _lin(y)
            for z, d in m2.items():
                ms[z] = ms.get(z, 0) + c * d
            ms[None] = ms.get(None, 0) + c * k2
        k = t.a[0] + ms.pop(None, 0)
        return _mklin(bits, k, ms)
    if t.op == "mul":
        r = C(bits, 1)
        for x in t.a:
            r = mul(r, trunc(x, bits))
        return r
    return mk("trunc", bits, t)


def boolof(t):
    """i8/iN value that is a zext'd bool -> the bool, else None"""
    if t.bits == 1:
        return t
    if t.op == "zext" and t.a[0].bits == 1:
        return t.a[0]
    return None


def fround(x, bits):
    """x as a floating-point number of that size"""
    if bits == 32:
        try:
            return struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError:
            return math.copysign(math.inf, x)
    return x


def fbits(x, bits):
    return int.from_bytes(struct.pack("<f" if bits == 32 else "<d", x), "little")


def cmp(pred, a, b):
    if pred == "ne":
        return not_(cmp("eq", a, b))
    if pred == "ugt":
        return cmp("ult", b, a)
    if pred == "sgt":
        return cmp("slt", b, a)
    if pred == "uge":
        return not_(cmp("ult", a, b))
    if pred == "sge":
        return not_(cmp("slt", a, b))
    if pred == "ule":
        return not_(cmp("ult", b, a))
    if pred == "sle":
        return not_(cmp("slt", b, a))
    bits = a.bits
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        if pred == "slt":
            x, y = sgn(x, bits), sgn(y, bits)
        return C(1, int(x == y if pred == "eq" else x < y))
    if a is b:
        return C(1, int(pred == "eq"))
    if pred == "eq":
        if b.op == "c":
            a, b = b, a
        if a.op == "c":
            if b.op in ("ptr", "fn") and a.a[0] == 0:
                if b.op == "fn" or nonnull_base(b.a[0]) or b.a[1].op == "c":
                    return FALSE        # a field of an object: not null
            t = boolof(b)
            if t is not None and b.bits > 1:
                return t if a.a[0] == 1 else (not_(t) if a.a[0] == 0 else FALSE)
            if bits == 1:
                return b if a.a[0] else not_(b)
            if b.op in ("zext", "sext"):
                x = b.a[0]
                if (a.a[0] & mask(x.bits) if b.op == "zext" else sgn(a.a[0] & mask(x.bits), x.bits) & mask(bits)) == a.a[0]:
                    return cmp("eq", x, C(x.bits, a.a[0]))
                return FALSE
            if b.op == "lin" and b.a[0]:
                return cmp("eq", C(bits, a.a[0] - b.a[0]), _mklin(bits, 0, dict(b.a[1])))
            return mk("eq", 1, a, b)
        if a.op == "ptr" and b.op == "ptr":
            if a.a[0] == b.a[0]:
                return cmp("eq", a.a[1], b.a[1])
            if distinct_bases(a.a[0], b.a[0]):
                return FALSE
        if a.op == "fn" and b.op == "fn":
            return FALSE
        if a.op == "lin" or b.op == "lin":
            d = sub(a, b)
            if d.op == "c":
                return C(1, int(d.a[0] == 0))
        if a.n > b.n:
            a, b = b, a
        return mk("eq", 1, a, b)
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        x, y = a.a[1], b.a[1]
        if x.op == "c" and y.op == "c":
            pred = "slt"        # a step before the beginning of an object is below it
        return cmp(pred, x, y)
    if pred == "ult":
        if isc(b, 0):
            return FALSE
        if isc(b, 1):
            return cmp("eq", a, C(bits, 0))
        if isc(a, 0):
            return not_(cmp("eq", b, a))
        if a.op == "c" and a.a[0] == mask(bits):
            return FALSE
        if a.op == "c" and a.a[0] == mask(bits) - 1:
            return cmp("eq", b, C(bits, mask(bits)))
    for x, y, w in ((a, b, 0), (b, a, 1)):
        if y.op == "c" and x.op == "zext":
            z = x.a[0]
            v = y.a[0]
            if pred == "slt" and sgn(v, bits) < 0:
                return C(1, w)
            if v > mask(z.bits):
                return C(1, 1 - w)
            zz = C(z.bits, v)
            return cmp("ult", z, zz) if w == 0 else cmp("ult", zz, z)
    if a.op == "zext" and b.op == "zext" and a.a[0].bits == b.a[0].bits:
        return cmp("ult", a.a[0], b.a[0])
    return mk(pred, 1, a, b)


def sel(c, a, b):
    if c.op == "c":
        return a if c.a[0] else b
    if a is b:
        return a
    if a.bits == 1 and isc(a, 1) and isc(b, 0):
        return c
    if a.bits == 1 and isc(a, 0) and isc(b, 1):
        return not_(c)
    if a.bits == 1:
        if isc(a, 1):
            return bin_("or", c, b)
        if isc(b, 0):
            return bin_("and", c, a)
    return mk("sel", a.bits, c, a, b)


# ---- pointers -----------------------------------------------------------------------------
# a base is a tuple: ('A',..) stack, ('H',..) heap, ('G',name) global, ('S',term) unknown pointer
def ptr(base, off):
    if isinstance(off, int):
        off = C(64, off)
    if base[0] == "S" and isc(off, 0):
        return base[1]
    return mk("ptr", 64, base, off)


def split(t):
    """pointer term -> (base, offset term)"""
    if t.op == "ptr":
        return t.a[0], t.a[1]
    if t.op == "c":
        return ("N",), t
    if t.op == "lin":
        # symbolic pointer + offset
        for x, c in t.a[1]:
            if c == 1 and (x.op in ("sym", "ap")):
                return ("S", x), sub(t, x)
    if t.op == "fn":
        return ("F", t.a[0]), C(64, 0)
    return ("S", t), C(64, 0)


def nonnull_base(b):
    return b[0] != "S"


def distinct_bases(a, b):
    if a == b:
        return False
    if a[0] == "S" and b[0] == "S":
        return False
    # an unknown pointer may equal a global, or nothing fresh
    if a[0] in ("A", "H") or b[0] in ("A", "H"):
        return True
    return a[0] == b[0] == "G"


def fn(name):
    return mk("fn", 64, name)


# ---- strings ------------------------------------------------------------------------------
def lit(s):
    return mk("str", 0, s)


def cat(*ps):
    out = []
    for p in ps:
        xs = p.a if p.op == "cat" else (p,)
        for x in xs:
            if x.op == "str" and x.a[0] == "":
                continue
            if out and out[-1].op == "str" and x.op == "str":
                out[-1] = lit(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    if not out:
        return lit("")
    if len(out) == 1:
        return out[0]
    return mk("cat", 0, *out)


def str_nonempty(t):
    if t.op == "str":
        return t.a[0] != ""
    if t.op == "cat":
        if any(str_nonempty(x) for x in t.a):
            return True
        return None
    if t.op == "ap" and t.a[0] == "tostr":
        return True
    return None


def slen(t):
    if t.op == "str":
        return C(64, len(t.a[0].encode("utf8", "surrogateescape")))
    if t.op == "cat":
        r = C(64, 0)
        for x in t.a:
            r = add(r, slen(x))
        return r
    if t.op == "ap" and t.a[0] == "chars" and t.a[2].bits == 64:
        return t.a[2]
    return ap("slen", 64, t)


# ---- printing -----------------------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "c":
        return str(sgn(a[0], t.bits) if t.bits > 1 and a[0] > mask(t.bits) - 4096 else a[0])
    if o == "sym":
        return showsym(a[0])
    if o == "lin":
        p = []
        for x, c in a[1]:
            c = sgn(c, t.bits)
            p.append((s(x) if c == 1 else f"{c}*{s(x)}"))
        if a[0]:
            p.append(str(sgn(a[0], t.bits)))
        return "(" + " + ".join(p) + ")"
    if o == "mul":
        return "(" + " * ".join(map(s, a)) + ")"
    if o == "ptr":
        return f"&{showbase(a[0])}+{s(a[1])}" if not isc(a[1], 0) else f"&{showbase(a[0])}"
    if o == "str":
        return repr(a[0])
    if o == "cat":
        return " ++ ".join(map(s, a))
    if o == "ap":
        return f"{a[0]}({', '.join(map(s, a[1:]))})"
    if o == "not":
        return f"!{s(a[0])}"
    if o in ("zext", "sext", "trunc"):
        return f"{o}{t.bits}({s(a[0])})"
    N = {"udiv": "/", "urem": "%", "sdiv": "/s", "srem": "%s", "and": "&", "or": "|", "eq": "==", "ult": "<", "slt": "<s", "xor": "^"}
    if o in N:
        return f"({s(a[0])} {N[o]} {s(a[1])})"
    return f"{o}({', '.join(map(s, a))})"


def showsym(k):
    if isinstance(k, str):
        return k
    if isinstance(k, tuple) and k and k[0] == "L" and len(k) == 5:
        off = k[2] if isinstance(k[2], int) else show(k[2], 6)
        return "*(%s+%s)%s" % (showbase(k[1]), off, "'" * k[3] if isinstance(k[3], int) and k[3] < 4 else "'%s" % (k[3],))
    if isinstance(k, tuple) and k and k[0] == "S" and len(k) == 4:
        return "str(%s+%s)" % (showbase(k[1]), k[2] if isinstance(k[2], int) else show(k[2], 6))
    return "?" + "_".join(showsym(x) if not isinstance(x, T) else show(x, 6) for x in k) if isinstance(k, tuple) else str(k)


def showbase(b):
    if b[0] == "S":
        return "[" + show(b[1], 6) + "]"
    return b[0] + ":" + ",".join(str(x)[-40:] for x in b[1:])


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return seen
    seen.add(t)
    for x in t.a:
        if isinstance(x, T):
            subterms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    subterms(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            subterms(z, seen)
    return seen


def leaves(t):
    """symbols and opaque applications of a term"""
    return {x for x in subterms(t) if x.op in ("sym", "ap")}


class Undefined(Exception):
    """an operation without a defined result"""


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


FROUND = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "nearbyint": round, "roundeven": round,
          "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), "fabs": abs, "sqrt": math.sqrt}


def fcompare(pred, x, y):
    un = x != x or y != y
    if pred in ("true", "false"):
        return int(pred == "true")
    if pred in ("ord", "uno"):
        return int(un == (pred == "uno"))
    if un:
        return int(pred[0] == "u")
    return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])


def evalf(t, env, cache):
    """value of a floating-point term"""
    o, a = t.op, t.a
    if o == "fc":
        return a[0]
    r = cache.get(("f", t))
    if r is not None:
        return r
    f = lambda x: evalf(x, env, cache)
    if o in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = f(a[0]), f(a[1])
        if o == "fdiv" and y == 0:
            raise Undefined("division by zero")
        r = x + y if o == "fadd" else x - y if o == "fsub" else x * y if o == "fmul" else x / y
    elif o == "fneg":
        r = -f(a[0])
    elif o == "sitofp":
        r = float(sgn(evalt(a[0], env, cache), a[0].bits))
    elif o == "uitofp":
        r = float(evalt(a[0], env, cache))
    elif o in ("fpext", "fptrunc"):
        r = f(a[0])
    elif o == "fround":
        r = float(FROUND[a[0]](f(a[1])))
    elif o == "sel":
        r = f(a[1]) if evalt(a[0], env, cache) else f(a[2])
    else:
        v = evalt(t, env, cache)
        r = struct.unpack("<f", struct.pack("<I", v))[0] if t.bits == 32 else struct.unpack("<d", struct.pack("<Q", v))[0]
    if t.bits == 32:
        r = f32(r)
    cache[("f", t)] = r
    return r


def evalt(t, env, cache=None):
    """value of an integer term under a valuation of its symbols (machine semantics)"""
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    o, a, M = t.op, t.a, mask(t.bits) if t.bits else 0
    e = lambda x: evalt(x, env, cache)
    if o == "c":
        r = a[0]
    elif o in ("sym", "ap"):
        if t in env:
            r = env[t] & M
        else:
            raise KeyError(t)
    elif o == "lin":
        r = (a[0] + sum(c * e(x) for x, c in a[1])) & M
    elif o == "mul":
        r = 1
        for x in a:
            r = r * e(x) & M
    elif o == "zext":
        r = e(a[0])
    elif o == "sext":
        r = sgn(e(a[0]), a[0].bits) & M
    elif o == "trunc":
        r = e(a[0]) & M
    elif o == "udiv":
        y = e(a[1])
        if y == 0:
            raise ZeroDivisionError
        r = e(a[0]) // y
    elif o == "urem":
        y = e(a[1])
        if y == 0:
            raise ZeroDivisionError
        r = e(a[0]) % y
    elif o in ("sdiv", "srem"):
        x, y = sgn(e(a[0]), t.bits), sgn(e(a[1]), t.bits)
        if y == 0:
            raise ZeroDivisionError
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        r = (q if o == "sdiv" else x - q * y) & M
    elif o == "and":
        r = e(a[0]) & e(a[1])
    elif o == "or":
        r = e(a[0]) | e(a[1])
    elif o == "xor":
        r = e(a[0]) ^ e(a[1])
    elif o == "shl":
        k = e(a[1])
        r = (e(a[0]) << k) & M if k < t.bits else 0
    elif o == "lshr":
        k = e(a[1])
        r = e(a[0]) >> k if k < t.bits else 0
    elif o == "ashr":
        k = min(e(a[1]), t.bits - 1)
        r = (sgn(e(a[0]), t.bits) >> k) & M
    elif o == "not":
        r = 1 - e(a[0])
    elif o == "eq":
        r = int(e(a[0]) == e(a[1]))
    elif o == "ult":
        r = int(e(a[0]) < e(a[1]))
    elif o == "slt":
        b = a[0].bits
        r = int(sgn(e(a[0]), b) < sgn(e(a[1]), b))
    elif o == "sel":
        r = e(a[1]) if e(a[0]) else e(a[2])
    elif o in ("fptoui", "fptosi"):
        x = evalf(a[0], env, cache)
        lo, hi = (0, M) if o == "fptoui" else (-(1 << (t.bits - 1)), M >> 1)
        if x != x or math.isinf(x) or not lo <= math.trunc(x) <= hi:
            raise Undefined("%r converted to %d-bit %s" % (x, t.bits, "unsigned" if o == "fptoui" else "signed"))
        r = math.trunc(x) & M
    elif o == "fcmp":
        r = fcompare(a[0], evalf(a[1], env, cache), evalf(a[2], env, cache))
    elif o in ("fc", "fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fpext", "fptrunc", "fround"):
        x = evalf(t, env, cache)
        r = struct.unpack("<I", struct.pack("<f", x))[0] if t.bits == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
    else:
        raise KeyError(t)
    cache[t] = r
    return r
