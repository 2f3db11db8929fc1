"""Abstract transformers for library functions (everything not in the repository)."""
import re
from . import terms as t
from .terms import T, C, sym, ap, ptr, split, cmp, not_, TRUE, FALSE, NULL, isc, lit, cat, slen
from .interp import Obj

Q = {}
PRE = []


def m(*qs):
    def d(h):
        for q in qs:
            Q[q] = h
        return h
    return d


def pre(p):
    def d(h):
        PRE.append((p, h))
        return h
    return d


_lc = {}


def lookup(f):
    h = _lc.get(f.n, 0)
    if h != 0:
        return h
    q = f.q
    h = Q.get(q)
    if h is None:
        h = Q.get(f.n)
    if h is None and not f.repo:
        for p, x in PRE:
            if q.startswith(p):
                h = x
                break
    _lc[f.n] = h
    return h


def sret(c):
    return bool(c.f.params) and c.f.params[0] == "sret"


# ---- strings ------------------------------------------------------------------------------
SZ_STR = 32


def gets(I, st, p):
    """content of the std::string / path at address p"""
    base, off = split(p)
    if I.access is not None:
        I.access(st, base, off, SZ_STR, "r", False, I.ccur)
    k = ("s", t.cv(off) if off.op == "c" else off)
    o = st.mem.get(base)
    if o is not None:
        h = o.c.get(k)
        if h is not None:
            return h[0]
    return sym(("S", base, k[1], o.ver if o else 0), 0)


def sets(I, st, p, content, size=SZ_STR):
    base, off = split(p)
    if base[0] in ("N", "STR", "F"):
        return
    if I.access is not None:
        I.access(st, base, off, size, "w", False, I.ccur)
    o = st.wobj(base)
    o.c[("s", t.cv(off) if off.op == "c" else off)] = (content, size)


def chars(I, st, p, n=None):
    """text of a character range"""
    base, off = split(p)
    if n is None:
        return I.cstring(st, p)
    if isc(n, 0):
        return lit("")
    if base[0] == "STR" and isc(off, 0):
        if slen(base[1]) is n:
            return base[1]
        if base[1].op == "str" and n.op == "c":
            return lit(base[1].a[0].encode("utf8", "surrogateescape")[:t.cv(n)].decode("utf8", "surrogateescape"))
    if base[0] == "G" and n.op == "c" and off.op == "c":
        s = I.cstring(st, p)
        if s.op == "str" and len(s.a[0].encode("utf8", "surrogateescape")) >= t.cv(n):
            return lit(s.a[0].encode("utf8", "surrogateescape")[:t.cv(n)].decode("utf8", "surrogateescape"))
    if n.op == "ap" and n.a[0] == "strlen" and n.a[1] is p:
        return ap("cstr", 0, p)
    if n is slen(ap("cstr", 0, p)):
        return ap("cstr", 0, p)
    if n.op == "c" and t.cv(n) <= 65536 and base[0] == "STR" and base[1].op == "str" and off.op == "c":
        e = u8(base[1].a[0])
        i = t.cv(off)
        if i + t.cv(n) <= len(e):
            return lit(e[i:i + t.cv(n)].decode("utf8", "surrogateescape"))
    if n.op == "c" and t.cv(n) <= 512 and off.op == "c" and base[0] in ("A", "H", "V"):
        o = st.mem.get(base)
        if o is not None and not any(isinstance(k, tuple) or isinstance(k, T) for k in o.c):
            l = [I.load(st, ptr(base, t.cv(off) + i), 1, 8) for i in range(t.cv(n))]
            if all(x.op == "c" for x in l):
                return lit(bytes(t.cv(x) for x in l).decode("utf8", "surrogateescape"))
    return ap("chars", 0, p, n)


def sv(I, st, a, k):
    """string_view passed as two registers a[k], a[k+1]"""
    return chars(I, st, a[k + 1], a[k])


def svmem(I, st, p):
    b, o = split(p)
    n = I.load(st, p, 8, 64)
    d = I.load(st, ptr(b, t.add(o, C(64, 8))), 8, 64)
    return chars(I, st, d, n)


def strptr(s):
    return ptr(("STR", s), 0)


def streq(a, b):
    if a.op == "str" and b.op == "str":
        return C(1, int(a.a[0] == b.a[0]))
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and x.a[0] == "":
            return sempty(y)
        if x.op == "str" and y.op == "cat" and y.a[0].op == "str" and not x.a[0].startswith(y.a[0].a[0]):
            return FALSE
    if a.n > b.n:
        a, b = b, a
    return ap("streq", 1, a, b)


def u8(s):
    return s.encode("utf8", "surrogateescape")


def strcmp3(a, b, key, I=None, st=None):
    """three-way comparison of two texts"""
    if a.op == "str" and b.op == "str":
        x, y = u8(a.a[0]), u8(b.a[0])
        return C(32, (x > y) - (x < y))
    e = streq(a, b)
    if e.op == "c" and t.cv(e):
        return C(32, 0)
    d = sym(("cmp", a, b), 32)
    if e.op == "c":
        return d
    return t.sel(e, C(32, 0), d)


def sempty(s):
    k = t.str_nonempty(s)
    if k is not None:
        return FALSE if k else TRUE
    if s.op == "str":
        return C(1, int(s.a[0] == ""))
    if s.op == "cat":
        r = TRUE
        for x in s.a:
            r = t.bin_("and", r, sempty(x))
        return r
    return cmp("eq", slen(s), C(64, 0))


def argstr(I, st, c, i, k):
    """content of parameter i (demangled type) whose registers start at k -> (content, registers used)"""
    p = c.f.pt[i]
    if "basic_string_view" in p and not p.endswith("&"):
        return sv(I, st, c.args, k), 2
    if "basic_string_view" in p:
        return svmem(I, st, c.args[k]), 1
    if "__sv_wrapper" in p:
        return sv(I, st, c.args, k), 2
    if "basic_string<" in p:
        return gets(I, st, c.args[k]), 1
    if p.startswith("char const") or p in ("char*", "char *"):
        if p.endswith("&") and "(&)" not in p:
            return chars(I, st, I.load(st, c.args[k], 8, 64)), 1
        return chars(I, st, c.args[k]), 1
    if p == "char":
        a = c.args[k]
        return (lit(chr(t.cv(a))) if a.op == "c" else ap("chr", 0, a)), 1
    return None, 1


@pre("std::__cxx11::basic_string::")
def h_string(I, st, c):
    f, a = c.f, c.args
    b = f.base
    if "_Alloc_hider" in f.ctx or "__sv_wrapper" in f.ctx:
        return NotImplemented
    if b.startswith("~") or b in ("_M_dispose", "_M_destroy", "reserve", "shrink_to_fit", "_M_init_local_buf"):
        if I.on_str is not None and b.startswith("~"):
            I.on_str(st, "dead", a[0], None)
        return None
    if sret(c):
        this, s = a[1], gets(I, st, a[1])
        if b == "substr":
            sets(I, st, a[0], substr(s, a[2], a[3]))
        elif b in ("rbegin", "crbegin", "rend", "crend"):
            I.store(st, a[0], ptr(("STR", s), slen(s) if "begin" in b else C(64, 0)), 8)
        else:
            sets(I, st, a[0], I.fresh(st, ("str", c.ctx), 0))
        return None
    if b == "_S_to_string_view":
        return (a[0], a[1])
    if b.startswith("_S_") or b in ("__uninitialized_copy_a",):
        return NotImplemented
    this = a[0]
    pt = f.pt
    if b == "basic_string":
        if not pt or pt[0].startswith("std::allocator"):
            sets(I, st, this, lit(""))
            return None
        if pt[0] == "unsigned long" and len(pt) >= 2:
            n, ch = a[1], a[2]
            if n.op == "c" and ch.op == "c" and t.cv(n) < 4096:
                sets(I, st, this, lit(chr(t.cv(ch)) * t.cv(n)))
            else:
                sets(I, st, this, ap("fill", 0, n, ch))
            return None
        if len(pt) >= 2 and pt[1] == "unsigned long" and pt[0].startswith("char const"):
            sets(I, st, this, chars(I, st, a[1], a[2]))
            return None
        if len(pt) >= 2 and pt[0] == pt[1]:
            # iterator / pointer range
            sets(I, st, this, rng_chars(I, st, a[1], a[2]))
            return None
        if len(pt) >= 2 and pt[1] == "unsigned long" and "basic_string<" in pt[0]:
            s = gets(I, st, a[1])
            sets(I, st, this, substr(s, a[2], a[3] if len(a) > 3 else C(64, -1)))
            return None
        s, _ = argstr(I, st, c, 0, 1)
        if s is None:
            s = I.fresh(st, ("str", c.ctx), 0)
        sets(I, st, this, s)
        if pt[0].endswith("&&"):
            sets(I, st, a[1], lit(""))
        return None
    s = gets(I, st, this)
    if b in ("size", "length"):
        return slen(s)
    if b == "empty":
        return sempty(s)
    if b in ("c_str", "data", "_M_data", "begin", "cbegin"):
        if I.on_str is not None:
            I.on_str(st, "taken", this, s)
        return strptr(s)
    if b in ("end", "cend"):
        return ptr(("STR", s), slen(s))
    if b.startswith("operator std::basic_string_view"):
        return (slen(s), strptr(s))
    if b in ("operator=", "assign", "_M_assign", "operator+=", "append", "push_back", "_M_append"):
        app = b in ("operator+=", "append", "push_back", "_M_append")
        if len(pt) >= 2 and pt[1] == "unsigned long" and pt[0].startswith("char const"):
            x = chars(I, st, a[1], a[2])
        elif len(pt) >= 2 and pt[0] == "unsigned long":
            x = lit(chr(t.cv(a[2])) * t.cv(a[1])) if a[1].op == "c" and a[2].op == "c" and t.cv(a[1]) < 4096 else ap("fill", 0, a[1], a[2])
        elif len(pt) >= 2 and pt[0] == pt[1]:
            x = rng_chars(I, st, a[1], a[2])
        else:
            x, _ = argstr(I, st, c, 0, 1)
            if x is None:
                x = I.fresh(st, ("str", c.ctx), 0)
            if pt and pt[0].endswith("&&"):
                sets(I, st, a[1], lit(""))
        sets(I, st, this, cat(s, x) if app else x)
        return this
    if b in ("clear",):
        sets(I, st, this, lit(""))
        return None
    if b in ("swap",):
        o = gets(I, st, a[1])
        sets(I, st, a[1], s)
        sets(I, st, this, o)
        return None
    if b in ("compare",):
        if pt and len(pt) == 1:
            x, _ = argstr(I, st, c, 0, 1)
            if x is not None:
                return strcmp3(s, x, c.ctx)
        if len(pt) == 3 and pt[0] == "unsigned long":
            x, _ = argstr(I, st, c, 2, 3)
            if x is not None:
                return strcmp3(substr(s, a[1], a[2]), x, c.ctx)
        return I.fresh(st, ("cmp", c.ctx), 32)
    if b in ("starts_with", "ends_with"):
        x, _ = argstr(I, st, c, 0, 1)
        if x.op == "str" and s.op == "str":
            return C(1, int(getattr(s.a[0], b.replace("_", ""))(x.a[0])))
        if x.op == "str" and s.op == "cat" and b == "starts_with" and s.a[0].op == "str":
            if s.a[0].a[0].startswith(x.a[0]):
                return TRUE
            if not x.a[0].startswith(s.a[0].a[0]):
                return FALSE
        return ap(b, 1, s, x)
    if b in ("operator[]", "at", "back", "front"):
        if b == "operator[]" and s.op == "str" and s.a[0] == "" and len(a) > 1 and isc(a[1], 0):
            return ptr(("STR", s), 0)
        return ptr(("STR", s), a[1] if len(a) > 1 else (C(64, 0) if b == "front" else t.sub(slen(s), C(64, 1))))
    if b in ("erase", "insert", "replace", "resize", "pop_back") and not sret(c):
        r = stredit(I, st, c, s, b)
        if r is not None:
            sets(I, st, this, r[0])
            return ptr(("STR", r[0]), r[1]) if f.ret == "ptr" and r[1] is not None else this if f.ret == "ptr" else None
    if b in ("erase", "insert", "replace", "resize", "pop_back", "_M_replace", "_M_mutate"):
        if any("iterator" in p for p in pt):
            I.vague.add(f.dem)
        sets(I, st, this, ap(b, 0, s, *[x for x in a[1:] if isinstance(x, T)]))
        return this if f.ret == "ptr" else None
    if b in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "capacity", "max_size"):
        x, _ = argstr(I, st, c, 0, 1) if pt else (None, 0)
        if s.op == "str" and x is not None and x.op == "str" and b != "capacity":
            rest = [y for y in a[1:] if isinstance(y, T) and y.op == "c"]
            if len(pt) == 1:
                return C(64, strfind(b, s.a[0].encode("utf8", "surrogateescape"), x.a[0].encode("utf8", "surrogateescape"), 0 if "rfind" not in b and "last" not in b else len(s.a[0].encode("utf8", "surrogateescape"))))
            if len(pt) == 2 and pt[1] == "unsigned long" and a[-1].op == "c":
                return C(64, strfind(b, s.a[0].encode("utf8", "surrogateescape"), x.a[0].encode("utf8", "surrogateescape"), t.cv(a[-1])))
        return ap(b, 64, s, *([x] if x is not None else []))
    if b in ("rbegin", "rend", "crbegin", "crend"):
        return NotImplemented
    if f.ret == "void":
        return None
    return I.unknown(st, ("str?", c.ctx), f.ret, 8)


def stredit(I, st, c, s, b):
    """(new text, offset of the iterator returned or None) of an edit of a known text at known places"""
    pt, a = c.f.pt, c.args
    if s.op != "str":
        return None
    e = u8(s.a[0])

    def num(x):
        return t.cv(x) if x.op == "c" else None

    def at(x):
        """position denoted by an iterator into this text"""
        return t.cv(x.a[1]) if x.op == "ptr" and x.a[0][0] == "STR" and x.a[0][1] is s and x.a[1].op == "c" else None

    def text(i, k):
        x, n = argstr(I, st, c, i, k)
        return u8(x.a[0]) if x is not None and x.op == "str" else None

    def done(x, it=None):
        return lit(x.decode("utf8", "surrogateescape")), C(64, it) if it is not None else None
    if b == "pop_back":
        return done(e[:-1])
    if b == "resize":
        n = num(a[1])
        ch = num(a[2]) if len(a) > 2 else 0
        if n is None or ch is None or n > 4096:
            return None
        return done(e[:n] + bytes([ch]) * (n - len(e)))
    if b == "erase":
        if pt and "iterator" in pt[0]:
            i, j = at(a[1]), at(a[2]) if len(a) > 2 else None
            if i is None or len(a) > 2 and j is None:
                return None
            return done(e[:i] + e[j if len(a) > 2 else i + 1:], i)
        i, n = num(a[1]), num(a[2])
        if i is None or n is None or i > len(e):
            return None
        return done(e[:i] + e[min(i + n, len(e)):])
    if b == "insert":
        if "iterator" in pt[0]:
            i = at(a[1])
            if i is None:
                return None
            if len(pt) == 2 and pt[1] == "char" and a[2].op == "c":
                return done(e[:i] + bytes([t.cv(a[2])]) + e[i:], i)
            if len(pt) == 3 and pt[1] == "unsigned long" and a[2].op == "c" and a[3].op == "c" and t.cv(a[2]) < 4096:
                return done(e[:i] + bytes([t.cv(a[3])]) * t.cv(a[2]) + e[i:], i)
            return None
        i = num(a[1])
        if i is None or i > len(e):
            return None
        if len(pt) == 3 and pt[1] == "unsigned long":
            n, ch = num(a[2]), num(a[3])
            x = bytes([ch]) * n if n is not None and ch is not None and n < 4096 else None
        elif len(pt) == 3 and pt[1].startswith("char const"):
            x = chars(I, st, a[2], a[3])
            x = u8(x.a[0]) if x.op == "str" else None
        elif len(pt) == 2:
            x = text(1, 2)
        else:
            x = None
        return done(e[:i] + x + e[i:]) if x is not None else None
    if b == "replace" and pt[0] == "unsigned long" and len(pt) == 3:
        i, n, x = num(a[1]), num(a[2]), text(2, 3)
        if i is None or n is None or x is None or i > len(e):
            return None
        return done(e[:i] + x + e[min(i + n, len(e)):])
    return None


def strfind(b, s, x, pos):
    if b == "find":
        return s.find(x, pos)
    if b == "rfind":
        return s.rfind(x, 0, min(pos, len(s)) + len(x))
    ok = (lambda ch: ch in x) if "_not_" not in b else (lambda ch: ch not in x)
    r = range(pos, len(s)) if "first" in b else range(min(pos, len(s) - 1), -1, -1)
    for i in r:
        if ok(s[i]):
            return i
    return -1


def substr(s, pos, n):
    if s.op == "str" and pos.op == "c" and n.op == "c":
        e = s.a[0].encode("utf8", "surrogateescape")
        return lit(e[t.cv(pos):t.cv(pos) + min(t.cv(n), len(e))].decode("utf8", "surrogateescape"))
    if isc(pos, 0) and n.op == "c" and t.cv(n) == t.mask(64):
        return s
    return ap("substr", 0, s, pos, n)


def rng_chars(I, st, x, y):
    bx, ox = split(x)
    by, oy = split(y)
    if bx == by:
        if bx[0] == "STR" and isc(ox, 0) and oy is slen(bx[1]):
            return bx[1]
        return chars(I, st, x, t.sub(oy, ox))
    if bx[0] == "S" and by[0] == "S":
        return chars(I, st, x, t.sub(y, x))
    return ap("range", 0, x, y)


@m("std::operator+", "std::__cxx11::operator+", "std::__str_concat")
def h_plus(I, st, c):
    if not sret(c) or "basic_string" not in c.f.dem:
        return NotImplemented
    if c.f.base == "__str_concat":
        sets(I, st, c.args[0], cat(chars(I, st, c.args[1], c.args[2]), chars(I, st, c.args[3], c.args[4])))
        return None
    x, n = argstr(I, st, c, 0, 1)
    y, _ = argstr(I, st, c, 1, 1 + n)
    sets(I, st, c.args[0], cat(x, y))
    return None


@m("std::operator==", "std::operator!=")
def h_eq(I, st, c):
    pt = c.f.pt
    if len(pt) == 2 and any("std::__cxx11::basic_string<" == p[:len("std::__cxx11::basic_string<")] or p.startswith("std::basic_string_view") for p in pt) and all("basic_string" in p or p.startswith("char const") for p in pt):
        if "unique_ptr" in c.f.dem:
            return NotImplemented
        x, n = argstr(I, st, c, 0, 0)
        y, _ = argstr(I, st, c, 1, n)
        e = streq(x, y)
        return e if c.f.base == "operator==" else not_(e)
    return NotImplemented


@m("std::__cxx11::to_string", "std::to_string")
def h_tostring(I, st, c):
    a = c.args[1]
    sg = c.f.pt[0] in ("int", "long", "long long")
    if a.op == "c":
        sets(I, st, c.args[0], lit(str(t.sgn(a.a[0], a.bits) if sg else a.a[0])))
    else:
        sets(I, st, c.args[0], ap("tostr", 0, a if not sg else ap("signed", a.bits, a)) if sg else ap("tostr", 0, a))
    return None


@pre("std::basic_string_view::")
def h_sv(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if b == "basic_string_view" and len(f.pt) == 1 and f.pt[0].startswith("char const"):
        base, off = split(a[0])
        if isc(a[1], 0):
            I.emit(st, "nullstr", c.ctx, what="string_view from a null pointer")
        s = chars(I, st, a[1])
        d, o = split(a[0])
        I.store(st, a[0], slen(s), 8)
        I.store(st, ptr(d, t.add(o, C(64, 8))), a[1] if s.op == "ap" and s.a[0] == "cstr" else strptr(s), 8)
        return None
    if b in ("substr", "starts_with", "ends_with", "compare", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        s = svmem(I, st, a[0])
        if b == "substr":
            r = substr(s, a[1], a[2])
            return (slen(r), strptr(r))
        x, _ = argstr(I, st, c, 0, 1)
        if b in ("starts_with", "ends_with"):
            if x is not None and x.op == "str" and s.op == "str":
                return C(1, int(getattr(s.a[0], b.replace("_", ""))(x.a[0])))
            return ap(b, 1, s, x)
        if b == "compare" and x is not None and len(f.pt) == 1:
            return strcmp3(s, x, c.ctx)
        if "find" in b and x is not None and x.op == "str" and s.op == "str" and a[-1].op == "c" and f.pt[-1] == "unsigned long" and len(f.pt) == 2:
            return C(64, strfind(b, s.a[0].encode("utf8", "surrogateescape"), x.a[0].encode("utf8", "surrogateescape"), t.cv(a[-1])))
        I.vague.add(f.dem)
        return I.fresh(st, ("sv", c.ctx), 32 if b == "compare" else 64)
    return NotImplemented


@m("strlen", "std::char_traits::length")
def h_strlen(I, st, c):
    if isc(c.args[0], 0):
        I.emit(st, "nullstr", c.ctx, what="length of a null C string")
    return slen(chars(I, st, c.args[0]))


@m("strcmp")
def h_strcmp(I, st, c):
    return strcmp3(chars(I, st, c.args[0]), chars(I, st, c.args[1]), c.ctx)


@m("strncmp")
def h_strncmp(I, st, c):
    x, y = chars(I, st, c.args[0]), chars(I, st, c.args[1])
    if x.op == "str" and y.op == "str" and c.args[2].op == "c":
        k = t.cv(c.args[2])
        x, y = u8(x.a[0])[:k], u8(y.a[0])[:k]
        return C(32, (x > y) - (x < y))
    return I.fresh(st, ("strncmp", c.ctx), 32)


@m("strtol", "strtoul", "strtoll", "strtoull", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull", "atoi", "atol", "atoll")
def h_strtol(I, st, c):
    x = chars(I, st, c.args[0])
    at = c.f.n.startswith("ato")
    if x.op == "str" and (at or c.args[2].op == "c"):
        base = 10 if at else t.cv(c.args[2])
        g = re.match(r"[ \t\n\v\f\r]*([+-]?[0-9]+)" if base == 10 else r"$.", x.a[0])
        if g:
            v = int(g.group(1))
            lo, hi = (-(1 << 63), (1 << 63) - 1) if not ("ul" in c.f.n) else (0, (1 << 64) - 1)
            if lo <= v <= hi and (not at or c.f.n != "atoi" or -(1 << 31) <= v < 1 << 31):
                if not at and not isc(c.args[1], 0):
                    b, o = split(c.args[0])
                    I.store(st, c.args[1], ptr(b, t.add(o, C(64, len(g.group(0))))), 8)
                return C(32 if c.f.n == "atoi" else 64, v)
    return NotImplemented

@m("memcmp", "std::char_traits::compare")
def h_memcmp(I, st, c):
    a = c.args
    if len(a) == 3:
        x, y = chars(I, st, a[0], a[2]), chars(I, st, a[1], a[2])
        if x.op == "str" and y.op == "str" or x is y:
            return strcmp3(x, y, c.ctx)
    return I.fresh(st, ("memcmp", c.ctx), 32)


# ---- streams -------------------------------------------------------------------------------
def sid(p):
    return split(p)[0]


def iover(st, p):
    return st.cnt.get(("ios", sid(p)), 0)


def iobump(st, p):
    k = ("ios", sid(p))
    st.cnt[k] = st.cnt.get(k, 0) + 1
    return st.cnt[k]


@m("std::__cxx11::basic_ostringstream::basic_ostringstream", "std::__cxx11::basic_stringstream::basic_stringstream")
def h_oss(I, st, c):
    sets(I, st, c.args[0], lit(""), 376)
    return None


@m("std::__cxx11::basic_ostringstream::str", "std::__cxx11::basic_stringstream::str")
def h_ossstr(I, st, c):
    if sret(c):
        sets(I, st, c.args[0], gets(I, st, c.args[1]))
    return None


@m("std::__cxx11::basic_ostringstream::~basic_ostringstream", "std::__cxx11::basic_stringstream::~basic_stringstream")
def h_ossd(I, st, c):
    return None


def isoss(st, p):
    b, off = split(p)
    o = st.mem.get(b)
    return o is not None and any(isinstance(k, tuple) and k[0] == "s" for k in o.c)


def outs(I, st, c, stream, text):
    I.emit(st, "ostream", c.ctx, stream=stream, text=text)
    if isoss(st, stream):
        b, off = split(stream)
        if off.op == "c":
            ks = [k[1] for k in st.mem[b].c if isinstance(k, tuple) and k[0] == "s" and isinstance(k[1], int) and k[1] in (t.cv(off), t.cv(off) - 16)]
            if ks:
                stream = ptr(b, max(ks))
        sets(I, st, ptr(b, 0) if off.op != "c" else stream, cat(gets(I, st, ptr(b, 0) if off.op != "c" else stream), text), 376)


@m("std::operator<<", "std::filesystem::__cxx11::operator<<")
def h_shl(I, st, c):
    pt = c.f.pt
    if not pt or "basic_ostream" not in pt[0]:
        return NotImplemented
    x, _ = argstr(I, st, c, 1, 1)
    if x is None:
        if "filesystem" in pt[1]:
            x = gets(I, st, c.args[1])
        elif "_Setfill" in pt[1] or "_Setw" in pt[1]:
            return c.args[0]
        else:
            x = I.fresh(st, ("fmt", c.ctx), 0)
    outs(I, st, c, c.args[0], x)
    return c.args[0]


@pre("std::ostream::")
def h_ostream(I, st, c):
    b, a = c.f.base, c.args
    if b == "operator<<":
        p = c.f.pt[0]
        if p in ("int", "long", "unsigned int", "unsigned long", "bool", "double"):
            outs(I, st, c, a[0], ap("tostr", 0, a[1]) if a[1].op != "c" else lit(str(t.sgn(a[1].a[0], a[1].bits))))
            return a[0]
        if "(*)" in p:
            return I.call_target(st, mkcall(I, c, [a[0]]), a[1])
        outs(I, st, c, a[0], I.fresh(st, ("fmt", c.ctx), 0))
        return a[0]
    if b in ("write", "seekp", "flush", "put"):
        v = iobump(st, a[0])
        I.emit(st, "os_" + b, c.ctx, stream=sid(a[0]), args=tuple(a[1:]), v=v)
        return a[0]
    if b == "tellp":
        return (ap("tellp", 64, C(64, iover(st, a[0])), sym(("stream", sid(a[0])), 64)), C(64, 0))
    return NotImplemented


def mkcall(I, c, args):
    from .interp import Call
    n = Call()
    n.I, n.inst, n.args, n.caller, n.depth, n.ctx, n.inv = c.I, dict(c.inst, ty="ptr", sz=8), args, c.caller, c.depth, c.ctx, c.inv
    if "id" not in n.inst:
        n.inst["id"] = -1
    return n


@m("std::endl", "std::flush", "std::ends")
def h_endl(I, st, c):
    outs(I, st, c, c.args[0], lit("\n") if c.f.base == "endl" else lit(""))
    return c.args[0]


def ioflags(I, st, p):
    return ap("iosfail", 1, C(64, iover(st, p)), sym(("stream", sid(p)), 64))


def iocheck(I, st, p):
    """failure condition now; sticky: a later good state implies the earlier ones were good"""
    return ioflags(I, st, p)


@pre("std::basic_ios::")
def h_ios(I, st, c):
    b, a = c.f.base, c.args
    if b == "bad":
        e = ap("iosbad", 1, C(64, iover(st, a[0])), sym(("stream", sid(a[0])), 64))
        I.emit(st, "ios_check", c.ctx, stream=sid(a[0]), v=iover(st, a[0]), cond=e)
        return e
    if b in ("fail", "operator!"):
        I.emit(st, "ios_check", c.ctx, stream=sid(a[0]), v=iover(st, a[0]), cond=iocheck(I, st, a[0]))
        return iocheck(I, st, a[0])
    if b in ("good",) or b.startswith("operator bool"):
        I.emit(st, "ios_check", c.ctx, stream=sid(a[0]), v=iover(st, a[0]), cond=iocheck(I, st, a[0]))
        return not_(iocheck(I, st, a[0]))
    if b in ("clear",):
        I.emit(st, "ios_clear", c.ctx, stream=sid(a[0]))
        return None
    if b in ("setstate", "_M_setstate"):
        return None
    if b in ("exceptions",):
        I.emit(st, "ios_exceptions", c.ctx, stream=sid(a[0]))
        return None if len(a) > 1 else C(32, 0)
    if b in ("rdstate",):
        return t.sel(iocheck(I, st, a[0]), C(32, 4), C(32, 0))
    if b in ("fill", "rdbuf", "eof"):
        return I.fresh(st, ("ios", c.ctx), I.tyinfo(c.f.ret, 8)) if c.f.ret != "void" else None
    return None if c.f.ret == "void" else I.unknown(st, ("ios", c.ctx), c.f.ret, 8)


@pre("std::basic_ofstream::")
def h_ofs(I, st, c):
    b, a = c.f.base, c.args
    if b == "basic_ofstream":
        pt = c.f.pt
        st.mem.setdefault(sid(a[0]), Obj())
        if pt and ("char const" in pt[0] or "basic_string" in pt[0] or "filesystem" in pt[0]):
            path = gets(I, st, a[1]) if "basic_string" in pt[0] or "filesystem" in pt[0] else chars(I, st, a[1])
            mode = a[2] if len(a) > 2 else C(32, 16)
            v = iobump(st, a[0])
            I.emit(st, "fopen", c.ctx, stream=sid(a[0]), path=path, mode=mode, v=v)
        return None
    if b.startswith("~") or b == "close":
        v = iobump(st, a[0])
        I.emit(st, "fclose", c.ctx, stream=sid(a[0]), v=v)
        return None
    if b == "open":
        path = gets(I, st, a[1]) if "basic_string" in c.f.pt[0] or "filesystem" in c.f.pt[0] else chars(I, st, a[1])
        v = iobump(st, a[0])
        I.emit(st, "fopen", c.ctx, stream=sid(a[0]), path=path, mode=a[2] if len(a) > 2 else C(32, 16), v=v)
        return None
    if b == "is_open":
        I.emit(st, "ios_check", c.ctx, stream=sid(a[0]), v=iover(st, a[0]), cond=iocheck(I, st, a[0]))
        return not_(ap("iosnotopen", 1, sym(("stream", sid(a[0])), 64)))
    return NotImplemented


Q["std::basic_filebuf::is_open"] = h_ofs


# ---- filesystem ------------------------------------------------------------------------------
def joinp(a, b):
    if a.op == "str" and a.a[0] == "":
        return b
    return cat(a, lit("/"), b)


@pre("std::filesystem::__cxx11::path::")
def h_path(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if "iterator" in f.ctx or "_List" in f.ctx:
        return None if f.ret == "void" else I.unknown(st, ("pi", c.ctx), f.ret, 8)
    if b.startswith("~") or b in ("_M_split_cmpts",):
        return None
    if b == "path":
        if not f.pt:
            sets(I, st, a[0], lit(""), 40)
            return None
        s, _ = argstr(I, st, c, 0, 1)
        if s is None:
            s = gets(I, st, a[1])
        sets(I, st, a[0], s, 40)
        return None
    if sret(c):
        s = gets(I, st, a[1])
        if b in ("string", "generic_string", "u8string", "native", "lexically_normal"):
            sets(I, st, a[0], s)
        elif b in ("parent_path", "filename", "stem", "extension", "root_path", "relative_path", "lexically_relative"):
            sets(I, st, a[0], pathpart(b, s), 40)
        else:
            sets(I, st, a[0], I.fresh(st, ("path", c.ctx), 0), 40)
        return None
    s = gets(I, st, a[0])
    if b in ("operator=", "assign"):
        x, _ = argstr(I, st, c, 0, 1)
        sets(I, st, a[0], x if x is not None else gets(I, st, a[1]), 40)
        return a[0]
    if b in ("operator/=", "append", "operator+=", "concat"):
        x, _ = argstr(I, st, c, 0, 1)
        x = x if x is not None else gets(I, st, a[1])
        sets(I, st, a[0], joinp(s, x) if b in ("operator/=", "append") else cat(s, x), 40)
        return a[0]
    if b == "empty":
        return sempty(s)
    if b in ("c_str",):
        return strptr(s)
    if b in ("native",):
        return a[0]
    if b == "clear":
        sets(I, st, a[0], lit(""), 40)
        return None
    return None if f.ret == "void" else I.unknown(st, ("path", c.ctx), f.ret, 8)


def pathpart(b, s):
    if s.op == "str":
        x = s.a[0]
        if b == "parent_path":
            return lit(x.rsplit("/", 1)[0] if "/" in x else "")
        if b == "filename":
            return lit(x.rsplit("/", 1)[-1])
    if s.op == "cat" and b == "parent_path" and s.a[-1].op == "str" and "/" in s.a[-1].a[0]:
        return cat(*s.a[:-1], lit(s.a[-1].a[0].rsplit("/", 1)[0]))
    return ap(b, 0, s)


@m("std::filesystem::__cxx11::operator/")
def h_pathdiv(I, st, c):
    sets(I, st, c.args[0], joinp(gets(I, st, c.args[1]), gets(I, st, c.args[2])), 40)
    return None


FS_MUT = {"create_directories", "create_directory", "remove_all", "remove", "rename", "resize_file", "copy", "copy_file",
          "create_symlink", "permissions", "current_path", "create_hard_link"}
FS_QUERY = {"exists", "is_directory", "status", "is_regular_file", "file_size", "is_empty", "is_symlink", "symlink_status", "absolute",
            "canonical", "weakly_canonical", "space", "equivalent", "last_write_time", "temp_directory_path", "hard_link_count"}


@pre("std::filesystem::")
def h_fs(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if I.fs_ok and f.ret == "i1" and f.pt and "file_status" in f.pt[0] and b in ("is_directory", "exists", "is_regular_file"):
        x = st.props.get("fsstat")
        if x is None:
            return C(1, int(b != "is_regular_file"))
        return fs_query(I, st, c, b, x)
    if not f.pt or "path" not in f.pt[0] or b not in FS_MUT | FS_QUERY:
        return NotImplemented
    k = 1 if sret(c) else 0
    if sret(c) and b not in ("absolute", "canonical"):
        k = 0 if len(a) == len(f.pt) else 1
    s = gets(I, st, a[k])
    noexc = any("error_code" in p for p in f.pt)
    outs = []
    if not noexc and I.fs_throws:
        st2 = st.fork()
        I.emit(st2, "fsfail", c.ctx, op=b, path=s)
        outs.append((st2, "exc", I.make_exc(st2, c, "_ZTINSt10filesystem7__cxx1116filesystem_errorE")))
    I.emit(st, "fs", c.ctx, op=b, path=s, mut=b in FS_MUT, args=tuple(gets(I, st, x) if "path" in p else x for x, p in zip(a[k + 1:], f.pt[1:])))
    if noexc:
        # the error code is set on failure
        for x, p in zip(a[k:], f.pt):
            if "error_code" in p:
                I.store(st, x, C(32, 0) if I.fs_ok else I.fresh(st, ("ec", c.ctx), 32), 4)
    if I.fs_ok and b == "status" and s.op == "str":
        st.props["fsstat"] = s
    if I.fs_ok and s.op == "str" and "id" in c.inst and f.ret == "i1" and b in ("exists", "is_directory", "is_regular_file"):
        return fs_query(I, st, c, b, s)
    if I.fs_ok and "id" in c.inst and (f.ret == "i1" or f.ret == "i64" and b == "remove_all"):
        usual = int(b not in ("is_symlink", "is_empty")) if f.ret == "i1" else 1
        alt = fs_alt(I, st, c, "fsfail" if b in FS_MUT else "fsalt", b, s)
        only = I.sick is not None and b in FS_MUT and I.sick(st, b)
        if only:
            alt = st
            I.emit(st, "fsfail", c.ctx, op=b, path=s)
        elif alt is not None and I.sick is not None:
            I.sick(alt, b, True)
        if not only and s.op == "str" and b in ("create_directories", "create_directory", "remove_all", "remove"):
            usual, works = fs_change(st, b, s.a[0])
            if not works and noexc:
                for x, p in zip(a[k:], f.pt):
                    if "error_code" in p:
                        I.store(st, x, C(32, 20), 4)
                I.emit(st, "fsfail", c.ctx, op=b, path=s)
        if alt is not None:
            if noexc and b in FS_MUT:
                for x, p in zip(a[k:], f.pt):
                    if "error_code" in p:
                        I.store(alt, x, C(32, 13), 4)
            if b in FS_MUT and not noexc:
                outs.append((alt, "exc", I.make_exc(alt, c, "_ZTINSt10filesystem7__cxx1116filesystem_errorE")))
            else:
                outs.append((alt, "ret", C(1, 0 if b in FS_MUT else 1 - usual) if f.ret == "i1" else C(64, (1 << 64) - 1)))
        if only:
            return outs
        return [(st, "ret", C(1, usual) if f.ret == "i1" else C(64, usual))] + outs
    if b in ("absolute", "canonical", "weakly_canonical", "temp_directory_path") and sret(c):
        sets(I, st, a[0], ap(b, 0, s), 40)
        return [(st, "ret", None)] + outs
    if b == "status" and sret(c):
        return [(st, "ret", None)] + outs
    r = None
    if "id" in c.inst:
        if b in ("exists", "is_directory", "is_regular_file", "is_symlink") and f.ret == "i1":
            n = st.cnt.get("fsver", 0)
            r = ap("fs_" + b, 1, s, C(64, n))
        else:
            r = I.unknown(st, ("fs", c.ctx), c.inst["ty"], c.inst.get("sz", 8))
    if b in FS_MUT:
        st.cnt["fsver"] = st.cnt.get("fsver", 0) + 1
    return [(st, "ret", r)] + outs


def fs_norm(x):
    return ("/" if x.startswith("/") else "") + "/".join(y for y in x.split("/") if y not in ("", "."))


def fs_ups(x):
    """the path and the directories above it, nearest first"""
    x = fs_norm(x)
    while x and x != "/":
        yield x
        x = x.rsplit("/", 1)[0] if "/" in x else ""


def fs_kind(st, x):
    """what is at a path: in the beginning every directory asked about is there; what is made anew is empty"""
    d = dict(st.props.get("fsx", ()))
    for i, y in enumerate(fs_ups(x)):
        if y in d:
            return ("dir" if d[y] == "new" else d[y]) if i == 0 else "none" if d[y] in ("none", "new") else "file" if d[y] == "file" else "dir"
    return "dir"


def fs_set(st, x, kind):
    d = dict(st.props.get("fsx", ()))
    d[fs_norm(x)] = kind
    st.props["fsx"] = tuple(sorted(d.items()))


def fs_change(st, op, x):
    """(result, whether it works)"""
    k = fs_kind(st, x)
    if op in ("remove_all", "remove"):
        if k != "none":
            fs_set(st, x, "none")
        return int(k != "none"), True
    if k == "dir":
        return 0, True
    if k == "file":
        return 0, False
    ups = list(fs_ups(x))
    if op == "create_directory" and len(ups) > 1 and fs_kind(st, ups[1]) == "none":
        return 0, False
    for y in ups:
        if fs_kind(st, y) != "none":
            break
        fs_set(st, y, "new")
    return 1, True


def fs_query(I, st, c, b, s):
    """answer about a path; with unusual answers allowed, it may also be absent, or something that is not a directory"""
    x = s.a[0]
    k = fs_kind(st, x)
    ans = lambda k: C(1, int(k == "dir" if b == "is_directory" else k != "none" if b == "exists" else k == "file"))
    outs = [(st, "ret", ans(k))]
    for o in ("file", "none") if k == "dir" else ("file",) if k == "none" else ():
        alt = fs_alt(I, st, c, "fsodd" if o == "file" else "fsalt", "not a directory" if o == "file" else b, s)
        if alt is not None:
            fs_set(alt, x, o)
            outs.append((alt, "ret", ans(o)))
    return outs if len(outs) > 1 else ans(k)


def fs_alt(I, st, c, ev, op, p):
    """the state in which a file-system operation turns out the unusual way (at most I.fs_vary of them per path)"""
    if I.fs_vary is None or st.cnt.get("sinkfail", 0) >= I.fs_vary:
        return None
    s2 = st.fork()
    s2.cnt["sinkfail"] = s2.cnt.get("sinkfail", 0) + 1
    I.emit(s2, ev, c.ctx, op=op, path=p)
    return s2


@m("std::error_code::operator bool")
def h_ec(I, st, c):
    return not_(cmp("eq", I.load(st, c.args[0], 4, 32), C(32, 0)))


@m("std::error_code::error_code")
def h_ecc(I, st, c):
    if len(c.args) == 3:
        b, o = split(c.args[0])
        I.store(st, c.args[0], c.args[1], 4)
        I.store(st, ptr(b, t.add(o, C(64, 8))), c.args[2], 8)
        return None
    if len(c.args) > 1:
        return NotImplemented if c.f.blocks else I.store(st, c.args[0], I.fresh(st, ("ec", c.ctx), 32), 4)
    I.store(st, c.args[0], C(32, 0), 4)
    return None


@m("std::error_code::message", "std::system_error::code")
def h_ecm(I, st, c):
    if sret(c):
        sets(I, st, c.args[0], ap("errmsg", 0, I.fresh(st, ("ecm", c.ctx), 64)))
        return None
    return NotImplemented


# ---- locks, threads --------------------------------------------------------------------------
def held(st):
    return st.props.get("held", ())


def private(I, st, p):
    """a mutex each thread has one of its own of excludes nobody"""
    b = split(p)[0]
    return b[0] == "G" and bool((I.p.globals.get(b[1]) or {}).get("tls"))


def _lock(I, st, c, p):
    if private(I, st, p):
        return
    I.emit(st, "lock", c.ctx, m=p, held=held(st))
    st.props["held"] = held(st) + (p,)
    if I.on_lock:
        I.on_lock(I, st, c, p)


def _unlock(I, st, c, p):
    if private(I, st, p):
        return
    h = list(held(st))
    I.emit(st, "unlock", c.ctx, m=p, held=tuple(h))
    if p in h:
        h.reverse()
        h.remove(p)
        h.reverse()
    st.props["held"] = tuple(h)
    if not st.props["held"]:
        del st.props["held"]


@m("std::mutex::lock", "pthread_mutex_lock", "std::recursive_mutex::lock", "std::timed_mutex::lock")
def h_lock(I, st, c):
    _lock(I, st, c, c.args[0])
    return C(32, 0) if c.f.ret == "i32" else None


@m("std::mutex::unlock", "pthread_mutex_unlock", "std::recursive_mutex::unlock", "std::timed_mutex::unlock")
def h_unlock(I, st, c):
    _unlock(I, st, c, c.args[0])
    return C(32, 0) if c.f.ret == "i32" else None


@m("std::mutex::try_lock", "pthread_mutex_trylock", "std::recursive_mutex::try_lock")
def h_trylock(I, st, c):
    st2 = st.fork()
    _lock(I, st, c, c.args[0])
    if c.f.ret == "i32":
        return [(st, "ret", C(32, 0)), (st2, "ret", C(32, 16))]
    return [(st, "ret", TRUE), (st2, "ret", FALSE)]


@m("std::mutex::mutex", "std::mutex::~mutex", "std::condition_variable::condition_variable", "std::condition_variable::~condition_variable",
   "std::__condvar::__condvar", "std::__condvar::~__condvar", "std::atomic_flag::atomic_flag")
def h_nop(I, st, c):
    return None


def lockaddr(I, st, p):
    """mutex a unique_lock holds"""
    return I.load(st, p, 8, 64)


@m("std::condition_variable::wait")
def h_cvwait(I, st, c):
    if c.f.blocks:
        return NotImplemented
    mu = lockaddr(I, st, c.args[1])
    I.emit(st, "cvwait", c.ctx, cv=c.args[0], m=mu, held=held(st))
    if I.on_wait:
        r = I.on_wait(I, st, c, mu)
        if r is not None:
            return r
    return None


@pre("std::condition_variable::")
def h_cv(I, st, c):
    b = c.f.base
    if b.startswith("notify"):
        I.emit(st, b, c.ctx, cv=c.args[0], held=held(st))
        return None
    if c.f.blocks:
        return NotImplemented
    if b.startswith("wait"):
        return h_cvwait(I, st, c)
    return NotImplemented


@m("std::condition_variable::__wait_until_impl", "std::condition_variable::wait_for", "std::condition_variable::wait_until")
def h_cvtimed(I, st, c):
    if len(c.f.pt) > 2:
        return NotImplemented
    mu = lockaddr(I, st, c.args[1])
    I.emit(st, "cvwait", c.ctx, cv=c.args[0], m=mu, held=held(st), timed=True)
    if I.on_wait:
        I.on_wait(I, st, c, mu)
    return I.fresh(st, ("cvst", c.ctx), I.tyinfo(c.f.ret, 4))


@m("std::thread::_M_start_thread")
def h_thstart(I, st, c):
    up = c.args[1]
    p = I.load(st, up, 8, 64)
    vp = I.load(st, p, 8, 64)
    b, off = split(vp)
    run = None
    if b[0] == "G" and off.op == "c":
        v = I.gload(b[1], t.cv(off) + 16, 8)
        if v is not None and v.op == "fn":
            run = v.a[0]
    n = st.cnt.get("thid", 0) + 1
    if n == I.no_thread_at:
        I.emit(st, "thread_refused", c.ctx)
        return [(st, "exc", I.make_exc(st, c, "_ZTISt12system_error"))]
    I.emit(st, "thread_start", c.ctx, th_no=n, run=run, state=p, th=c.args[0], held=held(st))
    st.cnt["thid"] = n
    I.store(st, c.args[0], C(64, 0x7000 + n), 8)
    I.store(st, up, NULL, 8)
    return None


@m("std::thread::join", "std::thread::detach", "std::jthread::join")
def h_thjoin(I, st, c):
    I.emit(st, c.f.base, c.ctx, th=c.args[0], held=held(st), id=I.load(st, c.args[0], 8, 64))
    I.store(st, c.args[0], C(64, 0), 8)
    if I.on_join:
        I.on_join(I, st, c)
    return None


@m("std::thread::hardware_concurrency")
def h_hw(I, st, c):
    if I.hw is not None:
        return C(32, I.hw)
    return I.fresh(st, ("hw",), 32)


@m("std::thread::_State::~_State", "std::thread::_State::_State")
def h_thst(I, st, c):
    return None


@m("std::latch::latch")
def h_latch(I, st, c):
    I.emit(st, "latch", c.ctx, l=c.args[0], n=c.args[1])
    return None


@pre("std::latch::")
def h_latchop(I, st, c):
    b = c.f.base
    if b in ("count_down", "wait", "try_wait", "arrive_and_wait"):
        if "wait" in b:
            st.props.pop("sick", None)
        I.emit(st, "latch_" + b, c.ctx, l=c.args[0], n=c.args[1] if len(c.args) > 1 else C(64, 1), held=held(st))
        return TRUE if b == "try_wait" else None
    return None if c.f.ret == "void" else NotImplemented


@m("std::__atomic_notify_address", "std::__atomic_wait_address", "std::__atomic_wait_address_v", "std::__atomic_notify_address_bitset")
def h_atomicwait(I, st, c):
    I.emit(st, "atomic_wait" if "wait" in c.f.base else "atomic_notify", c.ctx, a=c.args[0], held=held(st))
    return None


@m("sched_yield", "std::this_thread::yield", "__gthread_yield")
def h_yield(I, st, c):
    return C(32, 0) if c.f.ret == "i32" else None


@m("std::this_thread::sleep_for", "std::this_thread::sleep_until", "nanosleep", "usleep", "sleep")
def h_sleep(I, st, c):
    I.emit(st, "sleep", c.ctx, held=held(st))
    return C(32, 0) if c.f.ret == "i32" else None


# ---- vectors ---------------------------------------------------------------------------------
PRIM = {"char": 1, "signed char": 1, "unsigned char": 1, "std::byte": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "unsigned": 4,
        "long": 8, "unsigned long": 8, "float": 4, "double": 8, "bool": 1, "long long": 8, "unsigned long long": 8}


def targ(cxt):
    i = cxt.find("<")
    if i < 0:
        return ""
    d, j = 0, i
    while j < len(cxt):
        ch = cxt[j]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                return cxt[i + 1:j]
        elif ch == "," and d == 1:
            return cxt[i + 1:j]
        j += 1
    return cxt[i + 1:]


def tsize(I, ty):
    ty = ty.strip()
    if ty.endswith("const"):
        ty = ty[:-5].strip()
    if ty.startswith("const "):
        ty = ty[6:]
    if ty in PRIM:
        return PRIM[ty]
    if ty.endswith("*"):
        return 8
    for p, n in (("std::unique_ptr<", 8), ("std::shared_ptr<", 16), ("std::__cxx11::basic_string<", 32), ("std::vector<", 24), ("std::thread", 8),
                 ("iovec", 16), ("std::function<", 32), ("std::mutex", 40), ("std::basic_string_view<", 16), ("std::span<", 16),
                 ("nlohmann::", 16), ("std::optional<std::vector", 32), ("std::filesystem::", 40)):
        if ty.startswith(p):
            return n
    r = I.p.records.get(ty) or I.p.records.get("#_ZTS%d%s" % (len(ty), ty))
    if r:
        return r["size"]
    for p, n in (("std::map<", 48), ("std::set<", 48), ("std::unordered_map<", 56), ("std::unordered_set<", 56), ("std::queue<", 80), ("std::deque<", 80),
                 ("std::__cxx11::list<", 24), ("std::weak_ptr<", 16), ("std::reference_wrapper<", 8)):
        if ty.startswith(p):
            return n
    from .mk import targs
    if ty.startswith(("std::pair<", "std::tuple<")):
        off = al = 0
        l = targs(ty)
        if ty.startswith("std::tuple<"):
            l = l[::-1]         # libstdc++ lays the last element out first
        for x in l:
            n = tsize(I, x)
            if n is None:
                return None
            g = talign(I, x, n)
            off, al = (off + g - 1) // g * g + n, max(al, g)
        return (off + al - 1) // al * al if al else 1
    if ty.startswith("std::optional<"):
        l = targs(ty)
        n = tsize(I, l[0]) if l else None
        if n is None:
            return None
        g = talign(I, l[0], n)
        return (n + 1 + g - 1) // g * g
    if ty.startswith("std::array<"):
        l = targs(ty)
        n = tsize(I, l[0]) if len(l) == 2 else None
        k = re.match(r"\d+", l[1].strip()) if len(l) == 2 else None
        return n * int(k.group(0)) if n is not None and k else None
    if ty.startswith("std::atomic<"):
        return tsize(I, targ(ty))
    return None


def talign(I, ty, n):
    ty = ty.strip()
    if ty.startswith("const ") or ty.endswith("const"):
        ty = re.sub(r"^const | ?const$", "", ty)
    if ty in PRIM:
        return PRIM[ty]
    if ty.startswith("std::array<"):
        from .mk import targs
        return talign(I, targs(ty)[0], n)
    return 8 if n % 8 == 0 else 4 if n % 4 == 0 else 2 if n % 2 == 0 else 1


def vec_esz(I, c):
    cx = c.f.cxt
    k = cx.find("std::vector<")
    if k < 0:
        # try the mangled dem
        k2 = c.f.dem.find("std::vector<")
        if k2 < 0:
            return None
        return tsize(I, targ(c.f.dem[k2:]))
    return tsize(I, targ(cx[k:]))


BIG = 1 << 59


def vget(I, st, p):
    b, o = split(p)
    return [I.load(st, ptr(b, t.add(o, C(64, 8 * i))), 8, 64) for i in range(3)]


def vset(I, st, p, begin, end, cap=None):
    b, o = split(p)
    I.store(st, p, begin, 8)
    I.store(st, ptr(b, t.add(o, C(64, 8))), end, 8)
    if cap is not None:
        I.store(st, ptr(b, t.add(o, C(64, 16))), cap, 8)


def vnew(I, st, c, p, n, esz, fill=0):
    """fresh storage for n elements"""
    b = I.alloc(st, c.ctx, "V")
    if fill is not None:
        st.mem[b].f = ((0, None, fill),)
    nb = t.mul(n, C(64, esz)) if esz is not None else ap("bytes", 64, n)
    vset(I, st, p, ptr(b, 0), ptr(b, nb), ptr(b, C(64, BIG)))
    return b


def vsize(I, st, p, esz):
    b, e, _ = vget(I, st, p)
    return t.bin_("sdiv", t.sub(e, b), C(64, esz))


def isbool(c):
    return targ(c.f.cxt).strip() == "bool"


def elem_is(c, *names):
    ty = targ(c.f.cxt)
    return any(ty.startswith(x) for x in names)


@pre("std::vector::")
def h_vec(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if isbool(c):
        return NotImplemented
    if f.ctx != "std::vector":
        return NotImplemented
    esz = vec_esz(I, c)
    if b.startswith("~"):
        I.emit(st, "vdtor", c.ctx, v=a[0])
        return None
    if b in ("push_back", "emplace_back"):
        I.emit(st, "vpush", c.ctx, v=a[0], held=held(st))
        v = vget(I, st, a[0])
        if isc(v[0], 0) or isc(v[1], 0):
            vnew(I, st, c, a[0], C(64, 0), esz, None)
        else:
            e = cmp("eq", v[1], v[2])
            if isc(e, 1) and v[1].op == "ptr":
                # full: it grows (in place, here)
                vset(I, st, a[0], v[0], v[1], ptr(v[1].a[0], t.add(v[1].a[1], C(64, BIG))))
            elif not isc(e, 0):
                st.facts[e] = False
        return NotImplemented
    if b == "vector" and f.pt and f.pt[0] == "unsigned long":
        n = a[1]
        fill = 0
        val = None
        if len(f.pt) == 3 or (len(f.pt) == 2 and "allocator" not in f.pt[1]):
            val = a[2]
        if elem_is(c, "iovec") or esz is None:
            pass
        base = vnew(I, st, c, a[0], n, esz, 0)
        if val is not None:
            vfill(I, st, c, base, 0, val, esz, n)
        I.emit(st, "vctor", c.ctx, v=a[0], n=n, storage=base)
        return None
    if b == "vector" and f.pt and f.pt[0].startswith("std::vector<") and f.pt[0].endswith("const&"):
        return vcopy(I, st, c, a[0], a[1], esz)
    if b == "operator=" and f.pt and f.pt[0].startswith("std::vector<") and f.pt[0].endswith("const&"):
        vcopy(I, st, c, a[0], a[1], esz)
        return a[0]
    if b == "resize" or b == "_M_default_append" and False:
        v = vget(I, st, a[0])
        I.emit(st, "vresize", c.ctx, v=a[0], n=a[1], fill=a[2] if len(a) > 2 else None, at=v[0], old=t.sub(v[1], v[0]),
               nb=t.mul(a[1], C(64, esz)) if esz else None, fv=I.load(st, a[2], 1, 8) if len(a) > 2 else C(8, 0))
        if isc(v[0], 0) or v[0].op == "c":
            base = vnew(I, st, c, a[0], a[1], esz, 0)
            if len(a) > 2:
                vfill(I, st, c, base, 0, a[2], esz, a[1])
            return None
        bb, bo = split(v[0])
        nb = t.mul(a[1], C(64, esz)) if esz else ap("bytes", 64, a[1])
        old = t.sub(v[1], v[0])
        if bb[0] in ("V", "H") and old.op == "c":
            o = st.wobj(bb)
            if isc(bo, 0) and isc(old, 0):
                o.c.clear()
                o.f = ((0, None, 0),)
                if len(a) > 2:
                    vfill(I, st, c, bb, 0, a[2], esz, a[1])
            elif isc(bo, 0):
                for k in [k for k in o.c if isinstance(k, int) and k >= t.cv(old)]:
                    del o.c[k]
                o.fill(t.cv(old), None, 0)
                if len(a) > 2 and esz and not (nb.op == "c" and t.cv(nb) <= t.cv(old)):
                    vfill(I, st, c, bb, t.cv(old), a[2], esz, t.sub(a[1], C(64, t.cv(old) // esz)))
        vset(I, st, a[0], v[0], ptr(bb, t.add(bo, nb)) if bb[0] != "N" else nb)
        return None
    if b == "reserve":
        if I.want is not None and "vreserve" in I.want:
            I.emit(st, "vreserve", c.ctx, v=a[0])
        return None
    if b in ("clear", "_M_erase_at_end"):
        v = vget(I, st, a[0])
        I.emit(st, "vclear", c.ctx, v=a[0], at=v[0])
        b_, o_ = split(a[0])
        if b == "clear" and (v[0].op != "ptr" or v[0].a[0][0] == "S") and not isc(v[0], 0):
            vset(I, st, a[0], NULL, NULL, NULL)     # how much room the unknown storage has does not matter
            return None
        I.store(st, ptr(b_, t.add(o_, C(64, 8))), v[0] if b == "clear" else a[1], 8)
        return None
    if b == "assign" and f.pt and f.pt[0] == "unsigned long":
        base = vnew(I, st, c, a[0], a[1], esz, None)
        vfill(I, st, c, base, 0, a[2], esz, a[1])
        I.emit(st, "vresize", c.ctx, v=a[0], n=a[1], fill=a[2], assign=True)
        return None
    if b == "pop_back":
        v = vget(I, st, a[0])
        b_, o_ = split(a[0])
        I.emit(st, "vpop", c.ctx, v=a[0], held=held(st))
        I.store(st, ptr(b_, t.add(o_, C(64, 8))), t.sub(v[1], C(64, esz)), 8)
        return None
    if b == "_M_range_initialize" and esz is not None:
        n = t.bin_("sdiv", t.sub(a[2], a[1]), C(64, esz))
        base = vnew(I, st, c, a[0], n, esz, None)
        I.memcpy(st, ptr(base, 0), a[1], t.sub(a[2], a[1]), c.ctx)
        return None
    if b in ("insert", "erase", "_M_fill_insert", "_M_insert_aux", "_M_realloc_insert"):
        I.emit(st, "v" + b, c.ctx, v=a[0], held=held(st))
        r = vsplice(I, st, c, esz)
        if r is not None:
            return r[0]
        I.vague.add(c.f.dem)
        if b == "erase":
            # storage stays; contents and length become unknown
            v = vget(I, st, a[0])
            b_, o_ = split(a[0])
            I.havoc(st, v[0])
            bb, bo = split(v[0])
            if bb[0] != "N":
                I.store(st, ptr(b_, t.add(o_, C(64, 8))), ptr(bb, I.fresh(st, ("vend", c.ctx), 64)), 8)
            return a[1] if len(a) > 1 else None
        if b == "insert":
            v = vget(I, st, a[0])
            nb = I.alloc(st, c.ctx, "V")
            vset(I, st, a[0], ptr(nb, 0), ptr(nb, I.fresh(st, ("vend", c.ctx), 64)), ptr(nb, C(64, BIG)))
            return ptr(nb, I.fresh(st, ("vit", c.ctx), 64)) if f.ret == "ptr" else None
    return NotImplemented


def vsplice(I, st, c, esz):
    """insert / erase of plain elements at known places; (result,) or None"""
    f, a, b = c.f, c.args, c.f.base
    ty = targ(f.cxt).strip()
    if esz is None or b not in ("insert", "erase") or not (ty in PRIM or ty.endswith("*")):
        return None
    lo, hi, _ = vget(I, st, a[0])
    if isc(lo, 0) or (lo.op == "c" and lo is hi):
        bb, bo, n = None, C(64, 0), 0
    elif lo.op == "ptr" and hi.op == "ptr" and lo.a[0] == hi.a[0] and t.sub(hi, lo).op == "c":
        (bb, bo), n = split(lo), t.cv(t.sub(hi, lo))
    else:
        return None
    at = t.sub(a[1], lo) if n or a[1].op == "ptr" else C(64, 0)
    if at.op != "c" or t.cv(at) > n:
        return None
    at = t.cv(at)
    pt = f.pt
    if b == "erase":
        k = esz
        if len(a) > 2:
            d = t.sub(a[2], a[1])
            if d.op != "c":
                return None
            k = t.cv(d)
        if at + k > n or bb is None:
            return None
        tmp = I.alloc(st, c.ctx, "V")
        I.memcpy(st, ptr(tmp, 0), ptr(bb, t.add(bo, C(64, at + k))), C(64, n - at - k), c.ctx)
        I.memcpy(st, ptr(bb, t.add(bo, C(64, at))), ptr(tmp, 0), C(64, n - at - k), c.ctx)
        b_, o_ = split(a[0])
        I.store(st, ptr(b_, t.add(o_, C(64, 8))), ptr(bb, t.add(bo, C(64, n - k))), 8)
        return (a[1],)
    if len(pt) == 2 and "initializer_list" not in pt[1]:
        cnt, src, rep = 1, a[2], True
    elif len(pt) == 3 and pt[1] == "unsigned long":
        if a[2].op != "c" or t.cv(a[2]) > 4096:
            return None
        cnt, src, rep = t.cv(a[2]), a[3], True
    elif len(pt) == 3 and a[2].op == "ptr" and a[3].op == "ptr" and a[2].a[0] == a[3].a[0] and t.sub(a[3], a[2]).op == "c":
        cnt, src, rep = t.cv(t.sub(a[3], a[2])) // esz, a[2], False
    else:
        return None
    nb = I.alloc(st, c.ctx, "V")
    if at:
        I.memcpy(st, ptr(nb, 0), lo, C(64, at), c.ctx)
    if rep:
        v = I.load(st, src, esz, 8 * esz)
        for i in range(cnt):
            I.store(st, ptr(nb, at + esz * i), v, esz)
    elif cnt:
        I.memcpy(st, ptr(nb, at), src, C(64, cnt * esz), c.ctx)
    if n - at:
        I.memcpy(st, ptr(nb, at + cnt * esz), ptr(bb, t.add(bo, C(64, at))), C(64, n - at), c.ctx)
    vset(I, st, a[0], ptr(nb, 0), ptr(nb, n + cnt * esz), ptr(nb, C(64, BIG)))
    return (ptr(nb, at) if f.ret == "ptr" else None,)


def velem(c):
    """the element type of the vector a member function belongs to"""
    cx = c.f.cxt if "std::vector<" in c.f.cxt else c.f.dem
    k = cx.find("std::vector<")
    return targ(cx[k:]).strip() if k >= 0 else ""


def copyval(I, st, c, ty, d, s, n):
    """copy-construct a value of a library type; False when its copies are not modelled"""
    if ty.startswith("std::vector<"):
        x = targ(ty).strip()
        vcopy(I, st, c, d, s, tsize(I, x), x)
        return True
    if n is None:
        return False
    I.memcpy(st, d, s, C(64, n), c.ctx)
    return ty in PRIM or ty.endswith("*") or ty.startswith(("std::shared_ptr<", "std::__cxx11::basic_string<", "std::basic_string_view<", "std::span<"))


def moved(I, st, ty, s):
    """what a value looks like once it has been moved from"""
    n = 8 if ty.startswith("std::unique_ptr<") else 16 if ty.startswith("std::shared_ptr<") else 24 if ty.startswith("std::vector<") else 0
    b, o = split(s)
    for i in range(0, n, 8):
        I.store(st, ptr(b, t.add(o, C(64, i))), C(64, 0), 8)


def vfill(I, st, c, base, off, valp, esz, n):
    """n elements from this offset on equal the one at valp"""
    if I.access is not None:
        I.access(st, base, C(64, off), None, "w", False, I.ccur)
    o = st.wobj(base)
    v = I.load(st, valp, esz, esz * 8) if esz and esz <= 8 else None
    if v is not None and v.op == "c":
        bs = (t.cv(v)).to_bytes(esz, "little")
        if len(set(bs)) == 1:
            for k in [k for k in o.c if isinstance(k, int) and k >= off]:
                del o.c[k]
            o.fill(off, None, bs[0])
            return
    o.fill(off, None, None)
    many = n.op != "c" or t.cv(n) > 4096
    if v is not None and not many:
        for k in range(t.cv(n)):
            o.c[off + k * esz] = (v, esz)
        return
    if v is None and not many and esz:
        ty = velem(c)
        ok = True
        for k in range(t.cv(n)):
            ok = copyval(I, st, c, ty, ptr(base, off + k * esz), valp, esz) and ok
        if ok:
            return
    I.vague.add(c.f.dem)


def vcopy(I, st, c, d, s, esz, ty=None):
    v = vget(I, st, s)
    if isc(v[0], 0):
        vset(I, st, d, NULL, NULL, NULL)
        return None
    b = I.alloc(st, c.ctx, "V")
    n = t.sub(v[1], v[0])
    I.memcpy(st, ptr(b, 0), v[0], n, c.ctx)
    ty = velem(c) if ty is None else ty
    if ty.startswith("std::vector<"):
        # the copy has inner storage of its own
        if n.op != "c" or v[0].op != "ptr" or t.cv(n) > 24 * 4096:
            I.vague.add(c.f.dem)
        else:
            sb, so = split(v[0])
            for i in range(0, t.cv(n), 24):
                copyval(I, st, c, ty, ptr(b, i), ptr(sb, t.add(so, C(64, i))), 24)
    sb, so = split(v[0])
    if n.op != "c":
        # same contents as the source: share its cells
        o = st.mem.get(sb)
        if o is not None and isc(so, 0):
            st.mem[b] = Obj(dict(o.c), o.f, o.ver, st.tok)
    vset(I, st, d, ptr(b, 0), ptr(b, n), ptr(b, C(64, BIG)))
    return None


# fills and copies over contiguous ranges
@m("std::fill", "std::__fill_a", "std::__fill_a1", "std::fill_n", "std::__fill_n_a", "std::ranges::fill")
def h_fill(I, st, c):
    f, a = c.f, c.args
    if len(f.pt) < 3 or c.f.base != "fill":
        return NotImplemented
    ty = f.pt[0]
    esz = None
    mm = re.match(r"__gnu_cxx::__normal_iterator<(.*?)(\*|\*,.*)", ty)
    if mm:
        esz = tsize(I, mm.group(1))
    elif ty.endswith("*"):
        esz = tsize(I, ty[:-1])
    if "vector" in ty and "unique_ptr" in ty:
        esz = 8
    b, o = split(a[0])
    b2, o2 = split(a[1])
    I.emit(st, "fill", c.ctx, at=a[0], n=t.sub(a[1], a[0]) if b == b2 or b[0] == "S" else None, val=I.load(st, a[2], esz or 1, 8 * (esz or 1)), end=a[1])
    if b[0] in ("N", "STR"):
        return None
    if I.access is not None:
        k = t.sub(o2, o) if b == b2 else None
        I.access(st, b, o, t.cv(k) if k is not None and k.op == "c" else None, "w", False, c.ctx)
    v = None
    if "nullptr" in f.pt[2]:
        v = C(64, 0)
    elif f.pt[2].startswith("int") and esz and esz > 4:
        v = t.sext(I.load(st, a[2], 4, 32), esz * 8)
    elif esz:
        v = I.load(st, a[2], esz, esz * 8)
    ob = st.wobj(b)
    n = t.sub(o2, o) if b == b2 else None
    if n is not None and n.op == "c" and o.op == "c":
        I.clear_range(st, b, t.cv(o), t.cv(n))
        hi = t.cv(o) + t.cv(n)
        lo = t.cv(o)
    else:
        ob.c = {}
        lo, hi = (t.cv(o) if o.op == "c" else 0), None
    if v is not None and v.op == "c":
        bs = t.cv(v).to_bytes(esz or 8, "little")
        if len(set(bs)) == 1:
            ob.fill(lo, hi, bs[0])
            return None
    ob.fill(lo, hi, None)
    ob.c[("vf", lo)] = (v if v is not None else sym("fill?", 64), esz or 8)
    return None


# ---- maps --------------------------------------------------------------------------------------
def mapkey(I, st, c, i, k):
    x, _ = argstr(I, st, c, i, k)
    if x is not None:
        return x
    p = c.f.pt[i]
    if p.endswith("&") or p.endswith("&&"):
        b = re.sub(r" const|&", "", p).strip()
        n = tsize(I, b) or 8
        return I.load(st, c.args[k], min(n, 8), 8 * min(n, 8))
    return c.args[k]


def mapacc(I, st, c, p):
    if I.access is not None:
        b, o = split(p)
        I.access(st, b, o, 48, "r" if c.f.base in ("find", "at", "count", "contains", "size", "empty", "begin", "end", "cbegin", "cend") else "w", False, c.ctx)


def mapid(I, st, p):
    b, o = split(p)
    return (b, t.cv(o) if o.op == "c" else o)


def mx(st, p):
    """keys of the map or set at p, in order of insertion, or None when they are not known"""
    b, o = split(p)
    ob = st.mem.get(b)
    v = ob.c.get(("mx", t.cv(o) if o.op == "c" else o)) if ob is not None else None
    return v[0] if v else None


def mxset(st, p, keys):
    b, o = split(p)
    k = ("mx", t.cv(o) if o.op == "c" else o)
    if keys is None:
        st.wobj(b).c.pop(k, None)
    else:
        st.wobj(b).c[k] = (tuple(keys), 8)


def keq(a, b):
    if a is b:
        return True
    if a.op in ("c", "str") and b.op == a.op:
        return a.a == b.a
    return None


def sorted_map(c):
    return c.f.ctx in ("std::map", "std::set")


def mxput(c, keys, k):
    """keys after k was added, or None when the place of k in a sorted container is not known"""
    if not sorted_map(c):
        return keys + (k,)
    cmpr = "std::less<" in c.f.cxt or "greater" not in c.f.cxt
    if not cmpr or any(x.op not in ("c", "str") for x in keys + (k,)):
        return keys + (k,) if not keys and cmpr else None
    signed = re.match(r"std::(map|set)<(int|long|short|char|signed char)\b", c.f.cxt)

    def val(x):
        return u8(x.a[0]) if x.op == "str" else t.sgn(x.a[0], x.bits) if signed else x.a[0]
    return tuple(sorted(keys + (k,), key=val))


def keyat(I, st, ty, p):
    """the key of type ty stored at p"""
    ty = re.sub(r"^const | ?const$|&", "", ty.strip()).strip()
    if ty.startswith("std::__cxx11::basic_string<") or ty in ("std::string", "std::__cxx11::string"):
        return gets(I, st, p)
    if ty.startswith("std::basic_string_view<"):
        return svmem(I, st, p)
    n = tsize(I, ty)
    if n is None or n > 8:
        e = re.match(r"[\w:]+$", ty)
        if not e or n is not None:
            return None
        n = 4           # an enumeration
    return I.load(st, p, n, 8 * n)


def mapfill(I, st, c, m_, mid, off):
    """construction from an initializer list; True when done"""
    from .mk import targs
    a = c.args
    is_set = off == 0
    cx = c.f.cxt
    l = targs(cx[cx.find("set<" if is_set else "map<"):])
    if a[2].op != "c" or t.cv(a[2]) > 64 or not l or off is None:
        return False
    vs = 0 if is_set else tsize(I, l[1])
    ks = tsize(I, l[0])
    if vs is None or ks is None:
        return False
    step = ks if is_set else tsize(I, "std::pair<%s, %s>" % (l[0], l[1]))
    keys = ()
    b0, o0 = split(a[1])
    for i in range(t.cv(a[2])):
        e = t.add(o0, C(64, i * step))
        k = keyat(I, st, l[0], ptr(b0, e))
        if k is None:
            return False
        pos = mxfind(keys, k)
        if pos is None:
            return False
        if pos >= 0:
            continue
        keys = mxput(c, keys, k)
        if keys is None:
            return False
        mxnode(I, st, mid, k, off)
        if vs:
            I.memcpy(st, ptr(("M", mid, k), 0), ptr(b0, t.add(e, C(64, off))), C(64, vs), c.ctx)
    mxset(st, m_, keys)
    return True


def samemap(c):
    """the argument is a map of the same kind"""
    p = re.sub(r" const|const |&", "", c.f.pt[0]).strip()
    return p.startswith(c.f.ctx + "<")


def b_tmp(st):
    b = ("V", "swap", st.cnt.get("swap", 0))
    st.cnt["swap"] = b[2] + 1
    st.mem[b] = Obj({}, (), 0, st.tok)
    return b


def mapdrop(I, st, c, m_, mid):
    """the entries of a map whose keys are known go away"""
    keys = mx(st, m_)
    for k in keys or ():
        I.maperase(st, ("M", mid, k), c)
    if keys is not None:
        mxset(st, m_, ())


def mapmove(I, st, src, dst):
    """the entries of one map become another's; False when they are not known"""
    keys = mx(st, src)
    if keys is None:
        return False
    a, b = mapid(I, st, src), mapid(I, st, dst)
    for k in keys:
        o = st.mem.pop(("M", a, k), None)
        if o is not None:
            st.mem[("M", b, k)] = o
    mxset(st, src, ())
    mxset(st, dst, keys)
    return True


def mapcopy(I, st, c, src, dst, off):
    keys = mx(st, src)
    v = mapval(c)
    if keys is None or off is None or not (v in PRIM or v.startswith("std::__cxx11::basic_string<")):
        return False
    a, b = mapid(I, st, src), mapid(I, st, dst)
    for k in keys:
        mxnode(I, st, b, k, off)
        I.memcpy(st, ptr(("M", b, k), 0), ptr(("M", a, k), 0), C(64, tsize(I, v)), c.ctx)
    mxset(st, dst, keys)
    return True


def mxfind(keys, k):
    """index of k among keys, -1 when absent, None when that is not known"""
    for i, x in enumerate(keys):
        e = keq(x, k)
        if e is None:
            return None
        if e:
            return i
    return -1


def mapkeyty(c):
    from .mk import targs
    cx = c.f.cxt
    l = targs(cx[cx.find("map<"):])
    return l[0] if l else ""


def mapval(c):
    from .mk import targs
    cx = c.f.cxt
    l = targs(cx[cx.find("map<"):])
    return l[1] if len(l) > 1 else ""


def koff(I, c):
    """offset of the mapped value behind its key"""
    if "set<" in c.f.cxt.split("::", 1)[1][:20]:
        return 0
    from .mk import targs
    cx = c.f.cxt
    a = targs(cx[cx.find("map<"):])
    if len(a) < 2:
        return None
    n, m_ = tsize(I, a[0]), tsize(I, a[1])
    if n is None:
        return None
    al = 8 if m_ is None or m_ >= 8 or a[1] not in PRIM else m_
    return (n + al - 1) // al * al


def mxnode(I, st, mid, k, off):
    """pointer to the (key, value) pair"""
    n = ("M", mid, k)
    if n not in st.mem:
        st.mem[n] = Obj({}, (), 0, st.tok)
    if off is None:
        return None
    at = -off & t.mask(64)
    o = st.wobj(n)
    if k.bits:
        o.c[at] = (k, max(1, k.bits // 8))
    else:
        o.c[("s", at)] = (k, 32)
    return ptr(n, at)


@pre("std::unordered_map::")
def h_umap(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if f.ctx not in ("std::unordered_map", "std::map"):
        return NotImplemented
    m_ = a[1] if sret(c) else a[0]
    mid = mapid(I, st, m_)
    mapacc(I, st, c, m_)
    if b in ("unordered_map", "map") or b.startswith("~"):
        if b[0] != "~":
            if f.pt and "initializer_list" in f.pt[0] and mapfill(I, st, c, m_, mid, koff(I, c)):
                return None
            if f.pt and samemap(c) and (mapmove(I, st, a[1], m_) if f.pt[0].endswith("&&") else mapcopy(I, st, c, a[1], m_, koff(I, c))):
                return None
            mxset(st, m_, () if not f.pt else None)
        else:
            mapdrop(I, st, c, m_, mid)
        return None
    keys = mx(st, m_)
    off = koff(I, c)
    if keys is not None and off is None:
        I.vague.add(f.dem)
        mxset(st, m_, None)
        keys = None
    k = pos = None
    byit = bool(f.pt) and ("iterator" in f.pt[0])
    if b in ("operator[]", "at", "try_emplace", "find", "count", "contains") or (b == "erase" and not byit) or (b in ("emplace", "insert", "insert_or_assign") and not f.pt[0].startswith("std::pair") and "iterator" not in f.pt[0] and "initializer" not in f.pt[0]):
        k = mapkey(I, st, c, 0, 2 if sret(c) else 1)
        if keys is not None:
            pos = mxfind(keys, k)
            if pos is None:
                I.vague.add(f.dem)
                mxset(st, m_, None)
                keys = None
            elif pos >= 0:
                k = keys[pos]
    elif keys is not None and b == "insert" and f.pt[0].startswith("std::pair") and len(f.pt) == 1 and off is not None and keyat(I, st, mapkeyty(c), a[-1]) is not None and mxfind(keys, keyat(I, st, mapkeyty(c), a[-1])) is not None and tsize(I, mapval(c)) is not None:
        k = keyat(I, st, mapkeyty(c), a[-1])
        pos = mxfind(keys, k)
        n = ("M", mid, k)
        I.emit(st, "map_emplace", c.ctx, m=m_, key=k)
        if pos < 0:
            kk = mxput(c, keys, k)
            if kk is None:
                I.vague.add(f.dem)
            mxset(st, m_, kk)
            st.mem[n] = Obj({}, (), 0, st.tok)
            bb, oo = split(a[-1])
            I.memcpy(st, ptr(n, 0), ptr(bb, t.add(oo, C(64, off))), C(64, tsize(I, mapval(c))), c.ctx)
            if f.pt[0].endswith("&&"):
                moved(I, st, mapval(c), ptr(bb, t.add(oo, C(64, off))))
        else:
            k = keys[pos]
        return (mxnode(I, st, mid, k, off), C(8, int(pos < 0))) if c.inst.get("ty", "").startswith("{") else None
    elif keys is not None and b in ("emplace", "insert", "insert_or_assign", "swap", "operator=", "merge", "extract"):
        if b == "operator=" and samemap(c) and mx(st, a[1]) is not None and a[1] is not a[0]:
            mapdrop(I, st, c, m_, mid)
            if mapmove(I, st, a[1], m_) if f.pt[0].endswith("&&") else mapcopy(I, st, c, a[1], m_, off):
                return a[0]
        if b == "swap" and mx(st, a[1]) is not None:
            tmp = ptr(b_tmp(st), 0)
            mapmove(I, st, a[1], tmp)
            mapmove(I, st, a[0], a[1])
            mapmove(I, st, tmp, a[0])
            return None
        I.vague.add(f.dem)
        mxset(st, m_, None)
        keys = None
    if b in ("operator[]", "at", "try_emplace"):
        n = ("M", mid, k)
        I.emit(st, "map_" + b, c.ctx, m=m_, key=k)
        if b == "at" and pos == -1:
            return [(st, "exc", I.make_exc(st, c, "_ZTISt12out_of_range"))]
        if n not in st.mem or pos == -1:
            st.mem[n] = Obj({}, ((0, None, 0),) if (b == "operator[]" or keys is not None) and I.map_zero else (), 0, st.tok)
        if keys is not None:
            if pos == -1:
                kk = mxput(c, keys, k)
                if kk is None:
                    I.vague.add(f.dem)
                mxset(st, m_, kk)
            mxnode(I, st, mid, k, off)
        if b == "try_emplace":
            if keys is not None:
                if c.inst.get("ty", "").startswith("{") and (pos >= 0 or len(f.pt) == 2):
                    if pos < 0:
                        st.mem[n].f = ()
                        p1 = f.pt[1].replace("&", "").replace("const", "").strip()
                        vs = tsize(I, p1)
                        if vs is None or mapval(c) != p1:
                            I.vague.add(f.dem)
                        else:
                            I.memcpy(st, ptr(n, 0), a[2], C(64, vs), c.ctx)
                            if f.pt[1].endswith("&&"):
                                moved(I, st, p1, a[2])
                    return (mxnode(I, st, mid, k, off), C(8, int(pos == -1)))
                I.vague.add(f.dem)
            return I.unknown(st, ("ins", c.ctx), f.ret, 8)
        return ptr(n, 0)
    if b in ("emplace", "insert", "insert_or_assign"):
        if k is None:
            k = sym("pairkey", 64)
        n = ("M", mid, k)
        I.emit(st, "map_emplace", c.ctx, m=m_, key=k)
        pair = c.inst.get("ty", "").startswith("{")
        if pos is not None and pos >= 0 and b != "insert_or_assign":
            return (mxnode(I, st, mid, k, off), C(8, 0)) if pair else None
        st.mem[n] = Obj({}, (), 0, st.tok)
        if len(f.pt) > 1:
            if "nullopt" in f.pt[1]:
                st.mem[n].f = ((0, None, 0),)
            else:
                vt, ht = mapval(c), re.sub(r" const|&", "", f.pt[1]).strip()
                if f.pt[1].endswith("&&") and (vt == ht or not vt or (vt[:16] == ht[:16] and vt.startswith(("std::unique_ptr<", "std::shared_ptr<")))) and tsize(I, ht) is not None:
                    I.memcpy(st, ptr(n, 0), a[2], C(64, tsize(I, ht)), c.ctx)
                    moved(I, st, ht, a[2])
                else:
                    I.memcpy(st, ptr(n, 0), a[2], C(64, 64), c.ctx)
        if keys is not None:
            if pos == -1:
                kk = mxput(c, keys, k)
                if kk is None:
                    I.vague.add(f.dem)
                mxset(st, m_, kk)
            return (mxnode(I, st, mid, k, off), C(8, int(pos == -1))) if pair else None
        return (ptr(n, -8 & t.mask(64)), I.fresh(st, ("ins", c.ctx), 8)) if pair else None
    if keys is not None:
        if b in ("begin", "cbegin"):
            I.emit(st, "map_" + b, c.ctx, m=m_)
            return mxnode(I, st, mid, keys[0], off) if keys else C(64, 0)
        if b in ("end", "cend"):
            return C(64, 0)
        if b == "find":
            I.emit(st, "map_find", c.ctx, m=m_)
            return mxnode(I, st, mid, k, off) if pos >= 0 else C(64, 0)
        if b == "size":
            return C(64, len(keys))
        if b == "empty":
            return C(1, int(not keys))
        if b in ("contains",):
            return C(1, int(pos >= 0))
        if b == "count":
            return C(64, int(pos >= 0))
        if b == "reserve":
            return None
        if b == "erase":
            I.emit(st, "map_erase", c.ctx, m=m_)
            if byit:
                it = a[1]
                kk = it.a[0][2] if it.op == "ptr" and it.a[0][0] == "M" else None
                if kk is None or len(f.pt) > 1:
                    I.vague.add(f.dem)
                    mxset(st, m_, None)
                    return I.unknown(st, ("map", c.ctx), f.ret, 8)
                i = keys.index(kk)
                mxset(st, m_, keys[:i] + keys[i + 1:])
                I.maperase(st, ("M", mid, kk), c)
                return mxnode(I, st, mid, keys[i + 1], off) if i + 1 < len(keys) else C(64, 0)
            if pos >= 0:
                mxset(st, m_, keys[:pos] + keys[pos + 1:])
                I.maperase(st, ("M", mid, k), c)
            return C(64, int(pos >= 0))
        if b == "clear":
            I.emit(st, "map_clear", c.ctx, m=m_)
            for x in keys:
                I.maperase(st, ("M", mid, x), c)
            mxset(st, m_, ())
            return None
        return NotImplemented
    if b in ("begin", "find", "cbegin"):
        I.emit(st, "map_" + b, c.ctx, m=a[0])
        return I.fresh(st, ("mapit", mid, b), 64)
    if b in ("end", "cend"):
        return sym(("mapend", mid), 64)
    if b in ("size",):
        return I.fresh(st, ("mapsize", c.ctx), 64)
    if b in ("empty", "contains"):
        return I.fresh(st, ("mapempty", c.ctx), 1)
    if b in ("count",):
        return I.fresh(st, ("mapcount", c.ctx), 64)
    if b in ("clear", "erase", "reserve"):
        I.emit(st, "map_" + b, c.ctx, m=a[0])
        for k in [k for k in st.mem if k[0] == "M" and k[1] == mid]:
            del st.mem[k]
        return None if f.ret == "void" else I.unknown(st, ("map", c.ctx), f.ret, 8)
    return NotImplemented


PRE.append(("std::map::", h_umap))


@pre("std::__detail::_Node_iterator")
def h_nodeit(I, st, c):
    b, a = c.f.base, c.args
    if b in ("operator*", "operator->"):
        it = I.load(st, a[0], 8, 64)
        if it.op == "ptr" and it.a[0][0] == "M":
            return it
        return ptr(("M", "it", it), 0)
    if b in ("operator++", "_M_incr"):
        it = I.load(st, a[0], 8, 64)
        if it.op == "ptr" and it.a[0][0] == "M" and len(it.a[0]) == 3 and it.a[0][1] != "it":
            _, mid, k = it.a[0]
            keys = mx(st, ptr(mid[0], mid[1] if isinstance(mid[1], T) else C(64, mid[1])))
            if keys is not None and k in keys:
                i = keys.index(k)
                nx = C(64, 0)
                if i + 1 < len(keys):
                    nx = mxnode(I, st, mid, keys[i + 1], -t.cv(it.a[1]) & t.mask(64))
                I.store(st, a[0], nx, 8)
                return a[0] if c.f.ret == "ptr" else it
        I.store(st, a[0], I.fresh(st, ("mapnext", c.ctx), 64), 8)
        return a[0] if c.f.ret == "ptr" else it
    return NotImplemented


PRE.append(("std::__detail::_Node_const_iterator", h_nodeit))
PRE.append(("std::_Rb_tree_iterator", h_nodeit))
PRE.append(("std::_Rb_tree_const_iterator", h_nodeit))


@pre("std::unordered_set::")
def h_uset(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if f.ctx not in ("std::unordered_set", "std::set"):
        return NotImplemented
    m_ = a[1] if sret(c) else a[0]
    mid = mapid(I, st, m_)
    mapacc(I, st, c, m_)
    if b in ("unordered_set", "set") or b.startswith("~"):
        if b[0] != "~":
            if f.pt and "initializer_list" in f.pt[0] and mapfill(I, st, c, m_, mid, 0):
                return None
            mxset(st, m_, () if not f.pt else None)
        return None
    keys = mx(st, m_)
    k = pos = None
    if keys is not None:
        if b in ("emplace", "insert", "find", "count", "contains", "erase") and f.pt and "iterator" not in f.pt[0] and len(f.pt) == 1 and "initializer" not in f.pt[0]:
            k = mapkey(I, st, c, 0, 2 if sret(c) else 1)
            pos = mxfind(keys, k)
        if b in ("begin", "cbegin"):
            return mxnode(I, st, mid, keys[0], 0) if keys else C(64, 0)
        if b in ("end", "cend"):
            return C(64, 0)
        if b == "size":
            return C(64, len(keys))
        if b == "empty":
            return C(1, int(not keys))
        if b == "reserve":
            return None
        if b == "clear":
            mxset(st, m_, ())
            return None
        if pos is not None:
            if b in ("emplace", "insert"):
                if pos < 0:
                    kk = mxput(c, keys, k)
                    if kk is None:
                        I.vague.add(f.dem)
                    mxset(st, m_, kk)
                n = mxnode(I, st, mid, keys[pos] if pos >= 0 else k, 0)
                return (n, C(8, int(pos < 0))) if c.inst.get("ty", "").startswith("{") else n if f.ret == "ptr" else None
            if b == "find":
                return mxnode(I, st, mid, keys[pos], 0) if pos >= 0 else C(64, 0)
            if b in ("count", "contains"):
                return C(64 if b == "count" else 1, int(pos >= 0))
            if b == "erase":
                if pos >= 0:
                    mxset(st, m_, keys[:pos] + keys[pos + 1:])
                return C(64, int(pos >= 0))
        I.vague.add(f.dem)
        mxset(st, m_, None)
    if b in ("begin", "find", "cbegin"):
        return I.fresh(st, ("mapit", mid, b), 64)
    if b in ("end", "cend"):
        return sym(("mapend", mid), 64)
    if c.f.ret == "void":
        return None
    return I.unknown(st, ("uset", c.ctx), c.f.ret, 8)


PRE.append(("std::set::", h_uset))


# ---- queues ------------------------------------------------------------------------------------
def qcell(I, st, p, k, default=None):
    b, o = split(p)
    if I is not None and I.access is not None:
        I.access(st, b, o, 24, "r", False, I.ccur)
    key = (k, t.cv(o) if o.op == "c" else o)
    ob = st.mem.get(b)
    if ob is not None and key in ob.c:
        return ob.c[key][0]
    return default if default is not None else sym((k, b, key[1], ob.ver if ob else 0), 64)


def qset(I, st, p, k, v):
    b, o = split(p)
    if I is not None and I.access is not None:
        I.access(st, b, o, 24, "w", False, I.ccur)
    st.wobj(b).c[(k, t.cv(o) if o.op == "c" else o)] = (v, 8)


def qelem(I, st, p, idx):
    qid = qcell(I, st, p, "qid")
    return ("Q", qid, idx if idx.op == "c" else "*")


@pre("std::queue::")
def h_queue(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if b == "queue":
        if f.pt and f.pt[0].startswith("std::queue<"):
            I.memcpy(st, a[0], a[1], C(64, 80), c.ctx)
            for k in ("qid", "qh", "qt"):
                qset(I, st, a[0], k, qcell(I, st, a[1], k))
            return None
        n = st.cnt.get("qid", 0)
        st.cnt["qid"] = n + 1
        qset(I, st, a[0], "qid", sym(("qid", c.ctx, n), 64))
        qset(I, st, a[0], "qh", C(64, 0))
        qset(I, st, a[0], "qt", C(64, 0))
        return None
    if b.startswith("~"):
        return None
    if b == "operator=" or b == "swap":
        for k in ("qid", "qh", "qt"):
            x, y = qcell(I, st, a[0], k), qcell(I, st, a[1], k)
            qset(I, st, a[0], k, y)
            if b == "swap":
                qset(I, st, a[1], k, x)
        return a[0] if f.ret == "ptr" else None
    h, tl = qcell(I, st, a[0], "qh"), qcell(I, st, a[0], "qt")
    if b == "empty":
        r = cmp("eq", h, tl)
        I.emit(st, "q_empty", c.ctx, q=a[0], held=held(st))
        return r
    if b == "size":
        return t.sub(tl, h)
    if b == "front":
        I.emit(st, "q_front", c.ctx, q=a[0], held=held(st))
        return ptr(qelem(I, st, a[0], h), 0)
    if b == "back":
        return ptr(qelem(I, st, a[0], t.sub(tl, C(64, 1))), 0)
    if b == "pop":
        I.emit(st, "q_pop", c.ctx, q=a[0], held=held(st))
        qset(I, st, a[0], "qh", t.add(h, C(64, 1)))
        return None
    if b in ("push", "emplace"):
        e = qelem(I, st, a[0], tl)
        I.emit(st, "q_push", c.ctx, q=a[0], held=held(st))
        st.mem[e] = Obj({}, (), (st.mem[e].ver + 1 if e in st.mem else 0), st.tok)
        x = None
        if targ(f.cxt).startswith("std::__cxx11::basic_string"):
            x, _ = argstr(I, st, c, 0, 1)
        if x is not None:
            sets(I, st, ptr(e, 0), x)
        else:
            n = tsize(I, targ(f.cxt)) or 32
            I.memcpy(st, ptr(e, 0), a[1], C(64, n), c.ctx)
        qset(I, st, a[0], "qt", t.add(tl, C(64, 1)))
        return None if f.ret == "void" else ptr(e, 0)
    return NotImplemented


# ---- shared_ptr -------------------------------------------------------------------------------
@pre("std::__shared_count::")
def h_shc(I, st, c):
    b, a = c.f.base, c.args
    if b.startswith("~") or b in ("_M_swap",):
        if b == "_M_swap":
            x, y = I.load(st, a[0], 8, 64), I.load(st, a[1], 8, 64)
            I.store(st, a[0], y, 8)
            I.store(st, a[1], x, 8)
        return None
    if b == "__shared_count" and c.f.pt and c.f.pt[0].startswith("std::__shared_count<"):
        I.store(st, a[0], I.load(st, a[1], 8, 64), 8)
        return None
    if b == "operator=":
        I.store(st, a[0], I.load(st, a[1], 8, 64), 8)
        return a[0]
    return NotImplemented


@m("std::_Sp_counted_base::_M_release", "std::_Sp_counted_base::_M_add_ref_copy", "std::_Sp_counted_base::_M_weak_release")
def h_sp(I, st, c):
    return None


@m("std::_Sp_counted_base::_M_get_use_count", "std::__shared_ptr::use_count")
def h_spuc(I, st, c):
    return I.fresh(st, ("uc", c.ctx), 64)


# ---- lists ---------------------------------------------------------------------------------------
@pre("std::__cxx11::list::")
def h_list(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    rng = None
    if b in ("list", "assign") and f.pt and "_List_" in f.pt[0] and len(a) > 2:
        rng = C(64, 0)
        if a[1].op == "ap" and a[2].op == "ap" and (a[1].a[0], a[2].a[0]) == ("lbeg", "lend") and a[1].a[1] is a[2].a[1]:
            rng = qcell(I, st, a[1].a[1], "ln")
        elif a[1] is not a[2]:
            I.vague.add(f.dem)
        qset(I, st, a[0], "ln", rng)
        return None
    if b in ("begin", "cbegin", "end", "cend") and not sret(c):
        return ap("lend" if "end" in b else "lbeg", 64, a[0])
    if b == "list":
        qset(I, st, a[0], "ln", qcell(I, st, a[1], "ln") if f.pt and "list<" in f.pt[0] else C(64, 0))
        return None
    if b.startswith("~"):
        return None
    n = qcell(I, st, a[0], "ln")
    if b == "empty":
        return cmp("eq", n, C(64, 0))
    if b == "size":
        return n
    if b in ("push_back", "emplace_back", "push_front", "emplace_front"):
        I.emit(st, "list_push", c.ctx, l=a[0], elem=a[1] if len(a) > 1 else None, front="front" in b, n=n)
        qset(I, st, a[0], "ln", t.add(n, C(64, 1)))
        if f.ret == "ptr":
            return ptr(I.alloc(st, c.ctx, "H"), 0)
        return None
    if b == "clear":
        I.emit(st, "list_clear", c.ctx, l=a[0])
        qset(I, st, a[0], "ln", C(64, 0))
        return None
    if b == "swap":
        x = qcell(I, st, a[1], "ln")
        qset(I, st, a[1], "ln", n)
        qset(I, st, a[0], "ln", x)
        return None
    if b in ("pop_back", "pop_front"):
        I.emit(st, "list_pop", c.ctx, l=a[0], front="front" in b)
        qset(I, st, a[0], "ln", t.sub(n, C(64, 1)))
        return None
    if b == "operator=":
        qset(I, st, a[0], "ln", qcell(I, st, a[1], "ln"))
        return a[0]
    if b not in ("begin", "end", "front", "back", "get_allocator", "max_size"):
        I.vague.add(f.dem)
    return None if f.ret == "void" else I.unknown(st, ("list", c.ctx), f.ret, 8)


# ---- memory ------------------------------------------------------------------------------------
@m("operator new", "operator new[]", "malloc", "calloc")
def h_new(I, st, c):
    b = I.alloc(st, c.ctx, "H")
    I.emit(st, "new", c.ctx, p=ptr(b, 0), size=c.args[0], arr="[]" in c.f.base)
    return ptr(b, 0)


@m("operator delete", "operator delete[]", "free")
def h_delete(I, st, c):
    I.emit(st, "delete", c.ctx, p=c.args[0], arr="[]" in c.f.base)
    return None


@pre("std::__new_allocator::")
def h_alloc(I, st, c):
    if c.f.base == "allocate":
        b = I.alloc(st, c.ctx, "H")
        return ptr(b, 0)
    if c.f.base == "deallocate":
        return None
    return NotImplemented


@pre("llvm.")
def h_llvm(I, st, c):
    n, a = c.f.n, c.args
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
        I.emit(st, "memcpy", c.ctx, d=a[0], src=a[1], n=a[2])
        I.memcpy(st, a[0], a[1], a[2], c.ctx)
        return None
    if n.startswith("llvm.memset"):
        return memset(I, st, c, a[0], a[1], a[2])
    if n in ("llvm.type.test", "llvm.public.type.test"):
        p = a[0]
        cls = I.meta_name(c, 1)
        if cls is not None and split(p)[0][0] == "S":
            st.vt = dict(st.vt)
            st.vt[p] = cls
        return TRUE
    if n.startswith("llvm.threadlocal.address"):
        return c.args[0]
    if n == "llvm.assume":
        I.assume(st, a[0], True)
        return None
    if n == "llvm.eh.typeid.for":
        x = c.inst["a"][0]
        return C(32, I.typeid(x[1] if x[0] == "g" else "..."))
    if n.startswith("llvm.umul.with.overflow"):
        x, y = a[0], a[1]
        r = t.mul(x, y)
        I.emit(st, "umulo", c.ctx, x=x, y=y)
        if x.op == "c" and y.op == "c":
            return (r, C(1, int(x.a[0] * y.a[0] > t.mask(x.bits))))
        return (r, FALSE)
    if n == "llvm.trap":
        I.emit(st, "trap", c.ctx)
        return [(st, "dead", None)]
    if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
        p = "ult" if n[5] == "u" else "slt"
        k = cmp(p, a[0], a[1])
        return t.sel(k, a[0], a[1]) if "min" in n else t.sel(k, a[1], a[0])
    if n.startswith("llvm.abs."):
        x = a[0]
        return t.sel(cmp("slt", x, C(x.bits, 0)), t.sub(C(x.bits, 0), x), x)
    w = n.split(".")[1]
    if w in t.FROUND and a[0].bits in (32, 64):
        return fround(w, a[0])
    if w in ("fmuladd", "fma"):
        return t.mk("fadd", a[0].bits, t.mk("fmul", a[0].bits, a[0], a[1]), a[2])
    if n.startswith(("llvm.ctpop.", "llvm.ctlz.", "llvm.cttz.", "llvm.bswap.", "llvm.bitreverse.")) and a[0].op == "c":
        x, w_ = a[0].a[0], a[0].bits
        k = n.split(".")[1]
        if k == "ctpop":
            return C(w_, bin(x).count("1"))
        if k == "ctlz":
            return C(w_, w_ - x.bit_length())
        if k == "cttz":
            return C(w_, (x & -x).bit_length() - 1 if x else w_)
        if k == "bswap":
            return C(w_, int.from_bytes(x.to_bytes(w_ // 8, "little"), "big"))
        return C(w_, int(bin(x)[2:].zfill(w_)[::-1], 2))
    if n.startswith(("llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow")) and all(x.op == "c" for x in a[:2]):
        w_ = a[0].bits
        k, g = n[6:9], n[5] == "s"
        x, y = [t.sgn(z.a[0], w_) if g else z.a[0] for z in a[:2]]
        r = x + y if k == "add" else x - y if k == "sub" else x * y
        lo, hi = (-(1 << w_ - 1), (1 << w_ - 1) - 1) if g else (0, t.mask(w_))
        return (C(w_, r), C(1, int(not lo <= r <= hi)))
    if n.startswith(("llvm.usub.sat", "llvm.uadd.sat")) and all(x.op == "c" for x in a[:2]):
        w_ = a[0].bits
        return C(w_, max(0, a[0].a[0] - a[1].a[0]) if "usub" in n else min(t.mask(w_), a[0].a[0] + a[1].a[0]))
    if n.startswith("llvm.is.constant"):
        return FALSE
    if c.f.ret == "void":
        return None
    return I.unknown(st, ("intr", c.ctx), c.f.ret, 8)


def fround(w, x):
    if x.op == "fc":
        return t.mk("fc", x.bits, float(t.FROUND[w](x.a[0])))
    return t.mk("fround", x.bits, w, x)


@m(*[x + y for x in t.FROUND for y in ("", "f")])
def h_fround(I, st, c):
    b = c.f.base
    return fround(b if b in t.FROUND else b[:-1], c.args[0])


@m("lround", "llround", "lrint", "llrint", "lroundf", "llroundf", "lrintf", "llrintf")
def h_lround(I, st, c):
    b = c.f.base.rstrip("f").lstrip("l")
    return t.mk("fptosi", 64, fround(b, c.args[0]))


@m("memcpy", "memmove")
def h_memcpy(I, st, c):
    a = c.args
    I.emit(st, "memcpy", c.ctx, d=a[0], src=a[1], n=a[2])
    I.memcpy(st, a[0], a[1], a[2], c.ctx)
    return a[0]


def memset(I, st, c, d, v, n):
    b, o = split(d)
    I.emit(st, "memset", c.ctx, at=d, n=n, val=v)
    if b[0] == "N":
        if not isc(n, 0):
            I.emit(st, "nullderef", c.ctx, what="memset")
        return None
    if I.access is not None:
        I.access(st, b, o, t.cv(n) if n.op == "c" else None, "w", False, c.ctx)
    if n.op == "c" and o.op == "c":
        I.clear_range(st, b, t.cv(o), t.cv(n))
        ob = st.wobj(b)
        ob.fill(t.cv(o), t.cv(o) + t.cv(n), t.cv(v) & 255 if v.op == "c" else None)
    else:
        ob = st.wobj(b)
        lo = t.cv(o) if o.op == "c" else 0
        for k in [k for k in ob.c if not isinstance(k, int) or k >= lo]:
            del ob.c[k]
        ob.f = (() if lo == 0 else ob.f) + ((lo, None, t.cv(v) & 255 if v.op == "c" else None),)
    return None


@m("memset")
def h_memset(I, st, c):
    memset(I, st, c, c.args[0], t.trunc(c.args[1], 8), c.args[2])
    return c.args[0]


# copies of contiguous ranges
@m("std::copy", "std::copy_n", "std::move_backward", "std::copy_backward")
def h_copy(I, st, c):
    f, a = c.f, c.args
    pt = f.pt
    if len(pt) < 3:
        return NotImplemented

    def el(ty):
        mm = re.match(r"__gnu_cxx::__normal_iterator<(.*?)(\*|\*,.*)", ty)
        if mm:
            ty = mm.group(1) + "*"
        return re.sub(r"\bconst\b", "", ty[:-1]).strip() if ty.endswith("*") else None
    src, dst = el(pt[0]), el(pt[2])
    e = tsize(I, src) if src is not None and src == dst else None
    if e is None or e > 8 or len(a) < 3:
        return NotImplemented
    if f.base == "copy":
        b1, b2 = split(a[0])[0], split(a[1])[0]
        n = t.sub(a[1], a[0])
        I.emit(st, "memcpy", c.ctx, d=a[2], src=a[0], n=n)
        I.memcpy(st, a[2], a[0], n, c.ctx)
        return t.add(a[2], n)
    if f.base == "copy_n":
        n = t.mul(a[1] if a[1].bits == 64 else t.zext(a[1], 64), C(64, e))
        I.emit(st, "memcpy", c.ctx, d=a[2], src=a[0], n=n)
        I.memcpy(st, a[2], a[0], n, c.ctx)
        return t.add(a[2], n)
    return NotImplemented


@m("std::ranges::__copy_or_move")
def h_rcopy(I, st, c):
    from .mk import targs
    f, a = c.f, c.args
    k = f.dem.find("__copy_or_move<")
    l = targs(f.dem[k:]) if k >= 0 else []
    if len(l) < 4 or len(a) != 3 or not all(x.endswith("*") for x in l[1:4]):
        return NotImplemented
    src, dst = (re.sub(r"\bconst\b", "", x[:-1]).strip() for x in (l[1], l[3]))
    e = tsize(I, src) if src == dst else None
    if e is None or e > 8:
        return NotImplemented
    n = t.sub(a[1], a[0])
    I.emit(st, "memcpy", c.ctx, d=a[2], src=a[0], n=n)
    I.memcpy(st, a[2], a[0], n, c.ctx)
    return (a[1], t.add(a[2], n))


# ---- local statics -------------------------------------------------------------------------
@m("__cxa_guard_acquire")
def h_guard(I, st, c):
    b, o = split(c.args[0])
    h = st.mem[b].c.get(0) if b in st.mem else None
    if h is not None and h[0].op == "c" and t.cv(h[0]):
        return C(32, 0)
    st.cnt["guard"] = st.cnt.get("guard", 0) + 1
    return C(32, 1)


@m("__cxa_guard_release", "__cxa_guard_abort")
def h_guardrel(I, st, c):
    b, o = split(c.args[0])
    if c.f.q.endswith("release"):
        st.wobj(b).c[0] = (C(8, 1), 1)
    st.cnt["guard"] = st.cnt.get("guard", 0) - 1
    return None


@m("__cxa_atexit", "__cxa_thread_atexit")
def h_atexit(I, st, c):
    return C(32, 0)


# ---- exceptions ------------------------------------------------------------------------------
@m("__cxa_allocate_exception")
def h_cxaalloc(I, st, c):
    b = I.alloc(st, c.ctx, "X")
    return ptr(b, 0)


@m("__cxa_free_exception")
def h_cxafree(I, st, c):
    return None


@m("__cxa_end_catch")
def h_cxaend(I, st, c):
    k = st.props.get("caught", ())
    if k:
        if len(k) == 1:
            del st.props["caught"]
        else:
            st.props["caught"] = k[:-1]
    return None


@m("__cxa_begin_catch")
def h_cxabegin(I, st, c):
    st.props["caught"] = st.props.get("caught", ()) + (c.args[0],)
    return c.args[0]


@m("__cxa_throw")
def h_throw(I, st, c):
    ti = c.inst["a"][1]
    I.emit(st, "throw", c.ctx, ti=ti[1] if ti[0] == "g" else None)
    st.cnt["thrown"] = st.cnt.get("thrown", 0)
    if ti[0] == "g":
        I.exc_ti[c.args[0]] = ti[1]
    return [(st, "exc", (ti[1] if ti[0] == "g" else None, c.args[0]))]


@m("__cxa_rethrow")
def h_rethrow(I, st, c):
    k = st.props.get("caught", ())
    if k and k[-1] in I.exc_ti:
        return [(st, "exc", (I.exc_ti[k[-1]], k[-1]))]
    return [(st, "exc", ("_ZTISt9exception", sym("rethrown", 64)))]


@m("std::__throw_bad_alloc", "std::__throw_bad_array_new_length", "std::__throw_bad_function_call", "std::__throw_length_error", "std::__throw_logic_error",
   "std::__throw_out_of_range", "std::__throw_out_of_range_fmt", "std::__throw_system_error", "std::__throw_bad_optional_access", "std::__throw_invalid_argument",
   "std::__throw_runtime_error", "std::__throw_bad_cast")
def h_stdthrow(I, st, c):
    n = c.f.base.replace("__throw_", "").replace("_fmt", "")
    ti = "_ZTISt%d%s" % (len(n), n)
    b = I.alloc(st, c.ctx, "X")
    I.emit(st, "throw", c.ctx, ti=ti)
    I.exc_ti[ptr(b, 0)] = ti
    return [(st, "exc", (ti, ptr(b, 0)))]


@m("__clang_call_terminate", "std::terminate", "abort", "exit", "_exit", "std::abort")
def h_term(I, st, c):
    I.emit(st, "terminate", c.ctx)
    I.fatal.append(st)
    return [(st, "dead", None)]


@m("__assert_fail", "__cxa_pure_virtual", "std::__glibcxx_assert_fail")
def h_assert(I, st, c):
    I.emit(st, "abort", c.ctx)
    I.fatal.append(st)
    return [(st, "dead", None)]


@m("std::runtime_error::runtime_error", "std::invalid_argument::invalid_argument", "std::logic_error::logic_error", "std::out_of_range::out_of_range",
   "std::domain_error::domain_error", "std::length_error::length_error")
def h_excctor(I, st, c):
    x, _ = argstr(I, st, c, 0, 1)
    sets(I, st, c.args[0], x if x is not None else gets(I, st, c.args[1]), 16)
    return None


@m("std::runtime_error::~runtime_error", "std::invalid_argument::~invalid_argument", "std::exception::~exception", "std::logic_error::~logic_error")
def h_excdtor(I, st, c):
    return None


@m("std::exception::what", "std::runtime_error::what", "std::logic_error::what", "std::filesystem::__cxx11::filesystem_error::what")
def h_what(I, st, c):
    b, o = split(c.args[0])
    ob = st.mem.get(b)
    if ob is not None and o.op == "c" and ("s", t.cv(o)) in ob.c:
        return strptr(ob.c[("s", t.cv(o))][0])
    return strptr(ap("what", 0, c.args[0]))


# ---- OS ----------------------------------------------------------------------------------------
def oscall(name):
    def h(I, st, c):
        r = I.fresh(st, (name, c.ctx), I.tyinfo(c.f.ret, 8)) if c.f.ret != "void" else None
        I.emit(st, name, c.ctx, args=tuple(c.args), r=r, fmt=chars(I, st, c.args[0]) if name in ("open", "creat", "unlink", "remove", "rename", "mkdir", "truncate", "fopen", "open64") else None, held=held(st))
        if I.on_os:
            rr = I.on_os(I, st, c, name, r)
            if rr is not None:
                return rr
        return r
    return h


for _n in ("open", "open64", "creat", "close", "pwritev", "pwritev2", "pwrite", "writev", "write", "lseek", "ftruncate", "fsync", "fdatasync", "pwrite64", "pwritev64",
           "unlink", "remove", "rename", "mkdir", "truncate", "fopen", "fclose", "fwrite", "fallocate", "posix_fallocate",
           "blosc_compress_ctx", "blosc_compress", "sysconf", "syscall"):
    Q[_n] = oscall(_n)


@m("__errno_location")
def h_errno(I, st, c):
    return ptr(("G", "errno"), 0)


@m("strerror")
def h_strerror(I, st, c):
    return sym(("strerror",), 64)


CT = {"isspace": lambda x: chr(x) in " \t\n\v\f\r", "isdigit": lambda x: 48 <= x < 58, "isalpha": lambda x: 65 <= x < 91 or 97 <= x < 123,
      "isalnum": lambda x: 48 <= x < 58 or 65 <= x < 91 or 97 <= x < 123, "isupper": lambda x: 65 <= x < 91, "islower": lambda x: 97 <= x < 123,
      "isblank": lambda x: x in (9, 32), "iscntrl": lambda x: x < 32 or x == 127, "isprint": lambda x: 32 <= x < 127,
      "ispunct": lambda x: 33 <= x < 127 and not (48 <= x < 58 or 65 <= x < 91 or 97 <= x < 123), "isgraph": lambda x: 33 <= x < 127,
      "isxdigit": lambda x: chr(x) in "0123456789abcdefABCDEF"}


@m(*[y + x for x in CT for y in ("", "std::")])
def h_ctype(I, st, c):
    n, x = c.f.base, c.args[0]
    if len(c.args) != 1 or c.f.blocks:
        return NotImplemented
    if x.op == "c" and t.sgn(x.a[0], x.bits) in range(-1, 128):
        v = t.sgn(x.a[0], x.bits)
        return C(32, int(v >= 0 and CT[n](v)))
    return ap(n, 32, x)


@m("toupper", "tolower")
def h_toupper(I, st, c):
    x = c.args[0]
    if x.op == "c" and 0 <= t.sgn(x.a[0], x.bits) < 128:
        return C(32, ord(getattr(chr(t.cv(x)), c.f.n[2:])()))
    return ap(c.f.n, 32, x)


@m("std::_V2::system_category", "std::_V2::generic_category", "std::iostream_category", "std::future_category")
def h_cat(I, st, c):
    return ptr(("G", "category " + c.f.base), 0)


@m("pow", "std::pow")
def h_pow(I, st, c):
    if c.f.base == "pow" and c.f.blocks:
        if all(x.op == "c" for x in c.args):
            return t.mk("fc", 64, float(t.sgn(c.args[0].a[0], c.args[0].bits)) ** t.sgn(c.args[1].a[0], c.args[1].bits))
        return ap("pow", 64, *c.args)
    if all(x.op == "fc" for x in c.args):
        return t.mk("fc", 64, c.args[0].a[0] ** c.args[1].a[0])
    return ap("pow", 64, *c.args)


@m("localtime_r", "std::put_time", "std::chrono::_V2::system_clock::now", "std::locale::locale", "std::locale::~locale")
def h_time(I, st, c):
    return None if c.f.ret == "void" else I.unknown(st, ("time", c.ctx), c.f.ret, 8)


@m("__dynamic_cast")
def h_dyncast(I, st, c):
    a = c.args
    if isc(a[0], 0):
        return C(64, 0)
    want = c.inst["a"][2]
    vp = I.load(st, a[0], 8, 64)
    b, off = split(vp)
    if want[0] == "g" and b[0] == "G" and off.op == "c":
        ti = I.gload(b[1], t.cv(off) - 8, 8)
        top = I.gload(b[1], t.cv(off) - 16, 8)
        if ti is not None and ti.op == "ptr" and ti.a[0][0] == "G" and top is not None and top.op == "c" and t.cv(top) == 0:
            from .exc import Throws
            if I.p.__dict__.get("_hier") is None:
                I.p.__dict__["_hier"] = Throws.__new__(Throws)
                I.p.__dict__["_hier"].p, I.p.__dict__["_hier"]._sub = I.p, {}
            return a[0] if I.p.__dict__["_hier"].sub(ti.a[0][1], want[1]) else C(64, 0)
    return NotImplemented


# ---- nlohmann::json, minio ---------------------------------------------------------------------
@pre("nlohmann::")
def h_json(I, st, c):
    if I.json is not None:
        r = I.json(I, st, c)
        if r is not NotImplemented:
            return r
    f, a = c.f, c.args
    if sret(c):
        if c.f.base == "dump":
            sets(I, st, a[0], ap("json", 0, I.fresh(st, ("dump", c.ctx), 64)))
        else:
            I.havoc(st, a[0])
        return None
    if f.ret == "void":
        if a and f.base == "basic_json":
            I.havoc(st, a[0])
        return None
    if f.ret == "ptr" and f.base == "operator=":
        return a[0]
    return I.unknown(st, ("json", c.ctx), f.ret, 8)


@pre("minio::")
def h_minio(I, st, c):
    if I.minio is not None:
        r = I.minio(I, st, c)
        if r is not NotImplemented:
            return r
    f, a = c.f, c.args
    if f.blocks and (f.base.startswith("~") or f.base == f.ctx.split("::")[-1]):
        return None if f.base.startswith("~") else NotImplemented
    return NotImplemented if f.blocks else I.opaque_call(st, c, f.dem, None)
