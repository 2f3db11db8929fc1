"""Exact abstract semantics of the JSON library: a value is an immutable term tree kept in the cell of its object.

tree nodes: ap("j.null"), ap("j.bool", x), ap("j.num", x), ap("j.str", s), ap("j.arr", item...), ap("j.obj", key, item, ...),
ap("j.ref", pointer) for an element that was handed out by reference, ap("j.parsed", text)."""
import json
import re
from . import terms as t, models
from .terms import C, T, ap, ptr, split, lit
from .interp import Obj
from .models import sret, sets, gets, chars, argstr

NUL = ap("j.null", 0)


TYPE_ERROR = "_ZTIN8nlohmann16json_abi_v3_11_36detail10type_errorE"
PARSE_ERROR = "_ZTIN8nlohmann16json_abi_v3_11_36detail11parse_errorE"


def discarded(s):
    """is the text no JSON document"""
    if s.op != "str":
        return ap("jdiscarded", 1, s)
    x = re.sub(r"/\*.*?\*/|//[^\n]*", " ", s.a[0], flags=re.S) if '"' not in s.a[0] else s.a[0]
    try:
        json.loads(x)
        return C(1, 0)
    except ValueError:
        return C(1, 1)


def not_text(v):
    """does a literal in the tree hold bytes that are not UTF-8"""
    if v.op == "str":
        try:
            v.a[0].encode("utf8")
            return False
        except UnicodeEncodeError:
            return True
    return kind(v) in ("str", "arr", "obj") and any(not_text(x) for x in items(v) if isinstance(x, T))


class Vague(Exception):
    pass


def kind(x):
    return x.a[0][2:] if x.op == "ap" and isinstance(x.a[0], str) and x.a[0].startswith("j.") else None


def items(x):
    return list(x.a[1:])


def cell(p):
    b, o = split(p)
    if o.op != "c":
        raise Vague("place")
    return b, ("j", t.cv(o))


def raw(I, st, p):
    b, k = cell(p)
    o = st.mem.get(b)
    h = o.c.get(k) if o is not None else None
    if h is None:
        raise Vague("value")
    return h[0]


def put(I, st, p, v):
    b, k = cell(p)
    st.wobj(b).c[k] = (v, 16)


def tree(I, st, x):
    k = kind(x)
    if k == "ref":
        return tree(I, st, raw(I, st, x.a[1]))
    if k in ("arr", "obj"):
        return ap("j." + k, 0, *[tree(I, st, y) if kind(y) else y for y in items(x)])
    return x


def get(I, st, p):
    return tree(I, st, raw(I, st, p))


def ref(I, st, v):
    n = st.cnt.get("jnode", 0)
    st.cnt["jnode"] = n + 1
    b = ("H", "jnode", n)
    st.mem[b] = Obj({}, (), 0, st.tok)
    put(I, st, ptr(b, 0), v)
    return ap("j.ref", 0, ptr(b, 0))


def from_list(xs, deduce=True, want="array"):
    """nlohmann's rule: a list of [string, value] pairs is an object"""
    isobj = all(kind(x) == "arr" and len(items(x)) == 2 and kind(items(x)[0]) == "str" for x in xs)
    if not deduce:
        if want == "array":
            isobj = False
        elif want == "object" and not isobj:
            raise Vague("object from a list that is none")
    if isobj:
        d = []
        for x in xs:
            k, v = items(x)
            if not any(y is k.a[1] for y, _ in d):
                d.append((k.a[1], v))
        return ap("j.obj", 0, *[z for y in d for z in y])
    return ap("j.arr", 0, *xs)


def ilist(I, st, a, k):
    """initializer_list<json_ref> in registers a[k], a[k+1]"""
    if a[k + 1].op != "c":
        raise Vague("list length")
    out = []
    if t.cv(a[k + 1]) == 0:
        return out
    b, o = split(a[k])
    for i in range(t.cv(a[k + 1])):
        out.append(get(I, st, ptr(b, t.add(o, C(64, 24 * i)))))
    return out


PRIM = {"unsigned char": (1, 0), "signed char": (1, 1), "char": (1, 1), "short": (2, 1), "unsigned short": (2, 0), "int": (4, 1), "unsigned int": (4, 0),
        "long": (8, 1), "unsigned long": (8, 0), "long long": (8, 1), "unsigned long long": (8, 0), "double": (8, None), "float": (4, None)}


def bare(ty):
    from .mk import strip
    return strip(ty)


def num(I, st, p, ty):
    sz, sg = PRIM[ty]
    v = I.load(st, p, sz, sz * 8)
    if sg is not None and sz < 8:
        v = t.sext(v, 64) if sg else t.zext(v, 64)
    return ap("j.num", 0, v)


def value(I, st, c, i, k):
    """JSON value of parameter i whose register is k"""
    ty, a = c.f.pt[i], c.args
    b = bare(ty)
    if b == "std::nullptr_t" or b == "decltype(nullptr)":
        return NUL
    if b.startswith("std::initializer_list<"):
        return from_list(ilist(I, st, a, k))
    if "basic_json<" in b.split("(")[0] and not b.startswith("std::vector<"):
        v = get(I, st, a[k])
        if ty.endswith("&&"):
            put(I, st, a[k], NUL)
        return v
    isref = ty.rstrip().endswith("&") or "(&)" in ty
    if b == "bool":
        return ap("j.bool", 0, I.load(st, a[k], 1, 8) if isref else a[k])
    if b in PRIM:
        if not isref:
            return ap("j.num", 0, a[k])
        return num(I, st, a[k], b)
    if b.startswith("std::vector<") or b.startswith("std::array<"):
        el = bare(models.targ(b))
        if el not in PRIM:
            if "basic_string<" in el:
                raise Vague("vector of strings")
            raise Vague("vector of " + el)
        if b.startswith("std::array<"):
            raise Vague("array")
        lo, hi, _ = models.vget(I, st, a[k])
        sz = PRIM[el][0]
        n = t.sub(hi, lo) if lo.op == "ptr" or hi.op == "ptr" else C(64, 0) if lo is hi else None
        if n is None or n.op != "c":
            raise Vague("vector length")
        if not t.cv(n):
            return ap("j.arr", 0)
        bb, oo = split(lo)
        return ap("j.arr", 0, *[num(I, st, ptr(bb, t.add(oo, C(64, j * sz))), el) for j in range(t.cv(n) // sz)])
    s, _ = argstr(I, st, c, i, k)
    if s is not None:
        if ty.endswith("&&") and "basic_string<" in ty and "view" not in ty:
            sets(I, st, a[k], lit(""))
        return ap("j.str", 0, s)
    raise Vague("value of " + b)


def key_at(d, k):
    for j in range(0, len(d), 2):
        e = models.streq(d[j], k)
        if e.op != "c":
            raise Vague("key")
        if t.cv(e):
            return j
    return None


def child(I, st, p, fn):
    """the array/object at p as a mutable node list, following references"""
    v = raw(I, st, p)
    while kind(v) == "ref":
        p = v.a[1]
        v = raw(I, st, p)
    return p, v


def h(I, st, c):
    try:
        return _h(I, st, c)
    except Vague as e:
        I.vague.add("json: %s at %s" % (e, c.f.base))
        return NotImplemented


def _h(I, st, c):
    f, a, b = c.f, c.args, c.f.base
    if b.startswith("~"):
        return None
    if b in ("initializer_list", "what"):
        return NotImplemented
    if sret(c):
        if b == "dump":
            v = get(I, st, a[1])
            if a[-1].op == "c" and t.cv(a[-1]) == 0 and f.pt and f.pt[-1].endswith("error_handler_t") and not_text(v):
                x = I.alloc(st, c.ctx, "X")
                I.emit(st, "throw", c.ctx, ti=TYPE_ERROR)
                return [(st, "exc", (TYPE_ERROR, ptr(x, 0)))]
            sets(I, st, a[0], ap("jdump", 0, v))
            return None
        if b in ("array", "object"):
            put(I, st, a[0], from_list(ilist(I, st, a, 1), False, b))
            return None
        if b == "parse":
            s, _ = argstr(I, st, c, 0, 1)
            if s is None:
                raise Vague("parse")
            put(I, st, a[0], ap("j.parsed", 0, s))
            if f.pt[-2:] == ["bool", "bool"] and a[-2].op == "c" and t.cv(a[-2]):
                bad = discarded(s)
                outs = []
                if not (bad.op == "c" and not t.cv(bad)):
                    n = st.fork()
                    if I.assume(n, bad, True):
                        x = I.alloc(n, c.ctx, "X")
                        I.emit(n, "throw", c.ctx, ti=PARSE_ERROR)
                        outs.append((n, "exc", (PARSE_ERROR, ptr(x, 0))))
                if I.assume(st, bad, False):
                    outs.append((st, "ret", None))
                return outs
            return None
        raise Vague("result")
    if b in ("basic_json", "json_ref"):
        if not f.pt:
            put(I, st, a[0], NUL)
            return None
        if f.pt[0].startswith("std::initializer_list<") and b == "basic_json":
            ded, want = True, "array"
            if len(a) > 3:
                if a[3].op != "c" or a[4].op != "c":
                    raise Vague("list")
                ded = bool(t.cv(a[3]) & 1)
                want = {1: "object", 2: "array"}.get(t.cv(a[4]), "array")
            put(I, st, a[0], from_list(ilist(I, st, a, 1), ded, want))
            return None
        if f.pt[0].endswith("value_t"):
            if a[1].op != "c" or t.cv(a[1]) > 2:
                raise Vague("type")
            put(I, st, a[0], (NUL, ap("j.obj", 0), ap("j.arr", 0))[t.cv(a[1])])
            return None
        put(I, st, a[0], value(I, st, c, 0, 1))
        return None
    if b == "operator=":
        v = get(I, st, a[1])
        p, _ = child(I, st, a[0], None)
        put(I, st, p, v)
        return a[0]
    if b == "operator[]":
        p, v = child(I, st, a[0], None)
        if f.pt[0] == "unsigned long":
            if kind(v) == "null":
                v = ap("j.arr", 0)
            if kind(v) != "arr" or a[1].op != "c":
                raise Vague("index")
            d, n = items(v), t.cv(a[1])
            while len(d) <= n:
                d.append(NUL)
            if kind(d[n]) != "ref":
                d[n] = ref(I, st, d[n])
            put(I, st, p, ap("j.arr", 0, *d))
            return d[n].a[1]
        k, _ = argstr(I, st, c, 0, 1)
        if k is None:
            raise Vague("key")
        if kind(v) == "null":
            v = ap("j.obj", 0)
        if kind(v) != "obj":
            raise Vague("member")
        d = items(v)
        j = key_at(d, k)
        if j is None:
            j = len(d)
            d += [k, NUL]
        if kind(d[j + 1]) != "ref":
            d[j + 1] = ref(I, st, d[j + 1])
        put(I, st, p, ap("j.obj", 0, *d))
        return d[j + 1].a[1]
    if b in ("push_back", "operator+=", "emplace_back"):
        p, v = child(I, st, a[0], None)
        if not f.pt:
            x = NUL
        elif f.pt[0].startswith("std::initializer_list<"):
            xs = ilist(I, st, a, 1)
            if kind(v) == "obj" and len(xs) == 2 and kind(xs[0]) == "str":
                d = items(v)
                if key_at(d, xs[0].a[1]) is None:
                    d += [xs[0].a[1], xs[1]]
                put(I, st, p, ap("j.obj", 0, *d))
                return a[0] if f.ret == "ptr" else None
            x = from_list(xs)
        else:
            x = value(I, st, c, 0, 1)
        if kind(v) == "null":
            v = ap("j.arr", 0)
        if kind(v) != "arr":
            raise Vague("push")
        put(I, st, p, ap("j.arr", 0, *(items(v) + [x])))
        return a[0] if f.ret == "ptr" else None
    if b in ("size", "empty"):
        v = get(I, st, a[0])
        n = {"null": 0, "arr": len(items(v)), "obj": len(items(v)) // 2}.get(kind(v), 1)
        return C(64, n) if b == "size" else C(1, int(n == 0))
    if b == "is_discarded":
        v = get(I, st, a[0])
        return discarded(v.a[1]) if kind(v) == "parsed" else C(1, 0)
    if b.startswith("is_"):
        v = kind(get(I, st, a[0]))
        r = {"is_null": v == "null", "is_object": v == "obj", "is_array": v == "arr", "is_string": v == "str", "is_number": v == "num", "is_boolean": v == "bool"}.get(b)
        if r is None or v == "parsed":
            raise Vague(b)
        return C(1, int(r))
    raise Vague(b)


def install(I):
    I.json = h
    return I


# ---- reading trees ------------------------------------------------------------------------------
def py(v):
    """tree -> python dict / list / T / None"""
    k = kind(v)
    if k == "null":
        return None
    if k == "obj":
        d = items(v)
        return {d[j].a[0] if d[j].op == "str" else d[j]: py(d[j + 1]) for j in range(0, len(d), 2)}
    if k == "arr":
        return [py(x) for x in items(v)]
    if k == "str":
        return v.a[1].a[0] if v.a[1].op == "str" else v.a[1]
    if k in ("num", "bool"):
        x = v.a[1]
        if x.op == "c":
            return bool(t.cv(x)) if k == "bool" else t.sgn(t.cv(x), x.bits) if x.bits == 64 else t.cv(x)
        if x.op == "fc":
            return x.a[0]
        return x
    return v


def dumped(s):
    """the tree a string term is the text of, or None"""
    return s.a[1] if s.op == "ap" and s.a[0] == "jdump" else None
