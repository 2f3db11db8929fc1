"""Shared by the checks: building abstract inputs, evaluating extracted terms."""
from . import terms as t
from .terms import C, sym, ptr, T
from .interp import State, Obj, Budget, Unsupported
from .ir import Anchor
from . import models
from .terms import ap


def heap(st, name):
    b = ("H", name, 0)
    st.mem[b] = Obj({}, (), 0, st.tok)
    return b


def put(st, base, off, v, size=None):
    st.wobj(base).c[off] = (v, size or max(1, v.bits // 8))


def field(p, rec, name=None, ty=None):
    """(offset, size, type) of a field given by name, or by a type test"""
    c = [(n, o, sz, tp) for n, o, sz, tp in p.fields(rec) if (name is None or n == name) and (ty is None or ty(tp))]
    if len(c) != 1:
        raise Anchor("%d fields of %s match" % (len(c), rec))
    return c[0][1], c[0][2], c[0][3]


def dtfield(p):
    c = [(o, sz, tp) for n, o, sz, tp in p.fields("ArrayDimensions") if "vector" not in tp and sz == 4]
    if len(c) != 1:
        raise Anchor("ArrayDimensions: element type field")
    return c[0]


class Dims:
    """An ArrayDimensions object with a fixed number of dimensions and symbolic sizes."""

    def __init__(s, p, st, nd, name="dims", dtype=None, names=None):
        s.p, s.nd = p, nd
        s.a = [sym("%s.array%d" % (name, i), 32) for i in range(nd)]
        s.c = [sym("%s.chunk%d" % (name, i), 32) for i in range(nd)]
        s.s = [sym("%s.shard%d" % (name, i), 32) for i in range(nd)]
        s.ty = [sym("%s.type%d" % (name, i), 32) for i in range(nd)]
        s.names = [sym("%s.name%d" % (name, i), 0) for i in range(nd)]
        s.dtype = dtype if dtype is not None else sym(name + ".dtype", 32)
        rec = p.records.get("ZarrDimension")
        if not rec:
            raise Anchor("no record ZarrDimension")
        sz = rec["size"]
        fo = {n: o for n, o, _, _ in p.fields("ZarrDimension")}
        for k in ("name", "type", "array_size_px", "chunk_size_px", "shard_size_chunks"):
            if k not in fo:
                raise Anchor("ZarrDimension." + k)
        v = heap(st, name + ".v")
        s.vec = v
        s.sz = sz
        for i in range(nd):
            put(st, v, i * sz + fo["array_size_px"], s.a[i])
            put(st, v, i * sz + fo["chunk_size_px"], s.c[i])
            put(st, v, i * sz + fo["shard_size_chunks"], s.s[i])
            put(st, v, i * sz + fo["type"], s.ty[i])
            st.wobj(v).c[("s", i * sz + fo["name"])] = (s.names[i], 32)
        o = heap(st, name)
        s.base = o
        off, _, _ = field(p, "ArrayDimensions", ty=lambda x: "vector<" in x)
        s.vecoff = off
        put(st, o, off, ptr(v, 0))
        put(st, o, off + 8, ptr(v, nd * sz))
        put(st, o, off + 16, ptr(v, nd * sz))
        off, _, _ = dtfield(p)
        put(st, o, off, s.dtype)
        s.this = ptr(o, 0)

    def elem(s, i):
        return ptr(s.vec, i * s.sz)


DTYPE_BYTES = None


def sample(rng, lo, hi):
    """boundary-biased value"""
    k = rng.random()
    if k < 0.35:
        return min(hi, lo + rng.randrange(0, 7))
    if k < 0.55:
        return min(hi, max(lo, rng.randrange(1, 70)))
    if k < 0.65:
        return max(lo, hi - rng.randrange(0, 3))
    if k < 0.8:
        e = rng.randrange(0, max(1, hi.bit_length()))
        return min(hi, max(lo, (1 << e) + rng.randrange(-1, 2)))
    return rng.randrange(lo, hi + 1)


def consistent(st, env, cache):
    """True/False/None: does the valuation satisfy every fact of the path"""
    unk = False
    for c, v in st.facts.items():
        try:
            if bool(t.evalt(c, env, cache)) != v:
                return False
        except (KeyError, ZeroDivisionError):
            unk = True
    return None if unk else True


def at(outs, env):
    """outcomes possible under a valuation: [(kind, value, state)]; value int | typeinfo | None"""
    res = []
    cache = {}
    for st, kind, v in outs:
        if kind == "dead":
            continue
        k = consistent(st, env, cache)
        if k is False:
            continue
        if kind == "exc":
            res.append(("exc", v[0], st, k))
            continue
        if v is None:
            res.append(("ret", None, st, k))
            continue
        try:
            res.append(("ret", t.evalt(v, env, cache) if isinstance(v, T) else v, st, k))
        except ZeroDivisionError:
            res.append(("trap", None, st, k))
        except KeyError as e:
            res.append(("ret?", str(e)[:80], st, k))
    return res


def law(chk, rule, f, outs, dom, ref, n, what, show=lambda e: e):
    """Random interpretation: the term(s) extracted from f against the reference law.
    dom() -> (env, ctx); ref(ctx) -> int or ('exc',). Returns False on a mismatch."""
    und = 0
    hits = set()
    for _ in range(n):
        d = dom()
        if d is None:
            continue
        env, cx = d
        want = ref(cx)
        got = at(outs, env)
        if not got or any(k is None for *_, k in got) or any(g[0] == "ret?" for g in got):
            und += 1
            continue
        for kind, v, st, _k in got:
            hits.add(id(st))
            if want == ("exc",):
                if kind != "exc":
                    chk.bad(rule, site(f), "%s: accepted %s (gives %s), must be refused" % (what, show(cx), v), key=f.q)
                    return False
            elif kind != "ret" or v != want:
                chk.bad(rule, site(f), "%s: for %s the code gives %s, the law gives %s" % (what, show(cx), v if kind == "ret" else kind, want), key=f.q)
                return False
    if und > n // 2:
        chk.undec(rule, "%s: %d of %d valuations not evaluable" % (f.q, und, n))
        return None
    chk.ok(rule, "%s: %s (%d valuations, %d paths; term %s)" % (f.q, what, n - und, len(hits), next((str(o[2])[:160] for o in outs if o[1] == "ret"), "")))
    return True


def site(f, line=None):
    return "%s:%s (%s)" % (f.file, line or f.line, f.q)


def fns(p, q, pred=None):
    c = [f for f in p.find(q) if pred is None or pred(f)]
    if not c:
        raise Anchor("no function " + q)
    return c


def quiet_log(I, empty=False):
    """Logger::log as an opaque source of messages ('' when the level is filtered out)"""
    def h(J, st, c):
        lv = [x for x in c.args if isinstance(x, T) and x.op == "c"]
        J.emit(st, "log", c.ctx, level=t.cv(lv[0]) if lv else None)
        k = models.sret(c)
        if k:
            x = t.lit("") if empty else ap("logmsg", 0, t.lit(str(c.ctx)))
            models.sets(J, st, c.args[0], x)
        return None
    I.over["Logger::log"] = h
    return I


def allow(st, I, cond, val=True):
    """fork in which a 1-bit term has this value, or None"""
    if not isinstance(cond, T):
        return st if bool(cond) == val else None
    if cond.op == "c":
        return st if bool(cond.a[0]) == val else None
    n = st.fork()
    return n if I.assume(n, cond, val) else None


def ret_true(I, outs):
    """[(state, value)] of the outcomes that can return true, with that assumed"""
    r = []
    for st, k, v in outs:
        if k != "ret":
            continue
        b = v
        if isinstance(v, T) and v.bits > 1:
            b = t.trunc(v, 1)
        n = allow(st, I, b)
        if n is not None:
            r.append((n, v))
    return r


def span_vec(st, name, n, const=True):
    """std::vector<std::span<..>> with n symbolic spans"""
    v = heap(st, name + ".v")
    o = heap(st, name)
    el = []
    for i in range(n):
        p, l = sym("%s.data%d" % (name, i), 64), sym("%s.size%d" % (name, i), 64)
        put(st, v, 16 * i, p)
        put(st, v, 16 * i + 8, l)
        el.append((p, l))
    put(st, o, 0, ptr(v, 0))
    put(st, o, 8, ptr(v, 16 * n))
    put(st, o, 16, ptr(v, 16 * n))
    return ptr(o, 0), el
