"""C02, C03, C04: what stream creation does with its settings."""
from ..interp import State, Obj, Unsupported, Budget
from ..ir import Anchor
from .. import terms as t, models
from ..terms import sym, ptr, C, T
from ..lib import *
from ..check import path
from ..stream import Settings, Created, light, dimvals, offs, SET, S3, COMP, DIM, POOLC


def entry(p, name):
    f = p.fns.get(name)
    if f is None or not f.blocks:
        raise Anchor(name)
    return f


BASE = {"store_path": "a/b.zarr", "version": 2, "data_type": 1, "multiscale": 0, "custom_metadata": None,
        "comp.compressor": 1, "comp.codec": 1, "comp.level": 3, "comp.shuffle": 1,
        "s3.endpoint": "http://e", "s3.bucket_name": "bkt", "s3.access_key_id": "k", "s3.secret_access_key": "s"}


def base(nd, types=None):
    v = dict(BASE)
    ty = types or [2] + [1] * (nd - 3) + [0, 0]
    v.update(dimvals([(0, 4, 2)] + [(5, 2, 3)] * (nd - 3) + [(6, 3, 2), (8, 4, 1)], types=ty))
    return v


class Try:
    """stream creation up to the point where it starts acting on the settings (its thread pool)"""

    def __init__(s, chk, nd=3, s3=False, comp=False, val=None, null=False, log_empty=False):
        p = chk.p
        I = s.I = light(quiet_log(chk.interp(), log_empty))
        from .. import jsonm
        jsonm.install(I)
        I.fs_throws, I.fs_ok = False, True
        st = State()
        S = s.S = Settings(p, st, ndims=nd, s3=s3, comp=comp, val=val, valid=False)
        got = s.got = []

        def ctor(J, s2, c):
            got.append(s2.fork())
            return [(s2, "dead", None)]
        I.over[POOLC] = ctor
        f = entry(p, "ZarrStream_create")
        s.outs = [o for o in I.run(st, f, [C(64, 0) if null else ptr(S.b, 0)])]
        s.all = s.got + [o[0] for o in s.outs if o[1] != "dead"]
        s.back = [o for o in s.outs if o[1] != "dead"]

    def syms(s):
        return s.S.syms


def effects(st):
    r = []
    for e in st.events():
        if e[0] == "fs" and e.mut or e[0] in ("fopen", "sink_new", "thread_start", "os_open", "os_write") or e[0].startswith("s3_") or e[0] == "submit":
            r.append(e)
    return r


# ---- C04 -----------------------------------------------------------------------------------------
def lawful(e, nd, comp, s3):
    """the documented ranges; e: field -> value"""
    if not (e["version"] in (2, 3) and e["data_type"] < 10):
        return False
    if comp:
        if not (e["comp.compressor"] < 2 and e["comp.codec"] < 3 and e["comp.level"] <= 9 and e["comp.shuffle"] <= 2):
            return False
        if e["comp.compressor"] and not e["comp.codec"]:
            return False
    for i in range(nd):
        g = lambda k: e["dim%d.%s" % (i, k)]
        if g("type") >= 4 or i >= nd - 2 and g("type"):
            return False
        if i and not g("array_size_px") or not g("chunk_size_px"):
            return False
        if e["version"] == 3 and not g("shard_size_chunks"):
            return False
    return True


VERS = "ZarrVersion_2"


def ranges(chk):
    """the enumerations the law counts on are the ones of the header"""
    p = chk.p
    for first, n in (("ZarrDataType_uint8", 10), ("ZarrCompressor_None", 2), ("ZarrCompressionCodec_None", 3), ("ZarrDimensionType_Space", 4)):
        v = sorted(x for k, x in p.enum(first) if not k.endswith("Count"))
        if v != list(range(n)):
            raise Anchor("enumeration of %s: %s" % (first, v))


def scalars(nd, comp):
    r = [("version", 32), ("data_type", 32)]
    if comp:
        r += [("comp.compressor", 32), ("comp.codec", 32), ("comp.level", 8), ("comp.shuffle", 8)]
    for i in range(nd):
        r += [("dim%d.type" % i, 32), ("dim%d.array_size_px" % i, 32), ("dim%d.chunk_size_px" % i, 32), ("dim%d.shard_size_chunks" % i, 32)]
    return r


EDGE32 = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 63, 64, 100, 127, 128, 255, 256, 257, 258, 259, 32767, 32768, 65535, 65536, 65537, (1 << 24) + 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 2, (1 << 32) - 1)


def valuations(rng, nd, comp, n):
    sc = scalars(nd, comp)
    good = lambda: dict([(k, 1 + rng.randrange(1 << rng.choice((3, 8, 16, 32))) % ((1 << 32) - 1)) for k, _ in sc] + [("version", rng.choice((2, 3))), ("data_type", rng.randrange(10))] +
                        ([("comp.compressor", rng.randrange(2)), ("comp.codec", rng.choice((1, 2))), ("comp.level", rng.randrange(10)), ("comp.shuffle", rng.randrange(3))] if comp else []) +
                        [("dim%d.type" % i, 0 if i >= nd - 2 else rng.randrange(4)) for i in range(nd)] + [("dim0.array_size_px", rng.choice((0, 0, 7)))])
    for k, bits in sc:
        for v in (range(256) if bits == 8 else EDGE32):
            for ver in (2, 3):
                e = good()
                e["version"] = ver
                e[k] = v
                yield e
        for v in (0, 1, 2, 3):        # pairs with the fields that decide about it
            e = good()
            e[k] = v
            k2, b2 = rng.choice(sc)
            e[k2] = rng.choice(EDGE32) & ((1 << b2) - 1)
            yield e
    for _ in range(n):
        e = good()
        for k, bits in rng.sample(sc, rng.randrange(0, 3)):
            e[k] = rng.choice(EDGE32) & ((1 << bits) - 1) if rng.random() < .8 else rng.randrange(1 << bits)
        yield e


def show(e, nd, comp):
    return ", ".join("%s=%d" % (k, e[k]) for k, _ in scalars(nd, comp))


def c04(chk):
    p = chk.p
    f = entry(p, "ZarrStream_create")
    ranges(chk)
    rule = "accepted exactly in range"
    for nd, comp, s3 in [(3, True, False), (3, False, True), (4, True, True)] + ([(5, True, False), (6, False, False), (8, True, True)] if chk.thorough else []):
        v = base(nd)
        for k, _ in scalars(nd, comp):
            v.pop(k, None)
        w = "%d dimensions, %scompression, %s" % (nd, "" if comp else "no ", "S3" if s3 else "files")
        try:
            y = Try(chk, nd, s3, comp, v)
        except (Unsupported, Budget) as x:
            chk.undec(rule, "%s: %s" % (w, x))
            continue
        if y.I.inexact():
            chk.undec(rule, "%s: %s" % (w, ", ".join(sorted(y.I.inexact()))[:200]))
            continue
        if not y.got and not y.back:
            raise Anchor("stream creation: no outcome")
        und = n = yes = 0
        for e in valuations(chk.rng, nd, comp, 600 if chk.thorough else 200):
            env = {y.syms()[k]: x for k, x in e.items() if k in y.syms()}
            cache = {}
            ks = [consistent(g, env, cache) for g in y.got]
            acc = True if any(k is not False for k in ks) else False
            ref = [consistent(o[0], env, cache) for o in y.back]
            if any(r is None for r in ref) and not acc:
                pass
            want = lawful(e, nd, comp, s3)
            n += 1
            if acc != want:
                chk.bad(rule, site(f), "%s: settings with %s are %s" % (w, show(e, nd, comp), "accepted, though outside the documented ranges" if acc else "refused, though inside the documented ranges"), key="scalar|%s" % acc)
                break
            yes += acc
        else:
            chk.ok(rule, "%s: %d valuations, %d accepted; %d accepting paths, %d refusing" % (w, n, yes, len(y.got), len(y.back)))
            if not yes or yes == n:
                raise Anchor("valuations of one kind only")
    strings(chk, f)
    counts(chk, f)
    whole(chk, f)
    dimarray(chk)
    chk.at_least(rule, 3)


BLANK = ("", " ", "\t", "\n", " \t\r\n\v\f ")
SOLID = ("x", " x", "x ", "\tx\n", "a b", "0", "-", "a" * 300)


def string_cases():
    for k in ("s3.endpoint", "s3.access_key_id", "s3.secret_access_key"):
        for b in BLANK:
            yield k, b, False, True
        for b in SOLID:
            yield k, b, True, True
    for n in (0, 1, 2, 3, 4, 32, 62, 63, 64, 65, 255, 256, 1000):
        yield "s3.bucket_name", "b" * n, 3 <= n <= 63, True
        yield "s3.bucket_name", "  " + "b" * n + "\n", 3 <= n <= 63, True
    for s3 in (False, True):
        for b in BLANK:
            yield "store_path", b, False, s3
        for b in ("x", "x/y", "./x", " x ", "x y/z", "../x", "/x", "/x/y"):
            yield "store_path", b, True, s3
    for i in range(4):
        for b in BLANK:
            yield "dim%d.name" % i, b, False, bool(i & 1)
        for b in SOLID + ("\u00b5m", "\u65e5"):
            yield "dim%d.name" % i, b, True, bool(i & 1)
    for b, w in ((None, True), ("", True), ("{}", True), ('{"a": 1}', True), ("[1, 2]", True), ("{", False), ("nothing", False), ('{"a" 1}', False)):
        yield "custom_metadata", b, w, False


def accepted(y):
    return any(True for g in y.got)


def strings(chk, f):
    rule = "strings nonblank"
    for k, b, want, s3 in string_cases():
        v = base(4)
        v[k] = b
        w = "%s = %r (%s)" % (k, b if b is None or len(b) < 70 else "%s.. (%d characters)" % (b[:8], len(b)), "S3" if s3 else "files")
        try:
            y = Try(chk, 4, s3, True, v)
        except (Unsupported, Budget) as x:
            chk.undec(rule, "%s: %s" % (w, x))
            continue
        if y.I.inexact():
            chk.undec(rule, "%s: %s" % (w, ", ".join(sorted(y.I.inexact()))[:200]))
            continue
        if bool(y.got) != want:
            chk.bad(rule, site(f), "settings with %s are %s" % (w, "accepted" if y.got else "refused"), key="%s|%s" % (k, bool(y.got)))
        else:
            chk.ok(rule, "%s: %s" % (w, "accepted" if want else "refused"))
    chk.at_least(rule, 60)


def counts(chk, f):
    """at least three dimensions, the last two spatial"""
    rule = "number and kinds of dimensions"
    for nd in range(0, 9):
        for s3 in (False, True):
            v = base(max(3, nd))
            try:
                y = Try(chk, nd, s3, False, v)
            except (Unsupported, Budget) as x:
                chk.undec(rule, "%d dimensions: %s" % (nd, x))
                continue
            if y.I.inexact():
                chk.undec(rule, "%d dimensions: %s" % (nd, ", ".join(sorted(y.I.inexact()))[:200]))
                continue
            if bool(y.got) != (nd >= 3):
                chk.bad(rule, site(f), "%d dimensions are %s" % (nd, "accepted" if y.got else "refused"), key="count|%s" % bool(y.got))
            else:
                chk.ok(rule, "%d dimensions" % nd)


def whole(chk, f):
    """creation goes through to the end for settings at the ends of the ranges"""
    rule = "accepted settings make a stream"
    fam = []
    for lv in range(10):
        fam.append(dict(comp=dict(compressor=1, codec=1 + lv % 2, level=lv, shuffle=lv % 3)))
    for dt in range(10):
        fam.append(dict(dtype=dt, version=2 + dt % 2, multiscale=bool(dt & 1)))
    fam += [dict(comp=dict(compressor=0, codec=c, level=9, shuffle=2)) for c in (0, 1, 2)]
    for ty in range(4):
        fam.append(dict(types=[ty, 0, 0], version=3))
    fam += [dict(s3=True, version=v) for v in (2, 3)]
    fam += [dict(dims=[(0, 1, 1), (1, 1, 1), (1, 1, 1)], version=v, multiscale=m) for v in (2, 3) for m in (False, True)]
    fam += [dict(dims=[(0, 5, 4), (3, 7, 9), (9, 4, 2), (2, 9, 9)], types=[2, 1, 0, 0], version=v) for v in (2, 3)]
    fam += [dict(val={"custom_metadata": m}) for m in ("{}", '{"k": [1]}', "")]
    for kw in fam:
        kw = dict(kw)
        dims = kw.pop("dims", [(0, 4, 2), (6, 3, 2), (8, 4, 1)])
        val = dict(kw.pop("val", {}))
        if kw.get("s3"):
            val.update({k: x for k, x in BASE.items() if k.startswith("s3.")})
        w = "%s %s %s" % (dims, kw, {k: x for k, x in val.items() if not k.startswith("s3.")} or "")
        try:
            y = Created(chk, dims, val=val, **kw)
            made = y.run()
        except (Unsupported, Budget) as x:
            chk.undec(rule, "%s: %s" % (w, x))
            continue
        if not made:
            bad = y.I.inexact()
            if bad:
                chk.undec(rule, "%s: %s" % (w, ", ".join(sorted(bad))[:200]))
                continue
            chk.bad(rule, site(f), "settings inside the documented ranges make no stream, though nothing fails: %s" % w, key="whole")
        else:
            chk.ok(rule, w)
    chk.at_least(rule, 25)


def dimarray(chk):
    """the helper that allocates the dimension array"""
    p = chk.p
    rule = "dimension array"
    f = entry(p, "ZarrStreamSettings_create_dimension_array")
    o = offs(p, SET)
    for n in (0, 1, 2, 3, 4, 9):
        I = quiet_log(chk.interp())
        st = State()
        S = Settings(p, st, val=base(3), valid=False)
        old = I.load(st, ptr(S.b, o["dimensions"][0]), 8, 64)
        try:
            outs = [x for x in I.run(st, f, [ptr(S.b, 0), C(64, n)]) if x[1] != "dead"]
        except (Unsupported, Budget) as x:
            chk.undec(rule, "%d: %s" % (n, x))
            continue
        for s, k, v in outs:
            d = I.load(s, ptr(S.b, o["dimensions"][0]), 8, 64)
            c = I.load(s, ptr(S.b, o["dimension_count"][0]), 8, 64)
            freed = [e for e in s.events() if e[0] == "delete" and e.p is old]
            if k != "ret" or v.op != "c":
                chk.undec(rule, "%d: outcome" % n)
            elif n < 3:
                if t.cv(v) == 0 or d is not old or c is not C(64, 3) or freed:
                    chk.bad(rule, site(f), "a request for %d dimensions %s" % (n, "is accepted" if t.cv(v) == 0 else "changes the settings it refuses to change"), key="few")
                else:
                    chk.ok(rule, "%d refused" % n)
            elif t.cv(v) == 0:
                if d is old or c is not C(64, n) or not freed:
                    chk.bad(rule, site(f), "a request for %d dimensions leaves the array %s, the count %s, the old array %s" % (n, "unchanged" if d is old else "replaced", c, "freed" if freed else "leaked"), key="many")
                    continue
                b, _ = t.split(d)
                size = [e for e in s.events() if e[0] == "new" and e.p is d]
                if size and size[-1].size.op == "c" and t.cv(size[-1].size) < n * p.records[DIM]["size"]:
                    chk.bad(rule, site(f), "room for %s bytes for %d dimensions" % (size[-1].size, n), key="room")
                else:
                    chk.ok(rule, "%d" % n)
            elif d is not old or c is not C(64, 3) or freed:
                chk.bad(rule, site(f), "a request for %d dimensions that fails changes the settings" % n, key="failed")
            else:
                chk.ok(rule)


# ---- C02 -----------------------------------------------------------------------------------------
NULLS = ("nullderef", "nullstr", "nullcall", "terminate", "abort")


def pointers(p):
    """settings paths that are pointers, with the switches under which they are used"""
    r = [("settings", {}), ("store_path", {}), ("store_path", {"s3": True}), ("dimensions", {}), ("dimensions", {"s3": True, "comp": True})]
    for i in range(4):
        r.append(("dim%d.name" % i, {"nd": 4}))
        r.append(("dim%d.name" % i, {"nd": 4, "s3": True, "comp": True}))
    for n, _, _, ty in p.fields(S3):
        if ty.endswith("*"):
            r.append(("s3." + n, {"s3": True}))
            r.append(("s3." + n, {"s3": True, "comp": True}))
    return r


def judge_null(chk, rule, f, w, key, outs, want):
    """no null used; want(kind, value, state) -> None or what is wrong"""
    if not outs:
        chk.undec(rule, w + ": no outcome")
        return
    for s, k, v in outs:
        for e in s.events():
            if e[0] in NULLS:
                chk.bad(rule, e.site, "%s: %s" % (w, {"nullderef": "a null pointer is dereferenced", "nullstr": "a null pointer is turned into a string",
                                                      "nullcall": "a null function is called"}.get(e[0], "the process is ended")), key=key, path=path(s))
                return
        if k == "dead":
            continue
        if k == "exc":
            chk.bad(rule, site(f), "%s: an exception leaves the function" % w, key=key, path=path(s))
            return
        x = want(k, v, s)
        if x:
            chk.bad(rule, site(f), "%s: %s" % (w, x), key=key, path=path(s))
            return
    chk.ok(rule, w)


def c02(chk):
    p = chk.p
    f = entry(p, "ZarrStream_create")
    rule = "null settings pointers refused"
    ps = pointers(p)
    cases = [([a], kw) for a, kw in ps]
    for i, (a, kw) in enumerate(ps):
        for b, kw2 in ps[i + 1:]:
            if kw == kw2 and a != b:
                cases.append(([a, b], kw))
    for names, kw in cases:
        kw = dict(kw)
        nd = kw.pop("nd", 3)
        v = base(nd)
        for a in names:
            v[a] = None
        w = "null %s (%s)" % (" and ".join(names), ", ".join(kw) or "files")
        for le in (False, True):
            try:
                y = Try(chk, nd, val=v, null="settings" in names, log_empty=le, **kw)
            except (Unsupported, Budget) as x:
                chk.undec(rule, "%s: %s" % (w, x))
                continue
            outs = y.outs + [(g, "accepted", None) for g in y.got]
            judge_null(chk, rule, f, w, ",".join(names), outs,
                       lambda k, v, s: "stream creation goes on" if k == "accepted" else None if v.op == "c" and not t.cv(v) else "a stream is returned")
    chk.at_least(rule, 15)
    # the optional ones may be null
    rule = "optional pointers may be null"
    for names, kw in ((["custom_metadata"], {}), (["custom_metadata"], {"s3": True}), ([], {}), ([], {"comp": True}), ([], {"s3": True})):
        v = base(3)
        for a in names:
            v[a] = None
        y = Try(chk, val=v, **kw)
        judge_null(chk, rule, f, "null %s" % ", ".join(names + [x for x in ("s3", "comp") if x not in kw]), "opt", y.outs + [(g, "accepted", None) for g in y.got],
                   lambda k, v, s: None)
        if not y.got and not y.I.inexact():
            chk.bad(rule, site(f), "settings without %s are refused" % ", ".join(names + [x for x in ("s3", "comp") if x not in kw]), key="opt")
    args(chk)


def args(chk):
    """null pointers passed for the arguments of the public functions"""
    p = chk.p
    rule = "null arguments refused"
    api = [f for f in p.fns.values() if f.repo and f.blocks and f.n.startswith("Zarr") and f.n == f.dem and "ptr" in f.params]
    if len(api) < 5:
        raise Anchor("public functions: %d" % len(api))
    for f in sorted(api, key=lambda f: f.n):
        ks = [i for i, ty in enumerate(f.params) if ty == "ptr"]
        sets = [[k] for k in ks] + ([ks] if len(ks) > 1 else []) + [[a, b] for a in ks for b in ks if a < b and len(ks) > 2]
        for nulls in sets:
            for le in (False, True):
                I = light(quiet_log(chk.interp(), le))
                I.fs_throws, I.fs_ok = False, True
                st = State()
                touched = []
                S = Settings(p, st, val=base(3), valid=False)
                a = []
                for i, ty in enumerate(f.params):
                    if i in nulls:
                        a.append(C(64, 0))
                    elif ty == "ptr" and i == 0 and ("Settings" in f.n or f.n.endswith("_create")):
                        a.append(ptr(S.b, 0))
                    elif ty == "ptr":
                        a.append(ptr(heap(st, "arg%d" % i), 0))
                    else:
                        a.append(sym("~arg%d" % i, int(ty[1:])))
                w = "%s with null argument %s" % (f.n, " and ".join(str(i + 1) for i in nulls))
                I.want = None
                try:
                    outs = I.run(st, f, a)
                except (Unsupported, Budget) as x:
                    chk.undec(rule, "%s: %s" % (w, x))
                    continue

                def want(k, v, s):
                    if f.ret == "void":
                        return None
                    if f.ret == "ptr":
                        return None if v.op == "c" and not t.cv(v) else "does not return null"
                    if v is None or v.op != "c":
                        return "returns %s" % v
                    return None if t.cv(v) else "reports success"
                judge_null(chk, rule, f, w, "%s|%s" % (f.n, nulls), outs, want)
    chk.at_least(rule, 9)


# ---- C03 -----------------------------------------------------------------------------------------
def refusals():
    """(what, dimensions, overrides, switches) that the settings rules refuse"""
    def one(k, x, **kw):
        return ("%s = %r" % (k, x), 4, {k: x}, kw)
    for ver in (0, 1, 4, 255, (1 << 32) - 1):
        yield one("version", ver)
    for x in (10, 255, (1 << 32) - 1):
        yield one("data_type", x)
    for k, xs in (("comp.compressor", (2, 77)), ("comp.codec", (0, 3, 77)), ("comp.level", (10, 255)), ("comp.shuffle", (3, 255))):
        for x in xs:
            yield one(k, x, comp=True)
    for i in range(4):
        yield one("dim%d.type" % i, 4)
        yield one("dim%d.chunk_size_px" % i, 0)
        if i:
            yield one("dim%d.array_size_px" % i, 0)
        yield ("dim%d.shard_size_chunks = 0" % i, 4, {"dim%d.shard_size_chunks" % i: 0, "version": 3}, {})
        for b in (None, "", " \t", "bad\udcff", "\udcb5m", "\udce2\udc82"):
            yield one("dim%d.name" % i, b)
    for i in (2, 3):
        for ty in (1, 2, 3):
            yield one("dim%d.type" % i, ty)
    for b in (None, "", "  "):
        yield one("store_path", b)
    for b in ("{", "nothing", '{"a" 1}', "]"):
        yield one("custom_metadata", b)
    yield one("dimensions", None)
    for nd in (0, 1, 2):
        yield ("%d dimensions" % nd, nd, {}, {})
    for k in ("endpoint", "access_key_id", "secret_access_key", "bucket_name"):
        for b in (None, "", " "):
            yield one("s3." + k, b, s3=True)
    for n in (1, 2, 64, 300):
        yield one("s3.bucket_name", "b" * n, s3=True)


def c03(chk):
    p = chk.p
    f = entry(p, "ZarrStream_create")
    rule = "refused settings have no effect"
    for what, nd, over, kw in refusals():
        for s3 in ((True,) if kw.get("s3") else (False, True)):
            for ver in ((2, 3) if "version" not in over else (None,)):
                v = base(max(3, nd))
                if ver:
                    v["version"] = ver
                v.update(over)
                w = "%s (%s%s)" % (what, "S3" if s3 else "files", ", version %d" % ver if ver else "")
                run_refused(chk, f, rule, w, nd, s3, kw.get("comp", False), v)
    chk.at_least(rule, 100)
    order(chk, f)


def run_refused(chk, f, rule, w, nd, s3, comp, v):
    """whatever creation does with these settings to the end: no stream -> nothing was done"""
    try:
        y = whole_of(chk, nd, s3, comp, v)
        outs = y.outs
    except (Unsupported, Budget) as x:
        chk.undec(rule, "%s: %s" % (w, x))
        return
    ok = True
    for s, k, r in outs:
        if k == "ret" and not (r.op == "c" and not t.cv(r)):
            continue                       # a stream: not refused (C04 says whether it should be)
        if k == "dead":
            continue
        ef = [e for e in s.events() if e[0] == "fs" and e.mut or e[0] in ("fopen", "sink_new", "os_open", "os_write") or e[0].startswith("s3_")]
        if ef:
            if y.I.inexact():
                chk.undec(rule, "%s: %s" % (w, ", ".join(sorted(y.I.inexact()))[:200]))
                return
            e = ef[0]
            chk.bad(rule, e.site, "stream creation is refused for %s, but only after %s" % (w, describe(e)), key=over_key(w), path=path(s))
            ok = False
            break
    if ok:
        chk.ok(rule, w)


def over_key(w):
    return w.split(" = ")[0].split(" (")[0]


def describe(e):
    if e[0] == "fs":
        return "%s of %s" % (e.op, e.path)
    if e[0] == "sink_new":
        return "creating %s" % (e.names[-1:],)
    return "%s" % e[0]


def whole_of(chk, nd, s3, comp, v):
    """creation to the end, in a world where nothing fails, with exactly these settings"""
    y = Created.__new__(Created)
    from ..jobs import Jobs
    from .. import jsonm
    from .s3 import S3Env
    y.chk, y.p, y.content, y.blosc_fails = chk, chk.p, False, False
    J = y.J = Jobs(chk, "run")
    J.write_fails = False
    I = y.I = J.I
    light(I)
    I.fs_throws, I.fs_ok = False, True
    I.hw = 2
    jsonm.install(I)
    st = y.st = State()
    I.assume(st, J.stopped, False)
    y.S = Settings(chk.p, st, ndims=nd, comp=comp, s3=s3, val=v, valid=False)
    I.over[POOLC] = lambda JJ, s_, c: None
    I.over["blosc_compress_ctx"] = y.compress
    if s3:
        S3Env(I, chk.p, fails=False)
    for g in chk.p.fns.values():
        if g.base in ("FileSink", "S3Sink") and g.ctx in ("zarr::FileSink", "zarr::S3Sink"):
            I.over[g.n] = y.newsink
        elif g.ctx == "zarr::S3ConnectionPool" and g.base in ("S3ConnectionPool", "~S3ConnectionPool"):
            I.over[g.n] = lambda JJ, s_, c: None
    f = entry(chk.p, "ZarrStream_create")
    y.outs = [o for o in I.run(st, f, [ptr(y.S.b, 0)]) if o[1] != "dead"]
    return y


def order(chk, f):
    """with every setting unknown, nothing is touched on the way to a refusal, and what is touched later is touched only when all was accepted"""
    rule = "no effect before acceptance"
    for nd, comp, s3 in ((3, True, False), (4, True, True), (3, False, False)):
        v = base(nd)
        for k, _ in scalars(nd, comp):
            v.pop(k, None)
        try:
            y = Try(chk, nd, s3, comp, v)
        except (Unsupported, Budget) as x:
            chk.undec(rule, str(x))
            continue
        bad = None
        for s in y.all:
            ef = [e for e in s.events() if e[0] == "fs" and e.mut or e[0] in ("fopen", "sink_new", "os_open", "os_write") or e[0].startswith("s3_")]
            if ef and s not in y.got:
                bad = (ef[0], s)
        if bad:
            chk.bad(rule, bad[0].site, "settings are refused after %s" % describe(bad[0]), key="order", path=path(bad[1]))
        else:
            chk.ok(rule, "%d dimensions: %d refusing paths, no effect on any" % (nd, len(y.back)))
