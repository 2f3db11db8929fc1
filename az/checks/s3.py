"""C14, C15, C16: connections, multipart uploads and the part buffer of S3 sinks."""
from ..interp import State, Obj, Budget, Unsupported
from ..ir import Anchor
from .. import terms as t, models
from ..terms import sym, ptr, C, cmp
from ..lib import *
from ..jobs import Setup, Jobs
from ..cg import Graph
from ..check import path

SINK, CONN, POOL = "zarr::S3Sink", "zarr::S3Connection", "zarr::S3ConnectionPool"


def loadp(I, st, p, k=0):
    b, o = t.split(p)
    return I.load(st, ptr(b, t.add(o, C(64, k))), 8, 64)


class S3Env:
    """Every S3 operation may succeed, report failure or throw; connections are counted."""

    def __init__(s, I, p, throws=True, fails=True):
        s.I, s.p, s.throws, s.fails = I, p, throws, fails
        s.jobs = None       # shares the number of failures allowed with other operations
        n = 0
        for f in p.fns.values():
            if f.ctx == POOL and f.base == "get_connection":
                I.over[f.n] = s.get
                n |= 1
            elif f.ctx == POOL and f.base == "return_connection":
                I.over[f.n] = s.give
                n |= 2
            elif f.ctx == CONN and f.base == "~S3Connection":
                I.over[f.n] = s.dead
            elif f.ctx == CONN and f.base != "S3Connection":
                I.over[f.n] = s.op
                n |= 4
        if n != 7:
            raise Anchor("S3 connection pool interface")

    def get(s, J, st, c):
        k = st.cnt.get("conn", 0)
        st.cnt["conn"] = k + 1
        b = heap(st, "conn%d" % k)
        if not models.sret(c):
            raise Unsupported("get_connection does not return a unique_ptr")
        J.store(st, c.args[0], ptr(b, 0), 8)
        out = tuple(st.props.get("out", ()))
        st.props["out"] = out + (b,)
        J.emit(st, "s3_get", c.ctx, conn=b, held=models.held(st), out=out)
        return None

    def give(s, J, st, c):
        v = loadp(J, st, c.args[1])
        b = t.split(v)[0] if v.op == "ptr" else None
        out = tuple(st.props.get("out", ()))
        J.emit(st, "s3_put", c.ctx, conn=b, known=b in out)
        st.props["out"] = tuple(x for x in out if x != b)
        J.store(st, c.args[1], C(64, 0), 8)
        return None

    def dead(s, J, st, c):
        b = t.split(c.args[0])[0]
        if b in tuple(st.props.get("out", ())):
            J.emit(st, "s3_dead", c.ctx, conn=b)
            st.props["out"] = tuple(x for x in st.props["out"] if x != b)
        return None

    def op(s, J, st, c):
        b = c.f.base
        sr = models.sret(c)
        a = list(c.args)
        reg = list(c.f.params)
        res = None
        if sr:
            res = a.pop(0)
            reg.pop(0)
        this = a.pop(0)
        reg.pop(0)
        par, k = [], 0
        for ty in c.f.pt:
            two = ("basic_string_view" in ty or "std::span" in ty) and not ty.endswith("&")
            if two:
                if reg[k].startswith("byval"):
                    x, y = loadp(J, st, a[k]), loadp(J, st, a[k], 8)
                    k += 1
                else:
                    x, y = a[k], a[k + 1]
                    k += 2
                par.append(("span", x, y) if "std::span" in ty else ("str", models.chars(J, st, y, x)))
            elif "basic_string" in ty:
                par.append(("str", models.gets(J, st, a[k])))
                k += 1
            else:
                par.append(("val", a[k]))
                k += 1
        cb = t.split(this)[0] if this.op == "ptr" else None
        known = cb in tuple(st.props.get("out", ()))
        outs = []
        n = st.cnt.get("s3op", 0)
        st.cnt["s3op"] = n + 1
        kinds = (1,) if not s.fails or s.jobs and not s.jobs.may(st) else (1, 0, "throw") if s.throws else (1, 0)
        for r in kinds:
            s2 = st.fork() if r == 1 or not s.jobs else s.jobs.broken(st)
            if r == "throw":
                J.emit(s2, "s3_" + b, c.ctx, conn=cb, known=known, par=par, r=r, val=None)
                outs.append((s2, "exc", J.make_exc(s2, c, "_ZTISt13runtime_error")))
                continue
            v = None
            if sr:
                v = sym(("s3", b, n), 0) if r else t.lit("")
                if r:
                    J.assume(s2, models.sempty(v), False)
                elif b == "create_multipart_object":
                    continue   # throws instead
                models.sets(J, s2, res, v)
            J.emit(s2, "s3_" + b, c.ctx, conn=cb, known=known, par=par, r=r, val=v)
            outs.append((s2, "ret", None if sr else C(1, r)))
        return outs


# ---- C14 -----------------------------------------------------------------------------------


def getters(p):
    return [f for f in p.fns.values() if f.ctx == POOL and f.base == "get_connection"]


def c14(chk):
    p = chk.p
    g = Graph(p)
    gs = {f.n for f in getters(p)}
    if not gs:
        raise Anchor("no get_connection")
    todo = [f for f in g.callers(gs) if f.repo]
    done = set()
    if not todo:
        raise Anchor("nobody asks for a connection")
    while todo:
        f = todo.pop(0)
        if f.n in done:
            continue
        done.add(f.n)
        J = Jobs(chk, "note")
        I = J.I
        I.fs_throws = False
        env = S3Env(I, p)
        st = State()
        try:
            su = Setup(p, st, f)
            if su.partial:
                up = [x for x in g.callers({f.n}) if x.repo]
                if not up:
                    chk.undec("given-back", "%s: its arguments are unknown, and nobody calls it" % f.q)
                todo += up
                continue
            args = su.args
            if f.params and f.params[0] == "sret":
                args = [ptr(heap(st, "result"), 0)] + args
            pre = set(st.mem)
            outs = I.run(st, f, args)
        except (Unsupported, Budget) as e:
            chk.undec("given-back", "%s: %s" % (f.q, e))
            continue
        paths = 0
        for s2, k, v in outs:
            if k == "dead":
                continue
            ev = s2.events()
            gots = [e for e in ev if e[0] == "s3_get"]
            for e in ev:
                if e[0] == "s3_put" and not e.known:
                    if e.conn is None:
                        chk.bad("given-back-once", e.site, "gives back a connection it does not hold", key=f.q + "null", path=path(s2))
                    else:
                        chk.bad("given-back-once", e.site, "gives a connection back twice", key=f.q + "twice", path=path(s2))
                elif e[0] == "s3_put":
                    chk.ok("given-back-once")
                elif e[0] == "s3_dead":
                    chk.bad("given-back", e.site, "a connection taken from the pool is destroyed instead of being given back", key=f.q, path=path(s2))
                elif e[0].startswith("s3_") and e[0] not in ("s3_get",):
                    if e.known:
                        chk.ok("used-while-held", e.site)
                    elif e.conn is None or e.conn[0] in ("H", "N") and str(e.conn[1]).startswith("conn"):
                        chk.bad("used-while-held", e.site, "uses a connection that it has given back or does not hold", key=f.q + e[0], path=path(s2))
            out = tuple(s2.props.get("out", ()))
            if not gots:
                continue
            paths += 1
            if out:
                # handed to the caller, or kept in an object?
                kept = False
                for b in list(s2.mem):
                    if b in pre:
                        for o, cell in s2.mem[b].c.items():
                            if isinstance(cell[0], t.T) and cell[0].op == "ptr" and cell[0].a[0] in out:
                                kept = True
                if kept:
                    up = [x for x in g.callers({f.n}) if x.repo]
                    if up:
                        todo += up
                        chk.ok("passed-on", "%s hands its connection to its caller" % f.q)
                        continue
                chk.bad("given-back", gots[0].site, "a connection is not given back when %s" % ("an exception leaves " + f.q if k == "exc" else f.q + " returns"), key=f.q, path=path(s2))
            else:
                chk.ok("given-back", "%s: %s" % (f.q, gots[0].site))
    # ---- the pool hands out what it has, once, and takes everything back
    for f in getters(p):
        for n in (1, 2, 3, 9):
            I = quiet_log(chk.interp())
            st = State()
            st, b, v, el = pool_obj(chk, I, st, n)
            r = heap(st, "result")
            wok = set()

            def wait(JJ, s_, c):
                JJ.emit(s_, "waits", c.ctx)
                return None
            outs = I.run(st, f, [ptr(r, 0), ptr(b, 0)])
            o = field(p, POOL, ty=lambda x: x.startswith("std::vector<std::unique_ptr<zarr::S3Connection"))[0]
            for s2, k, _ in outs:
                if k == "dead":
                    continue
                x = loadp(I, s2, ptr(r, 0))
                lo, hi = (I.load(s2, ptr(b, o + q), 8, 64) for q in (0, 8))
                left = t.sub(hi, lo)
                if k == "exc":
                    chk.bad("hands-out", site(f), "throws although connections are there", key="exc", path=path(s2))
                    continue
                if models.held(s2):
                    chk.bad("hands-out", site(f), "returns with the lock held", key="lock", path=path(s2))
                    continue
                if x.op == "c" and t.cv(x) == 0:
                    if left.op == "c" and t.cv(left) != 8 * n:
                        chk.bad("hands-out", site(f), "a connection disappears from the pool without being handed out", key="lost", path=path(s2))
                    else:
                        chk.bad("hands-out", site(f), "hands out no connection although there are %d" % n, key="none", path=path(s2))
                    continue
                inpool = []
                if left.op == "c" and lo.op == "ptr":
                    vb, vo = t.split(lo)
                    for i in range(t.cv(left) // 8):
                        inpool.append(I.load(s2, ptr(vb, t.add(vo, C(64, 8 * i))), 8, 64))
                else:
                    chk.undec("hands-out", "list of connections not followed: %s" % t.show(left))
                    continue
                want = [ptr(e, 0) for e in el]
                if x in want and sorted(map(t.show, inpool + [x])) == sorted(map(t.show, want)):
                    chk.ok("hands-out", "%d connections" % n)
                elif x not in want:
                    chk.undec("hands-out", "result %s" % t.show(x))
                else:
                    chk.bad("hands-out", site(f), "the pool does not keep exactly the other connections when one is handed out", key="dup", path=path(s2))
    for f in [f for f in p.fns.values() if f.ctx == POOL and f.base == "return_connection"]:
        for n in (0, 1, 2, 7, 8, 31):
            I = quiet_log(chk.interp())
            st = State()
            st, b, v, el = pool_obj(chk, I, st, n)
            c_ = heap(st, "back")
            up = heap(st, "arg")
            put(st, up, 0, ptr(c_, 0))
            o = field(p, POOL, ty=lambda x: x.startswith("std::vector<std::unique_ptr<zarr::S3Connection"))[0]
            for s2, k, _ in I.run(st, f, [ptr(b, 0), ptr(up, 0)]):
                if k == "dead":
                    continue
                if k == "exc":
                    chk.bad("takes-back", site(f), "throws", key="exc", path=path(s2))
                    continue
                lo, hi = (I.load(s2, ptr(b, o + q), 8, 64) for q in (0, 8))
                left = t.sub(hi, lo)
                if left.op != "c" or lo.op != "ptr":
                    chk.undec("takes-back", "list of connections not followed: %s" % t.show(left))
                    continue
                vb, vo = t.split(lo)
                now = [I.load(s2, ptr(vb, t.add(vo, C(64, 8 * i))), 8, 64) for i in range(t.cv(left) // 8)]
                x = loadp(I, s2, ptr(up, 0))
                if models.held(s2):
                    chk.bad("takes-back", site(f), "returns with the lock held", key="lock", path=path(s2))
                elif len(now) != n + 1 or now.count(ptr(c_, 0)) != 1:
                    chk.bad("takes-back", site(f), "a connection given back is not in the pool afterwards", key="lost", path=path(s2))
                elif not any(e[0] in ("notify_one", "notify_all") for e in s2.events()):
                    chk.bad("takes-back", site(f), "nobody waiting for a connection is woken", key="notify", path=path(s2))
                else:
                    chk.ok("takes-back", "%d + 1" % n)
    chk.at_least("given-back", 4)
    chk.at_least("used-while-held", 4)
    chk.at_least("hands-out", 2)
    chk.at_least("takes-back", 2)


def pool_obj(chk, I, st, n):
    """an open pool, as its constructor leaves it, then holding n connections"""
    p = chk.p
    if POOL not in p.records:
        raise Anchor("record " + POOL)
    b = heap(st, "pool")
    for f in p.fns.values():
        if f.ctx == CONN and f.base == "S3Connection":
            I.over[f.n] = lambda J, s_, c: None
        elif f.ctx == CONN and f.base == "is_connection_valid":
            I.over[f.n] = lambda J, s_, c: C(1, 1)
        elif f.ctx == CONN and f.base == "~S3Connection":
            I.over[f.n] = lambda J, s_, c: None
    k = fns(p, POOL + "::S3ConnectionPool")[0]
    a = [ptr(b, 0)]
    for i, ty in enumerate(k.pt):
        if "basic_string" in ty:
            x = heap(st, "poolarg%d" % i)
            st.wobj(x).c[("s", 0)] = (sym("poolarg%d" % i, 0), 32)
            a.append(ptr(x, 0))
        else:
            a.append(C(64, 1))
    good = [s2 for s2, kk, v in I.run(st, k, a) if kk == "ret"]
    if not good:
        raise Anchor("no connection pool can be constructed")
    st = good[0]
    o = field(p, POOL, ty=lambda x: x.startswith("std::vector<std::unique_ptr<zarr::S3Connection"))[0]
    v = heap(st, "pool.list")
    el = []
    for i in range(n):
        c = heap(st, "pooled%d" % i)
        el.append(c)
        put(st, v, 8 * i, ptr(c, 0))
    for k, x in ((0, 0), (8, 8 * n), (16, 8 * n)):
        put(st, b, o + k, ptr(v, x))
    st.trace = None
    return st, b, v, el


# ---- C15, C16 ------------------------------------------------------------------------------


def partsize(p):
    o, sz, ty = field(p, SINK, ty=lambda x: x.startswith("std::array<std::byte") or x.startswith("std::vector<std::byte"))
    return o, sz, ty


class SinkRun:
    """An S3 sink from its construction through a history of writes and a final flush."""

    def __init__(s, chk, throws=True):
        p = s.p = chk.p
        s.chk = chk
        s.I = quiet_log(chk.interp(max_steps=6_000_000))
        s.env = S3Env(s.I, p, throws)
        s.ctor = [f for f in fns(p, SINK + "::S3Sink") if f.blocks][0]
        s.write = fns(p, SINK + "::write")[0]
        s.flush = fns(p, SINK + "::flush_")[0]
        s.bo, s.bs, ty = partsize(p)
        s.inobj = ty.startswith("std::array")

        def push(J, st, e):
            if e[0] == "list_push" and e.d.get("elem") is not None:
                el = e.elem
                fl = {n: (o, sz) for n, o, sz, ty in p.fields("minio::s3::Part")} if "minio::s3::Part" in p.records else {}
                if "number" in fl and "etag" in fl and el.op == "ptr":
                    b, o = t.split(el)
                    num = J.load(st, ptr(b, t.add(o, C(64, fl["number"][0]))), 4, 32)
                    tag = models.gets(J, st, ptr(b, t.add(o, C(64, fl["etag"][0]))))
                    J.emit(st, "part_recorded", None, num=num, tag=tag, l=e.l)
        s.I.hooks.append(push)

    def start(s):
        st = State()
        s.b = heap(st, "sink")
        s.bucket, s.key = sym("bucket", 0), sym("key", 0)
        a = [ptr(s.b, 0)]
        pt = s.ctor.pt
        strs = [s.bucket, s.key]
        for ty in pt:
            if "basic_string_view" in ty:
                x = strs.pop(0)
                a += [t.slen(x), models.strptr(x)]
            elif "basic_string" in ty:
                o = heap(st, "strarg%d" % len(strs))
                st.wobj(o).c[("s", 0)] = (strs.pop(0), 32)
                a.append(ptr(o, 0))
            elif "shared_ptr" in ty:
                o = heap(st, "poolptr")
                put(st, o, 0, ptr(heap(st, "pool"), 0))
                put(st, o, 8, C(64, 0))
                a.append(ptr(o, 0))
            else:
                raise Unsupported("S3Sink constructor parameter " + ty)
        outs = [(s2, k) for s2, k, v in s.I.run(st, s.ctor, a)]
        good = [s2 for s2, k in outs if k == "ret"]
        if not good:
            raise Anchor("an S3 sink cannot be constructed")
        st = good[0]
        s.I.assume(st, models.sempty(s.bucket), False)
        s.I.assume(st, models.sempty(s.key), False)
        return st

    def go(s, ops):
        """ops: [(offset, len)] -> [(final state, [(op, result)])]"""
        live = [(s.start(), [])]
        done = []
        for i, (off, n) in enumerate(ops):
            nxt = []
            for st, h in live:
                d = ("H", "data%d" % i, 0)
                st.mem.setdefault(d, Obj({}, (), 0, st.tok))
                s.I.emit(st, "op_write", None, i=i, off=off, n=n)
                for s2, k, v in s.I.run(st, s.write, [ptr(s.b, 0), C(64, off), ptr(d, 0) if n else C(64, 0), C(64, n)]):
                    if k == "dead":
                        continue
                    for r in ((1, 0) if k == "ret" else ("throw",)):
                        s3 = s2 if k != "ret" else allow(s2, s.I, t.trunc(v, 1), bool(r))
                        if s3 is None:
                            continue
                        s.I.emit(s3, "op_done", None, i=i, r=r)
                        nxt.append((s3, h + [r]))
            live = nxt
            if len(live) > 600:
                raise Budget("histories")
        for st, h in live:
            s.I.emit(st, "op_flush", None)
            for s2, k, v in s.I.run(st, s.flush, [ptr(s.b, 0)]):
                if k == "dead":
                    continue
                for r in ((1, 0) if k == "ret" else ("throw",)):
                    s3 = s2 if k != "ret" else allow(s2, s.I, t.trunc(v, 1), bool(r))
                    if s3 is None:
                        continue
                    s.I.emit(s3, "op_done", None, i=-1, r=r)
                    done.append((s3, h + [r]))
        return done


def overlay(buf, pos, n, src, so):
    """segments [(pos, len, src, srcoff)] with [pos, pos+n) replaced"""
    out = []
    for q, m, x, o in buf:
        if q + m <= pos or q >= pos + n:
            out.append((q, m, x, o))
            continue
        if q < pos:
            out.append((q, pos - q, x, o))
        if q + m > pos + n:
            out.append((pos + n, q + m - pos - n, x, None if o is None else o + pos + n - q))
    out.append((pos, n, src, so))
    return sorted(out, key=lambda z: z[0])


def norm(segs):
    """merge adjacent; -> [(len, src, off)]"""
    out = []
    for q, m, x, o in segs:
        if not m:
            continue
        if out and out[-1][1] == x and out[-1][2] is not None and o is not None and out[-1][2] + out[-1][0] == o:
            out[-1] = (out[-1][0] + m, x, out[-1][2])
        else:
            out.append((m, x, o))
    return out


def cut(segs, lo, n):
    out = []
    for q, m, x, o in segs:
        a, b = max(q, lo), min(q + m, lo + n)
        if a < b:
            out.append((a - lo, b - a, x, None if o is None else o + a - q))
    got = sum(m for _, m, _, _ in out)
    return out, got == n


def histories(P, thorough):
    sizes = [1, 100, P - 1, P, P + 1, 2 * P, 2 * P + 3, 5 * P + 7]
    h = [[]]
    for n in sizes:
        h.append([(0, n)])
    seqs = [(100, 50), (P - 1, 1), (P - 1, 2), (P, 1), (P, P), (1, P), (P + 1, P - 1), (P - 5, 10, P), (10, 20, 30), (P, P, 1), (3 * P, P - 1, 5)]
    if thorough:
        seqs += [(2 * P + 3, P - 3), (1, P - 1, 1), (P // 2, P // 2, P // 2), (3 * P, 5), (1, 2 * P, 1), (P + 1, P + 1, P + 1)]
    for q in seqs:
        o, l = 0, []
        for n in q:
            l.append((o, n))
            o += n
        h.append(l)
    # holes and going backwards
    h += [[(1, 10)], [(0, 10), (11, 5)], [(0, P + 7), (0, 4)], [(0, P), (P + 1, 3)], [(0, P + 7), (P - 1, 4)], [(0, 2 * P), (2 * P - 1, 1)], [(1 << 33, 4)],
          [(0, 10), ((1 << 32) + 10, 4)], [(0, 10), (10, 0), (10, 3)],
          [(0, 10), (5, 5)], [(0, 10), (5, 8)], [(0, 10), (0, 10)], [(0, P + 10), (P + 5, 5)]]
    return h


def sinkcheck(chk, want):
    p = chk.p
    R = SinkRun(chk)
    P = R.bs
    if not R.inobj or P < 1 << 16:
        P = 5 << 20
    for ops in histories(P, chk.thorough):
        try:
            res = R.go(ops)
        except (Budget, Unsupported) as e:
            chk.undec("history", "%s: %s" % (ops, e))
            continue
        for st, h in res:
            try:
                judge(chk, R, P, ops, st, h, want)
            except Found:
                pass
    # more parts than fit a byte, nothing failing
    R2 = SinkRun(chk, throws=False)
    R2.env.fails, R2.I.unroll = False, 400
    ops = [(0, 260 * P + 9)]
    try:
        for st, h in R2.go(ops):
            try:
                judge(chk, R2, P, ops, st, h, want)
            except Found:
                pass
    except (Budget, Unsupported) as e:
        chk.undec("history", "%s: %s" % (ops, e))
    return R


class Found(Exception):
    pass


def judge(chk, R, P, ops, st, h, want):
    ev = st.events()
    desc = "writes %s" % ", ".join("%d@%d" % (n, o) for o, n in ops)
    buf = []            # content of the part buffer
    stream = []         # accepted bytes, by position in the object
    end = 0             # end of the accepted stream
    up = 0              # bytes uploaded so far
    parts = []          # successful uploads (number, tag)
    rec = []
    created = None
    ncreate = 0
    failed = False      # a write has been refused or has failed
    cur = None
    placed = True       # the upload contents can be followed
    completed = putok = None
    lost = None         # (request, content) of an upload that failed and was not made up for
    mp = lambda o: o

    def bad(prop, rule, e, what, key):
        if prop == want:
            chk.bad(rule, e.site if getattr(e, "site", None) else site(R.write), "%s: %s" % (desc, what), key=key, path=path(st))
            raise Found

    def good(prop, rule, s_=None):
        if prop == want:
            chk.ok(rule, s_)

    for e in ev:
        k = e[0]
        if k == "op_write":
            cur = e
            flushed_before = up
            up_before = len(parts)
            if e.off <= end and not failed and e.n:
                # tentatively accepted
                stream = overlay([x for x in stream if x[0] < e.off], e.off, e.n, "data%d" % e.i, 0)
                stream = [(q, min(m, e.off - q) if q < e.off else m, x, o) for q, m, x, o in stream]
        elif k == "op_flush":
            cur = e
        elif k == "memcpy":
            d, src, n = e.d.get("d"), e.d.get("src"), e.d.get("n")
            b, o = t.split(d) if d.op == "ptr" else (None, None)
            if b != R.b:
                sb = t.split(src)[0] if src.op == "ptr" else None
                if sb and sb[0] == "H" and str(sb[1]).startswith("data") and b is not None and b[0] == "H":
                    placed = False     # buffered elsewhere
                continue
            if o.op != "c" or n.op != "c":
                placed = False
                continue
            o, n = t.cv(o), t.cv(n)
            sb, so = t.split(src) if src.op == "ptr" else (None, None)
            if not (sb and sb[0] == "H" and str(sb[1]).startswith("data")):
                if sb == R.b and n and R.inobj and R.bo <= o < R.bo + R.bs:
                    # moved within the buffer
                    if so.op == "c":
                        segs, _ = cut(buf, t.cv(so) - R.bo, n)
                        for q, m, x, xo in segs:
                            buf = overlay(buf, o - R.bo + q, m, x, xo)
                        continue
                    placed = False
                continue
            if not n:
                continue
            if R.inobj and (o < R.bo or o + n > R.bo + R.bs):
                bad("C16", "in-bounds", e, "copies %d bytes to position %d of the part buffer, which has %d bytes" % (n, o - R.bo, R.bs), "bounds")
            good("C16", "in-bounds", "%s: %d bytes at %d" % (desc, n, o - R.bo))
            i = int(str(sb[1])[4:])
            if so.op != "c" or t.cv(so) + n > ops[i][1]:
                bad("C16", "in-bounds", e, "reads beyond the %d bytes it was given" % ops[i][1], "src")
            buf = overlay(buf, o - R.bo, n, str(sb[1]), t.cv(so))
        elif k == "s3_create_multipart_object":
            if created is not None:
                bad("C15", "created-once", e, "a second multipart upload is created for the object", "create2")
            if e.par[:2] != [("str", R.bucket), ("str", R.key)]:
                bad("C15", "own-object", e, "an upload is created for %s" % [t.show(x[1]) for x in e.par[:2]], "createname")
            if e.r == 1:
                created = e.val
        elif k in ("s3_upload_multipart_object_part", "s3_put_object"):
            span = [x for x in e.par if x[0] == "span"]
            strs = [x[1] for x in e.par if x[0] == "str"]
            if strs[:2] != [R.bucket, R.key]:
                bad("C15", "own-object", e, "data are uploaded to %s" % [t.show(x) for x in strs[:2]], "upname")
            good("C15", "own-object", e.site)
            num = [x[1] for x in e.par if x[0] == "val"]
            if k == "s3_upload_multipart_object_part":
                if created is None:
                    bad("C15", "created-once", e, "a part is uploaded although no upload was created", "nocreate")
                good("C15", "created-once")
                if strs[2:3] != [created]:
                    bad("C15", "own-object", e, "a part is uploaded under the upload id %s" % t.show(strs[2]), "upid")
                if not (num and num[0].op == "c"):
                    if want == "C15":
                        chk.undec("part-numbers", t.show(num[0]) if num else "none")
                    return
                if t.cv(num[0]) != len(parts) + 1:
                    bad("C15", "part-numbers", e, "part number %d is uploaded after %d parts" % (t.cv(num[0]), len(parts)), "number")
                good("C15", "part-numbers", "%s: part %d" % (desc, t.cv(num[0])))
            elif created is not None:
                bad("C15", "created-once", e, "the object is put whole although a multipart upload was created", "putmulti")
            # contents
            n, d, got, exp = None, None, None, None
            for a_, b_ in ((span[0][1], span[0][2]), (span[0][2], span[0][1])):
                if a_.op == "ptr" and b_.op == "c":
                    d, n = a_, t.cv(b_)
            if d is None or not placed:
                if want == "C16" and not placed:
                    chk.undec("contents", "%s: buffer not followed" % desc)
                placed = False
            else:
                b, o = t.split(d)
                if b == R.b and o.op == "c" and R.inobj:
                    if t.cv(o) < R.bo or t.cv(o) + n > R.bo + R.bs:
                        bad("C16", "in-bounds", e, "uploads %d bytes from a part buffer of %d" % (n, R.bs), "upbounds")
                    got, full = cut(buf, t.cv(o) - R.bo, n)
                    exp, efull = cut(stream, up, n)
                    if not full or norm(got) != norm(exp) or not efull:
                        if not failed:
                            bad("C16", "contents", e, "bytes %d.. of the object are uploaded as %s, they are %s" % (up, show(got), show(exp)), "contents")
                    else:
                        good("C16", "contents", "%s: %d bytes from %d" % (desc, n, up))
                elif b[0] == "H" and str(b[1]).startswith("data") and o.op == "c":
                    exp, efull = cut(stream, up, n)
                    got = [(0, n, str(b[1]), t.cv(o))]
                    if norm(got) != norm(exp) and not failed:
                        bad("C16", "contents", e, "bytes %d.. of the object are uploaded as %s, they are %s" % (up, show(got), show(exp)), "contents")
                    good("C16", "contents")
                else:
                    placed = False
            if got is None:
                lost = None if e.r == 1 else lost
            elif e.r != 1:
                lost = (e, norm(got))
            elif lost is not None and (prefix(lost[1], norm(got)) or norm(got) == norm(exp)):
                lost = None
            if e.r == 1:
                if n is not None:
                    up += n
                if k == "s3_put_object":
                    putok = n
                else:
                    parts.append((len(parts) + 1, e.val))
        elif k == "part_recorded":
            i = len(rec)
            rec.append((e.num, e.tag))
            if i >= len(parts):
                bad("C15", "recorded-after-upload", cur, "a part is recorded whose upload has not succeeded", "early")
            elif e.num.op != "c" or t.cv(e.num) != parts[i][0] or e.tag is not parts[i][1]:
                bad("C15", "recorded-after-upload", cur, "part %d is recorded as number %s with tag %s" % (i + 1, t.show(e.num), t.show(e.tag)), "record")
            good("C15", "recorded-after-upload")
        elif k in ("list_pop", "list_clear"):
            rec = [] if k == "list_clear" else rec[:-1]
        elif k == "s3_complete_multipart_object":
            strs = [x[1] for x in e.par if x[0] == "str"]
            if strs[:3] != [R.bucket, R.key, created]:
                bad("C15", "own-object", e, "completes %s" % [t.show(x) for x in strs[:3]], "complname")
            lst = [x[1] for x in e.par if x[0] == "val"]
            if len(rec) != len(parts):
                if len(rec) == 0 and not any(x[0] == "list_push" for x in ev):
                    if want == "C15":
                        chk.undec("complete-after-all", "how parts are recorded is not followed")
                    return
                bad("C15", "complete-after-all", e, "completion names %d parts, %d were uploaded" % (len(rec), len(parts)), "count")
            if not failed and placed and up != end:
                bad("C15", "complete-after-all", e, "completion is requested when %d of %d bytes are uploaded" % (up, end), "early")
            if lost is not None:
                bad("C15", "complete-after-all", lost[0], "completion is requested although %s, whose upload failed, were never uploaded" % show(lost[1]), "lost")
            if cur is not None and cur[0] == "op_write":
                bad("C15", "complete-after-all", e, "the upload is completed by a write", "inwrite")
            good("C15", "complete-after-all", "%s: %d parts" % (desc, len(parts)))
            completed = e.r
        elif k == "op_done":
            if e.i >= 0:
                off, n = ops[e.i]
                must = off <= end
                back = off < flushed_before
                s3bad = [x for x in seg(ev, cur, e) if x[0].startswith("s3_") and "r" in x.d and x.r != 1]
                if lost is not None and e.r == 1 and n and off < up + sum(m for m, _, _ in lost[1]):
                    lost = None         # the caller wrote there again
                if failed:
                    continue
                if e.r == 1:
                    if n and not must:
                        bad("C16", "no-holes", e2(R.write), "a write at %d is accepted although only %d bytes were written" % (off, end), "hole")
                    if n and back:
                        bad("C16", "no-holes", e2(R.write), "a write at %d is accepted although %d bytes are uploaded already" % (off, up), "back")
                    if s3bad:
                        bad("C15", "failure-reported", e2(R.write), "a write reports success although %s failed" % s3bad[-1][0][3:], "wfail")
                    if n:
                        end = off + n
                    good("C16", "no-holes")
                    good("C15", "failure-reported")
                else:
                    if e.r == "throw" and want == "C15" and not s3bad:
                        pass
                    if n and off == end and not s3bad:
                        bad("C16", "no-holes", e2(R.write), "a write of %d bytes right at the end (%d) is refused" % (n, end), "refuse")
                    if n and not s3bad and len(parts) != up_before:
                        bad("C16", "no-holes", e2(R.write), "a refused write uploads data", "refup")
                    if not s3bad:
                        # refused: nothing changes
                        stream = [(q, min(m, end - q), x, o) for q, m, x, o in stream if q < end]
                        if off < end:
                            failed = True   # what was buffered there may be gone
                        good("C16", "no-holes")
                    else:
                        failed = True
            else:
                s3bad = [x for x in seg(ev, cur, e) if x[0].startswith("s3_") and "r" in x.d and x.r != 1]
                if e.r == 1:
                    if s3bad:
                        bad("C15", "failure-reported", e2(R.flush), "flush reports success although %s failed" % s3bad[-1][0][3:], "ffail")
                    if failed:
                        continue
                    if placed and up != end:
                        bad("C16", "flushed", e2(R.flush), "flush reports success with %d of %d bytes uploaded" % (up, end), "flushed")
                    if placed and end:
                        good("C16", "flushed", desc)
                    if parts and completed != 1:
                        bad("C15", "complete-after-all", e2(R.flush), "flush reports success although the upload of %d parts was not completed" % len(parts), "nocomplete")
                    if end:
                        good("C15", "complete-after-all")
                    good("C15", "failure-reported")
                elif not s3bad and not failed:
                    bad("C15", "failure-reported", e2(R.flush), "flush fails although every request succeeded", "spurious")


class e2:
    def __init__(s, f):
        s.site = site(f)


def prefix(a, b):
    """content a is the beginning of content b"""
    for i, (m, x, o) in enumerate(a):
        if i >= len(b) or b[i][1:] != (x, o) or (b[i][0] < m if i == len(a) - 1 else b[i][0] != m):
            return False
    return True


def seg(ev, a, b):
    i = next(i for i, x in enumerate(ev) if x is a)
    j = next(i for i, x in enumerate(ev) if x is b)
    return ev[i:j]


def show(segs):
    if segs and len(segs[0]) == 4:
        segs = norm(segs)
    return "+".join("%s[%s..+%d]" % (x, o, m) for m, x, o in segs) or "nothing"


def c15(chk):
    sinkcheck(chk, "C15")
    from .io import connection
    connection(chk, "request")
    for r, n in (("created-once", 5), ("part-numbers", 5), ("recorded-after-upload", 5), ("complete-after-all", 5), ("failure-reported", 20), ("own-object", 10)):
        chk.at_least(r, n)


def c16(chk):
    sinkcheck(chk, "C16")
    for r, n in (("in-bounds", 20), ("contents", 10), ("no-holes", 20), ("flushed", 1)):
        chk.at_least(r, n)
