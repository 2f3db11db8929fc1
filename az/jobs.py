"""Batches of background jobs: the functions that submit them, and the jobs themselves."""
from . import terms as t, models
from .terms import C, sym, ptr, cmp
from .interp import State, Obj, Budget, Unsupported
from .ir import Anchor
from .cg import Graph
from .mk import Mk, strip
from .lib import *

PUSH = "zarr::ThreadPool::push_job"
WRITE = 0


def sets_of(p):
    def names(*qs):
        return {f.n for q in qs for f in p.byq.get(q, [])}
    return (names(PUSH), names("std::latch::latch"), names("std::latch::wait", "std::latch::arrive_and_wait"))


def roots(p, g):
    """[(root function, [functions that submit])]"""
    push, ctor, wait = sets_of(p)
    if not push:
        raise Anchor("no " + PUSH)
    if not ctor or not wait:
        raise Anchor("no std::latch used to wait for jobs")
    subs = [f for f in g.callers(push) if f.repo]
    res = {}
    callers = {}
    for f in p.fns.values():
        if f.blocks and f.repo:
            for c in g.edges(f.n)[0]:
                callers.setdefault(c, []).append(f)
    lost = []
    for f in subs:
        todo, seen = [f], set()
        hit = None
        while todo and hit is None:
            x = todo.pop(0)
            if x.n in seen:
                continue
            seen.add(x.n)
            r = g.reach(x.n)
            if r & ctor and r & wait:
                hit = x
                break
            todo += callers.get(x.n, [])
        if hit is None:
            lost.append(f)
            continue
        # a helper told what to do, or how often, is judged where it is told
        todo, seen = [hit], set()
        while todo:
            x = todo.pop(0)
            if x.n in seen:
                continue
            seen.add(x.n)
            up = [y for y in callers.get(x.n, []) if y.n not in seen] if generic(x) else []
            if up:
                todo += up
            else:
                res.setdefault(x.n, []).append(f)
    return [(p.fns[n], l) for n, l in sorted(res.items())], lost


def generic(f):
    """does what this function hands to the pool depend on a callable or a number given to it?"""
    for ty in f.pt:
        b = strip(ty)
        if b.startswith("std::function<") or b in models.PRIM or "lambda" in b or "'lambda" in b or "$_" in b:
            return True
    return False


def mangled(cls):
    ps = cls.split("::")
    return "_ZTS" + ("N" + "".join("%d%s" % (len(x), x) for x in ps) + "E" if len(ps) > 1 else "%d%s" % (len(ps[0]), ps[0]))


def set_vptr(p, st, b, cls):
    """give an object its class's virtual table"""
    own = "_ZTV" + mangled(cls)[4:]
    for k, l in p.vt.items():
        for g, ap_ in l:
            if g == own:
                st.wobj(b).c[0] = (ptr(("G", g), ap_), 8)
                return True
    return False


class Geo:
    """a concrete geometry: list of (array, chunk, shard)"""

    def __init__(s, *dims):
        s.d = dims

    @staticmethod
    def up(a, b):
        return (a + b - 1) // b

    def chunks(s):
        n = 1
        for a, c, _ in s.d[1:]:
            n *= s.up(a, c)
        return n

    def shards(s):
        n = 1
        for a, c, h in s.d[1:]:
            n *= s.up(s.up(a, c), h)
        return n

    def per_shard(s):
        n = 1
        for _, _, h in s.d:
            n *= h
        return n

    def shard_of(s, i):
        """(shard, place inside the layer of that shard) of chunk number i of one layer"""
        ix = []
        for a, c, h in reversed(s.d[1:]):
            n = s.up(a, c)
            ix.append(i % n)
            i //= n
        ix.reverse()
        sh = sl = 0
        for (a, c, h), x in zip(s.d[1:], ix):
            sh = sh * s.up(s.up(a, c), h) + x // h
            sl = sl * h + x % h
        return sh, sl

    def __repr__(s):
        return "x".join("%d/%d/%d" % d for d in s.d)


GEOS = [Geo((0, 2, 1), (4, 2, 1), (3, 2, 1)),            # 4 chunks in 4 shards
        Geo((0, 2, 3), (4, 2, 2), (5, 2, 2)),            # 6 chunks in 2 shards, 3 layers
        Geo((0, 1, 2), (2, 1, 2), (2, 2, 1), (1, 1, 1))]  # 2 chunks in 1 shard


def fill_dims(p, st, mk, path, geo):
    """cell handler: put a concrete ArrayDimensions at a dimensions object"""
    fo = {n: o for n, o, _, _ in p.fields("ZarrDimension")}
    for k in ("array_size_px", "chunk_size_px", "shard_size_chunks"):
        if k not in fo:
            raise Anchor("ZarrDimension." + k)
    sz = p.records["ZarrDimension"]["size"]
    off, _, _ = field(p, "ArrayDimensions", ty=lambda x: "vector<" in x)
    b, o = mk.objs[path]
    v = heap(st, path + ".dims[]")
    for i, (a, c, h) in enumerate(geo.d):
        put(st, v, i * sz + fo["array_size_px"], C(32, a))
        put(st, v, i * sz + fo["chunk_size_px"], C(32, c))
        put(st, v, i * sz + fo["shard_size_chunks"], C(32, h))
    n = len(geo.d) * sz
    put(st, b, o + off, ptr(v, 0))
    put(st, b, o + off + 8, ptr(v, n))
    put(st, b, o + off + 16, ptr(v, n))


class Setup:
    """Abstract receiver and arguments for a function that submits jobs."""

    def __init__(s, p, st, f, n=2, geo=None, nulls=(), sinks=None, cells=None):
        s.p, s.st, s.f = p, st, f
        geo = geo or GEOS[0]
        s.geo = geo
        v3 = "V3" in f.ctx
        nsinks = sinks if sinks is not None else (geo.shards() if v3 else geo.chunks())

        def count(path, ty):
            if ty.startswith("std::vector<std::vector<std::byte"):
                return geo.chunks()
            if ty.startswith("std::vector<std::vector<unsigned long"):
                return geo.shards()
            if ty.startswith("std::vector<unsigned long"):
                return 2 * geo.per_shard() if "[" in path else geo.shards()
            if ty.startswith("std::vector<std::unique_ptr<zarr::Sink"):
                return nsinks
            if ty.startswith("std::vector<std::byte"):
                return sym("bytes:" + path, 64)
            return n

        def cell(path, ty, b, o):
            if cells and cells(path, ty, b, o):
                return True
            if ty == "ArrayDimensions":
                s.mk.objs[path] = (b, o)
                fill_dims(p, st, s.mk, path, geo)
                return True
            return False
        s.mk = Mk(p, st, count, cell, lambda path, ty: any(x in path for x in nulls))
        s.args = []
        pt = list(f.pt)
        k = 0
        if f.ctx in p.records:
            s.this = s.mk.obj(f.ctx, "this")
            set_vptr(p, st, s.this, f.ctx)
            s.args.append(ptr(s.this, 0))
        for i, ty in enumerate(pt):
            b = strip(ty)
            nm = "arg%d" % i
            if ty.strip().endswith("&") or ty.strip().endswith("&&"):
                s.args.append(ptr(s.mk.obj(b, nm), 0))
            elif b.startswith("std::basic_string_view<"):
                x = sym(nm, 0)
                s.args += [t.slen(x), models.strptr(x)]
            elif b.startswith("std::span<"):
                s.args += [sym(nm + ".data", 64), sym(nm + ".size", 64)]
            elif b.endswith("*"):
                s.args.append(ptr(s.mk.obj(b[:-1], nm), 0))
            elif b.startswith("std::__cxx11::basic_string<") or b.startswith("std::function<") or b.startswith("std::vector<") or b.startswith("std::unique_ptr<") or b.startswith("std::shared_ptr<"):
                s.args.append(ptr(s.mk.obj(b, nm), 0))
            else:
                s.args.append(sym(nm, 8 * (models.PRIM.get(b) or 4)) if b != "bool" else sym(nm, 1))
        # a member of a local or otherwise unknown class: it can only be judged inside its callers
        s.partial = len(s.args) + (f.params[:1] == ["sret"]) != len(f.params)


class Jobs:
    """Interpreter set up for code that submits jobs.
    mode 'note': a submission only records the job; mode 'run': the job runs at once."""

    def __init__(s, chk, mode, limit=None):
        s.chk, s.mode = chk, mode
        s.p = chk.p
        s.I = quiet_log(chk.interp())
        s.I.over[PUSH] = s.push
        s.I.vcall = s.vcall
        s.I.fs_throws = True
        s.seen = {}
        s.jobs = []          # (snapshot, functor pointer, invoker name, site)
        s.stopped = sym("pool.stopped", 1)
        s.write_throws = True
        s.write_fails = True
        s.refuse = False         # submissions may be refused (as one of the failing operations)
        s.fail_budget = None     # at most so many failing operations per path
        s.sinkcls = "_ZTSN4zarr4SinkE"
        s.watch = None           # told when a job starts and ends (Watch of race.py)

    def may(s, st):
        """may one more operation fail?"""
        return s.fail_budget is None or st.cnt.get("sinkfail", 0) < s.fail_budget

    def broken(s, st):
        s2 = st.fork()
        s2.cnt["sinkfail"] = s2.cnt.get("sinkfail", 0) + 1
        return s2

    def vcall(s, J, st, c, cls, off, cands):
        if not any("Sink" in g.ctx for g in cands):
            return None
        base = cands[0].base if cands else ""
        sink = c.args[0]
        if J.access is not None and sink.op == "ptr":
            J.access(st, t.split(sink)[0], C(64, 0), 8, "w", False, c.ctx)
            a = c.args
            if base == "write" and len(a) > 3 and a[2].op == "ptr":
                J.access(st, *t.split(a[2]), t.cv(a[3]) if a[3].op == "c" else None, "r", False, c.ctx)
        if base.startswith("~"):
            J.emit(st, "sinkdtor", c.ctx, sink=sink)
            return [(st, "ret", None)]
        a = tuple(c.args[1:])
        outs = []
        fails = s.write_fails and (s.fail_budget is None or st.cnt.get("sinkfail", 0) < s.fail_budget)
        for r in (0,) if J.sick and J.sick(st, base) else (1, 0) if fails else (1,):
            s2 = st.fork()
            if not r:
                s2.cnt["sinkfail"] = s2.cnt.get("sinkfail", 0) + 1
                if J.sick:
                    J.sick(s2, base, True)
            J.emit(s2, "sink_" + base, c.ctx, sink=sink, args=a, r=r, held=models.held(s2))
            outs.append((s2, "ret", C(1, r)))
        if s.write_throws and fails:
            s2 = st.fork()
            s2.cnt["sinkfail"] = s2.cnt.get("sinkfail", 0) + 1
            J.emit(s2, "sink_" + base, c.ctx, sink=sink, args=a, r="throw", held=models.held(s2))
            outs.append((s2, "exc", J.make_exc(s2, c, "_ZTISt13runtime_error")))
        return outs

    def push(s, J, st, c):
        fo = c.args[1]
        inv = J.load(st, ptr(t.split(fo)[0], t.add(t.split(fo)[1], C(64, 24))), 8, 64)
        outs = []
        no = None if s.refuse and not s.may(st) else allow(st, J, s.stopped)
        if s.refuse and s.may(st):
            no = s.broken(st)
        yes = allow(st, J, s.stopped, False)
        if st.cnt.get("stopped"):
            no, yes = st, None
        if no is not None:
            J.emit(no, "refused", c.ctx, held=models.held(no))
            outs.append((no, "ret", C(1, 0)))
        if yes is not None:
            name = inv.a[0] if inv.op == "fn" else None
            J.emit(yes, "submit", c.ctx, inv=name, held=models.held(yes))
            if s.mode == "note":
                k = (name, s.closure(yes, fo), tuple(sorted(map(str, models.held(yes)))))
                if k not in s.seen:
                    s.seen[k] = 1
                    snap = yes.fork()
                    snap.trace = None
                    s.jobs.append((snap, fo, name, s.I.repo_site(c.ctx), tuple(models.held(yes))))
                outs.append((yes, "ret", C(1, 1)))
            else:
                if name is None or name not in s.p.fns:
                    raise Unsupported("job without a known body")
                h = yes.props.pop("held", None)
                err = J.alloc(yes, c.ctx, "E")
                models.sets(J, yes, ptr(err, 0), t.lit(""))
                ctx = s.watch.begin(yes, c, fo, err, s.p.fns[name]) if s.watch else c.ctx
                for s2, k, v in s.I.run(yes, s.p.fns[name], [fo, ptr(err, 0)], ctx, c.depth + 1):
                    if k == "dead":
                        continue
                    if s.watch:
                        s.watch.end(s2)
                    if h:
                        s2.props["held"] = h
                    for r in (1, 0):
                        s3 = s2 if k == "exc" else allow(s2, J, t.trunc(v, 1), bool(r))
                        if s3 is None or (k == "exc" and r):
                            continue
                        J.emit(s3, "jobdone", c.ctx, inv=name, r="throw" if k == "exc" else r)
                        outs.append((s3, "ret", C(1, 1)))
        return outs

    def closure(s, st, fo):
        b, o = t.split(fo)
        out = []
        for k in (0, 8):
            v = s.I.load(st, ptr(b, t.add(o, C(64, k))), 8, 64)
            out.append(v)
            bb = t.split(v)[0] if v.op == "ptr" else None
            if bb in st.mem and bb[0] != "A":
                out.append(st.mem[bb].key())
            elif bb in st.mem:
                out.append(1)
        return tuple(map(str, out))

    def scalars(s, job):
        """scalar values captured by a job (constants only: symbols count as one value)"""
        st, fo = job[0], job[1]
        b, o = t.split(fo)
        out = []
        for k in (0, 8):
            v = s.I.load(st, ptr(b, t.add(o, C(64, k))), 8, 64)
            if v.op == "ptr" and k == 0 and v.a[0] in st.mem:
                for off, c in sorted(st.mem[v.a[0]].c.items(), key=str):
                    x = c[0] if isinstance(c, tuple) else c
                    if hasattr(x, "op") and x.op == "c" and x.bits == 8:
                        out.append((off, t.cv(x)))
                    elif hasattr(x, "op") and x.op not in ("ptr", "c"):
                        out.append((off, "?"))
        return tuple(map(str, out))

    def explore(s, setup, root, max_outs=4000):
        return s.I.run(setup.st, root, setup.args)

    def run_job(s, job, prep=None):
        """-> (I, outcomes, base of the error string, latch events...)"""
        snap, fo, name, st_, held = job
        J2 = Jobs(s.chk, "note")
        I = J2.I
        if prep:
            prep(I)
        st = snap.fork()
        st.trace = None
        st.props = {}
        err = heap(st, "joberr")
        models.sets(I, st, ptr(err, 0), t.lit(""))
        pre = set(st.mem)
        clos = {t.split(fo)[0]}
        for k in (0, 8):
            v = I.load(st, ptr(t.split(fo)[0], t.add(t.split(fo)[1], C(64, k))), 8, 64)
            if v.op == "ptr" and v.a[0][0] == "H" and k == 0:
                clos.add(v.a[0])
        foreign = lambda b: b not in clos and b != err and (b in pre or b[0] in ("S", "L", "M", "Q")) and b[0] != "G"

        def late(J, st_, p, cx, what, loc=None):
            if st_.props.get("signalled") and foreign(t.split(p)[0]):
                J.emit(st_, "late", cx, what=what, at=p)

        def on_load(J, st_, p, q, bits, f, cx):
            late(J, st_, p, cx, "read")
            if q.get("atomic") and t.split(p)[0] in pre:
                k = st_.cnt.get("atom", 0)
                st_.cnt["atom"] = k + 1
                return sym(("atomic", k), bits)
            return None

        def on_store(J, st_, p, v, q, f, cx):
            late(J, st_, p, cx, "write")
        I.on_load, I.on_store = on_load, on_store

        def hook(J, st_, e):
            if e[0] == "latch_count_down":
                st_.props["signalled"] = st_.props.get("signalled", 0) + 1
            elif st_.props.get("signalled"):
                for k in ("v", "d", "src", "at", "sink", "m", "q", "l"):
                    v = e.d.get(k)
                    if v is not None and hasattr(v, "op") and v.op == "ptr" and foreign(v.a[0]) and e[0] != "late":
                        J.emit(st_, "late", None, what="use (%s)" % e[0], at=v)
                        break
        I.hooks.append(hook)
        f = s.p.fns.get(name)
        if f is None or not f.blocks:
            raise Unsupported("job without a known body")
        return J2, f, I.run(st, f, [fo, ptr(err, 0)]), err
