"""C10: locks, waits and what is waited for."""
from ..stream import *
from ..check import path
from ..jobs import Jobs, sets_of
from ..mk import strip
from .. import models
from . import pool as PO, s3 as S
from .life import S3VAL, STORE
from .logger import logs, args_of
from ..cg import Graph

WAITS = ("latch_wait", "latch_arrive_and_wait", "join", "await_stop")


class Order:
    """which lock is taken while which is held; locks by (run, address)"""

    def __init__(s, chk):
        s.chk = chk
        s.edges = {}

    def follow(s, what, events, name=lambda m: t.show(m)):
        """locks of one path in order; reports locks taken twice"""
        for e in events:
            if e[0] != "lock":
                continue
            if e.m in e.held:
                s.chk.bad("once", e.site, "%s: takes a lock it already holds" % what, key="relock|" + e.site.split(" (")[-1])
                return False
            s.chk.ok("once", "%s: %s" % (what, e.site))
            for h in e.held:
                s.edges.setdefault(h, {}).setdefault(e.m, e.site)
        return True

    def cycle(s, what):
        done = set()
        for a in s.edges:
            todo, par = [a], {a: None}
            while todo:
                x = todo.pop()
                for y, site_ in s.edges.get(x, {}).items():
                    if y == a:
                        loop = [site_]
                        while par[x] is not None:
                            x, q = par[x]
                            loop.append(q)
                        s.chk.bad("order", loop[-1], "%s: two locks are taken in opposite orders, here and at %s" % (what, loop[0]), key="order|" + "|".join(sorted(z.split(" (")[-1] for z in loop)))
                        return
                    if y not in par:
                        par[y] = (x, site_)
                        todo.append(y)
            done.add(a)
        s.chk.ok("order", "%s: %d pairs of locks nested" % (what, sum(map(len, s.edges.values()))))


def free(chk, what, st, k):
    """no lock is held when control goes back"""
    h = models.held(st)
    if h:
        l = [e for e in st.events() if e[0] == "lock" and e.m in h]
        chk.bad("released", l[-1].site if l else "?", "%s: the lock taken here is still held when control %s" % (what, "leaves with an exception" if k == "exc" else "goes back to the caller"), key="released|" + (l[-1].site.split(" (")[-1] if l else ""), path=path(st))
    else:
        chk.ok("released", what)


def c10(chk):
    pool_locks(chk)
    conn_locks(chk)
    log_locks(chk)
    getter_locks(chk)
    job_graph(chk)
    stream_locks(chk)
    chk.at_least("order", 5)
    chk.at_least("once", 10)
    chk.at_least("released", 10)
    chk.at_least("free-of-locks", 5)


def pool_locks(chk):
    """the thread pool: jobs and callbacks run, and threads wait, without its locks"""
    P = PO.setup(chk)
    if P is None:
        return
    p = chk.p
    O = Order(chk)
    taken = set()         # what workers take, as offsets within the pool
    for throws in (False,):
        I, b, runs, f = PO.worker_runs(chk, P, throws=throws)
        for ev, st, k in runs:
            O.follow("worker", ev)
            for e in ev:
                if e[0] == "lock":
                    bb, o = t.split(e.m)
                    taken.add(o if bb == b else e.m)
                elif e[0] in ("job", "handler"):
                    mine = [m for m in e.held if t.split(m)[0] == b]
                    if mine:
                        chk.bad("free-of-locks", e.site, "a worker runs %s while it holds the lock of the pool, which the %s needs to submit a job" % (("a job", "job") if e[0] == "job" else ("the error callback", "callback")), key="run|" + e[0], path=None)
                    else:
                        chk.ok("free-of-locks", "%s at %s" % (e[0], e.site))
                elif e[0] == "cvwait":
                    waits(chk, e, "worker")
            if k in ("ret", "exc"):
                free(chk, "worker", st, k)
    O.cycle("worker")
    I = quiet_log(chk.interp())
    I.hw = 8
    st = State()
    b = heap(st, "pool")
    eh = PO.fnobj(st, "handler")
    outs = []
    for s2, k, v in I.run(st, P.ctor, [ptr(b, 0), C(32, 3), ptr(eh, 0)]):
        if k != "dead":
            free(chk, "construction of the pool", s2, k)
        if k == "ret":
            outs.append(s2)
        for e in s2.events():
            if e[0] in WAITS:
                held_at(chk, e, b, taken, "construction of the pool")
    for f, args in [(P.push, 1), (P.stop, 0)] + [(d, 0) for d in P.dtor]:
        s2 = outs[0].fork()
        s2.trace = None
        PO.havoc(P, s2, b, "start")
        a = [ptr(b, 0)]
        if args:
            a.append(ptr(PO.fnobj(s2, "newjob"), 0))
        I.loop_cap, I.unroll = 1, 24
        for s3, k, v in I.run(s2, f, a):
            if k == "dead":
                continue
            ev = s3.events()
            O.follow(f.base, ev)
            for e in ev:
                if e[0] in WAITS:
                    held_at(chk, e, b, taken, f.base)
                elif e[0] == "cvwait":
                    waits(chk, e, f.base)
            free(chk, f.base, s3, k)
    O.cycle("thread pool")


def held_at(chk, e, b, taken, what):
    bad = [m for m in e.held if (t.split(m)[1] if t.split(m)[0] == b else m) in taken]
    if bad:
        chk.bad("wait", e.site, "%s waits for the workers while it holds a lock they need" % what, key="wait|" + what)
    else:
        chk.ok("wait", "%s at %s" % (what, e.site))


def waits(chk, e, what):
    other = [m for m in e.held if m is not e.m]
    if other:
        chk.bad("wait", e.site, "%s waits on a condition while it holds another lock (of %s)" % (what, t.show(other[0])), key="cv|" + e.site.split(" (")[-1])
    elif e.m not in e.held:
        chk.bad("wait", e.site, "%s waits on a condition with a lock it does not hold" % what, key="cvn|" + e.site.split(" (")[-1])
    else:
        chk.ok("wait", "%s at %s" % (what, e.site))


def conn_locks(chk):
    p = chk.p
    O = Order(chk)
    n_ = 0
    for n in (0, 1, 2):
        for f in p.fns.values():
            if f.ctx != S.POOL or not f.blocks or f.base in ("S3ConnectionPool",) or f.base[0] == "~" and not f.params == ["ptr"]:
                continue
            I = quiet_log(chk.interp())
            st, b, v, el = S.pool_obj(chk, I, State(), n)
            a = [ptr(heap(st, "res"), 0)] if "sret" in f.params else []
            a.append(ptr(b, 0))
            c = heap(st, "conn")
            for ty in f.pt:
                if "unique_ptr" in ty:
                    x = heap(st, "arg")
                    put(st, x, 0, ptr(c, 0))
                    a.append(ptr(x, 0))
                else:
                    a.append(sym("arg", 64))
            try:
                outs = I.run(st, f, a)
            except (Unsupported, Budget) as e:
                chk.undec("released", "%s: %s" % (f.q, e))
                continue
            for s2, k, _ in outs:
                if k == "dead":
                    continue
                n_ += 1
                ev = s2.events()
                O.follow(f.base, ev)
                for e in ev:
                    if e[0] == "cvwait":
                        waits(chk, e, f.base)
                free(chk, f.base, s2, k)
    if not n_:
        raise Anchor("no function of the connection pool")
    O.cycle("connection pool")


def log_locks(chk):
    p = chk.p
    O = Order(chk)
    L = logs(p)
    for f in L if chk.thorough else L[::max(1, len(L) // 6)]:
        for level in (0, 3):
            I = chk.interp()
            st, args, msg = args_of(I, f, level)
            for s2, k, v in I.run(st, f, args):
                if k == "dead":
                    continue
                ev = s2.events()
                if not O.follow("Logger::log", ev):
                    return
                for e in ev:
                    if e[0] in WAITS + ("cvwait",) and e.held:
                        chk.bad("wait", e.site, "a log call waits while it holds a lock", key="log")
                free(chk, "Logger::log", s2, k)
    for q in ("Logger::set_log_level", "Logger::get_log_level"):
        for f in fns(p, q):
            for s2, k, v in chk.interp().run(State(), f, [sym("level", 32)] if f.pt else []):
                if k != "dead":
                    O.follow(q, s2.events())
                    free(chk, q, s2, k)
    O.cycle("logger")


def getter_locks(chk):
    """who asks for an S3 connection holds none"""
    p = chk.p
    g = Graph(p)
    gs = {f.n for f in S.getters(p)}
    todo, done = [f for f in g.callers(gs) if f.repo], set()
    if not todo:
        raise Anchor("nobody asks for a connection")
    # functions that pass a connection on, and all that call users of connections
    while todo:
        f = todo.pop(0)
        if f.n in done or "ZarrStream" in f.n and f.params[:1] != ["ptr"]:
            continue
        done.add(f.n)
        J = Jobs(chk, "note")
        I = J.I
        I.fs_throws = False
        S.S3Env(I, p)
        st = State()
        try:
            su = S.Setup(p, st, f)
            if su.partial:
                up = [x for x in g.callers({f.n}) if x.repo]
                if not up:
                    chk.undec("one-connection", "%s: its arguments are unknown, and nobody calls it" % f.q)
                todo += up
                continue
            args = su.args
            if f.params and f.params[0] == "sret":
                args = [ptr(heap(st, "result"), 0)] + args
            outs = I.run(st, f, args)
        except (Unsupported, Budget) as e:
            chk.undec("one-connection", "%s: %s" % (f.q, e))
            continue
        passed = False
        for s2, k, v in outs:
            if k == "dead":
                continue
            own = ()
            for e in s2.events():
                if e[0] == "s3_get":
                    if e.out:
                        chk.bad("one-connection", e.site, "%s asks for an S3 connection while it holds one: with a single connection it waits for itself" % f.q, key="two|" + f.q, path=path(s2))
                        return
                    chk.ok("one-connection", "%s: %s" % (f.q, e.site))
                    own = own + (e.conn,)
                elif e[0] == "s3_put":
                    own = tuple(x for x in own if x != e.conn)
                elif e[0] in WAITS and own:
                    chk.bad("one-connection", e.site, "%s waits for jobs, which need a connection, while it holds one" % f.q, key="wait|" + f.q, path=path(s2))
                    return
            free(chk, f.q, s2, k)
            passed = passed or bool(s2.props.get("out"))
        if passed:
            todo += [x for x in g.callers({f.n}) if x.repo]


def job_graph(chk):
    """no job waits for other jobs"""
    p = chk.p
    g = Graph(p)
    _, _, wait = sets_of(p)
    stop = {f.n for q in ("zarr::ThreadPool::await_stop", "zarr::ThreadPool::~ThreadPool", "std::thread::join", "std::latch::wait", "std::latch::arrive_and_wait") for f in p.byq.get(q, [])} | wait
    jobs = [f for f in p.fns.values() if f.blocks and f.base == "_M_invoke" and ("_Function_handler<bool (std::" in f.dem and "basic_string" in f.dem.split("zarr::")[0] and "&)" in f.dem.split("zarr::")[0])]
    if len(jobs) < 5:
        raise Anchor("only %d kinds of jobs found" % len(jobs))
    hand = [f for f in p.fns.values() if f.blocks and f.base == "_M_invoke" and "_Function_handler<void (std::" in f.dem and "basic_string" in f.dem.split("const&")[0]]
    for f in jobs + hand:
        pa = g.path(f.n, lambda x: x in stop)
        what = "a job" if f in jobs else "the error callback"
        if pa:
            sites = [site(p.fns[x]) for x in pa if x in p.fns and p.fns[x].repo]
            chk.bad("jobs-do-not-wait", sites[-1] if sites else site(f), "%s waits for other jobs or threads (%s): with one worker nobody is left to run them" % (what, " -> ".join(p.fns[x].q.split("<")[0] if x in p.fns else x for x in pa)[:300]), key="wait|" + site(f).split(" (")[-1])
        else:
            chk.ok("jobs-do-not-wait", "%s %s: %d functions reached" % (what, site(f), len(g.reach(f.n))))
    chk.at_least("jobs-do-not-wait", 5)


def stream_locks(chk):
    T, CH, Z, O_ = 2, 1, 0, 3
    fams = [(((0, 2, 1), (4, 2, 1), (4, 2, 1)), (T, Z, Z), 3)]
    if chk.thorough:
        fams += [(((0, 1, 2), (2, 1, 1), (4, 2, 2), (3, 2, 1)), (T, CH, Z, Z), 5)]
    for ver in (2, 3):
        for dims, types, n in fams:
            for s3 in (False, True):
                for comp, multi, fail in ((None, False, False), (dict(compressor=1, codec=1), True, False), (dict(compressor=1, codec=1), False, True)):
                    stream_life(chk, ver, dims, types, n, s3, comp, multi, fail)


def stream_life(chk, ver, dims, types, n, s3, comp, multi, fail):
    what = "version %d, %s, %d frames%s%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), n, ", S3" if s3 else "", ", compressed" if comp else "", ", multiscale" if multi else "", ", one failure" if fail else "")
    K = Created(chk, dims, types, version=ver, s3=s3, val=dict(S3VAL) if s3 else None, store=STORE, comp=comp, multiscale=multi)
    I = K.I
    hs = []

    def ctor(J, s_, c):
        keep = heap(s_, "handler kept")
        J.memcpy(s_, ptr(keep, 0), c.args[2], C(64, 32), None)
        hs.append(ptr(keep, 0))
        return None
    I.over[POOLC] = ctor
    ends = []
    hlocks = {}
    try:
        if fail:
            K.unreliable(True)
        good = K.run()
        ends += [(a.fork(), k, "creation") for a, k, v in K.outs]
        frame = dims[-1][0] * dims[-2][0] * 2
        for st, stream in good:
            for a, k, v, x in K.append(st, stream, n * frame):
                ends.append((a.fork(), k, "append"))
                if k == "ret":
                    ends += [(b, k2, "destruction") for b, k2, _ in K.destroy(a, stream)]
        # the error callback of this stream
        if good and hs:
            a = good[0][0]
            a.trace = None
            a.props.pop("held", None)
            b, o = t.split(hs[0])
            inv = I.load(a, ptr(b, t.add(o, C(64, 24))), 8, 64)
            if inv.op == "fn":
                m = heap(a, "jobmsg")
                models.sets(I, a, ptr(m, 0), sym("jobmsg", 0))
                for b2, k2, _ in I.run(a, K.p.fns[inv.a[0]], [hs[0], ptr(m, 0)]):
                    if k2 == "dead":
                        continue
                    free(chk, what + ": error callback", b2, k2)
                    for e in b2.events():
                        if e[0] == "lock":
                            hlocks.setdefault(e.m, e.site)
    except (Unsupported, Budget) as e:
        chk.undec("order", "%s: %s" % (what, e))
        return
    if I.inexact():
        chk.undec("order", "%s: not followed exactly (%s)" % (what, I.inexact()))
        return
    if not good:
        chk.undec("order", "%s: no stream" % what)
        return
    O = Order(chk)
    jlocks = dict(hlocks)     # what jobs and the callback take
    for st, k, _ in ends:
        injob = False
        for e in st.events():
            if e[0] == "submit":
                injob = True
            elif e[0] == "jobdone":
                injob = False
            elif e[0] == "lock" and injob:
                jlocks.setdefault(e.m, e.site)
    for st, k, when in ends:
        if not O.follow("%s: %s" % (what, when), st.events()):
            return
        free(chk, "%s: %s" % (what, when), st, k)
        injob = False
        for e in st.events():
            if e[0] == "submit":
                injob = True
            elif e[0] == "jobdone":
                injob = False
            elif e[0] in WAITS:
                if injob:
                    chk.bad("jobs-do-not-wait", e.site, "%s: a job waits for other jobs" % what, key="in job|" + e.site.split(" (")[-1])
                    return
                bad = [m for m in e.held if m in jlocks]
                if bad:
                    chk.bad("wait", e.site, "%s: waits for jobs while it holds a lock that they take at %s" % (what, jlocks[bad[0]]), key="wait|" + e.site.split(" (")[-1], path=None)
                    return
                chk.ok("wait", "%s: %s" % (what, e.site))
            elif e[0] == "s3_get" and e.out:
                chk.bad("one-connection", e.site, "%s: asks for an S3 connection while it holds one" % what, key="two|" + e.site.split(" (")[-1])
                return
            elif e[0] == "cvwait":
                waits(chk, e, what)
    O.cycle(what)
