"""C05, C10 (pool part): the thread pool, from its constructor, its public functions and the entry of its threads."""
from ..interp import State, Obj, Unsupported, Budget
from .. import terms as t, models
from ..terms import sym, ptr, C, ap, cmp
from ..lib import *
from ..check import path

POOL = "zarr::ThreadPool"


def fnobj(st, name, nonempty=True):
    """a std::function with unknown target"""
    b = heap(st, name)
    fill_fn(st, b, name, nonempty)
    return b


def fill_fn(st, b, name, nonempty=True):
    m, i = sym(name + ".manager", 64), sym(name + ".invoker", 64)
    put(st, b, 0, sym(name + ".functor0", 64))
    put(st, b, 8, sym(name + ".functor1", 64))
    put(st, b, 16, m)
    put(st, b, 24, i)
    if nonempty:
        st.facts[cmp("eq", m, C(64, 0))] = False
        st.facts[cmp("eq", i, C(64, 0))] = False


class Pool:
    def __init__(s, chk):
        s.chk = chk
        p = chk.p
        s.ctor = [f for f in fns(p, POOL + "::ThreadPool") if f.blocks][0]
        s.dtor = [f for f in p.find(POOL + "::~ThreadPool") if f.blocks]
        s.push = [f for f in fns(p, POOL + "::push_job") if f.blocks][0]
        s.stop = [f for f in fns(p, POOL + "::await_stop") if f.blocks][0]
        s.rec = p.records[POOL]
        fl = p.fields(POOL)
        s.queues = [o for n, o, sz, ty in fl if "std::queue<" in ty or "std::deque<" in ty or "std::list<" in ty]
        s.mutexes = [o for n, o, sz, ty in fl if ty.startswith("std::mutex") or "_mutex" in ty]
        if not s.queues:
            raise Anchor("ThreadPool has no job queue field")

    def build(s, n, hw, want=None, refuse=None):
        """-> (I, [(state after construction, base)])"""
        I = quiet_log(s.chk.interp())
        I.hw = hw
        I.no_thread_at = refuse
        I.closed = []
        st = State()
        b = heap(st, "pool")
        eh = fnobj(st, "handler")
        starts = []

        def watch(J, st_, e):
            if e[0] == "thread_start":
                starts.append((e, dict(st_.mem[b].c)))
        I.hooks.append(watch)
        outs = []
        for s2, k, v in I.run(st, s.ctor, [ptr(b, 0), C(32, n), ptr(eh, 0)]):
            outs.append((s2, k))
        I.hooks.remove(watch)
        return I, b, outs, starts

    def flags(s):
        """cells of the pool that await_stop sets: {offset: value}"""
        I, b, outs, _ = s.build(1, 8)
        res = {}
        for st, k in outs:
            if k != "ret":
                continue
            before = dict(st.mem[b].c)
            seen = {}

            def on_store(J, st_, p, v, q, f, cx):
                bb, o = t.split(p)
                if bb == b and o.op == "c":
                    seen.setdefault(t.cv(o), []).append((v, models.held(st_), bool(q.get("atomic")) or q["op"] != "store"))
            I.on_store = on_store
            for s2, k2, v2 in I.run(st.fork(), s.stop, [ptr(b, 0)]):
                pass
            I.on_store = None
            for o, l in seen.items():
                if not any(q <= o < q + 80 for q in s.queues) and l[-1][0].op == "c":
                    res[o] = l
            s.before = {o: before.get(o) for o in res}
            break
        return res


def setup(chk):
    P = Pool(chk)
    fl = P.flags()
    fl = {o: l for o, l in fl.items() if P.before.get(o) and P.before[o][0].op == "c" and t.cv(P.before[o][0]) != t.cv(l[-1][0])}
    if not fl:
        chk.bad("stop-flag", site(P.stop), "await_stop records no stop request that push_job and the workers could see", key="flag")
        return None
    P.flag = fl
    return P


def havoc(P, st, b, tag):
    """what other threads may have done to the shared state: flag and queue take any value"""
    n = st.cnt.get("havoc", 0) + 1
    st.cnt["havoc"] = n
    for o, l in P.flag.items():
        f = sym("~stopflag%d@%d" % (n, o), 8)
        st.wobj(b).c[o] = (f, 1)
        # a flag holds one of its two values
    for q in P.queues:
        h, tl = sym("~qhead%d" % n, 64), sym("~qtail%d" % n, 64)
        qid = sym("~queue%d" % n, 64)
        for k, v in (("qh", h), ("qt", tl), ("qid", qid)):
            models.qset(None, st, ptr(b, q), k, v)
        e = ("Q", qid, "*")
        st.mem[e] = Obj({}, (), 0, st.tok)
        fill_fn(st, e, "~job%d" % n)
    return n


def possible(P, st, n, running, njobs):
    """may the shared state of havoc n have been: running?, njobs queued"""
    env = {}
    for o, l in P.flag.items():
        off = t.cv(l[-1][0])
        on = t.cv(P.before[o][0])
        env[sym("~stopflag%d@%d" % (n, o), 8)] = on if running else off
    env[sym("~qhead%d" % n, 64)] = 40
    env[sym("~qtail%d" % n, 64)] = 40 + njobs
    return consistent(st, env, {}) is not False


def worker_runs(chk, P, n_threads=1, throws=False, prepare=None):
    """explore a worker from its thread entry; -> (I, base, list of (events, state, kind))"""
    I, b, outs, starts = P.build(n_threads, 8)
    if prepare:
        prepare(I)
    if not starts:
        raise Anchor("the pool starts no thread")
    e, _ = starts[0]
    if not e.run:
        raise Anchor("thread entry not resolved")
    st0 = next(s_ for s_, k in outs if k == "ret").fork()
    st0.trace = None
    havoc(P, st0, b, "start")

    def on_lock(J, st, c, m):
        bb, o = t.split(m)
        if bb == b:
            n = havoc(P, st, b, "lock")
            J.emit(st, "havoc", c.ctx, n=n, m=m)

    def on_wait(J, st, c, mu):
        n = havoc(P, st, b, "wait")
        J.emit(st, "havoc", c.ctx, n=n, m=mu)
        return None

    def icall(J, st, c, tgt):
        nm = t.show(tgt)
        if nm.endswith(".manager"):
            return [(st, "ret", J.fresh(st, ("mgr", c.ctx), J.tyinfo(c.inst.get("ty", "i1"), 1)) if "id" in c.inst else None)]
        if nm.startswith("~job") and nm.endswith(".invoker"):
            k = int(nm[4:].split(".")[0])
            outs = []
            err = c.args[1] if len(c.args) > 1 else None
            for r, msg in ((1, None), (0, "failed"), (0, "")):
                s2 = st.fork()
                if err is not None and msg is not None:
                    models.sets(J, s2, err, t.cat(t.lit(msg), sym("~rest of message %d" % k, 0)) if msg else t.lit(msg))
                J.emit(s2, "job", c.ctx, n=k, r=r, msg=msg, held=models.held(s2))
                outs.append((s2, "ret", C(1, r)))
            if throws:
                s2 = st.fork()
                J.emit(s2, "job", c.ctx, n=k, r="throw", msg=None, held=models.held(s2))
                outs.append((s2, "exc", J.make_exc(s2, c, "_ZTISt13runtime_error")))
            return outs
        if nm == "handler.invoker":
            x = models.gets(J, st, c.args[1]) if len(c.args) > 1 else None
            J.emit(st, "handler", c.ctx, msg=x, held=models.held(st))
            return [(st, "ret", None)]
        return None
    I.on_lock, I.on_wait, I.icall = on_lock, on_wait, icall
    I.closed = []
    I.loop_cap = 1
    I.unroll = 0
    I.hooks = []
    f = chk.p.fns[e.run]
    res = I.run(st0, f, [e.state])
    runs = [(s_.events(), s_, k) for s_, k, v in res]
    runs += [(s_.events(), s_, "loop") for s_, _f, _b in I.closed]
    if I.truncated:
        chk.undec("worker", "%d paths cut" % I.truncated)
    return I, b, runs, f


def c05(chk):
    P = setup(chk)
    if P is None:
        return
    p = chk.p
    # ---- construction
    for n in (0, 1, 2, 4, 1000) + ((3, 7, 8, 9, 64, 0xffffffff) if chk.thorough else ()):
        for hw in (0, 1, 8) + ((2, 3, 64) if chk.thorough else ()):
            if n > 70 and hw > 64:
                continue
            I, b, outs, starts = P.build(n, hw)
            for s2, k in outs:
                c = sum(1 for e in s2.events() if e[0] == "thread_start")
                if k == "ret" and c < 1:
                    chk.bad("some-worker", site(P.ctor), "asked for %d threads on a machine reporting %d: no worker is started" % (n, hw), key="workers")
                elif k == "ret":
                    chk.ok("some-worker", "n=%d hw=%d: %d workers" % (n, hw, c))
            for e, cells in starts:
                for o in P.flag:
                    if o not in cells or cells[o][0] != P.before[o][0]:
                        chk.bad("ready-before-start", e.site, "a worker is started before the pool's state is set up", key="init")
                    else:
                        chk.ok("ready-before-start")
    chk.at_least("some-worker", 10)
    # ---- submission
    I, b, outs, _ = P.build(1, 8)
    st0 = next(s_ for s_, k in outs if k == "ret").fork()
    st0.trace = None
    havoc(P, st0, b, "start")

    def on_lock(J, st, c, m):
        n = havoc(P, st, b, "lock")
        J.emit(st, "havoc", c.ctx, n=n, m=m)
    I.on_lock = on_lock
    job = fnobj(st0, "newjob")
    acc = 0
    M = None
    pushes = I.run(st0, P.push, [ptr(b, 0), ptr(job, 0)])
    for val in (1, 0):
        for s2, k, v in pushes:
            if k == "exc":
                continue
            s3 = allow(s2, I, t.trunc(v, 1) if v.bits > 1 else v, bool(val))
            if s3 is None:
                continue
            ev = s3.events()
            pu = [i for i, e in enumerate(ev) if e[0] == "q_push"]
            if not val:
                if pu:
                    chk.bad("refused-not-run", ev[pu[0]].site, "a job whose submission reports failure is queued", key="push0", path=path(s3))
                else:
                    chk.ok("refused-not-run")
                continue
            if len(pu) != 1:
                chk.bad("accepted-queued", site(P.push), "a submission reporting success queues the job %d times" % len(pu), key="push1", path=path(s3))
                continue
            i = pu[0]
            hv = [e for e in ev[:i] if e[0] == "havoc"]
            if not models_held(ev[i]):
                chk.bad("push-locked", ev[i].site, "the job queue is changed without holding the lock", key="push", path=path(s3))
                continue
            M = models_held(ev[i])[-1]
            n = hv[-1].n if hv else 1
            if possible(P, s3, n, False, 0) or possible(P, s3, n, False, 1):
                chk.bad("no-push-after-stop", ev[i].site, "a job can be queued after a stop request (the accepting flag is not read in the critical section of the push)", key="stop", path=path(s3))
            else:
                chk.ok("no-push-after-stop", ev[i].site)
            nt = [j for j, e in enumerate(ev) if e[0] in ("notify_one", "notify_all")]
            lk = [j for j, e in enumerate(ev[:i]) if e[0] == "lock" and e.m == M]
            if not any(j > lk[-1] for j in nt):
                chk.bad("wake-up", ev[i].site, "no worker is notified after the job is queued", key="notify", path=path(s3))
            else:
                chk.ok("wake-up", ev[i].site)
            acc += 1
            if s3.props.get("held"):
                chk.bad("unlocked", site(P.push), "returns holding the lock", key="push")
            # what is queued is the job
            qid = models.qcell(I, s3, ptr(b, P.queues[0]), "qid")
            tl = models.qcell(I, s3, ptr(b, P.queues[0]), "qt")
            el = [o for bb, o in s3.mem.items() if bb[0] == "Q" and bb[1] == qid]
            if el and not any(v_[0] == sym("newjob.invoker", 64) for o in el for v_ in o.c.values() if isinstance(v_, tuple)):
                chk.bad("accepted-queued", ev[i].site, "what is queued is not the job submitted", key="content", path=path(s3))
            else:
                chk.ok("accepted-queued", ev[i].site)
    if not acc and not chk.viol:
        raise Anchor("no accepting path in push_job")
    # ---- stop
    for f in [P.stop] + P.dtor:
        for nthr in (1, 3):
            I, b, outs, starts = P.build(nthr, 8)
            st0 = next(s_ for s_, k in outs if k == "ret").fork()
            st0.trace = None
            I.on_lock = lambda J, st, c, m: None
            stores = []

            def on_store(J, st_, pp, v, q, f_, cx):
                bb, o = t.split(pp)
                if bb == b and o.op == "c" and t.cv(o) in P.flag:
                    J.emit(st_, "flagstore", cx, v=v, held=models.held(st_), off=t.cv(o))
            I.on_store = on_store
            for s2, k, v in I.run(st0, f, [ptr(b, 0)]):
                if k != "ret":
                    continue
                ev = s2.events()
                fs = [i for i, e in enumerate(ev) if e[0] == "flagstore"]
                na = [i for i, e in enumerate(ev) if e[0] == "notify_all"]
                jo = [(i, e) for i, e in enumerate(ev) if e[0] in ("join", "detach")]
                if not fs:
                    chk.bad("stop-recorded", site(f), "a path stops the pool without recording the stop request", key="flag|" + f.base, path=path(s2))
                    continue
                i = fs[0]
                if not [m for m in models_held(ev[i]) if M is None or m == M]:
                    chk.bad("stop-locked", ev[i].site, "the stop request is recorded without holding the lock the workers wait with: a wake-up can be lost", key="lock|" + f.base, path=path(s2))
                else:
                    chk.ok("stop-locked", ev[i].site)
                lk = [j for j, e in enumerate(ev[:i]) if e[0] == "lock"]
                if not any(j > (lk[-1] if lk else -1) and j > i - 1 or (lk and j > lk[-1]) for j in na):
                    chk.bad("stop-wakes-all", ev[i].site, "not every waiting worker is woken after the stop request", key="notify|" + f.base, path=path(s2))
                else:
                    chk.ok("stop-wakes-all", ev[i].site)
                ids = [t.cv(e.d["id"]) for _, e in jo if e[0] == "join" and e.d["id"].op == "c"]
                want = [0x7000 + j + 1 for j in range(nthr)]
                if sorted(ids) != want or any(e[0] == "detach" for _, e in jo):
                    chk.bad("stop-joins", site(f), "%d workers started, %s joined" % (nthr, len(ids)), key="join|" + f.base, path=path(s2))
                elif any(j < i for j, _ in jo):
                    chk.bad("stop-joins", jo[0][1].site, "a worker is joined before the stop request is recorded", key="joinorder|" + f.base, path=path(s2))
                else:
                    chk.ok("stop-joins", "%s: %d" % (f.q, nthr))
                for _, e in jo:
                    if models_held(e):
                        chk.bad("join-unlocked", e.site, "joins a worker while holding the lock it needs", key="join|" + f.base, path=path(s2))
                    else:
                        chk.ok("join-unlocked")
                if f is P.stop and any(e[0] == "q_pop" for e in ev):
                    chk.bad("stop-keeps-jobs", site(f), "an orderly stop discards queued jobs", key="pop", path=path(s2))
                if s2.props.get("held"):
                    chk.bad("unlocked", site(f), "returns holding the lock", key=f.base)
    chk.at_least("stop-joins", 2)
    # ---- workers
    I, b, runs, f = worker_runs(chk, P)
    nw = nj = nx = 0
    for ev, st, kind in runs:
        pend = None         # a popped job not run yet
        run = {}
        cur = 1
        npop = {}
        for e in ev:
            if e[0] == "havoc":
                if pend is not None:
                    chk.bad("popped-run", e.site, "a job is taken from the queue and not run", key="lost", path=path(st))
                    pend = None
                cur = e.n
            elif e[0] == "cvwait" and not e.d.get("timed"):
                nw += 1
                m = st
                if possible(P, m, cur, True, 1) or possible(P, m, cur, True, 2):
                    chk.bad("no-lost-job", e.site, "a worker can block although a job is queued", key="wait-job", path=path(st))
                elif possible(P, m, cur, False, 0) or possible(P, m, cur, False, 1):
                    chk.bad("no-lost-stop", e.site, "a worker can block although a stop was requested", key="wait-stop", path=path(st))
                else:
                    chk.ok("waits", e.site)
                if not models_held(e) or (M is not None and e.m != M):
                    chk.bad("waits-locked", e.site, "waits with another lock than the one guarding the queue", key="wait-lock")
                if len(models_held(e)) > 1:
                    chk.bad("waits-locked", e.site, "blocks holding a second lock", key="wait-2")
            elif e[0] in ("q_pop", "q_front", "q_empty"):
                if not [m for m in models_held(e) if M is None or m == M]:
                    chk.bad("queue-locked", e.site, "the job queue is used without holding its lock", key=e[0], path=path(st))
                if e[0] == "q_pop":
                    nj += 1
                    if possible(P, st, cur, True, 0) or possible(P, st, cur, False, 0):
                        chk.bad("pop-nonempty", e.site, "a job can be taken from an empty queue", key="pop", path=path(st))
                    if pend is not None:
                        chk.bad("popped-run", e.site, "a job is taken from the queue and not run", key="lost", path=path(st))
                    pend = cur
                    npop[cur] = npop.get(cur, 0) + 1
            elif e[0] == "job":
                if e.held:
                    chk.bad("job-unlocked", e.site, "a job is run while holding %s" % t.show(e.held[-1]), key="job", path=path(st))
                if pend != e.n and run.get(e.n, 0) >= npop.get(e.n, 0):
                    chk.bad("once", e.site, "a job is run more often than it was taken from the queue" if e.n in npop else "a job still in the queue is run", key="twice", path=path(st))
                else:
                    chk.ok("once", e.site)
                run[e.n] = run.get(e.n, 0) + 1
                if pend == e.n:
                    pend = None
            elif e[0] == "handler":
                if e.held:
                    chk.bad("job-unlocked", e.site, "the error handler is called while holding a lock", key="handler", path=path(st))
        if kind == "ret":
            nx += 1
            if pend is not None:
                chk.bad("popped-run", site(f), "a worker ends with a job it has taken and not run", key="lost", path=path(st))
            if possible(P, st, cur, True, 0) or possible(P, st, cur, True, 1):
                chk.bad("ends-on-stop", site(f), "a worker can end although no stop was requested", key="quit", path=path(st))
            elif possible(P, st, cur, False, 1) or possible(P, st, cur, False, 2):
                chk.bad("drains", site(f), "a worker can end leaving accepted jobs in the queue", key="drain", path=path(st))
            else:
                chk.ok("ends-on-stop")
            if st.props.get("held"):
                chk.bad("unlocked", site(f), "a worker ends holding the lock", key="worker")
    chk.notes.append("worker: %d paths, %d waits, %d pops, %d exits" % (len(runs), nw, nj, nx))
    if not chk.viol and not (nw and nj and nx):
        raise Anchor("worker loop not recognised (%d waits, %d pops, %d exits)" % (nw, nj, nx))
    chk.assume.append("std::mutex, std::condition_variable and std::thread behave as the C++ standard says; a job is a nonempty std::function; fairness of the scheduler")
    chk.assume.append("the destructor drops jobs still queued: only await_stop is an orderly stop")


def models_held(e):
    return e.d.get("held", ())
