"""Memory accesses by more than one thread: locksets, and jobs that run at the same time."""
from . import terms as t, models
from .terms import C


class Locks:
    """accesses to shared places: {place: {(role, what, atomic, locks): site}}"""

    def __init__(s):
        s.acc = {}

    def add(s, place, role, what, atomic, held, site):
        s.acc.setdefault(place, {}).setdefault((role, what, atomic, frozenset(held)), site)

    def conflicts(s, place, everyone=False):
        """pairs of accesses that may happen at the same time and race: [(site, site, what, what)]"""
        l = s.acc[place]
        out = []
        for (r1, w1, a1, h1), s1 in l.items():
            if w1 != "w":
                continue
            for (r2, w2, a2, h2), s2 in l.items():
                if not everyone and r1 == r2 == "user" or a1 and a2 or h1 & h2:
                    continue
                # report the access that breaks the discipline
                if (len(h2), a2) < (len(h1), a1):
                    out.append((s2, s1, w2, w1))
                else:
                    out.append((s1, s2, w1, w2))
        return out

    def written(s, place):
        return any(w == "w" for _, w, _, _ in s.acc[place])


def place_of(fields, off):
    """name of the field at an offset"""
    for n, o, sz, ty in fields:
        if o <= off < o + max(1, sz):
            return n
    return "+%d" % off


class Watch:
    """Records what jobs, and their submitter while they run, access.
    A batch lasts from its first submission to the wait on its latch; jobs of a batch run at the same time."""

    def __init__(s, J):
        s.J, s.I = J, J.I
        J.watch = s
        s.I.access = s.access
        s.I.sick = s.sick
        s.roots, s._in = {}, {}

    def sick(s, st, kind, mark=False):
        """what fails in one job fails in all that follow in its batch: two failures may meet"""
        if st.props.get("job") is None:
            return False
        if mark:
            st.props["sick"] = kind
        return st.props.get("sick") == kind

    def begin(s, st, c, fo, err, f):
        n = st.cnt["jobno"] = st.cnt.get("jobno", 0) + 1
        ctx = s.I.ctx(c.ctx, f, -1 - n, 0)
        own = {t.split(fo)[0], err}
        b, o = t.split(fo)
        h = st.mem[b].c.get(t.cv(o)) if b in st.mem and o.op == "c" else None
        if h is not None and getattr(h[0], "op", None) == "ptr" and h[0].a[0][0] == "H":
            own.add(h[0].a[0])          # what the job holds by value (it is moved into the queue)
        s.roots[ctx] = (n, frozenset(own))
        st.props["job"] = ctx
        st.cnt["open"] = 1
        return ctx

    def end(s, st):
        st.props.pop("job", None)

    def inside(s, ctx, root):
        k = (ctx, root)
        r = s._in.get(k)
        if r is None:
            x = ctx
            while isinstance(x, int) and x >= 0 and x != root:
                x = s.I.ctxinfo[x][0]
            r = s._in[k] = x == root
        return r

    def access(s, st, base, off, n, what, atomic, ctx):
        j = st.props.get("job")
        if j is None and not st.cnt.get("open"):
            return
        k = base[0]
        if k in ("N", "STR", "F") or k == "G" and (s.I.p.globals.get(base[1], {"const": 1}).get("const") or s.I.p.globals[base[1]].get("tls") or base[1].startswith("_ZGV")):
            return
        if j is not None:
            if base in s.roots[j][1] or k in ("A", "H", "V", "X") and isinstance(base[1], int) and s.inside(base[1], j):
                return
        s.I.emit(st, "acc", ctx, base=base, off=off, n=n, what=what, atomic=atomic, held=frozenset(models.held(st)), job=s.roots[j][0] if j is not None else 0)


class Conflict(Exception):
    pass


def overlaps(a, b):
    """do two accesses to one object overlap? None: unknown"""
    if a.off.op == "c" and b.off.op == "c":
        x, y = t.cv(a.off), t.cv(b.off)
        if x <= y:
            return a.n is None or y < x + a.n
        return b.n is None or x < y + b.n
    if a.off is b.off:
        return True
    return None


def batches(events):
    """races of one path: (conflicts [(a, b)], vague [(a, b)], files [(path, event, path, event)], number of batches, jobs, accesses compared)"""
    bad, vague, clash = [], [], []
    made = []         # (job, path, event): what the jobs of the open batch create or remove
    job = None
    cur = {}          # base -> accesses of the open batch
    njobs = nb = nacc = 0
    jobs = set()
    for e in events:
        k = e[0]
        if k == "submit":
            njobs += 1
            job = njobs
        elif k == "jobdone":
            job = None
        elif job is not None and (k == "fs" and e.mut or k == "sink_new" and e.cls == "FileSink"):
            n = e.path if k == "fs" else e.names[0]
            if n.op == "str":
                n = models.fs_norm(n.a[0])
                for j, x, e2 in made:
                    if j != job and (n + "/").startswith(x + "/") or j != job and (x + "/").startswith(n + "/"):
                        clash.append((x, e2, n, e))
                made.append((job, n, e))
        elif k in ("latch_wait", "latch_arrive_and_wait"):
            if jobs:
                nb += 1
            cur, jobs, made = {}, set(), []
        elif k == "latch":
            cur, jobs, made = {}, set(), []
        elif k == "acc":
            if e.job:
                jobs.add(e.job)
            nacc += 1
            l = cur.setdefault(e.base, {})
            key = (e.off, e.n, e.what, e.atomic, e.held, e.job, 0 if e.job else len(jobs))
            if key in l:
                continue
            for x in l.values():
                if x.job == e.job or x.job == 0 and e.job != 0:
                    continue      # what the submitter did before it submitted the job is ordered before it
                if x.what == "r" and e.what == "r" or x.atomic and e.atomic or x.held & e.held:
                    continue
                o = overlaps(x, e)
                if o:
                    bad.append((x, e))
                elif o is None:
                    vague.append((x, e))
            l[key] = e
    return bad, vague, clash, nb, njobs, nacc
