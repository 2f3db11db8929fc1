"""Which exceptions may leave which function: a fixpoint over the call graph, with catch clauses matched by type."""
from .cg import Graph

# what the standard library's own types derive from
BASE = {
    "_ZTISt9exception": (), "_ZTISt9bad_alloc": ("_ZTISt9exception",), "_ZTISt20bad_array_new_length": ("_ZTISt9bad_alloc",),
    "_ZTISt11logic_error": ("_ZTISt9exception",), "_ZTISt13runtime_error": ("_ZTISt9exception",),
    "_ZTISt12out_of_range": ("_ZTISt11logic_error",), "_ZTISt12length_error": ("_ZTISt11logic_error",),
    "_ZTISt16invalid_argument": ("_ZTISt11logic_error",), "_ZTISt12domain_error": ("_ZTISt11logic_error",),
    "_ZTISt11range_error": ("_ZTISt13runtime_error",), "_ZTISt14overflow_error": ("_ZTISt13runtime_error",), "_ZTISt15underflow_error": ("_ZTISt13runtime_error",),
    "_ZTISt12system_error": ("_ZTISt13runtime_error",),
    "_ZTINSt10filesystem7__cxx1116filesystem_errorE": ("_ZTISt12system_error",),
    "_ZTINSt8ios_base7failureB5cxx11E": ("_ZTISt12system_error",),
    "_ZTISt17bad_function_call": ("_ZTISt9exception",), "_ZTISt19bad_optional_access": ("_ZTISt9exception",),
    "_ZTISt8bad_cast": ("_ZTISt9exception",), "_ZTISt18bad_variant_access": ("_ZTISt9exception",), "_ZTISt12bad_weak_ptr": ("_ZTISt9exception",),
    "_ZTISt12future_error": ("_ZTISt11logic_error",), "_ZTISt10bad_typeid": ("_ZTISt9exception",), "_ZTISt12format_error": ("_ZTISt13runtime_error",),
    "_ZTISt12regex_error": ("_ZTISt13runtime_error",),
}
FS = "_ZTINSt10filesystem7__cxx1116filesystem_errorE"
THREAD = "thread"   # std::system_error: no more threads
ANY = "?"      # some exception of an external library: derives from std::exception
MEM = {"_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt12length_error"}
THROW = {"__throw_bad_alloc": "_ZTISt9bad_alloc", "__throw_bad_array_new_length": "_ZTISt20bad_array_new_length", "__throw_length_error": "_ZTISt12length_error",
         "__throw_out_of_range": "_ZTISt12out_of_range", "__throw_out_of_range_fmt": "_ZTISt12out_of_range", "__throw_logic_error": "_ZTISt11logic_error",
         "__throw_system_error": "_ZTISt12system_error", "__throw_bad_function_call": "_ZTISt17bad_function_call", "__throw_invalid_argument": "_ZTISt16invalid_argument",
         "__throw_runtime_error": "_ZTISt13runtime_error", "__throw_bad_optional_access": "_ZTISt19bad_optional_access", "__throw_bad_cast": "_ZTISt8bad_cast",
         "__throw_bad_variant_access": "_ZTISt18bad_variant_access", "__throw_future_error": "_ZTISt12future_error", "__throw_bad_weak_ptr": "_ZTISt12bad_weak_ptr",
         "__throw_ios_failure": "_ZTINSt8ios_base7failureB5cxx11E", "__throw_overflow_error": "_ZTISt14overflow_error", "__throw_domain_error": "_ZTISt12domain_error",
         "__throw_range_error": "_ZTISt11range_error"}
FSPURE = ("path", "_List", "status", "directory_entry", "~path")


class Throws:
    def __init__(s, p):
        s.p, s.g = p, Graph(p)
        s._sub, s._sites, s._virt = {}, {}, {}
        s.taken = None
        s.set = {}        # function -> {type: (call path step)}
        s.points = {}     # (function, landing pad id) -> {type: step}: where the process ends
        s.vague = set()
        s.solve()

    # ---- types
    def bases(s, ti):
        if ti in BASE:
            return BASE[ti]
        g = s.p.globals.get(ti)
        out = []
        if g and g.get("init"):
            def walk(v):
                if not isinstance(v, (list, tuple)) or not v:
                    return
                if v[0] == "g" and isinstance(v[1], str):
                    if v[1].startswith("_ZTI"):
                        out.append(v[1])
                    return
                for x in v:
                    walk(x)
            walk(g["init"])
        return tuple(out)

    def sub(s, a, b):
        """is an a caught by catch (b)?"""
        k = (a, b)
        if k not in s._sub:
            if a == ANY:
                r = b == "_ZTISt9exception"
            elif a == THREAD:
                r = s.sub("_ZTISt12system_error", b)
            else:
                r = a == b or any(s.sub(x, b) for x in s.bases(a))
            s._sub[k] = r
        return s._sub[k]

    # ---- external functions
    def external(s, n):
        f = s.p.fns.get(n)
        if n in ("__cxa_rethrow", "__cxa_throw"):
            return {}
        if f is None:
            return {}
        if f.nounwind or n.startswith("llvm.") or n.startswith("__cxa"):
            return {}
        b = f.base
        if b in THROW:
            return {THROW[b]: n}
        q = f.q
        if q.startswith("std::filesystem::"):
            if any("error_code" in x for x in f.pt) or "path" in f.ctx or b in FSPURE and f.pt and "file_status" in f.pt[0]:
                return {"_ZTISt9bad_alloc": n}
            return {FS: n, "_ZTISt9bad_alloc": n}
        if q in ("std::thread::_M_start_thread",):
            return {THREAD: n}
        if q in ("std::rethrow_exception", "std::__exception_ptr::rethrow_exception"):
            return {ANY: n}
        if q.startswith(("std::", "operator ", "__gnu_cxx::")) or b.startswith("operator "):
            return {"_ZTISt9bad_alloc": n}
        if n.startswith("_Z"):
            return {ANY: n, "_ZTISt9bad_alloc": n}
        return {}

    # ---- call sites
    def addr_taken(s):
        if s.taken is None:
            s.taken = {}
            names = set()
            def walk(v):
                if not isinstance(v, (list, tuple)) or not v:
                    return
                if v[0] == "g" and len(v) > 1 and isinstance(v[1], str):
                    if v[1] in s.p.fns:
                        names.add(v[1])
                    return
                for x in v:
                    walk(x)
            for g in s.p.globals.values():
                walk(g.get("init"))
            for f in s.p.fns.values():
                if f.blocks:
                    names |= s.g.edges(f.n)[1]
            for n in names:
                f = s.p.fns[n]
                s.taken.setdefault((f.ret, tuple("ptr" if x in ("sret",) or x.startswith("byval") else x for x in f.params)), set()).add(n)
        return s.taken

    def sites(s, f):
        """[(instruction, callees, unwind block or None)]"""
        r = s._sites.get(f.n)
        if r is not None:
            return r
        r = []
        cls, slots = {}, {}
        for b in f.blocks:
            for q in b:
                op = q["op"]
                if op in ("call", "invoke"):
                    cal = q["callee"]
                    if cal[0] == "g":
                        nm = cal[1]
                        if nm == "llvm.type.test" and q["a"][0][0] == "v":
                            cls[q["a"][0][1]] = q["a"][1][1]
                        cs = {nm}
                    elif cal[0] == "v" and cal[1] in slots:
                        cs = s.g.virt(*slots[cal[1]])
                    elif q.get("nounwind"):
                        cs = set()
                    else:
                        cs = s.addr_taken().get((q.get("ty", "void"), tuple(q.get("at", ()))), set())
                        if not cs:
                            s.vague.add(f.n)
                    r.append((q, cs, q.get("unwind") if op == "invoke" else None))
                elif op == "getelementptr" and q["a"][0][0] == "v" and q["a"][0][1] in cls and q["gep"] and not q["gep"][1]:
                    slots[("g", q["id"])] = (cls[q["a"][0][1]], q["gep"][0])
                elif op == "load" and q["a"][0][0] == "v":
                    if ("g", q["a"][0][1]) in slots:
                        slots[q["id"]] = slots[("g", q["a"][0][1])]
                    elif q["a"][0][1] in cls:
                        slots[q["id"]] = (cls[q["a"][0][1]], 0)
        s._sites[f.n] = r
        return r

    def pad(s, f, u):
        for q in f.blocks[u]:
            if q["op"] == "landingpad":
                return q
        return None

    def ends(s, f, u):
        """does this landing pad end the process?"""
        for q in f.blocks[u]:
            if q["op"] in ("call", "invoke") and q["callee"][0] == "g" and q["callee"][1] in ("__clang_call_terminate", "_ZSt9terminatev", "abort"):
                return True
        return False

    def thrown(s, q, cs, caught):
        out = {}
        for n in cs:
            if n == "__cxa_throw":
                ti = q["a"][1]
                out[ti[1] if ti[0] == "g" else ANY] = n
            elif n == "__cxa_rethrow":
                for x in caught:
                    out[x] = n
            elif n in s.set:
                for x in s.set[n]:
                    out.setdefault(x, n)
            else:
                out.update(s.external(n))
        return out

    def solve(s):
        fs = [f for f in s.p.fns.values() if f.blocks]
        s.set = {f.n: {} for f in fs}
        caught = {f.n: set() for f in fs}
        rev = {}
        for f in fs:
            for q, cs, u in s.sites(f):
                for c in cs:
                    rev.setdefault(c, set()).add(f.n)
        todo = [f.n for f in fs]
        inq = set(todo)
        while todo:
            n = todo.pop()
            inq.discard(n)
            f = s.p.fns[n]
            new = dict(s.set[n])
            again = False
            for q, cs, u in s.sites(f):
                th = s.thrown(q, cs, caught[n])
                if not th:
                    continue
                if u is None:
                    for x, via in th.items():
                        if x not in new and not f.nounwind:
                            new[x] = (q, via)
                    continue
                lp = s.pad(f, u)
                kinds = [c[1] for c in lp["clauses"] if c[0] == "catch"]
                for x, via in th.items():
                    hit = None
                    for c in kinds:
                        if c[0] == "n" or c[0] == "g" and s.sub(x, c[1]):
                            hit = c
                            break
                    if hit is not None:
                        if s.ends(f, u) and hit[0] == "n":
                            s.points.setdefault((n, u), {}).setdefault(x, (q, via))
                        elif x not in caught[n]:
                            caught[n].add(x)
                            again = True
                    elif x not in new:
                        new[x] = (q, via)
            if len(new) != len(s.set[n]) or again:
                s.set[n] = new
                for c in rev.get(n, ()):
                    if c not in inq:
                        inq.add(c)
                        todo.append(c)
                if n not in inq and again:
                    inq.add(n)
                    todo.append(n)

    def trace(s, step, x, depth=12):
        """the chain of calls an exception comes from: [(site, function)]"""
        out = []
        while step and depth:
            q, via = step
            out.append((q.get("loc"), via))
            if via in s.set and x in s.set[via]:
                step = s.set[via][x]
            else:
                break
            depth -= 1
        return out
