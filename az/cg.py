"""Static call graph: direct calls, virtual calls resolved by class and slot, and functions whose address is taken."""


def flat(v, off):
    if v[0] != "arr":
        return [(off, v)]
    items = v[1] if len(v) == 2 and isinstance(v[1], list) and v[1] and isinstance(v[1][0], list) and len(v[1][0]) == 2 and isinstance(v[1][0][0], int) else v[1:]
    out = []
    for o, e in items:
        out += flat(e, off + o)
    return out


class Graph:
    def __init__(s, p):
        s.p = p
        s._c, s._r = {}, {}
        s._reach = {}

    def edges(s, n):
        """(called functions, functions only mentioned)"""
        if n in s._c:
            return s._c[n], s._r[n]
        calls, refs = {}, set()
        f = s.p.fns.get(n)
        for b in (f.blocks or []) if f else []:
            cls, slots = {}, {}
            for q in b:
                op = q["op"]
                if op in ("call", "invoke"):
                    cal = q["callee"]
                    if cal[0] == "g":
                        nm = cal[1]
                        if nm == "llvm.type.test" and q["a"][0][0] == "v":
                            cls[q["a"][0][1]] = q["a"][1][1]
                        elif not nm.startswith("llvm."):
                            calls.setdefault(nm, q)
                    elif cal[0] == "v" and cal[1] in slots:
                        c, off = slots[cal[1]]
                        for g in s.virt(c, off):
                            calls.setdefault(g, q)
                elif op == "getelementptr" and q["a"][0][0] == "v" and q["a"][0][1] in cls and q["gep"] and not q["gep"][1]:
                    slots[("g", q["id"])] = (cls[q["a"][0][1]], q["gep"][0])
                elif op == "load" and q["a"][0][0] == "v":
                    if ("g", q["a"][0][1]) in slots:
                        slots[q["id"]] = slots[("g", q["a"][0][1])]
                    elif q["a"][0][1] in cls:
                        slots[q["id"]] = (cls[q["a"][0][1]], 0)
                for v in q.get("a", []):
                    s._mention(v, refs)
        s._c[n] = calls
        s._r[n] = refs - set(calls)
        return s._c[n], s._r[n]

    def _mention(s, v, out):
        if not isinstance(v, list) or not v:
            return
        if v[0] == "g":
            if v[1] in s.p.fns:
                out.add(v[1])
            return
        for x in v[1:]:
            if isinstance(x, list):
                s._mention(x, out)

    def virt(s, cls, off):
        out = set()
        for g, ap_ in s.p.vt.get(cls, []):
            x = s.p.globals.get(g)
            if not x or not x.get("init"):
                continue
            for o, e in flat(x["init"], 0):
                if o == ap_ + off and e[0] == "g" and e[1] in s.p.fns:
                    out.add(e[1])
        return out

    def reach(s, n, refs=False):
        """functions reachable from n (n included)"""
        k = (n, refs)
        r = s._reach.get(k)
        if r is None:
            r, todo = {n}, [n]
            while todo:
                x = todo.pop()
                c, m = s.edges(x)
                for y in list(c) + (list(m) if refs else []):
                    if y not in r:
                        r.add(y)
                        todo.append(y)
            s._reach[k] = r
        return r

    def path(s, a, goal, refs=False):
        """a call path from a to a function satisfying goal: [(function, call line)]"""
        par = {a: None}
        todo = [a]
        while todo:
            x = todo.pop(0)
            if goal(x) and x != a:
                out = []
                while x is not None:
                    out.append(x)
                    x = par[x]
                return out[::-1]
            c, m = s.edges(x)
            for y in list(c) + (list(m) if refs else []):
                if y not in par:
                    par[y] = x
                    todo.append(y)
        return None

    def callers(s, names):
        names = set(names)
        return [f for f in s.p.fns.values() if f.blocks and names & set(s.edges(f.n)[0])]
