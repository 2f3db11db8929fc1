"""What a check reports: instances examined, violations, known findings, evidence."""
import json
import os
import random
import sys
import time
import traceback
from . import build, models, terms as t
from .ir import Program, Anchor
from .interp import Interp, State, Obj, Budget, Unsupported

HERE = build.HERE


class Check:
    def __init__(s, prop, tier, seed, prog=None):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time()
        s._p = prog
        s.viol = []          # dicts
        s.obl = {}           # rule -> [instances, discharged]
        s.samples = {}
        s.undecided = []
        s.notes = []
        s.fns = set()
        s.steps = 0
        s.need = {}
        s.deadline = s.t0 + (720 if tier == "quick" else 3000)
        s.rng = random.Random(seed * 7919 + 17)
        s.assume = ["library functions behave as their abstract transformers in az/models.py say",
                    "memory exhaustion is not considered"]

    @property
    def p(s):
        if s._p is None:
            s._p = Program()
        return s._p

    @property
    def thorough(s):
        return s.tier == "thorough"

    def interp(s, **kw):
        I = Interp(s.p, models, **kw)
        I.deadline = s.deadline
        s.ints = getattr(s, "ints", [])
        s.ints.append(I)
        return I

    def ok(s, rule, sample=None):
        r = s.obl.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += 1
        if sample is not None:
            l = s.samples.setdefault(rule, [])
            if len(l) < 4:
                l.append(str(sample)[:300])

    def bad(s, rule, site, what, key=None, path=None):
        """site: 'file:line (function)'"""
        r = s.obl.setdefault(rule, [0, 0])
        r[0] += 1
        k = "%s|%s" % (rule, key if key is not None else site)
        for v in s.viol:
            if v["key"] == k:
                v["count"] += 1
                return
        s.viol.append({"property": s.prop, "rule": rule, "key": k, "site": site, "what": what, "path": path or [], "count": 1})

    def undec(s, rule, what):
        s.undecided.append("%s: %s" % (rule, what))

    def at_least(s, rule, n):
        """fewer instances than this: the analysis lost its anchor"""
        s.need[rule] = n

    def known(s):
        f = os.path.join(HERE, "known_findings.json")
        if not os.path.exists(f):
            return []
        return [k for k in json.load(open(f)).get("findings", []) if k["property"] == s.prop]

    def finish(s):
        for rule, n in s.need.items():
            got = s.obl.get(rule, [0, 0])[0]
            late = time.time() > s.deadline
            if got < n and not s.viol and not late and not any(u.startswith(rule + ":") for u in s.undecided):
                raise Anchor("rule %s: %d instances, expected at least %d" % (rule, got, n))
        kn = s.known()
        new, seen = [], []
        for v in s.viol:
            m = [k for k in kn if k["key"] == v["key"]]
            if m:
                seen.append((m[0], v))
            else:
                new.append(v)
        for k, v in seen:
            print("KNOWN-FINDING: property=%s %s" % (s.prop, k["what"]))
        wall = time.time() - s.t0
        ints = getattr(s, "ints", [])
        fns = set(s.fns)
        steps = s.steps
        opq, unsup = {}, {}
        for I in ints:
            fns |= I.inlined
            steps += I.steps
            for k, n in I.opaque.items():
                opq[k] = opq.get(k, 0) + n
        repo_fns = sorted(f for f in fns if f in s.p.fns and s.p.fns[f].repo)
        cov = {
            "explanation": "Static analysis of /repo's current source (LLVM IR of all translation units). Each obligation is one instance of "
                           "a rule at one construct or path; 'discharged' are those shown to hold, the rest are violations or listed as undecided.",
            "obligations": sum(a for a, _ in s.obl.values()),
            "discharged": sum(b for _, b in s.obl.values()),
            "rules": {k: {"instances": a, "holding": b} for k, (a, b) in sorted(s.obl.items())},
            "samples": [{"rule": k, "instance": x} for k, l in s.samples.items() for x in l][:40],
            "functions_analysed": len(repo_fns),
            "repo_functions": [s.p.fns[f].q for f in repo_fns][:120],
            "library_functions_inlined": len(fns) - len(repo_fns),
            "ir_steps": steps,
            "opaque_calls": dict(sorted(opq.items(), key=lambda x: -x[1])[:25]),
            "undecided": s.undecided[:60],
            "undecided_count": len(s.undecided),
            "notes": s.notes[:60],
            "violating": [{k: v[k] for k in ("rule", "site", "what")} for v in s.viol][:40],
            "program": os.path.basename(s.p.path),
        }
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "other", "coverage": cov, "assumptions": s.assume,
              "wall_s": round(wall, 2), "violations": len(new)}
        d = os.path.join(HERE, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        json.dump(ev, open(os.path.join(d, s.prop + ".json"), "w"), indent=1)
        rp = os.path.join("evidence", "replay", s.prop + ".json")
        if new:
            json.dump({"property": s.prop, "violations": new}, open(os.path.join(HERE, rp), "w"), indent=1)
            for v in new:
                print("%s: [%s] %s" % (v["site"], v["rule"], v["what"]))
                for x in v["path"][-12:]:
                    print("      " + str(x)[:220])
            print("VIOLATION property=%s replay=%s" % (s.prop, rp))
            return 1
        print("%s holds: %d obligations, %d undecided, %d functions, %.1fs" % (s.prop, cov["obligations"], len(s.undecided), len(repo_fns), wall))
        return 0


def path(st, n=14):
    return [str(e)[:260] for e in st.events()[-n:]]
