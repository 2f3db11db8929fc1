#!/usr/bin/env python3
"""seed.py: write /verif/seeded/<id>/ from a description file (python) and try it out.
Used by hand only; no check reads it or /verif/seeded."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = "/verif/seeded"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]

SMALL = '''#!/bin/bash
# Builds demo.cpp with the sources it needs from the current tree and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O1 -include string -I include -I src/streaming -I src/logger "$here/demo.cpp" %s -o "$w/demo" -lblosc -lpthread || exit 2
cd "$w" && TMPDIR="$w" timeout 120 ./demo
'''
FULL = '''#!/bin/bash
# Builds the whole library of the current tree (against the in-memory S3 stand-in beside this file), links demo.cpp
# and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
for f in src/streaming/*.cpp src/logger/*.cpp "$here/demo.cpp"; do
    g++ -std=c++20 -O1 -include string -DACQUIRE_ZARR_API_VERSION='"0.0.1"' -I include -I src/streaming -I src/logger -I "$here" \\
        -c "$f" -o "$w/$(basename "$f").o" &
done
wait
g++ "$w"/*.o -o "$w/demo" -lblosc -lpthread || exit 2
cd "$w" && TMPDIR="$w" timeout 120 ./demo
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def write(s):
    d = f"{ROOT}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh(f"cp -a /repo/. {t}/")
        for f, o, n in s["edits"]:
            p = f"{t}/{f}"
            x = open(p).read()
            assert x.count(o) == 1, (s["id"], f, x.count(o), o)
            base = sh(f"git show {BASE}:{f}", cwd=t).stdout
            removed = [l for l in o.splitlines() if l.strip() and l not in n.splitlines()]
            for l in removed:
                if l not in base:
                    print("  NOT ORIGINAL:", l)
            open(p, "w").write(x.replace(o, n))
        diff = sh("git diff", cwd=t).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"])
        if s.get("full"):
            open(d + "/demo.sh", "w").write(FULL)
            shutil.copytree("/verif/stubs/fake/miniocpp", d + "/miniocpp", dirs_exist_ok=True)
        else:
            open(d + "/demo.sh", "w").write(SMALL % s["src"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        r1 = sh(f"bash {d}/demo.sh", cwd=t)
        if r0.returncode != 0 or r1.returncode == 0:
            ok = False
        print(s["id"], "clean", r0.returncode, "patched", r1.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:] if ok else (r0.stdout + r0.stderr + "\n----\n" + r1.stdout + r1.stderr)[-1500:])
        r = sh(f"AZ_REPO={t} python3 /verif/run.py --property {s['property']} --tier quick")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("   check", s["property"], "rc", r.returncode, (v or r.stdout.splitlines()[-1:])[0][:200] if r.stdout else r.stderr[-300:])
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns["SEEDS"]:
        if not want or s["id"] in want:
            write(s)
