#!/bin/bash
# mut.sh "C28 C29" file 'python-expr old' 'new' : run checks against a scratch copy with one textual replacement
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $d/
python3 - "$d/$2" "$3" "$4" <<'P' || { rm -rf "$d"; exit 9; }
import sys
f,o,n=sys.argv[1:]
s=open(f).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
if s.count(o)<1: print("PATTERN NOT FOUND"); sys.exit(1)
open(f,'w').write(s.replace(o,n,1))
P
for c in $1; do AZ_REPO=$d python3 /verif/run.py --property $c --tier ${TIER:-quick} 2>&1 | cut -c1-230 | tail -${LINES_:-4}; done
rm -rf "$d"
