#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from a description:
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (C++ text, main returns 0 when right)."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s "$D/demo.cpp" -o "$T/d" || exit 3
cd "$T" && timeout 100 ./d
'''
R = os.environ.get("SEED_REPO", "/repo")
def sh(*a): return subprocess.run(a, capture_output=True, text=True)
def make(g):
    assert sh("git", "-C", R, "status", "--porcelain", "-uno").stdout == "", "repo dirty"
    d = f"{V}/seeded/{g['ID']}"; os.makedirs(d, exist_ok=True)
    try:
        for f, a, b, *nth in g["EDITS"]:  # nth: which occurrence (from 0), if several
            p = R + "/" + f; s = open(p).read(); assert s.count(a) == 1 or nth, (f, a, s.count(a))
            q = s.split(a); k = nth[0] + 1 if nth else 1; open(p, "w").write(a.join(q[:k]) + b + a.join(q[k:]))
        open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
    finally: sh("git", "-C", R, "checkout", "--", ".")
    cxx = g.get("CXX", "g++ -std=c++11 -O1 -w -DNDEBUG -fopenmp")
    for f in g.get("FILES", []): open(d + "/" + os.path.basename(f), "w").write(open(V + "/" + f).read())
    open(d + "/demo.cpp", "w").write(g["DEMO"].lstrip()); open(d + "/demo.sh", "w").write(SH % (cxx + ' -I"$PWD/include" -I"$PWD/apps"')); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
for f in sys.argv[1:]:
    for part in open(f).read().split("\n#====\n"):
        g = {}; exec(part, g); make(g); print("made", g["ID"])
