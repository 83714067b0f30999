#!/usr/bin/env python3
"""make a seeded change: mkseed.py SPEC.py  (SPEC defines id, property, needs, breaks, edits=[(file, old, new[, nth])], demo)"""
import sys, os, subprocess, json, tempfile, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = "/verif/seeded/" + spec["id"]
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp()
files = sorted({e[0] for e in spec["edits"]})
out = ""
cur = {f: open("/repo/" + f).read() for f in files}
new = dict(cur)
for e in spec["edits"]:
    f, a, b = e[:3]
    n = e[3] if len(e) > 3 else None
    c = new[f].count(a)
    if n is None:
        assert c == 1, (f, a, c)
        new[f] = new[f].replace(a, b)
    else:
        p = -1
        for _ in range(n + 1):
            p = new[f].index(a, p + 1)
        new[f] = new[f][:p] + b + new[f][p + len(a):]
for f in files:
    for s, t in (("a", cur), ("b", new)):
        p = "%s/%s/%s" % (tmp, s, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t[f])
    r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, capture_output=True, text=True)
    lines = r.stdout.split("\n")
    lines[0], lines[1] = "--- a/" + f, "+++ b/" + f
    out += "diff --git a/%s b/%s\n" % (f, f) + "\n".join(lines)
open(d + "/patch.diff", "w").write(out)
shutil.rmtree(tmp)
open(d + "/demo.cpp", "w").write(spec["demo"].lstrip())
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = /repo after its build
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
R=$PWD
printf '#define DOCTEST_CONFIG_IMPLEMENT\\n#include "doctest.h"\\n' > "$tmp/dt.cpp"
T=/opt/vp/torch-site/torch
g++ -std=gnu++17 -O0 -w -D_GLIBCXX_USE_CXX11_ABI=0 -I"$R/extern/doctest" -c "$tmp/dt.cpp" -o "$tmp/dt.o"
g++ -std=gnu++17 -O1 -w -DFMT_HEADER_ONLY=1 -DFMT_DEPRECATED_OSTREAM -D_GLIBCXX_USE_CXX11_ABI=0 -DDOCTEST_CONFIG_DISABLE \\
	-I"$R/include" -I"$R/extern/boost" -I"$R/extern/doctest" -isystem $T/include -isystem $T/include/torch/csrc/api/include \\
	"$here/demo.cpp" "$tmp/dt.o" -o "$tmp/demo" -L"$R/_build/sources" -lQuantiT -L$T/lib -ltorch -ltorch_cpu -lc10 -Wl,-rpath,"$R/_build/sources" -Wl,-rpath,$T/lib
timeout 120 "$tmp/demo"
""")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
print(spec["id"], "applies" if r.returncode == 0 else r.stderr)
