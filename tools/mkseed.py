#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG < spec : creates seeded/ID from a Python-ish spec on stdin:
FILE path / <<< old / === / new / >>> blocks, NEEDS text, BREAKS text, then a line 'TEST' and a Go test file (in-package)."""
import json, os, re, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, pkg = sys.argv[1:4]
s = sys.stdin.read()
head, test = s.split("\nTEST\n", 1)
needs = re.search(r"^NEEDS (.*)$", head, re.M).group(1)
breaks = re.search(r"^BREAKS (.*)$", head, re.M).group(1)
wt = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt + "/r"])
try:
    for m in re.finditer(r"^FILE (\S+)\n((?:<<<\n.*?\n===\n.*?\n?>>>\n?)+)", head, re.M | re.S):
        p = f"{wt}/r/{m.group(1)}"
        t = open(p).read()
        for b in re.finditer(r"<<<\n(.*?)\n===\n(.*?)\n?>>>", m.group(2), re.S):
            old, new = b.group(1), b.group(2)
            assert t.count(old) == 1, (t.count(old), old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.check_output(["git", "-C", wt + "/r", "diff"], text=True)
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/r"])
    shutil.rmtree(wt)
d = f"{VERIF}/seeded/{i}"
os.makedirs(d, exist_ok=True)
open(f"{d}/patch.diff", "w").write(diff)
open(f"{d}/demo_test.go", "w").write(test)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Runs demo_test.go inside of package {pkg} of the repository (current directory).
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}}}" > "$t/overlay.json"
HOME_BEFORE=$HOME
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./{pkg}
''')
print(diff)
