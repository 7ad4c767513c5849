#!/usr/bin/env python3
"""Writes seeded/<id>/ for the entries of tools/seeds/*.py from the edits of the same name.

usage: seed.py [id-prefix...]   Not part of any check.
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mod(f):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

edits = {}
for f in glob.glob(ROOT + "/tools/edits/*.py"):
    for n, k, p, e in mod(f).EDITS:
        edits[n] = e

DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of %(pkg)s without adding it to the source tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s%(flags)s -run '^TestDemo$' ./%(pkg)s
'''

def blame_ok(d, patch):
    """The lines a patch removes come from the original repository."""
    bad, f, n = [], None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if f is None or l.startswith(("diff", "+++", "---", "index")): continue
        if l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (n, n), "--", f], capture_output=True, text=True).stdout
            if not b.startswith("^"): bad.append("%s:%d" % (f, n))
            n += 1
        elif not l.startswith("+"):
            n += 1
    return bad

for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
    for s in mod(f).SEEDS:
        if sys.argv[1:] and not any(s["id"].startswith(a) for a in sys.argv[1:]):
            continue
        d = tempfile.mkdtemp(prefix="seed-")
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        for path, old, new in edits[s.get("edit", s["id"])]:
            p = d + "/r/" + path
            t = open(p).read()
            if old is None: t += new
            else:
                assert t.count(old) == 1, (s["id"], path, old)
                t = t.replace(old, new)
            open(p, "w").write(t)
        patch = subprocess.run(["git", "-C", d + "/r", "diff"], capture_output=True, text=True).stdout
        shutil.rmtree(d)
        bad = blame_ok(d, patch)
        if bad:
            print(s["id"], "changes added lines:", bad)
        o = ROOT + "/seeded/" + s["id"]
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(patch)
        open(o + "/demo.sh", "w").write(s.get("sh") or DEMO % {"pkg": s["pkg"], "flags": s.get("flags", "")})
        os.chmod(o + "/demo.sh", 0o755)
        for n, t in s.get("files", {}).items():
            open(o + "/" + n, "w").write(t)
        if "demo" in s:
            open(o + "/demo_test.go", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        open(o + "/meta.json", "a").write("\n")
        print(s["id"], "written")
