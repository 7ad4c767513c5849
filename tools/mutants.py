#!/usr/bin/env python3
"""Runs the checks on edited copies of /repo: bugs must be reported, refactorings not.

usage: mutants.py [-t] [-j N] [name-prefix...]
-t also runs the repository's tests on each copy. Not part of any check.
"""
import atexit, glob, importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod")

def load():
    out = []
    for f in sorted(glob.glob(ROOT + "/tools/edits/*.py")):
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.EDITS
    return out

def one(e, tests, props):
    name, kind, ps, edits = e
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["cp", "-r", "/repo/.", d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ""
            if old is None:
                s = s + new
            else:
                if s.count(old) != 1:
                    return name, "EDIT", "%s: %d occurrences of %r" % (f, s.count(old), old)
                s = s.replace(old, new)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./jsonmatcher/...", "./parser/...", "./sampler/...", "./aqlgraph/...", "./cmd/...", "./internal/...", "./wasm/aqlparse/server"],
                           cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return name, "BUILD", b.stderr
        if any(e[0].startswith("wasm/aqlparse/") for e in edits):
            b = subprocess.run(["go", "build", "-o", os.devnull, "./wasm/aqlparse"], cwd=d, env=dict(ENV, GOOS="js", GOARCH="wasm"), capture_output=True, text=True)
            if b.returncode:
                return name, "BUILD", b.stderr
        t = ""
        if tests:
            r = subprocess.run(["go", "test", "-vet=off", "-exec", "/bin/bash /opt/vp/testexec.sh", "./jsonmatcher/...", "./parser/...", "./sampler/..."], cwd=d, env=ENV, capture_output=True, text=True)
            if r.returncode:
                t = " TESTS-FAIL"
        os.makedirs(d + "/.out", exist_ok=True)
        shutil.copy(ROOT + "/known_findings.txt", d + "/.out")
        r = subprocess.run([BIN, "-repo", d, "-out", d + "/.out"] + (props or ps),
                           capture_output=True, text=True, errors="replace", timeout=3000)
        hit = re.findall(r"VIOLATION property=(\w+)", r.stdout)
        if r.returncode not in (0, 1):
            return name, "ERROR", r.stdout + r.stderr
        res = ("caught" if hit else "MISSED") if kind == "bug" else ("FALSE" if hit else "quiet")
        first = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
        return name, res + t + " " + ",".join(hit), "" if res == "quiet" else "\n".join(first)
    except subprocess.TimeoutExpired:
        return name, "TIMEOUT", ""
    finally:
        shutil.rmtree(d)

args = sys.argv[1:]
tests = "-t" in args
if tests: args.remove("-t")
v = "-v" in args
if v: args.remove("-v")
props = []
j = 4
if "-j" in args:
    i = args.index("-j"); j = int(args[i+1]); del args[i:i+2]
if "-p" in args:
    i = args.index("-p"); props = args[i+1].split(","); del args[i:i+2]
todo = [e for e in load() if not args or any(e[0].startswith(a) for a in args)]
TMP = tempfile.mkdtemp(prefix="mutbin-")
BIN = shutil.copy(ROOT + "/bin/aqlverify", TMP)
atexit.register(shutil.rmtree, TMP)
with ThreadPoolExecutor(j) as ex:
    for name, res, more in ex.map(lambda e: one(e, tests, props), todo):
        print("%-34s %s" % (name, res))
        if more and (v or not res.startswith("caught")):
            print("    " + "\n    ".join(l[:400] for l in more.splitlines()[:12]))
        sys.stdout.flush()
