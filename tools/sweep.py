#!/usr/bin/env python3
"""Runs the checks on the edits listed by analyzer/variants. Not part of any check.

usage: sweep.py build IN OUT         keeps the edits that compile
       sweep.py refs IN [prefix...]  refactorings, several at a time; reports alarms
       sweep.py bugs IN [prefix...]  changes; reports those that tests and checks miss
options: -j N, -b N (batch), -s N (seed), -n N (number of runs)
"""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod")
ENV.pop("GOOS", None)
ALL = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]

def opt(name, default):
    if name in sys.argv:
        i = sys.argv.index(name)
        v = sys.argv[i + 1]
        del sys.argv[i:i + 2]
        return v
    return default

J, B, S, N = int(opt("-j", "6")), int(opt("-b", "12")), int(opt("-s", "1")), int(opt("-n", "100000"))
cmd, inp = sys.argv[1], sys.argv[2]
rest = sys.argv[3:]
vs = [json.loads(l) for l in open(inp)]

TMP = tempfile.mkdtemp(prefix="sweep-")
atexit.register(shutil.rmtree, TMP, True)
BIN = shutil.copy(ROOT + "/bin/aqlverify", TMP)
BASE = os.path.join(TMP, "base")
subprocess.run("cp -r /repo %s && rm -rf %s/.git" % (BASE, BASE), shell=True, check=True)

def relevant(files):
    out = set()
    for f in files:
        if f.startswith("jsonmatcher"):
            out |= {"M%02d" % i for i in range(1, 14)} | {"P02", "P03", "P09", "N01"}
        elif f.startswith("parser/ast"):
            out |= {"P%02d" % i for i in range(1, 11)} | {"G03", "G04", "M02", "M03", "M08", "M12", "N01", "V01", "V02", "F01", "F02"}
        elif f.startswith("parser/fmtmsg"):
            out |= {"F01", "F02", "F03", "C01"}
        elif f.startswith("parser"):
            out |= {"P%02d" % i for i in range(1, 11)} | {"G02", "F03", "M08"}
        elif f.startswith("sampler"):
            out |= {"S01", "S02", "S03", "S04"}
        elif f.startswith("aqlgraph"):
            out |= {"V01", "V02", "C01"}
        elif f.startswith("cmd"):
            out |= {"C01"}
        elif f.startswith("wasm/aqlparse/server"):
            out |= {"W01"}
        elif f.startswith("wasm"):
            out |= {"W02"}
        else:
            out |= set(ALL)
    if not all(f.startswith("wasm/aqlparse/server") for f in files):
        out |= {"I01", "I02"}
    return [p for p in ALL if p in out]

def apply(d, group):
    by = {}
    for v in group:
        for e in v["edits"]:
            by.setdefault(e["file"], []).append(e)
    for f, es in by.items():
        b = open(os.path.join(d, f), "rb").read()
        size = len(b)
        ends = b"".join(e["text"].encode() for e in es if e["start"] == size)
        es = [e for e in es if e["start"] < size]
        es.sort(key=lambda e: (e["start"], e["end"]), reverse=True)
        for e in es:
            b = b[:e["start"]] + e["text"].encode() + b[e["end"]:]
        open(os.path.join(d, f), "wb").write(b + ends)

def build(d, files):
    pk = sorted({"./" + os.path.dirname(f) for f in files})
    env = ENV
    if any(p == "./wasm/aqlparse" for p in pk):
        env = dict(ENV, GOOS="js", GOARCH="wasm")
        pk = ["./wasm/aqlparse"]
    r = subprocess.run(["go", "build", "-o", os.devnull] + pk if len(pk) == 1 else ["go", "build"] + pk, cwd=d, env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stderr

def tests(d):
    try:
        r = subprocess.run(["go", "test", "-vet=off", "-timeout", "60s", "-exec", "/bin/bash /opt/vp/testexec.sh", "./jsonmatcher/...", "./parser/...", "./sampler/..."], cwd=d, env=ENV, capture_output=True, text=True, timeout=200)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False

def check(d, props, *flags):
    o = d + "/.out"
    os.makedirs(o, exist_ok=True)
    shutil.copy(ROOT + "/known_findings.txt", o)
    try:
        r = subprocess.run([BIN, "-repo", d, "-out", o] + list(flags) + props, capture_output=True, text=True, errors="replace", timeout=2400)
    except subprocess.TimeoutExpired:
        return ["TIMEOUT"], "timeout"
    hit = re.findall(r"VIOLATION property=(\w+)", r.stdout)
    if r.returncode not in (0, 1):
        return ["ERROR"], r.stdout + r.stderr
    return hit, "\n".join(l for l in r.stdout.splitlines() if not l.startswith("VIOLATION") and not l.startswith("KNOWN"))

def copy():
    d = tempfile.mkdtemp(prefix="v-", dir=TMP)
    subprocess.run(["cp", "-r", BASE + "/.", d], check=True)
    return d

def files(g):
    return sorted({e["file"] for v in g for e in v["edits"]})

def overlap(a, b):
    for x in a["edits"]:
        for y in b["edits"]:
            if x["file"] == y["file"] and x["start"] <= y["end"] and y["start"] <= x["end"] and not (x["start"] == x["end"] and y["start"] == y["end"] and x["text"].startswith("\nfunc")):
                return True
    return False

def do_build(v):
    d = copy()
    try:
        apply(d, [v])
        ok, err = build(d, files([v]))
        return ok, err
    finally:
        shutil.rmtree(d)

def do_ref(group, depth=0):
    d = copy()
    try:
        apply(d, group)
        ok, err = build(d, files(group))
        if not ok:
            if len(group) > 1:
                out = []
                for h in (group[:len(group) // 2], group[len(group) // 2:]):
                    out += do_ref(h)
                return out
            return ["BUILD %s\n    %s" % (group[0]["name"], err[:300])]
        if not depth and not tests(d):
            if len(group) > 1:
                out = []
                for h in (group[:len(group) // 2], group[len(group) // 2:]):
                    out += do_ref(h)
                return out
            return ["TESTS-FAIL " + group[0]["name"]]
        hit, text = check(d, relevant(files(group)))
    finally:
        shutil.rmtree(d)
    if not hit:
        return []
    if len(group) == 1:
        return ["FALSE %s %s\n    %s" % (group[0]["name"], ",".join(hit), "\n    ".join(l[:500] for l in text.splitlines()[:6]))]
    out = []
    for h in (group[:len(group) // 2], group[len(group) // 2:]):
        out += do_ref(h, depth + 1)
    return out or ["TOGETHER %s %s\n    %s" % (" ".join(v["name"] for v in group), ",".join(hit), "\n    ".join(l[:500] for l in text.splitlines()[:6]))]

def do_bug(v):
    d = copy()
    try:
        apply(d, [v])
        ok, err = build(d, files([v]))
        if not ok:
            return "build"
        if not tests(d):
            return "tests"
        slow = ["M08", "F02", "F03", "P01", "P09", "M03"]
        hit, text = check(d, sorted(relevant(files([v])), key=lambda p: p in slow), "-first")
        if hit:
            return "caught " + ",".join(hit)
        return "MISSED"
    finally:
        shutil.rmtree(d)

sel = [v for v in vs if not rest or any(v["file"].startswith(r) or v["name"].startswith(r) for r in rest)]
rnd = random.Random(S)
with ThreadPoolExecutor(J) as ex:
    if cmd == "build":
        out = open(rest[0], "w")
        bad = 0
        for v, (ok, err) in zip(vs, ex.map(do_build, vs)):
            if ok:
                out.write(json.dumps(v) + "\n"); out.flush()
            else:
                bad += 1
                if v["kind"] == "ref":
                    print(v["name"], err.strip().splitlines()[-1][:150], flush=True)
        print(bad, "do not build")
    elif cmd == "refs":
        todo = [v for v in sel if v["kind"] == "ref"]
        rnd.shuffle(todo)
        groups = []
        for v in todo:
            for g in groups[-40:]:
                if len(g) < B and not any(overlap(v, w) or (v["file"], v["func"]) == (w["file"], w["func"]) and B > 1 for w in g):
                    g.append(v)
                    break
            else:
                groups.append([v])
        groups = groups[:N]
        print(len(todo), "edits in", len(groups), "groups", flush=True)
        for i, r in enumerate(ex.map(do_ref, groups)):
            for l in r: print(l, flush=True)
            if i % 10 == 9: print("...", i + 1, flush=True)
    else:
        todo = [v for v in sel if v["kind"] == "bug"][:N]
        print(len(todo), "edits", flush=True)
        n = {}
        for v, r in zip(todo, ex.map(do_bug, todo)):
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1
            if r == "MISSED" or "ERROR" in r or "TIMEOUT" in r:
                print(r, v["name"], "in", v["func"], json.dumps([e["text"][:80] for e in v["edits"]]), flush=True)
            elif r.startswith("caught"):
                print("  ", r, v["name"], flush=True)
        print(n)
