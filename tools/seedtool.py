#!/usr/bin/env python3
"""Plants and confirms a bug:  seedtool.py make ID < spec.json   |   seedtool.py verify ID...   |   seedtool.py catch ID...

make    writes /verif/seeded/ID from a spec {property, needs, what_it_breaks, pkg, edits: [[file, old, new]...]}
        and the demo test in /tmp/sw/demo/ID_test.go.
verify  in a scratch copy: the patch applies, builds, passes the stable tests; demo.sh exits 0 without and non-zero with it.
catch   runs the property's check (VERIF_REPO=scratch copy) and reports whether it raises its violation."""
import json, os, subprocess, sys, shutil, re, tempfile
V = "/verif/seeded"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")

DEMO = '''#!/bin/bash
# Runs the demonstration inside the package it is about, in the tree of the working directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TMPDIR=$t
export HOME=${HOME:-/root}
{ printf '{"Replace":{'; sep=
for f in "$here"/*_test.go; do printf '%%s"%%s/%(pkg)szz_%%s":"%%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=,; done
printf '}}'; } > "$t/overlay.json"
%(env)sgo test -count=1 -vet=off %(flags)s-timeout 250s -overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
'''


def copy(dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    subprocess.check_call(["cp", "-a", "/repo", dst])


def make(i):
    spec = json.load(sys.stdin)
    d = f"{V}/{i}"
    w = f"/tmp/sw/make-{i}"
    copy(w)
    for f, old, new in spec["edits"]:
        s = open(f"{w}/{f}").read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    subprocess.check_call(["gofmt", "-w"] + [f"{w}/{e[0]}" for e in spec["edits"]], env=ENV)
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    pkg = spec["pkg"].strip("/")
    if os.path.exists(f"/tmp/sw/demo/{i}_test.go"):
        shutil.copy(f"/tmp/sw/demo/{i}_test.go", f"{d}/demo_test.go")
        for x in spec.get("extra", []):
            h = open(x).read().replace("package verifpersist_test", "package persistence_test").replace('\tkit "vsa/internal/verifkit"\n', "").replace("kit.Broken(", "demoBroken(")
            open(f"{d}/demo_{os.path.basename(x)}", "w").write(h)
        open(f"{d}/demo.sh", "w").write(DEMO % {"pkg": pkg + "/" if pkg and pkg != "." else "", "flags": spec.get("flags", ""), "env": spec.get("env", "")})
        os.chmod(f"{d}/demo.sh", 0o755)


def original(i):
    """Whether the patch changes (removes or replaces) a line of the first commit."""
    f = None; hit = []
    for l in open(f"{V}/{i}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            base = set(x.strip() for x in subprocess.check_output(["git", "-C", "/repo", "show", f"5b72176:{f}"], text=True).splitlines())
        elif l.startswith("-") and l[1:].strip():
            hit.append(l[1:].strip() in base)
    return any(hit), all(hit)


def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def verify(i, tests=True):
    d = f"{V}/{i}"
    w = f"/tmp/sw/v-{i}"
    copy(w)
    lay = tempfile.mkdtemp(prefix="lay")
    subprocess.check_call(f"cp {d}/demo* {lay}/", shell=True)
    bad = []
    if not original(i)[0]:
        bad.append("changes no original line")
    try:
        for k in range(2):
            rc, o = run(["bash", f"{lay}/demo.sh"], w, timeout=300)
            if rc != 0:
                bad.append("demo fails on the clean tree:\n" + o[-1500:])
                break
        rc, o = run(["git", "apply", f"{d}/patch.diff"], w)
        if rc:
            return [f"does not apply: {o}"]
        rc, o = run(["go", "build", "./..."], w)
        if rc:
            return [f"does not build: {o}"]
        for k in range(3):
            rc, o = run(["bash", f"{lay}/demo.sh"], w, timeout=300)
            if rc == 0:
                bad.append("demo passes with the patch")
                break
            if "FAIL" not in o or "[build failed]" in o or "DEMO" not in o and "panic" not in o and "fatal" not in o and "RACE" not in o:
                bad.append("demo fails for another reason:\n" + o[-1500:])
                break
        if tests:
            log = f"/tmp/sw/{i}.log"
            with open(log, "w") as f:
                subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-p", "1", "-cpu", "2", "-tags=e2e", "-timeout", "5m", "./..."], cwd=w, env=ENV, stdout=f, stderr=subprocess.STDOUT, timeout=900)
            run(["python3", "/opt/vp/results.py", f"/tmp/sw/{i}.json", f"gojson:{log}"], w)
            b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open(f"/tmp/sw/{i}.json"))
            miss = [t for t in b["stable"] if t not in set(r["passed"])]
            if miss:
                bad.append(f"tests fail: {miss}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(lay)
    return bad


def catch(i, prop=None):
    d = f"{V}/{i}"
    w = f"/tmp/sw/c-{i}"
    copy(w)
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    try:
        rc, o = run(["git", "apply", f"{d}/patch.diff"], w)
        assert rc == 0, o
        env = dict(os.environ, VERIF_REPO=w)
        rc, o = run(["python3", "/verif/run.py", prop], "/verif", env=env, timeout=1000)
        return rc, o
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "make":
        make(ids[0])
    elif what == "verify":
        for i in ids:
            b = verify(i)
            print(i, "CONFIRMED" if not b else "NOT CONFIRMED: " + "; ".join(b), flush=True)
    elif what == "demo":
        for i in ids:
            b = verify(i, tests=False)
            print(i, "demo ok" if not b else "NOT OK: " + "; ".join(b), flush=True)
    elif what == "catch":
        for i in ids:
            rc, o = catch(i)
            m = re.findall(r"VERIF-PROPERTY-FAILED.*|DATA RACE|CHECK ERROR.*|^panic.*|OK property.*", o, re.M)
            print(i, {1: "CAUGHT", 0: "MISSED"}.get(rc, f"rc={rc}"), (m[0][:220] if m else o[-300:]), flush=True)
