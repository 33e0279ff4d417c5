"""Instruments packages for the controlled scheduler: in copies of their non-test files the
imports "sync" and "sync/atomic" are redirected to stand-ins that yield before every
operation. The copies enter the build through the overlay."""
import os, re

IMP = re.compile(r'^(\s*(?:import\s+)?)((?:[A-Za-z_][A-Za-z0-9_]*|\.)\s+)?"(sync|sync/atomic)"', re.M)


def rewrite_source(src):
    def sub(m):
        name = m.group(2) or {"sync": "sync ", "sync/atomic": "atomic "}[m.group(3)]
        new = {"sync": "vsync", "sync/atomic": "vatomic"}[m.group(3)]
        return f'{m.group(1)}{name}"vsa/internal/verifsched/{new}"'
    # only the import section: up to the first top-level declaration after it
    m = re.search(r'^(func|type|var|const)\b', src, re.M)
    cut = m.start() if m else len(src)
    return IMP.sub(sub, src[:cut]) + src[cut:]


def rewrite(repo, here, work, pkgs, rep, env):
    lib = os.path.join(here, "harness", "schedlib")
    for d, _, fs in os.walk(lib):
        for f in fs:
            p = os.path.join(d, f)
            rep[f"{repo}/internal/verifsched/" + os.path.relpath(p, lib)] = p
    out = os.path.join(work, "instrumented")
    n = 0
    for pkg in pkgs:
        d = os.path.normpath(os.path.join(repo, pkg))
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            src = open(os.path.join(d, f)).read()
            new = rewrite_source(src)
            if new != src:
                dst = os.path.join(out, pkg.strip("./") or "root", f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                open(dst, "w").write(new)
                rep[os.path.join(d, f)] = dst
                n += 1
    return n
