#!/usr/bin/env python3
"""Driver of the checks: run.py <property id> [--replay FILE]

Builds the harness of one property against /repo's current working tree (through a build
overlay: nothing is written to /repo), runs it, writes evidence/<id>.json and prints
"VIOLATION property=<id> replay=<path>" (exit 1) if the property is violated.
Exit 0: held on everything explored.  Exit 2: the check itself could not do its work.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks as registry  # noqa: E402
import schedrw  # noqa: E402

MODULE = "vsa"
GO = "/opt/veriftools/go1.24.13/bin"
if not os.path.isdir(GO):
    GO = os.path.dirname(shutil.which("go") or "/usr/local/go/bin/go")

FAIL_PAT = re.compile(r"VERIF-PROPERTY-FAILED")
BROKEN_PAT = re.compile(r"VERIF-HARNESS-BROKEN: (.*)")


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def go_env(work, group):
    env = dict(os.environ)
    env.update(
        HOME="/root" if os.path.isdir("/root/go") else env.get("HOME", "/root"),
        PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
        GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
        GOWORK="off", GOTMPDIR=work, TMPDIR=work,
    )
    env.pop("GOEXPERIMENT", None)
    if group.get("synctest"):
        env["GOEXPERIMENT"] = "synctest"
    return env


def module_files(work):
    """A copy of /repo's go.mod/go.sum that also requires rapid."""
    mod = open(os.path.join(REPO, "go.mod")).read()
    if "pgregory.net/rapid" not in mod:
        mod += "\nrequire pgregory.net/rapid v1.3.0\n"
    p = os.path.join(work, "verif.mod")
    open(p, "w").write(mod)
    s = open(os.path.join(REPO, "go.sum")).read()
    have = set(s.split("\n"))
    for line in open(os.path.join(HERE, "lib", "rapid.sum")):
        if line.strip() and line.strip() not in have:
            s = s.rstrip("\n") + "\n" + line.strip() + "\n"
    open(os.path.join(work, "verif.sum"), "w").write(s)
    return p


def overlay(work, group):
    rep = {}
    kit = os.path.join(HERE, "harness", "kit")
    for f in os.listdir(kit):
        rep[f"{REPO}/internal/verifkit/{f}"] = os.path.join(kit, f)
    for extra, dst in group.get("extra", {}).items():
        rep[f"{REPO}/{dst}"] = os.path.join(HERE, "harness", extra)
    pkg = group["pkg"]
    for f in group["files"]:
        name = group.get("rename", os.path.basename(f))
        if not name.endswith("_test.go"):
            name = name[:-3] + "_test.go"
        src = os.path.join(HERE, "harness", f)
        if group.get("package"):  # shared files take the package name of the target
            txt = re.sub(r"(?m)^package \w+", "package " + group["package"], open(src).read(), count=1)
            src = os.path.join(work, "pkg_" + name)
            open(src, "w").write(txt)
        rep[f"{REPO}/{pkg}/zz_verif_{name}"] = src
    # the repository's own tests of that package are not part of the harness
    d = os.path.join(REPO, pkg)
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.endswith("_test.go"):
                rep[os.path.join(d, f)] = ""
    if group.get("sched"):
        schedrw.rewrite(REPO, HERE, work, group["sched"], rep, env=go_env(work, group))
    p = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


def run_cmd(cmd, env, cwd, timeout, failure=None):
    """Runs cmd in its own process group; returns (rc or None on timeout, output).
    Once the file failure exists (a case has failed), the shrinker gets three more minutes."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    buf, size = [], [0]

    def pump():
        for chunk in iter(lambda: p.stdout.read1(65536), b""):
            buf.append(chunk)
            size[0] += len(chunk)
            while size[0] > 64 << 20 and len(buf) > 2:  # keep head and tail of huge outputs
                size[0] -= len(buf.pop(len(buf) // 2))

    th = threading.Thread(target=pump, daemon=True)
    th.start()
    rc = None
    end = time.time() + timeout
    while rc is None and time.time() < end:
        if failure and time.time() < end - 180 and os.path.exists(failure):
            end = time.time() + 180
        try:
            rc = p.wait(min(5, max(0.1, end - time.time())))
        except subprocess.TimeoutExpired:
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    th.join(10)
    return rc, b"".join(buf).decode("utf-8", "replace")


def build(work, group, idx):
    env = go_env(work, group)
    mod = module_files(work)
    ov = overlay(work, group)
    out = os.path.join(work, f"h{idx}.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", ov, "-o", out]
    if group.get("race"):
        cmd.append("-race")
    if group.get("tags"):
        cmd += ["-tags", group["tags"]]
    if group.get("sched"):
        cmd.append("-ldflags=-checklinkname=0")
    cmd.append("./" + group["pkg"])
    rc, o = run_cmd(cmd, env, REPO, 600)
    if rc != 0 or not os.path.exists(out):
        raise Broken(f"the harness does not build (rc={rc}):\n{o[-6000:]}")
    bins = {}
    for name, path in group.get("binaries", {}).items():
        b = os.path.join(work, name)
        cmd = ["go", "build", "-modfile", mod, "-o", b]
        if group.get("race_bin"):
            cmd.append("-race")
        rc, o = run_cmd(cmd + ["./" + path], env, REPO, 600)
        if rc != 0:
            raise Broken(f"{path} does not build:\n{o[-4000:]}")
        bins[name] = b
    return out, bins


def known_findings():
    """(property, id) of every finding listed as not repaired."""
    out = set()
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) id=([\w-]+) ", line)
        if m:
            out.add(m.group(1, 2))
    return out


def main():
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    if pid not in registry.CHECKS:
        log(f"unknown property {pid}")
        return 2
    chk = registry.CHECKS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    evid = os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)
    known_lines, violations, groups_ev, unlisted = [], [], [], []
    listed = known_findings()
    broken = None
    try:
        for idx, group in enumerate(chk["groups"]):
            gw = os.path.join(work, f"g{idx}")
            os.makedirs(gw)
            stats_dir = os.path.join(gw, "stats")
            cwd = os.path.join(gw, "cwd")
            os.makedirs(stats_dir)
            os.makedirs(cwd)
            binp, bins = build(gw, group, idx)
            env = go_env(gw, group)
            budget = group.get("budget", (60, 780 // len(chk["groups"])))[tier == "thorough"]
            tests = subprocess.run([binp, "-test.list", group["run"]], cwd=cwd, env=env, capture_output=True, text=True)
            env["VERIF_TESTS"] = str(sum(l.startswith("Test") for l in tests.stdout.splitlines()))
            env.update(VERIF_OUT=stats_dir, VERIF_TIER=tier, VERIF_SEED=str(seed),
                       VERIF_SCRATCH=cwd, VERIF_BUDGET_S=os.environ.get("VERIF_BUDGET_S", str(budget)),
                       GOTRACEBACK="all")
            if group.get("race"):
                env["GORACE"] = "halt_on_error=1 exitcode=66"
            env.update(group.get("env", {}))
            for name, b in bins.items():
                env["VERIF_BIN_" + name.upper().replace("-", "_")] = b
            rseed = (seed * 2654435761 + idx * 97 + int(pid[1:]) * 1000003) % (1 << 31) or 1
            limit = 840 if tier == "quick" else 3600
            cmd = [binp, "-test.run", group["run"], "-test.v", f"-test.timeout={limit - 20}s",
                   f"-rapid.seed={rseed}", "-rapid.shrinktime=20s"]
            if group.get("cpu"):
                cmd.append(f"-test.cpu={group['cpu']}")
            if replay and replay.endswith(".fail"):
                cmd += ["-rapid.failfile=" + replay]
                m = re.match(r"(Test\w+?)-\d{8,}", os.path.basename(replay))
                if m:
                    cmd[2] = "^" + m.group(1) + "$"
            note = os.path.join(stats_dir, "failure.txt")
            rc, o = run_cmd(cmd, env, cwd, limit, note)
            if rc != 0 and os.path.exists(note) and not FAIL_PAT.search(o):
                o += "\n" + open(note, errors="replace").read()  # a case failed, but the process did not get to say so
            for line in o.split("\n"):
                m = re.match(r"KNOWN-FINDING: property=(\S+) ([\w-]+): ", line)
                if m:
                    if m.group(1, 2) not in listed:
                        unlisted.append(line)
                    elif line not in known_lines:
                        known_lines.append(line)
            st = []
            for f in sorted(glob.glob(os.path.join(stats_dir, "*.json"))):
                try:
                    st.append(json.load(open(f)))
                except ValueError:
                    pass
            groups_ev.append((group, st))
            m = BROKEN_PAT.search(o)
            if m and not FAIL_PAT.search(o):
                raise Broken(m.group(1) + "\n" + o[-3000:])
            if unlisted and rc == 0:
                path = save_replay(pid, group, idx, o, cwd, seed, tier, cmd)
                violations.append(path)
                log("not in KNOWN_FINDINGS: " + "\n".join(unlisted))
                break
            if rc == 0:
                if not st and not replay:
                    raise Broken("no test of the harness ran:\n" + o[-2000:])
                continue
            why = None
            if FAIL_PAT.search(o):
                why = "property"
            elif "WARNING: DATA RACE" in o:
                why = "data race"
            elif re.search(r"^fatal error: ", o, re.M) and "out of memory" not in o and "cannot allocate" not in o:
                why = "fatal error"
            elif re.search(r"\[rapid\] (failed|panic|flaky)", o) or re.search(r"^panic: (?!test timed out)", o, re.M):
                why = "panic"
            if why is None:
                raise Broken(f"harness ended with rc={rc} without a verdict:\n{o[-6000:]}")
            path = save_replay(pid, group, idx, o, cwd, seed, tier, cmd)
            violations.append(path)
            i = o.find("VERIF-PROPERTY-FAILED")
            if i < 0:
                i = max(o.find("WARNING: DATA RACE"), o.find("fatal error: "), o.find("[rapid]"), o.find("panic: "), 0)
            log(o[max(0, i - 300):i + 5000])
            break
    except Broken as e:
        broken = str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if broken is not None:
        log(f"CHECK ERROR property={pid}: {broken}")
        return 2
    for k in known_lines:
        log(k)
    if not replay:
        write_evidence(pid, chk, tier, seed, groups_ev, time.time() - t0, violations, known_lines)
    if violations:
        log(f"VIOLATION property={pid} replay={violations[0]}")
        return 1
    n = sum(s["evaluations"] for _, st in groups_ev for s in st)
    log(f"OK property={pid} evaluations={n} wall={time.time() - t0:.1f}s")
    return 0


def save_replay(pid, group, idx, out, cwd, seed, tier, cmd):
    d = os.path.join(HERE, "replays", pid)
    os.makedirs(d, exist_ok=True)
    stamp = time.strftime("%Y%m%d-%H%M%S") + f"-{os.getpid()}"
    fails = glob.glob(os.path.join(cwd, "testdata", "rapid", "*", "*.fail"))
    txt = os.path.join(d, stamp + ".txt")
    with open(txt, "w") as f:
        f.write(f"property {pid} seed {seed} tier {tier} group {idx} ({group['pkg']} {group['run']})\n")
        f.write("reproduce: VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s\n" % (seed, tier, pid))
        f.write(out[:200000])
        if len(out) > 200000:
            f.write("\n...\n" + out[-50000:])
    if fails:
        dst = os.path.join(d, os.path.basename(fails[0]))
        shutil.copy(fails[0], dst)
        with open(txt, "a") as f:
            f.write(f"\nminimal case: python3 /verif/run.py {pid} --replay {dst}\n")
        return dst
    return txt


def write_evidence(pid, chk, tier, seed, groups_ev, wall, violations, known):
    ev, dn, samples, per = 0, 0, [], []
    for g, st in groups_ev:
        for s in st:
            ev += s["evaluations"]
            dn += s["distinct_nontrivial"]
            samples += s.get("samples") or []
            per.append({"test": s["test"], "evaluations": s["evaluations"],
                        "distinct_nontrivial": s["distinct_nontrivial"],
                        "classes": s.get("classes") or {},
                        "skipped_after_budget": s.get("skipped_after_budget", 0)})
    # a few samples of every test
    seen, keep = {}, []
    for s in samples:
        if seen.get(s["test"], 0) < 2:
            seen[s["test"]] = seen.get(s["test"], 0) + 1
            keep.append(s)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": chk["rule"],
                        "samples": keep[:12], "tests": per, "known_findings": known},
           "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2),
           "violations": len(violations)}
    p = os.path.join(HERE, "evidence", pid + ".json")
    tmp = p + ".tmp"
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, p)


if __name__ == "__main__":
    sys.exit(main())
