#!/usr/bin/env python3
"""Mutation campaign: campaign.py OUTDIR WORKERS [file...]

For every mutation of every source file, in random order: does it build, does one of the
checks anchored in that file report it, and if not, do the repository's own tests?
Works on copies of /repo and of /verif; appends to OUTDIR/results.tsv and may be resumed.
"""
import os, random, shutil, subprocess, sys, threading, queue, fnmatch

HERE = os.path.dirname(os.path.abspath(__file__))
MAP = [
    ("vsa.go", "C01 C02 C06 C04 C05 C03"),
    ("internal/ratelimiter/core/store.go", "C07 C08 C10"),
    ("internal/ratelimiter/core/worker.go", "C08 C09 C10 C11 C27 C14"),
    ("internal/ratelimiter/core/persistence.go", "C28 C14"),
    ("internal/ratelimiter/core/metrics.go", "C28"),
    ("internal/ratelimiter/api/server.go", "C12 C13 C27 C28"),
    ("internal/ratelimiter/persistence/redis.go", "C15"),
    ("internal/ratelimiter/persistence/postgres.go", "C16"),
    ("internal/ratelimiter/persistence/kafka.go", "C17"),
    ("internal/ratelimiter/persistence/shim.go", "C18"),
    ("internal/ratelimiter/persistence/*", "C18 C15 C17 C16 C14"),
    ("internal/ratelimiter/telemetry/churn/*", "C27"),
    ("internal/sinks/*", "C24"),
    ("plugin/tfd/classifier.go", "C19"),
    ("plugin/tfd/vactors.go", "C22 C25"),
    ("plugin/tfd/reconstruct.go", "C23"),
    ("plugin/tfd/vsa_integration.go", "C21 C26"),
    ("plugin/tfd/*", "C20 C21 C25 C19 C22 C26"),
    ("cmd/ratelimiter-api/*", "C14 C31 C27 C28"),
    ("cmd/tfd-proxy/*", "C26"),
    ("cmd/tfd-sim/*", "C30"),
    ("tools/http-loadgen/*", "C29"),
]
TMP = os.environ.get("MUT_TMP", "/tmp/mutcamp")


def checks(f):
    for pat, c in MAP:
        if fnmatch.fnmatch(f, pat):
            return c.split()
    return []


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    os.makedirs(out, exist_ok=True)
    os.makedirs(TMP, exist_ok=True)
    tool = TMP + "/mutate"
    env = dict(os.environ, GO111MODULE="off")
    subprocess.check_call(["go", "build", "-o", tool, "."], cwd=HERE, env=env)
    files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.go"], text=True).split()
    files = [f for f in files if not f.endswith("_test.go") and checks(f)]
    if len(sys.argv) > 3:
        files = [f for f in files if f in sys.argv[3:]]
    res = out + "/results.tsv"
    done = set()
    if os.path.exists(res):
        done = {tuple(l.split("\t")[:2]) for l in open(res)}
    jobs = []
    for f in files:
        for l in subprocess.check_output([tool, "list", "/repo/" + f], text=True).splitlines():
            i, line, kind, what = l.split("\t")
            if kind == "string" or kind == "const" and (f.startswith(("cmd/", "tools/")) or "exporter" in f):
                continue
            if (f, i) not in done:
                jobs.append((f, i, line, kind, what))
    random.Random(7).shuffle(jobs)
    jobs.sort(key=lambda j: j[3] == "const")
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    print(len(jobs), "mutations", flush=True)
    lock = threading.Lock()

    def work(k):
        w = f"{TMP}/w{k}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        subprocess.check_call(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", "--exclude", "replays", "/verif/", w + "/verif/"])
        cache = w + "/cache"
        while True:
            try:
                f, i, line, kind, what = q.get_nowait()
            except queue.Empty:
                return
            env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_GOCACHE=cache, GOCACHE=cache, VERIF_SEED="1", VERIF_TIER="quick", GOFLAGS="-mod=mod", GOPROXY="off")
            dst = f"{w}/repo/{f}"
            src = subprocess.check_output([tool, "apply", "/repo/" + f, i])
            open(dst, "wb").write(src)
            verdict = "SURVIVED"
            p = subprocess.run(["go", "build", "./..."], cwd=w + "/repo", env=env, capture_output=True)
            if p.returncode:
                verdict = "nobuild"
            else:
                odd = []
                for c in checks(f):
                    p = subprocess.Popen(["python3", w + "/verif/run.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                    try:
                        o, _ = p.communicate(timeout=240)
                    except subprocess.TimeoutExpired:
                        subprocess.run(["pkill", "-9", "-f", w + "/verif/run.py"])
                        os.killpg(p.pid, 9)
                        o, _ = p.communicate()
                        odd.append(c + ":timeout")
                        continue
                    if p.returncode == 1:
                        verdict = "caught " + c
                        break
                    if p.returncode != 0:
                        odd.append(f"{c}:rc{p.returncode}")
                        open(f"{out}/odd-{os.path.basename(f)}-{i}-{c}.txt", "w").write(o)
                if verdict == "SURVIVED":
                    ok = True
                    p = subprocess.Popen(["go", "test", "./..."], cwd=w + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                    try:
                        p.communicate(timeout=200)
                        ok = p.returncode == 0
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, 9)
                        p.communicate()
                        ok = False
                    if not ok:
                        verdict = "tests"
                    if odd:
                        verdict += " " + ",".join(odd)
            shutil.copy("/repo/" + f, dst)
            with lock:
                open(res, "a").write("\t".join([f, i, line, kind, what, verdict]) + "\n")
            if int(subprocess.check_output(["du", "-sm", cache]).split()[0]) > 6000:
                shutil.rmtree(cache, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
