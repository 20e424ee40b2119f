#!/usr/bin/env python3
"""check.py PROPERTY [--case NAME] [--keep]   run the monitor of one property against /repo.
check.py --setup                            warm the build cache.

Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = os.path.join(HERE, "harness")
COMMON = ["common_test.go"]
CHAIN = COMMON + ["chain_test.go"]
PEERS = COMMON + ["peers_test.go"]
NET = ["common_test.go", "chain_test.go", "peers_test.go", "net_test.go"]

# files: harness files laid over the root directory of /repo; race: build with the race detector;
# ns: run inside an own network namespace with extra local addresses; binary: also build the program itself.
CHECKS = {
    "C01": dict(files=CHAIN + ["c01_test.go"], technique="reference-model monitor"),
    "C02": dict(files=CHAIN + ["c02_test.go"]),
    "C03": dict(files=CHAIN + ["c03_test.go"]),
    "C04": dict(files=CHAIN + ["c04_test.go"]),
    "C05": dict(files=CHAIN + ["c05_test.go"]),
    "C06": dict(files=CHAIN + ["c06_test.go"], level="fault_enumeration"),
    "C07": dict(files=CHAIN + ["c07_test.go"], race=True),
    "C08": dict(files=CHAIN + ["peers_test.go", "c08_test.go"]),
    "R01": dict(files=PEERS + ["r01_test.go"]),
    "R02": dict(files=PEERS + ["r02_test.go"]),
    "R03": dict(files=PEERS + ["r03_test.go"]),
    "R04": dict(files=PEERS + ["r04_test.go"]),
    "R05": dict(files=PEERS + ["r05_test.go"]),
    "R06": dict(files=PEERS + ["r06_test.go"], race=True),
    "L01": dict(files=NET + ["loader_test.go", "actors_test.go", "l01_test.go"]),
    "L02": dict(files=NET + ["loader_test.go", "l02_test.go"]),
    "D01": dict(files=NET + ["d01_test.go"]),
    "D02": dict(files=NET + ["loader_test.go", "hostile_test.go", "d02_test.go"]),
    "D03": dict(files=NET + ["loader_test.go", "actors_test.go", "api_test.go", "bin_test.go", "d03_test.go"], race=True, binary=True, ns=True),
    "A01": dict(files=NET + ["api_test.go", "a01_test.go"]),
    "A02": dict(files=NET + ["api_test.go", "a02_test.go"], race=True),
    "G01": dict(files=NET + ["api_test.go", "bin_test.go", "g01_test.go"], binary=True),
    "N01": dict(files=NET + ["n01_test.go"], race=True, ns=True, scale=10),
    "N02": dict(files=NET + ["loader_test.go", "api_test.go", "bin_test.go", "n02_test.go"], binary=True, ns=True, scale=10),
}


def go_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") and k not in ("GOCACHE",):
            del env[k]
    envsh = "/opt/vp/env.sh"
    if os.path.exists(envsh):
        out = subprocess.run(["bash", "-c", f". {envsh}; env -0"], capture_output=True, env=env).stdout
        env = dict(x.split("=", 1) for x in out.decode("utf-8", "replace").split("\0") if "=" in x)
    return env


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 3 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def prepare(tmp, files):
    """Writes overlay and module files; returns the go arguments."""
    repl = {}
    for f in files:
        repl[os.path.join(REPO, "zz_verif_" + f)] = os.path.join(H, f)
    ov = os.path.join(tmp, "overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": repl}, fh)
    mod = os.path.join(tmp, "go.mod")
    with open(os.path.join(REPO, "go.mod")) as fh:
        text = fh.read()
    with open(mod, "w") as fh:
        fh.write(text + f"\nreplace github.com/rhansen/go-kairos => {HERE}/shim/kairos\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    return ["-overlay", ov, "-modfile", mod]


def build(tmp, env, files, race, binary, scale=0):
    args = prepare(tmp, files)
    out = os.path.join(tmp, "t.test")
    procs = []
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + args + ["."]
    procs.append((cmd, subprocess.Popen(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    if binary:
        cmd = ["go", "build", "-o", os.path.join(tmp, "forkdetector")] + (["-race"] if race else []) + (args if scale else []) + ["."]
        procs.append((cmd, subprocess.Popen(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        text, _ = p.communicate(timeout=600)
        if p.returncode != 0:
            print(f"build failed: {' '.join(cmd)}\n{text}")
            return None
    return out


def repo_frame(text):
    return [l.strip() for l in text.splitlines() if l.strip().startswith("/repo/") and "zz_verif" not in l]


def race_of_repo(block):
    """Whether one of the two accesses was made by the code under test, and not by the harness."""
    parts = re.split(r"\n(?=(?:Previous )?(?:atomic )?(?:[Rr]ead|[Ww]rite) (?:at|by))|\nGoroutine \d+ ", block)
    seen = False
    for part in parts:
        if not re.match(r"(?:Previous )?(?:atomic )?(?:[Rr]ead|[Ww]rite) (?:at|by)", part):
            continue
        frames = [l.strip() for l in part.splitlines() if l.strip().startswith("/repo/")]
        if not frames:
            if "[failed to restore the stack]" in part:
                seen = True
            continue
        if "zz_verif" not in frames[0]:
            return True
    return seen and bool(repo_frame(block))


def crash_reports(log):
    """Panics, fatal errors and data races in the log that involve the code under test."""
    found, other = [], []
    for block in re.findall(r"={18}\nWARNING: DATA RACE\n.*?={18}", log, re.S):
        (found if race_of_repo(block) else other).append(("race", block))
    rest = re.sub(r"={18}\nWARNING: DATA RACE\n.*?={18}", "", log, flags=re.S)
    m = re.search(r"^(panic: |fatal error: |runtime: out of memory|SIG[A-Z]+: )", rest, re.M)
    if m:
        text = rest[m.start():]
        # The first goroutine after the message is the one that crashed.
        first = text.split("\n\ngoroutine ")
        head = "\n\ngoroutine ".join(first[:2])
        kind = "crash"
        if "deadlock" in text[:300]:
            kind, head = "deadlock", text
        if "concurrent map" in text[:300]:
            kind, head = "race", text
        frames = [l for l in head.splitlines() if l.strip().startswith("/repo/")]
        if not (frames and "zz_verif" in frames[0]):  # Not raised by the harness itself.
            found.append((kind, text))
        else:
            other.append((kind, text))
    return found, other


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh) if k.get("status") == "known"]


def main():
    if sys.argv[1:2] == ["--setup"]:
        return setup()
    pid = sys.argv[1]
    spec = CHECKS[pid]
    case = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else ""
    keep = "--keep" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    env = go_env()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=scratch_root())
    try:
        return run(pid, spec, case, tier, seed, env, tmp, t0)
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def run(pid, spec, case, tier, seed, env, tmp, t0):
    exe = build(tmp, env, spec["files"], spec.get("race", False), spec.get("binary", False), spec.get("scale", 0))
    if exe is None:
        return 2
    tb = time.time() - t0
    data = os.path.join(tmp, "data")
    os.makedirs(data)
    out = os.path.join(tmp, "result.json")
    e = dict(env)
    e.update(VERIF_OUT=out, VERIF_TMP=data, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_CASE=case, TMPDIR=data,
             GODEBUG="asynctimerchan=0", GOTRACEBACK="all", VERIF_BIN=os.path.join(tmp, "forkdetector"),
             GORACE=f"halt_on_error=0 exitcode=66 history_size=3 log_path={tmp}/race")
    limit = 800 if tier == "quick" else 6 * 3600
    cmd = [exe, "-test.run", f"^Test{pid}$", "-test.timeout", f"{limit}s", "-test.v"]
    if spec.get("scale"):
        e["VERIF_TIME_SCALE"] = str(spec["scale"])
    if spec.get("ns"):
        cmd = netns(cmd, e)
    log = os.path.join(tmp, "log.txt")
    with open(log, "wb") as fh:
        limits = None
        if not spec.get("race"):  # Makes absurd allocations fail instead of eating the machine.
            limits = lambda: resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=fh, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limits)
        rc, top, bloated = watch(p, limit + 30, (6 if tier == "quick" else 16) << 30)
    with open(log, "rb") as fh:
        text = fh.read().decode("utf-8", "replace")
    for f in sorted(os.listdir(tmp)):
        if f.startswith("race."):
            with open(os.path.join(tmp, f), "rb") as fh:
                text += "\n" + fh.read().decode("utf-8", "replace")
    rep = None
    if os.path.exists(out):
        with open(out) as fh:
            rep = json.load(fh)
    viols = []
    if os.path.exists(out + ".viol"):
        with open(out + ".viol") as fh:
            viols = [json.loads(l) for l in fh if l.strip()]
    open_cases = []
    if os.path.exists(out + ".journal"):
        with open(out + ".journal") as fh:
            for l in fh:
                k, _, name = l.strip().partition(" ")
                if k == "S":
                    open_cases.append(name)
                elif name in open_cases:
                    open_cases.remove(name)
    crashes, other = crash_reports(text)
    if not viols or not any(v["key"] in ("hang", "panic") for v in viols):
        for kind, block in crashes[:5]:
            viols.append(dict(case=",".join(open_cases), key=kind, msg=block[:20000], trace=[]))
    if bloated and not viols:
        viols.append(dict(case=",".join(open_cases), key="memory", trace=[],
                          msg=f"the process grew to {top >> 20} MB, the whole check takes a few hundred\n{text[:20000]}"))
    known = [k for k in known_findings() if k["property"] == pid]
    fresh, old = [], []
    for v in viols:
        k = next((k for k in known if k["key"] == v["key"] and re.search(k["match"], v["msg"])), None)
        (old if k else fresh).append((v, k))
    wall = round(time.time() - t0, 1)
    complete = bool(rep and rep.get("complete"))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="(the run produced no report)", samples=[])
    if rep:
        cov = dict(evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct_nontrivial"], rule=rep["rule"],
                   samples=rep["samples"], cases=rep["cases"], observed=rep["counters"])
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov, wall_s=wall,
              violations=len(fresh), max_rss_mb=top >> 20, build_s=round(tb, 1),
              assumptions=["verdict covers the executions of this run only",
                           "timers of the code under test run on a stand-in for go-kairos with the same contract"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not case:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for k in {id(k): k for _, k in old}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fresh:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", f"{pid}-{seed}-{tier}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=pid, seed=seed, tier=tier, violations=[v for v, _ in fresh],
                           replay=f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {pid} --case '{fresh[0][0]['case']}'",
                           log_tail=text[-20000:]), fh, indent=1)
        for v, _ in fresh[:3]:
            print(f"--- {pid} [{v['key']}] case {v['case']}\n{v['msg'][:3000]}")
            if v.get("trace"):
                print("  trace (tail):\n    " + "\n    ".join(v["trace"][-12:]))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not complete or rc != 0 or other or (rep and rep.get("inconclusive")):
        if old and not other and complete:
            return 0
        print(f"{pid}: no verdict (exit {rc}, complete={complete})")
        for kind, block in other[:2]:
            print(f"[{kind}] outside the code under test:\n{block[:4000]}")
        if rep and rep.get("inconclusive"):
            print("inconclusive:", "\n".join(rep["inconclusive"])[:4000])
        print(text[-6000:])
        return 2
    if rep["evaluations"] == 0 and not case:
        print(f"{pid}: the monitor observed nothing")
        return 2
    print(f"{pid}: held on {rep['evaluations']} evaluations ({rep['distinct_nontrivial']} distinct) in {rep['cases']} cases, {wall} s (build {tb:.1f} s)")
    return 0


def watch(p, limit, room):
    """Waits for the process of the check; a process that outgrows its room is made to show its goroutines and ended."""
    end, top, quit_at = time.time() + limit, 0, None
    page = os.sysconf("SC_PAGE_SIZE")
    while True:
        try:
            return p.wait(timeout=0.1), top, quit_at is not None
        except subprocess.TimeoutExpired:
            pass
        try:
            with open(f"/proc/{p.pid}/statm") as fh:
                rss = int(fh.read().split()[1]) * page
        except (OSError, IndexError, ValueError):
            rss = 0
        top = max(top, rss)
        if rss > room and quit_at is None:
            quit_at = time.time()
            os.kill(p.pid, signal.SIGQUIT)
        if time.time() > end or quit_at and (time.time() > quit_at + 5 or rss > 2 * room):
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return -9, top, quit_at is not None


def netns(cmd, e):
    """Own network namespace with extra addresses, if that is possible here."""
    probe = "ip link set lo up && ip addr add 10.77.0.1/16 dev lo"
    r = subprocess.run(["unshare", "-Urn", "sh", "-c", probe], capture_output=True)
    if r.returncode != 0:
        e["VERIF_NETNS"] = ""
        return cmd
    e["VERIF_NETNS"] = "1"
    sh = "ip link set lo up; ip addr add 10.77.0.1/16 dev lo; exec \"$@\""
    return ["unshare", "-Urn", "sh", "-c", sh, "sh"] + cmd


def setup():
    env = go_env()
    ok = True
    for race, files in ((False, NET), (True, NET)):
        tmp = tempfile.mkdtemp(prefix="verif-setup-", dir=scratch_root())
        try:
            files = [f for f in files if os.path.exists(os.path.join(H, f))]
            ok = build(tmp, env, files, race, True) is not None and ok
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print("setup", "ok" if ok else "failed")
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
