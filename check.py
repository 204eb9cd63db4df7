#!/usr/bin/env python3
"""Driver of the checks: builds the harness against /repo's working tree, runs
the generated search of one property over several processes, merges what they
counted into the evidence file and reports violations.

  check.py <ID>              run the check of a property (VERIF_TIER, VERIF_SEED)
  check.py --setup           build everything once
  check.py --replay FILE     run the single case of a replay file
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
NCPU = os.cpu_count() or 4
BUDGET = {"quick": 780, "thorough": 3 * 3600}

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def goenv():
    e = dict(os.environ)
    e.update(
        GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
        GONOSUMDB="*", GOWORK="off", CGO_ENABLED=e.get("CGO_ENABLED", "1"),
    )
    e.pop("GODEBUG", None)
    return e


class Inconclusive(Exception):
    pass


def overlay(variant):
    """Writes the overlay file of a build variant, or returns None."""
    repl = {}
    if not os.path.exists(os.path.join(REPO, "go.mod")):
        m = os.path.join(BUILD, "goji.go.mod")
        with open(m, "w") as f:
            f.write("module github.com/zenazn/goji\n\ngo 1.20\n")
        repl[os.path.join(REPO, "go.mod")] = m
    # Listeners allocate megabytes ahead of time, "a premature optimization" in
    # the words of their author, and graceful never forgets one. A search which
    # makes a million of them does without, as long as the constant is there.
    if variant == "plain":
        f = os.path.join(REPO, "graceful/listener/shard.go")
        try:
            with open(f) as g:
                src = g.read()
        except OSError:
            src = ""
        small = re.sub(r"(?m)^const prealloc = 2048$", "const prealloc = 4", src)
        if small != src:
            m = os.path.join(BUILD, "shard.%d.go" % os.getpid())
            with open(m, "w") as g:
                g.write(small)
            repl[f] = m
    if variant == "sched":
        tool = os.path.join(BUILD, "instrument")
        r = subprocess.run(["go", "build", "-o", tool, "./instrument"], cwd=HARNESS, env=goenv(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise Inconclusive("building the instrumenter: " + r.stderr[-3000:])
        out = os.path.join(BUILD, "sched-src.%d" % os.getpid())
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        r = subprocess.run([tool, REPO, out], capture_output=True, text=True)
        if r.returncode != 0:
            return False
        repl.update(json.loads(r.stdout))
    if not repl:
        return None
    p = os.path.join(BUILD, "overlay-%s.%d.json" % (variant, os.getpid()))
    with open(p, "w") as f:
        json.dump({"Replace": repl}, f)
    return p


def modfile():
    if REPO == "/repo":
        return []
    p = os.path.join(BUILD, "alt.%d.mod" % os.getpid())
    with open(os.path.join(HARNESS, "go.mod")) as f:
        s = f.read().replace("=> /repo", "=> " + REPO)
    with open(p, "w") as f:
        f.write(s)
    shutil.copy(os.path.join(HARNESS, "go.sum"), p[:-3] + "sum")
    return ["-modfile=" + p]


def build(pkg, variant):
    """Builds the test binary of a harness package. Returns its path, or None if
    the variant does not apply to this tree."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s.%d.test" % (pkg.replace("/", "_"), variant, os.getpid()))
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + modfile()
    ov = overlay(variant)
    if ov is False:
        return None
    if ov:
        cmd += ["-overlay", ov]
    tags = []
    if variant == "race":
        cmd += ["-race"]
    if variant == "sched":
        tags.append("sched")
    if tags:
        cmd += ["-tags", ",".join(tags)]
    cmd += ["./" + pkg]
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), capture_output=True, text=True)
    if ov:
        os.unlink(ov)
    shutil.rmtree(os.path.join(BUILD, "sched-src.%d" % os.getpid()), ignore_errors=True)
    for f in ("alt.%d.mod" % os.getpid(), "alt.%d.sum" % os.getpid(), "shard.%d.go" % os.getpid()):
        try:
            os.unlink(os.path.join(BUILD, f))
        except FileNotFoundError:
            pass
    if r.returncode != 0:
        if variant == "sched":
            sys.stderr.write("note: instrumented build failed, variant skipped:\n" + (r.stdout + r.stderr)[-1500:] + "\n")
            return None
        raise Inconclusive("build of %s (%s) failed:\n%s" % (pkg, variant, (r.stdout + r.stderr)[-6000:]))
    return out


def test_cmd(binary, pid):
    return [binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-test.count", "1"]


def run_env(pid, tier, seed, variant, extra):
    e = dict(os.environ)
    e.pop("GODEBUG", None)
    for k in ("GOJI_BIND", "PORT", "EINHORN_MASTER_PID", "EINHORN_FD_COUNT", "EINHORN_SOCK_PATH",
              "LISTEN_PID", "LISTEN_FDS", "VERIF_REPLAY", "TZ"):
        e.pop(k, None)
    if variant != "race":
        # many processes side by side: keep each one's collector small
        e.update(GOMAXPROCS="2", GOGC="400")
    e.update(VERIF_ID=pid, VERIF_TIER=tier, VERIF_SEED=str(seed),
             GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
    e.update(extra)
    return e


GOJI = re.compile(r"github\.com/zenazn/goji[/.]")


def crash_is_goji(stderr):
    """Does this dead process blame the code under test?"""
    if "WARNING: DATA RACE" in stderr:
        # the accesses themselves (top frame of each of the two stacks)
        part = stderr[stderr.index("WARNING: DATA RACE"):]
        return bool(GOJI.search(part))
    m = re.search(r"^(panic: |fatal error: |SIGSEGV)", stderr, re.M)
    if not m:
        return False
    if "CHECK-ERROR" in stderr:
        return False
    rest = stderr[m.start():]
    if rest.startswith("fatal error: all goroutines are asleep"):
        return bool(GOJI.search(rest))
    if "out of memory" in rest[:300] or "cannot allocate" in rest[:300]:
        return False
    # the panicking goroutine is the first one listed
    gs = re.split(r"\n\n(?=goroutine )", rest)
    first = "\n\n".join(gs[:2]) if gs and "goroutine " not in gs[0] else gs[0]
    return bool(GOJI.search(first))


def pinned(cpu):
    """Runs in the child: one processor is all it gets to see. How many parts a
    listener divides its connections into depends on that number."""
    cpus = sorted(os.sched_getaffinity(0))
    return lambda: os.sched_setaffinity(0, {cpus[cpu % len(cpus)]})


def terminal(path):
    """A terminal to be a process's standard output; what is written to it ends
    up in the file. Returns the descriptor for the process and a function to call
    when it is over."""
    master, slave = os.openpty()

    def copy():
        with open(path, "wb") as f:
            while True:
                try:
                    b = os.read(master, 65536)
                except OSError:
                    break
                if not b:
                    break
                f.write(b.replace(b"\r\n", b"\n"))
        os.close(master)
    t = threading.Thread(target=copy)
    t.start()
    return slave, t.join


def launch(cmd, cwd, env, out, err, pin=None, tty=False):
    """Starts a process in a session of its own with its output in files. Returns
    it and a function to call when it has ended."""
    over = lambda: None
    if tty:
        fd, over = terminal(out)
    else:
        fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=fd, stderr=open(err, "w"),
                             start_new_session=True, preexec_fn=pinned(pin) if pin is not None else None)
    finally:
        os.close(fd)

    def ended():
        # leave nothing behind: the whole process group goes
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
        over()
    return p, ended


class Shard(threading.Thread):
    def __init__(self, binary, pid, tier, seed, i, n, tmp, deadline, tag, variant, scale=1, pin=False, tty=False):
        super().__init__()
        self.scale = scale
        self.pin, self.tty = pin, tty
        self.binary, self.pid_, self.tier, self.seed, self.i, self.n = binary, pid, tier, seed, i, n
        self.out = os.path.join(tmp, "%s-%d.json" % (tag, i))
        self.cur = os.path.join(tmp, "%s-%d.cur" % (tag, i))
        self.tmp = os.path.join(tmp, "%s-%d.d" % (tag, i))
        os.makedirs(self.tmp)
        self.deadline = deadline
        self.stop = float("inf")
        self.found = None
        self.rc, self.stdout, self.stderr = None, "", ""
        self.tag = tag
        self.variant = variant

    def run(self):
        env = run_env(self.pid_, self.tier, self.seed, self.variant, {
            "VERIF_SHARD": "%d/%d" % (self.i, self.n), "VERIF_OUT": self.out, "VERIF_CUR": self.cur,
            "TMPDIR": self.tmp, "VERIF_BIN": self.binary, "VERIF_SCALE": str(self.scale if self.tier == "quick" else 1),
        })
        proc, ended = launch(test_cmd(self.binary, self.pid_), self.tmp, env, self.out + ".stdout", self.out + ".stderr",
                             self.i if self.pin else None, self.tty)
        rc = None
        while rc is None:
            try:
                rc = proc.wait(timeout=0.5)
            except subprocess.TimeoutExpired:
                if self.found is None and os.path.exists(self.out + ".found"):
                    self.found = time.time()  # a violation that is still being shrunk
                if time.time() > self.deadline:
                    rc = "timeout"
                elif time.time() > self.stop:
                    rc = "stopped"
        ended()
        if rc in ("stopped", "timeout") and os.path.exists(self.out + ".found"):
            os.replace(self.out + ".found", self.out)
            rc = 1
        self.stdout = open(self.out + ".stdout", errors="replace").read()
        self.stderr = open(self.out + ".stderr", errors="replace").read()
        self.rc = rc


def cur_case(path):
    try:
        b = open(path, "rb").read()
        b = b[: b.index(b"\0")]
        d = json.loads(b)
        return d if "case" in d else None
    except Exception:
        return None


def write_replay(pid, pkg, variant, part, case, error, seed, pin=False, tty=False):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    rep = {"property": pid, "package": pkg, "variant": variant, "part": part, "case": case, "error": error,
           "seed": seed, "pin": pin, "tty": tty, "how": "python3 /verif/check.py --replay <this file>"}
    b = json.dumps(rep, indent=1, ensure_ascii=False)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(b.encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        f.write(b)
    return p


def run_replay(binary, pid, path, variant, tries=1, timeout=300, pin=False, tty=False):
    """Returns (True, text) if the case fails again."""
    last = ""
    for _ in range(tries):
        with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
            env = run_env(pid, "quick", 1, variant, {"VERIF_REPLAY": path, "TMPDIR": tmp, "VERIF_BIN": binary})
            o, e = os.path.join(tmp, "stdout"), os.path.join(tmp, "stderr")
            p, ended = launch(test_cmd(binary, pid), tmp, env, o, e, 0 if pin else None, tty)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                pass
            rc = p.poll()
            ended()
            out, err = (open(f, errors="replace").read() for f in (o, e))
        last = out + err
        if rc == 1 and "REPRODUCED property=" in out:
            return True, out
        if rc in (2, 66, -6, -11) and crash_is_goji(err):
            return True, out + err[-6000:]
    return False, last


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == pid:
                res.append(d)
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    spec = CHECKS[pid]
    deadline = t0 + BUDGET[tier]
    violation = None
    parts, rules, known = {}, [], []
    notes = []
    binaries = []
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        for run in spec["runs"]:
            if tier == "quick" and run.get("thorough_only"):
                continue
            binary = build(run["pkg"], run.get("variant", "plain"))
            if binary is None:
                notes.append("variant %s of %s could not be built from this tree and was skipped" % (run["variant"], run["pkg"]))
                continue
            binaries.append(binary)
            tag = "%s-%s" % (run["pkg"].replace("/", "_"), run.get("variant", "plain"))
            n = run.get("shards", NCPU)
            for attempt in range(3):
                shards = [Shard(binary, pid, tier, seed, i, n, tmp, deadline, "%s.%d" % (tag, attempt), run.get("variant", "plain"),
                                run.get("scale", 1), pin=run.get("pin", False) and i % 2 == 1,
                                tty=run.get("tty", False) and i % 2 == 1) for i in range(n)]
                for s in shards:
                    s.start()
                for s in shards:
                    while s.is_alive():
                        s.join(0.5)
                        # once one has something to show, the others need not go on for long
                        if any(x.rc == 1 for x in shards):
                            for x in shards:
                                x.stop = min(x.stop, time.time() + 20)
                        if any(x.found for x in shards):
                            for x in shards:
                                x.stop = min(x.stop, time.time() + 60)
                retry = False
                for s in shards:
                    if s.rc == 0 and os.path.exists(s.out):
                        continue
                    if s.rc == 1 and os.path.exists(s.out):
                        d = json.load(open(s.out))
                        if d.get("violations"):
                            v = d["violations"][0]
                            v["pin"], v["tty"] = s.pin, s.tty
                            if violation is None or len(json.dumps(v["case"])) < len(json.dumps(violation[1]["case"])):
                                violation = (run, v)
                            continue
                    if s.rc in (2, 66, -6, -11) and crash_is_goji(s.stderr):
                        c = cur_case(s.cur)
                        if c is not None:
                            err = "the process died:\n" + s.stderr[-8000:]
                            path = write_replay(pid, run["pkg"], run.get("variant", "plain"), c["part"], c["case"], err, seed, s.pin, s.tty)
                            ok, _ = run_replay(binary, pid, path, run.get("variant", "plain"), tries=5, pin=s.pin, tty=s.tty)
                            if ok or attempt > 0:
                                violation = violation or (run, {"part": c["part"], "case": c["case"], "error": err, "pin": s.pin, "tty": s.tty})
                                continue
                            os.unlink(path)
                        retry = True
                        notes.append("a process died and was retried: " + s.stderr[-300:])
                        continue
                    if violation is None and s.rc != "stopped":
                        sys.stderr.write(s.stdout[-3000:] + "\n" + s.stderr[-6000:] + "\n")
                        raise Inconclusive("%s shard %d of %s ended with %s" % (pid, s.i, tag, s.rc))
                if violation or not retry:
                    break
            else:
                raise Inconclusive("processes kept dying without reproducing")
            for s in shards:
                if not os.path.exists(s.out):
                    continue
                d = json.load(open(s.out))
                if d.get("rule") and d["rule"] not in rules:
                    rules.append(d["rule"])
                for k in d.get("known") or []:
                    if k not in known:
                        known.append(k)
                for name, p in (d.get("parts") or {}).items():
                    key = name if run.get("variant", "plain") == "plain" else "%s[%s]" % (name, run["variant"])
                    q = parts.setdefault(key, {"evaluations": 0, "nontrivial": 0, "hashes": set(), "labels": {}, "samples": []})
                    q["evaluations"] += p["evaluations"]
                    q["nontrivial"] += p["nontrivial"]
                    q["hashes"].update(p["hashes"] or [])
                    for l, c in (p["labels"] or {}).items():
                        q["labels"][l] = q["labels"].get(l, 0) + c
                    if len(q["samples"]) < 3:
                        q["samples"] += (p["samples"] or [])[: 3 - len(q["samples"])]
            if violation:
                break
        # Evidence.
        cov = {
            "evaluations": sum(p["evaluations"] for p in parts.values()),
            "distinct_nontrivial": sum(len(p["hashes"]) for p in parts.values()),
            "rule": " ".join(rules) or spec.get("rule", ""),
            "samples": [{"part": n, "case": s} for n, p in sorted(parts.items()) for s in p["samples"]] or ["none"],
            "parts": {n: {"evaluations": p["evaluations"], "nontrivial": p["nontrivial"],
                          "distinct_nontrivial": len(p["hashes"]), "classes": dict(sorted(p["labels"].items()))}
                      for n, p in sorted(parts.items())},
        }
        if notes:
            cov["notes"] = notes
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": 1 if violation else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        listed = {k["what"] for k in known_findings(pid)}
        for k in known:
            if k in listed:
                print("KNOWN-FINDING: property=%s %s" % (pid, k))
            elif violation is None:
                path = write_replay(pid, spec["runs"][0]["pkg"], "plain", "known", k, k, seed)
                print("a finding that known_findings.jsonl does not list: " + k)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
        if violation:
            run, v = violation
            path = write_replay(pid, run["pkg"], run.get("variant", "plain"), v["part"], v["case"], v["error"], seed, v.get("pin", False), v.get("tty", False))
            print("part %s, case %s" % (v["part"], json.dumps(v["case"], ensure_ascii=False)[:3000]))
            print(v["error"][:6000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
            pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for b in binaries:
            try:
                os.unlink(b)
            except FileNotFoundError:
                pass


def replay(path):
    path = os.path.abspath(path)
    rep = json.load(open(path))
    binary = build(rep["package"], rep["variant"])
    if binary is None:
        print("the variant cannot be built")
        return 2
    try:
        ok, text = run_replay(binary, rep["property"], path, rep["variant"], tries=3, pin=rep.get("pin", False), tty=rep.get("tty", False))
    finally:
        os.unlink(binary)
    print(text[-8000:])
    if ok:
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced")
    return 0


def setup():
    seen = set()
    for pid, spec in CHECKS.items():
        for run in spec["runs"]:
            k = (run["pkg"], run.get("variant", "plain"))
            if k in seen:
                continue
            seen.add(k)
            b = build(*k)
            if b:
                os.unlink(b)
    print("built", len(seen), "harnesses")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            return setup()
        if len(a) == 2 and a[0] == "--replay":
            return replay(a[1])
        if len(a) == 1 and a[0] in CHECKS:
            return check(a[0])
    except Inconclusive as e:
        sys.stderr.write("CHECK-ERROR (no verdict): %s\n" % e)
        return 2
    sys.stderr.write(__doc__)
    return 64


if __name__ == "__main__":
    sys.exit(main())
