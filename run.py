#!/usr/bin/env python3
"""Driver of the checks.

  run.py setup                      build both harness binaries (warms the Go build cache)
  run.py <ID> quick|thorough        run the check of one property
  run.py replay <file>              re-execute the plan stored in a replay file

Exit 0: property held.  Exit 1: a line VIOLATION property=<id> replay=<path>.
Anything else: the check itself failed.
"""
import array, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = os.path.join(ROOT, "h")
# 1.25.x can deadlock in Timer.Reset inside a synctest bubble (fixed in 1.26)
GO = "/opt/veriftools/go1.26.10/bin/go"

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly", "GOWORK": "off",
    "CGO_ENABLED": "1", "GOSUMDB": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": "/root/.cache/go-build", "GO111MODULE": "on",
})
for k in ("LK_DUMP_RESAMPLE", "LK_DUMP_G722", "LK_DUMP_MEDIA", "GODEBUG", "GOMAXPROCS", "GOEXPERIMENT"):
    ENV.pop(k, None)

# workers per build flavour: (quick, thorough)
WORKERS = {"norm": (4, 8), "race": (3, 6)}
# overall wall limit of one worker process
LIMIT = {"quick": 240, "thorough": 780}
# seconds of coverage-guided search per property in the thorough tier
GUIDED = 120


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(race, out):
    cmd = [GO, "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./props")
    p = subprocess.run(cmd, cwd=H, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout)
        log("build of the harness failed")
        sys.exit(2)


def guided(prop, seed, tmp, norm):
    """Coverage-guided search with the same generators (thorough tier only). Returns a violation that a
    fresh process reproduces, or None."""
    fz = os.path.join(tmp, "guided.test")
    p = subprocess.run([GO, "test", "-c", "-vet=off", "-fuzz=FuzzGuided", "-o", fz, "./props"], cwd=H, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout)
        log("build of the instrumented harness failed; no coverage-guided search")
        return None
    e = dict(ENV, VP_PROP=prop, VP_OUT=tmp, VP_SEED=str(seed), TMPDIR=tmp)
    out = subprocess.run([fz, "-test.run", "^TestPhases$"], env=e, cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
    phases = re.findall(r"^PHASE (\S+)$", out, re.M)
    for ph in phases:
        cwd = os.path.join(tmp, "fuzz-" + ph)
        os.makedirs(cwd)
        secs = GUIDED / len(phases)
        f = open(os.path.join(cwd, "log"), "wb")
        p = subprocess.Popen([fz, "-test.run", "^$", "-test.fuzz", "^FuzzGuided$", "-test.fuzztime", "%ds" % secs, "-test.fuzzminimizetime", "10s",
                              "-test.fuzzcachedir", os.path.join(cwd, "cache"), "-test.parallel", "8", "-test.timeout", "0"],
                             cwd=cwd, env=dict(e, VP_PHASE=ph), stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            rc = 0
        stop(p)
        if rc == 0:
            continue
        log("coverage-guided search in phase %s:\n%s" % (ph, read(os.path.join(cwd, "log"))[-3000:]))
        plans = glob.glob(os.path.join(tmp, "guided-*", "violation.json"))
        plans += sorted(glob.glob(os.path.join(tmp, "guided-*", "current.json")), key=os.path.getmtime)
        for i, pf in enumerate(plans):
            try:
                v = json.load(open(pf))
            except ValueError:
                continue
            v["build"] = "norm"
            if v["phase"] != ph:
                continue
            json.dump(v, open(os.path.join(tmp, "plan.json"), "w"))
            rk, msg = replay_once(norm, os.path.join(tmp, "plan.json"), prop, os.path.join(tmp, "gr%s%d" % (ph, i)))
            if rk in ("violation", "crash", "hang"):
                v["message"] = msg[:20000] or rk
                return v
        log("nothing of it can be reproduced; ignored")
    return None


def flavours(prop):
    """Which builds have phases of this property (scanned from the registrations)."""
    fl = set()
    for f in glob.glob(os.path.join(H, "props", "*_test.go")):
        s = open(f).read()
        for m in re.finditer(r'reg(?:List)?\("%s",\s*"[^"]+",\s*opts\{([^\n]*)' % prop, s):
            b = re.search(r'build:\s*"(\w+)"', m.group(1))
            b = b.group(1) if b else "norm"
            fl |= {"norm", "race"} if b == "both" else {b}
    return sorted(fl)


def start(binary, outdir, env):
    os.makedirs(outdir, exist_ok=True)
    e = dict(ENV)
    e.update(env)
    e["VP_OUT"] = outdir
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GOTRACEBACK"] = "all"
    e["TMPDIR"] = outdir
    f = open(os.path.join(outdir, "log"), "wb")
    return subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", "0"], cwd=outdir, env=e,
                            stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def read(path, n=200000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def classify_crash(rc, logtxt):
    """What kind of ending a non-zero worker had."""
    if rc == 97 or "WATCHDOG:" in logtxt:
        return "hang"
    if rc == 98 or "HARNESS ERROR" in logtxt:
        return "error"
    if "WARNING: DATA RACE" in logtxt:
        return "race"
    if rc in (-9, 137) or "out of memory" in logtxt or "cannot allocate memory" in logtxt:
        return "error"
    if re.search(r"^(panic:|fatal error:|SIG\w+:|unexpected fault)", logtxt, re.M) or rc in (-6, -11, 134, 139):
        return "crash"
    return "error"


def race_in_lib(logtxt):
    """True if an accessing frame of the first race report is in the code under test."""
    i = logtxt.find("WARNING: DATA RACE")
    rep = logtxt[i:i + 12000]
    end = rep.find("==================", 20)
    if end > 0:
        rep = rep[:end]
    # the two access stacks precede the "Goroutine ... created at" sections
    j = rep.find("\nGoroutine ")
    acc = rep[:j] if j > 0 else rep
    return "github.com/livekit/media-sdk" in acc or "/repo/" in acc


def replay_once(binary, plan_file, prop, outdir, limit=150):
    p = start(binary, outdir, {"VP_PROP": prop, "VP_REPLAY": plan_file, "VP_SEED": "1", "VP_TIER": "quick"})
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        stop(p)
        return "hang", ""
    stop(p)
    txt = read(os.path.join(outdir, "log"))
    if os.path.exists(os.path.join(outdir, "violation.json")):
        return "violation", json.load(open(os.path.join(outdir, "violation.json")))["message"]
    if rc == 0:
        return "none", ""
    return classify_crash(rc, txt), txt


def deadlocked(txt):
    """Whether a goroutine dump of the watchdog shows a deadlock in the code under test: nobody runs or
    sleeps, and a goroutine is blocked there. A dump of a slow case looks different."""
    lib = False
    for g in re.split(r"\n\n(?=goroutine )", txt[txt.find("WATCHDOG"):])[1:]:
        m = re.match(r"goroutine \d+ \[([^\],]*)", g)
        if not m or ".watchdog(" in g:
            continue
        if not re.match(r"(chan (receive|send)|select|sync\.|semacquire)", m.group(1)):
            return False
        lib = lib or "github.com/livekit/media-sdk" in g
    return lib


def save_replay(v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(v, indent=1)
    name = "%s-%s-%s.json" % (v["property"], v["phase"], hashlib.sha1(body.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: "):])
    except OSError:
        pass
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fl = flavours(prop)
    if not fl:
        log("no such property", prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        return check_in(prop, tier, seed, fl, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(prop, tier, seed, fl, tmp, t0):
    ti = 0 if tier == "quick" else 1
    bins = {}
    for f in fl:
        bins[f] = os.path.join(tmp, f + ".test")
        build(f == "race", bins[f])
    t_build = time.time() - t0
    procs = []
    # the flavours run one after another, so that workers have cores of their own
    results = []
    found = None
    for f in fl:
        procs = []
        for w in range(WORKERS[f][ti]):
            od = os.path.join(tmp, "%s-%d" % (f, w))
            p = start(bins[f], od, {"VP_PROP": prop, "VP_TIER": tier, "VP_SEED": str(seed * 1000 + w + 1), "VP_WORKER": str(w)})
            procs.append((p, od, f, w))
        dead = time.time() + LIMIT[tier]
        pend = list(procs)
        while pend:
            time.sleep(0.05)
            for it in list(pend):
                p, od, f2, w = it
                rc = p.poll()
                if rc is None:
                    if time.time() > dead:
                        stop(p)
                        pend.remove(it)
                        results.append((od, f2, w, "timeout", ""))
                    continue
                pend.remove(it)
                stop(p)
                txt = read(os.path.join(od, "log"))
                vf = os.path.join(od, "violation.json")
                if os.path.exists(vf):
                    found = found or ("violation", od, f2, json.load(open(vf)), txt)
                elif rc != 0:
                    kind = classify_crash(rc, txt)
                    if kind in ("hang", "crash", "race"):
                        found = found or (kind, od, f2, None, txt)
                    else:
                        results.append((od, f2, w, "error", txt))
                else:
                    results.append((od, f2, w, "ok", ""))
            if found:
                # give the others a moment to finish a better report, then stop them
                for p, od, f2, w in pend:
                    stop(p)
                pend = []
        if found:
            break

    verdict, line = 0, None
    if not found and tier == "thorough" and "norm" in bins:
        v = guided(prop, seed, tmp, bins["norm"])
        if v:
            found = ("violation", None, "norm", v, "")
    if found:
        kind, od, f2, v, txt = found
        if kind == "violation":
            path = save_replay(v)
            rk, msg = "none", ""
            for k in range(3):
                rk, msg = replay_once(bins[f2], path, prop, os.path.join(tmp, "replay%d" % k))
                if rk != "none":
                    break
            log("violation found in phase %s: %s" % (v["phase"], v["message"]))
            log("replay in a fresh process: %s %s" % (rk, msg[:2000]))
            verdict, line = 1, "VIOLATION property=%s replay=%s" % (prop, path)
        else:
            try:
                v = json.load(open(os.path.join(od, "current.json")))
            except Exception as e:
                log("worker ended with %s and left no plan: %s" % (kind, e))
                log(txt[-6000:])
                return 2
            v["message"] = kind + "\n" + txt[:20000]
            path = save_replay(v)
            log("worker ended with: %s in phase %s" % (kind, v["phase"]))
            log(txt[:6000])
            if kind == "race":
                if not race_in_lib(txt):
                    log("data race outside the code under test: the check itself is at fault")
                    return 2
                verdict = 1
            else:
                for k in range(4):
                    rk, msg = replay_once(bins[f2], path, prop, os.path.join(tmp, "replay%d" % k))
                    log("replay in a fresh process: %s" % rk)
                    if rk in ("hang", "crash", "race", "violation"):
                        verdict = 1
                        break
                if not verdict and kind == "crash" and "github.com/livekit/media-sdk" in txt:
                    verdict = 1  # schedule-dependent crash inside the code under test
                if not verdict and kind == "hang" and deadlocked(txt):
                    log("every goroutine is blocked for good, one of them in the code under test")
                    verdict = 1
            if not verdict:
                log("could not reproduce; treating it as an error of the check")
                return 2
            line = "VIOLATION property=%s replay=%s" % (prop, path)
    errs = [r for r in results if r[3] in ("error", "timeout")]
    if not found and errs:
        for od, f2, w, k, txt in errs:
            log("worker %s/%d: %s" % (f2, w, k))
            log(txt[-5000:])
        return 2

    evidence(prop, tier, seed, tmp, t0, t_build, verdict)
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    if line:
        print(line, flush=True)
    else:
        print("OK property=%s tier=%s wall=%.1fs" % (prop, tier, time.time() - t0))
    return verdict


def evidence(prop, tier, seed, tmp, t0, t_build, verdict):
    phases = {}
    hashes = {}
    rss = 0
    for sf in sorted(glob.glob(os.path.join(tmp, "*-*", "stats.json"))):
        d = os.path.dirname(sf)
        flavour = os.path.basename(d).split("-")[0]
        st = json.load(open(sf))
        rss = max(rss, st.get("max_rss_mb", 0))
        for ph in st["phases"] or []:
            key = ph["phase"] + ("" if flavour == "norm" else "@" + flavour)
            a = phases.setdefault(key, {"evaluations": 0, "classes": {}, "samples": [], "rule": ph["rule"], "exhaustive": ph["exhaustive"], "worker_seconds": 0})
            a["evaluations"] += ph["evaluations"]
            a["worker_seconds"] = round(a["worker_seconds"] + ph["wall_s"], 2)
            for c, n in (ph["classes"] or {}).items():
                a["classes"][c] = a["classes"].get(c, 0) + n
            a["samples"] += ph["samples"] or []
            hs = hashes.setdefault(ph["phase"], set())
            b = array.array("Q")
            with open(os.path.join(d, "hashes-" + ph["phase"]), "rb") as f:
                b.frombytes(f.read())
            hs.update(b)
    samples = []
    for k, a in phases.items():
        for s in a.pop("samples")[:3]:
            samples.append({"phase": k, "plan": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in phases.values()),
            "distinct_nontrivial": sum(len(h) for h in hashes.values()),
            "rule": "; ".join("%s: %s" % (k, a["rule"] or "every case") for k, a in phases.items()),
            "samples": samples[:12],
            "phases": phases,
        },
        "assumptions": [],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if verdict else 0,
    }
    if phases and all(a["exhaustive"] for a in phases.values()):
        ev["coverage"]["exhaustive"] = True
    ev["coverage"]["worker_max_rss_mb"] = rss
    ev["coverage"]["build_s"] = round(t_build, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def setup():
    tmp = tempfile.mkdtemp(prefix="vp-setup-")
    try:
        build(False, os.path.join(tmp, "n.test"))
        build(True, os.path.join(tmp, "r.test"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def replay(path):
    path = os.path.abspath(path)
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        b = os.path.join(tmp, "x.test")
        build(v.get("build") == "race", b)
        k, msg = replay_once(b, path, v["property"], os.path.join(tmp, "o"))
        print(k, msg[:20000])
        if k == "none":
            return 0
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[2] in ("quick", "thorough"):
        sys.exit(check(sys.argv[1], sys.argv[2]))
    print(__doc__)
    sys.exit(2)
