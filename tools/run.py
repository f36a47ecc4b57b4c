#!/usr/bin/env python3
"""Runs the check of one property: records traces from the real code of MOCO
(built from /repo's working tree) and lets TLC validate them against the
specification, and model-checks the specification itself.

usage: run.py <property> [quick|thorough]
exit 0: held on everything explored, 1: violated (VIOLATION line), 2: no answer.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import checks  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


def sh_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
    for kv in out.split(b"\0"):
        k, _, v = kv.partition(b"=")
        if k:
            env[k.decode()] = v.decode(errors="replace")
    return env


class NoAnswer(Exception):
    pass


def build(env, pkg, work):
    exe = os.path.join(work, pkg.replace("/", "_") + ".test")
    cmd = ["go", "test", "-c", "-o", exe]
    ov = os.path.join(VERIF, "harness", "overlay", pkg + ".json")
    cwd = os.path.join(VERIF, "harness")
    target = "./" + pkg
    if os.path.exists(ov):
        cfg = json.load(open(ov))
        o = os.path.join(work, "overlay.json")
        json.dump({"Replace": {k: os.path.join(VERIF, v) for k, v in cfg["replace"].items()}}, open(o, "w"))
        cmd += ["-overlay", o]
        cwd, target = "/repo", cfg["package"]
    p = subprocess.run(cmd + [target], cwd=cwd, env=env, capture_output=True, text=True)
    if p.returncode:
        raise NoAnswer("building the harness failed:\n" + (p.stdout + p.stderr)[-3000:])
    return exe


def repo_panic(log):
    """A panic whose innermost frame outside the Go runtime is code of MOCO."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", log, re.M)
    if not m or "deadlock" in m.group(1) and "bubble" in m.group(1):
        return None
    if "test timed out" in m.group(1):
        return None
    for frame in re.findall(r"^\t(/\S+\.go):\d+", log[m.end():], re.M):
        if "/veriftools/" in frame or "/usr/local/go" in frame or "/src/runtime/" in frame or "/src/testing/" in frame:
            continue
        if frame.startswith("/repo/"):
            return m.group(1) + " in " + frame
        return None
    return None


def tlc(work, module, cfg, extra_env, workers, mem, timeout, args=()):
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    env = dict(os.environ, **extra_env)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-noTE", "-config", cfg + ".cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def counts(out):
    g = d = 0
    for m in re.finditer(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out):
        g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return g, d


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = checks.get(pid, tier)
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "work"))
    try:
        rc = check(pid, tier, seed, spec, work, t0)
    except NoAnswer as e:
        print("NO ANSWER:", e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, spec, work, t0):
    env = sh_env()
    timeout = 840 if tier == "quick" else 6 * 3600
    problems = []     # (message, replay path)
    stats = dict(states=0, transitions=0, traces=0, events=0, mc={}, kinds={})
    samples = []
    known = known_findings(pid)
    seen_known = set()

    def mc_job(m):
        module, cfg, mem, workers = m
        rc, out = tlc(work, module, cfg, {}, workers, mem, timeout)
        g, d = counts(out)
        return module + "/" + cfg, rc, out, g, d

    pool = concurrent.futures.ThreadPoolExecutor(CORES + 4)
    mcs = [pool.submit(mc_job, m) for m in spec.get("mc", [])]

    for part in spec["parts"]:
        exe = build(env, part["pkg"], work)
        shards = part.get("shards", CORES)

        def shard(s, part=part, exe=exe, shards=shards):
            tr = os.path.join(work, "%s-%s-%d.ndjson" % (part["pkg"].replace("/", "_"), part["test"], s))
            scratch = tempfile.mkdtemp(dir=work)
            e = dict(env, VERIF_OUT=tr, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_SEED=str(seed), VERIF_TIER=tier,
                     VERIF_DIR=VERIF, TMPDIR=scratch, **{k: str(v) for k, v in part.get("env", {}).items()})
            try:
                p = subprocess.run([exe, "-test.run", "^" + part["test"] + "$", "-test.timeout", "0"], cwd=scratch, env=e,
                                   capture_output=True, text=True, errors="replace", timeout=timeout)
                log, rc = p.stdout + p.stderr, p.returncode
            except subprocess.TimeoutExpired as x:
                raise NoAnswer("the harness did not finish in time")
            if rc != 0:
                pan = repo_panic(log)
                if pan:
                    return "panic", s, tr, pan, log
                raise NoAnswer("the harness failed:\n" + log[-3000:])
            if not os.path.exists(tr):
                raise NoAnswer("the harness wrote no trace")
            if os.path.getsize(tr) == 0:
                return "empty", s, tr, "", ""
            rc, out = tlc(work, part["spec"], part["spec"], {"TRACE": tr}, 1, part.get("mem", "3g"), timeout)
            return "tlc", s, tr, rc, out

        for kind, s, tr, rc, out in pool.map(shard, range(shards)):
            if kind == "panic":
                rp = os.path.join(VERIF, "evidence", "%s.replay.log" % pid)
                open(rp, "w").write(out)
                problems.append(("MOCO panicked: " + rc, rp))
                continue
            if kind == "empty":
                continue
            g, d = counts(out)
            stats["transitions"] += g
            stats["states"] += d
            with open(tr) as f:
                lines = f.read().split("\n")
            n = 0
            for ln in lines:
                if '"e":"reset"' in ln:
                    n += 1
                    if '"scenario":"' in ln:
                        k = re.search(r'"scenario":"([^"]*)"', ln).group(1)
                        stats["kinds"][k] = stats["kinds"].get(k, 0) + 1
            stats["traces"] += n
            stats["events"] += len(lines) - 1
            if not samples:
                samples.append(cut(lines, 1)[:25])
            bads = re.findall(r'"BAD\|(\w+)\|(\d+)\|(.*)"', out)
            mine = [(int(l), m) for p, l, m in bads if p == pid]
            rejected = re.search(r'REJECT\|(\d+)\|(.*)', out)
            if rc != 0 and not mine:
                raise NoAnswer("the trace was not validated: %s\n%s" % (rejected.group(0)[:500] if rejected else "", out[-1500:]))
            for l, m in mine:
                fresh = [k for k in known if k in m]
                if fresh:
                    seen_known.add(fresh[0])
                    continue
                rp = os.path.join(VERIF, "evidence", "%s.replay.ndjson" % pid)
                if not problems:
                    open(rp, "w").write("\n".join(cut(lines, l, upto=True)) + "\n")
                problems.append((m, rp))
    for f in mcs:
        name, rc, out, g, d = f.result()
        if rc != 0:
            raise NoAnswer("model checking %s failed: %s" % (name, out[-2000:]))
        stats["mc"][name] = {"generated": g, "distinct": d}
        stats["states"] += d
        stats["transitions"] += g
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    cov = {"states": stats["states"], "transitions": stats["transitions"],
           "traces_validated_against_impl": stats["traces"], "trace_events": stats["events"],
           "trace_kinds": stats["kinds"], "model_checking": stats["mc"], "samples": samples,
           "violations": [m for m, _ in problems][:20]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if problems:
        for m, _ in problems[:5]:
            print("  ", m)
        print("VIOLATION property=%s replay=%s" % (pid, problems[0][1]))
        return 1
    if stats["traces"] == 0:
        raise NoAnswer("no trace was recorded")
    print("OK property=%s: %d traces, %d events, %d states, %.0f s" % (pid, stats["traces"], stats["events"], stats["states"], time.time() - t0))
    return 0


def cut(lines, l, upto=False):
    """The lines of the trace that contains line l (counted from 1)."""
    a = max([i for i in range(min(l, len(lines))) if '"e":"reset"' in lines[i]] or [0])
    if upto:
        return lines[a:l]
    e = min([i for i in range(a + 1, len(lines)) if '"e":"reset"' in lines[i]] or [len(lines)])
    return lines[a:e]


def known_findings(pid):
    res = []
    for ln in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\w+) match=\"(.*)\"", ln)
        if m and m.group(1) == pid:
            res.append(m.group(2))
    return res


main()
