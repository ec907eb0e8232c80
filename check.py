#!/usr/bin/env python3
"""Runs one property's check: TLC explores the specification and writes behaviours, the
harness executes them on the crate in /repo, TLC judges what the crate did.

  python3 check.py C01 [C02 ...]      exit 0 held, 1 violated, 2 no answer
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ORCHARD_REPO", "/repo")
OUT = f"{V}/out"
SPEC = f"{V}/spec"
BIN = f"{V}/target/release/orchard-conformance"
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402


class NoAnswer(Exception):
    pass


class SetupPanic(Exception):
    pass


def build_env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", f"set -a; . {V}/env.sh; env -0"], capture_output=True, check=True, env=e).stdout
    return dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)


def tree_hash(root, skip):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """Builds the harness against /repo's current working tree."""
    os.makedirs(f"{V}/target", exist_ok=True)
    with open(f"{V}/target/.build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = f"{V}/target/source.stamp"
        now = tree_hash(f"{REPO}", {"target", ".git", "book", "benches"}) + tree_hash(f"{V}/harness", {"target"})
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if now == old and os.path.exists(BIN):
            return
        # Cargo judges freshness by modification times; contents decide here.
        fp = f"{V}/target/release/.fingerprint"
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("orchard-"):
                    shutil.rmtree(f"{fp}/{x}")
        if os.path.exists(stamp):
            os.remove(stamp)
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=f"{V}/harness",
                           env=build_env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise NoAnswer("build failed:\n" + p.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(now)


def tlc(module, cfg, env, tag, workers=4, timeout=800, heap="6g", extra=()):
    """Returns (exit code, output, states, transitions)."""
    meta = f"{OUT}/{tag}.tlc"
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ, **env)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC"
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"TLC on {module} took longer than {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m and (m := re.search(r"The number of states generated: (\d+)", p.stdout)):
        gen = dist = int(m.group(1))    # simulation does not count distinct states
    return p.returncode, p.stdout + p.stderr, dist, gen


def generate(pid, i, st, tier, seed, cov):
    """Explores the design; returns the file of behaviours it wrote (or None)."""
    files = []
    for j, g in enumerate(st.get("gen", [])):
        if g.get("tier", tier) != tier and not (tier == "thorough" and g.get("tier") == "quick+"):
            continue
        path = f"{OUT}/{pid}_{i}_{j}.cmds"
        if os.path.exists(path):
            os.remove(path)
        rc, out, states, trans = tlc(g["module"], g["cfg"], {"OUT": path, "VERIF_TIER": tier, "FOCUS": pid}, f"{pid}_{i}_{j}_gen",
                                     workers=g.get("workers", 1),
                                     extra=["-simulate", f"num={g['simulate']}", "-depth", "100", "-seed", str(seed)] if "simulate" in g else ())  # long lines are not written atomically
        if rc != 0:
            raise NoAnswer(f"the design specification {g['cfg']} does not satisfy its properties (TLC exit {rc}):\n" + out[-3000:])
        cov["states"] += states
        cov["transitions"] += trans
        cov["design"].append({"spec": g["module"], "config": g["cfg"], "states": states, "transitions": trans})
        if os.path.exists(path):
            files.append(path)
    if not files:
        return None
    allp = f"{OUT}/{pid}_{i}.cmds"
    with open(allp, "w") as o:
        for f in files:
            with open(f) as h:
                shutil.copyfileobj(h, o)
            os.remove(f)
    return allp


def execute(pid, i, st, tier, seed, cmds, cov):
    trace = f"{OUT}/{pid}_{i}.trace"
    cmd = [BIN, st["system"], "--out", trace, "--seed", str(seed), "--focus", pid,
           "--random", str(st.get("random", {}).get(tier, 0)), "--tier", tier]
    if cmds:
        cmd += ["--in", cmds]
    for k, v in st.get("opts", {}).items():
        cmd += [f"--{k}", str(v)]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=800)
    if p.returncode == 3:
        # The code under test panicked while the harness prepared what every behaviour needs.
        raise SetupPanic(p.stdout.strip().splitlines()[-1])
    if p.returncode != 0:
        raise NoAnswer(f"harness failed ({p.returncode}):\n" + p.stdout[-1000:] + p.stderr[-3000:])
    info = json.loads(p.stdout.strip().splitlines()[-1])
    if info["runs"] == 0:
        raise NoAnswer("the harness executed nothing")
    cov["impl"].append({"system": st["system"], **info})
    return trace, info


def judge(pid, i, st, trace, cov, samples):
    # Split large traces so that TLC's heap stays small.
    with open(trace) as f:
        lines = f.readlines()
    size = st.get("chunk", 20000)
    for lo in range(0, len(lines), size):
        part = f"{OUT}/{pid}_{i}_{lo}.part"
        with open(part, "w") as f:
            f.writelines(lines[lo:lo + size])
        rc, out, states, trans = tlc(st["judge"], st.get("judge_cfg", st["judge"].replace(".tla", ".cfg")),
                                     {"TRACE": part, "FOCUS": pid}, f"{pid}_{i}_{lo}_judge", workers=st.get("workers", 4))
        os.remove(part)
        cov["states"] += states
        cov["transitions"] += trans
        if rc == 0:
            if states < len(lines[lo:lo + size]):
                raise NoAnswer(f"TLC judged {states} states for {len(lines)} runs")
            continue
        last = out[out.rfind("\nState "):] if "\nState " in out else out
        mr = re.search(r"(?:/\\ )?\br = (\d+)", last)
        ml = re.search(r"(?:/\\ )?\bl = (\d+)", last)
        # An event whose shape the specification has no place for is no behaviour of it either.
        odd = rc == 75 and "The behavior up to this point is" in out and "Attempted to" in out
        if (rc in (11, 12) or odd) and mr and ml:
            r, l = lo + int(mr.group(1)), int(ml.group(1))
            run = json.loads(lines[r - 1])
            ev = run[l - 1] if l <= len(run) else (run[-1] if run else None)
            return {"run": r, "event": l, "kind": "no transition matches" if rc == 11 or odd else "invariant broken",
                    "observed": ev, "behaviour": run, "tlc_state": last[:6000]}
        raise NoAnswer(f"TLC could not judge ({st['judge']}, exit {rc}):\n" + out[-4000:])
    n = len(lines)
    for k in sorted({0, n // 2, n - 1}):
        if len(lines[k]) < 6000:
            samples.append(json.loads(lines[k]))
    return None


def known(pid):
    p = f"{V}/known-findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def matches_known(k, bad):
    """A known finding names the field values of the failing event."""
    ev = bad["observed"] or {}
    return all(json.dumps(ev.get(f)) == json.dumps(v) for f, v in k["match"].items())


def run_check(pid, tier, seed):
    t0 = time.time()
    chk = CHECKS[pid]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "design": [], "impl": [], "samples": []}
    bad, replay = None, None
    build()
    for i, st in enumerate(chk["stages"]):
        if st.get("tier", tier) != tier:
            continue
        cmds = generate(pid, i, st, tier, seed, cov)
        if "system" not in st:
            continue
        try:
            trace, info = execute(pid, i, st, tier, seed, cmds, cov)
            bad = judge(pid, i, st, trace, cov, cov["samples"])
        except SetupPanic as e:
            bad = {"kind": "panic before the first step", "observed": json.loads(str(e))}
        if bad:
            replay = f"{OUT}/{pid}.replay.json"
            bad["stage"] = i
            bad["reproduce"] = f"VERIF_SEED={seed} VERIF_TIER={tier} python3 {V}/check.py {pid}"
            with open(replay, "w") as f:
                json.dump(bad, f, indent=1)
            break
        cov["traces_validated_against_impl"] += info["runs"]
        for f in (cmds, trace) if not os.environ.get("KEEP") else ():
            if f and os.path.exists(f):
                os.remove(f)
    cov["samples"] = cov["samples"][:6]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if bad else 0}
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        print(f"  {bad['kind']}: {json.dumps(bad['observed'])[:1500]}")
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        return 1
    for k in known(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"OK property={pid} tier={tier} states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} wall={ev['wall_s']}s", flush=True)
    return 0


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rcs = []
    if sys.argv[1:] == ["--build"]:
        try:
            build()
            return 0
        except NoAnswer as e:
            print(e)
            return 2
    for pid in sys.argv[1:]:
        try:
            rcs.append(run_check(pid, tier, seed))
        except NoAnswer as e:
            print(f"NO-ANSWER property={pid}: {e}", flush=True)
            rcs.append(2)
        except subprocess.TimeoutExpired as e:
            print(f"NO-ANSWER property={pid}: {e}", flush=True)
            rcs.append(2)
    return 1 if 1 in rcs else max(rcs, default=0)


if __name__ == "__main__":
    sys.exit(main())
