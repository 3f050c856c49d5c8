#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo by model checking.

1. builds the recording harness against /repo's working tree;
2. records histories of the real code (8 processes);
3. lets TLC check every recorded step against the specification;
4. meanwhile lets TLC check the design in the specification itself (spec/MC*.tla).

Exit 0: held on everything explored. Exit 1: "VIOLATION property=.. replay=..". Exit 2: no answer.
VERIF_SEED, VERIF_TIER=quick|thorough choose the exploration.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(ROOT, "target")
PARTS = 8
START = time.time()

from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - START:6.1f}s]", *a, flush=True)


PROFILE = "thorough" if THOROUGH else "dev"
BULK = ("bulk", "deep")  # built with optimisation, in a crate of its own


def binary(b):
    return os.path.join(BUILD, "bulk" if b in BULK else "harness", "thorough" if THOROUGH else "debug", b)


def build(bins):
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)

    def cargo(crate, some):
        if not some:
            return
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", PROFILE] + [x for b in some for x in ("--bin", b)],
                           cwd=os.path.join(ROOT, crate), env=dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, crate)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise ToolError(f"{crate} does not build:\n" + "\n".join(
                l for l in p.stdout.splitlines() if not l.startswith("warning"))[-4000:])

    with ThreadPoolExecutor(max_workers=2) as ex:
        for r in [ex.submit(cargo, "harness", sorted(b for b in bins if b not in BULK)),
                  ex.submit(cargo, "bulk", sorted(b for b in bins if b in BULK))]:
            r.result()
    log("harness built")


def tlc(spec, cfg, work, env=None, heap="2g", workers=1, timeout=800, extra=()):
    """Runs TLC; returns (exit code, output)."""
    os.makedirs(work, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + work, "-cp", JAR,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", work, "-config", cfg,
           *extra, os.path.join(SPEC, spec)]
    p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return -1, out + "\ntimeout"
    return p.returncode, out


def states(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    return (int(m.group(1)), int(m.group(2)), int(m.group(3))) if m else (0, 0, -1)


def replay_file(prop, n, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{SEED}-{n}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def expected_states(path):
    """Histories, steps and the number of states that TLC must find."""
    n = steps = 0
    sample = None
    with open(path) as f:
        for line in f:
            if line.strip():
                j = json.loads(line)
                n += 1
                steps += len(j["ev"])
                if sample is None or (len(line) < 2500 and len(j["ev"]) >= 2):
                    sample = j
    return n, steps, n + steps, sample


OPS = {"insert": 0, "insert_unique": 1, "remove": 2, "clone": 3, "drop": 4}


def behaviours(job, part, scratch):
    """Behaviours of the design, made by TLC, for the recorder to replay."""
    path = os.path.join(scratch, f"behaviours.{part}.txt")
    n = job["behaviours"][1 if THOROUGH else 0]
    rc, o = tlc(job["gen"] + ".tla", os.path.join(SPEC, job["gen"] + ".cfg"), os.path.join(scratch, f"gen.{part}"),
                heap="3g", timeout=3600, extra=("-simulate", f"num={n}", "-depth", "400", "-seed", str(SEED * 1000 + part)))
    if "is violated" in o or "Error:" in o:
        raise ToolError(f"the specification {job['gen']} does not check ({rc}):\n" + o[-3000:])
    k = 0
    with open(path, "w") as f:
        for line in o.splitlines():
            if line.startswith('"@@'):
                j = json.loads(json.loads(line)[2:])
                k += 1
                f.write(" ".join(map(str, [k, *j["cfg"], len(j["keys"]), *[x for b in j["keys"] for c in b for x in c],
                                           *[x for op in j["ops"] for x in (OPS[op[0]], op[1], op[2])]])) + "\n")
    if k == 0:
        raise ToolError("no behaviours: " + o[-2000:])
    return path, k


def record(prop, job, part, scratch):
    """One recording process and the check of what it recorded."""
    made = 0
    if "gen" in job:
        path, made = behaviours(job, part, scratch)
        job = dict(job, env=dict(job.get("env", {}), RT_REPLAY=path))
    out = os.path.join(scratch, f"{job['bin']}.{job.get('tag', '')}.{part}.json")
    args = [binary(job["bin"]), job.get("prop", prop), str(SEED), TIER, out,
            str(job["budget"][1 if THOROUGH else 0]), str(job["secs"][1 if THOROUGH else 0]), str(part),
            str(job.get("parts", PARTS))]
    env = dict(os.environ, RUST_BACKTRACE="0", **job.get("env", {}))
    res = {"job": job["bin"], "part": part, "found": [], "stats": {}, "histories": 0, "steps": 0,
           "states": 0, "generated": 0, "sample": None}
    limit = job["secs"][1 if THOROUGH else 0] * 3 + 120
    try:
        p = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        raise ToolError(f"{job['bin']} {part} took more than {limit} s")
    note = ""
    for ext in (".hang", ".note"):
        if os.path.exists(out + ext):
            note = open(out + ext, errors="replace").read().strip()
            break
    if p.returncode == 97 or p.returncode < 0:
        what = "an operation did not return" if p.returncode == 97 else \
            f"the process was ended by signal {-p.returncode}"
        if p.returncode == -signal.SIGKILL:
            raise ToolError(f"{job['bin']} {part} was killed (memory?) at {note}")
        res["found"].append({"property": prop, "what": what, "case": note, "stderr": p.stderr[-1500:],
                             "command": args})
        return res
    if p.returncode != 0:
        raise ToolError(f"{job['bin']} {part} failed ({p.returncode}): {p.stderr[-1500:]} at {note}")
    try:
        res["stats"] = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        raise ToolError(f"{job['bin']} {part}: no statistics: {p.stdout[-500:]}")
    n, steps, want, res["sample"] = expected_states(out)
    res["histories"], res["steps"] = n, steps
    if n == 0:
        return res
    work = os.path.join(scratch, f"tlc.{job['bin']}.{job.get('tag', '')}.{part}")
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, "T.cfg")
    with open(os.path.join(SPEC, job["spec"] + ".cfg")) as f:
        text = f.read()
    with open(cfg, "w") as f:
        f.write(re.sub(r'Prop = "C\w+"', f'Prop = "{job.get("clauses", prop)}"', text))
    rc, o = tlc(job["spec"] + ".tla", cfg, work, {"TRACE": out}, heap=job.get("heap", "2g"),
                timeout=820 if not THOROUGH else 7200)
    gen, distinct, left = states(o)
    res["states"], res["generated"] = distinct, gen
    if rc == 12 and "is violated" in o:
        hid = re.findall(r'history = "(.*?)"', o)
        step = re.findall(r"step = (\d+)", o)
        broken = re.findall(r"broken = (\{.*?\})", o, re.S)
        event = re.findall(r'event = (".*)', o)
        hid, step = (hid[-1] if hid else "?"), (int(step[-1]) if step else -1)
        line = next((l for l in open(out) if json.loads(l)["id"] == hid), "null")
        res["found"].append({
            "property": prop, "what": broken[-1] if broken else o[-800:], "history": hid, "step": step,
            "event": event[-1][:3000] if event else "", "recorded": json.loads(line), "spec": job["spec"],
            "command": args})
        return res
    if rc != 0 or "No error has been found" not in o:
        raise ToolError(f"TLC failed on {out} ({rc}):\n" + o[-3000:])
    if distinct != want or left != 0:
        raise ToolError(f"TLC looked at {distinct} states of {out}, there are {want}")
    if "gen" in job:
        res["stats"]["behaviours_of_the_design_replayed"] = made
        rc, o = tlc("TraceAlgo.tla", os.path.join(SPEC, "TraceAlgo.cfg"), work, {"TRACE": out}, timeout=820)
        m = re.search(r'"agree", (\d+), "differ", (\d+)', o)
        if not m or "No error has been found" not in o:
            raise ToolError(f"TraceAlgo failed ({rc}):\n" + o[-3000:])
        res["stats"]["steps_exactly_as_designed"] = int(m.group(1))
        res["stats"]["steps_not_as_designed"] = int(m.group(2))
    os.remove(out)
    return res


def model(mc, scratch):
    """Model checking of the design."""
    work = os.path.join(scratch, "mc." + mc["cfg"])
    t = time.time()
    rc, o = tlc(mc["spec"] + ".tla", os.path.join(SPEC, mc["cfg"] + ".cfg"), work, heap=mc.get("heap", "3g"),
                workers=mc.get("workers", 2), timeout=mc.get("timeout", 820), extra=mc.get("extra", ()))
    gen, distinct, left = states(o)
    if rc != 0 or "No error has been found" not in o:
        # The design is fixed: this is no statement about the code.
        raise ToolError(f"the specification {mc['cfg']} does not check ({rc}):\n" + o[-3000:])
    return {"config": mc["cfg"], "generated": gen, "states": distinct, "wall_s": round(time.time() - t, 1)}


def known(prop):
    """Findings that are recorded, not repaired: key -> what fails."""
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def probe(prop, p):
    """One fixed case in a process of its own, which ends normally or is a violation.

    Returns (finding or None, whether it failed)."""
    try:
        r = subprocess.run([binary(p["bin"]), *map(str, p["args"])], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=600)
    except subprocess.TimeoutExpired:
        raise ToolError(f"{p['bin']} {p['args']} took more than 600 s")
    if r.returncode == -signal.SIGKILL:
        raise ToolError(f"{p['bin']} {p['args']} was killed (memory?)")
    if r.returncode == 0:
        return None, p
    return {"property": prop, "what": f"{p['what']}: exit {r.returncode}", "case": " ".join(map(str, p["args"])),
            "stderr": r.stderr[-1500:], "command": [p["bin"], *map(str, p["args"])]}, p


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build({j["bin"] for p in PLAN.values() for j in p["jobs"] + p.get("probes", [])})
        return 0
    plan = PLAN[prop]
    scratch = tempfile.mkdtemp(prefix=f"rt-{prop}-")
    try:
        ex = ThreadPoolExecutor(max_workers=PARTS + 2)
        models = [m for m in plan.get("models", []) if THOROUGH or not m.get("thorough")]
        mex = ThreadPoolExecutor(max_workers=2)
        mcs = [mex.submit(model, m, scratch) for m in models]
        build({j["bin"] for j in plan["jobs"] + plan.get("probes", [])})
        jobs = []
        for job in plan["jobs"]:
            for part in range(job.get("parts", PARTS)):
                jobs.append((job, part))
        rex = ThreadPoolExecutor(max_workers=PARTS)
        probes = [rex.submit(probe, prop, p) for p in plan.get("probes", [])]
        runs = [rex.submit(record, prop, j, p, scratch) for j, p in jobs]
        results, errors = [], []
        for r in runs:
            try:
                results.append(r.result())
            except ToolError as e:
                errors.append(str(e))
        found = [f for r in results for f in r["found"]]
        listed = known(prop)
        for r in probes:
            try:
                f, p = r.result()
                if f and p.get("key") in listed:
                    print(f"KNOWN-FINDING: property={prop} {listed[p['key']]}", flush=True)
                elif f:
                    found.append(f)
            except ToolError as e:
                errors.append(str(e))
        log(f"recorded and checked: {sum(r['histories'] for r in results)} histories, "
            f"{sum(r['steps'] for r in results)} steps, {len(found)} violations")
        design = []
        if not found:
            for m in mcs:
                try:
                    design.append(m.result())
                except ToolError as e:
                    errors.append(str(e))
            for d in design:
                log(f"design {d['config']}: {d['states']} states, {d['wall_s']} s")
        stats = {}
        complete = True
        for r in results:
            for k, v in r["stats"].items():
                if isinstance(v, bool):
                    complete = complete and v
                elif k in ("arrangements",):
                    stats[k] = max(stats.get(k, 0), v)
                elif isinstance(v, (int, float)):
                    stats[k] = stats.get(k, 0) + v
        if stats.get("suspects") and not found:
            log(f"note: the recorders took {stats['suspects']} steps for wrong that the specification allows")
        samples = []
        for r in results:
            s = r["sample"]
            if s and len(samples) < 2 and r["job"] not in [x["recorder"] for x in samples]:
                text = json.dumps(s)
                samples.append({"recorder": r["job"], "history": s if len(text) < 6000 else text[:6000]})
        evidence = {
            "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": sum(d["states"] for d in design) + sum(r["states"] for r in results),
                "transitions": sum(d["generated"] for d in design) + sum(r["steps"] for r in results),
                "traces_validated_against_impl": sum(r["histories"] for r in results),
                "steps_validated_against_impl": sum(r["steps"] for r in results),
                "executed_on_impl": stats,
                "design_models": design,
                "samples": samples,
                "explanation": plan["covers"],
            },
            "assumptions": plan.get("assumes", []),
            "wall_s": round(time.time() - START, 1),
            "violations": len(found),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        if found:
            for i, f in enumerate(found[:5]):
                path = replay_file(prop, i, f)
                print(f"  {f['what']}: {f.get('history', f.get('case', ''))}")
                print(f"VIOLATION property={prop} replay={path}", flush=True)
            for e in errors:
                print("error:", e[:1500])
            return 1
        if errors:
            for e in errors:
                print("error:", e[:4000])
            return 2
        log("held")
        return 0
    except ToolError as e:
        print("error:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
