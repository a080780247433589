#!/usr/bin/env python3
"""Run the check of one property.

  check.py PID [quick|thorough]      decide the property on /repo's working tree
  check.py --replay FILE             replay a saved violation

Every check has the same shape:
  1. TLC explores the specification exhaustively for small constants and
     evaluates its invariants and action properties;
  2. TLC generates random behaviours of the specification for larger constants;
  3. the Go driver, built from /repo's working tree, replays each behaviour into
     the real code and compares outputs and the projected state after each step.
Exit 0: the property held. Exit 1: the real code differs from the
specification. Anything else: the check itself failed.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan  # noqa: E402

TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)
DEADLINE = None  # set in main


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    """Run cmd in its own process group; kill the group on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -9, out, True


# ------------------------------------------------------------------ TLC

def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    raise TypeError(v)


def write_cfg(path, consts, invariants=(), properties=(), view=None, constraint=None):
    lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    for k, v in consts.items():
        lines.append(f"  {k} = {tla_value(v)}")
    if invariants:
        lines.append("INVARIANTS " + " ".join(invariants))
    if properties:
        lines.append("PROPERTIES " + " ".join(properties))
    if view:
        lines.append("VIEW " + view)
    if constraint:
        lines.append("CONSTRAINT " + constraint)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def spec_dir(work, name):
    d = os.path.join(work, name)
    os.makedirs(d)
    for f in os.listdir(os.path.join(HERE, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(HERE, "spec", f), d)
    return d


def java(heap):
    return ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC"]


def exhaustive(work, part, tier, i):
    """Exhaustive exploration; returns (states generated, distinct states, text)."""
    ex = part["exhaustive"]
    d = spec_dir(work, f"ex{i}")
    consts = dict(ex["consts"], **(ex.get("thorough", {}) if tier == "thorough" else {}))
    write_cfg(os.path.join(d, "X.cfg"), consts, ex.get("invariants", ()), ex.get("properties", ()), ex.get("view"), ex.get("constraint"))
    rc, out, late = run(java("6g" if tier == "thorough" else "3g") +
                        ["-config", "X.cfg", "-workers", "4", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", part["module"] + ".tla"],
                        ex.get("timeout", 600) if tier == "quick" else 7200, cwd=d)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if late:
        raise CheckError(f"TLC did not finish on {part['module']} ({m})")
    if rc != 0 or "No error has been found" not in out or not m:
        raise CheckError(f"TLC on {part['module']}: rc={rc}\n" + out[-6000:])
    shutil.rmtree(d)
    return int(m[-1][0]), int(m[-1][1])


def simulate(work, part, tier, seed, i, j, num):
    """Generate behaviours; returns (list of JSON lines, states)."""
    sim = part["simulate"]
    d = spec_dir(work, f"sim{i}_{j}")
    consts = dict(sim["consts"], **(sim.get("thorough", {}) if tier == "thorough" else {}))
    write_cfg(os.path.join(d, "S.cfg"), consts, sim.get("invariants", ()), sim.get("properties", ()))
    rc, out, late = run(java("1g") + ["-config", "S.cfg", "-simulate", f"num={num}", "-depth", str(sim.get("depth", 300)),
                        "-seed", str(seed), "-workers", "1", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", part["module"] + ".tla"],
                        sim.get("timeout", 240) if tier == "quick" else 3000, cwd=d)
    lines = [json.loads(l) for l in out.splitlines() if l.startswith('"[') or l.startswith('"{')]
    if late:
        raise CheckError(f"TLC simulation of {part['module']} did not finish")
    if re.search(r"^Error:", out, re.M) or rc != 0:
        bad = "\n".join(l for l in out.splitlines() if not l.startswith('"'))
        raise CheckError(f"TLC simulation of {part['module']}: rc={rc}\n" + bad[:6000])
    m = re.findall(r"(\d+) states checked", out)
    shutil.rmtree(d)
    return lines, int(m[-1]) if m else 0


def graph(work, part, tier, seed, i):
    """All behaviours of a small configuration, by breadth-first exploration
    that keeps the history (one behaviour per line, printed when complete)."""
    g = part["graph"]
    d = spec_dir(work, f"gr{i}")
    consts = dict(g["consts"], **(g.get("thorough", {}) if tier == "thorough" else {}))
    write_cfg(os.path.join(d, "G.cfg"), consts, g.get("invariants", ()), g.get("properties", ()))
    rc, out, late = run(java("4g") + ["-config", "G.cfg", "-workers", "1", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", part["module"] + ".tla"],
                        g.get("timeout", 400) if tier == "quick" else 3000, cwd=d)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if late or rc != 0 or "No error has been found" not in out:
        raise CheckError(f"TLC enumeration of {part['module']}: rc={rc}\n" + "\n".join(l for l in out.splitlines() if not l.startswith('"'))[-4000:])
    lines = [json.loads(l) for l in out.splitlines() if l.startswith('"[') or l.startswith('"{')]
    shutil.rmtree(d)
    cap = g.get("cap", 4000) if tier == "quick" else g.get("cap_thorough", 60000)
    if len(lines) > cap:
        lines = random.Random(seed).sample(lines, cap)
    return lines, int(m[-1][0]), int(m[-1][1])


# ------------------------------------------------------------------ replay

def build(work):
    out = os.path.join(work, "zz.test")
    rc, text, late = run([os.path.join(HERE, "harness", "build.sh"), out], 800)
    if rc != 0:
        raise CheckError("building the driver failed\n" + text[-6000:])
    return out


def replay(work, binary, family, lines, tag, timeout, env=None):
    """Replay behaviours in one process."""
    d = os.path.join(work, f"rp_{tag}")
    os.makedirs(d)
    with open(os.path.join(d, "in"), "w") as f:
        f.write("\n".join(lines) + "\n")
    e = dict(os.environ, ZZ_FAMILY=family, ZZ_IN=os.path.join(d, "in"), ZZ_OUT=os.path.join(d, "out"), HOME=d, TMPDIR=d, GOGC="200", GOMAXPROCS="2")
    e.update(env or {})
    rc, text, late = run([binary, "-test.run", "^TestReplay$", "-test.timeout", "0"], timeout, cwd=d, env=e)
    try:
        res = json.load(open(os.path.join(d, "out")))
    except Exception:
        res = None
    if res is not None and rc == 0 and res.get("done"):
        shutil.rmtree(d)
        return res
    if late and os.path.exists(os.path.join(d, "out.cur")):
        cur = int(open(os.path.join(d, "out.cur")).read())
        shutil.rmtree(d)
        if cur < len(lines):
            return {"behaviours": cur, "steps": 0, "checks": 0, "counts": {}, "crash": True,
                    "mismatches": [{"index": cur, "step": len(lines[cur]), "what": f"the code does not come to an end (within {timeout} s)"}]}
    if late:
        raise CheckError(f"replaying {family} ran out of time")
    crash = re.search(r"^(panic|fatal error): .*", text, re.M)
    if rc == 2 and crash and "out of memory" not in text and os.path.exists(os.path.join(d, "out.cur")):
        # the code under test ended the process: once more, on its own
        cur = int(open(os.path.join(d, "out.cur")).read())
        what = f"the process ends: {text[crash.start():crash.start() + 3000]}"
        shutil.rmtree(d)
        return {"behaviours": cur, "steps": 0, "checks": 0, "counts": {}, "mismatches": [{"index": cur, "step": len(lines[cur]), "what": what}], "crash": True}
    raise CheckError(f"the driver for {family} failed: rc={rc}\n" + text[-6000:])


def cut(line, step):
    """Keep a behaviour up to the differing step."""
    b = json.loads(line)
    if isinstance(b, list):
        return json.dumps(b[:step + 1])
    if isinstance(b, dict) and isinstance(b.get("steps"), list):
        b["steps"] = b["steps"][:step + 1]
        return json.dumps(b)
    return line


def corrupt(line, rng, only_true=False):
    """Flip one recorded outcome: the replay must then report a difference."""
    b = json.loads(line)
    sites = []

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "ok" and isinstance(v, bool):
                    if only_true and not v:
                        continue
                    sites.append((x, k, not v))
                elif k == "res" and isinstance(v, list):
                    sites.extend((v, i, "rejected" if o == "ok" else "ok") for i, o in enumerate(v))
                elif k == "r" and v == "ok" and "id" in x:
                    sites.append((x, k, "rejected"))
                elif k == "v" and x.get("a") == "get":
                    sites.append((x, k, v + 1))
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(b)
    if not sites:
        return None
    x, k, v = rng.choice(sites)
    x[k] = v
    return json.dumps(b)


# ------------------------------------------------------------------ main

def findings(pid):
    out = []
    with open(os.path.join(HERE, "known-findings.json")) as f:
        for x in json.load(f)["findings"]:
            if x["property"] == pid and x["status"] == "known":
                out.append(x)
    return out


def check(pid, tier, seed, work):
    t0 = time.time()
    rng = random.Random(f"{pid}-{seed}")
    p = plan.PLAN[pid]
    parts = p["parts"]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "steps_replayed": 0, "comparisons": 0, "simulated_states": 0, "exercised": {}, "parts": [], "controls_rejected": 0}
    with ThreadPoolExecutor(max_workers=NPROC + 1) as pool:
        fb = pool.submit(build, work)
        fex, fsim, fgr = {}, {}, {}
        for i, part in enumerate(parts):
            if "exhaustive" in part:
                fex[i] = pool.submit(exhaustive, work, part, tier, i)
            if "graph" in part:
                fgr[i] = pool.submit(graph, work, part, tier, seed, i)
            if "simulate" in part:
                sim = part["simulate"]
                total = sim["quick_num"] if tier == "quick" else sim["thorough_num"]
                n = min(sim.get("procs", 4), total)
                fsim[i] = [pool.submit(simulate, work, part, tier, rng.randrange(1 << 31), i, j, (total + n - 1) // n) for j in range(n)]
        binary = fb.result()
        behaviours = {}
        for i, part in enumerate(parts):
            lines = []
            for f in fsim.get(i, []):
                ls, st = f.result()
                lines += ls
                cov["simulated_states"] += st
            if i in fgr:
                ls, st, dist = fgr[i].result()
                lines += ls
                cov["transitions"] += st
                cov["states"] += dist
            lines = list(dict.fromkeys(lines))
            if not lines and ("simulate" in part or "graph" in part):
                raise CheckError(f"no behaviours generated for {part['module']}")
            behaviours[i] = lines
        # replay
        jobs = []
        stop = threading.Event()

        def job(i, ls, tag):
            if stop.is_set():
                return None
            r = replay(work, binary, parts[i]["family"], ls, tag, 400 if tier == "quick" else 7200, parts[i].get("env"))
            if r["mismatches"]:
                stop.set()
            return r
        for i, part in enumerate(parts):
            lines = behaviours[i]
            if not lines:
                continue
            chunk = max(1, (len(lines) + NPROC * 2 - 1) // (NPROC * 2)) if len(lines) > 40 else max(1, (len(lines) + NPROC - 1) // NPROC)
            for j in range(0, len(lines), chunk):
                ls = lines[j:j + chunk]
                jobs.append((i, ls, pool.submit(job, i, ls, f"{i}_{j}")))
        bad = None
        for i, ls, f in jobs:
            r = f.result()
            if r is None:
                continue
            cov["traces_validated_against_impl"] += r["behaviours"]
            cov["steps_replayed"] += r["steps"]
            cov["comparisons"] += r["checks"]
            for k, v in r["counts"].items():
                cov["exercised"][k] = cov["exercised"].get(k, 0) + v
            if r["mismatches"] and bad is None:
                m = r["mismatches"][0]
                # the behaviour up to the difference; all of it; and after those replayed before it in the same process
                bad = (i, [[cut(ls[m["index"]], m["step"])], [ls[m["index"]]], ls[:m["index"] + 1]], m, "crash" if r.get("crash") else "")
        if bad is None:
            # negative control: a falsified behaviour must be rejected
            for i, part in enumerate(parts):
                if not behaviours[i] or part.get("no_control"):
                    continue
                c = None
                for _ in range(20):
                    c = corrupt(rng.choice(behaviours[i]), rng, part.get("flip_true", False))
                    if c:
                        break
                if c is None:
                    raise CheckError("no outcome to falsify in " + part["module"])
                r = replay(work, binary, part["family"], [c], f"ctl{i}", 300, part.get("env"))
                if not r["mismatches"]:
                    raise CheckError("the replay accepted a falsified behaviour: " + c[:2000])
                cov["controls_rejected"] += 1
        for i, f in fex.items():
            gen, dist = f.result()
            cov["transitions"] += gen
            cov["states"] += dist
    cov["exercised"] = dict(sorted(cov["exercised"].items()))
    for i, part in enumerate(parts):
        cov["parts"].append({"module": part["module"], "behaviours": len(behaviours[i]),
                             "exhaustive": {k: str(v) for k, v in part.get("exhaustive", {}).get("consts", {}).items()},
                             "generated_with": {k: str(v) for k, v in (part.get("simulate") or part.get("graph") or {"consts": {}})["consts"].items()}})
        if behaviours[i]:
            cov["samples"].append(json.loads(rng.choice(behaviours[i])))
    missing = [k for k in p.get("must_exercise", []) if not cov["exercised"].get(k)]
    violations = 0
    code = 0
    if bad is not None:
        i, tries, m, crash = bad
        fam = parts[i]["family"]
        slow = "does not come to an end" in m["what"]
        # the code may depend on chance (order of maps, goroutines)
        for k, lines in enumerate(tries[:1] if slow else tries[:1] * (8 if crash else 4) + tries[1:] + tries[:1] * 4 + tries[2:]):
            r = replay(work, binary, fam, lines, f"confirm{k}", 150 if slow or tier == "quick" else 300, parts[i].get("env"))
            if r["mismatches"]:
                break
        if not r["mismatches"]:
            raise CheckError("a difference did not reproduce: " + json.dumps(m)[:3000])
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-{tier}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "family": fam, "module": parts[i]["module"], "difference": r["mismatches"][0],
                       "env": parts[i].get("env"), "behaviours": [json.loads(l) for l in lines]}, f, indent=1)
        log("difference:", r["mismatches"][0]["what"][:1500])
        log(f"VIOLATION property={pid} replay={path}")
        violations, code = 1, 1
    elif missing:
        raise CheckError("never exercised: " + ", ".join(missing))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    # known findings are shown by the real code, on this tree
    if code == 0:
        for x in findings(pid):
            r = probe(work, binary, x["probe"])
            if r == "fails":
                log(f"KNOWN-FINDING: property={pid} {x['what']}")
            else:
                log(f"note: the known finding {x['id']} does not show on this tree")
    log(f"{pid} {tier}: {cov['states']} states, {cov['transitions']} transitions; {cov['traces_validated_against_impl']} behaviours "
        f"({cov['steps_replayed']} steps, {cov['comparisons']} comparisons) replayed; {ev['wall_s']} s")
    return code


def probe(work, binary, name):
    rc, text, late = run([binary, "-test.run", f"^TestProbe$/^{name}$", "-test.v"], 200, cwd=work, env=dict(os.environ, HOME=work, TMPDIR=work, ZZ_PROBE="1"))
    if "PROBE-FAILS" in text:
        return "fails"
    if "PROBE-HOLDS" in text:
        return "holds"
    raise CheckError(f"probe {name}: rc={rc}\n" + text[-3000:])


def main():
    if sys.argv[1] == "--replay":
        x = json.load(open(sys.argv[2]))
        work = tempfile.mkdtemp(prefix="verif-")
        try:
            r = replay(work, build(work), x["family"], [json.dumps(b) for b in x["behaviours"]], "r", 600, x.get("env"))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for m in r["mismatches"]:
            log(m["what"])
            log(f"VIOLATION property={x['property']} replay={sys.argv[2]}")
        return 1 if r["mismatches"] else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return check(pid, tier, seed, work)
    except CheckError as e:
        log("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
