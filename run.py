#!/opt/venv/bin/python
"""Runner of the checks.

  run.py C07 [--tier quick|thorough] [--only NAME] [-v]     decide a property
  run.py C07 --replay FILE                                  replay a counterexample on the real code

Exit 0: held on everything explored; 1: violated (VIOLATION line); anything else: no answer.
"""
import argparse
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("QISKIT_PARALLEL", "FALSE")
import warnings

warnings.filterwarnings("ignore")

QUICK_TASK_S = 200
THOROUGH_TASK_S = 1500
QUICK_TOTAL_S = 660  # what is not decided by then is reported as undecided


def run_harness(m, cfg):
    """One path: on a package nothing has used before."""
    from symqt import env

    with env.fresh():
        if cfg.get("warm"):
            from checks.common import warm

            warm(cfg)
        m.harness(cfg)


def mod(pid):
    return importlib.import_module("checks." + pid.lower())


# ------------------------------------------------------------------ one configuration, symbolically
def solve_task(m, cfg, tier, seed, wfd):
    from symqt import core, env, models
    from symqt.core import R

    out = {"name": cfg["name"]}
    t0 = time.time()
    try:
        sys.setrecursionlimit(20000)
        R.reset_all()
        R.native = False
        R.refiner = models.refine
        if tier == "thorough":
            R.max_lemmas = 5000
        rng = random.Random("%s/%s" % (seed, cfg["name"]))
        samples = []
        nsamp = cfg.get("samples", 2)

        def sampler(r):
            if len(samples) < nsamp and (not samples or rng.random() < 0.3):
                samples.extend(core.sample_models(rng, 1, 12))

        R.sampler = sampler if nsamp else None
        env.trace_functions()
        budget = cfg.get("budget") or (QUICK_TASK_S if tier == "quick" else THOROUGH_TASK_S)
        try:
            R.explore(lambda r: run_harness(m, cfg), budget)
            out["status"] = "ok"
            if R.stats.checks == 0:
                out["status"] = "error"
                out["detail"] = "vacuous: no assertion was reached"
        except core.Violation as v:
            out["status"] = "violation"
            out["label"] = v.label
            out["cex"] = v.model
            out["detail"] = v.detail
        except core.Inconclusive as e:
            out["status"] = "inconclusive"
            out["detail"] = "%s: %s" % (type(e).__name__, e)
            out["tb"] = traceback.format_exc()[-3000:]
        out["samples"] = samples
        out["stats"] = R.stats.as_dict()
        out["log"] = R.path_log[-10:]
        out["functions"] = env.functions()
    except BaseException as e:
        out["status"] = "error"
        out["detail"] = "%s: %s" % (type(e).__name__, e)
        out["tb"] = traceback.format_exc()[-6000:]
    out["wall_s"] = round(time.time() - t0, 3)
    data = json.dumps(out, default=str).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_tasks(m, cfgs, tier, seed, jobs, verbose, stop_on_violation=True):
    """Fork one process per configuration."""
    todo = list(cfgs)
    live = {}
    results = []
    stop = False
    end = time.time() + (QUICK_TOTAL_S if tier == "quick" else 1e9)
    while todo or live:
        if time.time() > end and todo:
            results += [{"name": c["name"], "status": "inconclusive", "detail": "total time limit", "cfg": c} for c in todo]
            todo = []
        while todo and len(live) < jobs and not stop:
            cfg = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                except Exception:
                    pass
                solve_task(m, cfg, tier, seed, w)
            os.close(w)
            os.set_blocking(r, False)
            budget = cfg.get("budget") or (QUICK_TASK_S if tier == "quick" else THOROUGH_TASK_S)
            live[pid] = [cfg, r, b"", time.time() + budget * 1.3 + 20]
        if stop and not live:
            break
        time.sleep(0.005)
        for pid in list(live):
            cfg, r, buf, dl = live[pid]
            eof = False
            try:
                while True:
                    c = os.read(r, 1 << 16)
                    if not c:
                        eof = True
                        break
                    live[pid][2] += c
            except BlockingIOError:
                pass
            timeout = time.time() > min(dl, end + 30)
            if not eof and not timeout and not stop:
                continue
            if not eof:
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            buf = live.pop(pid)[2]
            if stop and not eof:
                continue
            try:
                res = json.loads(buf)
            except ValueError:
                res = {
                    "name": cfg["name"],
                    "status": "inconclusive" if timeout else "error",
                    "detail": "time limit" if timeout else "worker died",
                }
            res["cfg"] = cfg
            results.append(res)
            if verbose:
                st = res.get("stats", {})
                print(
                    "  %-40s %-12s %6.1fs paths=%s q=%s solver=%.1fs %s"
                    % (
                        res["name"], res["status"], res.get("wall_s", 0), st.get("paths"), st.get("queries"),
                        st.get("solver_s", 0), res.get("label") or res.get("detail") or "",
                    ),
                    flush=True,
                )
                if verbose > 1:
                    print("    ", st.get("notes"), "restarts", st.get("restarts"), res.get("log"), "lemmas", st.get("lemmas"))
                    print(res.get("tb", ""))
            if res["status"] == "violation" and stop_on_violation:
                stop = True
                todo = []
    return results


# ------------------------------------------------------------------ replay on the real code
def replay_one(m, cfg, cex):
    """Run the harness concretely on the unpatched code.  Returns (verdict, text)."""
    from symqt import core
    from symqt.core import R

    R.reset_all()
    R.mode, R.native, R.cex = "conc", True, dict(cex or {})
    from symqt import models

    try:
        run_harness(m, cfg)
        return "held", ""
    except core.Violation as v:
        return "violated", v.label + (" " + v.detail if v.detail else "")
    except core.Infeasible as e:
        return "infeasible", str(e)
    except core.EngineExc as e:
        return "error", "%s %s" % (type(e).__name__, e)
    except Exception as e:
        tb = traceback.format_exc()
        where = traceback.extract_tb(e.__traceback__)
        from symqt import env

        root = os.path.realpath(env.REPO) + os.sep
        if any(f.filename.startswith(root) for f in where):
            return "violated", "unexpected exception %s: %s\n%s" % (type(e).__name__, e, tb)
        if isinstance(e, (LookupError, ValueError, ArithmeticError, TypeError)) and "argument" not in str(e):
            # what the code returned has not the shape of its documented result
            return "odd", "unexpected exception %s: %s\n%s" % (type(e).__name__, e, tb)
        return "error", tb


def replay_main(pid, path):
    m = mod(pid)
    from symqt import env

    job = json.load(open(path))
    items = job if isinstance(job, list) else [job]
    out = []
    t0 = time.time()
    env.load(True)
    for it in items:
        if isinstance(job, list) and time.time() - t0 > 60:
            out.append(["skipped", ""])
            continue
        out.append(list(replay_one(m, it["cfg"], it["cex"])))
        if out[-1][0] == "held" and not isinstance(job, list):
            from symqt import models

            for way in models.ORIENTATIONS[1:]:
                models.R.orientation, models.R.oriented = way, 0
                again = list(replay_one(m, it["cfg"], it["cex"]))
                if again[0] != "held":
                    out[-1] = [again[0], again[1] + "\n(the library's pairs turned round: %s)" % way]
                    break
            models.R.orientation = None
    print("REPLAY " + json.dumps(out))
    bad = [o for o in out if o[0] in ("violated", "odd")]
    for o in bad[:3]:
        print("reproduced: " + o[1][:1500])
    sys.exit(1 if bad else (2 if any(o[0] == "error" for o in out) else 0))


def replay(pid, path):
    p = subprocess.run(
        [sys.executable, "-W", "ignore", os.path.join(HERE, "run.py"), pid, "--replay", path],
        capture_output=True, text=True, timeout=300, cwd=HERE,
    )
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY "):
            return json.loads(line[7:]), p.stdout + p.stderr[-2000:]
    return None, p.stdout + p.stderr[-3000:]


# ------------------------------------------------------------------ known findings
def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and ("property=%s " % pid) in line:
                out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    pid = a.pid.upper()
    if a.replay:
        replay_main(pid, a.replay)
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    m = mod(pid)
    from symqt import env

    env.load(False)
    cfgs = m.configs(a.tier)
    if getattr(m, "WARM", False):
        for c in cfgs:
            c["warm"] = zlib.crc32(c["name"].encode()) % 2 == 1
    if a.only:
        cfgs = [c for c in cfgs if a.only in c["name"]]
    names = [c["name"] for c in cfgs]
    assert len(set(names)) == len(names), "duplicate configuration names"
    results = run_tasks(m, cfgs, a.tier, seed, a.jobs, a.v)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    violations = 0
    reported = []
    for r in results:
        if r["status"] != "violation":
            continue
        rp = os.path.join(HERE, "replay", "%s_%s.json" % (pid, "".join(c if c.isalnum() else "_" for c in r["name"])))
        json.dump({"property": pid, "cfg": r["cfg"], "label": r["label"], "cex": r["cex"]}, open(rp, "w"), indent=1)
        rep, text = replay(pid, rp)
        odd = rep and rep[0][0] == "odd" and rep[0][1].split(":")[0] == r["label"].split(":")[0]
        if rep and (rep[0][0] == "violated" or odd):
            violations += 1
            reported.append((r, rp, rep[0][1]))
        else:
            print("counterexample did not reproduce: %s %s %s" % (r["name"], r["label"], rep))
            if a.v:
                print(text, r.get("detail"))
            r["status"] = "error"
            r["detail"] = "counterexample %r did not reproduce: %s" % (r["label"], rep and rep[0])
    # native validation on models of explored paths
    batch = []
    if not violations:
        for r in results:
            if r["status"] == "ok":
                for s in r.get("samples", [])[:2]:
                    s = dict(s)
                    s["_shots"] = 8
                    batch.append({"cfg": r["cfg"], "cex": s})
    random.Random(seed).shuffle(batch)
    batch = batch[: getattr(m, "MAX_VALIDATE", 40)]
    validated = 0
    if batch:
        bp = os.path.join(HERE, "replay", "%s_validate_%d.json" % (pid, os.getpid()))
        json.dump(batch, open(bp, "w"))
        try:
            rep, text = replay(pid, bp)
        except subprocess.TimeoutExpired:
            rep, text = None, "timeout"
        os.unlink(bp)
        if rep is None:
            print("native validation did not run: " + text[-1500:])
            rc = 2
        else:
            for it, o in zip(batch, rep):
                if o[0] == "held":
                    validated += 1
                elif o[0] == "violated":
                    rp = os.path.join(HERE, "replay", "%s_native.json" % pid)
                    json.dump({"property": pid, "cfg": it["cfg"], "label": o[1][:200], "cex": it["cex"]}, open(rp, "w"), indent=1)
                    violations += 1
                    reported.append(({"name": it["cfg"]["name"], "label": o[1][:300]}, rp, o[1]))
                    break
                elif o[0] in ("error", "infeasible", "odd"):
                    print("native validation: %s %s %s" % (it["cfg"]["name"], o[0], o[1][-1500:]))
                    rc = 2
    bad = [r for r in results if r["status"] == "error"]
    inc = [r for r in results if r["status"] == "inconclusive"]
    ok = [r for r in results if r["status"] == "ok"]
    for r in bad + inc:
        print("%s config=%s %s" % (r["status"].upper(), r["name"], str(r.get("detail"))[:300]))
        if a.v and r.get("tb"):
            print(r["tb"])
    if violations:
        rc = 1
    elif bad:
        rc = 2
    elif inc and (len(ok) < max(1, len(results) // 2) or any(r["cfg"].get("must") for r in inc)):
        rc = 2
    tot = {}
    funcs = set()
    notes = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in r.get("stats", {}).get("notes", {}).items():
            notes[k] = notes.get(k, 0) + v
        funcs.update(r.get("functions", []))
    cov = {
        "explanation": getattr(m, "EXPLAIN", "")
        + " Bounded symbolic execution of the functions listed, encoded from /repo's working tree in this run; every"
        " listed configuration marked decided was explored on all feasible paths and each assertion's negation was"
        " unsatisfiable (or simplified to false). Nothing is claimed outside these bounds.",
        "bounds": getattr(m, "BOUNDS", {}).get(a.tier) if isinstance(getattr(m, "BOUNDS", ""), dict) else getattr(m, "BOUNDS", ""),
        "configurations": len(results),
        "decided": len(ok),
        "undecided": [{"name": r["name"], "why": str(r.get("detail"))[:200]} for r in bad + inc],
        "configuration_names": [r["name"] for r in ok][:400],
        "functions_encoded": sorted(funcs),
        "paths": tot.get("paths", 0),
        "merged_branches": tot.get("merges", 0),
        "assertions": tot.get("checks", 0),
        "assertions_discharged": tot.get("checks_unsat", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_sat": tot.get("sat", 0),
        "solver_unsat": tot.get("unsat", 0),
        "solver_unknown": tot.get("unknown", 0),
        "solver_s": round(tot.get("solver_s", 0.0), 3),
        "matching_lemmas": tot.get("lemmas", 0),
        "engine_notes": notes,
        "native_replays_that_held": validated,
        "samples": [
            {"config": r["name"], "input": {k: v for k, v in s.items() if v not in (False, 0)}}
            for r in ok[:6] for s in r.get("samples", [])[:1]
        ],
    }
    ev = {
        "property": pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": getattr(m, "LEVEL", "other"),
        "coverage": cov,
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for line in known(pid):
        print("KNOWN-FINDING: " + line[len("finding: "):])
    for r, rp, text in reported[:3]:
        print("%s: %s" % (r["name"], text.splitlines()[0][:300] if text else r["label"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, HERE)))
    print(
        "%s %s: %d/%d configurations decided, %d paths, %d assertions, %d queries (%.1fs solver), %d native replays, %.1fs -> exit %d"
        % (
            pid, a.tier, len(ok), len(results), tot.get("paths", 0), tot.get("checks", 0), tot.get("queries", 0),
            tot.get("solver_s", 0), validated, time.time() - t0, rc,
        )
    )
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
