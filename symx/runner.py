"""
Runs the jobs of one property: symbolic exploration in parallel processes, replay of
every counterexample on the real code, evidence file.
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
REPLAY_TIMEOUT = 60


class Job:
    def __init__(self, name, fn, params=None, tier="quick", max_paths=100000, path_s=30, budget=None, minmax="fork",
                 stubs=None, bounds="", assumptions=(), witness=2, weight=1, qt=4000, symchoice=False):
        self.name, self.fn, self.params = name, fn, params or {}
        self.tier, self.max_paths, self.path_s, self.budget = tier, max_paths, path_s, budget
        self.minmax, self.stubs, self.bounds = minmax, stubs, bounds
        self.assumptions = list(assumptions)
        self.witness = witness
        self.weight = weight
        self.qt = qt
        self.symchoice = symchoice       # choices are integer parts of symbolic inputs (decided by the solver)


def load_jobs(prop):
    m = importlib.import_module("harness." + prop.lower())
    return m, m.jobs()


def classify(tb, repo_src, harness_dir, x=None):
    """Where did an exception come from: 'repo' if a repository frame follows the last harness frame.
    Exceptions of stand-ins of libraries (from_code) belong to the frame that called the stand-in."""
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(tb)]
    if getattr(x, "from_code", False):
        return "repo" if any(f.startswith(repo_src) for f in frames) else "harness"
    last = "harness"
    for f in frames:
        if f.startswith(harness_dir):
            last = "harness"
        elif f.startswith(repo_src):
            last = "repo"
    return last


def func_monitor(repo_src, found):
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(repo_src):
            found.add((code.co_filename[len(repo_src) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class _Timeout(BaseException):
    pass


def run_job(prop, job, deadline, seed):
    """In a worker process. Returns a JSON-able dict."""
    from . import core, shim, loader, env as envm
    sys.setrecursionlimit(20000)
    repo_src = os.path.realpath(loader.REPO_SRC)
    hdir = os.path.realpath(os.path.join(VERIF, "harness"))
    found = set()
    func_monitor(loader.REPO_SRC, found)
    ex = core.Explorer(query_timeout_ms=job.qt)
    core.EXPLORER = ex
    shim.OPT["minmax"] = job.minmax
    t0 = time.time()
    end = min(deadline, t0 + job.budget) if job.budget else deadline
    res = {"job": job.name, "violation": None, "unreproduced": [], "known": [], "samples": [], "witness_ok": 0,
           "witness_bad": [], "complete": False, "reached_check": 0, "exceptions": {}, "harness_errors": {}}
    work = [[]]
    witness = []
    replays_left = 8
    seen_keys = {}

    def on_alarm(sig, frm):
        raise core.PathTimeout()
    signal.signal(signal.SIGALRM, on_alarm)

    def candidate(msg, extra, kind):
        nonlocal replays_left
        key = kind + ":" + re.sub(r"[-+]?\d[\d.e+-]*", "#", msg)[:160]
        n = seen_keys.get(key, 0)
        seen_keys[key] = n + 1
        if n >= 3 or replays_left <= 0:
            if len(res["unreproduced"]) < 20:
                res["unreproduced"].append(msg[:200])
            return False
        replays_left -= 1
        signal.setitimer(signal.ITIMER_REAL, 0)
        ms = ex.models(extra)
        for m in ms:
            rec = {"property": prop, "job": job.name, "kind": kind, "msg": msg,
                   "inputs": {k: str(v) for k, v in m.items()}, "choices": dict(ex.choices)}
            r = replay_sub([rec], timeout=REPLAY_TIMEOUT)
            if r and r[0]["outcome"] in ("violation", "hang") or (r and kind == "exception" and r[0]["outcome"] == "exception"
                                                                 ) or (r and r[0]["outcome"] == "exception"):
                rec["replayed"] = r[0]
                kf = match_known(prop, job.name, r[0].get("msg", msg))
                if kf is not None:
                    res["known"].append(kf)
                    return False
                res["violation"] = rec
                return True
        res["unreproduced"].append(msg[:200] + (" [no model]" if not ms else ""))
        return False

    paths = 0
    while work:
        if time.time() > end or paths >= job.max_paths:
            break
        prefix = work.pop()
        ex.start_path(prefix)
        w = loader.World(stubs=job.stubs() if job.stubs else None)
        e = envm.SymEnv(ex, w)
        e.symchoice = job.symchoice
        checks0 = ex.stats.checks_solver + ex.stats.checks_folded
        try:
            signal.setitimer(signal.ITIMER_REAL, max(1.0, min(job.path_s, end - time.time() + 5)))
            try:
                job.fn(e, **job.params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            paths += 1
            ex.stats.paths += 1
            if ex.stats.checks_solver + ex.stats.checks_folded > checks0:
                res["reached_check"] += 1
            take = ex.stats.paths in (1, 2, 5, 17, 60, 200, 600, 1500)
            if take and ex.model_ok and len(witness) < 8 and job.witness:
                obs = []
                for n, v in ex.observed:
                    try:
                        obs.append((n, eval_obs(core, ex, v)))
                    except Exception:
                        pass
                witness.append(({"property": prop, "job": job.name, "kind": "witness", "msg": "",
                                 "inputs": {n: str(ex.model.get(v, 0)) for n, v in ex.input_log},
                                 "choices": dict(ex.choices)}, obs))
            if len(res["samples"]) < 2:
                res["samples"].append({"inputs": {n: str(ex.model.get(v, 0)) for n, v in ex.input_log},
                                       "choices": dict(ex.choices), "path_conditions": len(ex.pc),
                                       "decisions": len(ex.trace)})
        except core.PathAbort:
            ex.stats.aborted += 1
        except core.Unsupported as x:
            ex.stats.unsupported += 1
            ex.stats.note("unsupported: " + str(x)[:80])
            # undecided here; does the real code fail on the inputs that lead to this point?
            if time.time() < end and candidate("outside the encoding: " + str(x)[:80], None, "unsupported"):
                break
        except core.CheckFailed as x:
            ex.stats.paths += 1
            if candidate(x.msg, x.cond, "check"):
                break
        except core.PathTimeout:
            ex.stats.timeouts += 1
            # the path ran for path_s seconds: does the real code terminate?
            if time.time() < end and candidate("does not terminate", None, "hang"):
                break
        except envm.HarnessNote as x:
            ex.stats.note(str(x)[:80])
        except RecursionError as x:
            if candidate("unexpected RecursionError", None, "exception"):
                break
        except Exception as x:
            where = classify(x.__traceback__, repo_src, hdir, x)
            msg = "unexpected %s: %s" % (type(x).__name__, str(x)[:160])
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
            if where == "repo":
                res["exceptions"][msg] = res["exceptions"].get(msg, 0) + 1
                if candidate(msg, None, "exception"):
                    break
            else:
                last = traceback.extract_tb(x.__traceback__)[-1]
                k = "%s at %s:%s" % (msg, os.path.basename(last.filename), last.lineno)
                res["harness_errors"][k] = res["harness_errors"].get(k, 0) + 1
                if time.time() < end and candidate(k, None, "harness"):
                    break
        work.extend(ex.pending)
    else:
        res["complete"] = True
    if witness and not res["violation"]:
        signal.setitimer(signal.ITIMER_REAL, 0)
        rs = replay_sub([w for w, o in witness], timeout=REPLAY_TIMEOUT * 2) or []
        for (w, obs), r in zip(witness, rs):
            bad = None
            if r["outcome"] == "assume":
                continue
            if r["outcome"] != "ok":
                bad = r["outcome"] + ": " + r.get("msg", "")[:200]
            else:
                got = dict((n, v) for n, v in r["observed"])
                for n, v in obs:
                    if n in got and abs(got[n] - v) > 1e-6 * max(1, abs(v)):
                        bad = "observation %s: symbolic %r, real %r" % (n, v, got[n])
                        break
            if bad is None:
                res["witness_ok"] += 1
            else:
                res["witness_bad"].append(bad)
    s = ex.stats
    res["stats"] = {k: getattr(s, k) for k in ("paths", "aborted", "unsupported", "timeouts", "decisions", "forks",
                                               "queries", "sat", "unsat", "unknown", "solver_s", "checks_solver",
                                               "checks_folded", "checks_unknown")}
    res["notes"] = s.notes
    res["pending"] = len(work)
    res["functions"] = sorted("%s:%s" % f for f in found)
    res["wall_s"] = time.time() - t0
    return res


def eval_obs(core, ex, v):
    v = core.lift(v)
    if v.c is not None:
        return float(v.c)
    vals = dict(ex.model)

    def get(i):
        if i in ex.sqrt_rad:
            return float(fe(ex.sqrt_rad[i])) ** 0.5
        return float(vals[i])

    def fe(p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for i, e in m:
                x *= get(i) ** e
            t += x
        return t
    return fe(v.n) / (fe(v.d) if v.d else 1.0)


def replay_sub(recs, timeout):
    """Run records on the real code in a child process; list of outcomes (a hang ends the list)."""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(recs, f)
    out = f.name + ".out"
    try:
        p = subprocess.Popen([PY, "-m", "symx.replay", f.name, out], cwd=VERIF, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return [{"outcome": "hang", "msg": "does not terminate within %d s" % timeout}]
        if os.path.exists(out):
            with open(out) as g:
                return json.load(g)
        sys.stderr.write("replay failed: %s\n" % err.decode()[-500:])
        return None
    finally:
        for x in (f.name, out):
            if os.path.exists(x):
                os.unlink(x)


_known = None


def known_list():
    global _known
    if _known is None:
        p = os.path.join(VERIF, "known_findings.json")
        _known = json.load(open(p)) if os.path.exists(p) else {"findings": []}
    return _known["findings"]


def match_known(prop, job, msg):
    for k in known_list():
        if k["property"] == prop and re.fullmatch(k["job"], job) and re.search(k["message"], msg):
            return k["what"]
    return None


def _child(prop, idx, deadline, seed, path):
    os.setsid()
    m, jobs = load_jobs(prop)
    try:
        r = run_job(prop, jobs[idx], deadline, seed)
    except BaseException as x:
        traceback.print_exc()
        r = {"job": jobs[idx].name, "crash": "%s: %s" % (type(x).__name__, x)}
    with open(path, "w") as f:
        json.dump(r, f)


def self_test():
    """The solver answers and every harness can be imported."""
    from . import core
    x = core.z3.Real("x")
    s = core.z3.Solver()
    s.add(x * x == 2, x > 0)
    assert str(s.check()) == "sat"
    n = 0
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if re.fullmatch(r"c\d+\.py", f):
            n += len(load_jobs(f[:-3].upper())[1])
    print("self-test: z3 %s, %d jobs" % (core.z3.get_version_string(), n))
    return 0


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    if "--self-test" in (argv or sys.argv[1:]):
        return self_test()
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m, jobs = load_jobs(prop)
    budget = a.budget or (150 if a.tier == "quick" else 780)
    deadline = t0 + budget
    sel = [i for i, j in enumerate(jobs)
           if (a.tier == "thorough" or j.tier == "quick") and (a.job is None or re.search(a.job, j.name))]
    sel.sort(key=lambda i: -jobs[i].weight)
    results = []
    violation = None
    running = {}
    queue = list(sel)
    tmpd = tempfile.mkdtemp(prefix="symx_")
    ctx = mp.get_context("fork")
    try:
        while queue or running:
            while queue and len(running) < a.procs:
                i = queue.pop(0)
                path = os.path.join(tmpd, "%d.json" % i)
                p = ctx.Process(target=_child, args=(prop, i, deadline, seed, path))
                p.start()
                running[p.pid] = (p, i, path, time.time())
            time.sleep(0.02)
            for pid in list(running):
                p, i, path, ts = running[pid]
                if not p.is_alive():
                    p.join()
                    del running[pid]
                    if os.path.exists(path):
                        r = json.load(open(path))
                    else:
                        r = {"job": jobs[i].name, "crash": "worker died (exit code %s)" % p.exitcode}
                    results.append(r)
                    if a.v:
                        s = r.get("stats", {})
                        print("[%s] %.1fs complete=%s paths=%s forks=%s q=%s unk=%s solver=%.1fs unsup=%s checks=%s+%s wit=%s%s %s %s %s" % (
                            r["job"], r.get("wall_s", 0), r.get("complete"), s.get("paths"), s.get("forks"),
                            s.get("queries"), s.get("unknown"), s.get("solver_s", 0), s.get("unsupported"),
                            s.get("checks_solver"), s.get("checks_folded"), r.get("witness_ok"), r.get("witness_bad") or "",
                            r.get("crash") or "", r.get("notes") or "", r.get("harness_errors") or ""), flush=True)
                        if r.get("unreproduced"):
                            print("    unreproduced:", r["unreproduced"][:3], r.get("exceptions"))
                        if r.get("known"):
                            print("    known:", set(r["known"]))
                    if r.get("violation"):
                        violation = r["violation"]
                elif time.time() > deadline + 150:
                    os.killpg(pid, signal.SIGKILL)
            if violation:
                break
    finally:
        for pid, (p, i, path, ts) in running.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.join()
        for f in os.listdir(tmpd):
            os.unlink(os.path.join(tmpd, f))
        os.rmdir(tmpd)
    return finish(prop, m, jobs, sel, results, violation, a.tier, seed, time.time() - t0, partial=a.job is not None)


def finish(prop, m, jobs, sel, results, violation, tier, seed, wall, partial=False):
    tot = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
    crashes = [r["job"] + ": " + r["crash"] for r in results if r.get("crash")]
    incomplete = [r["job"] for r in results if not r.get("complete") and not r.get("crash")]
    functions = sorted({f for r in results for f in r.get("functions", [])})
    known = sorted({k for r in results for k in r.get("known", [])})
    notes = {}
    for r in results:
        for k, v in list(r.get("notes", {}).items()) + list(r.get("harness_errors", {}).items()):
            notes[k] = notes.get(k, 0) + v
    unrep = [u for r in results for u in r.get("unreproduced", [])]
    wit = sum(r.get("witness_ok", 0) for r in results)
    wbad = [b for r in results for b in r.get("witness_bad", [])]
    cov = {
        "states": tot.get("paths", 0),
        "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": wit,
        "samples": [s for r in results for s in ([dict(job=r["job"], **x) for x in r.get("samples", [])][:1])][:12],
        "exhaustive": not incomplete and not crashes and not tot.get("unsupported") and not tot.get("unknown")
                      and not unrep and not notes,
        "explanation": "Symbolic execution of the current source of the listed functions: a state is a completed symbolic "
                       "path (a set of inputs described by its path condition), a transition a branch decision whose "
                       "feasible sides z3 decided; every assertion on every path is either unsat under negation or "
                       "normalises to true. Validated traces are path models re-run on the real code with equal outcome.",
        "jobs": len(results),
        "jobs_incomplete": incomplete,
        "paths_cut_by_assumptions": tot.get("aborted", 0),
        "paths_unsupported": tot.get("unsupported", 0),
        "paths_timed_out": tot.get("timeouts", 0),
        "forks": tot.get("forks", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_sat": tot.get("sat", 0),
        "solver_unsat": tot.get("unsat", 0),
        "solver_unknown": tot.get("unknown", 0),
        "solver_seconds": round(tot.get("solver_s", 0.0), 2),
        "assertions_discharged_by_solver": tot.get("checks_solver", 0),
        "assertions_discharged_by_normal_form": tot.get("checks_folded", 0),
        "assertions_inconclusive": tot.get("checks_unknown", 0),
        "unreproduced_counterexamples": unrep[:10],
        "witness_disagreements": wbad[:10],
        "inconclusive_notes": notes,
        "functions_encoded": functions,
        "bounds": {jobs[i].name: jobs[i].bounds for i in sel if jobs[i].bounds},
        "outside": getattr(m, "OUTSIDE", ""),
    }
    ass = list(getattr(m, "ASSUMPTIONS", []))
    for i in sel:
        for x in jobs[i].assumptions:
            if x not in ass:
                ass.append(x)
    ass.append("Numbers are exact reals in the encoding; every counterexample is re-run in floating point before it is reported.")
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d jobs, %d paths, %d queries (%d unsat, %d unknown), assertions %d by solver + %d by normal form, "
          "%d unsupported, %d witnesses agree, %.1f s" % (
              prop, len(results), tot.get("paths", 0), tot.get("queries", 0), tot.get("unsat", 0), tot.get("unknown", 0),
              tot.get("checks_solver", 0), tot.get("checks_folded", 0), tot.get("unsupported", 0), wit, wall))
    if incomplete:
        print("incomplete (budget): " + ", ".join(incomplete[:12]))
    if notes:
        print("inconclusive: " + "; ".join("%s x%d" % kv for kv in list(notes.items())[:8]))
    if unrep:
        print("counterexamples not reproduced on the real code (inconclusive): " + "; ".join(unrep[:4]))
    if wbad:
        print("witness disagreements: " + "; ".join(wbad[:4]))
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s_%s.json" % (prop, re.sub(r"\W+", "_", violation["job"])))
        with open(path, "w") as f:
            json.dump([violation], f, indent=1)
        print("counterexample: job %s, inputs %s, choices %s: %s | on the real code: %s" % (
            violation["job"], violation["inputs"], violation["choices"], violation["msg"],
            violation["replayed"].get("msg", "")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if crashes and not partial:
        print("worker crashes: " + "; ".join(crashes))
    if not (tot.get("checks_solver", 0) + tot.get("checks_folded", 0)):
        print("nothing was decided: error")
        return 2
    if crashes and len(crashes) == len(results):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
