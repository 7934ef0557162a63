"""
python -m symx.replay RECORDS.json [OUT.json]
Runs recorded inputs of harness jobs against the real modules of /repo/src (floats, real numpy).
Without OUT: prints outcomes, exit 1 if one violates its property.
"""
import json
import os
import sys
import traceback
from fractions import Fraction as Fr


def run(rec):
    from . import env as envm
    from .runner import load_jobs, classify, VERIF
    m, jobs = load_jobs(rec["property"])
    job = [j for j in jobs if j.name == rec["job"]][0]
    e = envm.RealEnv({k: Fr(v) for k, v in rec["inputs"].items()}, rec["choices"])
    hdir = os.path.realpath(os.path.join(VERIF, "harness"))
    if job.stubs and hasattr(job.stubs, "real"):
        job.stubs.real(e)
    so = sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        job.fn(e, **job.params)
        out = {"outcome": "ok", "msg": ""}
    except envm.ReplayAssume:
        out = {"outcome": "assume", "msg": "assumption not met"}
    except envm.ReplayViolation as x:
        out = {"outcome": "violation", "msg": x.msg}
    except envm.HarnessNote as x:
        out = {"outcome": "note", "msg": str(x)}
    except Exception as x:
        where = classify(x.__traceback__, os.path.realpath(envm.REPO_SRC), hdir, x)
        tb = traceback.extract_tb(x.__traceback__)
        out = {"outcome": "exception" if where == "repo" else "harness_error",
               "msg": "%s: %s (%s)" % (type(x).__name__, str(x)[:200],
                                       ", ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))}
    finally:
        sys.stdout = so
    out["observed"] = e.observed
    out["checks"] = e.nchecks
    return out


def main():
    recs = json.load(open(sys.argv[1]))
    res = []
    for r in recs:
        # modules are re-imported for every record: no state leaks from one to the next
        for k in [k for k in sys.modules if k == "bgem" or k.startswith("bgem.")]:
            del sys.modules[k]
        res.append(run(r))
    if len(sys.argv) > 2:
        with open(sys.argv[2], "w") as f:
            json.dump(res, f)
        return 0
    for r, o in zip(recs, res):
        print(r["job"], r["inputs"], r["choices"], "->", o["outcome"], o["msg"])
    return 1 if any(o["outcome"] in ("violation", "exception", "hang") for o in res) else 0


if __name__ == "__main__":
    sys.exit(main())
