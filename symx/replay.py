"""Replays solver-produced inputs on the real code with real numpy and the real
compiled extensions.  Reads jobs from argv[1], one process for all of them:
  {"extdir":…, "jobs":[{"prop","case","values","tol"}]}; writes argv[2]."""

import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def run_job(ot, job, cases):
    from symx.ctx import ConcCtx, Skip

    c = cases[job["case"]]
    ctx = ConcCtx(job["values"], ot, tol=job.get("tol", 5e-7))
    try:
        c.fn(ctx, **c.params)
    except Skip as e:
        return dict(status="skip", why=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any("/ot/" in f.filename for f in tb)
        if ctx.fails and not inside:
            # an assertion had already failed; the rest of the harness relies on it
            return dict(status="fail", label=ctx.fails[0], all=ctx.fails[:10])
        return dict(
            status="fail" if inside else "harness-error",
            label="exception %s: %s" % (type(e).__name__, str(e)[:300]),
            tb=traceback.format_exc()[-1500:],
        )
    finally:
        ctx.close()
    if ctx.fails:
        return dict(status="fail", label=ctx.fails[0], all=ctx.fails[:10])
    return dict(status="ok", checks=ctx.checks)


def load(prop):
    import importlib

    m = importlib.import_module("props." + prop.lower())
    return m


def main():
    spec = json.load(open(sys.argv[1]))
    from symx import env

    ot = env.load_concrete(spec.get("extdir"))
    import numpy as np

    np.seterr(all="ignore")
    out = []
    mods = {}
    for i, job in enumerate(spec["jobs"]):
        p = job["prop"]
        if p not in mods:
            mods[p] = {c.name: c for c in load(p).CASES}
        # progress mark, so that a hang can be attributed
        with open(sys.argv[2] + ".at", "w") as f:
            f.write(str(i))
        np.random.seed(0)
        out.append(run_job(ot, job, mods[p]))
        with open(sys.argv[2] + ".tmp", "w") as f:
            json.dump(out, f, default=str)
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(out, f, default=str)
    os.rename(sys.argv[2] + ".tmp", sys.argv[2])


if __name__ == "__main__":
    if len(sys.argv) == 2:
        # a replay file of a reported violation
        job = json.load(open(sys.argv[1]))
        from symx import env

        ot = env.load_concrete(None)
        r = run_job(ot, job, {c.name: c for c in load(job["prop"]).CASES})
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] == "fail" else 0)
    main()
