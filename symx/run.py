"""check driver:  run.py <property> [--tier quick|thorough] [--case name] [--v]"""

import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import env  # noqa: E402

PY = sys.executable
NCPU = min(8, os.cpu_count() or 8)


def ext_stale():
    """compiled extensions that do not match the current sources"""
    import glob

    bad = []
    for d, ext in (("ot/lp", "ot.lp.emd_wrap"), ("ot/partial", "ot.partial.partial_cython")):
        st = os.path.join(env.REPO, "build/vp-stamps", ext)
        so = glob.glob(os.path.join(env.REPO, ext.replace(".", "/") + ".*.so"))
        h = hashlib.sha256(sys.version.encode())
        cwd = os.getcwd()
        try:
            os.chdir(env.REPO)
            files = ["setup.py", *glob.glob("ot/helpers/*.py")]
            for kind in ("*.pyx", "*.pxd", "*.h", "*.hpp", "*.cpp", "*.c"):
                files += glob.glob("%s/%s" % (d, kind))
            for path in sorted(files):
                if os.path.exists(path.rsplit(".", 1)[0] + ".pyx") and path.endswith(".cpp"):
                    continue
                with open(path, "rb") as f:
                    h.update(path.encode() + b"\0" + hashlib.sha256(f.read()).digest())
        finally:
            os.chdir(cwd)
        if not so or not os.path.exists(st) or open(st).read() != h.hexdigest():
            bad.append(ext)
    return bad


def build_ext_cmd(scratch, exts):
    """shell script that compiles the real extensions of the current tree"""
    import sysconfig
    import numpy as np

    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + np.get_include()]
    cmds = []
    for ext in exts:
        pyx = os.path.join(env.REPO, ext.replace(".", "/") + ".pyx")
        d = os.path.join(scratch, "b_" + ext.split(".")[-1])
        os.makedirs(d, exist_ok=True)
        name = ext.split(".")[-1]
        cpp = os.path.join(d, name + ".cpp")
        srcs = [cpp]
        if ext.endswith("emd_wrap"):
            srcs.append(os.path.join(env.REPO, "ot/lp/EMD_wrapper.cpp"))
        flags = ["-O2", "-fPIC", "-shared", "-w", "-fopenmp", "-DNPY_NO_DEPRECATED_API=0"]
        cmds.append(
            "(%s -m cython --cplus -X language_level=3 --module-name %s -o %s %s -I %s && g++ %s %s -I %s %s -o %s) || exit 1"
            % (PY, ext, cpp, pyx, env.REPO, " ".join(flags), " ".join(inc), os.path.dirname(pyx), " ".join(srcs), os.path.join(scratch, "ext", name + ".so"))
        )
    os.makedirs(os.path.join(scratch, "ext"), exist_ok=True)
    return " & ".join("{ %s; }" % c for c in cmds) + " & wait"


def run_replays(jobs, scratch, extdir, tag, timeout=120):
    """-> list of results aligned with jobs"""
    res = [None] * len(jobs)
    start = 0
    n = 0
    while start < len(jobs):
        a = os.path.join(scratch, "rp_%s_%d.json" % (tag, n))
        b = os.path.join(scratch, "rp_%s_%d.out" % (tag, n))
        n += 1
        json.dump(dict(extdir=extdir, jobs=jobs[start:]), open(a, "w"))
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1")
        p = subprocess.Popen([PY, os.path.join(ROOT, "symx", "replay.py"), a, b], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ROOT)
        try:
            so, se = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            hung, se = True, ""
        out = None
        for f in (b, b + ".tmp"):
            if os.path.exists(f):
                try:
                    out = json.load(open(f))
                    break
                except Exception:
                    pass
        out = out or []
        for i, r in enumerate(out):
            res[start + i] = r
        if os.path.exists(b):
            break
        at = start + len(out)
        if at >= len(jobs):
            break
        if not os.path.exists(b + ".at"):
            # the real package does not even load
            for i in range(start, len(jobs)):
                res[i] = dict(status="engine", label=(se or "")[-800:])
            break
        if hung:
            res[at] = dict(status="fail", label="does not terminate (stopped after %d s)" % timeout)
        else:
            res[at] = dict(status="fail", label="process died (exit %s)" % p.returncode, tb=(se or "")[-500:])
        start = at + 1
    return res


def known_findings():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith("#") and not ln.startswith("fixed:"):
                out.append(json.loads(ln))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--v", action="store_true")
    ap.add_argument("--noreplay", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="symx_")
    try:
        rc = check(prop, a, scratch, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(prop, a, scratch, seed, t0):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    mod_path = "props." + prop.lower()
    stale = ext_stale()
    buildp = None
    extdir = None
    if stale:
        buildp = subprocess.Popen(["bash", "-c", build_ext_cmd(scratch, stale)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        extdir = os.path.join(scratch, "ext")

    # symbolic environment
    env._quiet()
    symso = None
    src = open(os.path.join(ROOT, "props", prop.lower() + ".py")).read()
    needs_cpp = "NEEDS_CPP = True" in src
    engine_err = None
    try:
        from symx import cppsym

        if needs_cpp:
            symso = cppsym.build(env.REPO, scratch)
        env.load_symbolic(symso)
    except Exception as e:
        engine_err = "symbolic environment: %s: %s" % (type(e).__name__, str(e)[:1500])
    mod = importlib.import_module(mod_path)
    cases = [c for c in mod.CASES if c.tier == "quick" or a.tier == "thorough"]
    if a.case:
        cases = [c for c in mod.CASES if a.case in c.name]
    base = a.budget or (getattr(mod, "QUICK_WALL", 25) if a.tier == "quick" else getattr(mod, "THOROUGH_WALL", 240))
    results = []
    if engine_err is None:
        results = pool(cases, base, scratch, seed, a)
    else:
        print("INCONCLUSIVE property=%s %s" % (prop, engine_err))
    if buildp is not None:
        _, err = buildp.communicate()
        if buildp.returncode:
            print("note: real extensions could not be rebuilt: %s" % (err or "")[-400:])
            extdir = None
    return report(prop, mod, cases, results, a, scratch, extdir, seed, t0, engine_err)


def pool(cases, base, scratch, seed, a):
    from symx import worker

    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    running = {}
    results = [None] * len(cases)
    for c in cases:
        c.opts["known_labels"] = tuple(l for k in known_findings() if k["property"] == a.prop.upper() and c.name in ([k["case"]] if isinstance(k.get("case"), str) else k.get("case") or []) for l in ([k["label"]] if isinstance(k["label"], str) else k["label"]))
    todo = list(order)
    while todo or running:
        while todo and len(running) < NCPU:
            i = todo.pop(0)
            c = cases[i]
            wall = c.wall if (c.wall and a.tier == "quick" and not a.budget) else base
            dl = time.time() + wall
            path = os.path.join(scratch, "case_%d.json" % i)
            pid = os.fork()
            if pid == 0:
                try:
                    if not a.v:
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    import resource

                    lim = 6 << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    worker.child(c, dl, path, seed)
                finally:
                    os._exit(0)
            running[pid] = (i, dl, path)
        time.sleep(0.02)
        for pid in list(running):
            i, dl, path = running[pid]
            done, _ = os.waitpid(pid, os.WNOHANG)
            if done:
                try:
                    results[i] = json.load(open(path))
                except Exception:
                    results[i] = dict(name=cases[i].name, crash="worker died")
                del running[pid]
            elif time.time() > dl + 20:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                results[i] = dict(name=cases[i].name, crash="worker overran its budget", killed=True)
                del running[pid]
    return results


def report(prop, mod, cases, results, a, scratch, extdir, seed, t0, engine_err):
    # replays: counterexamples first, then path witnesses
    jobs, meta = [], []
    for c, r in zip(cases, results):
        if r is None or "crash" in r:
            continue
        for x in r.get("cex", []):
            for w in x["witnesses"]:
                jobs.append(dict(prop=prop, case=c.name, values=w, label=x["label"], tol=5e-7))
                meta.append(("cex", c.name, x))
        if r.get("hang"):
            jobs.append(dict(prop=prop, case=c.name, values=r["hang"], label="hang", tol=1e-5))
            meta.append(("hang", c.name, None))
        for w in r["witnesses"]:
            jobs.append(dict(prop=prop, case=c.name, values=w["values"], label="path witness", tol=getattr(mod, "WITNESS_TOL", 1e-5)))
            meta.append(("wit", c.name, w))
    if engine_err is not None:
        for c in cases:
            pass
    rep = run_replays(jobs, scratch, extdir, prop) if jobs and not a.noreplay else []
    known = [k for k in known_findings() if k["property"] == prop]
    viol, seen_known, nonrepro, validated, skipped, harness_err = [], {}, [], 0, 0, []
    confirmed = set()
    for job, m, r in zip(jobs, meta, rep):
        if r is None:
            continue
        kind, cname, x = m
        if r["status"] == "fail":
            ks = [(l, match_known(known, cname, l, job["values"])) for l in r.get("all") or [r["label"]]]
            new = [l for l, k in ks if k is None]
            if new:
                r["label"] = new[0]
            k = None if new else ks[0][1]
            if k is not None:
                seen_known[k["id"]] = k
            else:
                viol.append((kind, cname, job, r))
            if kind == "cex":
                confirmed.add((cname, x["label"]))
        elif r["status"] == "ok":
            validated += 1
        elif r["status"] == "skip":
            skipped += 1
        else:
            harness_err.append((cname, r))
    for job, m, r in zip(jobs, meta, rep):
        if m[0] == "cex" and (m[1], m[2]["label"]) not in confirmed:
            if not any(n["case"] == m[1] and n["label"] == m[2]["label"] for n in nonrepro):
                nonrepro.append(dict(case=m[1], label=m[2]["label"], values=job["values"], replay=r))
    # evidence
    tot = {}
    funcs, cpp, incon, errs, bounds = set(), {}, [], [], []
    complete = 0
    percase = []
    for c, r in zip(cases, results):
        if r is None or "crash" in r:
            errs.append("%s: %s" % (c.name, (r or {}).get("crash", "not run")))
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r["funcs"])
        for k, v in r["cpp"].items():
            cpp[k] = cpp.get(k, 0) + v
        complete += bool(r["complete"])
        incon += ["%s: %s" % (c.name, "%s (%s)" % tuple(x)) for x in r["inconclusive"]]
        errs += ["%s: %s" % (c.name, e) for e in r["errors"]]
        if not r["stats"]["obligations"]:
            incon.append("%s: no assertion reached" % c.name)
        percase.append(
            dict(case=c.name, bounds=c.bounds, all_paths=r["complete"], stopped=r["stop"], paths=r["stats"]["paths"],
                 obligations=r["stats"]["obligations"], discharged=r["stats"]["discharged"], wall_s=r["wall"])
        )
    samples = [dict(case=j["case"], input=j["values"], outcome=(r or {}).get("status")) for j, m, r in list(zip(jobs, meta, rep))[:6]]
    if not samples:
        samples = [dict(case=c.name, note="no replayed witness") for c in cases[:1]]
    ev = dict(
        property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)), transitions=int(tot.get("branches", 0)),
            traces_validated_against_impl=validated, samples=samples,
            symbolic_paths=int(tot.get("paths", 0)), infeasible_paths=int(tot.get("aborted", 0)), branch_decisions=int(tot.get("branches", 0)),
            obligations=int(tot.get("obligations", 0)), discharged=int(tot.get("discharged", 0)),
            discharged_by_normal_form=int(tot.get("trivial", 0)),
            solver_queries=int(tot.get("queries", 0)), solver_unsat=int(tot.get("unsat", 0)), solver_sat=int(tot.get("sat", 0)), solver_unknown=int(tot.get("unknown", 0)), solver_s=round(tot.get("solver_s", 0.0), 2),
            cases=len(cases), cases_with_all_paths_explored=complete, per_case=percase,
            functions_encoded=sorted(funcs), cpp_entry_calls=cpp,
            inconclusive=incon[:40], n_inconclusive=len(incon), engine_errors=[e[:400] for e in errs[:12]], n_engine_errors=len(errs),
            nonreproduced_counterexamples=len(nonrepro), exhaustive=bool(complete == len(cases) and not incon and not errs),
            bounds=getattr(mod, "BOUNDS", ""), stubs=getattr(mod, "STUBS", "see DESIGN.md"),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", ["real arithmetic in place of IEEE doubles; tolerance 1e-6", "literals below 1e-11 treated as 0"])),
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d cases, %d fully explored, %d paths, %d obligations (%d discharged), %d queries, %.1fs solver, %d witness replays ok, %d skipped, wall %.1fs" % (
        prop, len(cases), complete, tot.get("paths", 0), tot.get("obligations", 0), tot.get("discharged", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated, skipped, time.time() - t0))
    if a.v or a.case:
        for p in percase:
            print("   ", p)
    for x in incon[:12]:
        print("INCONCLUSIVE", x[:300])
    for e in errs[:8]:
        print("ENGINE", e[:1500] if a.v else e[:300].replace("\n", " | "))
    for n in nonrepro[:5]:
        print("NOT-REPRODUCED", n["case"], n["label"], json.dumps(n["replay"])[:300] if not a.v else json.dumps(n, default=str)[:3000])
    for cn, r in harness_err[:5]:
        print("HARNESS", cn, json.dumps(r)[:1500])
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        rdir = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for kind, cname, job, r in viol:
            key = (cname, r["label"].split(":")[0][:60])
            if key in shown and len(shown) > 0:
                continue
            shown.add(key)
            h = hashlib.sha256(json.dumps(job, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s_%s.json" % (prop, h))
            json.dump(dict(prop=prop, case=cname, values=job["values"], tol=job["tol"], result=r, kind=kind,
                           how="%s %s/symx/replay.py %s" % (PY, ROOT, path)), open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   case %s [%s]: %s" % (cname, kind, r["label"][:200]))
            if len(shown) >= 6:
                break
        return 1
    decided = tot.get("discharged", 0)
    if not decided and not seen_known:
        print("INCONCLUSIVE property=%s: nothing could be decided on this tree" % prop)
    return 0


def match_known(known, cname, label, values):
    for k in known:
        cs, ls = k.get("case"), k.get("label")
        if cs and cname not in ([cs] if isinstance(cs, str) else cs):
            continue
        if ls and not label.startswith(ls if isinstance(ls, str) else tuple(ls)):
            continue
        return k
    return None


if __name__ == "__main__":
    main()
