"""Runs one symbolic case in a forked child."""

import json
import os
import signal
import sys
import time
import traceback


class Case:
    def __init__(self, name, fn, tier="quick", weight=1.0, wall=None, bounds="", **params):
        self.name, self.fn, self.tier, self.weight = name, fn, tier, weight
        self.wall = wall
        self.bounds = bounds
        self.opts = {k[4:]: params.pop(k) for k in list(params) if k.startswith("opt_")}
        self.params = params


def run_case(case, deadline, seed=1):
    """-> result dict (symbolic exploration of one case)"""
    from . import env
    from .ctx import SymCtx, unpatch
    from .explore import Budget, Explorer

    import ot

    opts = dict(eps0=1e-11, qtimeout=8000)
    opts.update(case.opts)
    opts["deadline"] = deadline
    ex = Explorer(opts)
    funcs = {}
    wit = []
    state = {"first": True}
    repo = env.REPO + "/ot/"

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(repo):
                funcs[f[len(repo):] + ":" + frame.f_code.co_qualname] = 1

    def harness():
        ex.stubs = []
        if state["first"]:
            sys.setprofile(prof)
        try:
            case.fn(SymCtx(ex, ot), **case.params)
        finally:
            sys.setprofile(None)
            state["first"] = False
            unpatch(ex.stubs)

    def on_path(e, err):
        # a concrete input of this path, for replay on the real build
        if err is None and e.reached is False:
            state["unreached"] = state.get("unreached", 0) + 1
        k = e.stats["paths"]
        if err is not None or k <= 4 or k in (6, 9, 14, 22, 35, 60, 100, 160, 250, 400, 600, 900):
            try:
                v = e.path_model()
            except (Budget, Exception):
                v = None
            if v is not None and len(wit) < 14:
                wit.append(dict(values=v, err=str(err)[:200] if err is not None else None))

    def onalarm(sig, frm):
        ex.alarm = True
        raise Budget("time")

    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time()))
    t0 = time.time()
    try:
        ex.explore(harness, on_path)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    hang = None
    if not ex.complete and time.time() - getattr(ex, "path_t0", t0) > 0.5 * (time.time() - t0) > 4:
        # one path used most of the budget: its input may make the code loop
        hang = getattr(ex, "last_model_vals", None)
    return dict(
        name=case.name, complete=ex.complete, stop=getattr(ex, "stop_reason", None), stats=ex.stats,
        cex=ex.cex, inconclusive=ex.inconclusive[:20], n_inconclusive=len(ex.inconclusive),
        errors=ex.errors, notes=sorted(ex.notes)[:10], funcs=sorted(funcs), witnesses=wit,
        unreached=state.get("unreached", 0), wall=round(time.time() - t0, 2), hang=hang,
        cpp=env.LIB[0].calls if env.LIB[0] else {},
    )


def child(case, deadline, path, seed):
    try:
        r = run_case(case, deadline, seed)
    except BaseException:
        r = dict(name=case.name, crash=traceback.format_exc()[-3000:])
    with open(path + ".tmp", "w") as f:
        json.dump(r, f, default=str)
    os.rename(path + ".tmp", path)
