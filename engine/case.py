"""Cases, obligations and the run of one property."""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

from . import terms as T
from . import tensor as S
from . import kops
from .prover import Prover, Hyp, STATS, Result


class CaseTimeout(Exception):
    pass


class Ctx:
    """what a contract case sees"""

    def __init__(self, case):
        self.case = case
        self.results = []
        self.hyps = []
        self.functions = set()
        self.vac_done = False
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.timeout = 10.0 if self.tier == "quick" else 40.0
        self.axioms = []
        self.choose = None
        self.vac_goal = None  # a small goal that names the hypotheses to check

    def hyp(self, name, build, trig=None, elim=False):
        self.hyps.append(Hyp(name, build, trig, elim))

    def prove(self, name, goal, hints=(), extra=(), timeout=None):
        pv = Prover(self.hyps, timeout=timeout or self.timeout, axioms=self.axioms)
        pv.choose = self.choose
        t0 = time.time()
        try:
            r = pv.prove(goal, extra=extra, hints=hints)
        except S.Unsupported as e:
            r = Result("unknown", f"unsupported: {e}")
        if not self.vac_done and self.hyps:
            c = pv.consistent(self.vac_goal if self.vac_goal is not None else goal)
            self.vac_done = True
            if c == "unsat":
                self.results.append(
                    {"ob": name + " [precondition is satisfiable]", "status": "vacuous", "how": c, "t": 0.0}
                )
        self.results.append(
            {
                "ob": name,
                "status": r.status,
                "how": r.how,
                "t": round(time.time() - t0, 3),
                "detail": r.detail if not r.ok else None,
                "model": r.model if not r.ok else None,
            }
        )
        return r.ok

    def forall(self, name, dims, goal, hints=None, extra=None, timeout=None):
        """goal(idx) for every index of dims (concrete atoms enumerated, symbolic ones skolemised)"""
        ok = True
        n = 0
        for idx in S.all_indices(dims):
            n += 1
            g = goal(idx)
            hs = hints(idx) if hints else ()
            ex = extra(idx) if extra else ()
            ok = self.prove(f"{name}{_fmt(idx)}", g, hs, ex, timeout) and ok
        if n == 0:
            self.fail(name, "no index")
        return ok

    def isolate(self, name, atom, f, i):
        """lemma: sum_m f(m) >= f(i) when every f(m) >= 0 (the side condition is an obligation); returns the fact"""
        from . import kops as K

        m = T.ivar(atom)
        self.prove(f"lemma {name}: summand non-negative", T.ge(f((m,)), T.ZERO))
        return T.ge(K._sum_atoms((atom,), f), f((i,)))

    def fact(self, name, ok, detail=None):
        """a decided side obligation (shapes, frames, names)"""
        self.results.append(
            {"ob": name, "status": "proved" if ok else "refuted", "how": "evaluated", "t": 0.0, "detail": None if ok else detail}
        )
        return ok

    def fail(self, name, why):
        self.results.append({"ob": name, "status": "refuted", "how": why, "t": 0.0})

    def same_dims(self, name, t, dims):
        want = tuple(S.dsize(d if isinstance(d, tuple) else (d,)) for d in dims)
        return self.fact(name, tuple(t.shape) == want, f"shape {t.shape} expected {want}")


def _fmt(idx):
    s = []
    for t in idx:
        for i in t:
            s.append(str(i.args[0]) if i.op == "ic" else ("+" + str(i.args[0]) if i.op == "inj" else "*"))
    return "[" + ",".join(s) + "]"


def _alarm(*a):
    raise CaseTimeout()


def run_case(args):
    modname, idx, limit, deadline, scale = args
    from . import prover

    prover.SCALE = scale
    limit = max(5, min(limit, deadline - time.time()))
    import importlib

    from . import cover
    from .load import load

    load()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(modname)
    case = mod.cases()[idx]
    S.reset_dims()
    kops.ConvGeom.reset()
    ctx = Ctx(case)
    for k in STATS:
        STATS[k] = 0 if isinstance(STATS[k], int) else 0.0
    t0 = time.time()
    from . import modular

    modular.OFF = False
    _attempt(ctx, case, limit)
    used = set(modular.USED)
    if any(r["status"] != "proved" for r in ctx.results) and modular.PATCHED:
        # a caller refuted against a callee contract may still be right with the callee's body: execute through
        S.reset_dims()
        kops.ConvGeom.reset()
        ctx2 = Ctx(case)
        modular.OFF = True
        _attempt(ctx2, case, limit)
        modular.OFF = False
        if all(r["status"] == "proved" for r in ctx2.results):
            ctx, used = ctx2, set(modular.USED)
    return {
        "case": case["name"],
        "functions": sorted(set(case.get("functions", ())) | ctx.functions),
        "contracts": sorted(used),
        "results": ctx.results,
        "stats": dict(STATS),
        "t": round(time.time() - t0, 2),
        "lines": cover.take(),
    }


def _attempt(ctx, case, limit):
    from . import modular

    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        from .stubkeras import FUNC

        FUNC.reset()
        modular.reset(ctx)
        case["run"](ctx)
        if not ctx.results:
            ctx.fail("obligations generated", "zero obligations")
    except CaseTimeout:
        ctx.results.append({"ob": "case completes", "status": "unknown", "how": f"time limit {limit}s", "t": limit})
    except S.Unsupported as e:
        ctx.results.append(
            {"ob": "case executes", "status": "unknown", "how": f"unsupported: {e}", "t": 0, "detail": traceback.format_exc()[-1500:]}
        )
    except Exception as e:
        ctx.results.append(
            {"ob": "case executes", "status": "refuted", "how": f"exception {type(e).__name__}: {e}", "t": 0, "detail": traceback.format_exc()[-2500:]}
        )
    finally:
        signal.alarm(0)
        try:
            modular.restore()
        except Exception:
            pass


def run_module(modname, jobs=8, limit=300, total=None):
    import importlib

    from .load import load

    load()
    from . import cover
    from .load import SRC

    cover.start(SRC)
    mod = importlib.import_module(modname)
    n = len(mod.cases())
    out = []
    t0 = time.time()
    # fork so that the loaded modules are shared
    import multiprocessing as mp

    def wave(ids, jobs, limit, deadline, scale):
        out = {}
        with ProcessPoolExecutor(max_workers=jobs, mp_context=mp.get_context("fork")) as ex:
            futs = {i: ex.submit(run_case, (modname, i, limit, deadline, scale)) for i in ids}
            for i, f in futs.items():
                try:
                    out[i] = f.result()
                except Exception as e:
                    out[i] = {
                        "case": mod.cases()[i]["name"],
                        "functions": [],
                        "contracts": [],
                        "results": [{"ob": "case process", "status": "unknown", "how": f"worker died: {e}", "t": 0}],
                        "stats": {},
                        "t": 0,
                    }
        return out

    out = wave(range(n), jobs, limit, t0 + (total or 2 * limit), 1.0)
    # a few cases failed: once more, alone on the machine and with more time, so that a verdict does not depend on its load
    again = [i for i in out if any(r["status"] != "proved" for r in out[i]["results"])]
    if 0 < len(again) <= 8 and not os.environ.get("VERIF_ONCE"):
        for i, c in wave(again, 4, min(limit, 100), time.time() + 200, 4.0).items():
            if all(r["status"] == "proved" for r in c["results"]):
                out[i] = c
    return [out[i] for i in range(n)]
