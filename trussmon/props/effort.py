"""C24: every run ends within bounded effort, counted in evaluations of the
stiffness, and reports only finite numbers."""
import contextlib
import io

import numpy as np

from .. import faults
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from .faults import HARD, hopeless, mechanism
from .runs import brief


def bound(v):
    """Upper bound of the stiffness evaluations of a run, from the settings."""
    incs = v.setting("incs")
    n = sum(incs[: v.nsteps]) if isinstance(incs, (list, tuple)) else incs * v.nsteps
    cycl, nfev = max(1, int(v.setting("cycl"))), int(v.setting("nfev"))
    red = 0
    if v.setting("stepcontrol"):
        red = np.log(float(v.setting("maxfac")) / float(v.setting("minfac"))) / np.log(
            float(v.setting("reduce")))
        red = int(np.ceil(red)) + 2
    return n, n * nfev * cycl * (red + 1)


class C24(Prop):
    id = "C24"
    n = {"quick": 580, "thorough": 9000}
    floors = {"runs": 300, "failed": 100, "raised": 20, "faults_injected": 1000, "reductions_seen": 20,
              "alternating": 50}
    rule = ("mechanisms, overloads, unreachable tolerances, random tangents, non-finite values, systems in which the "
            "components break their limits in turns, all control and "
            "adaptive settings; effort counted per run at the public stiffness callback; non-trivial: a failed or "
            "raised run, distinct by evaluations and results")
    case_timeout = 240
    cpu_timeout = 20
    assumptions = ["reduction factor above one, positive minimum factor, at least one recycle and two iterations"]

    def case(self, rng, i, tier):
        kind = ["permanent", "fault", "hopeless", "both", "mechanism", "gfault", "alternating"][i % 7]
        if kind == "alternating":
            n = int(rng.integers(2, 5))
            return dict(kind=kind, n=n, seed=int(rng.integers(2**31)), good=int(rng.integers(0, 4)),
                        settings=dict(incs=int(rng.integers(1, 6)), dxmax=float(rng.choice([0.02, 0.5])), nfev=int(rng.integers(2, 9)),
                                      cycl=int(rng.integers(1, 9)), dxtol=float(rng.choice([1.000001, 1.25])),
                                      j_pre=bool(rng.random() < 0.3), stepcontrol=bool(rng.random() < 0.3),
                                      minfac=float(rng.choice([1e-2, 1.0])), reduce=4.0))
        if kind == "mechanism":
            spec, plan = mechanism(rng), []
        else:
            spec = S.random_spec(rng, nsteps=int(rng.choice([1, 1, 2])), incs=int(rng.integers(3, 10)))
            incs = spec["settings"]["incs"]
            n = 4 * (sum(incs) if isinstance(incs, list) else incs)
            if kind in ("hopeless", "both"):
                hopeless(rng, spec)
            plan = []
            if kind in ("fault", "both"):
                plan = faults.random_plan(rng, n, kinds=HARD[:7])
            elif kind == "permanent":
                plan = faults.random_plan(rng, n, kinds=HARD[:7], windows=1, long=True)
            elif kind == "gfault":
                plan = faults.random_plan(rng, 2 * n, kinds=HARD[7:], windows=1, long=rng.random() < 0.5)
        s = spec["settings"]
        if rng.random() < 0.5:
            s["stepcontrol"] = True
            s["reduce"] = float(rng.choice([1.2, 2, 8, 50]))
            s["minfac"] = float(rng.choice([1e-6, 1e-3, 0.5, 1.0]))
            s["maxfac"] = float(rng.choice([1.0, 2, 10]))
            s["increase"] = float(rng.choice([0.0, 0.5, 3.0]))
        if rng.random() < 0.5:
            s["cycl"] = int(rng.integers(1, 9))
        if rng.random() < 0.5:
            s["nfev"] = int(rng.integers(2, 10))
        return dict(kind=kind, spec=spec, faults=plan)

    def alternating(self, case, ctx):
        """A system whose response at the start point of an attempt is another one in each
        attempt, so that always another component breaks its limit."""
        from trusspy.solvers import pathfollow

        c, s, n = ctx.counts, case["settings"], case["n"]
        rng = np.random.default_rng(case["seed"])
        red = 2 + int(np.ceil(np.log(10 / s["minfac"]) / np.log(s["reduce"]))) if s["stepcontrol"] else 0
        lim = (s["incs"] + 1) * s["nfev"] * s["cycl"] * (red + 1)
        st = dict(last=np.zeros(n), comp=0, D=np.ones(n), n=0, attempts=0)

        class Bag:
            pass

        def dgdx(U, analysis=None):
            st["n"] += 1
            T.progress()
            if st["n"] > lim:
                raise T.EffortExceeded(st["n"])
            if np.array_equal(U, st["last"]):  # a new attempt
                st["attempts"] += 1
                st["comp"] = (st["comp"] + 1 + int(rng.integers(n - 1))) % n
                flex = np.full(n, 1.3)
                flex[st["comp"]] = 5.0
                st["D"] = np.full(n, 1.0) if st["attempts"] <= case["good"] else 1 / flex
            return np.diag(st["D"])

        def g(V, V0, analysis=None, statev_write=False):
            if statev_write:
                st["last"] = np.array(V[:-1], copy=True)
                st["base"] = np.array(V, copy=True)
            b = st.get("base", np.zeros(n + 1))
            return (V[-1] - b[-1]) - st["D"] * (V[:-1] - b[:-1])

        a = Bag()
        a.f0red = np.ones((n, 1))
        c["runs"] += 1
        c["alternating"] += 1
        what = f"{n} components that take over the control in turns, {s}"
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                X, _ = pathfollow(g, dgdx, np.zeros(n), a, **s)
        except T.EffortExceeded:
            ctx.viol("unbounded", f"{what}: more than {lim} evaluations for at most {s['incs']} increments")
            return
        X = np.atleast_2d(X)
        c["stiffness_evaluations"] += st["n"]
        if not s["stepcontrol"] and st["n"] > len(X) * s["nfev"] * s["cycl"]:
            ctx.viol("effort", f"{what}: {st['n']} evaluations, {len(X) - 1} increments")
        elif "ERROR" in out.getvalue():
            c["failed"] += 1
            ctx.nontrivial(f"alternating {n} {st['n']} {case['seed']}")
            ctx.sample = dict(kind="alternating", settings=s, evaluations=st["n"], increments=len(X) - 1)

    def run(self, case, ctx):
        if case["kind"] == "alternating":
            return self.alternating(case, ctx)
        spec, c = case["spec"], ctx.counts
        v = S.View(spec)
        n, lim = bound(v)

        def prepare(M):
            M.mon_budget = lim
            faults.attach(M, case["faults"])

        t = T.run_spec(spec, prepare=prepare)
        c["runs"] += 1
        c["faults_injected"] += t.faults
        c["stiffness_evaluations"] += t.nK
        failed = T.failed_increment(t)
        c["failed"] += failed
        c["raised"] += t.status == "raised"
        if t.status == "effort":
            ctx.viol("unbounded", f"more than {lim} stiffness evaluations for at most {n} increments "
                     f"(cycl {v.setting('cycl')}, nfev {v.setting('nfev')})")
            return
        nfev, cycl = int(v.setting("nfev")), max(1, int(v.setting("cycl")))
        if not v.setting("stepcontrol"):
            # sharp bound without reductions: `cycl` attempts each (the predictor is the
            # first iteration of the first one), at most one failed increment per step
            ended = len(t.R) - 1 + v.nsteps
            c["sharp_bounds"] += 1
            if t.nK > min(n, ended if t.status == "ok" else n) * nfev * cycl:
                ctx.viol("effort", f"{t.nK} stiffness evaluations for {ended} increments with at most {cycl} "
                         f"attempts of {nfev} iterations")
        if t.status == "ok":
            for i, r in enumerate(t.R):
                for k in ("U", "lpf", "r", "g", "stretch", "element_force", "element_stress", "state_v", "Kred"):
                    if r[k] is not None and not case["faults"] and not np.all(np.isfinite(r[k])):
                        ctx.viol("not-finite", f"result {i} of a completed run: {k} holds non-finite numbers")
                        return
                    if r[k] is not None and k in ("U", "lpf", "r", "element_force", "state_v") and not np.all(
                            np.isfinite(r[k])):
                        ctx.viol("not-finite", f"result {i} of a completed run: {k} holds non-finite numbers")
                        return
            if len(t.R) - 1 > n:
                ctx.viol("too-many", f"{len(t.R) - 1} increments reported, at most {n} asked for")
        if v.setting("stepcontrol"):
            f = [float(r["dVmax"][0]) for r in t.R[1:] if r["dVmax"] is not None]
            c["reductions_seen"] += sum(b < a for a, b in zip(f, f[1:]))
        if failed or t.status == "raised":
            ctx.nontrivial(f"{case['kind']} {t.nK} {T.trace_hash(t.R)}")
            ctx.sample = dict(kind=case["kind"], spec=brief(spec), faults=case["faults"], bound=lim,
                              stiffness_evaluations=t.nK, outcome=t.exc or "failure reported",
                              increments=len(t.R) - 1)


PROPS = [C24()]
