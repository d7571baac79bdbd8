"""C26: the adaptive control against a reference automaton fed with the observed attempts."""
import contextlib
import io

import numpy as np

from .. import faults
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from .pathsystems import Bag, system
from .runs import brief


DEFAULTS = dict(dxmax=[0.02, 0.02], j_fixed=False, j_pre=True, incs=20, nfev=8, cycl=4, ftol=1e-8, xtol=1e-8,
                stepcontrol=True, maxfac=10, minfac=1e-6, reduce=8, increase=1, dxtol=1.25)  # as documented


class Unclear(Exception):
    """An observation that cannot be classified: the comparison ends there."""


class LoggedModel(T.MonitoredModel):
    """A model that records the evaluations of its callbacks."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.mon_log = []

    def _note(self, kind, x, y):
        self.mon_log.append((kind, np.array(x, dtype=float, copy=True), np.array(y, dtype=float, copy=True),
                             getattr(self.Analysis, "step", None)))

    def stiffness(self, *a, **k):
        K = super().stiffness(*a, **k)
        self._note("K", a[0] if a else k["Ured"], K)
        return K

    def equilibrium(self, *a, **k):
        g = super().equilibrium(*a, **k)
        if self.mon_depth == 0 and g is not None:
            written = k.get("statev_write", a[4] if len(a) > 4 else False)
            self._note("accept" if written else "g", a[0] if a else k["Ured"], g)
        return g


def dominant(D, d):
    """The component (one-based, signed) with the largest share of its limit."""
    q = np.abs(D / d)
    if not np.isfinite(q).all():
        raise Unclear("not finite")
    o = np.argsort(q)
    if len(q) > 1 and q[o[-2]] > q[o[-1]] * (1 - 1e-7):
        raise Unclear("two largest components")
    return int(np.sign(D[o[-1]])) * (int(o[-1]) + 1), float(q[o[-1]])


class C26(Prop):
    id = "C26"
    n = {"quick": 1600, "thorough": 30000}
    floors = {"runs": 1100, "increments_judged": 12000, "attempts_judged": 14000, "growths": 4000, "reductions": 500,
              "recycles_with_other_control": 200, "pauses_after_reduction": 900, "given_up_as_expected": 100,
              "continued_at_recycle_limit": 60, "at_maximum": 1000, "at_minimum": 20, "model_steps": 200,
              "defaults_compared": 200}
    rule = ("random monotone one-parameter systems of 1-5 variables with disturbed derivatives, with fixed and automatic "
            "control, with and without pre-identification and step control, and random trusses under such disturbances; every attempt is observed through the "
            "callbacks (iterations, last point, converged or not) and fed to a reference automaton that says which "
            "limits and which outcome each following attempt must have; non-trivial: a growth or a reduction")
    assumptions = ["ties between control components and attempts whose norms are close to the tolerances end the "
                   "comparison of a run"]

    def case(self, rng, i, tier):
        if i % 5 == 4:
            return self.model_case(rng)
        n = int(rng.integers(1, 6))
        kind = str(rng.choice(["linear", "hardening", "sinh", "coupled"]))
        B = rng.normal(size=(n, n))
        A = B @ B.T / n + np.eye(n)
        p = dict(kind=kind, n=n, eta=0.0, A=A.tolist(), c=(rng.uniform(0.05, 0.6, n) * rng.choice([1, 1, 10])).tolist(),
                 U0=[0.0] * n, ab=[1.0, 2.0], q=0.1)
        f0 = (rng.normal(size=n) + 0.5).tolist()
        f0[int(rng.integers(n))] += 1.0
        s = dict(incs=int(rng.choice([rng.integers(4, 30), rng.integers(30, 70)], p=[0.93, 0.07])), dxmax=[float(x) for x in 10 ** rng.uniform(-2, -0.5, n + 1)],
                 nfev=int(rng.choice([5, 6, 8, 12])), cycl=int(rng.integers(2, 8)),
                 dxtol=float(rng.choice([1.000001, 1.25, 1.5, 3.0])), stepcontrol=bool(rng.random() < 0.9),
                 ftol=1e-8, xtol=float(rng.choice([1e-8, 1e-6])), maxfac=float(rng.choice([1.0, 1.5, 3, 10, 100])),
                 minfac=float(rng.choice([1.3e-6, 1.7e-3, 0.13, 0.47, 0.71, 0.96])), reduce=float(rng.choice([1.5, 2, 3, 8])),
                 increase=float(rng.choice([0.25, 0.5, 1.0, 2.0])), j_pre=bool(rng.random() < 0.4))
        if rng.random() < 0.5:
            s["j_fixed"] = True
            s["j"] = int(rng.choice([n + 1, n + 1, -(n + 1), int(rng.integers(1, n + 1)), -int(rng.integers(1, n + 1))]))
        elif rng.random() < 0.3:
            s["j"] = int(rng.choice([-1, 1])) * int(rng.integers(1, n + 2))
        faults = []
        for _ in range(int(rng.integers(0, 5))):
            a = int(rng.integers(1, 80))
            faults.append([a, a + int(rng.choice([4, 8, 12, 24, 60, 400], p=[.2, .3, .2, .15, .1, .05])),
                           float(rng.choice([0.3, 0.4, 3.0, 6.0, -1.0]))])
        omit = []
        if i % 4 == 0:  # documented defaults, omitted in a second run
            omit = [str(k) for k in rng.permutation(sorted(DEFAULTS))[:int(rng.integers(1, len(DEFAULTS) + 1))]]
            s.update({k: DEFAULTS[k] for k in omit})
        return dict(p=p, f0=f0, settings=s, faults=faults, omit=omit)

    def model_case(self, rng):
        spec = S.random_spec(rng, nsteps=int(rng.choice([1, 1, 2])), stepcontrol=bool(rng.random() < 0.85),
                             mat=str(rng.choice(["el", "el", "mix"])))
        s = spec["settings"]
        s.pop("xlimit", None)
        s["incs"] = int(rng.integers(4, 16))
        if s.get("stepcontrol"):
            s.update(maxfac=float(rng.choice([1.5, 3, 10])), minfac=float(rng.choice([1.3e-6, 1.7e-3, 0.13, 0.47, 0.71])),
                     reduce=float(rng.choice([2, 3, 8])), increase=float(rng.choice([0.25, 0.5, 1.0, 1.7])))
        plan = []
        for _ in range(int(rng.integers(0, 4))):
            a = int(rng.integers(1, 60))
            plan.append([a, a + int(rng.choice([6, 9, 20, 60])), "scale", float(rng.choice([0.3, 3.0, 6.0])), 0])
        return dict(spec=spec, plan=plan)

    def run_model(self, case, ctx):
        spec, c = case["spec"], ctx.counts
        v = S.View(spec)
        t = T.run_spec(spec, cls=LoggedModel, prepare=lambda M: faults.attach(M, case["plan"]))
        if t.status != "ok" or not all(np.isfinite(r["U"]).all() for r in t.R):
            c["model_raised"] += 1
            return
        get, n = v.setting, len(v.dof1)
        start = np.zeros(n)
        for k in range(v.nsteps):
            R = [r for r in t.R[1:] if int(r["step"]) == k + 1]
            X = np.array([np.append(start, 0.0)] + [np.ravel(r["Vred"]) for r in R])
            s = {x: get(x) for x in ("incs", "nfev", "cycl", "dxtol", "stepcontrol", "maxfac", "minfac", "reduce",
                                     "increase", "j_pre", "j_fixed")}
            s.update(dxmax=[get("du")] * n + [get("dlpf")], ftol=10.0 ** -get("ftol"), xtol=10.0 ** -get("xtol"),
                     j=get("j0") or n + 1)
            what = f"step {k + 1} of a model of {v.n} nodes, {s}, disturbances {case['plan']}"
            c["model_steps"] += 1
            try:
                self.judge(ctx, what, X, [None] + [r["dVmax"] for r in R], [e for e in t.model.mon_log if e[3] == k + 1],
                           t.out, v.F[k].ravel()[v.dof1], s, n)
            except Unclear as e:
                c["ended_as_unclear"] += 1
                c[f"unclear: {e}"] += 1
            if ctx.violations:
                return
            start = X[-1, :-1]
        if ctx.sigs:
            ctx.sample = dict(spec=brief(spec), plan=case["plan"], results=len(t.R))

    def follow(self, case, omit=()):
        """One run of the real pathfollow with a log of all evaluations."""
        from trusspy.solvers import pathfollow

        p, f0 = case["p"], np.array(case["f0"], dtype=float)
        r, dr = system(p)
        a = Bag()
        a.f0red = f0.reshape(-1, 1).copy()
        log = []
        calls = [0]

        def g(V, V0, analysis=None, statev_write=False):
            y = V[-1] * f0 - r(V[:-1])
            log.append(("accept" if statev_write else "g", np.array(V, dtype=float, copy=True), y))
            return y

        def dgdx(U, analysis=None):
            calls[0] += 1
            D = dr(U)
            for lo, hi, q in case["faults"]:
                if lo <= calls[0] <= hi:
                    D = D * q
            log.append(("K", np.array(U, dtype=float, copy=True), D.copy()))
            return D

        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            X, snaps = pathfollow(g, dgdx, np.zeros(p["n"]), a, **{k: v for k, v in case["settings"].items() if k not in omit})
        return np.atleast_2d(np.array(X, dtype=float)), snaps, log, out.getvalue(), f0

    @staticmethod
    def attempts(log, X, pre):
        """Per increment: (pre-identification or None, attempts, accepted); an attempt is the list of its
        events after the start."""
        k, cur, inc, first = 0, None, [None, [], False], True
        out = []
        for e in log:
            if e[0] == "K" and np.array_equal(e[1], X[min(k, len(X) - 1)][:-1]):
                if pre and first:
                    inc[0], cur = e, None
                else:
                    while cur and cur[-1][0] == "g" and np.array_equal(cur[-1][1], X[min(k, len(X) - 1)]):
                        cur.pop()  # the residual at the start of the next attempt
                    cur = [e]
                    inc[1].append(cur)
                first = False
                continue
            if e[0] == "K" and cur is None:
                if inc[0] is None:
                    raise Unclear("an attempt that does not start at the last point")
                cur = [e]
                inc[1].append(cur)
                continue
            if cur is not None:
                cur.append(e)
            if e[0] == "accept":
                inc[2] = True
                out.append(inc)
                k, cur, inc, first = k + 1, None, [None, [], False], True
        if inc[1] or inc[0] is not None:
            out.append(inc)
        return out

    def run(self, case, ctx):
        if "spec" in case:
            self.run_model(case, ctx)
            return
        s, c = case["settings"], ctx.counts
        what = f"{case['p']['kind']} system of {case['p']['n']} variables, {s}, disturbances {case['faults']}"
        try:
            X, snaps, log, out, f0 = self.follow(case)
        except Exception as e:
            if isinstance(e, (FloatingPointError, ValueError, np.linalg.LinAlgError, RuntimeError)):
                c["raised"] += 1  # non-finite systems may be refused
                return
            ctx.viol("crash", f"{what}: pathfollow raised {type(e).__name__}: {e}")
            return
        if not np.isfinite(X).all():
            return
        c["runs"] += 1
        if case["omit"]:
            c["defaults_compared"] += 1
            try:
                Y, _, _, out2, _ = self.follow(case, case["omit"])
            except Exception as e:
                ctx.viol("defaults", f"{what}: without the arguments {case['omit']}, which have their documented default "
                         f"values, pathfollow raised {type(e).__name__}: {e}")
                return
            if not np.array_equal(X, Y) or out2 != out:
                ctx.viol("defaults", f"{what}: another path without the arguments {case['omit']}, which have their "
                         "documented default values")
                return
        try:
            self.judge(ctx, what, X, [getattr(a, "dVmax", None) for a in snaps], log, out, f0, s, case["p"]["n"])
        except Unclear as e:
            c["ended_as_unclear"] += 1
            c[f"unclear: {e}"] += 1

    def judge(self, ctx, what, X, limits, log, out, f0, s, n):
        c, fixed = ctx.counts, s.get("j_fixed", False)
        pre = s["j_pre"] and not fixed
        d0 = np.array(s["dxmax"])
        if len(d0) == 2:
            d0 = np.array([d0[0]] * n + [d0[1]])
        lo, hi = min(s["minfac"], 1.0), max(s["maxfac"], 1.0)
        fac, since, j = 1.0, 4, s.get("j", n + 1)
        incs = self.attempts(log, X, pre)
        for k, (_, atts, _) in enumerate(incs):
            for e in (e for att in atts for e in att):
                if e[0] == "g" and np.array_equal(e[1][:-1], X[k][:-1]) and e[1][-1] != X[k][-1]:
                    raise Unclear("the load moves nothing")
        interesting = False
        for k, (p_event, atts, accepted) in enumerate(incs):
            if k >= s["incs"]:
                ctx.viol("too-many", f"{what}: more than {s['incs']} increments are computed")
                return
            x0, z = X[k], 0
            if pre:
                if p_event is None:
                    raise Unclear("no pre-identification seen")
                K = np.zeros((n + 1, n + 1))
                K[:n, :n], K[:n, n], K[n, abs(j) - 1] = p_event[2], -f0, 1.0
                if np.linalg.cond(K) > 1e8:
                    raise Unclear("badly conditioned pre-identification")
                rhs = np.zeros(n + 1)
                rhs[-1] = fac * d0[abs(j) - 1] * np.sign(j)
                j, _ = dominant(np.linalg.solve(K, rhs), fac * d0)
            for m, att in enumerate(atts):
                c["attempts_judged"] += 1
                points = [e for e in att if e[0] == "g"]
                its = sum(e[0] == "K" for e in att)
                if not points:
                    raise Unclear("attempt without a residual")
                allowed = s["nfev"] - (1 if pre and m == 0 else 0)
                last = points[-1][1]
                D = last - x0
                ok = accepted and m == len(atts) - 1
                d = fac * d0
                if its > allowed:
                    ctx.viol("iterations", f"{what}: increment {k + 1}, attempt {m + 1}: {its} iterations, allowed "
                             f"are {allowed}")
                    return
                # converged (accepted or with too large components) or failed?
                if ok:
                    conv = True
                else:
                    # the extended residual includes the equation of the control component
                    aim = x0[abs(j) - 1] + np.sign(j) * d[abs(j) - 1]
                    res = np.linalg.norm(np.append(points[-1][2], last[abs(j) - 1] - aim))
                    before = [e[1] for e in points
                              if np.array_equal(e[1][:-1], [e for e in att if e[0] == "K"][-1][1])]
                    step = np.linalg.norm(last - before[-1]) if before else np.nan
                    conv = its < allowed or bool(res < s["ftol"] and step < s["xtol"])
                    if its == allowed and (abs(res / s["ftol"] - 1) < 0.05 or abs(step / s["xtol"] - 1) < 0.05
                                           or step != step):
                        raise Unclear("norm close to the tolerance")
                j0 = j
                if fixed:
                    big, q = j, abs(D[abs(j) - 1] / d[abs(j) - 1])
                else:
                    big, q = dominant(D, d)
                if conv and not ok and q <= s["dxtol"] * (1 - 1e-9):
                    ctx.viol("refused", f"{what}: increment {k + 1}, attempt {m + 1} converged after {its} iterations at "
                             f"{last.tolist()}, inside the limits (share {q:.6g}), and is not reported")
                    return
                # the step of the control component shows the limits in effect
                if conv and np.abs(D[abs(j0) - 1] - np.sign(j0) * d[abs(j0) - 1]) > 1e-6 * d[abs(j0) - 1] + 2 * s["ftol"]:
                    ctx.viol("limits", f"{what}: increment {k + 1}, attempt {m + 1}: the control component {j0} changes by "
                             f"{D[abs(j0) - 1]:.9g} instead of {np.sign(j0) * d[abs(j0) - 1]:.9g} ({fac:.6g} times the "
                             f"configured limit)")
                    return
                # ---- reference automaton
                changed, at_limit = False, z + 1 == s["cycl"]
                grow = None
                if s["stepcontrol"]:
                    if not conv:
                        if fac != lo and abs(fac / lo - 1) < 1e-9:
                            raise Unclear("limits next to their minimum")
                        if fac > lo:
                            if big == j0 or at_limit:
                                new = max(fac / s["reduce"], lo)
                                since, changed, interesting = 0, True, True
                                c["reductions"] += 1
                                c["at_minimum"] += new == lo
                                grow = new
                            if at_limit:
                                c["continued_at_recycle_limit"] += 1
                                z, at_limit = 0, False
                                if s["cycl"] == 1:
                                    raise Unclear("one attempt only")
                    elif big == j0 and z == 0:
                        if since > 3:
                            grow = min(fac * (1 + (allowed - its) / allowed * s["increase"]), hi)
                            c["growths"] += grow > fac
                            c["at_maximum"] += grow == hi
                            interesting |= grow > fac
                        else:
                            c["pauses_after_reduction"] += 1
                if ok:
                    dv = limits[k + 1] if k + 1 < len(limits) else None
                    if dv is not None and np.abs(np.array(dv) / d - 1).max() > 1e-9:
                        ctx.viol("limits", f"{what}: increment {k + 1}: limits {np.array(dv).tolist()} in effect, expected "
                                 f"{fac:.6g} times the configured ones")
                        return
                    since += 1
                else:
                    give_up = at_limit or (not conv and big == j0 and not changed)
                    is_last = m == len(atts) - 1
                    if is_last and not give_up:
                        ctx.viol("gave-up", f"{what}: increment {k + 1} was given up after {m + 1} attempts although the "
                                 + ("limits were to be reduced" if changed else "control component changed"))
                        return
                    if not is_last and give_up:
                        ctx.viol("not-given-up", f"{what}: increment {k + 1}: attempt {m + 2} after a failure at which "
                                 "neither limits nor control component can change, or beyond the recycles")
                        return
                    if is_last:
                        c["given_up_as_expected"] += 1
                        if "ERROR" not in out:
                            ctx.viol("unreported", f"{what}: increment {k + 1} was given up without a report")
                        if k != len(X) - 1:
                            ctx.viol("bookkeeping", f"{what}: {len(X) - 1} points, but increment {k + 1} was given up")
                        if interesting:
                            ctx.nontrivial(f"{X[-1].tolist()} {out.count('ERROR')}")
                        return
                    z += 1
                if not fixed and conv:
                    c["recycles_with_other_control"] += not ok
                    j = big
                if grow is not None:
                    fac = grow
            if not accepted:
                raise Unclear("increment without attempts")
            c["increments_judged"] += 1
        if len(X) - 1 < s["incs"]:
            ctx.viol("gave-up", f"{what}: only {len(X) - 1} increments, the last one converged")
            return
        if interesting:
            ctx.nontrivial(f"{X[-1].tolist()}")
            ctx.sample = dict(what=what, points=len(X) - 1)


PROPS = [C26()]
