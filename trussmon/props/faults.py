"""C11: only converged increments are reported. Fault injection on the callbacks,
hopeless settings, limit loads and mechanisms; the oracle recomputes equilibrium,
limits and the history of whatever was reported."""
import numpy as np

from .. import faults, monitors
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from .runs import brief

HARD = ["scale", "noise", "sign", "zero", "nan", "inf", "stiffen", "g-huge", "g-nan", "g-inf"]


def mechanism(rng):
    """A truss with a free node whose transverse motion nothing resists at first."""
    spec = S.random_spec(rng, family="chain", mat="el", nsteps=1, control="auto",
                         size=int(rng.integers(1, 4)))
    ax = int(np.argmax(np.ptp([n[1] for n in spec["nodes"]], axis=0)))
    other = [k for k in range(3) if k != ax][int(rng.integers(2))]
    labs = [n for n, _ in spec["nodes"]]
    fixed = [n for n, b in spec["bounds"] if not any(b)]
    tip = [n for n in labs if n not in fixed][-1]
    for n, b in spec["bounds"]:
        if n == tip:
            b[other] = 1
    spec["forces"] = [[tip, [0.0, 0.0, 0.0]]]
    spec["forces"][0][1][other] = S.r4(float(rng.choice([-1, 1])) * S.rnd(rng, 0.1, 1))
    if rng.random() < 0.5:
        spec["forces"][0][1][ax] = S.r4(S.rnd(rng, -1, 1))
    for k in ("j0", "j_fixed", "xlimit"):
        spec["settings"].pop(k, None)
    spec["settings"]["incs"] = 5
    return spec


def hopeless(rng, spec):
    s = spec["settings"]
    k = int(rng.integers(9))
    if k >= 7:  # the last allowed recycle often just misses the tolerance
        s["cycl"], s["nfev"], s["j_pre"] = int(rng.choice([1, 1, 2])), int(rng.integers(2, 5)), bool(rng.random() < 0.3)
        s["ftol"], s["xtol"] = float(rng.choice([9, 10, 12])), float(rng.choice([1, 2, 3]))
        f = 10 ** rng.uniform(-0.7, 0.7)
        s["du"], s["dlpf"] = s["du"] * f, s["dlpf"] * f
    elif k == 0:
        s["ftol"] = 40
    elif k == 1:
        s["nfev"], s["j_pre"] = int(rng.integers(2, 4)), bool(rng.random() < 0.5)
    elif k == 2:
        s["cycl"] = int(rng.integers(1, 3))
        s["du"], s["dlpf"] = 20 * s["du"], 20 * s["dlpf"]
    elif k == 3:
        s["du"], s["dlpf"] = 50 * s["du"], 50 * s["dlpf"]
        s["stepcontrol"] = bool(rng.random() < 0.5)
    elif k == 4:  # locked load control across limit points
        s["j_fixed"], s["j0"] = True, len(S.View(spec).dof1) + 1
        s["dlpf"] = 8 * s["dlpf"]
        s["stepcontrol"] = bool(rng.random() < 0.5)
    elif k == 5:
        s["stepcontrol"], s["minfac"], s["reduce"] = True, 0.3, 2.0
        s["nfev"] = 3
    else:  # tight for the displacements, ordinary for the forces
        s["xtol"] = float(rng.choice([12, 16, 30]))
        s["ftol"] = float(rng.choice([3, 5, 8]))
    return spec


class C11(Prop):
    id = "C11"
    level = "exploration"
    n = {"quick": 500, "thorough": 9000}
    floors = {"runs_with_failed_increment": 100, "increments": 1000, "faults_injected": 800,
              "prefix_compared": 40, "steps_after_failure": 15, "mechanism_runs": 20,
              "runs_raised": 10, "last_updates": 800}
    rule = ("random trusses with faults injected into stiffness/residual evaluations (scaled, noisy, negated, "
            "zero, non-finite, huge), unreachable tolerances, starved iteration budgets, locked load control "
            "across limit points, mechanisms; non-trivial: an attempt failed (reported failure or exception)")
    assumptions = ["a stiffness fault leaves the residual intact, so an accepted state has to be in equilibrium; "
                   "a residual fault makes it huge or non-finite, so nothing may be accepted meanwhile"]
    case_timeout = 180

    def case(self, rng, i, tier):
        kind = ["fault", "fault", "hopeless", "both", "gfault", "mechanism", "permanent", "permanent"][i % 8]
        if kind == "mechanism":
            return dict(kind=kind, spec=mechanism(rng), faults=[])
        fam = str(rng.choice(["dome", "twobar"])) if kind == "hopeless" and rng.random() < 0.5 else None
        spec = S.random_spec(rng, family=fam, nsteps=int(rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.15:
            S.with_limit(rng, spec)
        incs = spec["settings"]["incs"]
        n = 4 * (sum(incs) if isinstance(incs, list) else incs)
        plan = []
        if kind in ("fault", "both"):
            plan = faults.random_plan(rng, n, kinds=HARD[:4] + HARD[6:7] if rng.random() < 0.8 else HARD[3:6])
        if kind == "gfault":
            plan = faults.random_plan(rng, 2 * n, kinds=HARD[7:])
        if kind == "permanent":
            plan = faults.random_plan(rng, n, kinds=["stiffen", "noise", "sign", "g-huge", "zero", "nan"],
                                      windows=1, long=True)
            if plan[0][2] == "stiffen":
                plan[0][3] = 1e6
            if plan[0][2].startswith("g-"):
                plan[0][0] *= 2
                plan[0][1] *= 2
        if kind in ("hopeless", "both"):
            hopeless(rng, spec)
        return dict(kind=kind, spec=spec, faults=plan)

    def run(self, case, ctx):
        spec, c = case["spec"], ctx.counts
        v = S.View(spec)
        points = []  # where the tangent was evaluated

        class Recorder(T.MonitoredModel):
            def stiffness(self, Ured, *a, **k):
                points.append(np.array(Ured, dtype=float)[: len(v.dof1)])
                return super().stiffness(Ured, *a, **k)

        t = T.run_spec(spec, cls=Recorder, prepare=lambda M: faults.attach(M, case["faults"]))
        c["runs"] += 1
        c["runs_" + case["kind"]] += 1
        c["faults_injected"] += t.faults
        if t.status == "effort":
            ctx.viol("unbounded", f"more than {t.exc} stiffness evaluations")
            return
        failed = T.failed_increment(t)
        c["runs_raised"] += t.status == "raised"
        c["runs_with_failed_increment"] += failed
        c["mechanism_runs"] += case["kind"] == "mechanism"
        if t.status == "raised":
            if not t.faults and case["kind"] not in ("mechanism", "hopeless", "both"):
                if "NaN" in t.exc or "singular" in t.exc.lower() or "factorize" in t.exc:
                    c["runs_singular"] += 1
                else:
                    ctx.viol("crash", f"a valid model raised {t.exc}")
                    return
        bad = [b for b in monitors.usable(v, t)]
        if t.status == "ok":
            for b in bad:
                ctx.viol(*b)
        if bad:
            return
        checks = [monitors.equilibrium, monitors.nodal_forces]
        if t.status == "ok":
            checks += [monitors.step_limits, monitors.multistep, monitors.integrity, monitors.plastic,
                       monitors.stopping]
        for m in checks:
            cc = type(c)()
            for key, msg in m(v, t, cc):
                ctx.viol(f"{m.__name__}-{key}", msg)
            if m is monitors.equilibrium:
                c["increments"] += cc["increments"]
        self.last_updates(v, t, points, ctx)
        h = monitors.History(v, t)
        if t.status == "ok" and failed and v.nsteps > 1:
            c["steps_after_failure"] += 1
        if failed or t.status == "raised":
            ctx.nontrivial(f"{case['kind']} {T.trace_hash(t.R)} {t.nK}")
            ctx.sample = dict(kind=case["kind"], spec=brief(spec), faults=case["faults"],
                              outcome=t.exc or ("failure reported" if failed else "ok"),
                              increments_reported=len(t.R) - 1, lpf=h.lpf_end,
                              stiffness_evaluations=t.nK)
        if case["kind"] == "permanent" and t.faults and t.status == "ok":
            self.compare_prefix(case, v, t, ctx)

    def last_updates(self, v, t, points, ctx):
        """The last update of every reported increment is below the tolerance: it started
        where the tangent was evaluated last before the next increment begins."""
        tol = 10.0 ** -float(v.setting("xtol")) * (1 + 1e-6)
        at = 1
        # (a run that raised leaves a copy of its last result behind)
        for i in range(1, len(t.R) - (t.status != "ok")):
            u = t.R[i]["U"].ravel()[v.dof1]
            nxt = at
            while nxt < len(points) and not np.array_equal(points[nxt], u):
                nxt += 1
            again = sum(np.array_equal(p, u) for p in points[nxt + 1 :])
            end = i == len(t.R) - 1
            if nxt == len(points) and (not end or t.status != "ok" or T.failed_increment(t)):
                return  # (not to be found in the record)
            if again or end and nxt < len(points):
                at = nxt + 1  # (maybe a last update of zero)
                continue
            d = np.linalg.norm(u - points[nxt - 1])
            ctx.counts["last_updates"] += 1
            ctx.counts["last_updates_above_1e-3_tol"] += bool(d > 1e-3 * tol)
            if not d <= tol + 1e-15 * (1 + np.max(np.abs(u))):
                ctx.viol("not-converged", f"result {i}: the last update of the displacements was at least {d:.3e}, "
                         f"allowed {tol:.3e}")
                return
            at = nxt

    def compare_prefix(self, case, v, t, ctx):
        """With a fault that starts at evaluation k and lasts, exactly the increments
        that a fault-free run has finished before evaluation k come first, unchanged."""
        calls = []

        class Recorder(T.MonitoredModel):
            def stiffness(self, Ured, *a, **k):
                calls.append((self.mon_nK, self.mon_ng, np.array(Ured, copy=True)))
                return super().stiffness(Ured, *a, **k)

        t2 = T.run_spec(case["spec"], cls=Recorder)
        if t2.status != "ok" or not t2.R:
            return
        a, kind = case["faults"][0][0], case["faults"][0][2]
        nd = len(v.dof1)
        done = 0
        at = 1
        # result i is finished as soon as the search for i+1 starts from it; results are
        # found in order in the sequence of evaluated states
        for i in range(1, len(t2.R)):
            u = t2.R[i]["U"].ravel()[v.dof1]
            while at < len(calls) and not np.array_equal(calls[at][2][:nd], u):
                at += 1
            # (a vanishing last update evaluates the converged state once more, so only
            # the first evaluation elsewhere shows that result i has been accepted)
            nxt = at
            while nxt < len(calls) and np.array_equal(calls[nxt][2][:nd], u):
                nxt += 1
            if nxt >= len(calls):
                break
            nK, ng, _ = calls[nxt]
            if (ng if kind.startswith("g-") else nK) + 1 <= a:
                done = i
            else:
                break
        ctx.counts["prefix_compared"] += 1
        ctx.counts["prefix_increments"] += done
        if len(t.R) - 1 < done:
            ctx.viol("lost-increment", f"{done} increments had converged before the fault at evaluation {a}, only "
                     f"{len(t.R) - 1} are reported")
            return
        for i in range(done + 1):
            if T.trace_hash([t.R[i]]) != T.trace_hash([t2.R[i]]):
                d = [k for k in t.R[i] if t.R[i][k] is not None and not np.array_equal(t.R[i][k], t2.R[i][k])]
                ctx.viol("changed-increment", f"result {i} of {done} converged before the fault at evaluation {a} "
                         f"but differs in {d}")
                return


PROPS = [C11()]
