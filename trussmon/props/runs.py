"""Properties decided by monitors over the recorded history of full runs."""
import numpy as np

from .. import faults, monitors, oracle
from .. import runtime as T
from .. import spec as S
from ..core import Prop


def brief(spec):
    """A short description of a spec for the evidence."""
    return dict(
        family=spec.get("family"), nodes=len(spec["nodes"]), elements=len(spec["elements"]),
        labels=[n[0] for n in spec["nodes"]][:6],
        materials=sorted({e["mat"] for e in spec["elements"]}), style=spec.get("style"),
        settings=spec["settings"],
    )


def random_faults(rng, spec, p=1.0):
    if rng.random() >= p:
        return []
    incs = spec["settings"]["incs"]
    n = sum(incs) if isinstance(incs, (list, tuple)) else incs * spec["settings"].get("nsteps", 1)
    return faults.random_plan(rng, 5 * n)


def harden(rng, spec):
    """Settings that give recycles, reductions and failures a chance."""
    s = spec["settings"]
    k = int(rng.integers(6))
    if k == 0:
        s["nfev"] = int(rng.integers(2, 5))
    elif k == 1:
        s["cycl"] = int(rng.integers(1, 3))
    elif k == 2:
        s["du"], s["dlpf"] = 6 * s["du"], 6 * s["dlpf"]
    elif k == 3:
        s["nfev"] = int(rng.integers(3, 6))
        s["stepcontrol"] = True
        s.setdefault("reduce", 4.0)
        s.setdefault("minfac", 1e-4)
    elif k == 4:
        s["ftol"], s["xtol"] = 10, 10
    return spec


class RunProp(Prop):
    monitors = ()
    nsteps = (1, 1, 1, 2, 3)
    p_limit, p_loose, p_faults, p_hard = 0.15, 0.2, 0.15, 0.15
    mats = (None,)
    case_timeout = 180
    assumptions = [
        "reference mechanics in trussmon/oracle.py (textbook truss kinematics, return mapping)",
        "numpy/scipy arithmetic",
    ]

    def case(self, rng, i, tier):
        spec = S.random_spec(
            rng, nsteps=int(rng.choice(self.nsteps)), mat=self.mats[int(rng.integers(len(self.mats)))],
            size=None if rng.random() < 0.9 else int(rng.integers(4, 7)),
        )
        if rng.random() < self.p_limit:
            S.with_limit(rng, spec)
        if rng.random() < self.p_loose:
            S.loose(rng, spec)
        if rng.random() < self.p_hard:
            harden(rng, spec)
        return dict(spec=spec, faults=random_faults(rng, spec, self.p_faults))

    def execute(self, case):
        plan = case.get("faults") or []
        return T.run_spec(case["spec"], prepare=lambda M: faults.attach(M, plan))

    def run(self, case, ctx):
        v = S.View(case["spec"])
        t = self.execute(case)
        c = ctx.counts
        c["runs"] += 1
        c["stiffness_evaluations"] += t.nK
        c["residual_evaluations"] += t.ng
        c["faults_injected"] += t.faults
        c["runs_with_failed_increment"] += T.failed_increment(t)
        if t.status == "effort":
            ctx.viol("unbounded", f"more than {t.exc} stiffness evaluations")
            return None
        if t.status == "raised":
            if t.faults:
                c["runs_raised_under_fault"] += 1
            elif "NaN" in t.exc or "singular" in t.exc.lower():
                c["runs_singular"] += 1
            else:
                ctx.viol("crash", f"a valid model raised {t.exc}")
            return None
        bad = list(monitors.usable(v, t))
        for key, msg in bad:
            ctx.viol(key, msg)
        if bad:
            return None
        for m in self.monitors:
            for key, msg in m(v, t, c):
                ctx.viol(key, msg)
        self.extra(case, v, t, ctx)
        if len(t.R) > 1 and self.interesting(v, t):
            ctx.nontrivial(T.trace_hash(t.R[:4]))
            ctx.sample = dict(
                spec=brief(case["spec"]), faults=case.get("faults") or [],
                increments=len(t.R) - 1, final_lpf=[float(x) for x in monitors.History(v, t).lpf_end],
                max_displacement=float(max(np.abs(r["U"]).max() for r in t.R)),
                stiffness_evaluations=t.nK,
            )
        return t

    def extra(self, case, v, t, ctx):
        pass

    def interesting(self, v, t):
        return True

    def finalize(self, counts, n):
        lim = max(5, 0.08 * counts["runs"])
        if counts["runs_singular"] > lim:
            return [("singular", f"{counts['runs_singular']} of {counts['runs']} stable models ended with "
                     "non-finite numbers")]
        return []


def probe(M, v, rng, scale):
    """Evaluate the model at a random state through its public callback; returns
    (U, lpf, result-like dict)."""
    U = np.zeros((v.n, 3))
    red = rng.normal(size=len(v.dof1)) * scale
    U.ravel()[v.dof1] = red
    lpf = float(rng.normal())
    V = np.append(red, lpf)
    M.equilibrium(V, V)
    return U, lpf, T.snap(M.Analysis)


class C01(RunProp):
    id = "C01"
    monitors = (monitors.equilibrium,)
    n = {"quick": 450, "thorough": 9000}
    floors = {"increments": 1500, "loaded_increments": 1400, "faults_injected": 20}
    rule = ("random stable trusses (5 families, elastic/plastic/mixed, 1-3 steps, all control modes, "
            "hostile tolerances, injected tangent faults); non-trivial: at least one reported increment, "
            "distinct by the bits of the first increments")


class C02(RunProp):
    id = "C02"
    monitors = (monitors.elements_elastic,)
    mats = ("el", "el", "mix", "pl")
    p_limit = p_hard = 0.05
    n = {"quick": 350, "thorough": 7000}
    floors = {"element_results": 5000, "elastic_element_results": 2000, "large_stretch": 500,
              "probes": 300}
    rule = ("random trusses with labels, orders and properties of their own per element; every reported "
            "result and extra states with large random displacements; non-trivial: at least one increment")

    def extra(self, case, v, t, ctx):
        rng = np.random.default_rng(v.n * 1000 + len(v.el))
        for k in range(3):
            U, lpf, d = probe(t.model, v, rng, [0.05, 0.5, 2.0][k])
            lam, dirs, l = oracle.kinematics(v, U)
            if l.min() < 0.05:
                continue
            ill = (1 + np.abs(v.X).max() / v.L.min()) * (1 + np.abs(U).max() / v.L.min())
            el = v.mat == 1
            ctx.counts["probes"] += 1
            s, N = d["element_stress"].ravel(), d["element_force"].ravel()
            if not monitors.close(d["stretch"].ravel(), lam, 1e-12 * ill):
                ctx.viol("stretch-probe", f"stretch at a state with displacements up to {np.abs(U).max():.2g} off "
                         f"by {monitors.maxdiff(d['stretch'].ravel(), lam)}")
            elif not monitors.close(s[el], (v.E * (lam - 1))[el], 1e-12 * v.E.max() * ill):
                ctx.viol("elastic-law-probe", "stress of a linear-elastic element is not E*(stretch-1) at a state "
                         f"with displacements up to {np.abs(U).max():.2g}")
            elif not monitors.close(N, s * v.A, 1e-12 * v.force_scale * ill):
                ctx.viol("force-probe", "element force is not stress times area")


class C03(RunProp):
    id = "C03"
    monitors = (monitors.plastic,)
    mats = ("pl", "pl", "mix")
    nsteps = (1, 2, 2, 3, 4)
    p_faults, p_hard = 0.3, 0.2
    n = {"quick": 400, "thorough": 8000}
    floors = {"plastic_element_results": 5000, "yielding": 800, "elastic_unloading": 200,
              "reversed_yield": 10, "plastic_strain_zero_again": 40, "faults_injected": 100}
    rule = ("random elastic-plastic and mixed trusses under 1-4 steps with load reversals, injected "
            "tangent faults that force recycles in the plastic range, bars under equal strains of both signs; non-trivial: some element yielded")

    def cycles(self, rng):
        """A bar between equal strains of both signs; its plastic strain returns to exactly zero."""
        L, A, E = (float(x) for x in rng.choice([0.5, 1.0, 2.0, 4.0], 3))
        a, sign = int(rng.integers(3)), int(rng.choice([-1, 1]))
        far = [0.0] * 3
        far[a] = sign * L
        free = [0] * 3
        free[a] = 1
        m, sy = int(rng.choice([2, 4])), float(rng.choice([0.25, 0.125]))
        n = int(rng.integers(2, 5))
        f = [0.0] * (3 * n)
        for k in range(n):
            f[3 * k + a] = float((-1) ** k)
        mat = [E, E, E * sy]
        return dict(family="cycles", control="auto", nodes=[[1, [0.0] * 3], [2, far]],
                    elements=[dict(label=1, conn=[1, 2], mat=2, mprop=mat, gprop=[A])],
                    bounds=[[1, [0] * 3], [2, free]], forces=[[2, f]],
                    settings=dict(incs=[m] + [2 * m] * (n - 1), du=0.5 * L / m, dlpf=1e4, nsteps=n), style="raw")

    def case(self, rng, i, tier):
        case = super().case(rng, i, tier)
        if i % 10 == 7:
            return dict(spec=self.cycles(rng), faults=[])
        spec = case["spec"]
        if rng.random() < 0.6:  # let it yield
            for e in spec["elements"]:
                if e["mat"] == 2:
                    e["mprop"][2] = S.r4(e["mprop"][2] * 0.4)
            spec["settings"]["dlpf"] = S.r4(2 * spec["settings"]["dlpf"])
        if rng.random() < 0.3:  # perfect plasticity of one element
            pl = [e for e in spec["elements"] if e["mat"] == 2]
            if pl:
                pl[int(rng.integers(len(pl)))]["mprop"][1] = 0.0
        return case

    def interesting(self, v, t):
        return any(r["state_v"] is not None and np.any(np.abs(r["state_v"][:, 1]) > 0) for r in t.R)


class C05(RunProp):
    id = "C05"
    monitors = (monitors.nodal_forces,)
    p_limit = p_hard = 0.05
    n = {"quick": 350, "thorough": 7000}
    floors = {"results": 2000, "nonzero_internal": 1500, "probes": 300, "parallel_elements": 20}
    rule = ("random trusses incl. parallel elements and nodes shared by many elements, every reported "
            "result and extra states with large displacements; non-trivial: at least one increment")

    def case(self, rng, i, tier):
        case = super().case(rng, i, tier)
        el = case["spec"]["elements"]
        if rng.random() < 0.4:  # a parallel element
            import copy

            e = copy.deepcopy(el[int(rng.integers(len(el)))])
            e["label"] = max(x["label"] for x in el) + 5
            e["conn"] = e["conn"][::-1] if rng.random() < 0.5 else e["conn"]
            e["gprop"] = [S.r4(e["gprop"][0] * 0.5)] + e["gprop"][1:]
            el.insert(int(rng.integers(len(el) + 1)), e)
        return case

    def extra(self, case, v, t, ctx):
        pairs = {tuple(sorted(c)) for c in v.conn.tolist()}
        ctx.counts["parallel_elements"] += len(v.conn) - len(pairs)
        rng = np.random.default_rng(v.n * 1000 + len(v.el))
        h = monitors.History(v, t)
        for k in range(3):
            U, lpf, d = probe(t.model, v, rng, [0.05, 0.5, 2.0][k])
            lam, dirs, l = oracle.kinematics(v, U)
            if l.min() < 0.05:
                continue
            ctx.counts["probes"] += 1
            tol = monitors.roundoff(v) * (1 + np.abs(U).max() / v.L.min()) * 10
            ref = oracle.assemble(v, d["element_force"].ravel(), dirs)
            step = int(d["step"])
            g = h.const_load(step) + lpf * v.F[step - 1] - d["r"]
            if not monitors.close(d["r"], ref, tol):
                ctx.viol("assembly-probe", "nodal internal forces differ from the assembled element forces by "
                         f"{monitors.maxdiff(d['r'], ref)}")
            elif not monitors.close(d["g"].ravel(), g.ravel(), tol * (1 + abs(lpf))):
                ctx.viol("out-of-balance-probe", "equilibrium vector is not load minus internal force, by "
                         f"{monitors.maxdiff(d['g'].ravel(), g.ravel())}")


class C06(RunProp):
    id = "C06"
    monitors = (monitors.supports,)
    p_limit = p_hard = 0.05
    n = {"quick": 400, "thorough": 8000}
    floors = {"results": 2000, "locked_components": 10000, "moving_free_components": 4000,
              "reaction_components": 5000, "partially_locked_nodes": 100, "nodes_without_boundary": 50,
              "nodes_without_force": 200}
    rule = ("random trusses with partially locked nodes, missing or explicit boundary/force entries, "
            "arbitrary labels and orders; non-trivial: at least one increment with a moving free component")

    def case(self, rng, i, tier):
        case = super().case(rng, i, tier)
        spec = case["spec"]
        if rng.random() < 0.35:  # lock further components, one by one
            free = {n: list(v) for n, v in spec["bounds"]}
            for lab, _ in spec["nodes"]:
                free.setdefault(lab, [1, 1, 1])
            for lab in free:
                for k in range(3):
                    if free[lab][k] and rng.random() < 0.3:
                        trial = {a: list(b) for a, b in free.items()}
                        trial[lab][k] = 0
                        loads = any(trial[n][k2] and f[k2 + 3 * s] for n, f in spec["forces"]
                                    for s in range(len(f) // 3) for k2 in range(3))
                        if loads and any(any(b) for b in trial.values()):
                            free = trial
            new = S.clone(spec)
            new["bounds"] = [[n, b] for n, b in free.items() if b != [1, 1, 1]]
            for k in ("j0", "j_fixed", "xlimit"):
                new["settings"].pop(k, None)
            new["control"] = "auto"
            v = S.View(new)
            loaded = all(np.abs(v.F[s][v.free]).max() > 0 for s in range(v.nsteps))
            if oracle.stable(v) and loaded:
                case["spec"] = new
        return case

    def extra(self, case, v, t, ctx):
        spec = case["spec"]
        b = dict((n, x) for n, x in spec["bounds"])
        f = dict((n, x) for n, x in spec["forces"])
        ctx.counts["partially_locked_nodes"] += sum(0 < sum(x) < 3 for x in b.values())
        ctx.counts["nodes_without_boundary"] += sum(n not in b for n, _ in spec["nodes"])
        ctx.counts["nodes_without_force"] += sum(n not in f for n, _ in spec["nodes"])

    def interesting(self, v, t):
        return any(np.abs(r["U"]).max() > 1e-6 for r in t.R)


class C07(RunProp):
    id = "C07"
    monitors = (monitors.step_limits,)
    p_faults, p_hard = 0.15, 0.15
    n = {"quick": 450, "thorough": 9000}
    floors = {"increments": 1500, "fixed_control": 300, "at_overshoot": 4, "lpf_controlled": 200,
              "displacement_controlled": 500, "first_increments_checked": 40}
    rule = ("random trusses under all control modes (automatic, locked component with sign, initial "
            "component, without pre-identification, adaptive limits, overshoot factors), plus first "
            "increments of nearly linear steps against the linear solution; non-trivial: at least one increment")

    def case(self, rng, i, tier):
        if i % 4 == 0:  # first increments in the linear range
            spec = S.random_spec(rng, mat="el", nsteps=1, stepcontrol=False,
                                 control=str(rng.choice(["j0", "auto", "nopre", "j0nopre"])))
            s = spec["settings"]
            if spec["control"] == "j0nopre":
                c = S.responsive(spec) + [int(sum(1 for _ in S.View(spec).dof1)) + 1]
                s["j0"] = int(rng.choice(c)) * int(rng.choice([-1, 1]))
                s["j_pre"] = False
            v = S.View(spec)
            s["incs"] = 2
            s["du"], s["dlpf"] = 1e-4 * S.rnd(rng, 0.3, 3), 1e-3 * S.rnd(rng, 0.3, 3)
            s["ftol"], s["xtol"] = 10, 10
            # keep the first increment in the linear range
            K = oracle.tangent(v, np.zeros((v.n, 3)))[np.ix_(v.dof1, v.dof1)]
            u = np.linalg.solve(K, v.F[0].ravel()[v.dof1])
            s["dlpf"] = float(min(s["dlpf"], 3 * s["du"] / np.abs(u).max()))
            return dict(spec=spec, faults=[], linear=True)
        return super().case(rng, i, tier)

    def extra(self, case, v, t, ctx):
        if not case.get("linear") or len(t.R) < 2:
            return
        s = case["spec"]["settings"]
        K = oracle.tangent(v, np.zeros((v.n, 3)))[np.ix_(v.dof1, v.dof1)]
        x = np.append(np.linalg.solve(K, v.F[0].ravel()[v.dof1]), 1.0)
        j0 = s.get("j0") or len(x)
        x = x / x[abs(j0) - 1] * np.sign(j0)
        lim = monitors.base_limits(v)
        q = np.append(t.R[1]["U"].ravel()[v.dof1], float(t.R[1]["lpf"])) / lim
        ref = x / lim
        ref = ref / np.abs(ref).max()
        cosine = float(q @ ref / np.linalg.norm(q) / np.linalg.norm(ref))
        ctx.counts["first_increments_checked"] += 1
        ctx.counts["first_increments_with_j0"] += "j0" in s
        if not cosine > 0.9:
            ctx.viol("first-direction", f"first increment (j0={s.get('j0')}, j_pre={s.get('j_pre', True)}) "
                     f"moves along {np.round(q, 4).tolist()} instead of {np.round(ref, 4).tolist()}")
        elif s.get("j_pre", True) and "j0" not in s and not monitors.close(
                q, ref, 0.15):
            ctx.viol("first-size", f"first increment {np.round(q, 4).tolist()} (relative to the limits) is "
                     f"not the scaled linear solution {np.round(ref, 4).tolist()}")


class C08(RunProp):
    id = "C08"
    monitors = (monitors.adaptive,)
    nsteps = (1, 1, 2)
    p_faults, p_hard, p_limit, p_loose = 0.6, 0.3, 0.05, 0.1
    n = {"quick": 450, "thorough": 9000}
    floors = {"increments": 2000, "growths": 500, "reductions": 150, "at_maxfac": 50, "at_minfac": 8,
              "faults_injected": 500}
    rule = ("random trusses with the adaptive control on (a few off) under injected slow and failing "
            "tangents; non-trivial: the limits in effect changed at least once")

    def case(self, rng, i, tier):
        case = super().case(rng, i, tier)
        s = case["spec"]["settings"]
        if rng.random() < 0.9:
            s["stepcontrol"] = True
            if rng.random() < 0.7:
                s["maxfac"] = float(rng.choice([1.5, 2, 4, 10]))
                s["reduce"] = float(rng.choice([1.5, 2, 4, 8]))
                s["increase"] = float(rng.choice([0.25, 0.5, 1.0]))
                s["minfac"] = float(rng.choice([1e-6, 1e-3, 0.05, 0.3]))
        if i % 4 == 3 and s.get("stepcontrol"):
            # after a while of growth, one disturbance takes the limits to their minimum
            s["incs"] = int(rng.integers(18, 30))
            s["minfac"] = float(rng.choice([0.3, 0.5, 0.8, 1.0]))
            s["reduce"] = float(rng.choice([4, 8, 20]))
            s["cycl"] = 9
            a = int(rng.integers(15, 60))
            case["faults"] = [[a, a + int(rng.integers(4, 9)), "scale", float(rng.choice([2.5, 3.0, 4.0])), 0]]
        return case

    def interesting(self, v, t):
        d = {float(r["dVmax"][0]) for r in t.R[1:] if r["dVmax"] is not None}
        return len(d) > 1


class C09(RunProp):
    id = "C09"
    monitors = (monitors.stopping,)
    nsteps = (1, 1, 2, 3)
    p_limit, p_loose, p_hard, p_faults = 0.85, 0.2, 0.15, 0.05
    n = {"quick": 450, "thorough": 9000}
    floors = {"steps": 500, "stopped_by_limit": 150, "stopped_by_incs": 150, "stopped_by_error": 5, "limits_reached_exactly": 15}
    rule = ("random trusses with limits on any free component or the LPF (one or per step), increment "
            "numbers per step or in common; non-trivial: a step stopped by its limit")

    def case(self, rng, i, tier):
        if i % 7:
            return super().case(rng, i, tier)
        # limits that an increment reaches exactly, without exceeding them
        spec = S.random_spec(rng, nsteps=int(rng.choice([1, 2])), mat="el", stepcontrol=False, incs=12,
                             control=str(rng.choice(["lpf", "lpf", "dof"])))
        s = spec["settings"]
        s["dlpf"], s["du"] = 2.0 ** -int(rng.integers(4, 8)), 2.0 ** -int(rng.integers(5, 9))
        nd = len(S.View(spec).dof1)
        one = s["du"] if abs(s["j0"]) <= nd else s["dlpf"]
        if abs(s["j0"]) > nd:
            s["du"] = 5.0
        s["xlimit"] = [abs(s["j0"]), one * int(rng.integers(1, 9))]
        if rng.random() < 0.5:  # or almost
            s["xlimit"][1] *= 1 + float(rng.choice([-1, -1, 1])) * float(10 ** rng.uniform(-12, -6))
        return dict(spec=spec, faults=[])

    def extra(self, case, v, t, ctx):
        x = v.setting("xlimit")
        if not isinstance(x[0], (list, tuple)):
            j = int(x[0])
            for r in t.R[1:]:
                q = float(r["lpf"]) if j == len(v.dof1) + 1 else r["U"].ravel()[v.dof1][j - 1]
                ctx.counts["limits_reached_exactly"] += abs(q) == x[1]

    def interesting(self, v, t):
        return "EXIT" in t.out or len(t.R) > 2


class C10(RunProp):
    id = "C10"
    monitors = (monitors.multistep,)
    nsteps = (2, 2, 3, 3, 4, 6)
    p_limit, p_hard, p_faults = 0.35, 0.25, 0.2
    n = {"quick": 350, "thorough": 7000}
    floors = {"increments": 2000, "increments_with_held_loads": 800, "step_changes": 200,
              "steps_ended_by_failure": 5, "steps_without_increment": 1}
    rule = ("random trusses under 2-6 load steps (independent or reversed reference loads) whose steps end "
            "by increment number, limit or injected failure; non-trivial: results in at least two steps")

    def extra(self, case, v, t, ctx):
        h = monitors.History(v, t)
        ctx.counts["steps_without_increment"] += v.nsteps - len(set(h.steps[1:]))
        ctx.counts["steps_ended_by_failure"] += t.out.count("ERROR")

    def interesting(self, v, t):
        return len({int(r["step"]) for r in t.R[1:]}) > 1


class C12(RunProp):
    id = "C12"
    monitors = (monitors.integrity,)
    nsteps = (1, 2, 3)
    p_faults, p_hard = 0.15, 0.15
    n = {"quick": 300, "thorough": 6000}
    floors = {"results": 2000, "mutations": 300, "prefix_runs": 80, "prefix_results": 300}
    rule = ("random runs of 1-3 steps; afterwards one result, the model and its inputs are overwritten in "
            "place and all other results compared bit by bit, and shortened runs of the same model have to "
            "give the same first results; non-trivial: at least one increment")

    def extra(self, case, v, t, ctx):
        M = t.model
        rng = np.random.default_rng(len(t.R) * 100 + v.n)
        before = [T.trace_hash([T.snap(R)]) for R in M.Results.R]
        ref = [T.trace_hash([r]) for r in t.R]
        if before != ref:
            ctx.viol("unstable-results", "results changed while nothing ran")
        full = _full_state(M.Results.R)

        def expect_same(skip, what):
            now = _full_state(M.Results.R)
            ctx.counts["mutations"] += 1
            for i, (a, b) in enumerate(zip(full, now)):
                if i in skip:
                    continue
                for k in a:
                    if a[k] != b.get(k):
                        ctx.viol("snapshot-aliased", f"overwriting {what} changed {k} of result {i} of "
                                 f"{len(full)}")
                        return False
            return True

        _scribble(M.Analysis)
        ok = expect_same((), "the model's current analysis")
        for H in (M.Nodes, M.Elements, M.Boundaries, M.ExtForces):
            _scribble(H)
        ok = ok and expect_same((), "the model's inputs")
        skip = set()
        for i in rng.permutation(len(t.R))[:3]:
            skip.add(int(i))
            _scribble(M.Results.R[int(i)])
            ok = ok and expect_same(skip, f"result {i}")
        # a shorter run of the same model yields the same first results
        if rng.random() < 0.4 and not case.get("faults") and len(t.R) > 3:
            short = S.clone(case["spec"])
            s = short["settings"]
            if v.nsteps > 1:
                k = v.nsteps - 1
                s["nsteps"] = k
                if isinstance(s["incs"], (list, tuple)):
                    s["incs"] = list(s["incs"])[:k] if k > 1 else int(s["incs"][0])
                if isinstance(s.get("xlimit", [0])[0], (list, tuple)):
                    s["xlimit"] = s["xlimit"][:k] if k > 1 else s["xlimit"][0]
            else:
                s["incs"] = max(1, s["incs"] // 2)
            t2 = T.run_spec(short)
            if t2.status != "ok":
                ctx.viol("prefix-run", f"a shorter run of the same model raised {t2.exc}")
                return
            ctx.counts["prefix_runs"] += 1
            ctx.counts["prefix_results"] += len(t2.R)
            if len(t2.R) > len(t.R):
                ctx.viol("prefix-run", f"a shorter run gives {len(t2.R)} results, the longer one {len(t.R)}")
                return
            for i, (a, b) in enumerate(zip(t2.R, t.R)):
                if T.trace_hash([a]) != T.trace_hash([b]):
                    d = [k for k in a if a[k] is not None and not np.array_equal(a[k], b[k])]
                    ctx.viol("prefix-run", f"result {i} depends on what was computed after it: {d}")
                    return


def _arrays(obj, depth=2):
    for k, x in sorted(vars(obj).items()):
        if isinstance(x, np.ndarray):
            yield k, x
        elif depth and hasattr(x, "__dict__") and not callable(x):
            for k2, y in _arrays(x, depth - 1):
                yield f"{k}.{k2}", y


def _full_state(Rs):
    return [
        {**{k: x.tobytes() for k, x in _arrays(R)},
         "lpf": repr(float(R.lpf)), "step": repr(int(R.step))}
        for R in Rs
    ]


def _scribble(obj):
    for _, x in _arrays(obj):
        try:
            x[...] = 7
        except (ValueError, TypeError):
            pass


PROPS = [C01(), C02(), C03(), C05(), C06(), C07(), C08(), C09(), C10(), C12()]
