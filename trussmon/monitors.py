"""Offline checkers over the recorded result history of one run.

Every checker takes (view, trace, counters) and yields (key, message) pairs;
`key` names the mechanism that was violated, independent of the input."""
import numpy as np

from . import oracle


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def maxdiff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    return f"{np.max(np.abs(a - b)):.3e}" if a.size else "empty"


def roundoff(v):
    """Bound of the numerical noise of a nodal force."""
    ill = 1 + np.max(np.abs(v.X)) / np.min(v.L)
    return 1e-12 * v.force_scale * ill


def ftol(v):
    return 10.0 ** -float(v.setting("ftol"))


def xtol(v):
    return 10.0 ** -float(v.setting("xtol"))


class History:
    """The recorded increments of a run with the load history that the
    specification of the model implies."""

    def __init__(self, v, t):
        self.v, self.R = v, t.R
        self.steps = [int(r["step"]) for r in t.R]
        self.lpf = [float(r["lpf"]) for r in t.R]
        self.lpf_end = []
        for s in range(1, v.nsteps + 1):
            idx = [i for i in range(1, len(t.R)) if self.steps[i] == s]
            self.lpf_end.append(self.lpf[idx[-1]] if idx else 0.0)

    def const_load(self, step):
        f = np.zeros((self.v.n, 3))
        for s in range(step - 1):
            f = f + self.lpf_end[s] * self.v.F[s]
        return f

    def load(self, i):
        s = self.steps[i]
        return self.const_load(s) + self.lpf[i] * self.v.F[s - 1]


def shapes_ok(v, r):
    return (
        r["U"] is not None and r["U"].shape == (v.n, 3)
        and r["r"] is not None and r["r"].shape == (v.n, 3)
        and all(r[k] is not None and r[k].size == len(v.el)
                for k in ("stretch", "element_force", "element_stress"))
        and r["lpf"] is not None and r["step"] is not None
        and 1 <= int(r["step"]) <= v.nsteps
    )


def usable(v, t):
    """All later checkers need well-formed results."""
    for i, r in enumerate(t.R):
        if not shapes_ok(v, r):
            yield "malformed-result", f"result {i} misses fields or has wrong shapes"
            return
    if not t.R:
        yield "no-results", "the run recorded no result at all"


# ------------------------------------------------------------------ equilibrium
def equilibrium(v, t, c):
    h = History(v, t)
    st = oracle.Plastic(v)
    ro = roundoff(v)
    f1 = v.free
    for i, r in enumerate(t.R[1:], 1):
        lam, dirs, _ = oracle.kinematics(v, r["U"])
        s, _ = st.advance(lam - 1)
        ext = h.load(i)
        res_ref = (ext - oracle.assemble(v, s * v.A, dirs))[f1]
        res_rep = (ext - oracle.assemble(v, r["element_force"].ravel(), dirs))[f1]
        res_r = (ext - r["r"])[f1]
        tol = 1.001 * ftol(v) + ro
        c["increments"] += 1
        c["loaded_increments"] += bool(np.max(np.abs(ext)) > 10 * tol)
        for name, res in (("displacements", res_ref), ("element forces", res_rep),
                          ("nodal forces", res_r)):
            n = np.linalg.norm(res)
            if not n <= tol:
                yield (f"residual-{name.split()[0]}",
                       f"result {i} (step {h.steps[i]}, LPF {h.lpf[i]:.6g}): the reported {name} "
                       f"leave an unbalanced free force {n:.3e} > {tol:.3e}")
                return
        # support reactions balance the applied loads in force and moment
        x = v.X + r["U"]
        react = np.where(v.free, 0.0, r["r"] - ext)
        tot = ext + react
        ftot = np.abs(tot.sum(axis=0)).max()
        mtot = np.abs(np.cross(x, tot).sum(axis=0)).max()
        lim = tol * v.n * (1 + np.max(np.abs(x)))
        c["reaction_balances"] += 1
        if not (ftot <= 2 * lim and mtot <= 4 * lim):
            yield ("reactions", f"result {i}: loads and support reactions leave a resultant "
                   f"force {ftot:.3e} / moment {mtot:.3e}, limit {lim:.3e}")
            return


# ------------------------------------------------------------ element results
def elements_elastic(v, t, c):
    """Stretch, stress and force of every element, elastic ones by the law."""
    for i, r in enumerate(t.R):
        lam, dirs, _ = oracle.kinematics(v, r["U"])
        ill = 1 + np.max(np.abs(v.X)) / np.min(v.L)
        el = v.mat == 1
        c["element_results"] += len(v.el)
        c["elastic_element_results"] += int(el.sum())
        c["large_stretch"] += int((np.abs(lam - 1) > 0.02).sum())
        if not close(r["stretch"].ravel(), lam, 1e-12 * ill):
            yield "stretch", (f"result {i}: stretch differs from deformed/undeformed length by "
                              f"{maxdiff(r['stretch'].ravel(), lam)}")
            return
        s, N = r["element_stress"].ravel(), r["element_force"].ravel()
        if not close(N, s * v.A, 1e-12 * v.force_scale * ill):
            yield "force-stress-area", (f"result {i}: element force is not stress times area, "
                                        f"by {maxdiff(N, s * v.A)}")
            return
        if not close(s[el], (v.E * (lam - 1))[el], 1e-12 * np.max(v.E) * ill):
            yield "elastic-law", (f"result {i}: stress of a linear-elastic element is not E*(stretch-1), "
                                  f"by {maxdiff(s[el], (v.E * (lam - 1))[el])}")
            return


def nodal_forces(v, t, c):
    """Internal nodal forces are the assembly of the reported element forces, are
    self-equilibrated, and g is load minus internal force."""
    h = History(v, t)
    for i, r in enumerate(t.R):
        _, dirs, _ = oracle.kinematics(v, r["U"])
        ref = oracle.assemble(v, r["element_force"].ravel(), dirs)
        tol = roundoff(v)
        c["results"] += 1
        if not close(r["r"], ref, tol):
            yield "assembly", (f"result {i}: nodal internal forces differ from the assembled element "
                               f"forces by {maxdiff(r['r'], ref)}")
            return
        x = v.X + r["U"]
        fs, ms = np.abs(r["r"].sum(axis=0)).max(), np.abs(np.cross(x, r["r"]).sum(axis=0)).max()
        lim = 10 * tol * v.n * (1 + np.abs(x).max())
        c["nonzero_internal"] += bool(np.abs(r["r"]).max() > 1e3 * lim)
        if not (fs <= lim and ms <= lim):
            yield "self-equilibrium", (f"result {i}: internal forces have a resultant force {fs:.3e} or "
                                       f"moment {ms:.3e}")
            return
        if i and r["g"] is not None:
            ref = h.load(i) - r["r"]
            if not close(r["g"].ravel(), ref.ravel(), 10 * tol):
                yield "out-of-balance", (f"result {i}: equilibrium vector is not load minus internal "
                                         f"force, by {maxdiff(r['g'].ravel(), ref.ravel())}")
                return


# ------------------------------------------------------------------ plasticity
def plastic(v, t, c):
    st = oracle.Plastic(v)
    pl_el = v.mat == 2
    ill = 1 + np.max(np.abs(v.X)) / np.min(v.L)
    tol = 1e-11 * np.max(v.E) * ill
    prev_y = None
    was_plastic = np.zeros(len(v.el), dtype=int)
    for i, r in enumerate(t.R):
        if i == 0:
            continue
        lam, _, _ = oracle.kinematics(v, r["U"])
        before = st.copy()
        s_ref, pl = st.advance(lam - 1)
        s = r["element_stress"].ravel()
        c["plastic_element_results"] += int(pl_el.sum())
        c["yielding"] += int((pl & pl_el).sum())
        c["elastic_unloading"] += int((~pl & pl_el & (st.kappa > 0)).sum())
        c["reversed_yield"] += int((pl & (was_plastic == -np.sign(s_ref))).sum())
        was_plastic = np.where(pl, np.sign(s_ref), was_plastic)
        del before
        if not close(s, s_ref, tol):
            yield "stress-history", (
                f"result {i}: stresses differ from the return mapping of the recorded strain "
                f"history by {maxdiff(s, s_ref)}")
            return
        if r["state_v"] is None:
            if pl_el.any():
                yield "no-state", f"result {i}: no state variables although an element is elastic-plastic"
                return
            continue
        sv = r["state_v"]
        if sv.shape[0] != len(v.el) or sv.shape[1] < 2:
            yield "state-shape", f"result {i}: state variables have shape {sv.shape}"
            return
        y, ep = sv[:, 0], sv[:, 1]
        c["plastic_strain_zero_again"] += int((pl_el & (st.kappa > 0) & (ep == 0)).sum())
        if not close(ep[pl_el], st.ep[pl_el], 1e-11 * ill + tol / np.min(v.E)):
            yield "plastic-strain", (f"result {i}: plastic strain differs from the return mapping by "
                                     f"{maxdiff(ep[pl_el], st.ep[pl_el])}")
            return
        if not close(y[pl_el], st.yield_stress[pl_el], tol):
            yield "yield-stress", (f"result {i}: yield stress differs from the isotropic hardening of "
                                   f"the history by {maxdiff(y[pl_el], st.yield_stress[pl_el])}")
            return
        if not np.all(np.abs(s[pl_el]) <= y[pl_el] + tol):
            yield "yield-condition", f"result {i}: a stress exceeds the yield stress"
            return
        if prev_y is not None and not np.all(y[pl_el] >= prev_y[pl_el] - tol):
            yield "softening", f"result {i}: a yield stress decreased"
            return
        prev_y = y


# -------------------------------------------------------------------- supports
def supports(v, t, c):
    h = History(v, t)
    for i, r in enumerate(t.R):
        u0 = r["U"][~v.free]
        c["results"] += 1
        c["locked_components"] += u0.size
        c["moving_free_components"] += int((np.abs(r["U"][v.free]) > 1e-6).sum())
        if np.any(u0 != 0):
            yield "locked-moves", f"result {i}: a locked degree of freedom moved by {np.abs(u0).max():.3e}"
            return
        if r["U0"] is not None and np.any(r["U0"].reshape(v.n, 3)[~v.free] != 0):
            yield "locked-moves", f"result {i}: a locked degree of freedom moved (start of increment)"
            return
        for k, ref in (("DOF1", v.dof1), ("DOF0", v.dof0)):
            if r[k] is not None and list(r[k].astype(int)) != list(ref):
                yield "dof-partition", f"result {i}: {k} is {r[k]}, expected {ref}"
                return
        if i:
            # a free component carries no reaction: nothing but the load acts on it
            ext = h.load(i)
            n = np.abs((ext - r["r"])[v.free]).max()
            if not n <= 1.001 * ftol(v) + roundoff(v):
                yield "free-reaction", f"result {i}: a free degree of freedom carries a reaction {n:.3e}"
                return
            c["reaction_components"] += int((np.abs((ext - r["r"])[~v.free]) > 1e-6).sum())


# ----------------------------------------------------------------- step limits
def increments_x(v, t):
    """(index, previous V, V) of all increments, V = free displacements + LPF."""
    h = History(v, t)
    out = []
    for i in range(1, len(t.R)):
        u1 = t.R[i]["U"].ravel()[v.dof1]
        u0 = t.R[i - 1]["U"].ravel()[v.dof1]
        l0 = h.lpf[i - 1] if h.steps[i] == h.steps[i - 1] and i > 1 else 0.0
        out.append((i, np.append(u0, l0), np.append(u1, h.lpf[i])))
    return out


def base_limits(v):
    return np.append(np.full(len(v.dof1), float(v.setting("du"))), float(v.setting("dlpf")))


def step_limits(v, t, c):
    base = base_limits(v)
    sc, fixed, j0 = v.setting("stepcontrol"), v.setting("j_fixed"), v.setting("j0")
    dxtol = float(v.setting("dxtol"))
    for i, x0, x1 in increments_x(v, t):
        lim = base
        if sc:
            d = t.R[i]["dVmax"]
            if d is None or d.shape != base.shape:
                yield "limits-unreported", f"result {i}: limits of the increment are not reported"
                return
            lim = d
        elif t.R[i]["dVmax"] is not None and not close(t.R[i]["dVmax"], base, 1e-12 * base.max()):
            yield "limits-changed", (f"result {i}: limits {t.R[i]['dVmax']} in effect although the "
                                     f"adaptive control is off and {base} configured")
            return
        q = (x1 - x0) / lim
        tol = 1e-9 + 20 * xtol(v) / lim.min() + 1e-12 * np.max(np.abs(x1)) / lim.min()
        c["increments"] += 1
        k = int(np.argmax(np.abs(q)))
        c["lpf_controlled" if k == len(q) - 1 else "displacement_controlled"] += 1
        if fixed:
            j = abs(j0) - 1
            c["fixed_control"] += 1
            if not abs(q[j] - np.sign(j0)) <= tol:
                yield "fixed-component", (f"result {i}: the locked control component {j0} moved by "
                                          f"{q[j]:.9g} times its limit")
                return
            continue
        m = np.max(np.abs(q))
        c["at_overshoot"] += bool(m > 1 + 1e-3)
        if not m <= dxtol + tol:
            yield "limit-exceeded", (f"result {i}: component {k + 1} moved by {m:.9g} times its limit, "
                                     f"allowed {dxtol}")
            return
        if not np.min(np.abs(np.abs(q) - 1)) <= tol:
            yield "no-control", f"result {i}: no component moved by exactly its limit ({q})"
            return


def adaptive(v, t, c):
    base = base_limits(v)
    sc = v.setting("stepcontrol")
    maxf, minf = float(v.setting("maxfac")), float(v.setting("minfac"))
    inc, red = float(v.setting("increase")), float(v.setting("reduce"))
    prev, prev_step = 1.0, 1
    last_red = None  # index in the step since the last reduction
    for i in range(1, len(t.R)):
        d = t.R[i]["dVmax"]
        step = int(t.R[i]["step"])
        if d is None or d.shape != base.shape:
            yield "limits-unreported", f"result {i}: limits of the increment are not reported"
            return
        q = d / base
        s = float(q[0])
        c["increments"] += 1
        if not np.ptp(q) <= 1e-9 * s:
            yield "not-uniform", f"result {i}: limits are not scaled by one common factor ({q})"
            return
        if not sc:
            if abs(s - 1) > 1e-12:
                yield "changed-while-off", f"result {i}: limits scaled by {s} although the control is off"
                return
            continue
        if not minf * (1 - 1e-9) <= s <= maxf * (1 + 1e-9):
            yield "outside-interval", f"result {i}: limit factor {s:.6g} outside [{minf}, {maxf}]"
            return
        if step != prev_step:
            prev, prev_step, last_red = 1.0, step, None
        first = i == 1 or int(t.R[i - 1]["step"]) != step
        grow = s / prev
        if first and grow > 1 + 1e-9:
            yield "grown-at-start", f"result {i}: first increment of a step with grown limits ({s})"
            return
        if grow > 1 + 1e-9:
            c["growths"] += 1
            c["at_maxfac"] += bool(s >= maxf * (1 - 1e-9))
            if grow > (1 + inc) * (1 + 1e-9):
                yield "growth-rate", f"result {i}: limits grew by {grow:.6g}, allowed {1 + inc}"
                return
            if last_red is not None and i - last_red < 5:
                yield "grown-too-early", (f"result {i}: limits grew {i - last_red} increments after a "
                                          "reduction")
                return
        elif grow < 1 - 1e-9:
            c["reductions"] += 1
            last_red = i
            at_min = s <= minf * (1 + 1e-9)
            c["at_minfac"] += at_min
            k = np.log(1 / grow) / np.log(red)
            # a reduction may follow a growth that was decided after the last increment
            lo, hi = s * red / prev, (1 + inc) * (1 + 1e-9)
            m = 0
            ok = at_min
            while not ok and m < 60:
                m += 1
                g0 = s * red**m / prev
                ok = 1 - 1e-9 <= g0 <= hi or abs(s * red**m - maxf) <= 1e-6 * maxf
                if g0 > hi * 2:
                    break
            if not ok:
                yield "reduction-rate", (f"result {i}: limit factor went from {prev:.6g} to {s:.6g}, no "
                                         f"power of {red} (exponent {k:.3f})")
                return
            del lo
        prev = s


# -------------------------------------------------------------------- stopping
def stopping(v, t, c):
    h = History(v, t)
    incs, xlim = v.setting("incs"), v.setting("xlimit")
    per_step_x = isinstance(xlim[0], (tuple, list))
    base = 1
    failed = "ERROR" in t.out
    for s in range(1, v.nsteps + 1):
        idx = [i for i in range(1, len(t.R)) if h.steps[i] == s]
        if idx and idx != list(range(base, base + len(idx))):
            yield "step-order", f"results of step {s} are not consecutive: {idx}"
            return
        base += len(idx)
        n = incs[s - 1] if isinstance(incs, (list, tuple)) else incs
        xl = xlim[s - 1] if per_step_x else xlim
        lim = np.inf if xl[1] == "inf" else float(xl[1])
        c["steps"] += 1
        if len(idx) > n:
            yield "too-many-increments", f"step {s} has {len(idx)} increments, allowed {n}"
            return
        def val(i):
            vec = np.append(t.R[i]["U"].ravel()[v.dof1], h.lpf[i])
            return abs(vec[xl[0] - 1])

        over = [i for i in idx if val(i) > lim]
        early = [i for i in over if i != idx[-1]]
        if early:
            yield "limit-passed", (f"step {s} went on after component {xl[0]} exceeded {lim} in result "
                                   f"{early[0]}")
            return
        c["stopped_by_limit"] += bool(over and len(idx) < n)
        c["stopped_by_incs"] += len(idx) == n
        if len(idx) < n and not over:
            c["stopped_by_error"] += 1
            if not failed:
                yield "stopped-early", (f"step {s} ended after {len(idx)} of {n} increments without "
                                        "reaching its limit or reporting a failure")
                return
    if base != len(t.R):
        yield "stray-results", f"{len(t.R) - base} results belong to no step"


# ------------------------------------------------------------------- multistep
def multistep(v, t, c):
    h = History(v, t)
    ro = roundoff(v)
    M = t.model
    if h.lpf[0] != 0 or h.steps[0] != 1:
        yield "start", f"the undeformed result has LPF {h.lpf[0]} and step {h.steps[0]}"
        return
    if M is not None:
        ends = [float(x) for x in M.Results.step_lpf_end]
        if not close(ends, h.lpf_end, 1e-12 * (1 + np.max(np.abs(h.lpf_end)))):
            yield "step-end-lpf", f"reported final LPFs {ends}, results say {h.lpf_end}"
            return
    for i, r in enumerate(t.R[1:], 1):
        if i > 1 and h.steps[i] < h.steps[i - 1]:
            yield "step-order", f"result {i} is of step {h.steps[i]} after step {h.steps[i - 1]}"
            return
        const = h.const_load(h.steps[i])
        c["increments"] += 1
        c["increments_with_held_loads"] += bool(np.abs(const).max() > 0)
        if r["f_const"] is None or not close(r["f_const"], const, 1e-12 * (v.force_scale + np.abs(const).max())):
            yield "held-loads", (f"result {i} (step {h.steps[i]}): constant loads are not the sum of the "
                                 f"final loads of the earlier steps, by {maxdiff(r['f_const'], const)}")
            return
        n = np.linalg.norm((h.load(i) - r["r"])[v.free])
        if not n <= 1.001 * ftol(v) + ro:
            yield "load-not-carried", (f"result {i} (step {h.steps[i]}): held loads plus LPF times the "
                                       f"load of the step are not balanced, {n:.3e}")
            return
        if h.steps[i] > 1 and h.steps[i - 1] != h.steps[i]:
            c["step_changes"] += 1
            u0 = t.R[i]["U0"].reshape(v.n, 3)
            if not close(u0, t.R[i - 1]["U"], 0):
                yield "step-restart", (f"step {h.steps[i]} did not start from the final displacements of "
                                       f"the previous step, by {maxdiff(u0, t.R[i - 1]['U'])}")
                return


# ------------------------------------------------------------- history records
def integrity(v, t, c):
    r = t.R[0]
    if np.any(r["U"] != 0) or np.any(r["r"] != 0) or float(r["lpf"]) != 0 or np.any(
        r["element_force"] != 0) or np.any(r["element_stress"] != 0) or np.any(r["stretch"] != 1):
        yield "undeformed", "the first result is not the undeformed, unloaded model"
        return
    for i, r in enumerate(t.R):
        c["results"] += 1
        for k, val in r.items():
            if val is not None and not np.all(np.isfinite(val)):
                yield "not-finite", f"result {i}: {k} holds non-finite numbers"
                return
        if i == 0:
            continue
        p = t.R[i - 1]
        if r["U0"] is None or not close(r["U0"].reshape(v.n, 3), p["U"], 0):
            yield "chain", (f"result {i} does not start from the displacements of result {i - 1}, by "
                            f"{maxdiff(r['U0'].reshape(v.n, 3), p['U'])}")
            return
        u = r["U"].ravel()[v.dof1]
        if not close(r["Ured"], u, 0):
            yield "reduced", f"result {i}: reduced and full displacements differ by {maxdiff(r['Ured'], u)}"
            return
        if not close(r["Vred"], np.append(u, float(r["lpf"])), 0):
            yield "reduced", f"result {i}: extended vector is not displacements and LPF"
            return
        if np.array_equal(r["U"], p["U"]) and float(r["lpf"]) == float(p["lpf"]) and r["step"] == p["step"]:
            yield "repeated", f"result {i} repeats result {i - 1}"
            return
