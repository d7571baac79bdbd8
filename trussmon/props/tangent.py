"""C04: the tangent stiffness against finite differences of the monitored residual
and against the textbook tangent."""
import numpy as np

from .. import monitors, oracle
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from .runs import brief


class C04(Prop):
    id = "C04"
    n = {"quick": 250, "thorough": 5000}
    floors = {"states": 500, "plastic_states": 40, "difference_columns": 2000, "stored_tangents": 400,
              "states_at_large_displacement": 100}
    rule = ("random trusses (elastic/plastic/mixed); after a short run the public stiffness and residual "
            "callbacks are evaluated at random states around and far from the path; non-trivial: a state "
            "whose tangent differs from the one of the undeformed model")
    assumptions = ["oracle.tangent (textbook formula)", "central differences where no element yields or "
                   "unloads within the stencil"]
    case_timeout = 180

    def case(self, rng, i, tier):
        spec = S.random_spec(rng, nsteps=int(rng.choice([1, 1, 2])), incs=int(rng.integers(2, 9)))
        if rng.random() < 0.5:
            for e in spec["elements"]:
                if e["mat"] == 2:
                    e["mprop"][2] = S.r4(e["mprop"][2] * 0.4)
        if rng.random() < 0.25:  # hardly any hardening
            for e in spec["elements"]:
                if e["mat"] == 2 and rng.random() < 0.6:
                    e["mprop"][1] = float(rng.choice([0.0, 1e-5, 1e-4, 1e-3])) * e["mprop"][0]
        return dict(spec=spec, seed=int(rng.integers(2**31)), states=4)

    def run(self, case, ctx):
        v = S.View(case["spec"])
        t = T.run_spec(case["spec"])
        c = ctx.counts
        c["runs"] += 1
        if t.status != "ok":
            if "NaN" in t.exc:
                c["runs_singular"] += 1
            else:
                ctx.viol("crash", f"a valid model raised {t.exc}")
            return
        bad = list(monitors.usable(v, t))
        if bad:
            for b in bad:
                ctx.viol(*b)
            return
        M = t.model
        # material state at every reported increment, by the oracle
        st = oracle.Plastic(v)
        d1 = v.dof1
        K0 = oracle.tangent(v, np.zeros((v.n, 3)))
        kmax = np.abs(K0).max()
        for i, r in enumerate(t.R):
            if i == 0:
                continue
            lam, _, _ = oracle.kinematics(v, r["U"])
            before = st.copy()
            _, _, _, pl, over = st.stress(lam - 1)
            # stored tangent: evaluated one (converged) Newton update before U
            kink = np.any(np.abs(over[np.isfinite(over)]) < 1e-5 * v.E.max()) if (v.mat == 2).any() else False
            if r["Kred"] is not None and not kink and not case.get("faults"):
                ref = oracle.tangent(v, r["U"], before)[np.ix_(d1, d1)]
                err = np.abs(r["Kred"] - ref).max() if r["Kred"].shape == ref.shape else np.inf
                tol = 1e-6 * kmax * (1 + np.abs(ref).max() / kmax)
                if monitors.xtol(v) <= 1e-8:
                    c["stored_tangents"] += 1
                    if not err <= tol * 10:
                        ctx.viol("stored-tangent", f"stiffness stored with result {i} differs from the tangent at "
                                 f"its state by {err:.3e}")
                        return
            st.advance(lam - 1)
        # the oracle's state and the model's state agree at the end (C03 checks this
        # in detail); evaluate the callbacks around the last increment
        rng = np.random.default_rng(case["seed"])
        Uend = t.R[-1]["U"]
        distinct = 0
        for k in range(case["states"]):
            scale = [1e-3, 0.05, 0.3, 1.0][k % 4]
            red = Uend.ravel()[d1] + rng.normal(size=len(d1)) * scale
            U = np.zeros((v.n, 3))
            U.ravel()[d1] = red
            lam, _, l = oracle.kinematics(v, U)
            if l.min() < 0.1:
                continue
            s, _, _, pl, over = st.stress(lam - 1)
            fin = np.isfinite(over)
            if np.any(np.abs(over[fin]) < 1e-4 * v.E[fin]):
                c["states_skipped_at_kink"] += 1
                continue
            lpf = float(rng.normal())
            K = np.array(M.stiffness(np.append(red, lpf), analysis=M.Analysis), copy=True)
            K4 = np.array(M.Analysis.K, copy=True)
            ref = oracle.tangent(v, U, st)
            ill = (1 + np.abs(v.X).max() / v.L.min()) * (1 + np.abs(U).max() / l.min()) ** 2
            tol = 1e-12 * max(kmax, np.abs(ref).max()) * ill * 10
            c["states"] += 1
            c["plastic_states"] += bool(np.any(pl & (v.mat == 2)))
            c["states_at_large_displacement"] += scale >= 0.3
            distinct += np.abs(ref - K0).max() > 1e-3 * kmax
            full = K4.transpose(0, 2, 1, 3).reshape(3 * v.n, 3 * v.n)
            if K.shape != (len(d1), len(d1)) or not monitors.close(K, full[np.ix_(d1, d1)], tol):
                ctx.viol("reduction", "reduced stiffness is not the free part of the full one, by "
                         + monitors.maxdiff(K, full[np.ix_(d1, d1)]))
                return
            if not monitors.close(full, full.T, tol):
                ctx.viol("symmetry", f"full stiffness is not symmetric, by {monitors.maxdiff(full, full.T)}")
                return
            for ax in range(3):
                e = np.zeros((v.n, 3))
                e[:, ax] = 1
                if not np.abs(full @ e.ravel()).max() <= tol * v.n:
                    ctx.viol("translation", "a rigid translation causes forces "
                             f"{np.abs(full @ e.ravel()).max():.3e} through the stiffness")
                    return
            if not monitors.close(full, ref, tol):
                ctx.viol("tangent", f"stiffness differs from the derivative of the internal forces by "
                         f"{monitors.maxdiff(full, ref)} (displacements up to {np.abs(U).max():.2g}, "
                         f"{int((pl & (v.mat == 2)).sum())} yielding elements)")
                return
            # finite differences of the code's own residual at the free components
            h = 2e-6
            cols = rng.permutation(len(d1))[:4]
            for j in cols:
                g = []
                same = True
                for sg in (1, -1):
                    x = np.append(red, lpf)
                    x[j] += sg * h
                    Uj = np.zeros((v.n, 3))
                    Uj.ravel()[d1] = x[:-1]
                    lj, _, _ = oracle.kinematics(v, Uj)
                    same &= np.array_equal(st.stress(lj - 1)[3], pl)
                    M.equilibrium(x, x, analysis=M.Analysis)
                    g.append(np.array(M.Analysis.r, copy=True).ravel())
                if not same:
                    continue
                fd = (g[0] - g[1]) / (2 * h)
                col = full[:, d1[j]]
                third = 50 * h**2 * max(kmax, np.abs(ref).max()) / min(l.min(), v.L.min()) ** 2
                noise = 1e-13 * (v.force_scale + np.abs(g[0]).max()) * ill / h
                c["difference_columns"] += 1
                if not monitors.close(fd, col, third + noise + 1e-7 * kmax):
                    ctx.viol("difference", f"column {j} of the stiffness differs from the central difference of the "
                             f"internal forces by {monitors.maxdiff(fd, col)}")
                    return
        if distinct:
            ctx.nontrivial(T.trace_hash(t.R[:3]) + str(case["seed"] % 1000))
            ctx.sample = dict(spec=brief(case["spec"]), states=int(distinct), increments=len(t.R) - 1)

    def finalize(self, counts, n):
        if counts["runs_singular"] > max(5, 0.08 * counts["runs"]):
            return [("singular", f"{counts['runs_singular']} of {counts['runs']} stable models ended with "
                     "non-finite numbers")]
        return []


PROPS = [C04()]
