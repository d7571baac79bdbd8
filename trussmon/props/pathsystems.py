"""C23: path following of systems that have nothing to do with trusses."""
import contextlib
import io

import numpy as np

from ..core import Prop
from ..env import tp  # noqa: F401


class Bag:
    """The least an analysis object has to be: attributes, copied by value."""


def system(p):
    """r(U) and its derivative for plain parameters; the equations are
    lambda * f0 - r(U - U0) - eta * (U - U at the start of the increment) = 0."""
    k, n = p["kind"], p["n"]
    A = np.array(p["A"], dtype=float)
    c = np.array(p["c"], dtype=float)
    if k == "linear":
        r, dr = lambda u: A @ u, lambda u: A
    elif k == "hardening":
        r, dr = lambda u: A @ u + c * u**3, lambda u: A + np.diag(3 * c * u**2)
    elif k == "sinh":
        r, dr = lambda u: A @ u + np.sinh(c * u), lambda u: A + np.diag(c * np.cosh(c * u))
    elif k == "coupled":  # a nonlinear map, its derivative not symmetric
        def r(u):
            return A @ u + c * np.roll(u, 1) * u + c * u**3

        def dr(u):
            D = A + np.diag(c * np.roll(u, 1) + 3 * c * u**2)
            for i in range(n):
                D[i, i - 1] += c[i] * u[i]
            return D
    elif k == "snap":  # one variable, two limit points
        a, b = p["ab"]
        r = lambda u: u**3 - (a + b) * u**2 + (a * b + p["q"]) * u  # noqa: E731
        dr = lambda u: np.diag(3 * u**2 - 2 * (a + b) * u + a * b + p["q"])  # noqa: E731
    elif k == "softspring":  # two variables in series: snap-back if the spring is soft
        a, b = p["ab"]
        s = p["q"]

        def cub(x):
            return x**3 - (a + b) * x**2 + (a * b) * x

        def dcub(x):
            return 3 * x**2 - 2 * (a + b) * x + a * b

        r = lambda u: np.array([cub(u[0]) + s * (u[0] - u[1]), s * (u[1] - u[0])])  # noqa: E731
        dr = lambda u: np.array([[dcub(u[0]) + s, -s], [-s, s]])  # noqa: E731
    else:
        raise KeyError(k)
    U0 = np.array(p["U0"], dtype=float)
    return (lambda u: np.asarray(r(u - U0), dtype=float)), (lambda u: np.array(dr(u - U0), dtype=float))


def solve_direct(r, dr, f0, u, lam, comp, value, eta=0.0):
    """Solve lambda f0 = r(u) + eta (u - u at the start) with component comp of (u, lambda) given."""
    n = len(u)
    x, x0 = np.append(u, lam), np.array(u)
    for _ in range(60):
        K = np.zeros((n + 1, n + 1))
        K[:n, :n], K[:n, n], K[n, comp] = dr(x[:n]) + eta * np.eye(n), -f0, 1.0
        R = np.append(r(x[:n]) + eta * (x[:n] - x0) - x[n] * f0, x[comp] - value)
        dx = np.linalg.solve(K, -R)
        x = x + dx
        if np.abs(dx).max() < 1e-14 * (1 + np.abs(x).max()):
            break
    return x


class C23(Prop):
    id = "C23"
    n = {"quick": 1200, "thorough": 20000}
    floors = {"runs": 2000, "points": 9000, "spellings_compared": 500, "direct_compared": 2000,
              "points_per_component_limits": 1200, "snapshots": 10000, "states_written": 9000, "limit_points": 60,
              "adaptive_points": 1800, "points_rate_dependent": 700}
    rule = ("random analytic systems of 1-5 variables (linear, hardening, unsymmetric coupled, snap-through, "
            "snap-back; some rate-dependent, i.e. with a term of the start point of the increment) from random start points under all control settings with scalar, pair and per-component limits; "
            "equations, step limits, spellings, snapshots, and the direct solution under fixed control are compared; "
            "non-trivial: three or more points")
    assumptions = ["the analysis object carries f0red as a column and is copied by value; the start point solves the "
                   "equations with zero parameter"]

    def case(self, rng, i, tier):
        mode = ["auto", "auto", "fixed", "auto-step", "fixed", "start-j"][i % 6]
        n = int(rng.integers(1, 6))
        kind = str(rng.choice(["linear", "hardening", "sinh", "coupled"]))
        if mode.startswith("auto") and rng.random() < 0.35:
            kind = str(rng.choice(["snap", "softspring"]))
            n = 1 if kind == "snap" else 2
        B = rng.normal(size=(n, n))
        A = B @ B.T / n + np.eye(n) + (0.2 * rng.normal(size=(n, n)) if rng.random() < 0.5 else 0)
        if kind == "coupled":
            A = A + 0.3 * rng.normal(size=(n, n))
        eta = 0.0
        if kind in ("linear", "hardening", "sinh") and rng.random() < 0.3:
            eta = float(10 ** rng.uniform(-2, -0.3))
        p = dict(kind=kind, n=n, eta=eta, A=A.tolist(), c=rng.uniform(0.05, 0.6, n).tolist(),
                 U0=(rng.normal(size=n) if rng.random() < 0.5 else np.zeros(n)).tolist(),
                 ab=[float(rng.uniform(0.6, 1.2)), float(rng.uniform(1.3, 2.0))], q=float(rng.uniform(0.02, 0.15)))
        if kind == "softspring":
            p["q"] = float(rng.uniform(0.15, 3.0))
            f0 = [0.0, 1.0]
        else:
            f0 = (rng.normal(size=n) + 0.5).tolist()
            f0[int(rng.integers(n))] += 1.0
        if kind == "snap":
            f0 = [1.0]
        d = [float(x) for x in 10 ** rng.uniform(-2, -0.7, n + 1)]
        form = str(rng.choice(["scalar", "pair", "full"]))
        if form == "scalar":
            dx = d[0]
        elif form == "pair":
            dx = [d[0], d[-1]]
        else:
            dx = d
        s = dict(incs=int(rng.integers(3, 13)), dxmax=dx, nfev=8, cycl=int(rng.integers(4, 8)),
                 dxtol=float(rng.choice([1.000001, 1.25, 1.5])), stepcontrol=mode == "auto-step",
                 ftol=float(rng.choice([1e-8, 1e-10, 1e-6])), xtol=1e-8)
        if kind in ("snap", "softspring"):
            s["incs"] = int(rng.integers(20, 60))
            s["dxmax"] = [float(rng.uniform(0.03, 0.1)), float(rng.uniform(0.02, 0.1))]
        if mode == "auto-step":
            s.update(maxfac=float(rng.choice([1.5, 3, 10])), minfac=1e-4, reduce=float(rng.choice([2, 8])),
                     increase=float(rng.choice([0.5, 1.0])))
        if mode == "fixed":
            s["j_fixed"] = True
            s["j"] = int(rng.choice([n + 1, n + 1, -(n + 1), 0])) or int(rng.integers(1, n + 1)) * int(rng.choice([-1, 1]))
            s["dxtol"] = 1.25
        if mode == "start-j":
            s["j"] = int(rng.integers(1, n + 2)) * int(rng.choice([-1, 1]))
            s["j_pre"] = bool(rng.random() < 0.5)
        if rng.random() < 0.2:
            s["xlimit"] = [int(rng.integers(1, n + 2)), float(rng.uniform(0.05, 0.5))]
        if np.ndim(s["dxmax"]) and rng.random() < 0.3:  # a parameter of another size
            q = float(rng.choice([1e-3, 1e-2, 0.05, 30.0]))
            f0 = [f * q for f in f0]
            s["dxmax"] = [*s["dxmax"][:-1], s["dxmax"][-1] / q]
            if s.get("xlimit", [0])[0] == n + 1:
                s["xlimit"][1] /= q
        return dict(mode=mode, p=p, f0=f0, settings=s, start=str(rng.choice(["array", "list", "int"])))

    def follow(self, p, f0, settings, start):
        """One run of the real pathfollow; returns a record of it."""
        from trusspy.solvers import pathfollow

        r, dr = system(p)
        f0 = np.array(f0, dtype=float)
        a = Bag()
        a.f0red = f0.reshape(-1, 1).copy()
        a.written = 0
        a.where = None
        a.trace = []
        log = []

        def g(V, V0, analysis=None, statev_write=False):
            if statev_write:
                analysis.written = analysis.written + 1
                analysis.where = np.array(V, dtype=float, copy=True)
                analysis.trace.append(float(V[-1]))
                log.append(np.array(V, dtype=float, copy=True))
            return V[-1] * f0 - r(V[:-1]) - p["eta"] * (V[:-1] - V0[:-1])

        def dgdx(U, analysis=None):
            return dr(U) + p["eta"] * np.eye(len(U))

        x = np.array(p["U0"], dtype=float)
        if start == "list":
            x = [float(v) for v in x]
        elif start == "int" and not np.any(x):
            x = np.zeros(len(x), dtype=int)
        x0 = np.array(x, copy=True)
        kw = dict(settings)
        out = io.StringIO()
        dx = kw.pop("dxmax")
        if start == "array" and np.ndim(dx):
            dx = np.array(dx, dtype=float)
        dx0 = np.array(dx, copy=True)
        with contextlib.redirect_stdout(out):
            X, snaps = pathfollow(g, dgdx, x, a, dxmax=dx, **kw)
        return dict(X=np.atleast_2d(np.array(X, dtype=float)), a=snaps, log=log, out=out.getvalue(), r=r, f0=f0,
                    start=x0, x=x, dx0=dx0, dx=dx)

    def run(self, case, ctx):
        p, s, c, mode = case["p"], case["settings"], ctx.counts, case["mode"]
        n = p["n"]
        settings = dict(s)
        what = f"{p['kind']} system of {n} variables, {mode}, {s}"
        try:
            h = self.follow(p, case["f0"], settings, case["start"])
        except Exception as e:
            ctx.viol("crash", f"{what}: pathfollow raised {type(e).__name__}: {e}")
            return
        X, c["runs"] = h["X"], c["runs"] + 1
        d0 = np.ones(n + 1) * s["dxmax"] if np.ndim(s["dxmax"]) == 0 else np.array(
            [s["dxmax"][0]] * n + [s["dxmax"][1]] if len(s["dxmax"]) == 2 else s["dxmax"], dtype=float)
        # --- bookkeeping
        if not np.array_equal(np.array(h["x"]), h["start"]) or not np.array_equal(np.array(h["dx"]), h["dx0"]):
            ctx.viol("inputs-modified", f"{what}: the start point or the limits passed in were modified")
            return
        if X.shape[1] != n + 1 or not np.array_equal(X[0], np.append(np.array(p["U0"]), 0.0)):
            ctx.viol("first-row", f"{what}: the first row is {X[0].tolist()}")
            return
        if len(h["a"]) != len(X):
            ctx.viol("snapshots", f"{what}: {len(X)} solutions but {len(h['a'])} analysis snapshots")
            return
        if len(X) - 1 > s["incs"]:
            ctx.viol("too-many", f"{what}: {len(X) - 1} increments")
            return
        if len(h["log"]) != len(X) - 1 or any(not np.array_equal(a, b) for a, b in zip(h["log"], X[1:])):
            ctx.viol("state-writes", f"{what}: the state was written {len(h['log'])} times for {len(X) - 1} solutions, "
                     "or elsewhere than at the solutions")
            return
        for i in range(1, len(X)):
            a = h["a"][i]
            c["snapshots"] += 1
            c["states_written"] += a.written
            mine = [getattr(a, k, None) for k in ("Vred", "Ured", "lpf")]
            if a.written != i or not np.array_equal(a.where, X[i]) or a.trace != [float(v) for v in X[1:i + 1, -1]] \
                    or any(m is None for m in mine) or not np.array_equal(np.ravel(mine[0]), X[i]) \
                    or not np.array_equal(np.ravel(mine[1]), X[i][:-1]) or float(mine[2]) != X[i][-1]:
                ctx.viol("snapshots", f"{what}: the analysis snapshot {i} does not belong to solution {i}")
                return
        # --- equations
        for i in range(1, len(X)):
            c["points"] += 1
            c["points_rate_dependent"] += p["eta"] > 0
            res = np.linalg.norm(X[i, -1] * h["f0"] - h["r"](X[i, :-1]) - p["eta"] * (X[i, :-1] - X[i - 1, :-1]))
            if not res < s["ftol"] * (1 + 1e-6):
                ctx.viol("no-solution", f"{what}: the norm of the equations at point {i} is {res:.3g}")
                return
        # --- step limits
        lim_known = True
        for i in range(1, len(X)):
            D = X[i] - X[i - 1]
            if s["stepcontrol"]:
                d = getattr(h["a"][i], "dVmax", None)
                if d is None:
                    lim_known = False
                    break
                d = np.array(d, dtype=float)
                fac = d / d0
                c["adaptive_points"] += 1
                if np.ptp(fac) > 1e-9 * fac.max() or not s["minfac"] * (1 - 1e-9) <= fac[0] <= s["maxfac"] * (1 + 1e-9):
                    ctx.viol("limits", f"{what}: the limits of point {i} are {fac.tolist()} times the configured ones")
                    return
            else:
                d = d0
            q = np.abs(D / d)
            tol = 1e-6 + 1e-8 / d.min()
            c["points_per_component_limits"] += np.ndim(s["dxmax"]) == 1 and len(s["dxmax"]) > 2
            if s.get("j_fixed"):
                j = s["j"]
                if abs(D[abs(j) - 1] / d[abs(j) - 1] - np.sign(j)) > tol:
                    ctx.viol("step", f"{what}: point {i}: control component {j} changes by {D[abs(j) - 1]:.6g}")
                    return
            else:
                if q.max() > s["dxtol"] + 1e-9:
                    ctx.viol("step", f"{what}: point {i}: component {int(q.argmax()) + 1} changes by {q.max():.6g} times "
                             f"its limit, allowed are {s['dxtol']:.6g}")
                    return
                if np.abs(q - 1).min() > tol:
                    ctx.viol("step", f"{what}: point {i}: no component changes by its limit ({q.tolist()})")
                    return
        if not lim_known:
            c["limits_unknown"] += 1
        # --- limit of a component
        if "xlimit" in s:
            k, val = s["xlimit"]
            over = [i for i in range(1, len(X)) if abs(X[i, k - 1]) > val]
            if over and over[0] != len(X) - 1:
                ctx.viol("xlimit", f"{what}: point {over[0]} exceeds the limit, but {len(X) - 1} points follow")
                return
            if not over and len(X) - 1 < s["incs"] and "ERROR" not in h["out"]:
                ctx.viol("xlimit", f"{what}: stopped after {len(X) - 1} points below the limit without a failure")
                return
        elif len(X) - 1 < s["incs"] and "ERROR" not in h["out"]:
            ctx.viol("ended", f"{what}: {len(X) - 1} points only, and no failure reported")
            return
        # --- equivalent spellings
        forms = []
        if np.ndim(s["dxmax"]) == 0:
            forms = [[s["dxmax"]] * 2, [s["dxmax"]] * (n + 1)]
        elif len(s["dxmax"]) == 2:
            forms = [[s["dxmax"][0]] * n + [s["dxmax"][1]], tuple(s["dxmax"]), np.array(s["dxmax"])]
        else:
            forms = [tuple(s["dxmax"]), np.array(s["dxmax"])]
        for f in forms[: 2 if case["start"] == "array" else 1]:
            try:
                h2 = self.follow(p, case["f0"], dict(settings, dxmax=f), "array")
            except Exception as e:
                ctx.viol("spelling", f"{what}: limits given as {f!r} raised {type(e).__name__}: {e}")
                return
            c["spellings_compared"] += 1
            c["runs"] += 1
            if not np.array_equal(np.array(h2["x"]), h2["start"]) or not np.array_equal(np.array(h2["dx"]), h2["dx0"]):
                ctx.viol("inputs-modified", f"{what}: the start point or the limits passed in ({f!r}) were modified")
                return
            if h2["X"].shape != X.shape or not np.allclose(h2["X"], X, rtol=1e-9, atol=1e-12):
                ctx.viol("spelling", f"{what}: limits given as {f!r} lead to another path")
                return
        # --- fixed control: the direct solution
        if s.get("j_fixed"):
            r, dr = system(p)
            j, x = s["j"], X[0].copy()
            k = abs(j) - 1
            smooth = True
            for i in range(1, s["incs"] + 1):
                value = X[0, k] + i * np.sign(j) * d0[k]
                prev = x
                try:
                    x = solve_direct(r, dr, h["f0"], x[:-1], x[-1], k, value, p["eta"])
                except np.linalg.LinAlgError:
                    smooth = False
                K = np.zeros((n + 1, n + 1))
                K[:n, :n], K[:n, n], K[n, k] = dr(x[:n]) + p["eta"] * np.eye(n), -h["f0"], 1.0
                if not smooth or not np.isfinite(x).all() or np.linalg.cond(K) > 1e4 \
                        or np.abs(x - prev).max() > 3 * d0.max() + 0.5:
                    smooth = False
                    break
                if i >= len(X):
                    break
                c["direct_compared"] += 1
                if np.abs(X[i] - x).max() > 1e-4 * (1 + np.abs(x).max()):
                    ctx.viol("direct", f"{what}: point {i} is {X[i].tolist()}, the direct solution {x.tolist()}")
                    return
            if smooth and len(X) - 1 < s["incs"] and "xlimit" not in s and p["kind"] in ("linear", "hardening", "sinh") \
                    and np.linalg.norm(np.array(p["A"]) - np.array(p["A"]).T) == 0 and abs(j) == n + 1 \
                    and d0[k] * np.linalg.norm(h["f0"]) < 0.3:
                ctx.viol("direct", f"{what}: {len(X) - 1} points only of {s['incs']}")
                return
        if p["kind"] == "snap" and not s["stepcontrol"] and len(X) > 2:
            dl = np.diff(X[:, -1])
            c["limit_points"] += int(np.sum(np.sign(dl[1:]) != np.sign(dl[:-1])))
            du = np.diff(X[:, 0])
            if np.any(np.sign(du) != np.sign(du[0])):
                ctx.viol("turned-back", f"{what}: the path turned back at point {int(np.argmin(np.sign(du) == np.sign(du[0])))}")
                return
        if len(X) > 3:
            ctx.nontrivial(f"{p['kind']} {n} {mode} {X[-1].tolist()}")
            ctx.sample = dict(kind=p["kind"], n=n, mode=mode, settings=s, points=len(X) - 1)


PROPS = [C23()]
