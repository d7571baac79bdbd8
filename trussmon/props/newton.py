"""C22: the contract of the Newton solver, for any function."""
import contextlib
import io

import numpy as np

from .. import runtime as T
from .. import spec as S
from ..core import Prop
from ..env import tp  # noqa: F401
from .runs import brief


def system(kind, n, p):
    """A function of n variables and its derivative, with parameters p (plain data)."""
    A = np.array(p["A"], dtype=float)
    b = np.array(p["b"], dtype=float)
    if kind == "linear":
        return lambda x: A @ x - b, lambda x: A
    if kind == "quadratic":
        return lambda x: A @ (x * x) - b, lambda x: A * (2 * x)
    if kind == "cubic":
        return lambda x: A @ x**3 + x - b, lambda x: A * (3 * x**2) + np.eye(n)
    if kind == "sine":
        return lambda x: np.sin(A @ x) + 0.3 * x - b, lambda x: np.cos(A @ x)[:, None] * A + 0.3 * np.eye(n)
    if kind == "exp":
        return lambda x: np.exp(np.clip(x, -300, 300)) + A @ x - b, \
            lambda x: np.diag(np.exp(np.clip(x, -300, 300))) + A
    if kind == "double-root":
        return lambda x: (x - b) ** 2, lambda x: np.diag(2 * (x - b))
    if kind == "no-root":
        return lambda x: x**2 + 1 + b**2, lambda x: np.diag(2 * x)
    if kind == "log":
        return lambda x: np.log(x) - b, lambda x: np.diag(1 / x)
    if kind == "singular":
        B = A.copy()
        B[-1] = 0.0
        return lambda x: B @ x - b, lambda x: B
    if kind == "modified":  # a wrong, constant derivative: slow or diverging
        return lambda x: np.tanh(x) + 0.2 * A @ x - b, lambda x: float(p["q"]) * np.eye(n)
    if kind == "kink":
        return lambda x: np.where(x > b, x - b, 3 * (x - b)) + 0.1 * A @ np.abs(x), \
            lambda x: np.diag(np.where(x > b, 1.0, 3.0)) + 0.1 * A * np.sign(x)
    if kind == "identity":
        return lambda x: x, lambda x: np.eye(n)  # returns the very array it gets
    if kind == "scaled":  # unknowns and equations of very different size
        d, k = np.array(p["d"]), np.array(p["perm"])

        def df(x):
            J = np.zeros((n, n))
            J[np.arange(n), k] = d * (1 + 0.3 * x[k] ** 2)
            return J

        return lambda x: d * (x[k] + 0.1 * x[k] ** 3 - b), df
    if kind == "flat":
        return lambda x: 1e-13 * np.ones(n), lambda x: 1e-9 * np.eye(n)
    raise KeyError(kind)


KINDS = ["linear", "quadratic", "cubic", "sine", "exp", "double-root", "no-root", "log", "singular", "modified", "kink",
         "identity", "flat", "truss", "scaled"]


class Token:
    """An extra argument, recognised by identity."""


class C22(Prop):
    id = "C22"
    n = {"quick": 4000, "thorough": 80000}
    floors = {"solves": 3500, "iterations": 12000, "successes": 900, "failures": 800, "linear_solves_checked": 9000,
              "points_before_checked": 6000, "kind_truss": 150, "nonfinite": 100, "extra_arguments": 4000, "scaled_updates_checked": 400}
    floors.update({"kind_" + k: 150 for k in KINDS})
    rule = ("15 families of functions of 1-6 variables (linear to truss equilibrium; double roots, no roots, singular, "
            "wrong, non-finite derivatives), random starts, tolerances (also 0 and infinite), iteration limits and "
            "extra arguments; all evaluations recorded and the contract decided on the recorded points; non-trivial: "
            "two or more iterations")
    assumptions = ["functions are deterministic and return arrays of the length of x; at least one iteration allowed; "
                   "the linear solver may refuse a singular or non-finite system with an exception"]

    def case(self, rng, i, tier):
        kind = KINDS[i % len(KINDS)]
        n = int(rng.integers(1, 7))
        A = rng.normal(size=(n, n)) + (2 if rng.random() < 0.7 else 0) * np.eye(n)
        sc = 10.0 ** rng.integers(-3, 4) if rng.random() < 0.3 else 1.0
        p = dict(A=(sc * A).tolist(), b=(sc * rng.normal(size=n)).tolist(), q=float(rng.uniform(0.3, 3)))
        x0 = rng.normal(size=n) * 10.0 ** rng.integers(-2, 3)
        if rng.random() < 0.1:
            x0 = np.zeros(n)
        if rng.random() < 0.1:
            x0 = np.round(x0)
        if kind == "scaled":
            p["d"] = (10.0 ** rng.uniform(-10, 10, n)).tolist()
            p["perm"] = [int(k) for k in rng.permutation(n)]
        if kind == "log":
            x0 = np.abs(x0) + 0.01

        def tol():
            r = rng.random()
            if r < 0.05:
                return 0.0
            if r < 0.1:
                return "inf"
            return float(10.0 ** rng.uniform(-14, 1)) if r < 0.5 else 1e-8

        c = dict(kind=kind, n=n, p=p, x0=x0.tolist(), nfev=int(rng.integers(1, 13)), ftol=tol(), xtol=tol(),
                 nargs=int(rng.integers(0, 4)), verbose=int(rng.random() < 0.1), defaults=bool(rng.random() < 0.05),
                 intstart=bool(rng.random() < 0.05))
        if kind == "truss":
            c["spec"] = S.random_spec(rng, incs=2, mat="el", control="auto")
            c["seed"] = int(rng.integers(2**31))
        return c

    def truss(self, case):
        t = T.run_spec(case["spec"])
        if t.status != "ok":
            return None
        M = t.model
        rng = np.random.default_rng(case["seed"])
        nd = len(S.View(case["spec"]).dof1)
        lam = float(rng.normal() * 0.3)

        def f(u):
            v = np.append(u, lam)
            return -np.array(M.equilibrium(v, v), dtype=float)

        def df(u):
            return np.array(M.stiffness(u), dtype=float)

        return f, df, rng.normal(size=nd) * 0.05

    def run(self, case, ctx):
        from trusspy.solvers import newton

        kind, c = case["kind"], ctx.counts
        if kind == "truss":
            s = self.truss(case)
            if s is None:
                c["not_usable"] += 1
                return
            f, df, x0 = s
        else:
            f, df = system(kind, case["n"], case["p"])
            x0 = np.array(case["x0"])
        if case["intstart"]:
            x0 = np.round(x0).astype(int)
        start = x0.copy()
        extra = tuple(Token() for _ in range(case["nargs"]))
        Kx, fx = [], []
        bad = []

        def seen(a):
            c["extra_arguments"] += len(a)
            if len(a) != len(extra) or any(p is not q for p, q in zip(a, extra)):
                bad.append(len(a))

        def F(x, *a):
            seen(a)
            fx.append(np.array(x, dtype=float, copy=True))
            return f(x)

        def DF(x, *a):
            seen(a)
            Kx.append(np.array(x, dtype=float, copy=True))
            return df(x)

        nfev, ftol, xtol = case["nfev"], float(case["ftol"]), float(case["xtol"])
        try:
            with contextlib.redirect_stdout(io.StringIO()) as out:
                if case["defaults"]:
                    nfev, ftol, xtol, extra = 8, 1e-8, 1e-8, ()
                    ret = newton(F, DF, x0)
                else:
                    ret = newton(F, DF, x0, nfev, ftol, xtol, case["verbose"], *extra)
        except Exception as e:
            with np.errstate(all="ignore"):
                J = np.array(df(Kx[-1]), dtype=float) if Kx else np.eye(1)
                if not np.isfinite(J).all() or np.linalg.matrix_rank(J) < len(J):
                    c["refused_systems"] += 1  # by the linear solver: singular or not finite
                    return
            ctx.viol("crash", f"{kind}: newton raised {type(e).__name__}: {e}")
            return
        x, success, n, fn, xn = ret
        x = np.asarray(x, dtype=float)
        c["solves"] += 1
        c["kind_" + kind] += 1
        c["iterations"] += int(n)
        c["successes"] += bool(success)
        c["failures"] += not success
        what = f"{kind} of {len(start)} variables from {np.round(start, 4).tolist()}, nfev {nfev}, ftol {ftol:g}, " \
               f"xtol {xtol:g}"
        if case["verbose"] == 0 and out.getvalue():
            ctx.viol("printed", f"{what}: printed {out.getvalue()[:80]!r} although verbose is 0")
            return
        if not np.array_equal(x0, start):
            ctx.viol("start-modified", f"{what}: the start vector was modified to {x0.tolist()}")
            return
        if bad:
            ctx.viol("arguments", f"{what}: the extra arguments were not passed on unchanged")
            return
        if not 1 <= n <= nfev:
            ctx.viol("count", f"{what}: {n} iterations")
            return
        pts = Kx
        if len(pts) != n:  # further evaluations at the same points do no harm
            pts = [p for k, p in enumerate(Kx) if k == 0 or not np.array_equal(p, Kx[k - 1], equal_nan=True)]
        if len(pts) != n:
            ctx.viol("count", f"{what}: reports {n} iterations but linearized at {len(pts)} points")
            return
        if not np.array_equal(pts[0], start.astype(float)):
            ctx.viol("start", f"{what}: the first point is {pts[0].tolist()}")
            return
        P = pts + [x]
        eps = np.finfo(float).eps
        with np.errstate(all="ignore"):
            Fv = [np.array(f(p), dtype=float) for p in P]
            Fn = [float(np.linalg.norm(v)) for v in Fv]
            D = [P[k + 1] - P[k] for k in range(n)]
            Dn = [float(np.linalg.norm(d)) for d in D]
            slack = [8 * eps * (float(np.abs(P[k + 1]).max()) + float(np.abs(P[k]).max())) * np.sqrt(len(x))
                     for k in range(n)]
        # returned norms belong to the returned point
        fin = np.isfinite(Fn[-1])
        c["nonfinite"] += not fin
        if fin and not abs(fn - Fn[-1]) <= 1e-9 * Fn[-1] + 1e-300 or np.isfinite(fn) != fin:
            ctx.viol("norm-f", f"{what}: returns norm(f) {fn:.6g}, at the returned point it is {Fn[-1]:.6g}")
            return
        if np.isfinite(Dn[-1]) and not abs(xn - Dn[-1]) <= 1e-9 * Dn[-1] + slack[-1]:
            ctx.viol("norm-x", f"{what}: returns norm(dx) {xn:.6g}, the last update has {Dn[-1]:.6g}")
            return
        # success if and only if
        if bool(success) != bool(fn < ftol and xn < xtol):
            ctx.viol("success", f"{what}: success {success} with norm(f) {fn:.6g} and norm(dx) {xn:.6g} after {n} "
                     "iterations")
            return
        if not success and n != nfev:
            ctx.viol("gave-up-early", f"{what}: no success, but {n} iterations only")
            return
        for k in range(n - 1):
            c["points_before_checked"] += 1
            if Fn[k + 1] < ftol * (1 - 1e-9) and Dn[k] + slack[k] < xtol * (1 - 1e-9):
                ctx.viol("not-first", f"{what}: iteration {k + 1} meets both tolerances (norm(f) {Fn[k + 1]:.6g}, "
                         f"norm(dx) {Dn[k]:.6g}), but {n} were performed")
                return
        # every update solves the linearized equations
        for k in range(n):
            with np.errstate(all="ignore"):
                J = np.array(df(P[k]), dtype=float)
            if not (np.isfinite(J).all() and np.isfinite(Fv[k]).all() and np.isfinite(P[k]).all()):
                continue
            if not np.isfinite(D[k]).all():
                if kind == "scaled" or np.linalg.cond(J) < 1e10:
                    ctx.viol("update", f"{what}: update {k + 1} is not finite, although the linearized equations are "
                             "regular")
                    return
                continue
            if kind == "scaled":  # each equation has one unknown: decided one by one
                c["scaled_updates_checked"] += 1
                lin = np.abs(J @ D[k] + Fv[k])
                if np.any(lin > 1e-9 * (np.abs(J) @ (np.abs(P[k]) + np.abs(P[k + 1])) + np.abs(Fv[k]))):
                    ctx.viol("update", f"{what}: update {k + 1} does not solve the linearized equations")
                    return
            nJ = np.linalg.norm(J)
            res = np.linalg.norm(J @ D[k] + Fv[k])
            if np.linalg.cond(J) > 1e12:
                continue
            c["linear_solves_checked"] += 1
            if res > 1e-7 * (nJ * Dn[k] + Fn[k]) + 100 * nJ * slack[k]:
                ctx.viol("update", f"{what}: update {k + 1} leaves a residual of {res:.3g} of the linearized equations")
                return
        if n > 1:
            ctx.nontrivial(f"{kind} {n} {success} {start.tolist()}")
            ctx.sample = dict(kind=kind, n=len(start), iterations=int(n), success=bool(success), nfev=nfev, ftol=ftol,
                              xtol=xtol) | ({"spec": brief(case["spec"])} if kind == "truss" else {})


PROPS = [C22()]
