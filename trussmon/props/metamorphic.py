"""C13, C14: metamorphic monitors. Two runs of the real code are related by a
transformation of the input; their recorded histories have to be related too."""
import contextlib
import io

import numpy as np

from .. import monitors, oracle
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from .runs import brief


# ------------------------------------------------------------- transformations
def component(v, j):
    """Signed 1-based component of the extended vector -> (sign, label, axis | 'lpf')."""
    s, k = (1, j) if j > 0 else (-1, -j)
    if k == len(v.dof1) + 1:
        return s, None, "lpf"
    d = int(v.dof1[k - 1])
    return s, v.labels[d // 3], d % 3


def index(v, s, label, axis):
    if axis == "lpf":
        return s * (len(v.dof1) + 1)
    d = 3 * v.pos[label] + axis
    return s * (int(np.flatnonzero(v.dof1 == d)[0]) + 1)


def remap_components(old, new, node=lambda n: n, axis=lambda a: (a, 1)):
    """Translate the components named in the settings of `old` for `new`."""
    v0, v1 = S.View(old), S.View(new)
    s = new["settings"]

    def one(j, signed):
        sg, lab, ax = component(v0, j)
        if ax == "lpf":
            return index(v1, sg, None, ax)
        a, m = axis(ax)
        return index(v1, sg * (m if signed else 1), node(lab), a)

    if s.get("j0") is not None:
        s["j0"] = one(old["settings"]["j0"], True)
    x = old["settings"].get("xlimit")
    if x is not None:
        if isinstance(x[0], (list, tuple)):
            s["xlimit"] = [[abs(one(c, False)), lim] for c, lim in x]
        else:
            s["xlimit"] = [abs(one(x[0], False)), x[1]]
    return new


def relabel(rng, spec, nodes=True, elements=True):
    new = S.clone(spec)
    labs = [n for n, _ in spec["nodes"]]
    nm = {a: a for a in labs}
    if nodes:
        for a, b in zip(labs, S._shuffle(rng, S._labels(rng, len(labs)))):
            nm[a] = b
    elabs = [e["label"] for e in spec["elements"]]
    em = {a: a for a in elabs}
    if elements:
        for a, b in zip(elabs, S._shuffle(rng, S._labels(rng, len(elabs)))):
            em[a] = b
    new["nodes"] = [[nm[n], x] for n, x in new["nodes"]]
    new["bounds"] = [[nm[n], x] for n, x in new["bounds"]]
    new["forces"] = [[nm[n], x] for n, x in new["forces"]]
    for e in new["elements"]:
        e["label"] = em[e["label"]]
        e["conn"] = [nm[c] for c in e["conn"]]
    remap_components(spec, new, node=lambda n: nm[n])
    return new, nm, {b: [(a, 1.0)] for a, b in em.items()}


def reorder(rng, spec):
    new = S.clone(spec)
    for k in ("nodes", "elements", "bounds", "forces"):
        new[k] = S._shuffle(rng, new[k])
    wide = any(len(e["gprop"]) > 1 for e in new["elements"])
    new["style"] = str(rng.choice(["raw", "objects"] if wide else ["raw", "objects", "assign"]))
    return new


def flip(rng, spec):
    new = S.clone(spec)
    for e in new["elements"]:
        if rng.random() < 0.5:
            e["conn"] = e["conn"][::-1]
    return new


def split(rng, spec):
    new = S.clone(spec)
    nxt = max(e["label"] for e in spec["elements"]) + 1
    origin = {e["label"]: [(e["label"], 1.0)] for e in spec["elements"]}
    out = []
    for e in new["elements"]:
        out.append(e)
        if rng.random() < 0.4:
            f = float(rng.choice([0.5, 0.25, 0.3]))
            e2 = dict(e, label=nxt, gprop=[e["gprop"][0] * (1 - f)] + e["gprop"][1:], mprop=list(e["mprop"]),
                      conn=list(e["conn"]) if rng.random() < 0.5 else list(e["conn"])[::-1])
            e["gprop"] = [e["gprop"][0] * f] + e["gprop"][1:]
            origin[e["label"]] = [(e["label"], f)]
            origin[nxt] = [(e["label"], 1 - f)]
            out.append(e2)
            nxt += 1
    new["elements"] = S._shuffle(rng, out)
    return new, origin


def jiggle(rng, spec, eps):
    new = S.clone(spec)
    size = max(abs(c) for _, x in spec["nodes"] for c in x) or 1.0
    for n in new["nodes"]:  # zeros stay zero: a plane model stays plane
        n[1] = [c + (eps * size * float(rng.normal()) if c != 0 else 0.0) for c in n[1]]
    return new


# -------------------------------------------------------------------- comparison
def history(t, v):
    return dict(
        n=len(t.R) - 1,
        lpf=np.array([float(r["lpf"]) for r in t.R]),
        step=[int(r["step"]) for r in t.R],
        U=np.array([r["U"] for r in t.R]),
        r=np.array([r["r"] for r in t.R]),
        N=np.array([r["element_force"].ravel() for r in t.R]),
        s=np.array([r["element_stress"].ravel() for r in t.R]),
        lam=np.array([r["stretch"].ravel() for r in t.R]),
        z=np.array([r["state_v"] if r["state_v"] is not None else np.zeros((len(v.el), 2)) for r in t.R]),
    )


def deviation(a, b):
    """Largest relative deviation between two histories of one model."""
    if a["n"] != b["n"] or a["step"] != b["step"]:
        return np.inf
    d = 0.0
    for k in ("lpf", "U", "r", "N", "s", "lam", "z"):
        sc = max(np.abs(a[k]).max(), 1e-12)
        d = max(d, float(np.abs(a[k] - b[k]).max() / sc) if a[k].size else 0.0)
    return d


def where_deviates(a, b):
    if a["n"] != b["n"]:
        return f"{a['n']} instead of {b['n']} increments"
    if a["step"] != b["step"]:
        return "increments belong to other steps"
    out = []
    for k in ("lpf", "U", "r", "N", "s", "lam", "z"):
        sc = max(np.abs(a[k]).max(), 1e-12)
        out.append((float(np.abs(a[k] - b[k]).max() / sc) if a[k].size else 0.0, k))
    d, k = max(out)
    i = int(np.argmax(np.abs(a[k] - b[k]).reshape(len(a[k]), -1).max(axis=1)))
    return f"{k} of result {i} deviates by {d:.2e} of its range"


class Related(Prop):
    case_timeout = 240
    TOL = 1e-6

    def base_spec(self, rng):
        mat = str(rng.choice(["el", "el", "pl", "mix"]))
        nsteps = int(rng.choice([1, 1, 2]))
        control = None if mat == "el" else "lpf"
        spec = S.random_spec(rng, mat=mat, nsteps=nsteps, control=control, stepcontrol=False,
                             incs=int(rng.integers(4, 10)))
        s = spec["settings"]
        s["ftol"], s["xtol"] = 10, 10
        s["nfev"] = 12
        s.pop("cycl", None)
        if rng.random() < 0.25:
            S.with_limit(rng, spec)
        return spec

    def run(self, case, ctx):
        c = ctx.counts
        if case["kind"] == "rigid":
            return self.run_rigid(case, ctx)
        spec = case["spec"]
        v = S.View(spec)
        t0 = T.run_spec(spec)
        if t0.status != "ok" or len(t0.R) < 2 or T.failed_increment(t0):
            c["base_not_usable"] += 1
            if t0.status == "raised" and "NaN" not in t0.exc:
                ctx.viol("crash", f"a valid model raised {t0.exc}")
            return
        a = history(t0, v)
        rng = np.random.default_rng(case["seed"])
        noise = self.sensitivity(spec, a, rng, 2, 1e-9)
        if not noise < 1e-5:
            c["unstable_paths_skipped"] += 1
            return
        new, back = self.transform(case["kind"], spec, rng)
        t1 = T.run_spec(new)
        if t1.status != "ok":
            if "NaN" in t1.exc:
                c["unstable_paths_skipped"] += 1
                return
            ctx.viol("crash", f"the transformed model ({case['kind']}) raised {t1.exc}")
            return
        if any(True for _ in monitors.usable(S.View(new), t1)):
            ctx.viol("malformed-result", "results of the transformed model are malformed")
            return
        b = back(history(t1, S.View(new)))
        dev = deviation(a, b)
        tol = self.TOL + 100 * noise
        if dev > tol:
            # is it the transformation, or is the path itself undetermined?
            more = max(self.sensitivity(spec, a, rng, 4, e) for e in (1e-11, 1e-10, 1e-8))
            b0 = history(t1, S.View(new))
            more = max(more, *(self.sensitivity(new, b0, rng, 3, e) for e in (1e-11, 1e-9)))
            if not more < 1e-4 or dev <= self.TOL + 1000 * more:
                c["unstable_paths_skipped"] += 1
                return
            ctx.viol(case["kind"], f"{case['kind']}: {where_deviates(a, b)} (perturbations of the input by "
                     f"1e-8 change it by {more:.1e})")
            return
        c["pairs_compared"] += 1
        c["pairs_" + case["kind"]] += 1
        c["increments_compared"] += a["n"]
        ctx.nontrivial(case["kind"] + T.trace_hash(t0.R[:3]))
        ctx.sample = dict(kind=case["kind"], spec=brief(spec), increments=a["n"], deviation=dev,
                          sensitivity=noise)

    def sensitivity(self, spec, a, rng, n, eps):
        d = 0.0
        for _ in range(n):
            p = jiggle(rng, spec, eps)
            t = T.run_spec(p)
            if t.status != "ok" or any(True for _ in monitors.usable(S.View(p), t)):
                return np.inf
            d = max(d, deviation(a, history(t, S.View(p))))
        return d

    def run_rigid(self, case, ctx):
        raise NotImplementedError


def map_nodes(b, v_old, v_new, nm):
    """Histories in the node order of the old model."""
    idx = [v_new.pos[nm[lab]] for lab in v_old.labels]
    b["U"], b["r"] = b["U"][:, idx], b["r"][:, idx]
    return b


def map_elements(b, v_old, v_new, origin):
    """Element results of the new model on the elements of the old one; `origin`
    maps new labels to (old label, share of the section area)."""
    out = {k: np.zeros((len(b[k]), len(v_old.el)) + b[k].shape[2:]) for k in ("N", "s", "lam", "z")}
    pos = {lab: i for i, lab in enumerate(v_old.elabels)}
    bad = False
    first = {}
    for j, lab in enumerate(v_new.elabels):
        old, share = origin[lab][0]
        i = pos[old]
        out["N"][:, i] += b["N"][:, j]
        for k in ("s", "lam", "z"):
            if i in first:
                bad |= not np.allclose(out[k][:, i], b[k][:, j], rtol=1e-6, atol=1e-9)
            out[k][:, i] = b[k][:, j]
        first[i] = True
    if bad:
        out["s"] = out["s"] + np.nan
    b.update(out)
    return b


class C13(Related):
    id = "C13"
    n = {"quick": 260, "thorough": 5000}
    floors = {"pairs_compared": 120, "pairs_order": 20, "pairs_labels": 20, "pairs_flip": 15, "pairs_split": 15,
              "pairs_all": 15}
    rule = ("pairs of runs of a random model and of the same model with shuffled input order, new node/element "
            "labels, swapped element ends, elements split into parallel ones, or all of it; paths that react to "
            "perturbations of the coordinates by 1e-9 are left out; non-trivial: the pair was compared")
    KINDS = ["order", "labels", "flip", "split", "all"]

    def case(self, rng, i, tier):
        return dict(kind=self.KINDS[i % 5], spec=self.base_spec(rng), seed=int(rng.integers(2**31)))

    def transform(self, kind, spec, rng):
        v0 = S.View(spec)
        nm = {n: n for n in v0.labels}
        origin = {e: [(e, 1.0)] for e in v0.elabels}
        new = S.clone(spec)
        if kind in ("split", "all"):
            new, origin = split(rng, new)
        if kind in ("labels", "all"):
            new, nm, em = relabel(rng, new)
            origin = {b: origin[em[b][0][0]] for b in em}
        if kind in ("flip", "all"):
            new = flip(rng, new)
        if kind in ("order", "all"):
            new = reorder(rng, new)
        v1 = S.View(new)

        def back(b):
            return map_elements(map_nodes(b, v0, v1, nm), v0, v1, origin)

        return new, back


def signed_permutation(rng):
    P = np.zeros((3, 3))
    for i, k in enumerate(rng.permutation(3)):
        P[i, k] = rng.choice([-1.0, 1.0])
    return P


class C14(Related):
    id = "C14"
    n = {"quick": 420, "thorough": 6000}
    floors = {"pairs_compared": 100, "pairs_axes": 20, "pairs_translate": 20, "pairs_force": 20,
              "pairs_length": 20, "rigid_states": 60}
    rule = ("pairs of runs related by a translation, a signed axis permutation, a change of the force or length "
            "unit; and states of unsupported random trusses under arbitrary rotations and rigid motions through "
            "the public callbacks; non-trivial: the pair or state was compared")
    KINDS = ["axes", "translate", "force", "length", "rigid"]

    def case(self, rng, i, tier):
        kind = self.KINDS[i % 5]
        if kind == "rigid":
            spec = S.random_spec(rng, mat=str(rng.choice(["el", "mix", "pl"])), nsteps=1, control="auto")
            return dict(kind=kind, spec=spec, seed=int(rng.integers(2**31)))
        return dict(kind=kind, spec=self.base_spec(rng), seed=int(rng.integers(2**31)))

    def transform(self, kind, spec, rng):
        new = S.clone(spec)
        s = new["settings"]
        if kind == "translate":
            d = rng.normal(size=3) * rng.choice([1.0, 10.0, 100.0])
            for n in new["nodes"]:
                n[1] = [float(a + b) for a, b in zip(n[1], d)]
            return new, lambda b: b
        if kind == "axes":
            P = signed_permutation(rng)
            A = np.abs(P)
            to = {int(np.flatnonzero(P[i])[0]): (i, int(P[i].sum())) for i in range(3)}
            for n in new["nodes"]:
                n[1] = [float(x) for x in P @ np.array(n[1])]
            for n in new["bounds"]:
                n[1] = [int(x) for x in A @ np.array(n[1])]
            for n in new["forces"]:
                n[1] = [float(x) for k in range(0, len(n[1]), 3) for x in P @ np.array(n[1][k:k + 3])]
            remap_components(spec, new, axis=lambda a: to[a])

            def back(b):
                b["U"], b["r"] = b["U"] @ P, b["r"] @ P
                return b

            return new, back
        if kind == "force":
            a = float(rng.choice([1000.0, 1e-3, 4.448, 0.01, 1e8, 1e-8, 1e-12]))
            if any(e["mat"] == 2 for e in spec["elements"]) and rng.random() < 0.6:
                a = float(rng.choice([1e8, 1e-8, 1e-12]))
            for e in new["elements"]:
                e["mprop"] = [m * a for m in e["mprop"]]
            for n in new["forces"]:
                n[1] = [x * a for x in n[1]]
            s["ftol"] = float(s["ftol"] - np.log10(a))

            def back(b):
                for k in ("r", "N", "s"):
                    b[k] = b[k] / a
                b["z"] = b["z"] / [a, 1.0]
                return b

            return new, back
        if kind == "length":
            a = float(rng.choice([1000.0, 0.0254, 100.0, 0.5, 1e-7, 1e-9, 1e6]))
            for n in new["nodes"]:
                n[1] = [x * a for x in n[1]]
            for e in new["elements"]:
                e["mprop"] = [m / a**2 for m in e["mprop"]]
                e["gprop"] = [g * a**2 for g in e["gprop"]]
            s["du"] = s["du"] * a
            s["xtol"] = float(s["xtol"] - max(0.0, np.log10(a)))
            x = s.get("xlimit")
            nd = len(S.View(spec).dof1)
            if x is not None:
                def one(c):
                    return [c[0], c[1] * a if c[0] <= nd else c[1]]

                s["xlimit"] = [one(c) for c in x] if isinstance(x[0], (list, tuple)) else one(x)

            def back(b):
                b["U"] = b["U"] / a
                b["s"] = b["s"] * a**2
                b["z"] = b["z"] * [a**2, 1.0]
                return b

            return new, back
        raise KeyError(kind)

    def run_rigid(self, case, ctx):
        rng = np.random.default_rng(case["seed"])
        c = ctx.counts
        spec = S.clone(case["spec"])
        # nothing is supported; no increment is solved
        spec["bounds"] = [[spec["nodes"][0][0], [1, 1, 1]]]
        spec["settings"] = dict(incs=0, nsteps=1)

        def model(sp):
            with contextlib.redirect_stdout(io.StringIO()):
                M = S.make_model(sp, log=0)
                M.build()
                M.run()
            return M

        q, rr = np.linalg.qr(rng.normal(size=(3, 3)))
        Q = q * np.sign(np.diag(rr))
        if np.linalg.det(Q) < 0:
            Q[:, 0] *= -1
        shift = rng.normal(size=3) * 2
        rot = S.clone(spec)
        for n in rot["nodes"]:
            n[1] = [float(x) for x in Q @ np.array(n[1]) + shift]
        for n in rot["forces"]:
            n[1] = [float(x) for x in Q @ np.array(n[1])]
        v = S.View(spec)
        try:
            M, M2 = model(spec), model(rot)
        except Exception as e:
            ctx.inconclusive = f"zero-increment run raised {e}"
            return
        red = lambda U: np.append(np.asarray(U).ravel(), 0.0)  # noqa: E731

        def state(m, U):
            K = np.array(m.stiffness(red(U), analysis=m.Analysis), copy=True)
            m.equilibrium(red(U), red(U), analysis=m.Analysis)
            d = T.snap(m.Analysis)
            return d, K

        for k in range(3):
            U = rng.normal(size=(v.n, 3)) * [0.02, 0.2, 0.8][k]
            lam, _, l = oracle.kinematics(v, U)
            if l.min() < 0.1:
                continue
            d, K = state(M, U)
            d2, K2 = state(M2, U @ Q.T)
            ill = (1 + np.abs(v.X).max() + np.abs(shift).max()) / min(l.min(), v.L.min())
            tol = 1e-11 * v.force_scale * ill * (1 + np.abs(U).max())
            over = np.abs(np.abs(v.E * (lam - 1)) - v.Sy)
            kink = bool(np.any(over < 1e-9 * v.E))
            c["rigid_states"] += 1
            if not monitors.close(d2["r"], d["r"] @ Q.T, tol):
                ctx.viol("rotation-forces", "internal forces do not rotate with the model, by "
                         + monitors.maxdiff(d2["r"], d["r"] @ Q.T))
                return
            big = np.kron(np.eye(v.n), Q)
            if not kink and not monitors.close(K2, big @ K @ big.T, 100 * tol / min(l.min(), v.L.min())):
                ctx.viol("rotation-stiffness", "the stiffness does not rotate with the model, by "
                         + monitors.maxdiff(K2, big @ K @ big.T))
                return
            # rigid motion of the undeformed model
            q2, r2 = np.linalg.qr(rng.normal(size=(3, 3)))
            Q2 = q2 * np.sign(np.diag(r2))
            if np.linalg.det(Q2) < 0:
                Q2[:, 0] *= -1
            Ur = v.X @ Q2.T - v.X + rng.normal(size=3)
            d, _ = state(M, Ur)
            if not (np.abs(d["r"]).max() <= tol * 10 and np.abs(d["stretch"] - 1).max() <= 1e-11 * ill):
                ctx.viol("rigid-motion", f"a rigid-body motion causes internal forces {np.abs(d['r']).max():.3e}")
                return
            # a rigid motion on top of a deformation
            d1, _ = state(M, U)
            x = (v.X + U) @ Q2.T + 1.0
            d3, _ = state(M, x - v.X)
            if not monitors.close(d3["r"], d1["r"] @ Q2.T, tol * 10):
                ctx.viol("superposed-rotation", "internal forces do not follow a superposed rigid motion, by "
                         + monitors.maxdiff(d3["r"], d1["r"] @ Q2.T))
                return
        ctx.nontrivial("rigid" + str(case["seed"]))
        ctx.sample = dict(kind="rigid", spec=brief(case["spec"]))


PROPS = [C13(), C14()]
