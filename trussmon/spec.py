"""Seeded generators of truss models ("specs": plain JSON data), and the code that
turns a spec into a trusspy model through the public API."""
import copy

import numpy as np

from . import oracle
from .env import tp

SETTING_NAMES = (
    "incs", "du", "dlpf", "stepcontrol", "maxfac", "minfac", "increase", "reduce",
    "dxtol", "ftol", "xtol", "cycl", "nfev", "xlimit", "j0", "j_fixed", "j_pre",
    "nsteps", "nstatev",
)


# --------------------------------------------------------------------- build
def make_model(spec, log=0, cls=None, **kw):
    """Build the trusspy model of a spec (without calling Model.build())."""
    M = (cls or tp.Model)(log=log, **kw)
    fill_model(M, spec)
    return M


def fill_model(M, spec):
    style = spec.get("style", "raw")
    nodes, elements = spec["nodes"], spec["elements"]
    bounds, forces = spec["bounds"], spec["forces"]
    if style == "raw":
        with M.Nodes as H:
            for lab, x in nodes:
                H.add_node(lab, tuple(x))
        with M.Elements as H:
            for e in elements:
                H.add_element(
                    e["label"], list(e["conn"]), mat_type=e["mat"],
                    mprop=list(e["mprop"]), gprop=list(e["gprop"]),
                )
        with M.Boundaries as H:
            for n, v in bounds:
                H.add_bound_U(n, tuple(v))
        with M.ExtForces as H:
            for n, f in forces:
                H.add_force(n, tuple(f))
    elif style == "objects":
        M.Nodes.add_nodes([tp.Node(lab, np.array(x)) for lab, x in nodes])
        M.Elements.add_elements(
            [
                tp.Element(
                    e["label"], e["conn"], 1, e["mat"],
                    material_properties=list(e["mprop"]),
                    geometric_properties=list(e["gprop"]),
                )
                for e in elements
            ]
        )
        M.Boundaries.add_bounds_U([tp.BoundaryU(n, v) for n, v in bounds])
        M.ExtForces.add_forces([tp.ExternalForce(n, f) for n, f in forces])
    elif style == "assign":
        for lab, x in nodes:
            M.Nodes.add_node(lab, coord=x)
        for e in elements:
            M.Elements.add_element(e["label"], conn=e["conn"])
        M.Elements.assign_etype("all", 1)
        for e in elements:
            M.Elements.assign_mtype([e["label"]], e["mat"])
            M.Elements.assign_material([e["label"]], list(e["mprop"]))
        M.Elements.assign_geometries(
            [e["label"] for e in elements], [list(e["gprop"]) for e in elements]
        )
        for n, v in bounds:
            M.Boundaries.add_bound_U(n, v)
        for n, f in forces:
            M.ExtForces.add_force(n, f)
    else:
        raise KeyError(style)
    apply_settings(M, spec["settings"])
    return M


def apply_settings(M, settings):
    for k, v in settings.items():
        if k in ("incs", "xlimit") and isinstance(v, list):
            v = tuple(tuple(i) if isinstance(i, list) else i for i in v)
        if isinstance(v, tuple):
            v = tuple(np.inf if i == "inf" else i for i in v)
        setattr(M.Settings, k, v)


# --------------------------------------------------------------- derived data
class View:
    """Everything the oracle needs, computed from the spec alone (nodes sorted by
    label, as every result array is ordered)."""

    def __init__(self, spec):
        nodes = sorted(spec["nodes"], key=lambda n: n[0])
        self.labels = [n[0] for n in nodes]
        self.pos = {lab: i for i, lab in enumerate(self.labels)}
        self.X = np.array([n[1] for n in nodes], dtype=float)
        self.n = len(nodes)
        self.el = spec["elements"]
        self.elabels = [e["label"] for e in self.el]
        self.conn = np.array([[self.pos[c] for c in e["conn"]] for e in self.el])
        self.A = np.array([e["gprop"][0] for e in self.el], dtype=float)
        self.E = np.array([e["mprop"][0] for e in self.el], dtype=float)
        self.mat = np.array([e["mat"] for e in self.el])
        self.H = np.array(
            [e["mprop"][1] if e["mat"] == 2 else 0.0 for e in self.el], dtype=float
        )
        self.Sy = np.array(
            [e["mprop"][2] if e["mat"] == 2 else np.inf for e in self.el], dtype=float
        )
        free = np.ones((self.n, 3), dtype=bool)
        for n, v in spec["bounds"]:
            free[self.pos[n]] = [bool(i) for i in v]
        self.free = free
        self.dof1 = np.flatnonzero(free.ravel())
        self.dof0 = np.flatnonzero(~free.ravel())
        self.nsteps = int(spec["settings"].get("nsteps", 1))
        F = np.zeros((self.nsteps, self.n, 3))
        for n, f in spec["forces"]:
            for s in range(self.nsteps):
                F[s, self.pos[n]] = f[3 * s : 3 * s + 3]
        self.F = F
        self.spec = spec
        self.settings = spec["settings"]
        self.L = np.linalg.norm(
            self.X[self.conn[:, 1]] - self.X[self.conn[:, 0]], axis=1
        )
        self.force_scale = float(np.max(self.E * self.A)) + float(np.max(np.abs(F)))

    def setting(self, name):
        return self.settings.get(name, DEFAULTS[name])


DEFAULTS = dict(
    incs=50, du=0.02, dlpf=0.02, stepcontrol=False, maxfac=10, minfac=1e-6,
    increase=0.5, reduce=8, dxtol=1.000001, ftol=8, xtol=8, cycl=4, nfev=8,
    xlimit=(0, np.inf), j0=None, j_fixed=False, j_pre=True, nsteps=1,
)


# ----------------------------------------------------------------- generators
def rnd(rng, lo, hi):
    return float(rng.uniform(lo, hi))


def r4(x):
    return float(np.round(x, 4))


def _labels(rng, n, kind=None):
    kind = kind or rng.choice(["seq", "gap", "shuffled", "negative", "big", "big", "huge"], p=[.2, .2, .2, .2, .1, .05, .05])
    if kind == "seq":
        return list(range(1, n + 1))
    if kind == "gap":
        return sorted(int(i) for i in rng.choice(np.arange(1, 20 * n), n, False))
    if kind == "shuffled":
        return [int(i) for i in rng.permutation(np.arange(1, n + 1))]
    if kind == "negative":
        return [int(i) for i in rng.permutation(np.arange(-n, 2 * n))[:n]]
    if kind == "huge":  # distinguished by all digits only
        return [int(i) for i in rng.permutation(int(rng.choice([2**25, 2**33, 2**52])) + 1 + np.arange(n))]
    return [int(i) for i in rng.permutation(100000 + 7 * np.arange(n))]


def _shuffle(rng, seq):
    return [seq[i] for i in rng.permutation(len(seq))]


def geometry(rng, family, size=None):
    """Return node coordinates, element node pairs, free-flags per node."""
    if family == "space":
        nsup = int(rng.integers(3, 6))
        nfree = int(size or rng.integers(1, 4))
        X = [
            [2.5 * np.cos(a) + rnd(rng, -0.3, 0.3), 2.5 * np.sin(a) + rnd(rng, -0.3, 0.3),
             rnd(rng, -0.3, 0.3)]
            for a in np.linspace(0, 2 * np.pi, nsup, endpoint=False)
        ]
        free = [[0, 0, 0]] * nsup
        el = []
        for k in range(nfree):
            X.append([rnd(rng, -1.2, 1.2), rnd(rng, -1.2, 1.2),
                      1.0 + 0.8 * k + rnd(rng, -0.3, 0.3)])
            cand = list(range(nsup)) + list(range(nsup, nsup + k))
            m = min(len(cand), int(rng.integers(3, 5)))
            for c in rng.choice(cand, m, False):
                el.append((int(c), nsup + k))
            f = [1, 1, 1]
            if rng.random() < 0.25:
                f[int(rng.integers(3))] = 0
            free.append(f)
    elif family == "dome":
        nsup = int(rng.integers(3, 7))
        rad = rnd(rng, 1.0, 3.0)
        X = [
            [rad * np.cos(a + rnd(rng, -0.15, 0.15)), rad * np.sin(a + rnd(rng, -0.15, 0.15)),
             rnd(rng, -0.05, 0.05)]
            for a in np.linspace(0, 2 * np.pi, nsup, endpoint=False)
        ]
        X.append([rnd(rng, -0.15, 0.15), rnd(rng, -0.15, 0.15), rad * rnd(rng, 0.15, 0.45)])
        free = [[0, 0, 0]] * nsup + [[1, 1, 1]]
        el = [(i, nsup) for i in range(nsup)]
    elif family == "plane":
        # a braced cantilever in the xz-plane
        nb = int(size or rng.integers(1, 4))
        X, free = [], []
        for k in range(nb + 1):
            for z in (0.0, 1.0):
                X.append([1.1 * k + rnd(rng, -0.1, 0.1), rnd(rng, -0.5, 0.5) * 0,
                          z + rnd(rng, -0.1, 0.1)])
                free.append([0, 0, 0] if k == 0 else [1, 0, 1])
        el = []
        for k in range(nb):
            a = 2 * k
            el += [(a, a + 2), (a + 1, a + 3), (a + 2, a + 3), (a, a + 3)]
            if rng.random() < 0.5:
                el.append((a + 1, a + 2))
    elif family == "chain":
        m = int(size or rng.integers(1, 5))
        ax = int(rng.integers(3))
        sgn = float(rng.choice([-1, 1]))
        X, free = [[0.0, 0.0, 0.0]], [[0, 0, 0]]
        for k in range(m):
            x = list(X[-1])
            x[ax] += sgn * rnd(rng, 0.6, 1.4)
            X.append(x)
            f = [0, 0, 0]
            f[ax] = 1
            free.append(f)
        el = [(k, k + 1) for k in range(m)]
    elif family == "twobar":
        w1, w2 = rnd(rng, 0.7, 1.5), rnd(rng, 0.7, 1.5)
        h = rnd(rng, 0.25, 1.2)
        X = [[-w1, 0, 0], [0, 0, h], [w2, 0, 0]]
        free = [[0, 0, 0], [1, 0, 1] if rng.random() < 0.6 else [0, 0, 1], [0, 0, 0]]
        el = [(0, 1), (1, 2)]
    elif family == "tower":
        # triangular bays on top of each other: many nodes and elements
        m = int(size or rng.integers(4, 9))
        X, free, el = [], [], []
        for k in range(m + 1):
            for a in (0.2, 2.3, 4.4):
                X.append([np.cos(a) + rnd(rng, -0.1, 0.1), np.sin(a) + rnd(rng, -0.1, 0.1),
                          k * 0.9 + rnd(rng, -0.1, 0.1)])
                free.append([int(k > 0)] * 3)
            if k:
                for i in range(3):
                    a, b, c, d = 3 * (k - 1) + i, 3 * (k - 1) + (i + 1) % 3, 3 * k + i, 3 * k + (i + 1) % 3
                    el += [(a, c), (a, d), (c, d)]
    else:
        raise KeyError(family)
    X = [[r4(c) for c in x] for x in X]
    return X, el, free


STEPCONTROL = ("maxfac", "minfac", "increase", "reduce")
RARE = [("reduce", [1.5, 3.0, 20.0]), ("increase", [0.0, 2.0]), ("maxfac", [1.0, 1.2, 100.0]),
        ("minfac", [0.3, 1.0, 1e-9]), ("cycl", [1, 2, 20]), ("nfev", [2, 3, 30]), ("dxtol", [2.5, 1.0000000001]),
        ("ftol", [9, 6]), ("xtol", [9, 6])]

FAMILIES = ["space", "dome", "plane", "chain", "twobar", "tower"]


def random_spec(rng, family=None, mat=None, nsteps=1, control=None, labels=None,
                style=None, size=None, incs=None, stepcontrol=None, reversal=None,
                tries=40):
    """A random, statically stable model with settings that usually converge."""
    for _ in range(tries):
        fam = family or FAMILIES[int(rng.choice(len(FAMILIES), p=[0.3, 0.2, 0.2, 0.15, 0.13, 0.02]))]
        rev = bool(rng.random() < 0.4) if reversal is None else reversal
        spec = _random_spec(rng, fam, mat, nsteps, control, labels, style, size, incs,
                            stepcontrol, rev)
        v = View(spec)
        if v.L.min() > 0.1 and oracle.stable(v, 5e-5 if fam == "tower" else 2e-3):
            if rng.random() < 0.1:  # far from the origin
                h = [r4(rnd(rng, -1, 1) * float(rng.choice([20, 200, 8000]))) for _ in range(3)]
                for n in spec["nodes"]:
                    n[1] = [r4(a + b) for a, b in zip(n[1], h)]
            return spec
    raise RuntimeError("no stable model found")


def _random_spec(rng, fam, mat, nsteps, control, labels, style, size, incs, stepcontrol,
                 reversal):
    X, el, free = geometry(rng, fam, None if fam == "tower" else size)
    n = len(X)
    whole = rng.random() < 0.08
    if whole:  # all numbers of the input are Python integers
        X = [[int(round(3 * c)) for c in x] for x in X]
    fixed = [i for i in range(n) if not any(free[i])]
    if len(fixed) > 1 and rng.random() < 0.1:  # an element between two supports
        el = el + [tuple(int(i) for i in rng.choice(fixed, 2, False))]
    if rng.random() < 0.15:  # parallel elements
        for _ in range(int(rng.integers(1, 3))):
            a, b = el[int(rng.integers(len(el)))]
            el = el + [(a, b) if rng.random() < 0.5 else (b, a)]
    more = int(rng.integers(1, 3)) if rng.random() < 0.1 else 0  # unused trailing properties
    style = style or str(rng.choice(["raw", "objects", "assign"]))
    section = int(rng.integers(1, 3)) if style != "assign" and rng.random() < 0.1 else 0
    lab = _labels(rng, n, labels)
    elab = _labels(rng, len(el), labels)
    E0 = float(rng.choice([1.0, 1.0, 10.0, 100.0]))
    mat = mat if mat is not None else str(rng.choice(["el", "el", "pl", "mix"]))
    elements = []
    for k, (a, b) in enumerate(el):
        if rng.random() < 0.3:
            a, b = b, a
        mt = {"el": 1, "pl": 2}.get(mat) or int(rng.integers(1, 3))
        E = E0 * (r4(rnd(rng, 0.6, 1.6)) if rng.random() < 0.7 else 1.0)
        if mat == "el":
            mp = [E]
        else:
            H = E * float(rng.choice([0.02, 0.1, 0.3, 0.8])) if rng.random() < 0.9 else 0.5 * E
            mp = [E, r4(H), r4(E0 * rnd(rng, 0.01, 0.08))]
        if whole and mat == "el":
            mp = [int(np.ceil(E))]
        if more:
            mp = mp + [r4(rnd(rng, 0, 2)) for _ in range(more)]
        elements.append(
            dict(label=elab[k], conn=[lab[a], lab[b]], mat=mt, mprop=mp,
                 gprop=[int(rng.integers(1, 4)) if whole else r4(rnd(rng, 0.4, 2.0))]
                 + [r4(rnd(rng, 0, 2)) for _ in range(section)])
        )
    bounds = [[lab[i], list(f)] for i, f in enumerate(free) if list(f) != [1, 1, 1]]
    if rng.random() < 0.3:
        bounds += [[lab[i], [1, 1, 1]] for i, f in enumerate(free) if list(f) == [1, 1, 1]]
    forces = []
    loaded = [i for i, f in enumerate(free) if any(f)]
    k = int(rng.integers(1, len(loaded) + 1))
    chosen = set(int(i) for i in rng.choice(loaded, k, False))
    for i in sorted(chosen):
        f = []
        for s in range(nsteps):
            f += [r4(E0 * rnd(rng, -1, 1) * 0.3) if (free[i][c] or rng.random() < 0.1) else 0.0
                  for c in range(3)]
        if whole and E0 > 1:
            f = [int(x) for x in f]
        if not any(f):
            f[[c for c in range(3) if free[i][c]][0]] = r4(0.2 * E0)
        forces.append([lab[i], f])
    if rng.random() < 0.2:  # an explicit zero force, and a force on a support
        rest = [i for i in range(n) if i not in chosen]
        if rest:
            i = int(rng.choice(rest))
            forces.append([lab[i], [r4(E0 * rnd(rng, -0.2, 0.2))] * (3 * nsteps)
                           if rng.random() < 0.5 else [0.0] * (3 * nsteps)])
    s = {}
    n_incs = incs or int(rng.integers(6, 21))
    if fam == "tower":
        n_incs = min(n_incs, 5)
    s["incs"] = n_incs if nsteps == 1 else [int(rng.integers(min(3, n_incs), n_incs + 1)) for _ in range(nsteps)]
    s["du"] = r4(float(rng.choice([0.01, 0.02, 0.05, 0.1])) * rnd(rng, 0.7, 1.3))
    s["dlpf"] = r4(float(rng.choice([0.01, 0.02, 0.05, 0.1])) * rnd(rng, 0.7, 1.3))
    sc = bool(rng.random() < 0.4) if stepcontrol is None else stepcontrol
    if sc:
        s["stepcontrol"] = True
        s["maxfac"] = float(rng.choice([1.5, 2, 4, 10]))
        s["reduce"] = float(rng.choice([2, 4, 8]))
        s["increase"] = float(rng.choice([0.25, 0.5, 1.0]))
        s["minfac"] = float(rng.choice([1e-6, 1e-3, 0.05]))
    if rng.random() < 0.4:
        s["dxtol"] = float(rng.choice([1.05, 1.25, 1.5]))
    if rng.random() < 0.2:
        s["cycl"] = int(rng.integers(3, 8))
    if rng.random() < 0.2:
        s["nfev"] = int(rng.choice([4, 6, 12]))
    if rng.random() < 0.08:  # uncommon settings
        for k in rng.choice(len(RARE), int(rng.integers(1, 3)), False):
            name, values = RARE[int(k)]
            if name in STEPCONTROL and not sc:
                if stepcontrol is False:
                    continue
                s["stepcontrol"] = True
            s[name] = values[int(rng.integers(len(values)))]
    if fam in ("twobar", "chain", "dome") and incs is None and nsteps == 1 and rng.random() < 0.04:
        s["incs"] = int(rng.integers(100, 161))  # many increments
        s["du"], s["dlpf"] = r4(s["du"] * 0.2), r4(s["dlpf"] * 0.2)
    if nsteps > 1:
        s["nsteps"] = nsteps
    ndof1 = int(sum(sum(f) for f in free))
    control = control or str(rng.choice(["auto", "auto", "auto", "lpf", "dof", "nopre", "j0"]))
    if rng.random() < 0.05:  # loads of further steps that are not run
        for f in forces:
            f[1] = f[1] + [0.4 * E0, 0.0, -0.3 * E0]
    spec = dict(
        family=fam, control=control,
        nodes=_shuffle(rng, [[lab[i], X[i]] for i in range(n)]),
        elements=_shuffle(rng, elements),
        bounds=_shuffle(rng, bounds),
        forces=_shuffle(rng, forces),
        settings=s,
        style=style,
    )
    if reversal and nsteps > 1:
        reverse_loads(rng, spec)
    if control == "lpf":
        s["j_fixed"], s["j0"] = True, (ndof1 + 1) * (1 if rng.random() < 0.85 else -1)
    elif control in ("dof", "j0"):
        c = responsive(spec)
        if control == "j0":
            c = c + [ndof1 + 1]
        s["j0"] = int(rng.choice(c)) * int(rng.choice([-1, 1]))
        if control == "dof":
            s["j_fixed"] = True
    elif control == "nopre":
        s["j_pre"] = False
    return spec


def reverse_loads(rng, spec):
    """Make the loads of the steps multiples of those of the first one, with
    alternating sign (load reversals)."""
    n = spec["settings"]["nsteps"]
    fac = [1.0]
    for _ in range(n - 1):
        fac.append(float(np.round(-np.sign(fac[-1]) * rng.uniform(0.5, 2.5), 2)))
    for f in spec["forces"]:
        base = f[1][:3]
        f[1] = [r4(b * k) for k in fac for b in base]


def responsive(spec):
    """1-based free components that respond clearly to the load of every step (a
    control component has to)."""
    v = View(spec)
    K = oracle.tangent(v, np.zeros((v.n, 3)))[np.ix_(v.dof1, v.dof1)]
    good = np.ones(len(v.dof1), dtype=bool)
    try:
        for s in range(v.nsteps):
            u = np.abs(np.linalg.solve(K, v.F[s].ravel()[v.dof1]))
            good &= u > 0.25 * u.max()
    except np.linalg.LinAlgError:
        return [len(v.dof1) + 1]
    return [int(i) + 1 for i in np.flatnonzero(good)] or [len(v.dof1) + 1]


def with_limit(rng, spec):
    """Add limits of a component, one for all or one per step."""
    s = spec["settings"]
    v = View(spec)
    nd = len(v.dof1)

    def one():
        c = int(rng.integers(1, nd + 2))
        base = s["dlpf"] if c == nd + 1 else s["du"]
        return [c, r4(base * rnd(rng, 0.3, 12)) if rng.random() < 0.93 else 0.0]

    if v.nsteps > 1 and rng.random() < 0.6:
        s["xlimit"] = [one() for _ in range(v.nsteps)]
    else:
        s["xlimit"] = one()
    return spec


def loose(rng, spec):
    """Coarse or fine tolerances and step sizes."""
    s = spec["settings"]
    k = int(rng.integers(5))
    if k == 0:
        s["xtol"] = float(rng.choice([0.5, 1, 2, 3]))
    elif k == 1:
        s["ftol"] = float(rng.choice([3, 4, 5, 10])) if rng.random() < 0.5 else r4(rnd(rng, 3, 6))
        if rng.random() < 0.5:
            s["xtol"] = float(rng.choice([0, 1, 2.5]))
    elif k == 2:
        s["dlpf"] = float(s["dlpf"] * 1e-3)
        s["du"] = float(s["du"] * 1e-3)
    elif k == 3:
        s["ftol"], s["xtol"] = 5, 1
    else:
        s["du"], s["dlpf"] = 5.0 * s["du"], 5.0 * s["dlpf"]
    return spec


def clone(spec):
    return copy.deepcopy(spec)
