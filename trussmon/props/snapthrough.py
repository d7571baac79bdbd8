"""C25: limit points are passed; the computed path against the closed-form one."""
import numpy as np

from .. import runtime as T
from .. import spec as S
from ..core import Prop


def closed_form(bars, h, v):
    """Downward apex force at the downward apex displacement v; bars: (width, E A)."""
    P = 0.0
    for w, EA in bars:
        L0, L = np.hypot(w, h), np.hypot(w, h - v)
        P += -EA * (L / L0 - 1) * (h - v) / L
    return P


class C25(Prop):
    id = "C25"
    n = {"quick": 120, "thorough": 2500}
    floors = {"runs": 100, "points": 3000, "both_limit_points_passed": 90, "negative_lpf_points": 700,
              "limit_points_crossed": 180, "control_switches": 60, "disturbed_runs": 15}
    rule = ("random shallow two-bar trusses (equal and unequal bars, any axes, labels, load sizes and directions) and star "
            "domes, control always automatic, step sizes a fraction of the height, some attempts made to fail; every point compared with the "
            "closed-form curve; non-trivial: a run through both limit points")
    assumptions = ["apex guided vertically, or equal bars and a height of at most half the width (no bifurcation)",
                   "the step sizes let the displacement take over the control before the limit load is reached"]

    def case(self, rng, i, tier):
        h = float(rng.uniform(0.15, 0.5))
        w = float(rng.uniform(1.0, 2.0))
        E = float(rng.choice([1.0, 1.0, 10.0, 2000.0]))
        A = float(rng.uniform(0.5, 2.0))
        kind = ["two", "two-unequal", "two", "star"][i % 4]
        guided = kind == "two-unequal" or bool(rng.random() < 0.5)
        if kind == "two":
            bars = [(w, 0.0, E, A), (w, np.pi, E, A)]
        elif kind == "two-unequal":
            bars = [(w, 0.0, E, A), (w * float(rng.uniform(0.7, 1.3)), np.pi, E * float(rng.uniform(0.6, 1.6)), A)]
        else:
            m = int(rng.integers(3, 6))
            a0 = float(rng.uniform(0, 1))
            bars = [(w, a0 + 2 * np.pi * k / m, E, A) for k in range(m)]
        # vertical axis, horizontal axes, sign of "up"
        perm = [int(k) for k in rng.permutation(3)]
        up = int(rng.choice([-1, 1]))
        if kind.startswith("two") and not guided:
            free = [1, 0, 1]  # in the plane
        elif guided:
            free = [0, 0, 1]
        else:
            free = [1, 1, 1]
        vmax = closed_form([(b[0], b[2] * b[3]) for b in bars], h, np.linspace(0, h, 400)).max()
        # the reference load: the limit load is at this LPF
        lam_lim = float(rng.uniform(0.05, 3.0))
        f0 = vmax / lam_lim
        # the displacement has to take over the control before the load limit is reached:
        # at lam_lim - 1.2 dlpf its limit must be the smaller one (du < 0.19 h sqrt(rel))
        rel = float(10 ** rng.uniform(np.log10(0.08), np.log10(0.6)))
        if rng.random() < 0.35:  # the LPF controls most of the way, also where it is below zero
            rel = float(10 ** rng.uniform(np.log10(0.015), np.log10(0.05)))
        dlpf = lam_lim * rel
        du = h * np.sqrt(rel) * float(rng.uniform(0.06, 0.13))

        def place(x):
            y = [0.0, 0.0, 0.0]
            for k in range(3):
                y[perm[k]] = float(x[k]) * (up if k == 2 else 1)
            return y

        labs = S._labels(rng, len(bars) + 1)
        nodes = [[labs[0], place([0, 0, h])]]
        bounds = [[labs[0], [int(b) for b in np.array(free)[np.argsort(perm)]]]]
        el = []
        elab = S._labels(rng, len(bars))
        for k, (bw, ang, bE, bA) in enumerate(bars):
            nodes.append([labs[k + 1], place([bw * np.cos(ang), bw * np.sin(ang), 0])])
            bounds.append([labs[k + 1], [0, 0, 0]])
            conn = [labs[0], labs[k + 1]]
            el.append(dict(label=elab[k], conn=conn if rng.random() < 0.5 else conn[::-1], mat=1, mprop=[bE], gprop=[bA]))
        s = dict(du=du, dlpf=dlpf, incs=int(2.6 * h / du) + int(12 / rel))
        # stop after the snap-through
        ndof = sum(free)
        comp = 1 + [q for q in range(3) if bounds[0][1][q]].index(perm[2])
        s["xlimit"] = [comp, 2.25 * h]
        if rng.random() < 0.5:
            s["dxtol"] = float(rng.choice([1.05, 1.25, 1.5]))
        if rng.random() < 0.3:
            s.update(stepcontrol=True, maxfac=float(rng.choice([1.0, 1.05])), minfac=1e-3,
                     reduce=float(rng.choice([2, 4])), increase=0.5)
        if rng.random() < 0.25:
            s["j_pre"] = False
        elif rng.random() < 0.3:
            down = -up
            s["j0"] = int(rng.choice([comp * down, ndof + 1]))
        s["cycl"] = int(rng.choice([4, 5, 8]))
        noise = None
        if i % 5 == 4:  # attempts that fail on the way
            s.update(stepcontrol=True, maxfac=1.0, minfac=1e-3, reduce=2.0, increase=0.5, j_pre=False)
            s.pop("j0", None)
            s["incs"] *= 4
            noise = [[int(a), int(a) + int(rng.integers(14, 40))] for a in
                     np.sort(rng.integers(20, int(10 * 2.6 * h / du), int(rng.integers(2, 6))))]
        perm_n = [int(k) for k in rng.permutation(len(nodes))]
        spec = dict(family="snap", control="auto", nodes=[nodes[k] for k in perm_n],
                    elements=[el[int(k)] for k in rng.permutation(len(el))],
                    bounds=[bounds[int(k)] for k in rng.permutation(len(bounds))],
                    forces=[[labs[0], place([0, 0, -f0])]], settings=s,
                    style=str(rng.choice(["raw", "objects", "assign"])))
        return dict(spec=spec, bars=[(b[0], b[2] * b[3]) for b in bars], h=h, up=up, vert=perm[2], f0=f0, apex=labs[0], noise=noise,
                    guided=guided, kind=kind)

    def run(self, case, ctx):
        spec, c = case["spec"], ctx.counts
        h, bars, f0 = case["h"], case["bars"], case["f0"]
        v = S.View(spec)
        amp = 1e-5 * sum(EA for _, EA in bars)

        def prepare(M):
            def bang(n, g):
                if any(a <= n <= b for a, b in case["noise"]):
                    return g + amp * (-1) ** n * (1 + np.random.default_rng(n).random(len(g)))

            M.mon_residual_fault = bang

        t = T.run_spec(spec, prepare=prepare if case["noise"] else None)
        c["disturbed_runs"] += bool(t.faults)
        what = f"{case['kind']}, {'guided' if case['guided'] else 'free'}, height {h:.4g}, {spec['settings']}"
        if t.status != "ok":
            ctx.viol("crash", f"{what}: raised {t.exc}")
            return
        c["runs"] += 1
        k = v.pos[case["apex"]]
        w = np.array([-case["up"] * r["U"][k, case["vert"]] for r in t.R])  # downwards
        lam = np.array([float(r["lpf"]) for r in t.R])
        c["points"] += len(w)
        ftol = 10.0 ** -v.setting("ftol")
        scale = sum(EA for _, EA in bars)
        for i in range(len(w)):
            P = closed_form(bars, h, w[i])
            if not abs(lam[i] * f0 - P) <= 2 * ftol + 1e-9 * scale:
                ctx.viol("off-curve", f"{what}: result {i}: at the displacement {w[i]:.6g} the load is {lam[i] * f0:.6g}, "
                         f"of the closed-form curve {P:.6g}")
                return
            side = np.delete(t.R[i]["U"][k], case["vert"])
            if np.abs(side).max() > 1e-5 * h:
                ctx.viol("off-curve", f"{what}: result {i}: the apex moves sideways by {side.tolist()}")
                return
        dw = np.diff(w)
        if np.any(dw <= 0):
            i = int(np.argmax(dw <= 0))
            ctx.viol("turned-back", f"{what}: from result {i} to {i + 1} the apex displacement goes from {w[i]:.6g} to "
                     f"{w[i + 1]:.6g}")
            return
        dl = np.diff(lam)
        c["limit_points_crossed"] += int(np.sum(np.sign(dl[1:]) != np.sign(dl[:-1])))
        c["negative_lpf_points"] += int(np.sum(lam < 0))
        d = spec["settings"]
        ratio = np.abs(dw) / d["du"] > np.abs(dl) / d["dlpf"]
        c["control_switches"] += int(np.sum(ratio[1:] != ratio[:-1]))
        if t.faults and T.failed_increment(t):
            c["stopped_by_faults"] += 1
            return
        if w[-1] <= 2.25 * h and (T.failed_increment(t) or len(w) - 1 < d["incs"]):
            ctx.viol("not-passed", f"{what}: the run ended at {w[-1] / h:.4g} times the height after {len(w) - 1} of "
                     f"{d['incs']} increments")
            return
        if w[-1] > 2.25 * h:
            if not np.any(lam < 0) or lam[-1] <= 0:
                ctx.viol("no-snap", f"{what}: the LPF does not fall to negative values and rise again")
                return
            c["both_limit_points_passed"] += 1
            ctx.nontrivial(f"{h} {f0} {len(w)}")
            ctx.sample = dict(what=what, points=len(w), lpf_range=[float(lam.min()), float(lam.max())])


PROPS = [C25()]
