"""C18, C19: the artists of the figures that the plot functions produce are read
back and compared with what the recorded results say they have to show."""
import matplotlib
import matplotlib.collections
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.colors import Normalize, to_rgba
from matplotlib.patches import FancyArrow, FancyArrowPatch

from .. import monitors
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from .runs import brief

PLANES = {"xz": (0, 2), "xy": (0, 1), "yz": (1, 2)}


def visible_segments(ax, three):
    """(points (2, d), colour, zorder) of all visible two-point lines."""
    out = []
    for k, ln in enumerate(ax.get_lines()):
        if ln.get_alpha() == 0 or ln.get_linestyle() in ("None", "none", "", " "):
            continue
        if not ln.get_visible():
            continue
        d = np.array(ln.get_data_3d() if three else ln.get_data(), dtype=float).T
        if len(d) != 2:
            continue
        out.append((d, to_rgba(ln.get_color()), (ln.get_zorder(), k), float(ln.get_linewidth())))
    return out


def marker_points(ax, three):
    pts = []
    if three:
        for ln in ax.get_lines():
            if ln.get_linestyle() in ("None", "none", "", " ") and ln.get_marker() not in ("None", "", None):
                d = np.array(ln.get_data_3d(), dtype=float).T
                pts.append(d)
    for col in ax.collections:
        if isinstance(col, matplotlib.collections.PathCollection):
            o = getattr(col, "_offsets3d", None) if three else None
            if o is not None:
                pts.append(np.array([np.asarray(a) for a in o], dtype=float).T)
            elif not three:
                pts.append(np.array(col.get_offsets(), dtype=float))
    return pts


def ends_2d(a):
    """Base and tip of an arrow patch."""
    if isinstance(a, FancyArrowPatch):
        return np.array(a._posA_posB, dtype=float)
    xy = np.array(a.get_xy(), dtype=float)  # tip first, shaft base in the middle
    return np.array([(xy[3] + xy[4]) / 2, xy[0]])


def rows_sorted(a):
    a = np.round(np.asarray(a, dtype=float), 9) + 0.0
    return a[np.lexsort(a.T[::-1])] if len(a) else a


def inspect_model_plot(ctx, v, t, i, fig_axes, view, scale, contour, limits):
    """Yield violations of one model plot of result i (non-negative index)."""
    c = ctx.counts
    ax = fig_axes
    three = view == "3d"
    if three:
        ax_d = [0, 1, 2]
        if not hasattr(ax, "get_zlim"):
            yield "view", "a 3d view is not drawn on three-dimensional axes"
            return
    else:
        ax_d = list(PLANES[view])
    r = t.R[i]
    x = (v.X + r["U"])[:, ax_d]
    tol = 1e-9 * (1 + np.abs(x).max())

    # --- elements
    seg = visible_segments(ax, three)
    want = x[v.conn]  # (ne, 2, d)
    used = np.zeros(len(seg), dtype=bool)
    tops = []
    for k in range(len(v.el)):
        hits = [n for n, s in enumerate(seg)
                if np.abs(s[0] - want[k]).max() <= tol or np.abs(s[0][::-1] - want[k]).max() <= tol]
        if not hits:
            yield "element-missing", (f"result {i}, view {view}: no line between the deformed positions of the end "
                                      f"nodes {v.el[k]['conn']} of element {v.elabels[k]}")
            return
        used[hits] = True
        tops.append(hits)
        c["element_lines"] += 1
    if not used.all():
        s = seg[int(np.flatnonzero(~used)[0])]
        yield "stray-line", f"result {i}, view {view}: a line {np.round(s[0], 4).tolist()} belongs to no element"
        return

    # --- nodes
    pts = [p for p in marker_points(ax, three) if len(p) != 1 or v.n == 1]
    if len(pts) != 1 or pts[0].shape != x.shape or np.abs(rows_sorted(pts[0]) - rows_sorted(x)).max() > 1e-8 * (
            1 + np.abs(x).max()):
        yield "nodes", f"result {i}, view {view}: markers are not at the deformed node positions"
        return
    c["node_markers"] += v.n

    # --- forces
    h = monitors.History(v, t)
    f = v.F[0] if i == 0 else h.load(i)
    want_arrows = [(p, d, q) for p in range(v.n) for q, d in enumerate(ax_d) if f[p, d] != 0]
    if three:
        have = [a for a in list(ax.artists) + list(ax.patches) if isinstance(a, FancyArrowPatch)]
        if all(hasattr(a, "_verts3d") for a in have):
            black = to_rgba("k")
            have = [np.array(a._verts3d, dtype=float).T for a in have
                    if tuple(np.round(a.get_edgecolor(), 6)) != tuple(np.round(black, 6))]
            ok = [False] * len(have)
            for p, d, q in want_arrows:
                base, tip = x[p].copy(), x[p].copy()
                tip[q] += scale * f[p, d]
                hit = [n for n, a in enumerate(have) if np.abs(a[0] - base).max() <= tol
                       and np.abs(a[1] - tip).max() <= tol * (1 + abs(scale * f[p, d]))]
                if not hit:
                    yield "arrow", (f"result {i}, 3d: no arrow of length {scale * f[p, d]:.5g} along axis {d} at node "
                                    f"{v.labels[p]}")
                    return
                for n in hit:
                    ok[n] = True
                c["force_arrows"] += 1
            if not all(ok) or len(have) != len(want_arrows):
                yield "stray-arrow", f"result {i}, 3d: {len(have)} force arrows, expected {len(want_arrows)}"
                return
        else:
            c["unreadable_arrows"] += len(have)
    else:
        have = [ends_2d(a) for a in ax.patches if isinstance(a, (FancyArrow, FancyArrowPatch))]
        for p, d, q in want_arrows:
            base, tip = x[p].copy(), x[p].copy()
            tip[q] += scale * f[p, d]
            lim = 1e-7 * (1 + np.abs(tip).max())

            def has(a):
                return np.abs(a[0] - base).max() <= lim and np.abs(a[1] - tip).max() <= lim

            if abs(scale * f[p, d]) > 1e-6 and not any(has(a) for a in have):
                yield "arrow", (f"result {i}, view {view}: no arrow of length {scale * f[p, d]:.5g} along axis {d} at "
                                f"node {v.labels[p]}")
                return
            c["force_arrows"] += 1
        if len(have) != len(want_arrows):
            yield "stray-arrow", f"result {i}, view {view}: {len(have)} force arrows, expected {len(want_arrows)}"
            return

    # --- contour
    grey = to_rgba("C7")
    if contour is None or i == 0:
        for k in range(len(v.el)):
            top = max(tops[k], key=lambda n: seg[n][2])
            if tuple(np.round(seg[top][1], 6)) != tuple(np.round(grey, 6)):
                yield "contour-unexpected", f"result {i}: element {v.elabels[k]} is coloured without a contour"
                return
            c["plain_elements"] += 1
        return
    val = r[{"stretch": "stretch", "force": "element_force", "stress": "element_stress"}[contour]].ravel()
    if limits is None:
        mid = 1.0 if contour == "stretch" else 0.0
        m = np.abs(val - mid).max()
        lim = (mid - m, mid + m)
    else:
        lim = limits
    if not lim[1] - lim[0] > 1e-12 * (1 + abs(lim[0])):
        return
    cmap = plt.get_cmap("bwr", 10)
    cmap.set_over("0.95")
    cmap.set_under("0.6")
    norm = Normalize(vmin=lim[0], vmax=lim[1])
    for k in range(len(v.el)):
        e = 1e-9 * (lim[1] - lim[0])
        allowed = set()
        for other in range(len(v.el)):  # an element covered by a parallel one may show its colour
            if tops[other] == tops[k]:
                allowed |= {tuple(np.round(cmap(norm(val[other] + s * e)), 6)) for s in (-1, 0, 1)}
        top = max(tops[k], key=lambda n: seg[n][2])
        if tuple(np.round(seg[top][1], 6)) not in allowed:
            yield "contour-colour", (f"result {i}: the colour of element {v.elabels[k]} does not show its {contour} "
                                     f"{val[k]:.5g} within limits {lim[0]:.5g}..{lim[1]:.5g}")
            return
        c["contour_colours"] += 1


class PlotProp(Prop):
    case_timeout = 240
    assumptions = ["matplotlib artists as drawn: two-point lines are elements, scatter/markers are nodes, arrow "
                   "patches are forces; colormap bwr in ten steps"]

    def spec(self, rng, many=False):
        s = S.random_spec(rng, nsteps=int(rng.choice([1, 1, 2])), incs=int(rng.integers(3, 8)),
                          mat=str(rng.choice(["el", "mix"])))
        if rng.random() < 0.4:  # loads of very different sizes
            for f in s["forces"]:
                f[1] = [x * float(rng.choice([1.0, 1.0, 1e-2, 1e-3])) for x in f[1]]
        return s

    def model(self, case, ctx):
        t = T.run_spec(case["spec"], cls=T.MonitoredModel)
        v = S.View(case["spec"])
        if t.status != "ok":
            if "NaN" not in t.exc:
                ctx.viol("crash", f"a valid model raised {t.exc}")
            ctx.counts["not_usable"] += 1
            return None, None
        if any(True for _ in monitors.usable(v, t)):
            ctx.viol("malformed-result", "results are malformed")
            return None, None
        return v, t


class C18(PlotProp):
    id = "C18"
    unit = "plots"
    n = {"quick": 200, "thorough": 3000}
    floors = {"plots": 600, "element_lines": 3000, "node_markers": 3000, "force_arrows": 800, "contour_colours": 700,
              "plots_3d": 80, "negative_indices": 50, "undeformed_plots": 30}
    rule = ("random models (arbitrary labels and orders, 1-2 steps), plotted at random increments, views, contours, "
            "limits and scales; every line, marker, arrow and colour is read back from the figure; non-trivial: a "
            "plot of a deformed increment")

    def case(self, rng, i, tier):
        spec = self.spec(rng)
        plots = []
        for _ in range(6):
            contour = [None, "stretch", "force", "stress"][int(rng.integers(4))]
            lim = None
            if contour and rng.random() < 0.4:
                mid = 1.0 if contour == "stretch" else 0.0
                w = float(10 ** rng.uniform(-3, 0))
                lim = [mid - w, mid + w * S.rnd(rng, 0.5, 2)]
            plots.append(dict(
                view=str(rng.choice(["xz", "xy", "yz", "3d"])), contour=contour, limits=lim,
                form=str(rng.choice(["kwarg", "tuple"])), inc=int(rng.integers(-6, 8)),
                scale=S.r4(float(rng.choice([0.1, 0.5, 1.0, 2.0, 5.0]))),
                lim_scale=[1.2, 1.5, -3.0, [-4, 4, -4, 4], [-3, 3]][int(rng.integers(5))],
            ))
        return dict(spec=spec, plots=plots)

    def run(self, case, ctx):
        v, t = self.model(case, ctx)
        if v is None:
            return
        before = T.trace_hash([T.snap(R) for R in t.model.Results.R])
        n = len(t.R)
        try:
            for p in case["plots"]:
                inc = p["inc"]
                if not -n <= inc < n:
                    inc = inc % n if inc >= 0 else -1 - (-inc - 1) % n
                kw = dict(view=p["view"], force_scale=p["scale"], inc=inc)
                ls = p["lim_scale"]
                kw["lim_scale"] = tuple(ls) if isinstance(ls, list) else ls
                if p["contour"]:
                    if p["limits"] is None:
                        kw["contour"] = p["contour"]
                    elif p["form"] == "kwarg":
                        kw["contour"], kw["cbar_limits"] = p["contour"], list(p["limits"])
                    else:
                        kw["contour"] = (p["contour"], list(p["limits"]))
                i = inc if inc >= 0 else n + inc
                degenerate = p["contour"] and i > 0 and p["limits"] is None and np.ptp(
                    t.R[i]["element_force"]) == 0 and not np.any(t.R[i]["element_force"])
                if degenerate:
                    continue
                fig, ax = t.model.plot_model(**kw)
                ctx.counts["plots"] += 1
                ctx.counts["plots_3d"] += p["view"] == "3d"
                ctx.counts["negative_indices"] += inc < 0
                ctx.counts["undeformed_plots"] += i == 0
                for key, msg in inspect_model_plot(ctx, v, t, i, ax, p["view"], p["scale"], p["contour"],
                                                   p["limits"]):
                    ctx.viol(key, msg + f" [{kw}]")
                plt.close("all")
                if ctx.violations:
                    return
                if i:
                    ctx.nontrivial(f"{p['view']} {p['contour']} {inc} {T.trace_hash([t.R[i]])}")
        except Exception as e:
            import traceback

            ctx.viol("plot-crash", f"plot_model({kw}) raised {type(e).__name__}: {e} "
                     f"({traceback.format_exc(limit=-1).splitlines()[-3].strip()})")
        finally:
            plt.close("all")
        if T.trace_hash([T.snap(R) for R in t.model.Results.R]) != before:
            ctx.viol("plot-changes-results", "plotting changed the results")
        ctx.sample = dict(spec=brief(case["spec"]), plots=case["plots"][:2], increments=n - 1)


class C19(PlotProp):
    id = "C19"
    n = {"quick": 220, "thorough": 4000}
    floors = {"history_plots": 400, "path_plots": 250, "points": 4000, "given_axes": 150}
    rule = ("random models (arbitrary labels, 1-2 steps); history and path plots of random quantities, nodes, node "
            "paths and increments on new or given axes, line data and labels read back; non-trivial: a plot of a run "
            "with increments")

    def case(self, rng, i, tier):
        spec = self.spec(rng)
        labs = [n for n, _ in spec["nodes"]]
        Q = ["Displacement X", "Displacement Y", "Displacement Z", "Force X", "Force Y", "Force Z", "LPF"]
        hist, path = [], []
        for _ in range(4):
            hist.append(dict(nodes=[int(rng.choice(labs)), int(rng.choice(labs))],
                             X=str(rng.choice(Q + ["Increments"])), Y=str(rng.choice(Q + ["Increments"])),
                             given=int(rng.integers(4))))
        for _ in range(3):
            m = int(rng.integers(1, len(labs) + 1))
            path.append(dict(nodepath=[int(x) for x in rng.choice(labs, m, replace=bool(rng.random() < 0.3))],
                             inc=int(rng.integers(-4, 6)), Y=str(rng.choice(Q)), given=int(rng.integers(4))))
        return dict(spec=spec, hist=hist, path=path)

    @staticmethod
    def axes(kind):
        """kind 0, 3: new figure; 1: given figure and axes; 2: given axes only."""
        if kind in (0, 3):
            return {}, None
        fig, axs = plt.subplots(1, 2)
        ax = axs[0]
        ax.plot([0, 1], [5, 6], label="before")
        plt.sca(axs[1])
        return (dict(fig=fig, ax=ax) if kind == 1 else dict(ax=ax)), ax

    def run(self, case, ctx):
        v, t = self.model(case, ctx)
        if v is None:
            return
        M, n = t.model, len(t.R)

        def value(q, node, i):
            r = t.R[i]
            if q == "LPF":
                return float(r["lpf"])
            if q == "Increments":
                return i
            return float(r["U" if q.startswith("Disp") else "r"][v.pos[node], "XYZ".index(q[-1])])

        what = ""
        try:
            for p in case["hist"]:
                what = f"plot_history({p})"
                kw, own = self.axes(p["given"])
                fig, ax = M.plot_history(nodes=list(p["nodes"]), X=p["X"], Y=p["Y"], **kw)
                ctx.counts["history_plots"] += 1
                xs = [value(p["X"], p["nodes"][0], i) for i in range(n)]
                ys = [value(p["Y"], p["nodes"][1], i) for i in range(n)]
                self.line(ctx, ax, own, fig, xs, ys, what)
                if ax.get_xlabel() != p["X"] or ax.get_ylabel() != p["Y"]:
                    ctx.viol("axis-labels", f"{what}: axes are labelled {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
                plt.close("all")
            for p in case["path"]:
                inc = p["inc"]
                if not -n <= inc < n:
                    inc = inc % n if inc >= 0 else -1
                what = f"plot_path({dict(p, inc=inc)})"
                kw, own = self.axes(p["given"])
                fig, ax = M.plot_path(nodepath=list(p["nodepath"]), increment=inc, Y=p["Y"], **kw)
                ctx.counts["path_plots"] += 1
                ys = [value(p["Y"], node, inc) for node in p["nodepath"]]
                self.line(ctx, ax, own, fig, None, ys, what)
                if ax.get_ylabel() != p["Y"]:
                    ctx.viol("axis-labels", f"{what}: the axis is labelled {ax.get_ylabel()!r}")
                ticks = [x.get_text() for x in ax.get_xticklabels()]
                xs = list(np.atleast_1d(ax.get_lines()[-1].get_xdata())) if ax.get_lines() else []
                pos = dict(zip([float(x) for x in ax.get_xticks()], ticks))
                shown = [pos.get(float(x)) for x in xs]
                if shown != [str(node) for node in p["nodepath"]] and [str(int(x)) for x in xs] != [
                        str(node) for node in p["nodepath"]]:
                    ctx.viol("path-labels", f"{what}: the points are labelled {shown}")
                plt.close("all")
        except Exception as e:
            ctx.viol("plot-crash", f"{what} raised {type(e).__name__}: {e}")
        finally:
            plt.close("all")
        if n > 1:
            ctx.nontrivial(T.trace_hash(t.R[:3]))
            ctx.sample = dict(spec=brief(case["spec"]), hist=case["hist"][0], path=case["path"][0], results=n)

    def line(self, ctx, ax, own, fig, xs, ys, what):
        if own is not None:
            ctx.counts["given_axes"] += 1
            if ax is not own or fig is not own.figure:
                ctx.viol("given-axes", f"{what}: the plot was not drawn on the given axes")
                return
        lines = ax.get_lines()
        if len(lines) != (2 if own is not None else 1):
            ctx.viol("lines", f"{what}: {len(lines)} lines on the axes")
            return
        X, Y = [np.atleast_1d(np.asarray(a, dtype=float)) for a in lines[-1].get_data()]
        ctx.counts["points"] += len(Y)
        if len(Y) != len(ys) or not np.allclose(Y, ys, rtol=0, atol=1e-13 * (1 + np.abs(ys).max())):
            ctx.viol("values", f"{what}: shows {np.round(Y, 6).tolist()} instead of {np.round(ys, 6).tolist()}")
        elif xs is not None and (len(X) != len(xs) or not np.allclose(X, xs, rtol=0, atol=1e-13 * (
                1 + np.abs(xs).max()))):
            ctx.viol("values", f"{what}: over {np.round(X, 6).tolist()} instead of {np.round(xs, 6).tolist()}")
        elif xs is None and len(set(X.tolist())) != len(X) or (xs is None and not np.all(np.diff(X) > 0)):
            ctx.viol("path-order", f"{what}: points are not in the order of the path ({X.tolist()})")


PROPS = [C18(), C19()]
