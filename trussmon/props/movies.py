"""C20: a movie has one frame per requested increment, in order."""
import os
import re

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.figure import Figure
from PIL import Image, ImageSequence

from .. import runtime as T
from .. import spec as S
from .plots import PlotProp, inspect_model_plot
from .runs import brief

W = 24  # a frame is a picture of W bits, 4 x 4 pixels each


def encode(n):
    bits = [(n >> k) & 1 for k in range(W - 2)]
    row = np.repeat(np.array([1, 0] + bits, dtype=np.uint8) * 255, 4)
    return np.repeat(np.repeat(row[None], 16, 0)[:, :, None], 3, 2)


def decode(frame):
    a = np.asarray(frame.convert("L"), dtype=float)
    if a.shape != (16, 4 * W):
        return None
    b = a.reshape(16, W, 4).mean(axis=(0, 2)) > 127
    if not b[0] or b[1]:
        return None
    return int(sum(1 << k for k in range(W - 2) if b[2 + k]))


class Recorder:
    """Figure.savefig writes an identity instead of a picture, and what the figure
    shows is kept for the comparison."""

    def __init__(self, real=False):
        self.figures = {}
        self.fail_at = None
        self.calls = 0
        self.real = real

    def __enter__(self):
        self.old = Figure.savefig
        rec = self

        def savefig(fig, fname, *a, **k):
            rec.calls += 1
            if rec.fail_at is not None and rec.calls == rec.fail_at:
                raise OSError("injected: disk full")
            if rec.real:
                return rec.old(fig, fname, *a, **k)
            n = len(rec.figures) + 1000 * (rec.calls % 7)
            while n in rec.figures:
                n += 1
            ax = fig.axes[0]
            rec.figures[n] = dict(fig=fig, ax=ax)
            plt.figure(fig.number) if plt.fignum_exists(fig.number) else None
            rec.inspect(n, fig, ax)
            Image.fromarray(encode(n)).save(fname, format="PNG")

        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        Figure.savefig = self.old

    def inspect(self, n, fig, ax):
        """Replaced by the check: look at the figure while it is alive."""


def describe(ax):
    d = dict(xlim=ax.get_xlim(), ylim=ax.get_ylim(), title=ax.get_title())
    if hasattr(ax, "get_zlim"):
        d["zlim"] = ax.get_zlim()
    sizes = [float(x) for c in ax.collections if hasattr(c, "get_sizes") for x in c.get_sizes()]
    sizes += [ln.get_markersize() for ln in ax.get_lines() if ln.get_linestyle() in ("None", "none", "", " ")]
    d["sizes"] = sizes
    return d


class C20(PlotProp):
    id = "C20"
    unit = "movies"
    n = {"quick": 60, "thorough": 1000}
    floors = {"movies": 80, "frames": 250, "movies_after_another": 35, "frames_beyond_999": 3, "default_movies": 20,
              "movies_after_a_failed_one": 4, "real_frames": 3}
    rule = ("sequences of movies (default and chosen increments, any view and contour) of random runs in a scratch "
            "directory; each saved picture carries an identity, the figure behind it is compared with the results, "
            "and the identities are read back from the frames of the GIF; some runs exceed 999 increments, some "
            "movies are made after a failed one, some at full resolution; non-trivial: a movie with two or more frames")
    case_timeout = 300

    def fixed(self, tier):
        bar = dict(family="chain", control="auto",
                   nodes=[[1, [0, 0, 0]], [2, [1, 0, 0]]],
                   elements=[dict(label=1, conn=[1, 2], mat=1, mprop=[1.0], gprop=[1.0])],
                   bounds=[[1, [0, 0, 0]], [2, [1, 0, 0]]], forces=[[2, [0.5, 0, 0]]],
                   settings=dict(incs=1012, du=0.001, dlpf=0.002), style="raw")
        m = dict(view="xz", contour=None, limits=None, scale=0.5, lim_scale=[-1, 3, -1, 3], nodesize=10, fail=None)
        return [
            dict(kind="coded", spec=dict(bar, settings=dict(incs=5, du=0.2, dlpf=0.4)),
                 movies=[dict(m, incs=[3, 4, 5], fail=3), dict(m, incs=[1, 2]), dict(m, incs=[1, 5, 4, 2], fail=4),
                         dict(m, incs=[3])]),
            dict(kind="long", spec=bar, movies=[dict(m, incs=[9, 99, 100, 998, 999, 1000, 1001, 1010]),
                                                dict(m, incs=[2, 1, 1002, 11])]),
            dict(kind="real", spec=dict(bar, settings=dict(incs=3, du=0.2, dlpf=0.4)),
                 movies=[dict(m, incs=None, contour="stretch", lim_scale=[-1, 2, -1, 1])]),
        ]

    def case(self, rng, i, tier):
        spec = self.spec(rng)
        movies = []
        for j in range(int(rng.integers(2, 4))):
            contour = [None, "stretch", "force", "stress"][int(rng.integers(4))]
            lim = None
            if contour and rng.random() < 0.4:
                mid = 1.0 if contour == "stretch" else 0.0
                lim = [mid - S.rnd(rng, 0.01, 0.5), mid + S.rnd(rng, 0.01, 0.5)]
            movies.append(dict(
                view=str(rng.choice(["xz", "xy", "yz", "3d"])), contour=contour, limits=lim,
                scale=S.r4(float(rng.choice([0.1, 0.5, 2.0]))), nodesize=int(rng.choice([5, 10, 20])),
                lim_scale=[1.5, -3.0, [-4, 4, -4, 4]][int(rng.integers(3))],
                incs=None if rng.random() < 0.4 else [int(x) for x in rng.integers(0, 1000, int(rng.integers(1, 6)))],
                fail=int(rng.integers(1, 5)) if rng.random() < 0.3 else None))
        real = i % 40 == 7
        if real:
            movies = [dict(movies[0], fail=None)]
        return dict(kind="real" if real else "coded", spec=spec, movies=movies)

    def run(self, case, ctx):
        v, t = self.model(case, ctx)
        if v is None or len(t.R) < 2:
            ctx.counts["no_increments"] += 1
            return
        M, n = t.model, len(t.R)
        os.chdir(ctx.scratch)
        made = 0
        failed_before = False
        for j, mv in enumerate(case["movies"]):
            if mv["incs"] is None:
                want = list(range(1, n))
            else:
                want = []
                for x in mv["incs"]:
                    if x % n not in want:
                        want.append(x % n if case["kind"] != "long" else x)
            kw = dict(view=mv["view"], contour=mv["contour"], force_scale=mv["scale"], nodesize=mv["nodesize"])
            ls = mv["lim_scale"]
            kw["lim_scale"] = tuple(ls) if isinstance(ls, list) else ls
            if mv["contour"] and mv["limits"]:
                kw["cbar_limits"] = list(mv["limits"])
            if mv["incs"] is not None:
                kw["incs"] = list(want) if j % 2 else tuple(want)
            if mv["contour"] and not mv["limits"] and not all(np.any(r["element_force"]) for r in t.R[1:]):
                continue
            what = f"movie {j + 1} of increments {kw.get('incs', 'all')} [{kw}]"
            if case["kind"] == "real":
                ok = self.real(ctx, M, kw, sorted(want), what)
            else:
                ok = self.coded(ctx, v, t, M, kw, mv, sorted(want), what, made, failed_before)
            if ok is None:  # the injected failure happened
                failed_before = True
                continue
            if not ok:
                return
            made += 1
            if len(want) > 1:
                ctx.nontrivial(f"{kw} {T.trace_hash(t.R[-1:])}")
        ctx.sample = dict(spec=brief(case["spec"]), movies=case["movies"][:2], increments=n - 1)

    def frames(self, ctx, what):
        path = os.path.join("figures", "gif", "movie.gif")
        if not os.path.isfile(path):
            found = [os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs if f.endswith(".gif")]
            ctx.viol("no-movie", f"{what}: no figures/gif/movie.gif, but {found}")
            return None
        with Image.open(path) as im:
            return [f.convert("RGB") for f in ImageSequence.Iterator(im)]

    def coded(self, ctx, v, t, M, kw, mv, want, what, made, failed_before):
        c = ctx.counts
        shown = {}

        with Recorder() as rec:
            rec.fail_at = mv["fail"]
            rec.inspect = lambda n, fig, ax: shown.__setitem__(n, self.look(v, t, ax, mv, want))
            try:
                M.plot_movie(**kw)
            except OSError as e:
                plt.close("all")
                if "injected" in str(e):
                    c["failed_movies"] += 1
                    return None
                ctx.viol("crash", f"{what} raised {type(e).__name__}: {e}")
                return False
            except Exception as e:
                plt.close("all")
                ctx.viol("crash", f"{what} raised {type(e).__name__}: {e}")
                return False
            finally:
                plt.close("all")
        frames = self.frames(ctx, what)
        if frames is None:
            return False
        c["movies"] += 1
        c["movies_after_another"] += made > 0
        c["movies_after_a_failed_one"] += failed_before
        c["default_movies"] += mv["incs"] is None
        ids = [decode(f) for f in frames]
        if len(ids) != len(want):
            ctx.viol("count", f"{what}: {len(ids)} frames for {len(want)} increments")
            return False
        for k, (n, i) in enumerate(zip(ids, want)):
            c["frames"] += 1
            c["frames_beyond_999"] += i > 999
            if n is None or n not in shown:
                ctx.viol("stale", f"{what}: frame {k} is no picture of this movie")
                return False
            ok, msgs, d = shown[n]
            if i not in ok:
                m = msgs.get(i) or ("", "")
                ctx.viol("order" if ok else "content", f"{what}: frame {k} shows increment(s) {sorted(ok)} instead of "
                         f"{i} ({d['title']}; {m[0]}: {m[1]})")
                return False
            number = re.search(r"INCREMENT: (-?\d+)", d["title"])
            if number and int(number.group(1)) != i:
                ctx.viol("order", f"{what}: frame {k} is entitled {d['title']} instead of increment {i}")
                return False
        if len(set(ids)) != len(ids):
            ctx.viol("repeated", f"{what}: a picture appears twice")
            return False
        # the options are those of the model plot
        i = want[-1]
        kw2 = {k: x for k, x in kw.items() if k != "incs"}
        try:
            fig, ax = M.plot_model(inc=i, **kw2)
            d, d2 = shown[ids[-1]][2], describe(ax)
        finally:
            plt.close("all")
        c["options_compared"] += 1
        for k in d2:
            same = d[k] == d2[k] if k == "title" else np.shape(d[k]) == np.shape(d2[k]) and np.allclose(d[k], d2[k])
            if not same:
                ctx.viol("options", f"{what}: {k} of the frame of increment {i} is {d[k]}, of the model plot {d2[k]}")
                return False
        return True

    def look(self, v, t, ax, mv, want):
        """(increments among the wanted ones that the figure shows, reasons against, description)"""
        from ..core import Ctx

        ok, msgs = set(), {}
        number = re.search(r"INCREMENT: (-?\d+)", ax.get_title())
        cand = want
        if len(want) > 8 and number and int(number.group(1)) in want:
            k = want.index(int(number.group(1)))
            cand = want[max(0, k - 1):k + 2]
        for i in cand:
            first = next(inspect_model_plot(Ctx(), v, t, i, ax, mv["view"], mv["scale"], mv["contour"],
                                            mv["limits"]), None)
            if first is None:
                ok.add(i)
            else:
                msgs[i] = first
        return ok, msgs, describe(ax)

    def real(self, ctx, M, kw, want, what):
        """Full resolution: each frame is most alike to the picture of its increment."""
        try:
            M.plot_movie(**kw)
        except Exception as e:
            ctx.viol("crash", f"{what} raised {type(e).__name__}: {e}")
            return False
        finally:
            plt.close("all")
        frames = self.frames(ctx, what)
        if frames is None:
            return False
        ctx.counts["movies"] += 1
        if len(frames) != len(want):
            ctx.viol("count", f"{what}: {len(frames)} frames for {len(want)} increments")
            return False
        ref = []
        for i in want:
            M.plot_model(inc=i, **{k: x for k, x in kw.items() if k != "incs"})
            plt.savefig("ref.png", dpi=200)
            plt.close("all")
            with Image.open("ref.png") as im:
                ref.append(np.asarray(im.convert("RGB").resize((640, 480)), dtype=float))
        for k, f in enumerate(frames):
            a = np.asarray(f.resize((640, 480)), dtype=float)
            dist = [float(np.abs(a - r).mean()) for r in ref]
            ctx.counts["real_frames"] += 1
            if int(np.argmin(dist)) != k or dist[k] > 8.0:
                ctx.viol("order", f"{what}: at full resolution frame {k} looks like increment "
                         f"{want[int(np.argmin(dist))]} instead of {want[k]} (distances {np.round(dist, 3)})")
                return False
        return True


PROPS = [C20()]
