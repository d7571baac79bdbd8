"""C15: runs are deterministic, repeatable and independent of each other."""
import contextlib
import io
import json
import os
import subprocess
import sys

import numpy as np

from .. import runtime as T
from .. import spec as S
from ..core import HERE, Prop
from ..env import tp
from .runs import brief

LATER = ("incs", "stepcontrol", "maxfac", "minfac", "increase", "reduce", "dxtol", "ftol", "xtol", "cycl",
         "nfev", "dlpf", "du", "xlimit", "j0", "j_pre", "j_fixed", "nsteps", "ndim")


def table(keys, *values):
    return {int(k): tuple(tuple(np.asarray(v[i], dtype=float).ravel().tolist()) for v in values)
            for i, k in enumerate(keys)}


def inputs(M):
    """The user's inputs as tables keyed by label, free boundaries and zero forces
    left out (they mean the same as no entry)."""
    E = M.Elements
    return dict(
        nodes=table(M.Nodes.labels, M.Nodes.coords),
        elements=table(E.labels, E.conns, E.elem_type, E.mat_type, E.material_properties,
                       E.geometric_properties),
        bounds={k: v for k, v in table(M.Boundaries.Unodes, M.Boundaries.Uvalues).items()
                if v[0] != (1.0, 1.0, 1.0)},
        forces={k: v for k, v in table(M.ExtForces.nodes, M.ExtForces.forces).items() if any(v[0])},
        settings={k: repr(getattr(M.Settings, k)) for k in LATER},
    )


def results(M):
    return [T.snap(R) for R in M.Results.R]


def same(a, b):
    """None, or where two result histories differ (bitwise)."""
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} results"
    for i, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if x[k] is None or y[k] is None:
                if k != "state_v" and (x[k] is None) != (y[k] is None):
                    return f"{k} of result {i}"
                continue
            if x[k].shape != y[k].shape or not np.array_equal(x[k], y[k]):
                return f"{k} of result {i}"
    return None


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def far(spec, a, b):
    x = {n: np.array(c, dtype=float) for n, c in spec["nodes"]}
    return np.linalg.norm(x[a] - x[b]) > 0.05


def add_member(spec, M, a, b, rng):
    e = dict(spec["elements"][int(rng.integers(len(spec["elements"])))], conn=[a, b],
             label=max(e["label"] for e in spec["elements"]) + 1)
    e["mprop"], e["gprop"] = list(e["mprop"]), list(e["gprop"])
    spec["elements"].append(e)
    M.Elements.add_element(e["label"], [a, b], 1, e["mat"], list(e["mprop"]), list(e["gprop"]))


def related(rng, spec):
    """A model with the labels of another one and slightly or partly other inputs."""
    new = S.clone(spec)
    for k in rng.choice(["coord", "material", "area", "force", "settings", "conn"], int(rng.integers(1, 3)),
                        replace=False):
        if k == "coord":
            n = new["nodes"][int(rng.integers(len(new["nodes"])))]
            h = float(rng.choice([1e-7, 1e-4, 0.02]))
            n[1] = [c + h if c else c for c in n[1]]
        elif k == "conn":
            e = new["elements"][int(rng.integers(len(new["elements"])))]
            e["conn"] = e["conn"][::-1]
        elif k == "settings":
            new["settings"]["du"] = S.r4(0.7 * new["settings"]["du"])
        elif k == "force":
            f = new["forces"][int(rng.integers(len(new["forces"])))]
            f[1] = [S.r4(1.5 * x) for x in f[1]]
        else:
            e = new["elements"][int(rng.integers(len(new["elements"])))]
            if k == "area":
                e["gprop"] = [S.r4(1.3 * x) for x in e["gprop"]]
            else:
                e["mprop"] = [S.r4(0.9 * e["mprop"][0])] + e["mprop"][1:]
    return new


def edit(rng, spec, M):
    """Edit a built model and the spec alike; returns the new spec and what was done."""
    new = S.clone(spec)
    done = []
    for _ in range(int(rng.integers(1, 4))):
        k = str(rng.choice(["node", "force", "area", "material", "bound", "settings", "element", "reconnect", "member",
                            "new-node", "material-type"]))
        if k == "node":
            v = S.View(new)
            n = new["nodes"][int(rng.integers(len(new["nodes"])))]
            x = [S.r4(c + (rng.normal() * 0.03 if c else 0.0)) for c in n[1]]
            # (a table of whole numbers cannot take others in place)
            if rng.random() < 0.5 or M.Nodes.coords.dtype.kind != "f":
                M.Nodes.del_node(n[0])
                M.Nodes.add_node(n[0], x)
            else:
                M.Nodes.coords[np.where(M.Nodes.labels == n[0])] = x
            n[1] = x
            del v
        elif k == "force":
            f = new["forces"][int(rng.integers(len(new["forces"])))]
            f[1] = [S.r4(1.5 * x) for x in f[1]]
            M.ExtForces.del_force(f[0])
            M.ExtForces.add_force(f[0], f[1])
        elif k == "area":
            e = new["elements"][int(rng.integers(len(new["elements"])))]
            e["gprop"] = [S.r4(1.3 * x) for x in e["gprop"]]
            M.Elements.assign_geometry([e["label"]], list(e["gprop"]))
        elif k == "material":
            e = new["elements"][int(rng.integers(len(new["elements"])))]
            e["mprop"] = [S.r4(0.9 * e["mprop"][0])] + e["mprop"][1:]
            M.Elements.assign_material([e["label"]], list(e["mprop"]))
        elif k == "bound":
            full = {n: [1, 1, 1] for n, _ in new["nodes"]}
            full.update({n: list(b) for n, b in new["bounds"]})
            cand = [n for n in full if sum(full[n]) > 1]
            if not cand or new["settings"].get("j0") is not None or "xlimit" in new["settings"]:
                continue
            n = cand[int(rng.integers(len(cand)))]
            b = list(full[n])
            b[[a for a in range(3) if b[a]][0]] = 0
            M.Boundaries.del_bound_U(n)
            M.Boundaries.add_bound_U(n, b)
            new["bounds"] = [x for x in new["bounds"] if x[0] != n] + [[n, b]]
        elif k == "settings":
            new["settings"]["du"] = S.r4(0.7 * new["settings"]["du"])
            new["settings"]["dxtol"] = 1.2
            M.Settings.du, M.Settings.dxtol = new["settings"]["du"], 1.2
        elif k == "reconnect":  # the same label between other nodes
            e = new["elements"][int(rng.integers(len(new["elements"])))]
            cand = [n for n, x in new["nodes"] if n not in e["conn"] and far(new, n, e["conn"][0])]
            if not cand:
                continue
            e["conn"] = [e["conn"][0], cand[int(rng.integers(len(cand)))]]
            new["elements"].remove(e)
            new["elements"].append(e)
            M.Elements.del_element(e["label"])
            M.Elements.add_element(e["label"], list(e["conn"]), 1, e["mat"], list(e["mprop"]), list(e["gprop"]))
        elif k == "member":  # one more element
            a, b = (int(x) for x in rng.choice([n for n, _ in new["nodes"]], 2, replace=False))
            if not far(new, a, b):
                continue
            add_member(new, M, a, b, rng)
        elif k == "new-node":  # one more node, held by three elements
            label = max(n for n, _ in new["nodes"]) + 1
            x = [S.r4(c) for c in np.mean([c for _, c in new["nodes"]], axis=0) + rng.uniform(0.4, 0.9, 3)]
            ends = [int(n) for n in rng.permutation([n for n, _ in new["nodes"]])[:4]]
            new["nodes"].append([label, x])
            M.Nodes.add_node(label, list(x))
            for n in ends:
                if far(new, n, label):
                    add_member(new, M, n, label, rng)
            full = [1, 0, 0] if len(ends) < 3 or rng.random() < 0.5 else [1, 1, 1]
            new["bounds"].append([label, full])
            M.Boundaries.add_bound_U(label, list(full))
        elif k == "material-type":
            e = new["elements"][int(rng.integers(len(new["elements"])))]
            if len(e["mprop"]) < 3:
                continue
            e["mat"] = 3 - e["mat"]
            M.Elements.del_element(e["label"])
            M.Elements.add_element(e["label"], list(e["conn"]), 1, e["mat"], list(e["mprop"]), list(e["gprop"]))
            new["elements"].remove(e)
            new["elements"].append(e)
        else:
            if len(new["elements"]) < 2:
                continue
            e = new["elements"].pop(int(rng.integers(len(new["elements"]))))
            e = dict(e, gprop=[S.r4(0.8 * x) for x in e["gprop"]], conn=e["conn"][::-1])
            M.Elements.del_element(e["label"])
            M.Elements.add_element(e["label"], list(e["conn"]), 1, e["mat"], list(e["mprop"]),
                                   list(e["gprop"]))
            new["elements"].append(e)
        done.append(k)
    return new, done


class C15(Prop):
    id = "C15"
    n = {"quick": 220, "thorough": 4000}
    floors = {"results_compared": 1500, "kind_rerun": 15, "kind_interleave": 15, "kind_nested": 15, "kind_fresh": 8,
              "kind_log": 10, "kind_edit": 20, "inputs_compared": 60}
    rule = ("random models run twice, under log levels 0-2, interleaved with and nested inside runs of other models, "
            "in fresh processes with other hash seeds and in another order (also models that share labels and most "
            "inputs), and after edits of a built model against a new model of the edited inputs; all results compared bit by bit; non-trivial: results with at least one increment")
    case_timeout = 240
    KINDS = ["rerun", "interleave", "nested", "log", "edit", "edit", "interleave", "fresh", "edit", "edit"]

    def case(self, rng, i, tier):
        kind = self.KINDS[i % 10]
        if kind == "fresh" and i % 20 > 9:
            kind = "nested"
        m = {"interleave": 3, "nested": 2, "fresh": 6}.get(kind, 1)
        specs = []
        for _ in range(m):
            s = S.random_spec(rng, nsteps=int(rng.choice([1, 1, 2])), incs=int(rng.integers(4, 10)))
            if rng.random() < 0.2:
                S.with_limit(rng, s)
            specs.append(s)
        if m > 1 and rng.random() < 0.7:  # models that share labels and most of their inputs
            for k in range(1, m):
                specs[k] = related(rng, specs[int(rng.integers(k))])
        return dict(kind=kind, specs=specs, seed=int(rng.integers(2**31)))

    def reference(self, spec, ctx):
        t = T.run_spec(spec)
        if t.status != "ok":
            if "NaN" not in t.exc:
                ctx.viol("crash", f"a valid model raised {t.exc}")
            ctx.counts["not_usable"] += 1
            return None
        return t.R

    def compare(self, ctx, ref, got, key, what):
        ctx.counts["results_compared"] += len(ref)
        d = same(ref, got)
        if d:
            ctx.viol(key, f"{what}: {d} differ(s)")
        return not d

    def run(self, case, ctx):
        kind, specs = case["kind"], case["specs"]
        c = ctx.counts
        refs = [self.reference(s, ctx) for s in specs]
        if any(r is None for r in refs):
            return
        c["kind_" + kind] += 1
        rng = np.random.default_rng(case["seed"])
        getattr(self, "run_" + kind)(specs, refs, rng, ctx)
        if len(refs[0]) > 1:
            ctx.nontrivial(kind + "".join(T.trace_hash(r[:3]) for r in refs[:2]))
            ctx.sample = dict(kind=kind, specs=[brief(s) for s in specs[:2]], results=[len(r) for r in refs])

    def run_rerun(self, specs, refs, rng, ctx):
        with quiet():
            M = S.make_model(specs[0])
            before = inputs(M)
            M.build()
            mid = inputs(M)
            M.run()
        after = inputs(M)
        ctx.counts["inputs_compared"] += 2
        for name, x in (("building", mid), ("running", after)):
            d = [k for k in before if before[k] != x[k]]
            if d:
                ctx.viol("inputs-changed", f"{name} changed the user's {d}")
                return
        if not self.compare(ctx, refs[0], results(M), "repeat", "a second model of the same inputs"):
            return
        # the objects a user passed in stay as they are
        spec = specs[0]
        own = [tp.Node(n, np.array(x)) for n, x in spec["nodes"]]
        ele = [tp.Element(e["label"], list(e["conn"]), 1, e["mat"], material_properties=list(e["mprop"]),
                          geometric_properties=list(e["gprop"])) for e in spec["elements"]]
        bnd = [tp.BoundaryU(n, list(b)) for n, b in spec["bounds"]]
        frc = [tp.ExternalForce(n, np.array(f)) for n, f in spec["forces"]]

        def dump():
            return repr([[sorted((k, np.asarray(x).tolist()) for k, x in vars(o).items()) for o in L]
                         for L in (own, ele, bnd, frc)])

        b0 = dump()
        with quiet():
            M2 = tp.Model(log=0)
            M2.Nodes.add_nodes(own)
            M2.Elements.add_elements(ele)
            M2.Boundaries.add_bounds_U(bnd)
            M2.ExtForces.add_forces(frc)
            S.apply_settings(M2, spec["settings"])
            M2.build()
            M2.run()
        ctx.counts["inputs_compared"] += 1
        if dump() != b0:
            ctx.viol("objects-changed", "building and running changed the user's node/element/boundary/force objects")
            return
        if not self.compare(ctx, refs[0], results(M2), "repeat", "the same inputs as core objects"):
            return
        with quiet():
            for k in range(2):
                M.build()
                M.run()
                if not self.compare(ctx, refs[0], results(M), "rebuild", f"build and run no. {k + 2} of one model"):
                    return

    def run_interleave(self, specs, refs, rng, ctx):
        Ms = [None] * len(specs)
        state = [0] * len(specs)
        budget = [int(rng.integers(1, 3)) for _ in specs]  # runs per model
        trail = []
        with quiet():
            while True:
                live = [i for i in range(len(specs)) if budget[i]]
                if not live:
                    break
                i = int(rng.choice(live))
                if state[i] == 0:
                    if Ms[i] is None:
                        Ms[i] = S.make_model(specs[i])
                        trail.append(f"create {i}")
                    state[i] = 1
                elif state[i] == 1:
                    Ms[i].build()
                    trail.append(f"build {i}")
                    state[i] = 2
                else:
                    Ms[i].run()
                    trail.append(f"run {i}")
                    state[i], budget[i] = 0, budget[i] - 1
                    if not self.compare(ctx, refs[i], results(Ms[i]), "interleave", "; ".join(trail)):
                        return
        for i, M in enumerate(Ms):
            if not self.compare(ctx, refs[i], results(M), "interleave-later", "; ".join(trail) + f": results of {i}"):
                return

    def run_nested(self, specs, refs, rng, ctx):
        at = int(rng.integers(1, 40))
        inner = []
        calls = [0]

        class Outer(T.MonitoredModel):
            def equilibrium(self, *a, **k):
                calls[0] += 1
                if calls[0] == at:
                    M = S.make_model(specs[1])
                    M.build()
                    M.run()
                    inner.append(results(M))
                return super().equilibrium(*a, **k)

        t = T.run_spec(specs[0], cls=Outer)
        if t.status != "ok":
            ctx.viol("nested", f"a run raised {t.exc} because another model was run in between")
            return
        ctx.counts["nested_runs"] += len(inner)
        if self.compare(ctx, refs[0], t.R, "nested", f"another model was run at evaluation {at}") and inner:
            self.compare(ctx, refs[1], inner[0], "nested-inner", "a model run within another run")

    def run_log(self, specs, refs, rng, ctx):
        for log in (1, 2):
            with quiet():
                M = S.make_model(specs[0], log=log)
                M.build()
                M.run()
            if not self.compare(ctx, refs[0], results(M), "log-level", f"log level {log} instead of 0"):
                return

    def run_edit(self, specs, refs, rng, ctx):
        with quiet():
            M = S.make_model(specs[0])
            M.build()
            if rng.random() < 0.8:
                M.run()
            new, done = edit(rng, specs[0], M)
        t = T.run_spec(new)
        try:
            with quiet():
                M.build()
                M.run()
        except Exception as e:
            if t.status == "ok":
                ctx.viol("edit", f"after {done} the edited model raised {type(e).__name__}: {e}, a new one did not")
            return
        if t.status != "ok":
            if "NaN" not in t.exc:
                ctx.viol("edit", f"after {done} the edited model runs, a new one raised {t.exc}")
            return
        for d in done:
            ctx.counts["edits_" + d] += 1
        self.compare(ctx, t.R, results(M), "edit", f"edited ({', '.join(done)}) against a new model")

    def run_fresh(self, specs, refs, rng, ctx):
        order = [int(k) for k in rng.permutation(len(specs))]  # in another order than here
        specs, refs = [specs[k] for k in order], [refs[k] for k in order]
        e = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))))
        p = subprocess.run([sys.executable, "-B", "-m", "trussmon.subrun"], input=json.dumps(specs), text=True,
                           capture_output=True, cwd=HERE, env=e, timeout=200)
        got = [line.split() for line in p.stdout.splitlines() if line.startswith("HASH")]
        if len(got) != len(specs):
            ctx.inconclusive = "subprocess failed: " + p.stderr[-300:]
            return
        for i, (g, r) in enumerate(zip(got, refs)):
            ctx.counts["results_compared"] += len(r)
            ctx.counts["fresh_runs"] += 1
            if g[1] != "ok" or int(g[2]) != len(r) or g[3] != T.trace_hash(r):
                ctx.viol("fresh-process", f"a fresh process (PYTHONHASHSEED={e['PYTHONHASHSEED']}) gives other results "
                         f"({g}) than this one ({len(r)} results)")
                return


PROPS = [C15()]
