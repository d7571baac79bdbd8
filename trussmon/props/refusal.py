"""C17: inconsistent models are refused, never silently solved."""
import numpy as np

from .. import runtime as T
from .. import spec as S
from ..core import Prop
from ..env import tp
from .determinism import quiet
from .runs import brief

KINDS = ["bound-unknown", "force-unknown", "bound-twice", "force-twice", "element-unknown", "node-twice",
         "element-twice", "material-type", "material-missing", "geometry-missing", "both-material", "both-geometry",
         "columns"]


def junk_label(rng, labels):
    """A label that is no node: next to one, far away, a position, zero."""
    labels = [int(x) for x in labels]
    cand = [max(labels) + 1, min(labels) - 1, labels[0] + 1, 0, len(labels), 10**6, -1]
    cand = [c for c in cand if c not in labels]
    return int(cand[int(rng.integers(len(cand)))])


def plan(rng, kind, spec):
    """The parameters (plain data) of one inconsistency."""
    v = S.View(spec)
    nodes = [n for n, _ in spec["nodes"]]
    p = dict(kind=kind, where=float(rng.random()), form=str(rng.choice(["raw", "object"])))
    pick = lambda seq: seq[int(rng.integers(len(seq)))]  # noqa: E731
    if kind in ("bound-unknown", "force-unknown"):
        p["label"] = junk_label(rng, nodes)
        p["value"] = [[0, 0, 0], [1, 1, 1], [0, 1, 0]][int(rng.integers(3))] if kind[0] == "b" else \
            [float(x) for x in [0.0, 0.1][int(rng.integers(2))] * np.ones(3 * v.nsteps)]
        p["instead"] = bool(rng.random() < 0.5)  # of a good entry (the numbers then match)
    elif kind in ("bound-twice", "force-twice"):
        src = spec["bounds"] if kind[0] == "b" else spec["forces"]
        row = pick(src)
        p["label"] = row[0]
        r = rng.random()
        if r < 0.4:
            p["value"] = list(row[1])
        elif kind[0] == "b":
            p["value"] = [1 - x for x in row[1]]
        else:
            p["value"] = [0.5 * x for x in row[1]]
        p["drop"] = bool(rng.random() < 0.5)  # another entry is missing
    elif kind == "element-unknown":
        p["end"] = int(rng.integers(3))
        p["label"] = junk_label(rng, nodes)
        p["e"] = int(rng.integers(len(spec["elements"])))
        p["delete"] = bool(rng.random() < 0.3)  # the node was deleted instead
    elif kind == "node-twice":
        n = pick(spec["nodes"])
        p["label"] = n[0]
        p["value"] = list(n[1]) if rng.random() < 0.4 else [c + 0.25 for c in n[1]]
    elif kind == "element-twice":
        e = pick(spec["elements"])
        p["element"] = dict(e) if rng.random() < 0.4 else dict(e, gprop=[0.5 * x for x in e["gprop"]])
        if rng.random() < 0.3:
            p["element"]["conn"] = e["conn"][::-1]
    elif kind == "material-type":
        p["e"] = int(rng.integers(len(spec["elements"])))
        p["value"] = int(rng.choice([0, 3, 4, -1, 12, 99, 21]))
        p["assign"] = bool(rng.random() < 0.5)
    elif kind in ("material-missing", "geometry-missing"):
        p["e"] = int(rng.integers(len(spec["elements"])))
        p["extra"] = bool(rng.random() < 0.5)  # an additional element between supported nodes
        p["empty"] = bool(rng.random() < 0.2)
    elif kind.startswith("both"):
        p["e"] = int(rng.integers(len(spec["elements"])))
        p["same"] = bool(rng.random() < 0.5)
    elif kind == "columns":
        need = 3 * v.nsteps
        p["have"] = int(rng.integers(1, need))
    return p


def spoil(M, spec, p):
    """Make the (complete) model M inconsistent; may raise."""
    k = p["kind"]
    obj = p["form"] == "object"
    if k in ("bound-unknown", "force-unknown"):
        if k[0] == "b":
            if p["instead"] and len(spec["bounds"]) > 1:
                M.Boundaries.del_bound_U(spec["bounds"][0][0])
            M.Boundaries.add_bound_U(tp.BoundaryU(p["label"], p["value"])) if obj else \
                M.Boundaries.add_bound_U(p["label"], p["value"])
        else:
            if p["instead"] and len(spec["forces"]) > 1:
                M.ExtForces.del_force(spec["forces"][0][0])
            M.ExtForces.add_force(tp.ExternalForce(p["label"], p["value"])) if obj else \
                M.ExtForces.add_force(p["label"], p["value"])
    elif k == "bound-twice":
        M.Boundaries.add_bounds_U([tp.BoundaryU(p["label"], p["value"])])
        if p["drop"]:
            other = [b[0] for b in spec["bounds"] if b[0] != p["label"]]
            if other:
                M.Boundaries.del_bound_U(other[0])
    elif k == "force-twice":
        M.ExtForces.add_forces([tp.ExternalForce(p["label"], p["value"])])
        if p["drop"]:
            other = [b[0] for b in spec["forces"] if b[0] != p["label"]]
            if other:
                M.ExtForces.del_force(other[0])
    elif k == "element-unknown":
        e = spec["elements"][p["e"]]
        if p["delete"]:
            n = e["conn"][0]
            M.Nodes.del_node(n)
            if M.Boundaries.Unodes is not None:
                M.Boundaries.del_bound_U(n)
            if M.ExtForces.nodes is not None:
                M.ExtForces.del_force(n)
        else:
            conn = [[p["label"], e["conn"][1]], [e["conn"][0], p["label"]], [p["label"], p["label"]]][p["end"]]
            M.Elements.del_element(e["label"])
            M.Elements.add_element(e["label"], conn, 1, e["mat"], list(e["mprop"]), list(e["gprop"]))
    elif k == "node-twice":
        M.Nodes.add_node(tp.Node(p["label"], p["value"])) if obj else M.Nodes.add_node(p["label"], p["value"])
    elif k == "element-twice":
        e = p["element"]
        M.Elements.add_element(e["label"], e["conn"], 1, e["mat"], list(e["mprop"]), list(e["gprop"]))
    elif k == "material-type":
        e = spec["elements"][p["e"]]
        if p["assign"]:
            M.Elements.assign_mtype([e["label"]], p["value"])
        else:
            M.Elements.del_element(e["label"])
            M.Elements.add_element(e["label"], e["conn"], 1, p["value"], list(e["mprop"]), list(e["gprop"]))
    elif k in ("material-missing", "geometry-missing"):
        e = spec["elements"][p["e"]]
        kw = dict(mat_type=e["mat"])
        if k[0] == "m":
            kw["gprop"] = list(e["gprop"])
            if p["empty"]:
                kw["mprop"] = []
            elif len(e["mprop"]) > 1:  # one table needs rows of one length
                kw["mprop"] = [np.nan] * len(e["mprop"])
        else:
            kw["mprop"] = list(e["mprop"])
            if p["empty"]:
                kw["gprop"] = []
            elif len(e["gprop"]) > 1:
                kw["gprop"] = [np.nan] * len(e["gprop"])
        conn = list(e["conn"])
        lab = e["label"]
        locked = [n for n, b in spec["bounds"] if not any(b)]
        if p["extra"] and len(locked) > 1:
            conn = locked[:2]
            lab = max(x["label"] for x in spec["elements"]) + 1
        else:
            M.Elements.del_element(lab)
        M.Elements.add_element(lab, conn, **kw)
    elif k.startswith("both"):
        e = spec["elements"][p["e"]]
        M.Elements.del_element(e["label"])
        kw = dict(mprop=list(e["mprop"]), gprop=list(e["gprop"]))
        if k == "both-material":
            kw["material_properties"] = list(e["mprop"]) if p["same"] else [2 * x for x in e["mprop"]]
        else:
            kw["geometric_properties"] = list(e["gprop"]) if p["same"] else [2 * x for x in e["gprop"]]
        if obj:
            M.Elements.add_elements([tp.Element(e["label"], list(e["conn"]), 1, e["mat"], **kw)])
        else:
            M.Elements.add_element(e["label"], list(e["conn"]), mat_type=e["mat"], **kw)
    elif k == "columns":
        for n, f in spec["forces"]:
            M.ExtForces.del_force(n)
        H = type(M.ExtForces)()
        for n, f in spec["forces"]:
            H.add_force(n, f[:p["have"]])
        M.ExtForces = H


class C17(Prop):
    id = "C17"
    n = {"quick": 700, "thorough": 12000}
    floors = {"refused": 600, "refused_when_edited": 120, "control_runs": 500}
    floors.update({"kind_" + k: 30 for k in KINDS})
    rule = ("one inconsistency of each of 13 kinds injected into random valid models (also into models that were "
            "already built or run), labels next to existing ones, duplicates with the same and with other values; the "
            "same model without the inconsistency has to run; non-trivial: a refused model whose valid twin runs")

    def case(self, rng, i, tier):
        kind = KINDS[i % len(KINDS)]
        spec = S.random_spec(rng, nsteps=int(rng.choice([1, 2, 3])), incs=int(rng.integers(2, 5)),
                             mat="el" if kind.endswith("missing") and rng.random() < 0.8 else None)
        return dict(spec=spec, plan=plan(rng, kind, spec), stage=str(rng.choice(["new", "new", "new", "built", "run"])))

    def run(self, case, ctx):
        spec, p = case["spec"], case["plan"]
        t = T.run_spec(spec)
        if t.status != "ok":
            if "NaN" not in t.exc:
                ctx.viol("crash", f"a valid model raised {t.exc}")
            ctx.counts["not_usable"] += 1
            return
        ctx.counts["control_runs"] += 1
        M = S.make_model(spec, cls=T.MonitoredModel)
        with quiet():
            if case["stage"] != "new":
                M.build()
            if case["stage"] == "run":
                M.run()
        where = "create"
        try:
            with quiet():
                spoil(M, spec, p)
                where = "build"
                M.build()
                where = "run"
                M.run()
        except T.EffortExceeded:
            ctx.inconclusive = "effort"
            return
        except Exception as e:
            ctx.counts["refused"] += 1
            ctx.counts["refused_in_" + where] += 1
            ctx.counts["kind_" + p["kind"]] += 1
            ctx.counts["refused_when_edited"] += case["stage"] != "new"
            ctx.counts["refused_by_" + type(e).__name__] += 1
            ctx.nontrivial(f"{p['kind']} {case['stage']} {T.trace_hash(t.R[:2])} {p}")
            ctx.sample = dict(spec=brief(spec), inconsistency=p, stage=case["stage"],
                              refused=f"{where}: {type(e).__name__}: {e}"[:160])
            return
        ctx.viol(p["kind"], f"a model with an inconsistency ({p}, stage {case['stage']}) ran to the end with "
                 f"{len(M.Results.R) - 1} increments")


PROPS = [C17()]
