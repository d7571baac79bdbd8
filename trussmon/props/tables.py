"""C16: the handlers behave like tables keyed by label."""
import numpy as np

from .. import runtime as T
from .. import spec as S
from ..core import Prop
from ..env import tp
from .determinism import quiet, results
from .runs import brief


def number(rng):
    k = int(rng.integers(5))
    if k == 0:
        return int(rng.integers(-9, 10))
    if k == 1:
        return float(np.round(rng.normal() * 10, 3))
    if k == 2:
        return float(rng.normal() * 10.0 ** rng.integers(-9, 10))
    if k == 3:
        return float(rng.uniform(0, 1))
    return float(rng.integers(-3, 4)) + 0.5


class Sim:
    """The reference: plain dictionaries."""

    def __init__(self, ncomp):
        self.nodes, self.elements, self.bounds, self.forces = {}, {}, {}, {}
        self.width = None
        self.ncomp = ncomp

    def apply(self, op):
        k = op["op"]
        if k == "add_nodes":
            for lab, x in op["items"]:
                self.nodes[lab] = list(x)
        elif k == "del_node":
            self.nodes.pop(op["label"], None)
        elif k == "add_bounds":
            for lab, x in op["items"]:
                self.bounds[lab] = list(x)
        elif k == "del_bound":
            self.bounds.pop(op["label"], None)
        elif k == "add_forces":
            for lab, x in op["items"]:
                self.forces[lab] = list(x)
        elif k == "del_force":
            self.forces.pop(op["label"], None)
        elif k == "add_elements":
            for e in op["items"]:
                e = dict(e)
                if e["mprop"] is None:
                    e["mprop"] = [float("nan")]
                if e["gprop"] is None:
                    e["gprop"] = [float("nan")]
                if self.width is None:
                    self.width = len(e["mprop"])
                self.elements[e["label"]] = {k: e[k] for k in ("conn", "etype", "mat", "mprop", "gprop")}
        elif k == "del_element":
            self.elements.pop(op["label"], None)
        elif k == "material":
            m = list(op["mprop"])
            if len(m) > self.width:
                for e in self.elements.values():
                    e["mprop"] = list(e["mprop"]) + [0] * (len(m) - self.width)
                self.width = len(m)
            m = m + [0] * (self.width - len(m))
            for lab in self.elements if op["labels"] == "all" else op["labels"]:
                if lab in self.elements:
                    self.elements[lab]["mprop"] = list(m)
                    if op.get("mtype") is not None:
                        self.elements[lab]["mat"] = op["mtype"]
        elif k in ("geometry", "etype", "mtype"):
            f = {"geometry": "gprop", "etype": "etype", "mtype": "mat"}[k]
            for lab in self.elements if op["labels"] == "all" else op["labels"]:
                if lab in self.elements:
                    self.elements[lab][f] = list(op["value"]) if k == "geometry" else op["value"]
        elif k == "geometries":
            for lab, g in zip(list(self.elements) if op["labels"] == "all" else op["labels"], op["values"]):
                if lab in self.elements:
                    self.elements[lab]["gprop"] = list(g)
        elif k == "build":
            pass
        elif k == "twice":
            for o in op["ops"]:
                self.apply(o)
        else:
            raise KeyError(k)


def scribble(x):
    """Change an object that was handed over."""
    if isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (int, float)):
                x[i] = 987654
    elif isinstance(x, np.ndarray):
        x[...] = 1 if x.dtype == bool else 98765
    elif hasattr(x, "__dict__"):
        for v in vars(x).values():
            scribble(v)


def give(form, x):
    """A number sequence in the form in which a user may pass it."""
    return {"list": list, "tuple": tuple, "array": np.array}[form](x)


def perform(M, op):
    """Apply one operation to the real handlers, then overwrite what was passed in."""
    k, form = op["op"], op.get("form", "list")
    if k == "twice":
        for o in op["ops"]:
            perform(M, o)
        return
    passed = []

    def g(x, f=None):
        y = give(f or form, x)
        passed.append(y)
        return y

    def hand_over(adder, many, cls, rows):
        """rows: (args, kwargs) for one entry each."""
        how = op["how"]
        if how == "raw":
            for a, kw in rows:
                adder(*a, **kw)
        else:
            obj = [cls(*a, **kw) for a, kw in rows]
            passed.extend(obj)
            if how == "many":
                many(obj)
            else:
                for o in obj:
                    adder(o)

    if k == "add_nodes":
        hand_over(M.Nodes.add_node, M.Nodes.add_nodes, tp.Node,
                  [((lab, g(x)), {}) if op["pos"] else ((lab,), dict(coord=g(x))) for lab, x in op["items"]])
    elif k == "del_node":
        M.Nodes.del_node(op["label"])
    elif k == "add_bounds":
        hand_over(M.Boundaries.add_bound_U, M.Boundaries.add_bounds_U, tp.BoundaryU,
                  [((lab, g(x)), {}) if op["pos"] else ((lab,), dict(values=g(x))) for lab, x in op["items"]])
    elif k == "del_bound":
        M.Boundaries.del_bound_U(op["label"])
    elif k == "add_forces":
        hand_over(M.ExtForces.add_force, M.ExtForces.add_forces, tp.ExternalForce,
                  [((lab, g(x)), {}) if op["pos"] else ((lab,), dict(force=g(x))) for lab, x in op["items"]])
    elif k == "del_force":
        M.ExtForces.del_force(op["label"])
    elif k == "add_elements":
        rows = []
        for e in op["items"]:
            # properties as lists: documented, and compared with the default list
            m = None if e["mprop"] is None else g(e["mprop"], "list")
            a = None if e["gprop"] is None else g(e["gprop"], "list")
            short = op["short"]
            kw = {}
            if m is not None:
                kw["mprop" if short else "material_properties"] = m
            if a is not None:
                kw["gprop" if short else "geometric_properties"] = a
            if op["pos"]:
                rows.append(((e["label"], g(e["conn"]), e["etype"], e["mat"]), kw))
            else:
                if e["etype"] != 1:
                    kw["elem_type"] = e["etype"]
                if e["mat"] != 1:
                    kw["mat_type"] = e["mat"]
                rows.append(((e["label"],), dict(conn=g(e["conn"]), **kw)))
        hand_over(M.Elements.add_element, M.Elements.add_elements, tp.Element, rows)
    elif k == "del_element":
        M.Elements.del_element(op["label"])
    else:
        labels = op["labels"] if op.get("labels") == "all" else None
        if labels is None and "labels" in op:
            labels = g(op["labels"], "list" if form == "array" else form)
        if k == "material":
            m = g(op["mprop"])
            if op.get("mtype") is None:
                M.Elements.assign_material(labels, m)
            else:
                M.Elements.assign_material(labels, m, op["mtype"])
        elif k == "geometry":
            M.Elements.assign_geometry(labels, g(op["value"]))
        elif k == "etype":
            M.Elements.assign_etype(labels, op["value"])
        elif k == "mtype":
            M.Elements.assign_mtype(labels, op["value"])
        elif k == "geometries":
            M.Elements.assign_geometries(labels, [g(x) for x in op["values"]])
        elif k == "build":
            M.build()
    for x in passed:
        scribble(x)


def rows(labels, values):
    """label -> list of value rows"""
    out = {}
    if labels is None:
        return out
    labels, values = np.asarray(labels), np.asarray(values)
    if len(labels) != len(values):
        return dict(length=[(len(labels), len(values))])
    for lab, v in zip(labels, values):
        out.setdefault(int(lab), []).append(tuple(np.asarray(v, dtype=float).ravel().tolist()))
    return out


def eq(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def compare(M, sim, touched, c):
    """None or (key, message) of the first difference between handlers and reference."""
    E = M.Elements
    el = sim.elements
    tables = [
        ("node coordinates", rows(M.Nodes.labels, M.Nodes.coords), sim.nodes),
        ("boundary values", rows(M.Boundaries.Unodes, M.Boundaries.Uvalues), sim.bounds),
        ("external forces", rows(M.ExtForces.nodes, M.ExtForces.forces), sim.forces),
        ("connectivity", rows(E.labels, E.conns), {k: e["conn"] for k, e in el.items()}),
        ("element type", rows(E.labels, E.elem_type), {k: [e["etype"]] for k, e in el.items()}),
        ("material type", rows(E.labels, E.mat_type), {k: [e["mat"]] for k, e in el.items()}),
        ("material properties", rows(E.labels, E.material_properties), {k: e["mprop"] for k, e in el.items()}),
        ("geometric properties", rows(E.labels, E.geometric_properties), {k: e["gprop"] for k, e in el.items()}),
    ]
    for name, have, want in tables:
        c["tables_compared"] += 1
        if set(have) != set(want):
            return "labels", f"{name}: labels {sorted(map(str, have))} instead of {sorted(map(str, want))}"
        for k, v in want.items():
            c["entries_compared"] += 1
            if len(have[k]) != 1:
                return "duplicate", f"{name}: {len(have[k])} entries for label {k}"
            a, b = have[k][0], tuple(float(x) for x in v)
            if not eq(a, b) and not (name == "material properties" and len(a) > len(b)
                                     and eq(a[:len(b)], b) and not any(a[len(b):])):
                whose = "the label" if k in touched else "another label"
                return ("value" if k in touched else "other-label",
                        f"{name} of {whose} {k}: {list(a)} instead of {list(b)}")
    for k, e in el.items():
        got = [E.get_nodes(k), [E.NA(k), E.NE(k)], [E.get_element_type(k)], [E.get_material_type(k)],
               E.get_geometric_properties(k)]
        for a, b, name in zip(got, [e["conn"], e["conn"], [e["etype"]], [e["mat"]], e["gprop"]],
                              ["get_nodes", "NA/NE", "get_element_type", "get_material_type",
                               "get_geometric_properties"]):
            c["getters_compared"] += 1
            if not eq([float(x) for x in np.ravel(a)], [float(x) for x in b]):
                return "getter", f"{name}({k}) = {a} instead of {b}"
        a = [float(x) for x in np.ravel(E.get_material_properties(k))]
        b = [float(x) for x in e["mprop"]]
        if not eq(a[:len(b)], b) or any(a[len(b):]):
            return "getter", f"get_material_properties({k}) = {a} instead of {b}"
    return None


def touched_by(op):
    if op["op"] == "twice":
        return set().union(*(touched_by(o) for o in op["ops"]))
    if "items" in op:
        return {i["label"] if isinstance(i, dict) else i[0] for i in op["items"]}
    if "label" in op:
        return {op["label"]}
    if op.get("labels") == "all":
        return None
    return set(op.get("labels", ()))


class Anything:
    def __contains__(self, x):
        return True


def random_ops(rng, n, ncomp):
    sim = Sim(ncomp)
    pool = [int(x) for x in rng.choice(np.arange(-30, 400), 24, replace=False)]
    if rng.random() < 0.3:
        pool = [1 + k for k in range(24)]
    ops = []

    def fresh(table, m):
        cand = [x for x in pool if x not in table]
        return [int(x) for x in rng.permutation(cand)[:m]]

    def some(table, unknown=0.1):
        labs = list(table)
        m = int(rng.integers(1, len(labs) + 1))
        out = [int(x) for x in rng.permutation(labs)[:m]]
        if rng.random() < unknown:
            out.insert(int(rng.integers(len(out) + 1)), 99999)
        return out

    ints_first = rng.random() < 0.4
    gw = int(rng.choice([1, 1, 1, 2, 3]))  # numbers of one section
    while len(ops) < n:
        base = dict(how=str(rng.choice(["raw", "object", "many"])), form=str(rng.choice(["list", "tuple", "array"])),
                    pos=bool(rng.random() < 0.5))

        def num():
            return int(rng.integers(-9, 10)) if ints_first and len(ops) < 4 else number(rng)

        k = str(rng.choice(["node", "element", "bound", "force", "assign", "assign"]))
        if k in ("node", "bound", "force"):
            table = dict(node=sim.nodes, bound=sim.bounds, force=sim.forces)[k]
            if table and rng.random() < 0.4:
                lab = int(rng.choice(list(table))) if rng.random() < 0.9 else 99999
                op = dict(op="del_" + k, label=lab)
            else:
                m = int(rng.integers(1, 4))
                labs = fresh(table, m)
                if not labs:
                    continue
                if k == "node":
                    items = [[x, [num() for _ in range(3)]] for x in labs]
                elif k == "bound":
                    items = [[x, [int(b) for b in rng.integers(0, 2, 3)]] for x in labs]
                else:
                    items = [[x, [num() for _ in range(ncomp)]] for x in labs]
                op = dict(base, op=f"add_{k}s", items=items)
        elif k == "element":
            el = sim.elements
            if el and rng.random() < 0.35:
                lab = int(rng.choice(list(el))) if rng.random() < 0.9 else 99999
                op = dict(op="del_element", label=lab)
            else:
                labs = fresh(el, int(rng.integers(1, 4)))
                if not labs:
                    continue
                w = sim.width or int(rng.integers(1, 4))
                items = []
                for x in labs:
                    nomat = w == 1 and rng.random() < 0.3
                    items.append(dict(label=x, conn=[int(c) for c in rng.choice(pool, 2, replace=False)],
                                      etype=1 if rng.random() < 0.7 else int(rng.integers(1, 5)),
                                      mat=int(rng.integers(1, 4)), mprop=None if nomat else [num() for _ in range(w)],
                                      gprop=None if gw == 1 and rng.random() < 0.2 else [num() for _ in range(gw)]))
                op = dict(base, op="add_elements", items=items, short=bool(rng.random() < 0.5))
        else:
            if not sim.elements:
                continue
            labels = "all" if rng.random() < 0.25 else some(sim.elements)
            a = str(rng.choice(["material", "material", "geometry", "geometries", "etype", "mtype"]))
            op = dict(op=a, labels=labels, form=base["form"])
            if a == "material":
                op["mprop"] = [num() for _ in range(int(rng.integers(1, 5)))]
                if rng.random() < 0.4:
                    op["mtype"] = int(rng.integers(1, 4))
            elif a == "geometry":
                op["value"] = [num() for _ in range(gw)]
            elif a == "geometries":
                if labels != "all" and rng.random() < 0.2:  # a label twice: the later value counts
                    labels.append(labels[int(rng.integers(len(labels)))])
                op["values"] = [[num() for _ in range(gw)] for _ in (sim.elements if labels == "all" else labels)]
            else:
                op["value"] = int(rng.integers(1, 5))
        if "items" in op and rng.random() < 0.12:
            # entered a second time by mistake, then deleted by label
            again = dict(op, items=[dict(e, gprop=[num() for _ in range(gw)], conn=e["conn"][::-1]) if isinstance(e, dict)
                                    else [e[0], [1 - b for b in e[1]] if k == "bound" else [num() for _ in e[1]]]
                                    for e in op["items"][:1]])
            lab = again["items"][0]["label"] if k == "element" else again["items"][0][0]
            op = dict(op="twice", ops=[op, again, dict(op="del_" + k, label=lab)])
        sim.apply(op)
        ops.append(op)
    return ops


def detour(rng, spec):
    """Operations that create something else and edit it into the state of a spec."""
    wrong = S.clone(spec)
    ops, fix = [], []
    labs = [n for n, _ in spec["nodes"]]
    used = set(labs) | {e["label"] for e in spec["elements"]}
    junk = [x for x in range(7001, 7030) if x not in used]
    w = len(spec["elements"][0]["mprop"])
    gw = len(spec["elements"][0]["gprop"])
    h = dict(how="raw", form="tuple", pos=True, short=True)

    def hh():
        return dict(how=str(rng.choice(["raw", "object", "many"])), form=str(rng.choice(["list", "tuple", "array"])),
                    pos=bool(rng.random() < 0.5), short=bool(rng.random() < 0.5))

    for n in wrong["nodes"]:
        if rng.random() < 0.35:
            good = list(n[1])
            n[1] = [float(np.round(c + rng.normal(), 2)) for c in good]
            fix += [[dict(op="del_node", label=n[0]), dict(hh(), op="add_nodes", items=[[n[0], good]])]]
    if rng.random() < 0.6:
        lab = junk.pop()
        wrong["nodes"].insert(int(rng.integers(len(wrong["nodes"]) + 1)), [lab, [1.5, 2.5, -3.0]])
        wrong["bounds"].append([lab, [0, 0, 0]])
        wrong["elements"].insert(
            int(rng.integers(len(wrong["elements"]) + 1)),
            dict(label=junk.pop(), conn=[lab, labs[0]], mat=1, mprop=[3.0] * w, gprop=[2.0] * gw))
        bad = [e["label"] for e in wrong["elements"] if lab in e["conn"]]
        fix.append([dict(op="del_element", label=bad[0]), dict(op="del_bound", label=lab),
                    dict(op="del_node", label=lab)])
    for e in list(wrong["elements"]):
        if e["label"] > 7000 and e["mprop"] == [3.0] * w:
            continue
        r = rng.random()
        if r < 0.2:
            good = dict(e, etype=1)
            e.update(conn=e["conn"][::-1], gprop=[9.0] * gw, mprop=[2.0] * w, mat=3 - e["mat"])
            fix.append([dict(op="del_element", label=e["label"]), dict(hh(), op="add_elements", items=[good])])
        elif r < 0.45:
            good = list(e["mprop"])
            e["mprop"] = [7] * w
            fix.append([dict(op="material", labels=[e["label"]], mprop=good, form="list")])
        elif r < 0.65:
            good = list(e["gprop"])
            e["gprop"] = [int(x) for x in rng.integers(1, 9, gw)]
            fix.append([dict(op="geometry", labels=[e["label"]], value=good, form="list")])
        elif r < 0.8:
            good = e["mat"]
            e["mat"] = 3 - good
            fix.append([dict(op="mtype", labels=[e["label"]], value=good, form="list")])
    for b in wrong["bounds"]:
        if b[0] not in labs:
            continue
        if rng.random() < 0.3:
            good = list(b[1])
            b[1] = [int(x) for x in rng.integers(0, 2, 3)]
            fix.append([dict(op="del_bound", label=b[0]), dict(hh(), op="add_bounds", items=[[b[0], good]])])
    for f in wrong["forces"]:
        if rng.random() < 0.3:
            good = list(f[1])
            f[1] = [int(x) for x in rng.integers(-3, 4, len(good))]
            fix.append([dict(op="del_force", label=f[0]), dict(hh(), op="add_forces", items=[[f[0], good]])])
    for e in wrong["elements"]:
        e.setdefault("etype", 1)
    ops += [dict(hh(), op="add_nodes", items=wrong["nodes"]), dict(hh(), op="add_elements", items=wrong["elements"]),
            dict(hh(), op="add_bounds", items=wrong["bounds"]), dict(hh(), op="add_forces", items=wrong["forces"])]
    # build (and refill the tables with defaults) in between, if the detour is complete
    fix = [fix[i] for i in rng.permutation(len(fix))]
    for f in fix:
        ops += f
    del h
    return ops, len(fix)


class C16(Prop):
    id = "C16"
    n = {"quick": 420, "thorough": 8000}
    floors = {"operations": 4000, "entries_compared": 60000, "getters_compared": 20000, "runs_compared": 60,
              "results_compared": 200, "objects_overwritten": 1500}
    rule = ("random sequences of handler operations (raw, object and list forms; lists, tuples, arrays; whole numbers "
            "first; unknown labels; deletions), all tables and getters compared with dictionaries after every "
            "operation and every passed object overwritten afterwards; and models edited into the state of a random "
            "spec, run and compared with one created in it; non-trivial: a sequence with deletions and assignments, "
            "or a detour with at least one edit")
    assumptions = ["labels are unique while the sequence runs; rows of one table have one length",
                   "assign_* get the string 'all', lists or tuples of labels"]

    def case(self, rng, i, tier):
        if i % 3 == 2:
            spec = S.random_spec(rng, nsteps=int(rng.choice([1, 2])), incs=int(rng.integers(3, 7)),
                                 mat=str(rng.choice(["el", "mix", "pl"])))
            ops, edits = detour(rng, spec)
            return dict(kind="detour", spec=spec, ops=ops, edits=edits)
        ncomp = int(rng.choice([3, 3, 6]))
        return dict(kind="ops", ops=random_ops(rng, int(rng.integers(10, 45)), ncomp), ncomp=ncomp)

    def play(self, M, ops, sim, ctx):
        for j, op in enumerate(ops):
            try:
                with quiet():
                    perform(M, op)
            except Exception as e:
                ctx.viol("crash", f"operation {j} {op} raised {type(e).__name__}: {e}")
                return False
            sim.apply(op)
            ctx.counts["operations"] += 1
            ctx.counts["op_" + op["op"]] += 1
            ctx.counts["objects_overwritten"] += op.get("how") in ("object", "many")
            t = touched_by(op)
            d = compare(M, sim, Anything() if t is None else t, ctx.counts)
            if d:
                ctx.viol(d[0], f"after operation {j} {op}: {d[1]}")
                return False
        return True

    def run(self, case, ctx):
        M = T.MonitoredModel(log=0)
        sim = Sim(case.get("ncomp"))
        if not self.play(M, case["ops"], sim, ctx):
            return
        if case["kind"] == "ops":
            kinds = {o["op"] for o in case["ops"]}
            if any(k.startswith("del") for k in kinds) and kinds & {"material", "geometry", "geometries", "mtype"}:
                ctx.nontrivial(repr(sorted(kinds)) + str(len(case["ops"])) + str(case["ops"][-1]))
            ctx.sample = dict(kind="ops", operations=len(case["ops"]), first=case["ops"][:2])
            return
        spec = S.clone(case["spec"])
        S.apply_settings(M, spec["settings"])

        def ordered(rows_, labels, key):
            d = {key(r): r for r in rows_}
            return [d[int(x)] for x in labels]

        # the same rows in the same order
        spec["nodes"] = ordered(spec["nodes"], M.Nodes.labels, lambda r: r[0])
        spec["elements"] = ordered(spec["elements"], M.Elements.labels, lambda r: r["label"])
        spec["bounds"] = ordered(spec["bounds"], M.Boundaries.Unodes, lambda r: r[0])
        spec["forces"] = ordered(spec["forces"], M.ExtForces.nodes, lambda r: r[0])
        spec["style"] = "raw"
        t = T.run_spec(spec)
        try:
            with quiet():
                M.build()
                M.run()
        except Exception as e:
            if t.status == "ok":
                ctx.viol("edited", f"a model edited into a state raised {type(e).__name__}: {e}, a new one did not")
            return
        if t.status != "ok":
            if "NaN" not in t.exc:
                ctx.viol("crash", f"a valid model raised {t.exc}")
            return
        ctx.counts["runs_compared"] += 1
        got = results(M)
        if len(got) != len(t.R):
            ctx.viol("edited", f"edited model: {len(got)} results, a model created in that state: {len(t.R)}")
            return
        for i, (a, b) in enumerate(zip(got, t.R)):
            ctx.counts["results_compared"] += 1
            for f in ("U", "r", "g", "lpf", "stretch", "element_force", "element_stress"):
                tol = 1e-7 * (1e-12 + np.abs(b[f]).max() + (1.0 if f in ("U", "lpf") else 0.0))
                if a[f].shape != b[f].shape or not np.abs(a[f] - b[f]).max() <= tol:
                    ctx.viol("edited", f"edited model: {f} of result {i} differs from that of a model created in "
                             f"that state")
                    return
        if case["edits"] and len(got) > 1:
            ctx.nontrivial("detour " + T.trace_hash(got[:3]))
            ctx.sample = dict(kind="detour", spec=brief(spec), edits=case["edits"], results=len(got))


PROPS = [C16()]
