"""Check runner: generate cases, run them under monitors in worker processes,
aggregate what was observed, give a three-valued verdict, write the evidence."""
import collections
import concurrent.futures as cf
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import numpy as np

from . import env  # noqa: F401
from .runtime import CaseTimeout, NoEnd, cpu_limit, watchdog

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("TRUSSMON_EVIDENCE") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")

MAX_VIOLATIONS = 3


class Ctx:
    """What one case observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.sigs = []
        self.sample = None
        self.inconclusive = None
        self.timed_out = False
        self._scratch = None

    def viol(self, key, msg):
        self.violations.append([str(key), str(msg)])

    def check(self, cond, key, msg):
        """Record a violation unless cond; count the evaluation."""
        self.counts["oracle_evaluations"] += 1
        if not cond:
            self.viol(key, msg() if callable(msg) else msg)
        return bool(cond)

    def nontrivial(self, sig):
        self.sigs.append(str(sig))

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="trussmon-")
        return self._scratch

    def close(self):
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


class Prop:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    n = {"quick": 100, "thorough": 2000}
    floors = {}  # counter -> minimum for the quick tier
    case_timeout = 120
    cpu_timeout = None  # processor time without an evaluation that is a violation (termination)
    unit = None  # counter of the evaluations, if there are several per case

    def fixed(self, tier):
        return []

    def case(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def finalize(self, counts, n):
        """Violations that only show in the aggregate: [(key, msg), ...]"""
        return []

    def aggregate(self, counts):
        """Reasons why the run is inconclusive."""
        return []


def case_rng(pid, seed, i):
    return np.random.default_rng([int(pid[1:]), int(seed), int(i)])


def make_case(prop, seed, i, tier, nfixed):
    if i < nfixed:
        return prop.fixed(tier)[i]
    return prop.case(case_rng(prop.id, seed, i - nfixed), i - nfixed, tier)


def raised_by_code(e):
    """Whether an exception that no check expects comes out of the code under test."""
    ours = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
    ours = [n for n in ours if n.startswith((os.path.join(HERE, "trussmon") + os.sep, env.PACKAGE + os.sep))]
    return bool(ours) and ours[-1].startswith(env.PACKAGE + os.sep)


def run_case(prop, case):
    ctx = Ctx()
    cwd = os.getcwd()
    try:
        with watchdog(prop.case_timeout), cpu_limit(prop.cpu_timeout):
            prop.run(case, ctx)
    except NoEnd as e:
        ctx.timed_out = True
        if env.PACKAGE in str(e):
            ctx.viol("no-end", f"{prop.cpu_timeout} s of processor time without an evaluation, still in {e}")
        else:
            ctx.inconclusive = f"case watchdog: {e}"
    except CaseTimeout:
        ctx.timed_out = True
        ctx.inconclusive = "case watchdog"
    except Exception as e:
        if raised_by_code(e):
            ctx.viol("raised", f"{type(e).__name__}: {e} raised by {traceback.format_exc(limit=-2)[-400:]}")
        else:
            ctx.inconclusive = "harness error: " + traceback.format_exc(limit=-6)
    finally:
        os.chdir(cwd)
        ctx.close()
    return ctx


def _worker(pid, seed, tier, idx):
    from .props import get

    prop = get(pid)
    nfixed = len(prop.fixed(tier))
    out = []
    for i in idx:
        try:
            case = make_case(prop, seed, i, tier, nfixed)
        except Exception:
            case, ctx = None, Ctx()
            ctx.inconclusive = "case generator: " + traceback.format_exc(limit=-4)
        else:
            ctx = run_case(prop, case)
        out.append(
            dict(i=i, counts=dict(ctx.counts), violations=ctx.violations, sigs=ctx.sigs,
                 sample=ctx.sample, inconclusive=ctx.inconclusive,
                 case=case if ctx.violations or ctx.inconclusive else None)
        )
        if ctx.timed_out:
            break  # the other cases of the chunk may take as long
    return out


def known_findings(pid):
    """{key: text} of the known (not repaired) findings of a property."""
    out = {}
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return out
    for line in lines:
        if line.startswith("known: "):
            parts = line.split(None, 3)
            if parts[1] == f"property={pid}":
                out[parts[2].split("=", 1)[1]] = parts[3]
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def main(pid, tier=None, seed=None):
    from .props import get

    t0 = time.time()
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    tier = tier if tier in ("quick", "thorough") else "quick"
    prop = get(pid)
    cap = float(os.environ.get("TRUSSMON_CAP", 420 if tier == "quick" else 780))
    nfixed = len(prop.fixed(tier))
    total = nfixed + prop.n[tier]
    ncpu = min(len(os.sched_getaffinity(0)), 16)
    chunk = max(1, min(8, total // (ncpu * 8)))
    chunks = [list(range(a, min(a + chunk, total))) for a in range(0, total, chunk)]

    known = known_findings(pid)
    seen_known = {}
    counts = collections.Counter()
    sigs = set()
    samples = []
    viol = []
    inconcl = []
    done = 0
    stopped = None
    with cf.ProcessPoolExecutor(ncpu) as ex:
        pending = set()
        it = iter(chunks)
        exhausted = False
        try:
            while True:
                while not exhausted and len(pending) < 3 * ncpu:
                    nxt = next(it, None)
                    if nxt is None:
                        exhausted = True
                        break
                    pending.add(ex.submit(_worker, pid, seed, tier, nxt))
                if not pending:
                    break
                ready, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for fu in ready:
                    for r in fu.result():
                        done += 1
                        counts.update(r["counts"])
                        sigs.update(r["sigs"])
                        if r["sample"] is not None:
                            samples.append((r["i"], r["sample"]))
                            samples = sorted(samples, key=lambda s: s[0])[:4]
                        if r["inconclusive"]:
                            inconcl.append((r["i"], r["inconclusive"], r["case"]))
                        for key, msg in r["violations"]:
                            if key in known:
                                seen_known.setdefault(key, msg)
                            else:
                                viol.append((r["i"], key, msg, r["case"]))
                if len({v[0] for v in viol}) >= MAX_VIOLATIONS:
                    stopped = "violations found"
                    break
                if time.time() - t0 > cap:
                    stopped = f"time cap of {cap:.0f} s"
                    break
                if len(inconcl) > max(10, 0.1 * total):
                    stopped = "too many inconclusive cases"
                    break
        finally:
            for fu in pending:
                fu.cancel()
    if not viol:
        for key, msg in prop.finalize(counts, done):
            viol.append((-1, key, msg, None))
    viol.sort(key=lambda v: (v[0], v[1]))

    # ------------------------------------------------------------- verdict
    reasons = []
    frac = done / total if total else 1.0
    for k, m in prop.floors.items():
        need = m if tier == "quick" else m * 2
        need = int(np.ceil(need * min(1.0, frac)))
        if counts[k] < need:
            reasons.append(f"counter {k} = {counts[k]} below its floor {need}")
    reasons += prop.aggregate(counts)
    if len(inconcl) > max(2, 0.03 * done):
        reasons.append(f"{len(inconcl)} of {done} cases inconclusive")
    if done == 0:
        reasons.append("no case was run")

    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.level,
        coverage=dict(
            evaluations=int(counts[prop.unit]) if prop.unit else done,
            distinct_nontrivial=len(sigs), rule=prop.rule,
            samples=jsonable([s[1] for s in samples]) or ["no sample"],
            observed={k: int(counts[k]) for k in sorted(counts) if k != prop.unit},
            planned_cases=total, inconclusive_cases=len(inconcl),
        ),
        assumptions=list(prop.assumptions),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    if prop.unit:
        ev["coverage"]["cases"] = done
    if stopped:
        ev["coverage"]["stopped"] = stopped
    if inconcl:
        ev["coverage"]["inconclusive"] = [f"case {i}: {m[-400:]}" for i, m, _ in inconcl[:5]]
    if reasons:
        ev["coverage"]["inconclusive_reasons"] = reasons
    if seen_known:
        ev["coverage"]["known_findings_seen"] = sorted(seen_known)
    tmp = os.path.join(EVIDENCE, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))

    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {key}: {known[key]}")
    print(f"{pid} [{tier}, seed {seed}]: {done}/{total} cases, {len(sigs)} distinct non-trivial, "
          f"{time.time() - t0:.1f} s")
    print("observed: " + ", ".join(f"{k}={counts[k]}" for k in sorted(counts)))
    if viol:
        shown = set()
        for n, (i, key, msg, case) in enumerate(viol):
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            path = os.path.join(EVIDENCE, "replays", f"{pid}-{tier}-{seed}-{len(shown)}.json")
            with open(path, "w") as fh:
                json.dump(jsonable(dict(property=pid, tier=tier, seed=seed, index=i, key=key,
                                        message=msg, case=case)), fh, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {key}: {msg}")
        sys.stdout.flush()
        return 1
    if reasons:
        print("INCONCLUSIVE: " + "; ".join(reasons))
        for i, m, _ in inconcl[:3]:
            print(f"  case {i}: {m}")
        sys.stdout.flush()
        return 2
    sys.stdout.flush()
    return 0


def replay(path):
    from .props import get

    d = json.load(open(path))
    prop = get(d["property"])
    if d["case"] is None:
        print(f"{d['property']} {d['key']}: aggregate verdict, no single case: {d['message']}")
        return 1
    ctx = run_case(prop, d["case"])
    for k, m in ctx.violations:
        print(f"{d['property']} {k}: {m}")
    if ctx.inconclusive:
        print(ctx.inconclusive)
        return 2
    return 1 if ctx.violations else 0
