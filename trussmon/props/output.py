"""C21: output goes where it was requested and stdout is handed back."""
import io
import os
import re
import sys

import numpy as np

from .. import faults
from .. import runtime as T
from .. import spec as S
from ..core import Prop
from ..env import tp
from .determinism import results, same
from .runs import brief

# ------------------------------------------------- what the process writes to
_armed = [None]
_installed = [False]
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    rec = _armed[0]
    if rec is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & _WRITE or isinstance(mode, str) and set(mode) & set("wax+"):
            rec.append(("open", os.path.abspath(path) if isinstance(path, (str, bytes)) else str(path)))
    elif event in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "shutil.rmtree",
                   "shutil.copyfile", "shutil.move", "subprocess.Popen", "os.system"):
        rec.append((event, str(args[0])))


class files_written:
    def __enter__(self):
        if not _installed[0]:
            sys.addaudithook(_hook)
            _installed[0] = True
        self.log = []
        _armed[0] = self.log
        return self.log

    def __exit__(self, *a):
        _armed[0] = None


class Out(io.StringIO):
    """A user's standard output."""


class Boom(Exception):
    pass


TIME = re.compile(r"(seconds|Job duration)")


def normal(text):
    """Lines that do not depend on the clock or on the Markdown fences."""
    return [line.rstrip() for line in text.splitlines()
            if line.strip() not in ("", "```") and not TIME.search(line)]


class Session:
    """Create, build and run one model while standard output, files and results are
    recorded."""

    def __init__(self, spec, log, logfile=None, fault=None, created=None):
        self.spec, self.log, self.logfile, self.fault = spec, log, logfile, fault
        self.created = log if created is None else created  # log level at creation
        self.exc = None
        self.stage = None
        self.M = None

    def create(self):
        kw = {}
        if self.logfile:
            kw["logfile"] = True
            if self.logfile != "analysis":
                kw["logfile_name"] = self.logfile
        self.M = S.make_model(self.spec, log=self.created, cls=T.MonitoredModel, **kw)
        self.M.Settings.log = self.log
        self.mark = sys.stdout.tell()
        faults.attach(self.M, self.spec.get("slow") or [])  # tangents that cost recycles
        if self.fault:
            f = self.fault

            def bang(n, K):
                if n >= f["at"]:
                    raise {"error": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit,
                           "value": ValueError}[f["kind"]]("injected")

            if f["where"] == "stiffness":
                self.M.mon_fault = bang
            else:
                self.M.mon_residual_fault = bang

    def build(self):
        self.M.build()

    def run(self):
        try:
            self.M.run()
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            self.exc = f"{type(e).__name__}: {e}"


class C21(Prop):
    id = "C21"
    n = {"quick": 260, "thorough": 5000}
    floors = {"runs": 400, "logfile_runs": 110, "failed_with_logfile": 18, "silent_runs": 15, "silent_runs_with_reductions": 2, "log_level_set_later": 3,
              "log_lines_compared": 6000, "files_replaced": 20,
              "results_compared": 900, "sequences": 15}
    rule = ("random models run at log levels 0-3 with and without log files in a scratch directory, with exceptions "
            "(also interrupts) injected at random solver evaluations and sequences of models with and without log "
            "files; the standard output object, its content, the file's content and every file opened for writing "
            "(audit events) are recorded; non-trivial: a run with a log file and increments")
    assumptions = ["a model that shall write a log file is created, built and run before the next such model is created "
                   "(the opposite is a known finding)", "lines with measured times and Markdown fences are not compared"]

    KINDS = ["plain", "file", "plain", "fault", "levels", "sequence", "give-up", "file", "fault"]

    def fixed(self, tier):
        rng = np.random.default_rng(21)
        return [dict(kind="interleaved", spec=S.random_spec(rng, incs=4, mat="el", control="auto"),
                     spec2=S.random_spec(rng, incs=4, mat="el", control="auto"))]

    def case(self, rng, i, tier):
        kind = self.KINDS[i % len(self.KINDS)]
        spec = S.random_spec(rng, nsteps=int(rng.choice([1, 1, 2])), incs=int(rng.integers(3, 9)))
        if rng.random() < 0.25:
            S.with_limit(rng, spec)
        c = dict(kind=kind, spec=spec, log=int(rng.choice([0, 0, 1, 2, 2, 3])),
                 name=str(rng.choice(["analysis", "job-1", "my job", os.path.join("sub", "x.y")])))
        if kind == "plain" and rng.random() < 0.5:  # nothing but the step control could print
            c["log"] = 0
            spec["settings"].pop("xlimit", None)
            spec["settings"].update(stepcontrol=True, maxfac=float(rng.choice([0.5, 0.8, 1.0, 1.1, 1.3, 1.7, 3])), reduce=4.0,
                                    increase=float(rng.choice([0.3, 0.5, 1.0])), cycl=6, nfev=12)
            spec["settings"]["incs"] = 14 if not isinstance(spec["settings"]["incs"], list) else [14, 9]
            if rng.random() < 0.6:  # increments that are repeated with smaller limits
                spec["settings"].update(cycl=12, nfev=8, j_pre=False)
                spec["slow"] = [[int(a), int(a) + int(rng.integers(6, 13)), "scale", float(rng.choice([3.0, 4.0])), 0]
                                for a in np.sort(rng.integers(3, 60, int(rng.integers(1, 4))))]
        if rng.random() < 0.4:  # the log level is set after the model was created
            c["created"] = int(rng.choice([0, 1, 2, 3]))
        c["stale"] = int(rng.choice([0, 0, 1, 5000]))
        if kind == "fault":
            c["fault"] = dict(at=int(rng.integers(1, 40)), where=str(rng.choice(["stiffness", "residual"])),
                              kind=str(rng.choice(["error", "interrupt", "exit", "value"])))
            c["logfile"] = bool(rng.random() < 0.75)
        if kind == "give-up":
            spec["settings"].update(nfev=2, ftol=11, xtol=13)
            spec["settings"].pop("stepcontrol", None)
            c["logfile"] = bool(rng.random() < 0.5)
        if kind == "sequence":
            c["specs"] = [S.random_spec(rng, incs=int(rng.integers(2, 6))) for _ in range(2)]
            c["again"] = bool(rng.random() < 0.4)
            c["files"] = [bool(x) for x in rng.integers(0, 2, 3)]
            c["logs"] = [int(x) for x in rng.integers(0, 3, 3)]
        return c

    # ------------------------------------------------------------ one session
    def session(self, ctx, s, what, stale=0):
        """Run one session; check streams and files. Returns (own output, ok)."""
        c = ctx.counts
        mine = Out()
        before = sys.stdout
        path = os.path.abspath(s.logfile + ".md") if s.logfile else None
        if path and stale:  # the file of an earlier job
            with open(path, "w") as f:
                f.write("an older job\n" * stale)
            c["files_replaced"] += 1
        ok = True
        with files_written() as written:
            sys.stdout = mine
            try:
                s.create()
                untouched = sys.stdout is mine
                s.build()
                s.run()
                end = sys.stdout
            except Exception as e:
                end = None
                ctx.viol("crash", f"{what}: a valid model raised {type(e).__name__}: {e}")
            finally:
                sys.stdout = before
        if end is None:
            return "", False
        c["runs"] += 1
        c["logfile_runs"] += bool(s.logfile)
        c["failed_runs"] += s.exc is not None
        c["failed_with_logfile"] += bool(s.exc and s.logfile)
        if end is not mine:
            ctx.viol("stdout-not-restored", f"{what}: after the run ({s.exc or 'normal end'}) the standard output is "
                     f"{end!r}")
            ok = False
        if not s.logfile and not untouched:
            ctx.viol("stdout-touched", f"{what}: without a log file the standard output is replaced")
            ok = False
        others = [w for w in written if w[1] != path]
        if others:
            ctx.viol("file-written", f"{what}: wrote {others[:3]}")
            ok = False
        if s.logfile:
            if not os.path.isfile(path):
                ctx.viol("no-logfile", f"{what}: there is no file {path}")
                return "", False
            text = open(path).read()
            if mine.getvalue().strip():
                ctx.viol("leak", f"{what}: the output {mine.getvalue()[:120]!r} went to the standard output instead of "
                         f"the log file")
                ok = False
        else:
            text = mine.getvalue()
        return text, ok

    def reference(self, spec, log, fault=None, created=None):
        s = Session(spec, log, None, fault, created)
        out = Out()
        old, sys.stdout = sys.stdout, out
        try:
            s.create()
            s.build()
            s.run()
        except Exception as e:
            return None, None, f"{type(e).__name__}: {e}"
        finally:
            sys.stdout = old
        return s, out.getvalue(), None

    def same_text(self, ctx, text, ref, key, what):
        a, b = normal(text), normal(ref)
        ctx.counts["log_lines_compared"] += len(b)
        if a == b:
            return True
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.viol(key, f"{what}: {len(a)} lines of output instead of {len(b)}, first difference in line {k}: "
                 f"{(a[k] if k < len(a) else '(end)')[:80]!r} instead of {(b[k] if k < len(b) else '(end)')[:80]!r}")
        return False

    # ------------------------------------------------------------------ kinds
    def run(self, case, ctx):
        os.chdir(ctx.scratch)
        os.mkdir("sub")
        kind, spec = case["kind"], case["spec"]
        if kind == "interleaved":
            return self.interleaved(case, ctx)
        if kind == "sequence":
            return self.sequence(case, ctx)
        if kind == "levels":
            return self.levels(case, ctx)
        log = case["log"]
        fault = case.get("fault")
        created = case.get("created")
        ref, out, exc = self.reference(spec, log, fault, created)
        if ref is None or ref.exc and fault is None:
            if "NaN" not in (exc or ref.exc):
                ctx.viol("crash", f"a valid model raised {exc or ref.exc}")
            ctx.counts["not_usable"] += 1
            return
        usefile = kind == "file" or case.get("logfile")
        s = Session(spec, log, case["name"] if usefile else None, fault, created)
        what = f"log level {log}{'' if created is None else f' (created with {created})'}, {'log file ' + case['name'] if usefile else 'no log file'}" + \
            (f", {fault['kind']} in {fault['where']} evaluation {fault['at']}" if fault else "")
        text, ok = self.session(ctx, s, what, case.get("stale", 0))
        if not ok:
            return
        if s.exc != ref.exc:
            ctx.viol("exception", f"{what}: {s.exc} instead of {ref.exc}")
            return
        if not self.same_text(ctx, text, out, "log-content", what):
            return
        # silence
        R = results(ref.M)
        v = S.View(spec)
        incs = spec["settings"]["incs"]
        full = sum(incs) if isinstance(incs, list) else incs * v.nsteps
        if log == 0 and not ref.exc and len(R) - 1 == full and "xlimit" not in spec["settings"]:
            ctx.counts["silent_runs"] += 1
            ctx.counts["silent_runs_with_reductions"] += bool(s.M.mon_faults_fired and any(
                b.dVmax[0] < a.dVmax[0] for a, b in zip(s.M.Results.R[1:], s.M.Results.R[2:]) if a.step == b.step))
            ctx.counts["log_level_set_later"] += created is not None and created > 0
            if normal(text[s.mark:]):
                ctx.viol("not-silent", f"{what}: at log level zero the run printed {text[s.mark:].strip()[:120]!r}")
                return
        if log >= 2 and not normal(text[s.mark:]):
            ctx.viol("no-output", f"{what}: no progress output")
            return
        self.compare(ctx, results(ref.M), results(s.M), what + ": results differ from those without a log file")
        if usefile and len(R) > 1:
            ctx.nontrivial(f"{kind} {log} {case['name']} {fault} {T.trace_hash(R[:2])}")
        ctx.sample = dict(kind=kind, spec=brief(spec), log=log, file=usefile, fault=fault, lines=len(normal(text)))

    def compare(self, ctx, a, b, what):
        ctx.counts["results_compared"] += len(a)
        d = same(a, b)
        if d:
            ctx.viol("results", f"{what}: {d}")
        return not d

    def levels(self, case, ctx):
        spec = case["spec"]
        refR = None
        for log in (0, 1, 2, 3):
            for name in (None, "analysis"):
                s = Session(spec, log, name)
                what = f"log level {log}, {'log file' if name else 'no log file'}"
                text, ok = self.session(ctx, s, what)
                if not ok:
                    return
                R = None if s.exc else results(s.M)
                if log == 0 and name is None:
                    refR, exc = R, s.exc
                    continue
                if s.exc != exc:
                    ctx.viol("exception", f"{what}: {s.exc} instead of {exc} at log level 0")
                    return
                if R is not None and not self.compare(ctx, refR, R, what + " instead of log level 0"):
                    return
        if refR and len(refR) > 1:
            ctx.nontrivial(f"levels {T.trace_hash(refR[:2])}")
            ctx.sample = dict(kind="levels", spec=brief(spec), results=len(refR))

    def sequence(self, case, ctx):
        specs = [case["spec"]] + case["specs"]
        texts, c = [], ctx.counts
        for k, (sp, f, log) in enumerate(zip(specs, case["files"], case["logs"])):
            ref, out, exc = self.reference(sp, log)
            if ref is None or ref.exc:
                ctx.counts["not_usable"] += 1
                return
            name = "job" if case["again"] else f"job{k}"
            s = Session(sp, log, name if f else None)
            what = f"model {k + 1} of a sequence, log level {log}, {'log file' if f else 'no log file'}"
            text, ok = self.session(ctx, s, what)
            if not ok or not self.same_text(ctx, text, out, "log-content", what):
                return
            texts.append((k, f, text))
            c["files_replaced"] += bool(case["again"] and f and sum(x[1] for x in texts) > 1)
        for k, f, text in () if case["again"] else texts:  # later models leave earlier files alone
            if f and open(f"job{k}.md").read() != text:
                ctx.viol("log-content", f"the log file of model {k + 1} was changed by a later model")
                return
        ctx.counts["sequences"] += 1
        ctx.nontrivial(f"sequence {case['files']} {case['logs']} {len(texts)} {len(texts[0][2])}")

    def interleaved(self, case, ctx):
        """Known finding: two models with log files created before either runs."""
        mine = Out()
        old, sys.stdout = sys.stdout, mine
        key = "interleaved-logfile-models"
        try:
            a = S.make_model(case["spec"], log=2, logfile=True, logfile_name="a")
            b = S.make_model(case["spec2"], log=2, logfile=True, logfile_name="b")
            a.build()
            a.run()
            b.build()
            b.run()
            end = sys.stdout
        finally:
            sys.stdout = old
        ctx.counts["interleaved_cases"] += 1
        if end is not mine:
            ctx.viol(key, "the standard output is a log file after both runs")
        elif "Step 1" not in open("a.md").read() or "Step 1" not in open("b.md").read():
            ctx.viol(key, "the run of one model is missing in its log file")


PROPS = [C21()]
_ = tp
