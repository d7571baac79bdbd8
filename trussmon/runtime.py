"""Run the real code under instrumentation and record what it did."""
import contextlib
import io
import signal
import traceback

import numpy as np

from . import spec as S
from .env import tp


class EffortExceeded(BaseException):
    """The run evaluated the stiffness more often than its budget allows."""


class CaseTimeout(BaseException):
    """Wall-clock watchdog; inconclusive, never a violation."""


class NoEnd(CaseTimeout):
    """Much processor time without any evaluation (only where termination is the
    property); carries the innermost frames."""


_cpu = [None]


def progress():
    """An evaluation: restart the processor-time limit."""
    if _cpu[0]:
        signal.setitimer(signal.ITIMER_PROF, _cpu[0])


@contextlib.contextmanager
def cpu_limit(seconds):
    """Raise NoEnd after that much processor time of this process without progress()."""

    def fire(signum, frame):
        raise NoEnd("".join(traceback.format_stack(frame, 3)))

    if not seconds:
        yield
        return
    old = signal.signal(signal.SIGPROF, fire)
    _cpu[0] = seconds
    progress()
    try:
        yield
    finally:
        _cpu[0] = None
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


@contextlib.contextmanager
def watchdog(seconds):
    def fire(signum, frame):
        raise CaseTimeout()

    try:
        old = signal.signal(signal.SIGALRM, fire)
    except ValueError:  # not in the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class MonitoredModel(tp.Model):
    """tp.Model with counters, an effort budget and an optional fault plan on the
    two public callbacks that the solver evaluates."""

    mon_budget = 200000
    mon_fault = None  # callable(call_number, K) -> K
    mon_residual_fault = None  # callable(call_number, g) -> g
    mon_on_residual = None  # callable(model)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.mon_nK = 0
        self.mon_ng = 0
        self.mon_depth = 0
        self.mon_faults_fired = 0

    def stiffness(self, *a, **k):
        self.mon_nK += 1
        progress()
        if self.mon_nK > self.mon_budget:
            raise EffortExceeded(self.mon_nK)
        self.mon_depth += 1
        try:
            K = super().stiffness(*a, **k)
        finally:
            self.mon_depth -= 1
        if self.mon_fault is not None:
            K2 = self.mon_fault(self.mon_nK, K)
            if K2 is not None:
                self.mon_faults_fired += 1
                K = K2
        return K

    def equilibrium(self, *a, **k):
        g = super().equilibrium(*a, **k)
        if self.mon_depth == 0:
            self.mon_ng += 1
            progress()
            if self.mon_ng > 20 * self.mon_budget:
                raise EffortExceeded(self.mon_ng)
            if self.mon_on_residual is not None:
                self.mon_on_residual(self)
            if self.mon_residual_fault is not None and g is not None:
                g2 = self.mon_residual_fault(self.mon_ng, g)
                if g2 is not None:
                    self.mon_faults_fired += 1
                    g = g2
        return g


FIELDS = ("U", "U0", "r", "g", "stretch", "element_force", "element_stress",
          "element_stress0", "Ured", "Vred", "lpf", "step", "state_v", "dVmax", "Kred",
          "DOF0", "DOF1")


def snap(R):
    """A deep, plain copy of the public fields of one result."""
    d = {}
    for f in FIELDS:
        val = getattr(R, f, None)
        d[f] = None if val is None else np.array(val, dtype=float, copy=True)
    F = getattr(R, "ExtForces", None)
    d["f_const"] = None if F is None else np.array(F.forces_const, dtype=float, copy=True)
    return d


class Trace:
    status = "ok"  # ok | raised | effort
    exc = ""
    out = ""
    R = ()
    model = None
    nK = ng = faults = 0


def run_spec(spec, cls=MonitoredModel, log=0, prepare=None, keep_model=True, build=True):
    """Build and run the model of a spec; never raises for errors of the code."""
    t = Trace()
    buf = io.StringIO()
    M = None
    with contextlib.redirect_stdout(buf):
        try:
            M = S.make_model(spec, log=log, cls=cls)
            if prepare:
                prepare(M)
            M.build()
            M.run()
        except EffortExceeded as e:
            t.status, t.exc = "effort", str(e)
        except Exception as e:
            t.status, t.exc = "raised", f"{type(e).__name__}: {e}"
            t.tb = traceback.format_exc(limit=-3)
    t.out = buf.getvalue()
    if M is not None:
        t.nK = getattr(M, "mon_nK", 0)
        t.ng = getattr(M, "mon_ng", 0)
        t.faults = getattr(M, "mon_faults_fired", 0)
        Rs = getattr(getattr(M, "Results", None), "R", [])
        t.R = [snap(R) for R in Rs]
        t.model = M if keep_model else None
    return t


def failed_increment(t):
    """The run itself reported that it gave up on an increment."""
    return "ERROR" in t.out


def trace_hash(R):
    import hashlib

    h = hashlib.sha256()
    for r in R:
        for k in sorted(r):
            if r[k] is not None:
                h.update(k.encode())
                h.update(np.ascontiguousarray(r[k]).tobytes())
    return h.hexdigest()[:16]
