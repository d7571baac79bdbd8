"""Fault plans: JSON lists of windows in which the model's callbacks lie to the
solver. A stiffness fault never touches the residual, so whatever the solver
accepts still has to be an equilibrium state."""
import numpy as np

KINDS_K = ["scale", "noise", "sign", "stiffen"]


def random_plan(rng, nK, kinds=None, windows=None, long=False):
    """Fault windows within a run that needs about nK stiffness evaluations."""
    plan = []
    for _ in range(windows or int(rng.integers(1, 4))):
        a = int(rng.integers(1, max(2, nK)))
        n = int(rng.choice([1, 2, 3, 5, 8, 13, 30] if not long else [100000]))
        kind = str(rng.choice(kinds or KINDS_K, p=None if kinds else [0.35, 0.25, 0.15, 0.25]))
        plan.append([a, a + n - 1, kind, float(np.round(10 ** rng.uniform(-2, 2), 4)),
                     int(rng.integers(2**31))])
    return plan


def attach(M, plan):
    """Install the windows on a MonitoredModel."""
    kplan = [w for w in plan if not w[2].startswith("g-")]
    gplan = [w for w in plan if w[2].startswith("g-")]

    def on_k(n, K):
        for a, b, kind, p, seed in kplan:
            if a <= n <= b:
                if kind == "scale":
                    return K * p
                if kind == "stiffen":
                    return K * (1 + 9 * p)
                if kind == "sign":
                    return -K
                if kind == "zero":
                    return K * 0
                if kind == "nan":
                    return K * np.nan
                if kind == "inf":
                    return K * np.inf
                if kind == "noise":
                    r = np.random.default_rng([seed, n]).normal(size=K.shape)
                    return K + 0.3 * (r + r.T) * np.abs(K).max()
        return None

    def on_g(n, g):
        for a, b, kind, p, seed in gplan:
            if a <= n <= b:
                if kind == "g-huge":
                    r = np.random.default_rng([seed, n]).normal(size=g.shape)
                    return g + 1e20 * (1 + np.abs(r)) * np.sign(r)
                if kind == "g-nan":
                    return g * np.nan
                if kind == "g-inf":
                    return g + np.inf
        return None

    if kplan:
        M.mon_fault = on_k
    if gplan:
        M.mon_residual_fault = on_g
