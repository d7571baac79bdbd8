"""The properties: id -> Prop."""
import importlib

MODULES = {
    "C01": "runs", "C02": "runs", "C03": "runs", "C05": "runs", "C06": "runs",
    "C07": "runs", "C08": "runs", "C09": "runs", "C10": "runs", "C11": "faults",
    "C12": "runs", "C04": "tangent", "C13": "metamorphic", "C14": "metamorphic",
    "C15": "determinism", "C16": "tables", "C17": "refusal", "C18": "plots",
    "C19": "plots", "C20": "movies", "C21": "output", "C22": "newton",
    "C23": "pathsystems", "C24": "effort", "C25": "snapthrough", "C26": "control",
}
_cache = {}


def get(pid):
    if pid not in _cache:
        m = importlib.import_module(f".{MODULES[pid]}", __name__)
        for p in m.PROPS:
            _cache[p.id] = p
    return _cache[pid]
