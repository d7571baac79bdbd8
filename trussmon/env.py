"""Import the code under test from the repository's working tree."""
import os
import sys
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

# TRUSSMON_REPO: only for trying the machinery on scratch copies (tools/seeds.py)
REPO = os.environ.get("TRUSSMON_REPO", "/repo")
SRC = REPO + "/src"
PACKAGE = SRC + "/trusspy"
if SRC not in sys.path:
    sys.path.insert(0, SRC)

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")


def load():
    """Return the trusspy package of the working tree."""
    import trusspy

    path = os.path.abspath(trusspy.__file__)
    if not path.startswith(SRC + "/"):
        raise RuntimeError(f"trusspy imported from {path}, not from {SRC}")
    return trusspy


tp = load()
