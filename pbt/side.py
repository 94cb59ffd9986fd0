"""Property modules are imported twice: by the driver (Hypothesis strategies) and by the worker (checks)."""
import os

if os.environ.get("VERIF_SIDE") == "worker":
    import numpy as np
    import wlib as W
    G = st = None

    def composite(f):
        return None
else:
    import gens as G
    from hypothesis import strategies as st
    from hypothesis.strategies import composite
    W = np = None
