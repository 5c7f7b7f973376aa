"""Whether a case is too large to be run (shared by the replay harness and the runner)."""

import math

from .elements import DIMS, ORDER


def too_large(case):
    z = case.get("sizes")
    if not z:
        return False
    order = ORDER[case["group"]]
    v = z["B"] * z["C"] * math.prod(z["n"]) * order
    v2 = z["B"] * z["C"] * math.prod(z.get("n2") or [1]) * order
    w = math.prod(z["k"]) * z["C"] * z["F"] * order * order
    return max(v, v2, w) > 3e7 or math.prod(z["n"]) * z["F"] * order * z["C"] * math.prod(z["k"]) > 3e9 or max(z["d"]) * max(z["k"]) > 2000
