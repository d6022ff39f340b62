"""Runs harnesses against the real /repo with the real pandas/numpy.

Reads JSON requests {prop, harness, cfg, inputs} on stdin, one per line; answers one JSON line each."""
import importlib
import json
import math
import os
import random
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("SX_REPO", "/repo"))
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True


def enc(v):
    import numpy as np

    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, np.ndarray):
        return [enc(x) for x in v.tolist()]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        return v
    if v is None:
        return None
    return str(v)


class Auto(dict):
    """inputs drawn on demand; used only when the repository cannot be executed symbolically at all"""

    def __init__(self, seed):
        super().__init__()
        self.rng = random.Random(seed)
        self.up, self.last = seed % 4 != 3, 0

    def get(self, name, default=None):
        if name not in self:
            if isinstance(default, bool):
                v = self.rng.random() < 0.3
            elif self.up:
                v = self.last = self.last + self.rng.choice((1, 1, 2, 3))
            else:
                v = self.rng.randint(-4, 9)
            self[name] = v
        return self[name]


def run(req):
    import numpy as np
    import pandas as pd
    import staircase as sc

    from symex.ctx import ConcCtx, Cut

    mod = importlib.import_module("symex.props." + req["prop"].lower())
    fn = mod.HARNESSES[req["harness"]]
    if req.get("auto") is not None:
        inputs = Auto(req["auto"])
    else:
        inputs = dict(req["inputs"])
    ctx = ConcCtx((sc, np, pd), req["cfg"], inputs)
    res = {"status": "ok", "labels": [], "exc": None}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn(ctx)
        except Cut:
            res["status"] = "cut"
        except Exception as e:  # noqa: BLE001
            res["status"] = "raised"
            res["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            tb = traceback.extract_tb(e.__traceback__)
            res["where"] = ["%s:%d" % (f.filename, f.lineno) for f in tb][-4:]
    if ctx.failed:
        res["labels"] = sorted(set(ctx.failed))
        if res["status"] == "ok":
            res["status"] = "fail"
    res["obs"] = [[k, enc(v)] for k, v in ctx.obs]
    if req.get("auto") is not None:
        res["inputs"] = dict(inputs)
    return res


def main():
    for line in sys.stdin:
        try:
            res = run(json.loads(line))
        except BaseException as e:  # noqa: BLE001
            res = {"status": "error", "exc": "".join(traceback.format_exception(e))[-2000:], "labels": [], "obs": []}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
