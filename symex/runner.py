"""Drives the exploration of the harness configurations of one property."""
import json
import math
import os
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYREAL = "/opt/venv/bin/python"


class ReplayClient:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen(
            [PYREAL, os.path.join(HERE, "symex", "replay_server.py")], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def ask(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            return {"status": "error", "exc": "replay server died", "labels": [], "obs": []}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:  # noqa: BLE001
                self.p.kill()


CLIENT = ReplayClient()
MON = {"on": False, "funcs": set()}


def start_function_trace():
    """record which functions of the repository are executed symbolically"""
    if MON["on"]:
        return
    from . import loader

    repo = os.path.realpath(loader.REPO)
    m = sys.monitoring
    m.use_tool_id(m.PROFILER_ID, "symex")

    def on_start(code, off):
        f = code.co_filename
        if loader is None or os is None or not loader.REPO:
            return None
        if f.startswith(loader.REPO) or f.startswith(repo):
            MON["funcs"].add("%s:%s" % (os.path.relpath(f, loader.REPO), code.co_qualname))
        return m.DISABLE
    m.register_callback(m.PROFILER_ID, m.events.PY_START, on_start)
    m.set_events(m.PROFILER_ID, m.events.PY_START)
    MON["on"] = True


# ----------------------------------------------------------------- models -> inputs
def model_inputs(ctx, model):
    import z3

    res, exact = {}, True
    for name, (kind, t) in ctx.inputs.items():
        v = model.eval(t, model_completion=True)
        if kind == "bool":
            res[name] = z3.is_true(v)
            continue
        if z3.is_rational_value(v):
            fr = v.as_fraction()
        elif z3.is_algebraic_value(v):
            fr = v.approx(20).as_fraction()
            exact = False
        else:
            fr, exact = Fraction(0), False
        if fr.denominator == 1 and abs(fr) < 2**53:
            res[name] = int(fr)
        else:
            f = float(fr)
            if Fraction(f) != fr:
                exact = False
            res[name] = f
    return res, exact


def nice_model(eng, ctx, extra=(), timeout=400, distinct=()):
    """a model of the path condition (and extra) with small integer or dyadic inputs"""
    import z3

    reals = [t for k, t in ctx.inputs.values() if k == "real"]
    s = eng.solver
    ints = eng.ints
    plans = [(1, 12, False), (1, 2000, False), (4, 400, False)]
    if ints:
        plans = ([(1, 12, True)] if all(v for _, v in ints) else [(2, 12, True)]) + plans
    for scale, bound, wi in plans:
        s.push()
        try:
            for c in extra:
                s.add(c)
            if wi:
                for a, v in ints:
                    s.add(z3.IsInt(a) == v)
            for i, t in enumerate(reals):
                iv = z3.Int("int!%d" % i)
                s.add(t * scale == z3.ToReal(iv), iv >= -bound * scale, iv <= bound * scale)
            s.set("timeout", timeout)
            r = s.check()
            eng.stats.queries += 1
            if r == z3.sat:
                return s.model()
        except z3.Z3Exception:
            pass
        finally:
            s.pop()
            s.set("timeout", eng.branch_timeout)
    return None


INEXACT = []


def eval_obs(model, v):
    """value of an observation under a model (JSON-like)"""
    import z3

    from .engine import SymBool, SymNum, is_sym

    if isinstance(v, (list, tuple)):
        return [eval_obs(model, x) for x in v]

    def tb(b):
        if isinstance(b, bool):
            return b
        return z3.is_true(model.eval(b, model_completion=True))

    if isinstance(v, SymBool):
        return tb(v.b)
    if isinstance(v, SymNum):
        if tb(v.nan):
            return "nan"
        if tb(v.pinf):
            return "inf"
        if tb(v.ninf):
            return "-inf"
        if not is_sym(v.r):
            return float(v.r)
        x = model.eval(v.r, model_completion=True)
        if z3.is_rational_value(x):
            fr = x.as_fraction()
            if Fraction(float(fr)) != fr:
                INEXACT.append(fr)
            return float(fr)
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
        return None
    if isinstance(v, (bool, int, float, str)) or v is None:
        if isinstance(v, float) and v != v:
            return "nan"
        if isinstance(v, float) and math.isinf(v):
            return "inf" if v > 0 else "-inf"
        return v
    return str(v)


def obs_equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    if a is None:
        return True  # the model could not evaluate it
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))
    return a == b


# ------------------------------------------------------------------------ one config
class Result:
    def __init__(self):
        self.paths = self.queries = self.proofs = self.trivial = 0
        self.solver_s = self.wall = 0.0
        self.branches = 0
        self.status = "ok"
        self.validated = self.mismatch = self.inexact = 0
        self.undecided = 0
        self.unsupported = {}
        self.notes = []
        self.violations = []
        self.samples = []
        self.unconfirmed = []
        self.funcs = []
        self.obligations = 0
        self.fallback = 0


def replay(prop, harness, cfg, inputs):
    return CLIENT.ask({"prop": prop, "harness": harness, "cfg": cfg, "inputs": inputs})


BAD = ("fail", "raised")


def run_config(prop, mod, harness, cfg, opts):
    import z3

    from . import engine as E
    from . import loader
    from .ctx import SymCtx

    t0 = time.time()
    mods = loader.install()
    start_function_trace()
    fn = mod.HARNESSES[harness]
    res = Result()
    eng = E.Engine(opts.get("branch_ms", 3000), opts.get("prove_ms", 20000))
    eng.deadline = t0 + opts["budget"]
    st = {}
    vmax = opts.get("validate", 8)
    seed = opts.get("seed", 1)

    def body():
        ctx = SymCtx(eng, mods, cfg)
        st["ctx"] = ctx
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)

    class Stop(Exception):
        pass

    def violation(kind, labels, inputs, rep):
        res.violations.append({
            "prop": prop, "harness": harness, "cfg": cfg, "inputs": inputs, "labels": labels[:6], "kind": kind,
            "real": {k: rep.get(k) for k in ("status", "labels", "exc", "where", "obs")}})
        if len(res.violations) >= opts.get("max_viol", 1):
            raise Stop()

    def confirm(kind, labels, goal):
        """counterexample of the solver: reproduce on the real code"""
        ctx = st["ctx"]
        tried = []
        extra = [goal] if goal is not None else []
        for attempt in range(opts.get("confirm", 4)):
            m = nice_model(eng, ctx, extra, timeout=1000)
            if m is None:
                m = st.get("cex_model") if attempt == 0 else None
                if m is None:
                    r, m = eng._check(*extra)
            if m is None:
                break
            inputs, exact = model_inputs(ctx, m)
            rep = replay(prop, harness, cfg, inputs)
            tried.append((inputs, rep.get("status"), rep.get("labels"), rep.get("exc")))
            if rep["status"] in BAD:
                violation(kind, rep["labels"] or labels, inputs, rep)
                return True
            # block this assignment of the reals
            eqs = [t == m.eval(t, model_completion=True) for k, t in ctx.inputs.values()]
            if not eqs:
                break
            extra.append(z3.Not(z3.And(*eqs)))
        res.undecided += 1
        if len(res.unconfirmed) < 3:
            res.unconfirmed.append({"labels": labels[:4], "tried": tried[:2]})
        return False

    def on_path(status, exc):
        ctx = st["ctx"]
        nobl = len(eng.obligations)
        res.obligations += nobl
        if status == "unsupported":
            k = str(exc)[:160]
            res.unsupported[k] = res.unsupported.get(k, 0) + 1
            res.undecided += 1
            # not encodable: fall back to concrete runs of this path's inputs (not counted as decided)
            extra = []
            for i in range(3):
                m = nice_model(eng, ctx, extra)
                if m is None:
                    break
                inputs, exact = model_inputs(ctx, m)
                rep = replay(prop, harness, cfg, inputs)
                res.fallback += 1
                if rep["status"] in BAD:
                    violation("concrete run of an unencodable path", rep["labels"], inputs, rep)
                eqs = [t == m.eval(t, model_completion=True) for kk, t in ctx.inputs.values()]
                if not eqs:
                    break
                extra.append(z3.Not(z3.And(*eqs)))
            return
        if status == "raised":
            tb = traceback.extract_tb(exc.__traceback__)
            where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
            lab = "raised %s: %s [%s]" % (type(exc).__name__, str(exc)[:200], where)
            confirm("exception", [lab], None)
            return
        stt, labels, m = eng.discharge()
        if stt == "cex":
            st["cex_model"] = m
            goal = None
            cs = [c for l, c in eng.obligations if l in labels and not isinstance(c, bool)]
            if any(c is False for l, c in eng.obligations):
                goal = None
            elif cs:
                goal = z3.Or(*[z3.Not(c) for c in cs])
            confirm("counterexample", labels, goal)
            return
        if stt == "unknown":
            res.undecided += 1
            res.notes.append("solver unknown: %s" % labels[:3])
        # encoding validation: run a model of this path through the real code
        if res.validated + res.mismatch < vmax:
            m = nice_model(eng, ctx)
            if m is None:
                res.inexact += 1
                return
            inputs, exact = model_inputs(ctx, m)
            rep = replay(prop, harness, cfg, inputs)
            if rep["status"] in BAD:
                violation("concrete run of a path model", rep["labels"], inputs, rep)
                return
            if rep["status"] == "cut":
                res.inexact += 1
                return
            del INEXACT[:]
            want = [[k, eval_obs(m, v)] for k, v in ctx.obs]
            if rep["status"] == "ok" and obs_equal(want, rep["obs"]):
                res.validated += 1
                if len(res.samples) < 1:
                    res.samples.append({"harness": harness, "cfg": cfg, "inputs": inputs, "observed": rep["obs"][:4]})
            elif INEXACT:  # rounding of the real code: outside the model
                res.inexact += 1
            else:
                res.mismatch += 1
                if len(res.notes) < 3:
                    res.notes.append("encoding mismatch: inputs %s predicted %s real %s %s" % (
                        inputs, want, rep["obs"], rep.get("exc")))

    try:
        eng.run(body, on_path, opts.get("max_paths"))
    except Stop:
        res.status = "violation"
    except E.Budget:
        res.status = "budget"
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        res.status = "error"
        res.notes.append("".join(traceback.format_exception(e))[-1500:])
    else:
        if opts.get("max_paths") and eng.stats.paths >= opts["max_paths"] and eng.trail:
            res.status = "budget"
    E.ENG = None
    s = eng.stats
    res.paths, res.queries, res.proofs, res.trivial = s.paths, s.queries, s.proofs, s.trivial
    res.solver_s = s.solver_s
    res.branches = getattr(s, "branches", 0)
    res.wall = time.time() - t0
    res.funcs = sorted(MON["funcs"])
    res.harness, res.cfg = harness, cfg
    return res


def run_concrete(prop, harness, cfg, opts):
    """no symbolic execution possible: run the harness on a few drawn inputs (nothing is decided by this)"""
    t0 = time.time()
    res = Result()
    res.harness, res.cfg = harness, cfg
    res.undecided, res.status = 1, "undecided"
    for i in range(24):
        rep = CLIENT.ask({"prop": prop, "harness": harness, "cfg": cfg, "inputs": {},
                          "auto": opts.get("seed", 1) * 1000 + i})
        if rep["status"] in ("cut", "error"):
            continue
        res.fallback += 1
        if rep["status"] in BAD:
            res.status = "violation"
            res.violations.append({
                "prop": prop, "harness": harness, "cfg": cfg, "inputs": rep["inputs"], "labels": rep["labels"][:6],
                "kind": "concrete run, repository not loadable symbolically",
                "real": {k: rep.get(k) for k in ("status", "labels", "exc", "where", "obs")}})
            break
        if res.fallback >= 6:
            break
    res.wall = time.time() - t0
    return res
