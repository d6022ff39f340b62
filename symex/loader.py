"""Import /repo/staircase, unmodified, against the symbolic numpy/pandas/datetime models."""
import builtins
import datetime as _real_datetime
import importlib.abc
import importlib.util
import os
import sys
import types

from . import npshim, pdframe, pdshim, scalars

REPO = os.environ.get("SX_REPO", "/repo")


class _Src(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path) as f:
            src = f.read()
        mod.__dict__["float"] = npshim.SFloat
        mod.__dict__["int"] = npshim.SInt
        mod.__dict__["bool"] = npshim.SBoolType
        mod.__dict__["__builtins__"] = _builtins()
        exec(compile(src, self.path, "exec"), mod.__dict__)
        LOADED.append(self.path)


LOADED = []
SHIMMED = {}
_B = {}


def _builtins():
    """builtins of the loaded modules: imports inside functions see the modelled modules too"""
    if not _B:
        _B.update(builtins.__dict__)

        def imp(name, *a, **k):
            return SHIMMED.get(name) or builtins.__import__(name, *a, **k)
        _B["__import__"] = imp
    return _B


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "staircase" and not name.startswith("staircase."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(name, _Src(p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_loader(name, _Src(base + ".py", False), origin=base + ".py")
        return None


def _datetime_module():
    m = types.ModuleType("datetime")
    for k in dir(_real_datetime):
        setattr(m, k, getattr(_real_datetime, k))
    m.datetime = scalars.PyDatetime
    m.timedelta = scalars.PyTimedelta
    m.date = scalars.PyDatetime
    return m


def _numbers_module():
    """the abstract number types, also satisfied by symbolic numbers of the fitting kind"""
    import numbers as real

    from .engine import SymBool, SymNum

    def meta(base, kinds):
        class M(type):
            def __instancecheck__(cls, x):
                if isinstance(x, SymNum):
                    return x.kind in kinds
                if isinstance(x, SymBool):
                    return not x.np
                return isinstance(x, base)

            def __subclasscheck__(cls, c):
                return c is cls or issubclass(getattr(c, "_real", None) or c, base)

        return M(base.__name__, (), {})

    m = types.ModuleType("numbers")
    for k, kinds in (("Number", "if"), ("Complex", "if"), ("Real", "if"), ("Rational", "i"), ("Integral", "i")):
        setattr(m, k, meta(getattr(real, k), kinds))
    return m


def _math_module():
    """math functions on symbolic numbers"""
    import math as real

    from .engine import SymBool, SymNum, Unsupported, is_sym

    def sym(x):
        return isinstance(x, SymBool) or (isinstance(x, SymNum) and not x.is_concrete())

    m = types.ModuleType("math")

    def wrap(k, f):
        def g(*a, **kw):
            if not any(sym(x) for x in a):
                if not any(hasattr(x, "__array_priority__") and not isinstance(x, SymNum) for x in a):
                    return f(*a, **kw)
            h = special.get(k)
            if h is None:
                raise Unsupported("math.%s of a symbolic number" % k)
            r = h(*a, **kw)
            return r.item() if isinstance(r, (SymNum, SymBool)) and hasattr(r, "item") else r
        g.__name__ = k
        return g

    def dom(f, bad):
        def g(x):
            if bad(x):
                raise ValueError("math domain error")
            return f(x)
        return g

    special = {
        "isnan": npshim.isnan, "isinf": npshim.isinf, "isfinite": npshim.isfinite,
        "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(), "trunc": lambda x: x.__trunc__(),
        "fabs": npshim.absolute, "sqrt": dom(npshim.sqrt, lambda x: x < 0),
    }
    for k in dir(real):
        v = getattr(real, k)
        setattr(m, k, wrap(k, v) if callable(v) and not k.startswith("__") else v)

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if npshim.isnan(a) or npshim.isnan(b):
            return False
        if a == b:
            return True
        if npshim.isinf(a) or npshim.isinf(b):
            return False
        d = abs(a - b)
        return bool((d <= rel_tol * abs(a)) | (d <= rel_tol * abs(b)) | (d <= abs_tol))

    def fsum(xs):
        t = 0.0
        for x in xs:
            t = t + x
        return t

    def prod(xs, *, start=1):
        for x in xs:
            start = start * x
        return start
    m.isclose, m.fsum, m.prod = isclose, fsum, prod
    return m


class Missing(type):
    """stands for a library name that is imported but not modelled; using it is 'not encodable'"""

    def _no(cls, *a, **k):
        from .engine import Unsupported
        raise Unsupported("use of %s" % cls.__name__)

    __call__ = __instancecheck__ = __subclasscheck__ = __getitem__ = _no

    def __getattr__(cls, k):
        if k.startswith("__"):
            raise AttributeError(k)
        cls._no()


def placeholder(name):
    return Missing(name, (), {})


LIBS = ("numpy", "pandas", "matplotlib", "scipy")


class _LibFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """unmodelled submodules of the libraries: importable, their contents are placeholders"""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in LIBS:
            return None
        return importlib.util.spec_from_loader(name, self, is_package=True)

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        name = mod.__name__

        def ga(k):
            if k.startswith("__"):
                raise AttributeError(k)
            return placeholder("%s.%s" % (name, k))
        mod.__getattr__ = ga


def _lenient(mod):
    """while the repository is being imported, an unmodelled name becomes a placeholder"""
    old = mod.__dict__.get("__getattr__")
    if old is None:
        return lambda: None

    def ga(k):
        from .engine import Unsupported
        try:
            return old(k)
        except Unsupported:
            return placeholder("%s.%s" % (mod.__name__, k))
    mod.__getattr__ = ga

    def undo():
        mod.__getattr__ = old
    return undo


def _matplotlib():
    from .engine import Unsupported

    class _Any:
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return _Any()

        def __call__(self, *a, **k):
            raise Unsupported("matplotlib")

    m = types.ModuleType("matplotlib")
    p = types.ModuleType("matplotlib.pyplot")

    def ga(k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Any()
    m.__getattr__ = ga
    p.__getattr__ = ga
    m.__path__ = []
    m.pyplot = p
    return {"matplotlib": m, "matplotlib.pyplot": p}


_done = None


def install():
    """-> (staircase, numpy model, pandas model)"""
    global _done
    if _done:
        return _done
    np_, npsub = npshim.build_module()
    pd_, pdsub = pdframe.build_module()
    mods = {"numpy": np_, "pandas": pd_, **npsub, **pdsub, **_matplotlib()}
    for k in list(sys.modules):
        if k.split(".")[0] in ("numpy", "pandas", "matplotlib", "staircase"):
            del sys.modules[k]
    sys.modules.update(mods)
    SHIMMED.update(datetime=_datetime_module(), numbers=_numbers_module(), math=_math_module())
    finder = _Finder()
    sys.meta_path.insert(0, finder)
    sys.meta_path.insert(1, _LibFinder())
    undo = [_lenient(mods[k]) for k in mods if k.split(".")[0] in ("numpy", "pandas")]
    try:
        import staircase
    finally:
        for u in undo:
            u()
    staircase.Stairs._sx_stairs = True
    _done = (staircase, np_, pd_)
    return _done
