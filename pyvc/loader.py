"""Loads FESTIM from /repo's working tree with the fenics contracts in place of
fenics and numpy/sympy entry points that understand symbolic numbers."""
import sys
import os
import types
import importlib
import importlib.abc
import importlib.util
import builtins
import warnings
import math
import numpy as _np
import sympy as _sp
from . import engine as EN
from . import fenics_stub as FS
from .engine import Sym, SymBool, Unsupported, mk, rat, mkbool, z3poly, toz3
from .term import Poly, FN, EXP, Fraction, atom

REPO = os.environ.get("PYVC_REPO", "/repo")


# ---- builtins that must accept symbolic numbers
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class pvfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, FS.Constant):
            return pvfloat(x.content)
        if type(x) is Sym:
            return mk(x.p)
        if isinstance(x, FS.UExpr):
            p = x.pv_poly()
            if p.is_const():
                return builtins.float(p.value())
            raise TypeError("float() of a UFL expression")
        return builtins.float(x)


def pvround(x, n=None):
    if type(x) is Sym:
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def pvformat(x, spec=""):
    return builtins.format(x, spec)


def pvsorted(x, *a, **kw):
    if hasattr(type(x), "pv_sorted") and not a and not kw:
        return x.pv_sorted()
    return builtins.sorted(x, *a, **kw)


BUILTINS = {"float": pvfloat, "round": pvround, "sorted": pvsorted}


# ---- numpy
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if b is None or a is None:
        return _np.isclose(a, b)
    pa, pb = FS.scal(a), FS.scal(b)
    if pa is None or pb is None:
        return _np.isclose(a, b, rtol=rtol, atol=atol)
    if pa.is_const() and pb.is_const():
        return bool(_np.isclose(float(pa.value()), float(pb.value()), rtol=rtol, atol=atol))
    facts = set()
    d = z3poly(pa - pb, facts)
    zb = z3poly(pb, facts)
    EN.ENGINE.add_facts(facts)
    import z3
    absd = z3.If(d >= 0, d, -d)
    absb = z3.If(zb >= 0, zb, -zb)
    return mkbool(absd <= z3.RealVal(str(Fraction(repr(float(atol))))) + z3.RealVal(str(Fraction(repr(float(rtol))))) * absb)


def _sym_any(xs):
    return any(type(x) is Sym for x in xs)


def _cos(x):
    p = rat(x)
    if p is None or p.is_const():
        return _np.cos(x)
    return mk(FN("cos", p))


def _sin(x):
    p = rat(x)
    if p is None or p.is_const():
        return _np.sin(x)
    return mk(FN("sin", p))


def _savetxt(fname, X, *a, **kw):
    FS.log("savetxt", fname, X, kw)


def _sqrt(x):
    if type(x) is Sym:
        return mk(x.p.pow(Fraction(1, 2)))
    return _np.sqrt(x)


def _exp(x):
    if type(x) is Sym:
        return mk(EXP(x.p))
    if isinstance(x, FS.UExpr):
        return FS.exp(x)
    return _np.exp(x)


def _abs(x):
    if type(x) is Sym:
        return abs(x)
    return _np.abs(x)


def _array(x, *a, **kw):
    if isinstance(x, (list, tuple)) and _sym_any(x):
        if a or kw:
            raise Unsupported("np.array with options on symbolic values")
        out = _np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            out[i] = v
        return out
    return _np.array(x, *a, **kw)


def _unique(xs, **kw):
    if isinstance(xs, list) and _sym_any(xs):
        if kw:
            raise Unsupported("np.unique with options on symbolic values")
        out = []
        for x in xs:
            if not any(bool(x == y) for y in out):
                out.append(x)
        return out
    return _np.unique(xs, **kw)


def _maxmin(fn):
    def g(xs, *a, **kw):
        xs_ = list(xs)
        if _sym_any(xs_):
            r = xs_[0]
            for x in xs_[1:]:
                if (x > r) if fn == "max" else (x < r):
                    r = x
            return r
        return getattr(_np, fn)(xs, *a, **kw)
    return g


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.isclose = isclose
        self.cos = _cos
        self.sin = _sin
        self.savetxt = _savetxt
        self.sqrt = _sqrt
        self.exp = _exp
        self.abs = _abs
        self.absolute = _abs
        self.unique = _unique
        self.array = self.asarray = _array
        self.max = self.amax = _maxmin("max")
        self.min = self.amin = _maxmin("min")

    def __getattr__(self, n):
        return getattr(_np, n)


# ---- math
class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.cos, self.sin, self.sqrt, self.exp = _cos, _sin, _sqrt, _exp

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if type(a) is Sym or type(b) is Sym:
            d = abs(a - b)
            m = abs(a) if abs(a) >= abs(b) else abs(b)
            return bool(d <= rel_tol * m) or bool(d <= abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattr__(self, n):
        return getattr(math, n)


# ---- sympy
def ccode(expr, *a, **kw):
    if type(expr) is Sym:
        return FS.CCode(f"<{expr.p!r}>", expr)
    if isinstance(expr, FS.UExpr):
        # as sympy: Expressions cannot be printed as C code
        raise NotImplementedError("ccode of a fenics object")
    if isinstance(expr, (int, builtins.float)):
        return FS.CCode(_sp.printing.ccode(expr), expr)
    if isinstance(expr, _sp.Basic):
        syms = expr.free_symbols
        import re
        parts = ["t"] if any(s.name == "t" for s in syms) else []
        return FS.CCode("expr(" + ",".join(sorted({re.sub("[^x0-9\\[\\]]", "", s.name) or "p" for s in syms if s.name != "t"})) + (",t" if parts else "") + f")#{abs(hash(expr)) % 9973}".replace("t", "t"), expr)
    return _sp.printing.ccode(expr, *a, **kw)


class SympyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("sympy")
        self.printing = types.SimpleNamespace(ccode=ccode)
        self.ccode = ccode

    def __getattr__(self, n):
        return getattr(_sp, n)


# ---- os (recorded, never touching the disk)
class OsProxy(types.ModuleType):
    def __init__(self):
        super().__init__("os")

        class P:
            dirname = staticmethod(os.path.dirname)
            basename = staticmethod(os.path.basename)
            join = staticmethod(os.path.join)

            @staticmethod
            def exists(p):
                r = EN.ENGINE.choose([False, True], f"exists({p})") if p else False
                return r

            @staticmethod
            def isdir(p):
                return EN.ENGINE.choose([False, True], f"exists({p})") if p else False

            def __getattr__(s, n):
                return getattr(os.path, n)
        self.path = P()

    def makedirs(self, p, *a, **kw):
        if p == "":
            raise FileNotFoundError(2, "No such file or directory", "")
        FS.log("makedirs", p)

    def __getattr__(self, n):
        if n in ("mkdir",):
            return self.makedirs
        if n in ("remove", "unlink", "rmdir", "rename", "replace", "system"):
            raise Unsupported(f"os.{n}")
        return getattr(os, n)


def pvprint(*a, **kw):
    FS.log("print", a)


def _patch_sympy():
    """sympify(symbolic number) gives a symbol"""
    _s = importlib.import_module("sympy.core.sympify")
    conv = _s._sympy_converter
    for T in (builtins.float, builtins.int):
        old = conv[T]
        if getattr(old, "_pv", False):
            continue

        def g(a, *r, _old=old, **k):
            if type(a) is Sym:
                return a._sympy_()
            return _old(a, *r, **k)
        g._pv = True
        conv[T] = g


_patch_sympy()
PROXIES = {}


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """loads festim.* from /repo, optionally with rewritten loops"""
    def __init__(self, transform):
        self.transform = transform

    def find_spec(self, name, path, target=None):
        if name != "festim" and not name.startswith("festim."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            if not os.path.exists(fn):
                return None
            return importlib.util.spec_from_file_location(name, fn, loader=_Src(name, fn, self.transform), submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=_Src(name, fn, self.transform))
        return None


class _Src(importlib.abc.Loader):
    def __init__(self, name, fn, transform):
        self.name, self.fn, self.transform = name, fn, transform

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.fn) as fh:
            src = fh.read()
        if self.transform:
            code = self.transform(src, self.fn)
        else:
            code = compile(src, self.fn, "exec")
        g = module.__dict__
        g.update(BUILTINS)
        g["print"] = pvprint
        exec(code, g)
        # entry points of libraries (modules imported under any name)
        for k, v in list(g.items()):
            if isinstance(v, types.ModuleType) and v.__name__ in PROXIES:
                g[k] = PROXIES[v.__name__]
            elif v is _np.isclose:
                g[k] = isclose
            elif v is _sp.printing.ccode:
                g[k] = ccode


def load(transform=None, extra_builtins=None):
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if not PROXIES:
        PROXIES.update(numpy=NumpyProxy(), sympy=SympyProxy(), os=OsProxy(), math=MathProxy())
    if extra_builtins:
        BUILTINS.update(extra_builtins)
    for k in [k for k in sys.modules if k == "festim" or k.startswith("festim.")]:
        del sys.modules[k]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Finder)]
    sys.modules["fenics"] = FS.build_module()
    sys.modules["dolfin"] = sys.modules["fenics"]
    sys.meta_path.insert(0, _Finder(transform))
    import festim
    warnings.simplefilter("ignore")
    return festim
