"""Assumed contracts of the fenics (dolfin/UFL) functions that FESTIM calls.

Scalar UFL expressions are terms (term.Poly), forms are finite maps from
measures to scalar terms, Functions/Constants/Expressions are *locations* with a
current content.  Every solve, assignment, assembly and file write is appended
to the engine's event log together with the state it saw.  Anything FESTIM calls
that is not listed here raises Unsupported (never a silent guess).
"""
import sys
import types
import builtins
from . import engine as EN
from .engine import Sym, SymBool, Unsupported, mk, rat, mkbool
from .term import Poly, atom, EXP, FN, ZERO, ONE, diff, mulmono, aspoly, Fraction, equal

_ids = {}


def reset():
    _ids.clear()
    global GENERIC_POINT
    GENERIC_POINT = Point("X")


def _fresh(kind):
    n = _ids.get(kind, 0)
    _ids[kind] = n + 1
    return n


def log(*ev):
    if EN.ENGINE is not None:
        EN.ENGINE.log.append(ev)


class Stub:
    _absent = ()

    def __getattr__(self, name):
        if name.startswith("__") or name in type(self)._absent or name in ("_sympy_", "_mpmath_", "is_Float"):
            raise AttributeError(name)
        raise Unsupported(f"fenics.{type(self).__name__}.{name}")


# ------------------------------------------------------------------ expressions
class UExpr(Stub):
    """scalar UFL expression"""
    _absent = ("function_space", "vector", "assign", "t", "surface", "volume", "isdigit", "endswith", "rename", "split", "sub")
    __array_ufunc__ = None

    def __init__(self, p):
        self.__dict__["p"] = p

    def pv_poly(self):
        return self.__dict__["p"]

    def _b(self, o, fn):
        q = scal(o)
        if q is None:
            return NotImplemented
        return UExpr(fn(self.pv_poly(), q))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, UVec):
            return o.scale(self.pv_poly())
        if isinstance(o, Measure):
            return Form({o.key(): self.pv_poly()})
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, o): return self._b(o, lambda a, b: a.pow(b))
    def __rpow__(self, o): return self._b(o, lambda a, b: b.pow(a))
    def __neg__(self): return UExpr(-self.pv_poly())
    def __pos__(self): return self
    def __abs__(self): return UExpr(FN("abs", self.pv_poly()))
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def __bool__(self): return True
    def __repr__(self): return f"UExpr({self.pv_poly()!r})"

    def __lt__(self, o): raise Unsupported("comparison of UFL expressions")
    __le__ = __gt__ = __ge__ = __lt__

    def __call__(self, *x, **kw):
        return at_point(self, x)

    def dx(self, *a):
        raise Unsupported("UFL .dx()")


def scal(o):
    if isinstance(o, UExpr):
        return o.pv_poly()
    return rat(o)


class UVec(Stub):
    """vector UFL expression: sum of coefficient * basic vector"""
    __array_ufunc__ = None
    def __init__(self, t):
        self.v = {a: c for a, c in t.items() if c.t}

    def scale(self, p):
        return UVec({a: c * p for a, c in self.v.items()})

    def __mul__(self, o):
        q = scal(o)
        return NotImplemented if q is None else self.scale(q)
    __rmul__ = __mul__

    def __truediv__(self, o):
        q = scal(o)
        return NotImplemented if q is None else self.scale(q.inv())

    def __neg__(self): return self.scale(Poly.const(-1))

    def __add__(self, o):
        if not isinstance(o, UVec):
            return NotImplemented
        r = dict(self.v)
        for a, c in o.v.items():
            r[a] = r.get(a, ZERO) + c
        return UVec(r)

    def __sub__(self, o): return self + (-o)

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            # component 0: dot with e_0
            return UExpr(_dot(self, UVec({vatom("e", 0): ONE})))
        raise Unsupported("vector component")


def vatom(kind, x):
    return atom("vec", kind, (x,))


def _dot(a, b):
    r = ZERO
    for x, cx in a.v.items():
        for y, cy in b.v.items():
            r = r + cx * cy * dotatoms(x, y)
    return r


def dotatoms(x, y):
    if x is y and x.name == "e":
        return ONE
    if x.uid > y.uid:
        x, y = y, x
    return Poly.atom(atom("dot", "DOT", (x, y)))


def grad(u):
    if isinstance(u, UVec):
        raise Unsupported("grad of a vector")
    p = scal(u)
    if p is None:
        raise Unsupported(f"grad of {type(u)}")
    return UVec(_grad(p))


def _grad(p):
    r = {}
    for a in sorted(p.atoms(False), key=lambda a: a.uid):
        d = diff(p, a)
        if not d.t:
            continue
        for va, c in _gradatom(a).items():
            r[va] = r.get(va, ZERO) + c * d
    return r


def _gradatom(a):
    if a.const:
        return {}
    if a.kind == "fld":
        if a.name == "x[0]":
            return {vatom("e", 0): ONE}
        return {vatom("grad", a): ONE}
    if a.kind == "exp":
        inner = _grad(a.args[0])
        return {v: c * Poly.atom(a) for v, c in inner.items()}
    if a.kind == "inv":
        inner = _grad(a.args[0])
        return {v: -(c * Poly.atom(a, 2)) for v, c in inner.items()}
    if a.kind == "pow":
        base, e = a.args
        inner = _grad(base)
        return {v: c * e * Poly.atom(a) * base.inv() for v, c in inner.items()}
    return {vatom("grad", a): ONE}


def dot(a, b):
    if isinstance(a, UVec) and isinstance(b, UVec):
        return UExpr(_dot(a, b))
    pa, pb = scal(a), scal(b)
    if pa is not None and pb is not None:
        return UExpr(pa * pb)
    raise Unsupported("dot of non-vectors")


inner = dot


def exp(x):
    if isinstance(x, UExpr):
        return UExpr(EXP(x.pv_poly()))
    p = rat(x)
    if p is None:
        raise Unsupported(f"exp of {type(x)}")
    return mk(EXP(p))


def sqrt(x):
    if isinstance(x, UExpr):
        return UExpr(x.pv_poly().pow(Fraction(1, 2)))
    p = rat(x)
    return mk(p.pow(Fraction(1, 2)))


def ln(x):
    if isinstance(x, UExpr):
        return UExpr(FN("ln", x.pv_poly()))
    return mk(FN("ln", rat(x)))


class Coefficient(UExpr):
    """a location"""
    def __init__(self, kind, label=None, spatial=True):
        n = _fresh(kind)
        d = self.__dict__
        d["kind_"] = kind
        d["label_"] = label
        nm = f"{label or kind}#{n}"
        a = atom("fld" if spatial else "cst", nm, const=not spatial)
        d["a"] = a
        a.info = self
        d["p"] = Poly.atom(a)
        d["content"] = None
        if EN.ENGINE is not None:
            EN.ENGINE.store.setdefault("locs", []).append(self)


class Constant(Coefficient):
    def __init__(self, value, name=None, **kw):
        super().__init__("Constant", name, spatial=False)
        self.__dict__["content"] = value if not isinstance(value, Constant) else value.content

    def assign(self, v):
        if isinstance(v, Constant):
            v = v.content
        self.__dict__["content"] = v
        log("const.assign", self, v)

    def values(self):
        return [self.content]

    def __call__(self, *a):
        return self.content

    def pv_float(self):
        return self.content

    def __float__(self):
        if isinstance(self.content, (Sym,)):
            raise Unsupported("float(Constant) outside the verified code")
        return float(self.content)

    def rename(self, *a):
        pass


class CCode(str):
    """result of sympy.printing.ccode on a symbolic input"""
    def __new__(cls, s, src=None):
        o = str.__new__(cls, s)
        o.src = src
        return o


class _ExprMeta(type):
    pass


class Expression(Coefficient):
    def __init__(self, code=None, **kw):
        super().__init__("Expression", kw.get("name"))
        d = self.__dict__
        d["code"] = code
        d["kw"] = kw
        d["params"] = {k: v for k, v in kw.items() if k not in ("degree", "name", "element", "domain", "mpi_comm")}
        for k, v in d["params"].items():
            d[k] = v
        if not isinstance(code, (str, CCode)):
            raise TypeError("Expression code must be a string")

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        if k == "t":
            log("expr.t", self, v)

    def value_poly(self, d=None):
        """current value as a term in x and the parameters"""
        d = d or self.__dict__
        src = getattr(self.code, "src", None)
        t = d.get("t")
        if src is None:
            src = parse_code(str(self.code))
        return sympy_to_poly(src, t, d)


class UserExpression(Coefficient):
    def __init__(self, *a, **kw):
        super().__init__("UserExpression")

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        if k == "t":
            log("expr.t", self, v)


def parse_code(s):
    import sympy
    try:
        return sympy.sympify(s.replace("x[0]", "x_0").replace("x[1]", "x_1").replace("x[2]", "x_2"))
    except Exception:
        raise Unsupported(f"C++ expression {s!r}")


def sympy_to_poly(src, t, params=None):
    import sympy
    if isinstance(src, (Sym, int, float)) and not isinstance(src, sympy.Basic):
        return rat(src)
    if isinstance(src, Poly):
        return src

    def go(e):
        if e.is_Symbol:
            nm = e.name
            if nm in ("x[0]", "x_0"):
                return X0
            if nm in ("x[1]", "x_1"):
                return Poly.atom(atom("fld", "x[1]"))
            if nm in ("x[2]", "x_2"):
                return Poly.atom(atom("fld", "x[2]"))
            if nm in EN._symp:
                return Poly.atom(EN._symp[nm])
            if nm == "t":
                if t is None:
                    raise Unsupported("expression of t without t")
                return rat(t)
            if params and nm in params:
                return rat(params[nm])
            raise Unsupported(f"unknown symbol {nm} in an expression")
        if e.is_Number or e in (sympy.pi, sympy.E):
            if e.is_Rational:
                return Poly.const(Fraction(int(e.p), int(e.q)))
            return Poly.const(float(e))
        if e.is_Add:
            r = ZERO
            for x in e.args:
                r = r + go(x)
            return r
        if e.is_Mul:
            r = ONE
            for x in e.args:
                r = r * go(x)
            return r
        if e.is_Pow:
            if e.base == sympy.E:
                return EXP(go(e.exp))
            return go(e.base).pow(go(e.exp))
        if isinstance(e, sympy.exp):
            return EXP(go(e.args[0]))
        if e.is_Function:
            return FN("user:" + e.func.__name__, *[go(x) for x in e.args], const=False)
        raise Unsupported(f"sympy {type(e)}")
    return go(sympy.sympify(src))


X0 = Poly.atom(atom("fld", "x[0]"))


class Point:
    """an arbitrary point of the domain"""
    def __init__(self, name, poly=None):
        self.name = name
        self.poly = poly

    def __getitem__(self, i):
        return mk(X0) if i == 0 else mk(Poly.atom(atom("fld", f"x[{i}]")))

    def __repr__(self):
        return self.name


GENERIC_POINT = Point("X")


def at_point(u, x):
    x = x[0] if len(x) == 1 else x
    if isinstance(x, Point):
        return mk(u.pv_poly())
    key = x
    if isinstance(x, (list, tuple)):
        key = tuple(rat(y) if rat(y) is not None else y for y in x)
    else:
        key = (rat(x),)
    log("point", u, key)
    p = u.pv_poly()
    try:
        p = resolve(p)
    except NeedSub:
        if not isinstance(u, Function):
            raise Unsupported("point value of a piecewise expression")
        c = u.get_content()
        EN.ENGINE.store.setdefault("keepalive", []).append(c)
        p = Poly.atom(atom("sym", f"content{id(c)}"))
    return mk(FN("at", p, key, const=True))


# ------------------------------------------------------------------ function spaces & functions
class Element(Stub):
    def __init__(self, family, cell=None, degree=None, subs=None):
        self.family_, self.degree_, self.subs = family, degree, subs

    def family(self):
        return self.family_

    def degree(self):
        return self.degree_


def FiniteElement(family, cell, degree):
    return Element(family, cell, degree)


def MixedElement(*els):
    if len(els) == 1 and isinstance(els[0], (list, tuple)):
        els = els[0]
    return Element("Mixed", None, None, list(els))


class FunctionSpace(Stub):
    def __init__(self, mesh, family=None, degree=None, parent=None, comp=None):
        self.mesh_ = mesh
        if isinstance(family, Element):
            self.element = family
            self.subs = family.subs
        else:
            self.element = Element(family, None, degree)
            self.subs = None
        self.parent, self.comp = parent, comp

    def num_sub_spaces(self):
        return len(self.subs) if self.subs is not None else 0

    def sub(self, i):
        if not isinstance(i, int):
            raise TypeError("sub(): incompatible function arguments")
        if self.subs is None:
            raise RuntimeError("Unable to extract subsystem")
        if isinstance(i, Sym):
            raise Unsupported("symbolic subspace index")
        if i < 0 or i >= len(self.subs):
            raise RuntimeError("Unable to extract subsystem")
        return FunctionSpace(self.mesh_, self.subs[i], parent=self, comp=i)

    def collapse(self):
        return FunctionSpace(self.mesh_, self.element)

    def mesh(self):
        return self.mesh_

    def ufl_element(self):
        return self.element

    def dofmap(self):
        return DofMap(self)

    def describe(self):
        return (self.element.family_, self.element.degree_)


class DofMap(Stub):
    def __init__(self, V):
        self.V = V

    def cell_dofs(self, i):
        # consistent with DOFX: cells [0,1], [1,2], [2,3]
        import numpy as np
        fam = {"Lagrange": "CG", "Discontinuous Lagrange": "DG"}.get(self.V.ufl_element().family(), self.V.ufl_element().family())
        t = {"CG": [[1, 2], [2, 0], [0, 3]], "DG": [[2, 0], [3, 1], [5, 4]]}.get(fam)
        if t is None:
            t = t if fam != "P" else [[1, 2], [2, 0], [0, 3]]
        if t is None:
            raise Unsupported(f"degrees of freedom of {fam}")
        return np.array(t[i])


class Function(Coefficient):
    def __init__(self, V, name=None, **kw):
        super().__init__("Function", name)
        d = self.__dict__
        if not isinstance(V, FunctionSpace):
            raise TypeError("Function needs a FunctionSpace")
        d["V"] = V
        d["content"] = ZERO_CONTENT
        d["subcontent"] = {}
        d["fname"] = name

    def function_space(self):
        return self.V

    def assign(self, other):
        if isinstance(other, Function):
            self.set_content(other.get_content())
        elif isinstance(other, UExpr):
            self.set_content(frozen_content(other))
        else:
            raise Unsupported(f"Function.assign({type(other)})")
        log("assign", self, other, self.get_content())

    # contents of mixed functions are tuples of component contents
    def ncomp(self):
        return self.V.num_sub_spaces()

    def get_content(self):
        if self.ncomp():
            return tuple(self.subcontent.get(i, ZERO_CONTENT) for i in range(self.ncomp()))
        return self.content

    def set_content(self, c):
        if self.ncomp():
            if not isinstance(c, tuple):
                raise Unsupported("assigning a scalar content to a mixed function")
            self.__dict__["subcontent"] = dict(enumerate(c))
        else:
            if isinstance(c, tuple):
                raise Unsupported("assigning a mixed content to a scalar function")
            self.__dict__["content"] = c

    def sub(self, i, deepcopy=False):
        if isinstance(i, Sym):
            raise Unsupported("symbolic component index")
        if not self.ncomp():
            raise RuntimeError("no subfunctions")
        return SubFunction(self, i)

    def split(self, deepcopy=False):
        return tuple(self.sub(i) for i in range(self.ncomp()))

    def vector(self):
        return Vector(self)

    def rename(self, name, label):
        log("rename", self, name)
        self.__dict__["fname"] = name

    def name(self):
        return self.fname

    def copy(self, deepcopy=False):
        g = Function(self.V)
        g.set_content(self.get_content())
        return g


class SubFunction(Function):
    """u.sub(i): a view of component i of the storage of u"""
    _cache = {}

    def __new__(cls, u, i):
        c = u.__dict__.setdefault("subviews", {})
        if i not in c:
            c[i] = object.__new__(cls)
        return c[i]

    def __init__(self, u, i):
        if "parent" in self.__dict__:
            return
        Coefficient.__init__(self, "Function", f"{u.a.name}.sub({i})")
        d = self.__dict__
        d["parent"], d["i"] = u, i
        d["V"] = u.V.sub(i)
        d["fname"] = None
        d["subcontent"] = {}

    def ncomp(self):
        return 0

    def get_content(self):
        return self.parent.subcontent.get(self.i, ZERO_CONTENT)

    def set_content(self, c):
        if isinstance(c, tuple):
            raise Unsupported("mixed content into a component")
        self.parent.subcontent[self.i] = c


class Content:
    """value of a function as a term; per-subdomain if piecewise"""
    def __init__(self, p=None, piece=None, tag=None):
        self.p, self.piece, self.tag = p, piece, tag

    def at(self, sub):
        if self.piece is not None:
            if sub is None:
                raise NeedSub()
            return self.piece(sub)
        return self.p

    def __eq__(self, o):
        if not isinstance(o, Content):
            return False
        if self is o:
            return True
        return self.p is not None and o.p is not None and equal(self.p, o.p)

    def __hash__(self):
        return 3

    def __repr__(self):
        return f"Content({self.p if self.p is not None else self.tag or 'piecewise'})"


ZERO_CONTENT = Content(ZERO)


class Vector(Stub):
    def __init__(self, u):
        self.u = u

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i != slice(None):
                raise Unsupported("vector slice")
            return nodal(self.u)
        raise Unsupported("vector index")

    def get_local(self):
        return nodal(self.u)


# degrees of freedom of a small mesh, in an order that is not the one of the coordinates
DOFX = {"CG": [2.0, 0.0, 1.0, 3.0], "DG": [1.0, 2.0, 0.0, 1.0, 3.0, 2.0]}


def nodal(u):
    """values at the degrees of freedom: coordinates are concrete, the value of
    any other function at dof i is an opaque term of its content and i"""
    import numpy as np
    V = u.function_space()
    fam = V.ufl_element().family()
    fam = {"Lagrange": "CG", "Discontinuous Lagrange": "DG"}.get(fam, fam)
    xs = EN.ENGINE.store.get("dofx", DOFX).get(fam)
    c = u.get_content()
    if xs is None or isinstance(c, tuple):
        raise Unsupported("nodal values")
    if c.p is not None and equal(c.p, X0):
        return np.array(xs, dtype=float)
    key = c.p if c.p is not None else None
    if key is None and "geometry" in EN.ENGINE.store:
        # a piecewise function is known by its values in the volumes
        parts = []
        for v in EN.ENGINE.store["geometry"][0]:
            parts += [EN.rat(v), c.at(v)]
        if all(isinstance(q, Poly) for q in parts):
            key = FN("piecewise", *parts)
    if key is None:
        key = Poly.atom(atom("sym", f"content{id(c)}"))
    EN.ENGINE.store.setdefault("keepalive", []).append(c)
    out = np.empty(len(xs), dtype=object)
    for i in range(len(xs)):
        out[i] = EN.mk(FN("nodal", fam, i, key))
    return out


def element_key(e):
    return (e.family_, e.degree_, tuple(element_key(x) for x in e.subs) if e.subs else ())


class Argument(Coefficient):
    """as in UFL, arguments of the same number on equal spaces of a mesh are equal"""
    def __init__(self, V, kind):
        super().__init__(kind)
        self.__dict__["V"] = V
        if EN.ENGINE is not None:
            known = EN.ENGINE.store.setdefault("arguments", {})
            EN.ENGINE.store.setdefault("keepalive", []).append(V)
            key = (kind, id(V.mesh_), element_key(V.element))
            first = known.setdefault(key, self)
            self.__dict__["a"] = first.a
            self.__dict__["p"] = first.p

    def function_space(self):
        return self.V


def TestFunction(V):
    return Argument(V, "Test")


def TrialFunction(V):
    return Argument(V, "Trial")


def split(u):
    if isinstance(u, UExpr) and "V" in u.__dict__:
        n = u.V.num_sub_spaces()
        out = []
        for i in range(n):
            a = atom("fld", f"{u.a.name}[{i}]")
            a.info = ("comp", u, i)
            out.append(UExpr(Poly.atom(a)))
        return tuple(out)
    raise Unsupported("split")


class NeedSub(Exception):
    pass


def frozen_content(e):
    """content holding the value the expression has now"""
    p = scal(e)
    if p is None:
        raise Unsupported(f"value of {type(e)}")
    try:
        return Content(resolve(p))
    except NeedSub:
        pass
    state = snapshot_state()
    return Content(piece=lambda sub: resolve(p, sub, state=state), tag="expr")


def interpolate(e, V):
    r = Function(V)
    if isinstance(e, Function) and e.ncomp():
        raise Unsupported("interpolation of a mixed function")
    r.set_content(frozen_content(e))
    log("interpolate", e, V, r)
    return r


def project(e, V=None, **kw):
    r = Function(V)
    r.set_content(frozen_content(e))
    r.__dict__["projected"] = scal(e)
    log("project", e, V, r)
    return r


def content_of(e):
    """current value of an expression as a term (locations resolved)"""
    return resolve(scal(e))


def snapshot_state():
    """contents of every location at this moment"""
    st = {}
    for loc in EN.ENGINE.store.get("locs", ()):
        d = loc.__dict__
        st[loc] = {k: (dict(v) if k == "subcontent" else v) for k, v in d.items()}
    return st


def _d(loc, state):
    if state is not None and loc in state:
        return state[loc]
    return loc.__dict__


def fun_content(u, state=None):
    d = _d(u, state)
    if "parent" in d:
        return _d(d["parent"], state)["subcontent"].get(d["i"], ZERO_CONTENT)
    if u.ncomp():
        sc = d["subcontent"]
        return tuple(sc.get(i, ZERO_CONTENT) for i in range(u.ncomp()))
    return d["content"]


def resolve(p, sub=None, keep=(), depth=0, state=None):
    """replace locations by their current contents.

    Constants and Expressions by their values, Functions with a content by it,
    UserExpressions by evaluating the real eval/eval_cell in subdomain `sub`."""
    if depth > 12:
        raise Unsupported("resolve depth")

    def atom_value(a):
        i = a.info
        if a.kind == "cst":
            v = rat(_d(i, state)['content'])
            if v is None:
                raise Unsupported("constant content")
            return v
        if a.kind == "fld":
            if i is None or a in keep or i in keep:
                return None
            if isinstance(i, Expression):
                return resolve(i.value_poly(_d(i, state)), sub, keep, depth + 1, state)
            if isinstance(i, UserExpression):
                if sub is None:
                    raise NeedSub()
                return eval_user(i, sub, keep, depth, state)
            if isinstance(i, tuple) and i[0] == "comp":
                _, u, k = i
                if not isinstance(u, Function) or u in keep:
                    return None
                c = _d(u, state)['subcontent'].get(k, ZERO_CONTENT)
            elif isinstance(i, Function):
                c = fun_content(i, state)
                if isinstance(c, tuple):
                    return None
            else:
                return None
            v = c.at(sub)
            return v
        if a.kind in ("exp", "inv", "pow", "fn", "dot"):
            args = []
            ch = False
            for x in a.args:
                if isinstance(x, Poly):
                    y = resolve(x, sub, keep, depth, state)
                    ch = ch or not (y.t == x.t)
                    args.append(y)
                elif a.kind == "dot":
                    args.append(x)
                else:
                    args.append(x)
            if a.kind == "dot":
                return resolve_dot(a, sub, keep, depth, state)
            if not ch:
                return None
            if a.kind == "exp":
                return EXP(args[0])
            if a.kind == "inv":
                return args[0].inv()
            if a.kind == "pow":
                return args[0].pow(args[1])
            return Poly.atom(atom("fn", a.name, tuple(args), const=a.const))
        return None

    return substitute(p, atom_value)


def resolve_dot(a, sub, keep, depth, state=None):
    x, y = a.args

    def vec(v):
        if v.name == "grad":
            g = Poly.atom(v.args[0])
            r = resolve(g, sub, keep, depth, state)
            if r.t == g.t:
                return None
            return UVec(_grad(r))
        return None
    vx, vy = vec(x), vec(y)
    if vx is None and vy is None:
        return None
    vx = vx or UVec({x: ONE})
    vy = vy or UVec({y: ONE})
    return _dot(vx, vy)


def substitute(p, atom_value):
    r = ZERO
    memo = {}
    for m, c in p.t.items():
        term = Poly({(): c})
        for a, e in m:
            if a not in memo:
                memo[a] = atom_value(a)
            v = memo[a]
            if v is None:
                term = term * Poly.atom(a, e)
            else:
                term = term * v.pow(e)
        r = r + term
    return r


class UfcCell:
    def __init__(self, index):
        self.index = index


class CellOf:
    """cell index standing for an arbitrary cell of a subdomain"""
    def __init__(self, sub):
        self.sub = sub

    def __eq__(self, o):
        return isinstance(o, CellOf) and o.sub == self.sub

    def __hash__(self):
        return hash(("cell", self.sub))


def eval_user(ue, sub, keep=(), depth=0, state=None):
    value = [None]
    if "eval_cell" in dir(type(ue)):
        ue.eval_cell(value, GENERIC_POINT, UfcCell(CellOf(sub)))
    elif "eval" in dir(type(ue)):
        ue.eval(value, GENERIC_POINT)
    else:
        raise Unsupported("UserExpression without eval")
    p = scal(value[0])
    if p is None:
        raise Unsupported("value of a UserExpression")
    return resolve(p, sub, keep, depth + 1, state)


def assign(dst, src):
    if isinstance(dst, Function) and isinstance(src, Function):
        dst.set_content(src.get_content())
        log("assign", dst, src, dst.get_content())
        return
    raise Unsupported("assign")


# ------------------------------------------------------------------ measures and forms
class Measure(Stub):
    def __init__(self, typ, domain=None, subdomain_id="everywhere", subdomain_data=None, metadata=None):
        self.typ = {"cell": "dx", "exterior_facet": "ds"}.get(typ, typ)
        self.domain, self.id, self.data = domain, subdomain_id, subdomain_data
        dim = getattr(domain, "dim_", None)
        self._domain = types.SimpleNamespace(_topological_dimension=dim)

    def __call__(self, sid=None, **kw):
        if sid is None:
            return self
        if isinstance(sid, list):
            raise UFLException("Invalid subdomain_id.")
        if isinstance(sid, tuple):
            ids = sid
        elif isinstance(sid, int) or sid == "everywhere":
            ids = sid
        else:
            raise UFLException("Invalid subdomain_id.")
        return Measure(self.typ, self.domain, ids, self.data)

    def key(self):
        return (self.typ, self.id)

    def subdomain_data(self):
        return self.data

    def __rmul__(self, o):
        q = scal(o)
        if q is None:
            return NotImplemented
        return Form({self.key(): q})


class UFLException(Exception):
    pass


class Form(Stub):
    """sum of integrals; rest: opaque contributions of the other list elements"""
    __array_ufunc__ = None

    def __init__(self, t, rest=None):
        out = {}
        for k, p in t.items():
            if isinstance(k[1], tuple):
                for i in k[1]:
                    kk = (k[0], i)
                    out[kk] = out.get(kk, ZERO) + p
            else:
                out[k] = out.get(k, ZERO) + p
        self.t = out
        self.rest = dict(rest or {})

    def __add__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, Sym) and o == 0:
            return self
        if not isinstance(o, Form):
            return NotImplemented
        r = dict(self.t)
        for k, p in o.t.items():
            r[k] = r.get(k, ZERO) + p
        rest = dict(self.rest)
        for k, p in o.rest.items():
            rest[k] = rest.get(k, ZERO) + p
        return Form(r, {k: p for k, p in rest.items() if p.t})

    __radd__ = __add__

    def __neg__(self):
        return Form({k: -p for k, p in self.t.items()}, {k: -p for k, p in self.rest.items()})

    def __sub__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        if not isinstance(o, Form):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        q = scal(o)
        if q is None:
            return NotImplemented
        return Form({k: p * q for k, p in self.t.items()}, {k: p * q for k, p in self.rest.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        q = scal(o)
        return Form({k: p / q for k, p in self.t.items()}, {k: p / q for k, p in self.rest.items()})

    def __eq__(self, o):
        return Equation(self, o)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    def integrals(self):
        raise Unsupported("form.integrals")

    def __repr__(self):
        return " + ".join(f"[{p!r}]*{k[0]}({k[1]})" for k, p in self.t.items()) or "Form0"


class Equation(Stub):
    def __init__(self, lhs, rhs):
        self.l, self.r = lhs, rhs

    def __bool__(self):
        return isinstance(self.r, Form) and self.l is self.r


def _split_trial(F):
    l, r = {}, {}
    for k, p in F.t.items():
        for m, c in p.t.items():
            tri = any(isinstance(a.info, Argument) and a.info.kind_ == "Trial" for a, _ in m)
            (l if tri else r).setdefault(k, ZERO)
            if tri:
                l[k] = l[k] + Poly({m: c})
            else:
                r[k] = r[k] + Poly({m: c})
    return Form(l), -Form(r)


def lhs(F):
    return _split_trial(F)[0]


def rhs(F):
    return _split_trial(F)[1]


def pointwise_solution(F, unknown):
    """contract of solving a mass-matrix problem  a u v + b v = 0 : per subdomain u = -b/a"""
    def piece(sub):
        tot = ZERO
        for (typ, i), p in F.t.items():
            if typ != "dx":
                raise Unsupported("surface term in a projection")
            if i == "everywhere" or same_id(i, sub):
                tot = tot + p
        tests = [a for a in tot.atoms(False) if isinstance(a.info, Argument) and a.info.kind_ == "Test"]
        if not tot.t:
            return ZERO
        if len(tests) != 1:
            raise Unsupported("projection test function")
        tot = tot * Poly.atom(tests[0], -1)
        ua = unknown
        A = diff(tot, ua)
        B = tot - A * Poly.atom(ua)
        if ua in A.atoms() or ua in B.atoms() or tests[0] in tot.atoms():
            raise Unsupported("not a mass-matrix problem")
        if not A.t:
            raise Unsupported("singular projection")
        return -(B / A)
    return piece


def same_id(a, b):
    r = (a == b)
    if isinstance(r, bool) and not isinstance(r, SymBool):
        return r
    return bool(r)


def solve(eq, u, bcs=None, **kw):
    if not isinstance(eq, Equation):
        raise Unsupported("solve")
    F = eq.l
    if not (isinstance(eq.r, (int, float)) and eq.r == 0):
        F = eq.l - eq.r
    log("solve", F, u, bcs)
    u.set_content(solution_content(F, u.a))


def solution_content(F, unknown):
    """per-subdomain solution, with the data as they are at solve time"""
    raw = pointwise_solution(F, unknown)
    state = snapshot_state()
    done = []

    def piece(sub):
        for k, v in done:
            if same_id(k, sub):
                return v
        v = resolve(raw(sub), sub, state=state)
        done.append((sub, v))
        return v
    return Content(piece=piece, tag=("solve", F))


class LinearVariationalProblem(Stub):
    def __init__(self, a=None, L=None, u=None, bcs=None, **kw):
        self.a, self.L, self.u, self.bcs = a, L, u, bcs


class LinearVariationalSolver(Stub):
    def __init__(self, problem):
        self.problem = problem
        self.parameters = Params()

    def solve(self):
        pb = self.problem
        F = pb.a - pb.L
        trial = [x for p in F.t.values() for x in p.atoms(False) if isinstance(x.info, Argument) and x.info.kind_ == "Trial"]
        if not trial:
            raise Unsupported("no trial function")
        log("linsolve", F, pb.u, pb.bcs)
        pb.u.set_content(solution_content(F, trial[0]))


def derivative(F, u, du=None):
    return Jacobian(F, u, du)


class Jacobian(Stub):
    def __init__(self, F, u, du):
        self.F, self.u, self.du = F, u, du


class Params(dict):
    pass


class NonlinearProblem(Stub):
    def __init__(self, *a):
        pass


class SystemAssembler(Stub):
    def __init__(self, a, L, bcs=None):
        self.__dict__.update(a=a, L=L, bcs=bcs)

    def assemble(self, *args):
        log("assembler.assemble", self, args)


class NewtonSolver(Stub):
    def __init__(self, *a):
        self.parameters = Params()

    def solve(self, problem, vec):
        hook = EN.ENGINE.store.get("newton")
        log("newton", self, problem, vec.u)
        if hook is not None:
            return hook(self, problem, vec)
        return (3, True)


def parts(typ, i):
    """(name of the part, volume its cells belong to) of a measure; the parts are those declared by the harness"""
    geo = EN.ENGINE.store.get("geometry")
    if geo is None:
        return [(f"{typ}({idname(i)})", None)]
    vols, surfs = geo
    if typ == "dx":
        if i == "everywhere":
            return [(f"dx({idname(v)})", v) for v in vols]
        return [(f"dx({idname(i)})", i)]
    if typ != "ds":
        raise Unsupported(f"measure {typ}")
    out = []
    for k, s in enumerate(surfs):
        if i == "everywhere" or same_id(s, i):
            adj = vols[:1] if k == 0 else (vols[-1:] if k == 1 else vols)
            out += [(f"ds({idname(s)},{idname(v)})", v) for v in adj]
    if not out and i != "everywhere":
        return [(f"ds({idname(i)})", None)]
    return out


def idname(i):
    return i if isinstance(i, str) else repr(rat(i))


def assemble(F, **kw):
    """the number (rank 0): one integral per part and per monomial of the
    integrand as it is now, spatially constant factors pulled out"""
    if not isinstance(F, Form):
        raise Unsupported("assemble of a non-form")
    log("assemble", F)
    tot = ZERO
    if F.rest:
        raise Unsupported("assemble of an open form")
    dim = EN.ENGINE.store.get("dim")
    for (typ, i), q in F.t.items():
        for part, vol in parts(typ, i):
            try:
                p = resolve(q, vol)
            except NeedSub:
                raise Unsupported("integral of a piecewise field over an undeclared part")
            for m, c in p.t.items():
                if any(isinstance(a.info, Argument) for a, _ in m):
                    raise Unsupported("assembly of a vector or matrix")
                cm = tuple((a, e) for a, e in m if a.const)
                sm = tuple((a, e) for a, e in m if not a.const)
                if typ == "ds" and dim == 1:
                    # a boundary of a one-dimensional domain is one point: the value there
                    term = Poly({cm: c})
                    for a, e in sm:
                        term = term * Poly.atom(atom("fn", "AT", (part, Poly.atom(a)), const=True), e)
                    tot = tot + term
                    continue
                integ = atom("fn", "INT", (part, Poly({sm: Fraction(1)})), const=True)
                tot = tot + Poly({mulmono(cm, ((integ, Fraction(1)),)): c})
    return mk(tot)


class DirichletBC(Stub):
    def __init__(self, V, value, markers, surface=None, method=None):
        self.V, self.value, self.markers, self.surface = V, value, markers, surface


# ------------------------------------------------------------------ mesh
class MeshTopology(Stub):
    def __init__(self, dim):
        self.d = dim

    def dim(self):
        return self.d


class Mesh(Stub):
    def __init__(self, dim=None, *a, **kw):
        self.dim_ = dim
        self.verts = self.cellv = None

    def topology(self):
        return MeshTopology(self.dim_)

    def geometry(self):
        return MeshTopology(self.dim_)

    def ufl_cell(self):
        return "cell"

    def bounding_box_tree(self):
        return None

    def ufl_domain(self):
        return types.SimpleNamespace(_topological_dimension=self.dim_)


class Subdomains(Stub):
    """mesh function: cell of subdomain s -> s (assumed contract of the markers)"""
    def __init__(self, mesh, kind="volume"):
        self.m, self.kind = mesh, kind

    def mesh(self):
        return self.m

    def __getitem__(self, cell):
        i = cell.index_
        if isinstance(i, CellOf):
            return i.sub
        raise Unsupported("marker lookup")

    def __len__(self):
        return 1


class Cell(Stub):
    def __init__(self, mesh, index):
        self.index_ = index

    def index(self):
        return self.index_


class MeshEntity(Stub):
    def __init__(self, x, tag):
        self.x_, self.tag = x, tag
        self.index_ = tag

    def midpoint(self):
        return MidPoint(self.x_)

    def index(self):
        return self.index_

    def exterior(self):
        return True


class MidPoint(Stub):
    def __init__(self, x):
        self._x = x

    def x(self):
        return self._x

    def __getitem__(self, i):
        if i == 0:
            return self._x
        raise Unsupported("midpoint component")


class MeshFunction(Stub):
    def __init__(self, typ, mesh=None, dim=None, value=0):
        self.m, self.dim_, self.vals, self.default = mesh, dim, {}, value
        log("meshfunction", self)

    def set_all(self, v):
        self.default = v
        self.vals = {}

    def __setitem__(self, ent, v):
        self.vals[ent.tag if isinstance(ent, MeshEntity) else ent] = v

    def __getitem__(self, ent):
        i = ent.tag if isinstance(ent, MeshEntity) else getattr(ent, "index_", ent)
        if isinstance(i, CellOf):
            return i.sub
        return self.vals.get(i, self.default)

    def mesh(self):
        return self.m

    def __len__(self):
        return 1

    def array(self):
        raise Unsupported("marker array")


class MeshValueCollection(Stub):
    def __init__(self, *a):
        pass


def facets(mesh):
    if getattr(mesh, "verts", None) is not None:
        return [MeshEntity(x, ("facet", i)) for i, x in enumerate(mesh.verts)]
    fs = EN.ENGINE.store.get("facets")
    if fs is None:
        return []
    return fs(mesh)


def cells(mesh):
    if getattr(mesh, "verts", None) is not None:
        return [MeshEntity((mesh.verts[a] + mesh.verts[b]) / 2, ("cell", i)) for i, (a, b) in enumerate(mesh.cellv)]
    cs = EN.ENGINE.store.get("cells")
    if cs is None:
        return []
    return cs(mesh)


def vertices(mesh):
    raise Unsupported("vertices")


def near(a, b, eps=3.0e-16):
    # dolfin::near: |a-b| < eps*max(1,|a|,|b|)-like test, modelled as equality
    EN.ENGINE.note_assumption("dolfin.near(a, b) is modelled as a == b")
    return a == b


class SubsetIterator(Stub):
    def __init__(self, markers, i):
        self.markers, self.i = markers, i

    def __iter__(self):
        """a small mesh: the first cell lies in the first declared volume, the others in the last"""
        geo = EN.ENGINE.store.get("geometry")
        if geo is None or not isinstance(self.markers, Subdomains) or self.markers.kind != "volume":
            raise Unsupported("SubsetIterator")
        vols = geo[0]
        out = []
        for c in range(3):
            if same_id(vols[0] if c == 0 else vols[-1], self.i):
                out.append(Cell(None, c))
        return iter(out)


def SpatialCoordinate(mesh):
    class SC(Stub):
        def __getitem__(s, i):
            if i == 0:
                return UExpr(X0)
            return UExpr(Poly.atom(atom("fld", f"x[{i}]")))
    return SC()


def FacetNormal(mesh):
    return UVec({vatom("normal", 0): ONE})


class XDMFFile(Stub):
    class Encoding:
        HDF5 = "HDF5"
        ASCII = "ASCII"

    def __init__(self, *a):
        self.filename = a[-1]
        self.parameters = Params()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read_checkpoint(self, fn, label, step=-1):
        c = Content(Poly.atom(atom("fn", "xdmf", (str(self.filename), str(label), str(step)), const=False)))
        fn.set_content(c)
        log("read_checkpoint", self.filename, fn, label, step)

    def read(self, *a):
        log("xdmf.read", self.filename, a)

    def write_checkpoint(self, fn, label, t, enc=None, append=False):
        log("write_checkpoint", self, fn, label, t, append)

    def write(self, fn, t=None):
        log("xdmf.write", self, fn, t)

    def close(self):
        pass


class MeshEditor(Stub):
    def __init__(self):
        self.ops = []

    def open(self, mesh, *a):
        self.mesh = mesh
        self.ops.append(("open",) + a)

    def init_vertices(self, n): self.ops.append(("nv", n))
    def init_cells(self, n): self.ops.append(("nc", n))
    def add_vertex(self, i, x): self.ops.append(("v", i, list(x)))
    def add_cell(self, i, c): self.ops.append(("c", i, list(c)))

    def close(self):
        verts = {op[1]: op[2][0] for op in self.ops if op[0] == "v"}
        self.mesh.verts = [verts[i] for i in sorted(verts)]
        self.mesh.cellv = [op[2] for op in self.ops if op[0] == "c"]
        nv, nc = [[op[1] for op in self.ops if op[0] == k] for k in ("nv", "nc")]
        if nv != [len(self.mesh.verts)] or nc != [len(self.mesh.cellv)] or sorted(verts) != list(range(len(verts))):
            raise RuntimeError("mesh editor: inconsistent mesh")


class MeshPartitioning:
    @staticmethod
    def build_distributed_mesh(mesh):
        mesh.dim_ = 1


class _Comm:
    rank = 0
    size = 1


class MPI:
    comm_world = _Comm()


class Timer(Stub):
    def __init__(self, *a):
        pass

    def start(self): pass
    def stop(self): return 0.0

    def elapsed(self):
        return (0.0, 0.0, 0.0)


def set_log_level(x): log("log_level", x)
def begin(*a): pass
def end(*a): pass


DOLFIN_EPS = 3e-16
pi = 3.141592653589793
dx = Measure("dx")
ds = Measure("ds")


def conditional(c, a, b):
    raise Unsupported("conditional")


def build_module():
    m = types.ModuleType("fenics")
    g = globals()
    hide = {"sys", "types", "builtins", "EN", "Sym", "SymBool", "Unsupported", "mk", "rat", "mkbool", "Poly", "atom",
            "EXP", "FN", "ZERO", "ONE", "diff", "mulmono", "aspoly", "Fraction", "equal", "log", "reset", "Stub", "UExpr",
            "UVec", "resolve", "substitute", "build_module", "Content", "CCode", "X0", "Point", "scal", "vatom"}
    names = []
    for k, v in g.items():
        if k.startswith("_") or k in hide:
            continue
        setattr(m, k, v)
        names.append(k)
    m.__all__ = names

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"fenics.{name} has no assumed contract")
    m.__getattr__ = missing
    return m
