"""Path exploration, proxies for symbolic values and proof obligations.

One `Engine` drives one harness (= the contract of one or more functions of the
code).  The harness and the code under test are executed by CPython on symbolic
proxies; every branch on a symbolic condition and every `choose` forks, and all
feasible paths are explored by re-execution.  `prove` emits a proof obligation
`path condition => formula` for z3.
"""
import time
import fractions
import z3
from .term import (Poly, atom, aspoly, equal, difference, evaluate, EXP, FN, ZERO, ONE,
                   tofrac)

Fraction = fractions.Fraction


class Unsupported(BaseException):
    """the code does something outside the verifier's reach"""


class Infeasible(BaseException):
    """this path cannot happen (contradictory path condition)"""


class StopPath(BaseException):
    """the harness needs nothing more from this path"""


class Restart(BaseException):
    """new loop facts were learned: run this path again"""


ENGINE = None


def E():
    return ENGINE


# ------------------------------------------------------------------ z3 translation
_z3atoms = {}


def z3atom(a):
    v = _z3atoms.get(a)
    if v is None:
        if a.kind == "int":
            v = z3.ToReal(a.info) if a.info is not None else z3.Real(f"i!{a.uid}")
        else:
            v = z3.Real(f"{a.name}!{a.uid}")
        _z3atoms[a] = v
    return v


def z3poly(p, facts):
    tot = None
    for m, c in p.t.items():
        term = z3.RealVal(str(c))
        for a, e in m:
            base = z3atom(a)
            if a.kind == "exp":
                facts.add((a, "pos"))
            if a.kind == "inv":
                facts.add((a, "inv"))
            if e.denominator != 1 or abs(e) > 6:
                r = atom("sym", f"pow[{a.name}!{a.uid},{e}]")
                facts.add((r, ("root", a, e)))
                term = term * z3atom(r)
            else:
                k = int(e)
                for _ in range(abs(k)):
                    term = term * base if k > 0 else term / base
        tot = term if tot is None else tot + term
    return z3.RealVal(0) if tot is None else tot


def z3facts(facts):
    out = []
    done = set()
    todo = list(facts)
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        a, k = f
        v = z3atom(a)
        if k == "pos":
            out.append(v > 0)
        elif k == "inv":
            sub = set()
            out.append(v * z3poly(a.args[0], sub) == 1)
            todo += list(sub)
        else:
            _, b, e = k
            out.append(z3.Implies(z3atom(b) > 0, v > 0))
            if e.denominator == 2:
                n = int(2 * e)
                if 0 < n <= 4:
                    rhs = z3atom(b)
                    for _ in range(n - 1):
                        rhs = rhs * z3atom(b)
                    out.append(z3.Implies(z3atom(b) >= 0, z3.And(v >= 0, v * v == rhs)))
    return out


def toz3(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    import numpy
    if isinstance(x, numpy.bool_):
        return z3.BoolVal(bool(x))
    raise Unsupported(f"cannot read {type(x)} as a condition")


# ------------------------------------------------------------------ proxies
class SymBool:
    __slots__ = ("z",)

    def __init__(self, z_):
        self.z = z_

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENGINE.branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, toz3(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, toz3(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        return SymBool(self.z == toz3(o))

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"SymBool({self.z})"


def mkbool(z_):
    z_ = z3.simplify(z_)
    if z3.is_true(z_):
        return True
    if z3.is_false(z_):
        return False
    return SymBool(z_)


def rat(x):
    """Poly of a number-like or None"""
    if isinstance(x, Sym):
        return x.p
    t = type(x)
    if t is bool or t is int or t is float or t is Fraction:
        return Poly.const(x)
    import numpy
    if isinstance(x, numpy.number):
        return Poly.const(x.item())
    import sympy
    if isinstance(x, sympy.Number):
        return Poly.const(Fraction(str(sympy.Rational(str(x)))))
    return None


class Sym:
    """symbolic number (exact real or integer)"""
    __slots__ = ("p", "isint")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    @property
    def __class__(self):
        return int if self.isint else float

    # -- arithmetic
    def _bin(self, o, fn, keepint=False):
        q = rat(o)
        if q is None:
            return NotImplemented
        r = fn(self.p, q)
        isint = keepint and self.isint and (isinstance(o, int))
        return mk(r, isint)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, True)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    __rmul__ = __mul__

    def __truediv__(self, o):
        q = rat(o)
        if q is None:
            return NotImplemented
        nonzero(q)
        return mk(self.p / q)

    def __rtruediv__(self, o):
        q = rat(o)
        if q is None:
            return NotImplemented
        nonzero(self.p)
        return mk(q / self.p)

    def __pow__(self, o):
        q = rat(o)
        if q is None:
            return NotImplemented
        return mk(self.p.pow(q))

    def __rpow__(self, o):
        q = rat(o)
        if q is None:
            return NotImplemented
        return mk(q.pow(self.p))

    def __mod__(self, o):
        q = rat(o)
        if q is None or not self.isint:
            return NotImplemented
        a = atom("int", f"mod({self.p!r},{q!r})", (self.p, q), info=z3int(self.p) % z3int(q))
        return Sym(Poly.atom(a), True)

    def __rmod__(self, o):
        return mk(rat(o), True) % self if not isinstance(mk(rat(o), True), (int, float)) else Sym(rat(o), True) % self

    def __floordiv__(self, o):
        q = rat(o)
        if q is None or not self.isint:
            raise Unsupported("floor division of a real")
        a = atom("int", f"div({self.p!r},{q!r})", (self.p, q), info=z3int(self.p) / z3int(q))
        return Sym(Poly.atom(a), True)

    def __neg__(self): return mk(-self.p, self.isint)
    def __pos__(self): return self

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    # -- comparison
    def _cmp(self, o, op):
        q = rat(o)
        if q is None:
            if hasattr(o, "pv_poly"):
                return NotImplemented
            return NotImplemented
        d = self.p - q
        if d.is_const():
            return op(d.value(), 0)
        facts = set()
        zf = op(z3poly(d, facts), 0)
        ENGINE.add_facts(facts)
        return mkbool(zf)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if rat(o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if rat(o) is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.p) if not self.isint else 1009

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the verified code")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        raise Unsupported("a symbolic value used as an index")

    def __round__(self, n=None):
        return mk(FN("round", self.p, n or 0))

    def __repr__(self):
        return f"<{self.p!r}>"

    def __str__(self):
        return f"<{self.p!r}>"

    def __format__(self, spec):
        return f"<{self.p!r}|{spec}>" if spec else f"<{self.p!r}>"

    def is_integer(self):
        raise Unsupported("is_integer of a symbolic value")

    def _sympy_(self):
        import sympy
        return to_sympy(self.p)


def nonzero(q):
    if q.is_const():
        if q.value() == 0:
            raise ZeroDivisionError("division by zero")
        return
    # denominators are assumed non zero, listed as an assumption
    ENGINE.note_assumption("denominators are non-zero (float division by zero is outside the contract)")


def z3int(p):
    """linear integer poly -> z3 Int"""
    tot = z3.IntVal(0)
    for m, c in p.t.items():
        term = z3.IntVal(int(c))
        for a, e in m:
            if a.kind != "int" or e.denominator != 1 or e < 0:
                raise Unsupported("non-integer term used as an integer")
            for _ in range(int(e)):
                term = term * a.info
        tot = tot + term
    return tot


def mk(p, isint=False):
    if p.is_const():
        v = p.value()
        if isint and v.denominator == 1:
            return int(v)
        return float(v) if v.denominator != 1 else float(int(v))
    return Sym(p, isint)


_symp = {}


def to_sympy(p):
    import sympy
    tot = sympy.Integer(0)
    for m, c in p.t.items():
        term = sympy.Rational(c.numerator, c.denominator)
        for a, e in m:
            s = sympy.Symbol(f"pv{a.uid}")
            _symp[s.name] = a
            term = term * s ** sympy.Rational(e.numerator, e.denominator)
        tot = tot + term
    return tot


# ------------------------------------------------------------------ engine
class Obligation:
    __slots__ = ("name", "status", "detail", "choices", "model", "backend", "time", "path", "trail")

    def __init__(self, name, status, **kw):
        self.name, self.status = name, status
        self.detail = kw.get("detail")
        self.choices = kw.get("choices")
        self.model = kw.get("model")
        self.backend = kw.get("backend", "z3")
        self.time = kw.get("time", 0.0)
        self.path = kw.get("path", 0)
        self.trail = kw.get("trail")


class Engine:
    mode = "symbolic"

    def __init__(self, name, timeout_ms=20000, max_paths=20000, deadline=None, unbounded=False, stop_at_refuted=12):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.unbounded = unbounded
        self.stop_at_refuted = stop_at_refuted
        self.obligations = []
        self.assumptions = set()
        self.solver_time = 0.0
        self.paths = 0
        self.undecided = []
        self.errors = []
        self.covered = set()
        self.functions = set()
        self.learned = {}
        self.loops_run = {False: set(), True: set()}
        self.shard = None
        self.finished_ok = 0

    # -- path control
    def explore(self, harness):
        global ENGINE
        ENGINE = self
        trail = []
        refuted = 0
        while True:
            if self.deadline and time.time() > self.deadline:
                self.undecided.append(("deadline", "time limit of the check reached", list(self.choices)))
                break
            self.paths += 1
            if self.paths > self.max_paths:
                self.undecided.append(("paths", "too many paths", []))
                break
            self.begin(trail)
            restart = False
            try:
                harness(self)
                self.finished_ok += 1
            except StopPath:
                self.finished_ok += 1
            except Infeasible:
                pass
            except Restart:
                restart = True
            except Unsupported as e:
                import traceback
                self.undecided.append(("unsupported", str(e) + "".join(traceback.format_tb(e.__traceback__)[-2:]), list(self.choices)))
            except RecursionError as e:
                self.undecided.append(("unsupported", "recursion", list(self.choices)))
            except Exception as e:
                import traceback
                tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
                self.errors.append((repr(e), tb, list(self.choices), self.model_now(), list(self.taken)))
            refuted = sum(1 for o in self.obligations if o.status == "refuted") + len(self.errors)
            if refuted >= self.stop_at_refuted:
                break
            trail = self.taken
            if restart:
                # same decisions, new loop facts
                self.paths -= 1
                continue
            while trail and trail[-1][0] == trail[-1][1] - 1:
                trail.pop()
            if not trail:
                break
            trail[-1] = (trail[-1][0] + 1, trail[-1][1])
        ENGINE = None

    def begin(self, trail):
        self.pre = list(trail)
        self.split = self.shard     # the share of the explicit choices this process explores
        self.taken = []
        self.choices = []
        self.pc = []
        self.factset = set()
        self.syms = {}
        self.log = []
        self.solver = z3.SolverFor("QF_NRA") if False else z3.Solver()
        self.solver.set("timeout", 4000)
        self.names = {}
        self.store = {}
        self.counter = {}
        from . import fenics_stub
        fenics_stub.reset()
        for hook in RESET_HOOKS:
            hook()

    def decide(self, n):
        k = len(self.taken)
        i = self.pre[k][0] if k < len(self.pre) else 0
        self.taken.append((i, n))
        return i

    def choose(self, n, label, names=None):
        if isinstance(n, (list, tuple)):
            names = [getattr(x, "__name__", x) for x in n]
            vals = list(n)
        else:
            vals = list(range(n))
        pos = list(range(len(vals)))
        if self.split and len(vals) > 1:
            k, m = self.split
            if len(vals) >= m:
                idx = [i for i in range(len(vals)) if i % m == k]
                self.split = None
            else:
                idx = [k % len(vals)]
                m2 = sum(1 for j in range(m) if j % len(vals) == idx[0])
                self.split = (k // len(vals), m2) if m2 > 1 else None
            vals = [vals[i] for i in idx]
            pos = idx
            names = [names[i] for i in idx] if names else None
        i = self.decide(len(vals)) if len(vals) > 1 else 0
        self.choices.append((label, str(names[i]) if names else i, pos[i]))
        return vals[i]

    def maybe(self, label):
        return self.choose([False, True], label)

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.taken)
        if self.deadline and time.time() > self.deadline + 5:
            raise Unsupported("time limit reached inside a path")
        if k < len(self.pre):
            e = self.pre[k]
            if e[1] == 1:
                self.taken.append(e)
                val = e[2]
            else:
                val = (self.decide(2) == 0)
        else:
            t0 = time.time()
            can_t = self.solver.check(cond) != z3.unsat
            can_f = self.solver.check(z3.Not(cond)) != z3.unsat if can_t else True
            self.solver_time += time.time() - t0
            if can_t and can_f:
                val = (self.decide(2) == 0)
            else:
                # forced; recorded so that a replay of the trail stays aligned
                val = can_t
                self.taken.append((0, 1, val))
        c = cond if val else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        return val

    def assume(self, cond, check=True):
        c = toz3(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        self.pc.append(c)
        self.solver.add(c)
        if check:
            t0 = time.time()
            if self.solver.check() == z3.unsat:
                raise Infeasible()
            self.solver_time += time.time() - t0

    def add_facts(self, facts):
        new = facts - self.factset
        if new:
            self.factset |= new
            for f in z3facts(new):
                self.solver.add(f)
                self.pc.append(f)

    def note_assumption(self, s):
        self.assumptions.add(s)

    def cover(self, label):
        self.covered.add(label)

    # -- symbols
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        nm = name if n == 0 else f"{name}~{n}"
        a = atom("sym", nm)
        s = Sym(Poly.atom(a))
        self.syms[nm] = a
        v = z3atom(a)
        if pos:
            self.solver.add(v > 0); self.pc.append(v > 0)
        if nonneg:
            self.solver.add(v >= 0); self.pc.append(v >= 0)
        if lo is not None:
            self.solver.add(v >= lo); self.pc.append(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi); self.pc.append(v <= hi)
        return s

    def int(self, name, lo=None):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        nm = name if n == 0 else f"{name}~{n}"
        v = z3.Int(nm)
        a = atom("int", nm, info=v)
        self.syms[nm] = a
        if lo is not None:
            self.solver.add(v >= lo); self.pc.append(v >= lo)
        return Sym(Poly.atom(a), True)

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return f"{name}{n}"

    # -- obligations
    def model_now(self):
        try:
            s = z3.Solver(); s.set("timeout", 3000)
            s.add(*self.pc)
            if s.check() == z3.sat:
                return self.read_model(s.model())
        except Exception:
            pass
        return None

    def read_model(self, m):
        out = {}
        for nm, a in self.syms.items():
            v = m.eval(a.info if a.kind == "int" else z3atom(a), model_completion=False)
            try:
                if z3.is_int_value(v):
                    out[nm] = v.as_long()
                elif z3.is_rational_value(v):
                    out[nm] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                elif z3.is_algebraic_value(v):
                    out[nm] = float(v.approx(12).as_fraction())
            except Exception:
                pass
        # values of arbitrary functions and fields that matter on this path
        def num(v):
            if z3.is_int_value(v):
                return float(v.as_long())
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                return float(v.approx(12).as_fraction())
            return None
        for a, z_ in list(_z3atoms.items()):
            if a.kind not in ("fn", "fld"):
                continue
            try:
                v = num(m.eval(z_, model_completion=False))
                if v is None:
                    continue
                if a.kind == "fld":
                    out["fld:" + a.name] = v
                elif a.name.startswith("call:"):
                    out.setdefault("fun:" + a.name, []).append([None, v])
                elif a.name.startswith("user:"):
                    tv = None
                    ps = [x for x in a.args if isinstance(x, Poly)]
                    if len(ps) > 1:
                        f_ = set()
                        tv = num(m.eval(z3poly(ps[-1], f_), model_completion=True))
                    out.setdefault("fun:" + a.name[5:], []).append([tv, v])
            except Exception:
                pass
        return out

    def feasible(self):
        s = z3.Solver(); s.set("timeout", 5000)
        s.add(*self.pc)
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def prove(self, name, cond, detail=None):
        """obligation: path condition => cond"""
        ch = list(self.choices)
        tr = list(self.taken)
        if isinstance(cond, SymBool) or z3.is_expr(cond):
            c = toz3(cond)
            t0 = time.time()
            s = z3.Solver(); s.set("timeout", self.timeout_ms)
            s.add(*self.pc)
            s.add(z3.Not(c))
            r = s.check()
            dt = time.time() - t0
            backend = "z3"
            if r == z3.unknown:
                r2 = cvc5_check(self.pc, c, self.timeout_ms)
                backend = "cvc5"
                if r2 == "unsat":
                    r = z3.unsat
                dt = time.time() - t0
            self.solver_time += dt
            if r == z3.unsat:
                self.obligations.append(Obligation(name, "discharged", choices=ch, time=dt, backend=backend, path=self.paths))
                return True
            if r == z3.sat:
                self.obligations.append(Obligation(name, "refuted", detail=detail or str(c)[:400], choices=ch,
                                                   model=self.read_model(s.model()), time=dt, path=self.paths, trail=tr))
                return False
            self.obligations.append(Obligation(name, "unknown", detail=detail or str(c)[:400], choices=ch, time=dt, path=self.paths))
            return None
        if bool(cond):
            self.obligations.append(Obligation(name, "discharged", choices=ch, backend="structural", path=self.paths))
            return True
        if not self.feasible():
            raise Infeasible()
        self.obligations.append(Obligation(name, "refuted", detail=detail, choices=ch, model=self.model_now(), path=self.paths, trail=tr))
        return False

    def prove_eq(self, name, a, b, detail=None):
        """equality of two terms: canonical Laurent form, confirmed by z3"""
        a, b = aspoly2(a), aspoly2(b)
        t0 = time.time()
        ch = list(self.choices)
        tr = list(self.taken)
        ok = equal(a, b)
        if ok:
            conf = confirm_identity(a, b)
            dt = time.time() - t0
            self.solver_time += dt
            self.obligations.append(Obligation(name, "discharged", choices=ch, backend=conf, time=dt, path=self.paths))
            return True
        # perhaps equal under the path condition
        facts = set()
        try:
            za, zb = z3poly(a, facts), z3poly(b, facts)
            self.add_facts(facts)
            s = z3.Solver(); s.set("timeout", 5000)
            s.add(*self.pc)
            s.add(za != zb)
            r = s.check()
        except Exception:
            r = z3.unknown
        dt = time.time() - t0
        self.solver_time += dt
        if r == z3.unsat:
            self.obligations.append(Obligation(name, "discharged", choices=ch, backend="z3", time=dt, path=self.paths))
            return True
        if not self.feasible():
            raise Infeasible()
        d = detail or f"code: {a!r}\nspec: {b!r}\ndifference: {difference(a, b)!r}"
        self.obligations.append(Obligation(name, "refuted", detail=d[:4000], choices=ch,
                                           model=self.read_model(s.model()) if r == z3.sat else self.model_now(),
                                           time=dt, path=self.paths, trail=tr))
        return False


RESET_HOOKS = []


def aspoly2(x):
    if isinstance(x, Poly):
        return x
    p = rat(x)
    if p is not None:
        return p
    if hasattr(x, "pv_poly"):
        return x.pv_poly()
    raise Unsupported(f"no term for {type(x)}")


_conf_cache = {}


def confirm_identity(a, b):
    """z3 re-proves the canonicaliser's verdict: after clearing denominators,
    both sides (atoms abstracted to reals, exponents scaled to naturals) are the
    same polynomial"""
    key = (a, b)
    if a.t == b.t:
        return "syntactic"
    try:
        facts = set()
        # scale fractional exponents: introduce one generator per atom
        gens = {}

        def conv(p):
            tot = z3.RealVal(0)
            for m, c in p.t.items():
                term = z3.RealVal(str(c))
                for x, e in m:
                    if x.kind == "inv":
                        raise Unsupported("inv")
                    if e.denominator != 1 or abs(e) > 12:
                        g = gens.setdefault((x, e), z3.Real(f"g{len(gens)}"))
                        term = term * g
                        continue
                    g = gens.setdefault((x, 1 if e > 0 else -1), z3.Real(f"g{len(gens)}"))
                    for _ in range(abs(int(e))):
                        term = term * g
                tot = tot + term
            return tot
        s = z3.Solver(); s.set("timeout", 2000)
        s.add(conv(a) != conv(b))
        if s.check() == z3.unsat:
            return "z3"
    except BaseException:
        pass
    return "normaliser"


def cvc5_check(pc, c, timeout_ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(c))
        smt = "(set-logic ALL)\n" + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        sm = cvc5.SymbolManager(slv)
        parser = cvc5.InputParser(slv, sm)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in out:
                return "unsat"
            if "sat" in out:
                res = "sat"
        return res
    except Exception:
        return None
