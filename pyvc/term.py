"""Term language of the verifier: canonical Laurent polynomials over atoms.

A scalar is a `Poly`: a finite sum of coefficient * product of atom**exponent
with rational coefficients and exponents.  Atoms are interned and either
symbols (universally quantified reals), values of spatial fields, exponentials
EXP[m], powers POW(base, e), inverses INV[p] of sums, dot products of gradients,
or applications of uninterpreted functions.  Floats of the code are read as the
rational numbers they denote (arithmetic is treated as exact).
"""
from fractions import Fraction
import math
import itertools

_intern = {}


class Atom:
    __slots__ = ("kind", "name", "args", "uid", "const", "info")
    _count = itertools.count()

    def __repr__(self):
        if self.kind in ("sym", "fld", "int"):
            return self.name
        return f"{self.name}({', '.join(map(str, self.args))})"

    def __lt__(self, other):
        return self.uid < other.uid


def atom(kind, name, args=(), const=None, info=None):
    """interned; const: True if spatially constant"""
    key = (kind, name, args)
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args = kind, name, args
        a.uid = next(Atom._count)
        if const is None:
            const = kind in ("sym", "int")
        a.const = const
        a.info = info
        _intern[key] = a
    return a


def reset_atoms():
    _intern.clear()


def sig(x, n=12):
    """round a Fraction to n significant digits (canonical rational exponent)"""
    x = Fraction(x)
    if x.denominator < 10 ** 6 and abs(x.numerator) < 10 ** 9:
        return x
    return Fraction(f"{float(x):.{n}g}")


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    # --- constructors
    @staticmethod
    def const(c):
        c = tofrac(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Fraction(e)),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset((m, sig(c)) for m, c in self.t.items()))
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Poly):
            return NotImplemented
        if self.t.keys() != o.t.keys():
            return False
        return all(close(c, o.t[m]) for m, c in self.t.items())

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        return self.t.get((), Fraction(0))

    def atoms(self, deep=True, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if deep:
                        for x in a.args:
                            if isinstance(x, Poly):
                                x.atoms(True, acc)
        return acc

    def __add__(self, o):
        o = aspoly(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0 or (m in r and abs(n) <= abs(c) * Fraction(1, 10 ** 12)):
                r.pop(m, None)
            else:
                r[m] = n
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-aspoly(o))

    def __mul__(self, o):
        o = aspoly(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mulmono(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        return Poly(r)

    def inv(self):
        if not self.t:
            raise ZeroDivisionError("symbolic division by zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        p, c, m = self.primitive()
        a = atom("inv", "INV", (p,), const=all(x.const for x in p.atoms(False)))
        return Poly({mulmono(((a, Fraction(1)),), tuple((b, -e) for b, e in m)): 1 / c})

    def primitive(self):
        """self == c * m * p with p having content 1 and monic leading term"""
        common = None
        for m in self.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d.get(a, Fraction(0))) for a, e in common.items()}
                for a, e in d.items():
                    if a not in common and e < 0:
                        common[a] = e
                for a in list(common):
                    common[a] = min(common[a], d.get(a, Fraction(0)))
        common = tuple(sorted(((a, e) for a, e in common.items() if e), key=lambda x: x[0].uid))
        inv = tuple((a, -e) for a, e in common)
        p = {mulmono(m, inv): c for m, c in self.t.items()}
        lead = max(p, key=monokey)
        c = p[lead]
        return Poly({m: v / c for m, v in p.items()}), c, common

    def __truediv__(self, o):
        return self * aspoly(o).inv()

    def pow(self, e):
        if isinstance(e, Poly):
            if e.is_const():
                e = e.value()
            else:
                if self.is_const() and self.value() == 1:
                    return ONE
                return Poly.atom(atom("pow", "POW", (self, e),
                                      const=all(x.const for x in self.atoms(False) | e.atoms(False))))
        e = tofrac(e)
        if e == 0:
            return ONE
        if e == 1:
            return self
        if not self.t:
            if e > 0:
                return ZERO
            raise ZeroDivisionError("0 to a negative power")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if e.denominator == 1 or c > 0:
                try:
                    cc = c ** e.numerator if e.denominator == 1 else tofrac(float(c) ** float(e))
                except OverflowError:
                    cc = tofrac(math.exp(float(e) * math.log(c)))
                if e.denominator != 1 and c == 1:
                    cc = Fraction(1)
                return Poly({tuple((a, x * e) for a, x in m): cc})
        if e.denominator == 1 and 0 < e <= 8:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        if e.denominator == 1 and e < 0:
            return self.pow(-e).inv() if -e <= 8 else self.inv().pow(-e)
        p, c, m = self.primitive()
        if c < 0:
            p, c = -p, -c
        a = atom("pow", "POW", (p, Poly.const(e)), const=all(x.const for x in p.atoms(False)))
        f = Poly({m: c}).pow(e) if (m or c != 1) else ONE
        return Poly.atom(a) * f

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: monokey(x[0])):
            f = float(c)
            s = f"{f:.6g}"
            fs = []
            for a, e in m:
                fs.append(repr(a) if e == 1 else f"{a!r}^{float(e):g}" if abs(e) < 100 else f"{a!r}^({float(e):.6g})")
            if fs:
                s = ("" if f == 1 else "-" if f == -1 else s + "*") + "*".join(fs)
            out.append(s)
        return " + ".join(out)


def monokey(m):
    return tuple((a.uid, float(e)) for a, e in m)


def close(a, b):
    if a == b:
        return True
    return abs(a - b) <= Fraction(1, 10 ** 10) * max(abs(a), abs(b))


def tofrac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, int):
        return Fraction(c)
    if hasattr(c, "item"):
        c = c.item()
    if isinstance(c, float):
        if math.isinf(c) or math.isnan(c):
            raise ValueError("non-finite number")
        f = Fraction(c)
        g = f.limit_denominator(10 ** 6)
        if float(g) == c:
            return g
        return Fraction(repr(c))
    return Fraction(c)


def mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        elif a.kind == "exp":
            n = sig(n)
            if abs(n) < Fraction(1, 10 ** 9) * max(abs(e), 1):
                d.pop(a, None)
            else:
                d[a] = n
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda x: x[0].uid))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def aspoly(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


def EXP(p):
    r = ONE
    for m, c in p.t.items():
        if m == ():
            try:
                r = r * Poly.const(math.exp(float(c)))
            except OverflowError:
                r = r * Poly.atom(atom("fn", "exp", (Poly.const(c),), const=True))
            continue
        mp = Poly({m: Fraction(1)})
        a = atom("exp", "EXP", (mp,), const=all(x.const for x in mp.atoms(False)))
        r = r * Poly({((a, sig(c)),): Fraction(1)})
    return r


def FN(name, *args, const=None):
    """uninterpreted function application; args: Polys or hashable"""
    if const is None:
        const = all(all(x.const for x in p.atoms(False)) for p in args if isinstance(p, Poly))
    return Poly.atom(atom("fn", name, tuple(args), const=const))


def diff(p, a):
    """d p / d a where a is an atom (treats other atoms as independent)"""
    r = ZERO
    for m, c in p.t.items():
        for b, e in m:
            if b is a:
                r = r + Poly({mulmono(tuple((x, y) for x, y in m if x is not a), () if e == 1 else ((a, e - 1),)): c * e})
    return r


# ---------------------------------------------------------------- equality

def _clear(p):
    """multiply by INV denominators: returns (cleared poly, denominators)"""
    dens = []
    for _ in range(50):
        invs = sorted({a for m in p.t for a, e in m if a.kind == "inv"}, key=lambda a: a.uid)
        if not invs:
            return p, dens
        a = invs[-1]
        k = max((e for m in p.t for b, e in m if b is a), default=0)
        k = max(int(math.ceil(k)), 1)
        q = a.args[0]
        r = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, Fraction(0))
            rest = Poly({tuple((b, x) for b, x in m if b is not a): c})
            n = k - e
            r = r + rest * q.pow(n)
        dens.append((q, k))
        p = r
    return p, dens


def _expandpow(p):
    """POW(q, r) atoms raised to integer multiples that make them polynomial"""
    changed = True
    while changed:
        changed = False
        r = ZERO
        for m, c in p.t.items():
            term = Poly({(): c})
            for a, e in m:
                if a.kind == "pow" and isinstance(a.args[1], Poly) and a.args[1].is_const():
                    tot = a.args[1].value() * e
                    if tot.denominator == 1:
                        term = term * a.args[0].pow(tot)
                        changed = True
                        continue
                term = term * Poly.atom(a, e)
            r = r + term
        p = r
    return p


def equal(p, q):
    d = aspoly(p) - aspoly(q)
    if not d.t:
        return True
    scale = max((abs(c) for c in list(aspoly(p).t.values()) + list(aspoly(q).t.values())), default=1)
    d = _expandpow(d)
    d, _ = _clear(d)
    d = _expandpow(d)
    if not d.t:
        return True
    return False


def difference(p, q):
    d = _expandpow(aspoly(p) - aspoly(q))
    d, _ = _clear(d)
    return d


# ---------------------------------------------------------------- numeric evaluation
def evaluate(p, env, default=None):
    tot = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            v *= eval_atom(a, env, default) ** float(e)
        tot += v
    return tot


def eval_atom(a, env, default=None):
    if a in env:
        return env[a]
    if a.kind == "exp":
        v = math.exp(max(min(evaluate(a.args[0], env, default), 50), -50))
    elif a.kind == "inv":
        v = 1.0 / evaluate(a.args[0], env, default)
    elif a.kind == "pow":
        v = abs(evaluate(a.args[0], env, default)) ** evaluate(a.args[1], env, default)
    else:
        v = default(a) if default else 1.0
    env[a] = v
    return v
