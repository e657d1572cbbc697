"""Loops over lists of arbitrary length.

An `open list` (GenMixin) is a list of arbitrary length of which one element (or a few)
is tracked: the tracked elements are arbitrary, the others are arbitrary and unknown.
Every `for` statement of the code is rewritten mechanically when it is loaded

    for X in L: BODY      ->      _l = pv_loop(L, ...)
                                  for X in _l:
                                      (names of BODY) = _l.head(locals())
                                      BODY
                                  (names of BODY) = _l.leave(locals())

(nothing else of the source is changed; over an ordinary list the rewritten loop is the
original one).  Over an open list the loop rule is applied: every location that the body
changes is first replaced by an arbitrary value of its kind (what the elements before have
made of it), the body is executed for the tracked element, and it is checked that each
location is an accumulator - its new value is the old one plus something that does not
depend on any accumulator, or the old list with objects appended.  After the loop the
unknown contribution of the remaining elements is added.  So what the contract sees of the
result is exactly the contribution of an arbitrary element, whatever the number of
elements and its position: by induction over the list the result is the sum (the
concatenation) of the contributions.  Locations that are overwritten hold the value left
by an unknown element, which the code may not use (except for a measure, of which only the
domain is known).
Everything outside this rule raises Unsupported (the contract is then undecided)."""
import ast
import sys
import builtins
from . import engine as EN
from . import fenics_stub as FS
from .engine import Sym, Unsupported, Restart, mk, rat
from .term import Poly, atom, ONE, ZERO


# ------------------------------------------------------------------ open lists
class GenMixin:
    """an open list; as a Python list it holds the tracked elements"""
    pv_index = None          # positions of the tracked elements (symbolic)
    pv_absent = ()           # objects known not to be in the list

    @property
    def tracked(self):
        return list(list.__iter__(self))

    def __iter__(self):
        raise Unsupported("iteration over an open list outside a for statement")

    def __len__(self):
        raise Unsupported("length of an open list")

    def __bool__(self):
        return True

    def __getitem__(self, i):
        if isinstance(i, Sym) and self.pv_index is not None:
            for k, p in enumerate(self.pv_index):
                if (rat(i) - rat(p)).is_const() and (rat(i) - rat(p)).value() == 0:
                    return list.__getitem__(self, k)
        raise Unsupported("index into an open list")

    def __contains__(self, x):
        for y in self.tracked:
            if x is y:
                return True
        if any(x is y for y in self.pv_absent):
            return False
        raise Unsupported("membership in an open list")

    def __add__(self, o):
        if isinstance(o, list):
            return GenList(self.tracked + (o.tracked if isinstance(o, GenMixin) else list(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return GenList(list(o) + self.tracked)
        return NotImplemented

    def __iadd__(self, o):
        list.extend(self, o.tracked if isinstance(o, GenMixin) else list(o))
        return self

    def extend(self, o):
        list.extend(self, o.tracked if isinstance(o, GenMixin) else list(o))

    def append(self, x):
        list.append(self, x)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = object.__hash__

    def __setitem__(self, *a): raise Unsupported("assignment into an open list")
    def __delitem__(self, *a): raise Unsupported("deletion from an open list")
    def pop(self, *a): raise Unsupported("pop from an open list")
    def insert(self, *a): raise Unsupported("insert into an open list")
    def remove(self, *a): raise Unsupported("remove from an open list")
    def sort(self, *a, **k): raise Unsupported("sort of an open list")
    def reverse(self): raise Unsupported("reverse of an open list")
    def index(self, *a): raise Unsupported("position in an open list")
    def count(self, *a): raise Unsupported("count in an open list")
    def copy(self): return GenList(self.tracked)
    def __reversed__(self): raise Unsupported("reversed open list")


class GenList(GenMixin, list):
    pass


_classes = {}


def open_list(items, like=None, index=None, absent=()):
    """an open list with the tracked `items`; like: a container whose class and attributes it keeps"""
    cls = GenList
    if like is not None and type(like) is not list:
        cls = _classes.get(type(like))
        if cls is None:
            cls = _classes[type(like)] = type("Open" + type(like).__name__, (GenMixin, type(like)), {})
    g = cls.__new__(cls)
    list.__init__(g)
    for x in items:
        list.append(g, x)
    if like is not None and hasattr(like, "__dict__"):
        g.__dict__.update(like.__dict__)
    g.__dict__["pv_index"] = index
    g.__dict__["pv_absent"] = tuple(absent)
    return g


class Pairs(GenMixin, list):
    """enumerate() of an open list"""


def pvenumerate(x, start=0):
    if isinstance(x, GenMixin):
        if x.pv_index is None:
            ix = [EN.ENGINE.int("position", lo=0) for _ in x.tracked]
        else:
            ix = x.pv_index
        return open_list([(i + start, y) for i, y in zip(ix, x.tracked)])
    return builtins.enumerate(x, start)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)


class pvtype(metaclass=_TypeMeta):
    def __new__(cls, *a):
        if len(a) == 1:
            if type(a[0]) is GenList:
                return list
            if type(a[0]) in _classes.values():
                return type(a[0]).__mro__[2]
            return builtins.type(a[0])
        return builtins.type(*a)


class _No(Exception):
    pass


def pvall(x):
    if isinstance(x, GenMixin):
        EN.ENGINE.note_assumption("the other elements of an open list pass the same all/any tests as the tracked ones")
        x = x.tracked
    return builtins.all(x)


def pvany(x):
    if isinstance(x, GenMixin):
        EN.ENGINE.note_assumption("the other elements of an open list pass the same all/any tests as the tracked ones")
        x = x.tracked
    return builtins.any(x)


def pvzip(*xs, **kw):
    if any(isinstance(x, GenMixin) for x in xs):
        ix = xs[0].pv_index if isinstance(xs[0], GenMixin) else None
        if ix is None or not all(isinstance(x, GenMixin) and x.pv_index is ix for x in xs):
            raise Unsupported("zip of open lists")
        return open_list(list(builtins.zip(*[x.tracked for x in xs])), index=ix)
    return builtins.zip(*xs, **kw)


def pv_list(x):
    return open_list(x.tracked, index=x.pv_index, absent=x.pv_absent) if isinstance(x, GenMixin) else list(x)


def pv_tuple(x):
    return pv_list(x) if isinstance(x, GenMixin) else tuple(x)


def pv_extend(x, o):
    if isinstance(o, GenMixin) and isinstance(x, list) and not isinstance(x, GenMixin):
        # the unknown elements are one that cannot be used
        x.extend(o.tracked + [POISON])
        return None
    return x.extend(o)


def pv_cat(*parts):
    """[a, *b, c]"""
    out, opened = [], False
    for star, x in parts:
        if star and isinstance(x, GenMixin):
            opened = True
            out += x.tracked
        elif star:
            out += list(x)
        else:
            out.append(x)
    return open_list(out) if opened else out


def pv_comp(x, fn, cond, flat=False, lazy=False):
    if isinstance(x, GenMixin):
        kept = [y for y in x.tracked if cond is None or cond(y)]
        out = [fn(y) for y in kept]
        if flat:
            out = [z for part in out for z in (part.tracked if isinstance(part, GenMixin) else part)]
        if cond is not None and not kept:
            # assumed (DESIGN.md, open lists): the elements that are not known are of the kinds
            # of the known ones; a kind no known element has is absent
            return []
        return open_list(out, index=None if cond or flat else x.pv_index)
    if not flat:
        g = (fn(y) for y in x if cond is None or cond(y))
        return g if lazy else list(g)
    if lazy:
        parts = list(fn(y) for y in x if cond is None or cond(y))
        if any(isinstance(q, GenMixin) for q in parts):
            return open_list([z for q in parts for z in (q.tracked if isinstance(q, GenMixin) else q)])
        return (z for q in parts for z in q)
    out, opened = [], False
    for y in x:
        if cond is None or cond(y):
            part = fn(y)
            opened = opened or isinstance(part, GenMixin)
            out += part.tracked if isinstance(part, GenMixin) else list(part)
    return open_list(out) if opened else out


def pvsum(x, start=0):
    """sum of an open list: that of the known elements and an unknown remainder"""
    if not isinstance(x, GenMixin):
        return builtins.sum(x, start)
    if not x.tracked:
        raise Unsupported("sum of an open list without a known element")
    out = builtins.sum(x.tracked, start)
    key = EN.ENGINE.fresh("others:sum:")
    if isinstance(out, FS.Form):
        return out + FS.Form({}, {key: ONE})
    if isinstance(out, FS.UExpr):
        return FS.UExpr(out.pv_poly() + Poly.atom(atom("fld", key)))
    if isinstance(out, (int, float)) or type(out) is Sym:
        return mk(rat(out) + Poly.atom(atom("sym", key)))
    raise Unsupported("sum of an open list")


class Poison(FS.Stub):
    """value left by an unknown element"""
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__") and n not in ("__call__",):
            raise AttributeError(n)
        raise Unsupported("use of a value left by an unknown iteration")

    def _no(self, *a, **k):
        raise Unsupported("use of a value left by an unknown iteration")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _no
    __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __eq__ = __ne__ = __lt__ = __gt__ = _no
    __hash__ = object.__hash__


POISON = Poison.__new__(Poison)


# ------------------------------------------------------------------ the rule
def _festim(x):
    return (type(x).__module__ or "").startswith("festim") or isinstance(x, GenMixin)


def heap(roots, limit=4):
    """attributes of the objects reachable from the roots: path -> (object, attribute, value)"""
    out, seen = {}, set()

    def go(x, path, d):
        if id(x) in seen or d > limit:
            return
        if _festim(x) and hasattr(x, "__dict__"):
            seen.add(id(x))
            for k, v in list(vars(x).items()):
                if k.startswith("pv_"):
                    continue
                out[f"{path}.{k}"] = (x, k, v)
                go(v, f"{path}.{k}", d + 1)
        if isinstance(x, list):
            seen.add(id(x))
            for i, y in enumerate(list(list.__iter__(x))):
                if _festim(y):
                    go(y, f"{path}[{i}]", d + 1)
    for n, v in roots.items():
        go(v, n, 0)
    return out


def stamp(v):
    """to see whether a location has changed"""
    if isinstance(v, list):
        return (id(v), tuple(id(x) for x in list.__iter__(v)))
    if isinstance(v, dict):
        return (id(v), tuple((k, id(x)) for k, x in v.items()))
    if isinstance(v, FS.Function):
        return (id(v), id(v.get_content()) if not v.ncomp() else tuple(id(c) for c in v.get_content()))
    if isinstance(v, (int, float, str, bool, type(None))) and not isinstance(v, Sym):
        return (type(v), v)
    if isinstance(v, Sym):
        return rat(v)
    return id(v)


MISSING = object()


class Loop:
    def __init__(self, it, lid, names, targets, exits):
        self.it, self.lid, self.names, self.targets, self.exits = it, lid, names, targets, exits
        self.active = isinstance(it, GenMixin)

    def __iter__(self):
        if not self.active:
            return iter(self.it)
        if self.exits:
            raise Unsupported("loop with an early exit over an open list")
        self.items = self.it.tracked
        self.k = 0
        self.over = {}
        EN.ENGINE.loops_run[bool(self.items)].add(self.lid)
        return self

    # -- the locations
    def roots(self, loc):
        return {n: v for n, v in loc.items() if not n.startswith("_pv") and n not in self.targets}

    def own(self):
        """objects that belong to the tracked element"""
        seen = set()
        for x in self.items:
            seen.add(id(x))
            for _, (o, _, v) in heap({"x": x}).items():
                seen.add(id(o))
                if isinstance(v, list) or _festim(v):
                    seen.add(id(v))
        return seen

    def locations(self, loc):
        out = {}
        for n in self.names:
            if n not in self.targets:
                out[n] = (None, n, loc.get(n, MISSING))
        own = self.own()
        for p, (o, k, v) in heap(self.roots(loc)).items():
            if id(o) not in own:
                out[p] = (o, k, v)
        return out

    def learned(self):
        return EN.ENGINE.learned.setdefault(self.lid, {})

    # -- havoc
    def fresh(self, kind, v, what):
        e = EN.ENGINE
        if kind == "form":
            key = e.fresh(f"others:{self.lid}:{what}:")
            new = FS.Form({}, {key: ONE})
            if isinstance(v, FS.Form):
                new = v + new
            return new, key
        if kind == "num":
            a = atom("sym" if not isinstance(v, FS.UExpr) else "fld", e.fresh(f"others:{self.lid}:{what}:"))
            base = rat(v) if not isinstance(v, FS.UExpr) else v.pv_poly()
            p = base + Poly.atom(a)
            return (FS.UExpr(p) if isinstance(v, FS.UExpr) else mk(p)), a
        if kind == "list":
            if isinstance(v, GenMixin):
                return v, None
            if type(v) is not list:
                raise Unsupported("a loop over an open list changes a container")
            return open_list(list(v)), None
        return POISON, None

    def head(self, loc):
        """values of the names at the start of an iteration"""
        learned = self.learned()
        locs = self.locations(loc)
        vals = {}
        self.keys = {}
        self.before = {}
        for p, (o, k, v) in locs.items():
            kind = learned.get(p)
            if kind is not None:
                if v is MISSING or v is POISON:
                    new = POISON if kind != "list" or v is POISON else POISON
                    self.keys[p] = (kind, new, None)
                else:
                    new, key = self.fresh(kind, v, p)
                    self.keys[p] = (kind, new, key)
                if o is None:
                    vals[k] = new
                else:
                    o.__dict__[k] = new
                    # an alias of the same list among the names
                    for n in self.names:
                        if loc.get(n, MISSING) is v and isinstance(v, list):
                            vals[n] = new
                v = new
            self.before[p] = (v, stamp(v))
        return tuple(vals.get(n, loc.get(n, POISON)) for n in self.names)

    def __next__(self):
        loc = sys._getframe(1).f_locals
        if not self.items:
            raise StopIteration
        if self.k:
            self.end(loc)
        if self.k == len(self.items):
            raise StopIteration
        x = self.items[self.k]
        self.k += 1
        return x

    def end(self, loc):
        learned = self.learned()
        locs = self.locations(loc)
        new = False
        self.over = {}
        for p, (o, k, v) in locs.items():
            b = self.before.get(p)
            if b is None:
                # created by this iteration
                if o is None:
                    continue
                if not any(p.startswith(q) for q in learned) and v is not None:
                    learned[p] = "other"
                    new = True
                continue
            if stamp(v) == b[1]:
                continue
            kind = ("form" if isinstance(v, FS.Form) else "list" if isinstance(v, list) else
                    "num" if (isinstance(v, FS.UExpr) and not isinstance(v, FS.Function)) or (isinstance(v, (int, float)) and not isinstance(v, bool)) else "other")
            if b[0] is MISSING:
                kind = "other"
            if isinstance(v, (dict, FS.Function)) and b[0] is v:
                raise Unsupported(f"a loop over an open list changes {p}")
            if learned.get(p) is None:
                learned[p] = kind
                new = True
                continue
            if learned[p] != kind and learned[p] != "other":
                if b[0] is POISON:
                    learned[p] = "other"
                    new = True
                    continue
                raise Unsupported(f"{p} changes its kind in a loop over an open list")
        if new:
            raise Restart()
        allkeys = {q[2] for q in self.keys.values() if q[2] is not None}
        for p, (kind, old, key) in self.keys.items():
            if p not in locs:
                continue
            v = locs[p][2]
            if old is POISON:
                self.over[p] = "temp"
                continue
            if kind == "form":
                c = v.rest.get(key) if isinstance(v, FS.Form) else None
                if c is None:
                    self.over[p] = "over"
                elif not (c.is_const() and c.value() == 1):
                    raise Unsupported(f"{p} is not accumulated additively")
                if isinstance(v, FS.Form):
                    for q, pol in list(v.t.items()) + list(v.rest.items()):
                        if pol.atoms(True) & {a for a in allkeys if not isinstance(a, str)}:
                            raise Unsupported(f"{p} depends on another accumulator")
                    if any(q in allkeys and q != key for q in v.rest):
                        raise Unsupported(f"{p} depends on another accumulator")
            elif kind == "num":
                pv = v.pv_poly() if isinstance(v, FS.UExpr) else rat(v)
                po = old.pv_poly() if isinstance(old, FS.UExpr) else rat(old)
                if key not in pv.atoms(True):
                    self.over[p] = "over"
                elif key in (pv - po).atoms(True):
                    raise Unsupported(f"{p} is not accumulated additively")
            elif kind == "list":
                a = list(list.__iter__(old)) if v is not old else None
                if v is not old:
                    if not isinstance(v, GenMixin):
                        self.over[p] = "over"
                    elif [id(x) for x in v.tracked[:len(a)]] != [id(x) for x in a]:
                        raise Unsupported(f"{p} is not accumulated by appending")
            else:
                self.over[p] = "temp"

    def leave(self, loc):
        locs = self.locations(loc)
        learned = self.learned()
        vals = {}
        for p, (o, k, v) in locs.items():
            kind = learned.get(p)
            if kind is None:
                continue
            how = self.over.get(p)
            if how or v is MISSING or v is POISON:
                new = self.left_over(v)
            else:
                new = self.fresh(kind, v, p)[0]
            if o is None:
                vals[k] = new
            else:
                o.__dict__[k] = new
        for n in self.targets:
            vals[n] = POISON
        return tuple(vals.get(n, loc.get(n, POISON)) for n in self.names)

    def left_over(self, v):
        if isinstance(v, FS.Measure):
            return FS.Measure(v.typ, v.domain, EN.ENGINE.int("someid"), v.data)
        return POISON


def pv_loop(it, lid, names, targets, exits):
    return Loop(it, lid, names, targets, exits)


# ------------------------------------------------------------------ rewriting
class _Rewrite(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn
        self.n = 0
        self.locals = None

    def visit_FunctionDef(self, node):
        outer = self.locals
        loc = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        if node.args.vararg:
            loc.add(node.args.vararg.arg)
        if node.args.kwarg:
            loc.add(node.args.kwarg.arg)
        for s in ast.walk(node):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                loc.add(s.id)
        for s in ast.walk(node):
            # bound in a scope of their own
            if isinstance(s, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                pass
        self.locals = loc
        self.generic_visit(node)
        self.locals = outer
        return node

    # [e for x in X if c for y in Y] -> _pv_comp(X, lambda x: ..., lambda x: c, flat)
    def comp(self, node, lazy=False):
        gens = node.generators
        if self.locals is None or any(g.is_async for g in gens) or any(isinstance(q, (ast.NamedExpr, ast.Yield, ast.Await)) for q in ast.walk(node)):
            return None

        def fn(target, body):
            mkargs = lambda names: ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
            if isinstance(target, ast.Name):
                return ast.Lambda(args=mkargs([target.id]), body=body)
            if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(q, ast.Name) for q in target.elts):
                inner = ast.Lambda(args=mkargs([q.id for q in target.elts]), body=body)
                return ast.Lambda(args=mkargs(["_pv_t"]), body=ast.Call(inner, [ast.Starred(ast.Name("_pv_t", ast.Load()), ast.Load())], []))
            raise _No()

        def build(k):
            g = gens[k]
            last = k == len(gens) - 1
            import copy
            cond = fn(g.target, copy.deepcopy(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))) if g.ifs else ast.Constant(None)
            body = fn(g.target, node.elt if last else build(k + 1))
            return ast.Call(func=ast.Name("_pv_comp", ast.Load()), args=[g.iter, body, cond, ast.Constant(not last), ast.Constant(lazy)], keywords=[])
        try:
            return ast.copy_location(build(0), node)
        except _No:
            return None

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return self.comp(node) or node

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        return self.comp(node, True) or node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(isinstance(q, ast.Starred) for q in node.elts):
            parts = [ast.Tuple([ast.Constant(isinstance(q, ast.Starred)), q.value if isinstance(q, ast.Starred) else q], ast.Load()) for q in node.elts]
            return ast.copy_location(ast.Call(ast.Name("_pv_cat", ast.Load()), parts, []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("list", "tuple") and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            node.func = ast.copy_location(ast.Name("_pv_" + node.func.id, ast.Load()), node.func)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "extend" and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(ast.Call(ast.Name("_pv_extend", ast.Load()), [node.func.value, node.args[0]], []), node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if self.locals is None:
            return node
        self.n += 1
        var = f"_pv_l{self.n}"
        targets = sorted({s.id for s in ast.walk(node.target) if isinstance(s, ast.Name)})
        lam = set()
        for s in node.body:
            for q in ast.walk(s):
                if isinstance(q, ast.Lambda):
                    lam |= {a.arg for a in q.args.args}
        names = sorted({q.id for s in node.body for q in ast.walk(s) if isinstance(q, ast.Name) and q.id in self.locals and not q.id.startswith("_pv")} - lam | set(targets))
        exits = _has_exit(node.body)
        tup = lambda ctx: ast.Tuple([ast.Name(n, ctx) for n in names], ctx)
        loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
        lid = f"{self.fn}:{node.lineno}"
        mkl = ast.Assign([ast.Name(var, ast.Store())], ast.Call(ast.Name("_pv_loop", ast.Load()), [
            node.iter, ast.Constant(lid), ast.Constant(tuple(names)), ast.Constant(tuple(targets)), ast.Constant(exits)], []))
        act = ast.Attribute(ast.Name(var, ast.Load()), "active", ast.Load())
        # targets keep their values inside the body
        body_names = [n for n in names if n not in targets]
        btup = ast.Tuple([ast.Name(n, ast.Store()) for n in body_names], ast.Store())
        head = ast.Assign([btup], ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "head_", ast.Load()), [loc], []))
        leave = ast.Assign([tup(ast.Store())], ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "leave", ast.Load()), [loc], []))
        new = ast.For(node.target, ast.Name(var, ast.Load()), [ast.If(act, [head], [])] + node.body, node.orelse)
        out = [mkl, new, ast.If(act, [leave], [])]
        for o in out:
            ast.copy_location(o, node)
            for q in ast.walk(o):
                if not hasattr(q, "lineno") and isinstance(q, (ast.stmt, ast.expr)):
                    ast.copy_location(q, node)
        return out


def head_(self, loc):
    r = self.head(loc)
    return tuple(v for n, v in zip(self.names, r) if n not in self.targets)


Loop.head_ = head_


def _has_exit(body):
    def go(nodes, top):
        for s in nodes:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(s, ast.Return):
                return True
            if isinstance(s, ast.Break) and top:
                return True
            inner = top and not isinstance(s, (ast.For, ast.While))
            if go([c for c in ast.iter_child_nodes(s)], inner):
                return True
        return False
    return go(body, True)


def transform(src, fn):
    tree = ast.parse(src, fn)
    tree = _Rewrite(fn.split("/festim/")[-1]).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fn, "exec")


EXTRA = {"_pv_loop": pv_loop, "_pv_comp": pv_comp, "_pv_cat": pv_cat, "_pv_extend": pv_extend, "_pv_list": pv_list, "_pv_tuple": pv_tuple, "enumerate": pvenumerate,
         "type": pvtype, "sum": pvsum, "all": pvall, "any": pvany, "zip": pvzip}
