from pyvc.harness import contract
from .common import *

KINDS = ["materials", "traps", "exports", "derived quantities"]


def maker(h, kind):
    """(container class, function making the i-th sound object, objects of other kinds)"""
    F = h.F
    mat = lambda i: F.Material(id=i + 1, D_0=1.0, E_D=0.1, name=f"m{i}")
    base = mat(90)

    def trap(i):
        return [lambda: F.Trap(1.0, 0.1, 1.0, 0.1, base, 1.0),
                lambda: F.ExtrinsicTrap(k_0=1.0, E_k=0.1, p_0=1.0, E_p=0.1, materials=base, phi_0=1.0, n_amax=1.0, n_bmax=1.0, eta_a=1.0, eta_b=1.0, f_a=1.0, f_b=1.0),
                lambda: F.NeutronInducedTrap(k_0=1.0, E_k=0.1, p_0=1.0, E_p=0.1, materials=base, phi=1.0, K=1.0, n_max=1.0, A_0=1.0, E_A=0.1)][i % 3]()

    def export(i):
        return [lambda: F.XDMFExport("solute", label="a"), lambda: F.DerivedQuantities([F.TotalVolume("solute", 1)]), lambda: F.TXTExport("solute", filename="a.txt"),
                lambda: F.TrapDensityXDMF(trap=trap(0), label="b")][i % 4]()

    def quantity(i):
        return [lambda: F.TotalVolume("solute", 1), lambda: F.HydrogenFlux(surface=1), lambda: F.PointValue("T", x=1.0), lambda: F.MaximumVolume("T", 1)][i % 4]()
    source = F.Source(1.0, volume=1, field="solute")
    if kind == "materials":
        return F.Materials, mat, [trap(0), "mat", None, 1, [mat(0)], F.Material, source]
    if kind == "traps":
        return F.Traps, trap, [mat(0), "trap", None, 2.0, [trap(0)], F.Trap, source, quantity(0)]
    if kind == "exports":
        return F.Exports, export, [mat(0), "coucou", None, 3, [export(0)], F.XDMFExport, trap(1)]
    return F.DerivedQuantities, quantity, [mat(0), "q", None, 4, [quantity(0)], F.TotalVolume, F.XDMFExport("solute", label="a"), source]


def agrees(h, name, got, want):
    h.prove(name, isinstance(got, list) and len(got) == len(want) and all(a is b for a, b in zip(list(got), want)), f"{list(got)} instead of {want}")


def step(h, cls, make, wrong, c, shadow, tag, counter):
    """one operation on the container and on a plain list; False when the operation was (rightly) refused"""
    op = h.choose(["append", "insert", "setitem", "extend", "iadd", "pop", "reverse"], f"operation {tag}")
    F = h.F
    before = list(shadow)

    def new():
        counter[0] += 1
        return make(counter[0])
    if op in ("pop", "reverse"):
        if op == "pop" and shadow:
            c.pop(0)
            shadow.pop(0)
        elif op == "reverse":
            c.reverse()
            shadow.reverse()
        agrees(h, "the list behaves as a plain list", c, shadow)
        return True
    if op in ("append", "insert", "setitem"):
        bad = h.maybe(f"wrong {tag}")
        obj = wrong[h.choose(list(range(len(wrong))), f"wrong object {tag}")] if bad else new()
        n = len(shadow)
        at = h.choose([-(n + 1), -1, 0, n - 1, n], f"index {tag}") if op != "append" else None

        def do(x):
            if op == "append":
                x.append(obj)
            elif op == "insert":
                x.insert(at, obj)
            else:
                x[at] = obj
        valid = op != "setitem" or -n <= at < n
        if bad:
            h.raises(f"{op} of another object is refused", TypeError if valid else Exception, do, c)
            agrees(h, f"refused {op} leaves the list unchanged", c, before)
        elif not valid:
            h.raises("assignment outside the list is refused", IndexError, do, c)
            agrees(h, "refused assignment leaves the list unchanged", c, before)
        else:
            do(shadow)
            h.accepts(f"{op} of a sound object", do, c)
            agrees(h, f"{op} as a plain list", c, shadow)
        return True
    k = h.choose([0, 1, 2], f"number {tag}")
    objs = [new() for _ in range(k)]
    form = h.choose(["list", "tuple", "generator", "container"], f"given as {tag}")
    bad = h.maybe(f"wrong {tag}") if form != "container" else False
    if bad:
        pos = h.choose(list(range(k + 1)), f"position {tag}")
        objs.insert(pos, wrong[h.choose([0, 1, 2, 4, 5], f"wrong object {tag}")])
    arg = {"list": lambda: list(objs), "tuple": lambda: tuple(objs), "generator": lambda: (x for x in objs), "container": lambda: cls(list(objs))}[form]()

    def do(x):
        if op == "extend":
            x.extend(arg)
        else:
            y = x
            y += arg
            h.prove("in-place addition keeps the container", y is x)
    if bad:
        h.raises(f"{op} with another object is refused", TypeError, do, c)
        ok = [x for x in c if not any(x is w for w in wrong)]
        h.prove(f"refused {op} never admits the object", len(ok) == len(c) and all(a is b for a, b in zip(c, before)) and len(c) >= len(before)
                and all(a is b for a, b in zip(list(c)[len(before):], objs)), f"{list(c)}")
        return False
    h.accepts(f"{op} of sound objects", do, c)
    shadow.extend(objs)
    agrees(h, f"{op} as a plain list", c, shadow)
    return True


def operations(h, kind, n):
    cls, make, wrong = maker(h, kind)
    counter = [0]
    length = h.choose([0, 1, 3] if n == 1 else [0, 2], "initial length")
    start = []
    for _ in range(length):
        counter[0] += 1
        start.append(make(counter[0]))
    c = cls(list(start)) if length or h.maybe("from an empty list") else cls()
    agrees(h, "construction keeps the objects in order", c, start)
    shadow = list(start)
    for i in range(n):
        if not step(h, cls, make, wrong, c, shadow, i, counter):
            break


@contract("C17", functions=["Materials.append", "Materials.insert", "Materials.__setitem__", "Materials.extend", "Materials.__iadd__", "Traps.*", "Exports.*", "DerivedQuantities.*"],
          bounded="one operation on lists of length 0, 1 and 3, all kinds of argument", weight=4)
def one_operation(h):
    operations(h, h.choose(KINDS, "kind"), 1)


@contract("C17", functions=["Materials.append", "Materials.insert", "Materials.__setitem__", "Materials.extend", "Materials.__iadd__", "Traps.*", "Exports.*", "DerivedQuantities.*"],
          bounded="two operations in sequence", weight=8)
def two_operations(h):
    kind = h.choose(KINDS, "kind")
    cls, make, wrong = maker(h, kind)
    wrong = wrong[:2] + wrong[2:6]
    counter = [0]
    start = [make(0), make(1)]
    c, shadow = cls(list(start)), list(start)
    for i in range(2):
        op = h.choose(["append", "insert", "setitem", "extend", "iadd"], f"operation {i}")
        bad = h.maybe(f"wrong {i}")
        counter[0] += 1
        obj = wrong[h.choose([0, 2, 4], f"wrong object {i}")] if bad else make(counter[0])
        at = h.choose([0, 1, -1], f"index {i}") if op in ("insert", "setitem") else None

        def do(x):
            if op == "append":
                x.append(obj)
            elif op == "insert":
                x.insert(at, obj)
            elif op == "setitem":
                x[at] = obj
            elif op == "extend":
                x.extend([obj])
            else:
                x += [obj]
        if bad:
            h.raises(f"{op} of another object is refused", TypeError, do, c)
        else:
            h.accepts(f"{op} of a sound object", do, c)
            do(shadow)
        agrees(h, f"contents after {op}", c, shadow)


@contract("C17", functions=["Materials.__init__", "Traps.__init__", "Exports.__init__", "DerivedQuantities.__init__"], bounded="lists of up to 4 objects")
def construction(h):
    kind = h.choose(KINDS, "kind")
    cls, make, wrong = maker(h, kind)
    what = h.choose(["list", "not a list", "container"], "argument")
    if what == "not a list":
        arg = h.choose([make(0), (make(0),), "abc", 5, {1: make(0)}], "which")
        h.raises("only a list is accepted", TypeError, cls, arg)
        return
    n = h.choose([0, 1, 3], "length")
    objs = [make(i) for i in range(n)]
    if what == "list" and h.maybe("wrong"):
        objs.insert(h.choose(list(range(n + 1)), "position"), wrong[h.choose(list(range(len(wrong))), "wrong object")])
        h.raises("construction with another object is refused", TypeError, cls, objs)
        return
    arg = cls(list(objs)) if what == "container" else list(objs)
    agrees(h, "construction keeps the objects in order", h.accepts("construction from sound objects", cls, arg), objs)


@contract("C17", functions=["Simulation.traps", "Simulation.materials", "Simulation.exports", "Simulation.__init__"], bounded="up to 3 objects")
def model_lists(h):
    F = h.F
    kind = h.choose(["materials", "traps", "exports"], "kind")
    cls, make, wrong = maker(h, kind)
    what = h.choose(["none", "list", "container", "single", "wrong", "wrong list"], "argument")
    n = h.choose([0, 1, 3], "length") if what in ("list", "container") else 1
    objs = [make(i + h.choose([0, 1, 2], "sort") if what == "single" else i) for i in range(n)]
    if what == "none":
        arg, objs = None, []
    elif what == "list":
        arg = list(objs)
    elif what == "container":
        arg = cls(list(objs))
    elif what == "single":
        arg = objs[0]
    elif what == "wrong":
        arg = h.choose([w for w in wrong if w is not None and not isinstance(w, list)] + [(make(0),)], "which")
    else:
        w = [w for w in wrong][h.choose(list(range(len(wrong))), "which")]
        arg = [make(0), w] if h.maybe("last") else [w, make(0)]
    later = h.maybe("assigned later")

    def go():
        if later:
            sim = F.Simulation(log_level=50)
            sim.__class__  # the attribute is assigned on a model that exists
            setattr(sim, kind, [make(7)])
            setattr(sim, kind, arg)
            return sim
        return F.Simulation(log_level=50, **{kind: arg})
    if what.startswith("wrong"):
        h.raises("another object is refused as " + kind, TypeError, go)
        return
    sim = h.accepts("sound " + kind, go)
    got = getattr(sim, kind)
    if what == "none" and kind == "materials":
        h.prove("no materials", got is None)
        return
    h.prove("the model holds the container", isinstance(got, cls))
    agrees(h, "the model holds those objects", got, objs)
    if what == "container":
        h.prove("a container is kept", got is arg)


@contract("C17", functions=["Simulation.T", "Simulation.dt", "Temperature.__init__", "Stepsize.__init__"])
def model_temperature_and_step(h):
    F = h.F
    later = h.maybe("assigned later")
    which = h.choose(["T", "dt"], "attribute")
    kw = {"T": "temperature", "dt": "dt"}[which]
    kind = h.choose(["number", "integer", "object", "other object", "expression", "wrong"], "argument")
    value = None
    if kind == "number":
        arg = value = h.real("value", pos=True)
    elif kind == "integer":
        arg = value = h.int("value", lo=1)
    elif kind == "object":
        arg = F.Temperature(h.real("value", pos=True)) if which == "T" else F.Stepsize(h.real("value", pos=True))
    elif kind == "other object":
        if which == "dt":
            h.stop()
        arg = F.HeatTransferProblem(transient=False)
    elif kind == "expression":
        if which == "dt":
            h.stop()
        arg = value = h.fun("T", scale=600.0)
    else:
        arg = h.choose(["coucou", [1.0], (300,), F.Stepsize if which == "T" else F.Temperature(300), {}], "which")

    def go():
        if later:
            sim = F.Simulation(log_level=50)
            setattr(sim, which, arg)
            return sim
        return F.Simulation(log_level=50, **{kw: arg})
    if kind == "wrong":
        h.raises("another object is refused as " + kw, TypeError, go)
        return
    sim = h.accepts("sound " + kw, go)
    got = getattr(sim, which)
    h.prove("the model holds the object", isinstance(got, F.Temperature if which == "T" else F.Stepsize))
    if value is None:
        h.prove("the object given is kept", got is arg)
    elif which == "dt":
        got.initialise_value()
        h.eq("step size of that value", h.num(got.value) if h.symbolic else float(got.value), value)
    elif kind == "expression":
        h.prove("temperature of that value", got.value == value)
    else:
        h.eq("temperature of that value", got.value, value)
