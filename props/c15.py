from fractions import Fraction
from pyvc.harness import contract
from .common import *
from .c04 import make_traps


def outcome(h, sim, bad, what):
    """initialise() must raise exactly when the model is inconsistent"""
    if bad:
        h.raises(f"rejected: {what}", Exception, sim.initialise)
    else:
        h.accepts(f"accepted: no {what}", sim.initialise)


def trap(h, mats, tag="t"):
    return h.F.Trap(h.real(f"k0_{tag}", pos=True), h.real(f"Ek_{tag}", scale=0.1), h.real(f"p0_{tag}", pos=True), h.real(f"Ep_{tag}", scale=0.1), mats, h.real(f"n_{tag}", pos=True))


def condition(h, kind, tag, surfaces, field):
    F = h.F
    if kind == "value":
        return F.DirichletBC(surfaces=surfaces, value=h.real(f"v{tag}"), field=field)
    if kind == "sieverts":
        return F.SievertsBC(surfaces=surfaces, S_0=h.real(f"S{tag}", pos=True), E_S=h.real(f"E{tag}", scale=0.1), pressure=h.real(f"P{tag}", pos=True))
    if kind == "implantation":
        return F.ImplantationDirichlet(surfaces=surfaces, phi=h.real(f"phi{tag}", pos=True), R_p=h.real(f"R{tag}", pos=True), D_0=h.real(f"D{tag}", pos=True), E_D=h.real(f"E{tag}", scale=0.1))
    if kind == "kinetics":
        return F.SurfaceKinetics(k_sb=h.real(f"ksb{tag}", pos=True), k_bs=h.real(f"kbs{tag}", pos=True), lambda_IS=h.real(f"lam{tag}", pos=True), n_surf=h.real(f"ns{tag}", pos=True),
                                 n_IS=h.real(f"nIS{tag}", pos=True), J_vs=h.real(f"J{tag}"), surfaces=surfaces, initial_condition=0)
    if kind == "recombination":
        return F.RecombinationFlux(Kr_0=h.real(f"Kr{tag}", pos=True), E_Kr=h.real(f"E{tag}", scale=0.1), order=2, surfaces=surfaces)
    return F.FluxBC(surfaces=surfaces, value=h.real(f"f{tag}"), field=field)


EXCLUSIVE = ("value", "sieverts", "implantation", "kinetics")


@contract("C15", functions=["Simulation.check_boundary_conditions", "Simulation.attribute_boundary_conditions", "Simulation.initialise"],
          bounded="3 conditions of at most 2 surfaces (any ids), 1 trap", weight=8)
def conflicting_conditions(h):
    F, f = h.F, h.f
    vols, surfs = h.ids("v", 1), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mat = material(h, "0", vols[0])
    info, bcs = [], []
    for k in range(3):
        kind = h.choose([["value", "sieverts", "kinetics", "flux"], ["value", "implantation", "kinetics", "recombination"], ["value", "kinetics", "flux"]][k], f"kind {k}")
        n = h.choose([1, 2], f"surfaces {k}") if k == 1 else 1
        ss = [h.int(f"q{k}_{j}", lo=1) for j in range(n)]
        if n == 2:
            h.assume(ss[0] != ss[1])
        fields = ([("0", 0), ("solute", 0), (1, 1)] if k == 0 else [(0, 0), ("1", 1)]) if kind == "value" else [(0, 0)]
        sp, i = h.choose(fields, f"field {k}")
        bcs.append(condition(h, kind, str(k), list(ss), sp))
        info.append((kind in EXCLUSIVE, i, ss))
    sim = simulation(h, fm, [mat], T=h.fun("T", scale=600.0), bcs=bcs, traps=[trap(h, mat)])
    bad = False
    for a in range(3):
        for b in range(a):
            (ea, ia, sa), (eb, ib, sb) = info[a], info[b]
            if (ea or eb) and ia == ib and any(bool(x == y) for x in sa for y in sb):
                bad = True
    outcome(h, sim, bad, "two conditions on the same field and surface")


@contract("C15", functions=["Simulation.check_boundary_conditions", "BoundaryCondition.__init__", "Simulation.attribute_source_terms", "HTransportProblem.initialise_concentrations"],
          bounded="up to 2 traps, 2 objects")
def unknown_fields(h):
    F, f = h.F, h.f
    vols, surfs = h.ids("v", 1), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mat = material(h, "0", vols[0])
    nt = h.choose([0, 1, 2], "traps")
    where = h.choose(["condition", "source", "initial value"], "where")
    good = [0, "0", "solute"] + [x for i in range(1, nt + 1) for x in (i, str(i))]
    wrong = ["foo", "", nt + 1, str(nt + 1), -1, "-1", 17, "trap", "1.0"]
    i = h.choose(["good", "wrong", "number"], "which")
    if i == "good":
        fld, ok = h.choose(good, "good field"), True
    elif i == "wrong":
        fld, ok = h.choose(wrong, "wrong field"), False
    else:
        if where != "condition":
            h.stop()
        fld = h.int("field")          # any integer
        ok = bool(fld >= 0) and bool(fld <= nt)
        if ok:
            h.stop()                  # the valid numbers are the case "good"
    bcs, sources, ics = [], [], []
    first = h.maybe("first")
    if where == "condition":
        kind = h.choose(["value", "flux"], "kind")
        s = [surfs[0]]
        other = F.DirichletBC(surfaces=[surfs[1]], value=h.real("other"), field=0)
        bcs = [condition(h, kind, "q", s, fld)]
        bcs = bcs + [other] if first else [other] + bcs
    elif where == "source":
        sources = [F.Source(h.real("src"), volume=vols[0], field=fld)]
        other = F.Source(h.real("other"), volume=vols[0], field=0)
        sources = sources + [other] if first else [other] + sources
    else:
        if not ok and fld == "T":
            h.stop()
        ics = [F.InitialCondition(field=fld, value=h.real("ini"))]
    sim = simulation(h, fm, [mat], T=h.fun("T", scale=600.0), bcs=bcs, sources=sources, ics=ics, traps=[trap(h, mat, str(j)) for j in range(nt)])
    outcome(h, sim, not ok, f"unknown field in a {where}")


@contract("C15", functions=["Simulation.check_boundary_conditions", "Simulation.check_mesh_dim_coords", "Simulation.attribute_source_terms"], bounded="2 conditions or sources")
def heat_input_needs_heat_problem(h):
    F, f = h.F, h.f
    vols, surfs = h.ids("v", 1), h.ids("s", 2)
    dim = h.choose([1, 2, 3], "dimension")
    coord = h.choose(["cartesian", "cylindrical", "spherical"], "coordinates")
    fm = h.mesh(vols, surfs, coord=coord, dim=dim)
    mat = material(h, "0", vols[0], heat=True)
    temp = h.choose(["function", "stationary", "transient"], "temperature")
    if temp == "function":
        T = h.fun("T", scale=600.0)
    elif temp == "stationary":
        T = F.HeatTransferProblem(transient=False)
    else:
        T = F.HeatTransferProblem(transient=True, initial_condition=h.real("T0", pos=True))
    kind = h.choose(["nothing", "source", "value", "flux", "convection", "kinetics"], "kind")
    pos = h.choose([0, 1], "position")
    sources = [F.Source(h.real("src"), volume=vols[0], field=0)]
    bcs = [F.DirichletBC(surfaces=[surfs[1]], value=h.real("val"), field=0)]
    s = [surfs[0]]
    if kind == "source":
        sources.insert(pos, F.Source(h.real("hs"), volume=vols[0], field="T"))
    elif kind in ("value", "flux", "kinetics"):
        bcs.insert(pos, condition(h, kind, "q", s, "T"))
    elif kind == "convection":
        bcs.insert(pos, F.ConvectiveFlux(h_coeff=h.real("hc", pos=True), T_ext=h.real("Te", pos=True), surfaces=s))
    sim = simulation(h, fm, [mat], T=T, bcs=bcs, sources=sources)
    h.on_newton(lambda *a: (3, True))
    bad = (kind in ("source", "value", "flux", "convection") and temp == "function") or (kind == "kinetics" and dim != 1) or \
        (coord == "spherical" and dim != 1) or (coord == "cylindrical" and dim == 3)
    outcome(h, sim, bad, "heat input without a heat problem, surface kinetics beyond one dimension, or coordinates that do not fit the mesh")


@contract("C15", functions=["Simulation.initialise"])
def clock_and_temperature_are_required(h):
    F, f = h.F, h.f
    vols, surfs = h.ids("v", 1), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mat = material(h, "0", vols[0])
    transient, dt, final, T = (h.maybe(x) for x in ("transient", "step size", "final time", "temperature"))
    st = settings(h, transient, h.real("tf", pos=True) if final else None)
    step = h.choose(["number", "Stepsize"], "step kind") if dt else None
    sim = F.Simulation(mesh=fm, materials=[mat], settings=st, log_level=50,
                       dt=None if not dt else (h.real("dt", pos=True) if step == "number" else F.Stepsize(h.real("dt", pos=True))),
                       temperature=h.fun("T", scale=600.0) if T else None)
    outcome(h, sim, not T or (transient and not (dt and final)) or (not transient and dt), "missing temperature, step size or final time, or superfluous step size")


@contract("C15", functions=["Materials.check_unique_ids", "Materials.check_materials"], bounded="up to 4 materials with up to 2 ids each (any ids)", weight=4)
def repeated_material_ids(h):
    F, f = h.F, h.f
    n = h.choose([1, 2, 3, 4], "materials")
    mats, every = [], []
    for k in range(n):
        m = h.choose([0, 1, 2], f"ids of {k}") if k < 2 and n < 4 else (h.choose([0, 2], f"ids of {k}") if k == 0 else 0)
        mine = [h.int(f"id{k}_{j}", lo=1) for j in range(max(m, 1))]
        every += mine
        mats.append(material(h, str(k), mine if m else mine[0]))
    bad = False
    for a in range(len(every)):
        for b in range(a):
            if bool(every[a] == every[b]):
                bad = True
    surfs = h.ids("s", 2)
    fm = h.mesh([1], surfs) if not h.symbolic else h.mesh(every, surfs)
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0))
    outcome(h, sim, bad, "repeated material id")


PROPS = ["solubility", "thermal_cond", "heat_capacity", "rho", "Q", "borders"]


@contract("C15", functions=["Materials.check_consistency", "Materials.check_materials", "Mesh1D.define_measures"], bounded="up to 4 materials", weight=6)
def property_given_for_some_materials(h):
    F, f = h.F, h.f
    n = h.choose([2, 3, 4], "materials")
    p = h.choose(PROPS, "property")
    second = h.choose([None] + [q for q in PROPS if q not in (p, "borders")], "property given everywhere")
    given = [h.maybe(f"given for {k}") for k in range(n)]
    temp = h.choose(["function", "stationary", "transient"], "temperature") if p in ("heat_capacity", "rho") else "function"
    vols, surfs = h.ids("v", n), h.ids("s", 2)
    mats = []
    for k in range(n):
        kw = {}
        for q in [p] * given[k] + ([second] if second else []):
            if q == "solubility":
                kw.update(S_0=h.real(f"S{k}", pos=True), E_S=h.real(f"ES{k}", scale=0.1))
            elif q == "borders":
                kw.update(borders=[k / n, (k + 1) / n])
            else:
                kw[q] = h.real(f"{q}{k}", pos=True)
        if temp != "function":
            for q in ("thermal_cond", "heat_capacity", "rho"):
                if q != p and (q == "thermal_cond" or temp == "transient"):
                    kw[q] = h.real(f"need_{q}{k}", pos=True)
        mats.append(F.Material(id=vols[k], D_0=h.real(f"D{k}", pos=True), E_D=h.real(f"ED{k}", scale=0.1), name=f"m{k}", **kw))
    if p == "borders" and h.maybe("one-dimensional mesh"):
        fm = F.MeshFromVertices([i / (2 * n) for i in range(2 * n + 1)])
        oned = True
    else:
        fm = h.mesh(vols, surfs)
        oned = False
    T = h.fun("T", scale=600.0) if temp == "function" else F.HeatTransferProblem(transient=temp == "transient", initial_condition=h.real("T0", pos=True) if temp == "transient" else None)
    h.on_newton(lambda *a: (3, True))
    sim = simulation(h, fm, mats, T=T)
    bad = len(set(given)) > 1 or (oned and not all(given)) or (temp == "transient" and not all(given))
    outcome(h, sim, bad, f"property given for some materials only ({p})")


@contract("C15", functions=["Materials.check_missing_properties", "HeatTransferProblem.create_functions"], bounded="2 materials")
def missing_thermal_property(h):
    F, f = h.F, h.f
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    tc, cp, rho, ini = (h.maybe(q) for q in ("thermal_cond", "heat_capacity", "rho", "initial temperature"))
    transient = h.maybe("transient heat")
    mats = []
    for k in range(2):
        kw = {}
        for q, g in (("thermal_cond", tc), ("heat_capacity", cp), ("rho", rho)):
            if g:
                kw[q] = h.real(f"{q}{k}", pos=True) if h.choose(["number", "function"], f"kind {q} {k}") == "number" else h.callfun(f"{q}{k}")
        mats.append(F.Material(id=vols[k], D_0=h.real(f"D{k}", pos=True), E_D=h.real(f"ED{k}", scale=0.1), name=f"m{k}", **kw))
    T = F.HeatTransferProblem(transient=transient, initial_condition=h.real("T0", pos=True) if ini else None)
    h.on_newton(lambda *a: (3, True))
    sim = simulation(h, fm, mats, T=T)
    outcome(h, sim, not tc or (transient and not (cp and rho and ini)), "missing thermal property or initial temperature")


def exact(h, x):
    return x if h.symbolic else Fraction(x)


@contract("C15", functions=["Materials.check_borders", "Mesh1D.define_measures", "MeshFromVertices.__init__"], bounded="up to 3 intervals (any end points) in up to 3 materials", weight=6)
def borders_tile_the_domain(h):
    """intervals a_i < b_i are accepted exactly when they lie in [0, size], do not overlap and add up to size"""
    F, f = h.F, h.f
    layout = h.choose([[1], [1, 1], [2], [1, 2], [2, 1], [1, 1, 1], [3]], "intervals per material")
    n = sum(layout)
    size = h.real("size", pos=True)
    kind = h.choose(["tiling", "any"], "kind")
    if kind == "tiling":
        cuts = [0]
        for i in range(n - 1):
            c = h.real(f"cut{i}", pos=True)
            if not h.symbolic:
                c = cuts[-1] + (size - cuts[-1]) * 0.4
            h.assume(c > cuts[-1])
            h.assume(c < size)
            cuts.append(c)
        cuts.append(size)
        perms = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [1, 0, 2], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 2, 0]]}[n]
        perm = h.choose(perms, "order")
        iv = [[cuts[i], cuts[i + 1]] for i in perm]
    else:
        iv = []
        for i in range(n):
            a = 0 if h.choose(["zero", "any"], f"start {i}") == "zero" else h.real(f"a{i}")
            b = size if h.choose(["size", "any"], f"end {i}") == "size" else h.real(f"b{i}", pos=True)
            h.assume(a < b)
            iv.append([a, b])
    mats, k = [], 0
    ids = h.ids("v", n)
    for j, m in enumerate(layout):
        own = iv[k:k + m]
        mats.append(material(h, str(j), ids[k] if m == 1 else ids[k:k + m], borders=own[0] if m == 1 else own))
        k += m
    fm = F.MeshFromVertices([0, size / 2, size])
    ok = True
    total = 0
    for i, (a, b) in enumerate(iv):
        total = total + exact(h, b) - exact(h, a)
        if not (bool(a >= 0) and bool(b <= size)):
            ok = False
        for a2, b2 in iv[:i]:
            if not (bool(b <= a2) or bool(b2 <= a)):
                ok = False
    if ok:
        ok = bool(total == exact(h, size))
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0))
    outcome(h, sim, not ok, "borders that do not tile the domain")


@contract("C15", functions=["Trap.make_materials", "Traps.make_traps_materials", "Materials.find_material", "Trap.materials"], bounded="up to 3 entries, 3 materials, 2 traps", weight=4)
def trap_materials_exist_once(h):
    F, f = h.F, h.f
    vols, surfs = h.ids("v", 3), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k]) for k in range(3)]
    n = h.choose([1, 2, 3], "entries")
    opts = ["object 0", "name 0", "object 1", "name 1", "name 2", "unknown"]
    picks = [h.choose(opts if n < 3 else opts[1:], f"entry {i}") for i in range(n)]

    def entry(p):
        if p == "unknown":
            return "elsewhere"
        k = int(p.split()[1])
        return mats[k] if p.startswith("object") else f"mat_{k}"
    entries = [entry(p) for p in picks]
    transient = h.maybe("transient") if n < 3 else True
    traps = [trap(h, entries if n > 1 or h.maybe("as list") else entries[0])]
    if n < 3 and h.maybe("second trap"):
        traps.insert(0, trap(h, mats[1], "u"))
    who = [p.split()[-1] for p in picks]
    bad = "unknown" in who or len(set(who)) < len(who)
    sim = simulation(h, fm, mats, transient=transient, T=h.fun("T", scale=600.0), traps=traps)
    outcome(h, sim, bad, "trap material that is repeated or does not exist")
    if bad:
        # a rejected model stays rejected
        h.raises("rejected again: trap material that is repeated or does not exist", Exception, sim.initialise)
