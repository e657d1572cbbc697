from pyvc.harness import contract
from .common import *
from .c06 import heat_bcs

COMBOS = {
    # list of (kind, surfaces)
    "value": [("value", [0])],
    "value-both": [("value", [0, 1])],
    "value-function": [("valuefun", [1])],
    "recombination": [("rec", [0])],
    "recombination-both": [("recfun", [1, 0])],
    "dissociation": [("dis", [1])],
    "rec+dis": [("rec", [0, 1]), ("disfun", [0, 1])],
    "mass": [("mass", [1])],
    "mass-both+value": [("massfun", [0, 1]), ("value", [1])],
    "custom": [("custom", [0])],
    "custom-both+mass": [("custom", [0, 1]), ("mass", [0])],
    "same twice": [("value", [0]), ("value", [0])],
    "all": [("valuefun", [0]), ("rec", [1]), ("disfun", [1, 0]), ("massfun", [1]), ("custom", [0])],
}


def par(h, nm, fun, scale=1.0, pos=True):
    """(what the user gives, value at time t)"""
    if fun:
        return h.fun(nm, scale=scale), (lambda t: h.funval(nm, t, scale=scale))
    v = h.real(nm, pos=pos, scale=scale)
    return v, (lambda t: v)


def flux(h, k, kind, surfaces, field=0):
    """(condition, inward flux as a function of (T, c, t))"""
    F = h.F
    fun = kind.endswith("fun")
    kd = kind[:-3] if fun else kind
    one = surfaces[0] if len(surfaces) == 1 and k % 2 == 0 else list(surfaces)
    if kd == "value":
        v, at = par(h, f"J{k}", fun, pos=False)
        return F.FluxBC(surfaces=one, value=v, field=[0, "0", "solute"][k % 3]), (lambda T, c, t: at(t))
    if kd == "rec":
        (k0, k0t), (e, et) = par(h, f"Kr0_{k}", fun), par(h, f"EKr_{k}", fun, scale=0.1)
        o = h.choose([1, 2, 3, "any"], f"order{k}")
        o = h.real(f"order_{k}", pos=True) if o == "any" else o
        return F.RecombinationFlux(Kr_0=k0, E_Kr=e, order=o, surfaces=one), (lambda T, c, t: -arr(h, k0t(t), et(t), T) * c ** o)
    if kd == "dis":
        (k0, k0t), (e, et), (P, Pt) = par(h, f"Kd0_{k}", fun), par(h, f"EKd_{k}", fun, scale=0.1), par(h, f"P_{k}", True)
        return F.DissociationFlux(Kd_0=k0, E_Kd=e, P=P, surfaces=one), (lambda T, c, t: arr(h, k0t(t), et(t), T) * Pt(t))
    if kd == "mass":
        (hc, hct), (ce, cet) = par(h, f"h_{k}", fun), par(h, f"cext_{k}", not fun)
        return F.MassFlux(h_coeff=hc, c_ext=ce, surfaces=one), (lambda T, c, t: -hct(t) * (c - cet(t)))
    if kd == "custom":
        g = h.callfun(f"g{k}")
        p1 = h.real(f"p1_{k}")
        return (F.CustomFlux(surfaces=one, function=lambda T, c, p1, p2, p3: g(T, c, p1, p2, p3), field=[0, "0", "solute"][k % 3], p3=h.fun(f"p3_{k}"), p1=p1, p2=h.fun(f"p2_{k}")),
                lambda T, c, t: g(T, c, p1, h.funval(f"p2_{k}", t), h.funval(f"p3_{k}", t)))
    raise KeyError(kind)


def conc(h, law, m, u, T):
    """hydrogen concentration from the unknown"""
    if law is None:
        return u
    S = arr(h, m.S_0, m.E_S, T)
    return S * u if law == "sievert" else S * u ** 2


@contract("C07", functions=["FluxBC.create_form", "RecombinationFlux.create_form", "DissociationFlux.create_form", "MassFlux.create_form", "CustomFlux.create_form",
                            "CustomFlux.convert_prms", "Mobile.create_fluxes_form", "HTransportProblem.attribute_flux_boundary_conditions",
                            "Theta.mobile_concentration", "Simulation.attribute_boundary_conditions", "BoundaryCondition.__init__"],
          bounded="up to 5 conditions on 2 surfaces (up to 4 surfaces: flux_many_surfaces), 2 materials", weight=8)
def flux_laws(h, embedded=False):
    constants(h)
    F, f = h.F, h.f
    combo = h.choose(list(COMBOS), "conditions")
    law = h.choose([None, "sievert", "henry", "mixed"], "chemical potential") if not embedded else None
    traps = h.choose([0, 2], "traps") if combo in ("rec+dis", "all", "value") and law != "henry" else 0  # traps in Henry materials are not implemented
    transient = h.maybe("transient")
    heat = h.maybe("heat flux too") if combo in ("all", "value") and not law and not embedded else False
    nm = 2
    vols, surfs = h.ids("v", nm), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    laws = {None: [None, None], "sievert": ["sievert"] * 2, "henry": ["henry"] * 2, "mixed": ["sievert", "henry"]}[law]
    mats = [material(h, str(k), vols[k], solub=laws[k], heat=heat) for k in range(nm)]
    conds, spec = [], {0: [], 1: []}
    for k, (kind, where) in enumerate(COMBOS[combo]):
        bc, fl = flux(h, k, kind, [surfs[i] for i in where])
        conds.append(bc)
        for i in where:
            spec[i].append(fl)
    hspec = {0: [], 1: []}
    if heat:
        hb, hf, _ = heat_bcs(h, "convective+flux", surfs, None)
        conds = hb[:1] + conds + hb[1:]
        hspec = hf
    tr = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1),
                 materials=mats[0], density=h.real(f"n_{j}", pos=True)) for j in range(traps)] or None
    t0, dt, tf = clock(h)
    T = F.HeatTransferProblem(transient=False) if heat else h.fun("T", scale=600.0)
    sim = simulation(h, fm, mats, transient=transient, T=T, bcs=conds, traps=tr, chemical_pot=bool(law), final_time=tf if transient else None)
    seen = []

    def check(form, t):
        u = list(f.split(pb().u))[0] if traps else pb().u
        v = list(f.split(pb().v))[0] if traps else pb().v
        for i, s in enumerate(surfs):
            at = h.at_surf(s, vols[0] if i == 0 else vols[-1])
            c = conc(h, laws[0 if i == 0 else -1], mats[0 if i == 0 else -1], u, sim.T.T)
            want = 0 * v
            for fl in spec[i]:
                want = want - fl(sim.T.T, c, t) * v
            h.same("flux conditions on surface %d" % i, h.total(form, "ds", s), want, at)
        other = h.ids("other", 1)[0]
        if h.symbolic:
            for s in surfs:
                h.assume(other != s)
            h.same("no flux elsewhere", h.total(form, "ds", other), 0, h.at_surf(other, vols[0]))

    def pb():
        return sim.h_transport_problem

    def hook(solver, problem, vec):
        if heat and h.target_is(vec, sim.T.T):
            seen.append("T")
            h.havoc(sim.T.T, "T", scale=600.0)
            v_T = f.TestFunction(sim.T.T.function_space())
            for i, s in enumerate(surfs):
                want = 0 * v_T
                for fl in hspec[i]:
                    want = want - fl(sim.T.T, 0) * v_T
                h.same("heat fluxes on surface %d" % i, h.total(problem.residual_form, "ds", s), want, h.at_surf(s, vols[0] if i == 0 else vols[-1]))
            return 3, True
        seen.append("H")
        h.havoc(pb().u, "u")
        check(problem.residual_form, t0 + dt if transient else 0)
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    if embedded:
        rebuild(h, sim, traps=False)
    if not transient:
        h.havoc(pb().u, "u")
        check(pb().F, 0)
        return
    h.havoc(pb().u, "u")
    h.havoc(pb().u_n, "un")
    h.set_const(sim.dt.value, dt)
    sim.t = t0
    sim.timer = f.Timer()
    sim.iterate()
    h.prove("the hydrogen problem was solved", seen[-1] == "H" and seen.count("H") == 1, str(seen))


@contract("C07", functions=["Mobile.create_fluxes_form", "HTransportProblem.attribute_flux_boundary_conditions"], bounded="4 surfaces, 2 conditions")
def flux_many_surfaces(h):
    """conditions on any subset of four surfaces"""
    F, f = h.F, h.f
    kinds = h.choose([("value", "mass"), ("recfun", "value"), ("custom", "disfun")], "kinds")
    sub = [tuple(i for i in range(4) if (b >> i) & 1) for b in range(1, 16)]
    a = h.choose(sub, "surfaces of the first")
    b = h.choose([(3,), (0, 2), (1, 3, 0), (2, 1, 0, 3)], "surfaces of the second")
    vols, surfs = h.ids("v", 1), h.ids("s", 4)
    fm = h.mesh(vols, surfs, dim=2)
    mats = [material(h, "0", vols[0])]
    conds, spec = [], {i: [] for i in range(4)}
    for k, (kind, where) in enumerate(zip(kinds, (a, b))):
        bc, fl = flux(h, k, kind, [surfs[i] for i in where])
        conds.append(bc)
        for i in where:
            spec[i].append(fl)
    sim = simulation(h, fm, mats, transient=False, T=h.real("T", pos=True, scale=600.0), bcs=conds)
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    for i, s in enumerate(surfs):
        want = 0 * pb.v
        for fl in spec[i]:
            want = want - fl(sim.T.T, pb.u, 0) * pb.v
        h.same("flux conditions on each of four surfaces", h.total(pb.F, "ds", s), want, h.at_surf(s, vols[0]))


@contract("C07", functions=["ConvectiveFlux.create_form", "HeatTransferProblem.define_variational_problem"], bounded="2 conditions")
def heat_fluxes(h):
    """fluxes of heat enter the heat equation with their law, and not the hydrogen equation"""
    F, f = h.F, h.f
    bcc = h.choose(["none", "flux", "flux-both", "convective+flux", "custom", "many"], "bcs")
    coord = h.choose(["cartesian", "cylindrical"] + (["spherical"] if bcc != "many" else []), "coord")
    transient = h.maybe("transient")
    vols, surfs = h.ids("v", 1), h.ids("s", 4 if bcc == "many" else 2)
    fm = h.mesh(vols, surfs, coord, dim=2 if bcc == "many" else 1)
    mats = [material(h, "0", vols[0], heat=True)]
    bcs, spec, _ = heat_bcs(h, bcc, surfs, None)
    Tp = F.HeatTransferProblem(transient=transient, initial_condition=500.0 if transient else None)
    t0, dt, tf = clock(h)
    sim = simulation(h, fm, mats, transient=transient, T=Tp, bcs=bcs, final_time=tf if transient else None)
    n = []

    def hook(solver, problem, vec):
        if h.target_is(vec, Tp.T):
            n.append("T")
            h.havoc(Tp.T, "T", scale=600.0)
            v_T = f.TestFunction(Tp.T.function_space())
            for i, s in enumerate(surfs):
                want = 0 * v_T
                for fl in spec[i]:
                    want = want - fl(Tp.T, t0 + dt if transient else 0) * v_T
                h.same("heat fluxes on surface %d" % i, h.total(problem.residual_form, "ds", s), want, h.at_surf(s, vols[0]))
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    pb = sim.h_transport_problem
    for i, s in enumerate(surfs):
        h.same("no heat flux in the hydrogen equation", h.total(pb.F, "ds", s), 0, h.at_surf(s, vols[0]))
    if transient:
        h.set_const(sim.dt.value, dt)
        sim.t = t0
        sim.timer = f.Timer()
        sim.iterate()
    h.prove("the heat problem was solved", n == ["T"])


@contract("C07", functions=["Mobile.create_fluxes_form", "HTransportProblem.attribute_flux_boundary_conditions", "FluxBC.create_form", "RecombinationFlux.create_form",
                            "DissociationFlux.create_form", "MassFlux.create_form", "CustomFlux.create_form", "HTransportProblem.define_variational_problem",
                            "update_expressions"], weight=2, loops=True)
def fluxes_in_any_model(h):
    """flux_laws for conditions and surfaces that are part of a model with any number of others"""
    flux_laws(h, embedded=True)
