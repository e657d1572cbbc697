from pyvc.harness import contract
from .common import *
from .c07 import conc, flux
from .c09 import dirichlet

BC = {
    "none": [],
    "value": [("value", [0], 0)],
    "value-both": [("valuefun", [0, 1], "solute")],
    "laws": [("sieverts", [0], 0), ("henryfun", [1], "0")],
    "custom+imp": [("custom", [1], 0), ("impR", [0], 0)],
}


def temperature(h, kind):
    F = h.F
    if kind == "number":
        return h.real("T", pos=True, scale=600.0)
    if kind == "space":
        return h.fun("T", t=False, scale=600.0)
    if kind == "time":
        return h.fun("T", scale=600.0)
    return F.HeatTransferProblem(transient=(kind == "heat transient"), initial_condition=h.fun("Tini", t=False, scale=600.0) if kind == "heat transient" else None)


@contract("C10", functions=["Theta.initialise", "Theta.get_concentration_for_a_given_material", "Theta.mobile_concentration", "Theta.previous_mobile_concentration",
                            "Theta.create_form_post_processing", "Theta.post_processing_solution_to_concentration", "BoundaryConditionTheta.eval_cell",
                            "DirichletBC.normalise_by_solubility", "Materials.solubility_as_function", "Materials.create_solubility_law_markers", "ArheniusCoeff.eval_cell",
                            "Materials.create_properties", "HTransportProblem.initialise", "HTransportProblem.initialise_concentrations"],
          bounded="2 or 3 materials with one subdomain each, 1 trap, 2 conditions, 1 surface kinetics, 1 initial value", weight=8)
def same_conversion_everywhere(h):
    constants(h)
    F, f = h.F, h.f
    bcs_ = h.choose(list(BC), "prescribed")
    laws = h.choose([("sievert", "sievert"), ("henry", "henry"), ("sievert", "henry"), ("henry", "sievert", "henry")], "laws")
    Tk = h.choose(["number", "space", "time", "heat stationary", "heat transient"], "temperature")
    transient = True if Tk == "heat transient" else h.maybe("transient")
    ini = h.choose(["none", "number", "function"], "initial value")
    trap = h.maybe("trap") if laws[0] == "sievert" else False
    fl = h.choose(["none", "mass", "custom", "kinetics"], "flux") if bcs_ == "value" and ini == "none" else "none"
    n = len(laws)
    vols, surfs = h.ids("v", n), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], solub=laws[k], heat=Tk.startswith("heat")) for k in range(n)]
    traps = [F.Trap(h.real("k0", pos=True), h.real("Ek", scale=0.1), h.real("p0", pos=True), h.real("Ep", scale=0.1), materials=mats[0], density=h.real("nt", pos=True))] if trap else None
    conds, want = [], []
    for k, (kind, where, field) in enumerate(BC[bcs_]):
        bc, comp, val = dirichlet(h, k, kind, [surfs[i] for i in where], field)
        conds.append(bc)
        want += [(i, val) for i in where]
    fspec = None
    kin = fl == "kinetics"
    mixed = trap or kin
    if kin:
        r = {q: h.real(q, pos=True) for q in ("k_sb", "k_bs", "J_vs", "lambda_IS", "n_surf", "n_IS")}
        conds.append(F.SurfaceKinetics(surfaces=surfs[1], initial_condition=h.real("ini_ads", pos=True), **r))
    elif fl != "none":
        bc, fspec = flux(h, 7, fl, [surfs[1]])
        conds.append(bc)
    ics = []
    if ini == "number":
        c0 = h.real("c_ini", pos=True)
        ics, c0spec = [F.InitialCondition(field=0, value=c0)], c0
    elif ini == "function":
        ics, c0spec = [F.InitialCondition(field="solute", value=h.fun("c_ini", t=False))], h.funval("c_ini")
    t0, dt, tf = clock(h)
    sim = simulation(h, fm, mats, transient=transient, T=temperature(h, "number" if Tk == "space" and fl != "none" and not h.symbolic else Tk), bcs=conds, traps=traps, ics=ics, chemical_pot=True, final_time=tf if transient else None)
    S = {}

    def pb():
        return sim.h_transport_problem

    def comp(u, k):
        return list(f.split(u))[k] if mixed else u

    def hook(solver, problem, vec):
        if h.target_is(vec, sim.T.T):
            h.havoc(sim.T.T, "Tsolved", scale=600.0, uniform=fl != "none")
            return 3, True
        S["solved"] = S.get("solved", 0) + 1
        t = t0 + dt if transient else 0
        T, Tn = sim.T.T, sim.T.T_n
        if Tk == "heat transient":
            h.havoc(T, "Tnow", scale=600.0)
            h.havoc(Tn, "Tbefore", scale=600.0)
        h.havoc(pb().u, "theta")
        h.havoc(pb().u_n, "thetan")
        u, un, v = comp(pb().u, 0), comp(pb().u_n, 0), comp(pb().v, 0)
        form = problem.residual_form
        for k in range(n):
            m = mats[k]
            at = h.at_vol(vols[k])
            c, cn = conc(h, laws[k], m, u, T), conc(h, laws[k], m, un, Tn)
            spec = arr(h, m.D_0, m.E_D, T) * f.dot(f.grad(c), f.grad(v))
            if transient:
                spec = spec + (c - cn) / dt * v
            if trap:
                ct, ctn, vt = comp(pb().u, 1), comp(pb().u_n, 1), comp(pb().v, 1)
                if transient:
                    spec = spec + (ct - ctn) / dt * vt
                if k == 0:
                    X = arr(h, traps[0].k_0, traps[0].E_k, T) * c * (h.num(traps[0].density[0]) - ct) - arr(h, traps[0].p_0, traps[0].E_p, T) * ct
                    spec = spec + X * (v - vt)
                elif not transient:
                    spec = spec + ct * vt
            h.same("balance of the concentration in material %d" % k, h.total(form, "dx", vols[k]), spec, at)
        infos = [h.bc_info(b) for b in problem.bcs]
        h.prove("prescribed values on the named surfaces", len(infos) == len(want))
        for i, val in want:
            k = 0 if i == 0 else n - 1
            at = h.at_surf(surfs[i], vols[k])
            mine = [b for b in infos if b[2] == surfs[i]]
            h.prove("prescribed values on the named surfaces", len(mine) == 1)
            Sm = arr(h, mats[k].S_0, mats[k].E_S, T)
            cc = val(T, t)
            # the Henry root carries the code's machine-epsilon offset
            th = cc / Sm if laws[k] == "sievert" else (cc / Sm + f.DOLFIN_EPS) ** 0.5
            h.same("prescribed concentration as unknown", mine[0][1], th, at)
        if fspec:
            at = h.at_surf(surfs[1], vols[-1])
            c = conc(h, laws[-1], mats[-1], u, T)
            h.same("flux sees the concentration", h.total(form, "ds", surfs[1]), -fspec(T, c, t) * v, at)
        if kin:
            at = h.at_surf(surfs[1], vols[-1])
            c, cn = conc(h, laws[-1], mats[-1], u, T), conc(h, laws[-1], mats[-1], un, Tn)
            q = 2 if trap else 1
            cs, csn, va = comp(pb().u, q), comp(pb().u_n, q), comp(pb().v, q)
            Jbs, Jsb = r["k_bs"] * c * (1 - cs / r["n_surf"]), r["k_sb"] * cs * (1 - c / r["n_IS"])
            spec = -(r["J_vs"] + Jbs - Jsb) * va - (Jsb - Jbs) * v
            if transient:
                spec = spec + (cs - csn) / dt * va + r["lambda_IS"] * (c - cn) / dt * v
            h.same("surface kinetics see the concentration", h.total(form, "ds", surfs[1]), spec, at)
        h.havoc(pb().u, "theta_solved")
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    u0 = list(pb().u_n.split())[0] if mixed else pb().u_n
    specs = []
    for k in range(n):
        Sm = arr(h, mats[k].S_0, mats[k].E_S, sim.T.T_n)
        specs.append((vols[k], 0.0 if ini == "none" else c0spec / Sm if laws[k] == "sievert" else (c0spec / Sm) ** 0.5))
    h.projection_is("initial concentration as unknown", u0, specs)
    if transient:
        h.set_const(sim.dt.value, dt)
        sim.t = t0
        sim.timer = f.Timer()
        sim.iterate()
    else:
        sim.run()
    h.prove("solved once", S.get("solved") == 1)
    # what is exported
    out = sim.label_to_function["solute"]
    h.projection_is("exported concentration", out, [(vols[k], conc(h, laws[k], mats[k], comp(pb().u, 0), sim.T.T)) for k in range(n)])
