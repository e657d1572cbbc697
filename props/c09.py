from pyvc.harness import contract
from .common import *
from .c07 import par

COMBOS = {
    "value": [("value", [0], 0)],
    "value-both": [("valuefun", [1, 0], "0")],
    "sieverts": [("sieverts", [1], 0)],
    "sieverts-both": [("sievertsfun", [0, 1], 0)],
    "henry": [("henry", [0], 0)],
    "henry-both": [("henryfun", [1, 0], 0)],
    "implantation": [("imp", [0], 0)],
    "implantation-rec": [("impR", [1], 0)],
    "implantation-rec-dis": [("impD", [0, 1], 0)],
    "custom": [("custom", [0, 1], "solute")],
    "two": [("sieverts", [0], 0), ("valuefun", [1], "solute")],
    "trap": [("value", [1], 1), ("custom", [0], "2")],
    "many": [("sieverts", [3, 0, 2], 0), ("valuefun", [1], 0)],
    "many of each": [("custom", [2, 3, 1, 0], 0)],
    "trap-many": [("value", [0, 1, 3], 3), ("custom", [2], "3"), ("valuefun", [3, 2, 1, 0], "1"), ("henry", [2], 0), ("impR", [0, 3, 1], 0)],
    "trap-both": [("valuefun", [0, 1], "1"), ("value", [0, 1], 2), ("henry", [1], 0)],
}


def dirichlet(h, k, kind, surfaces, field):
    """(condition, component, value as a function of (T, t))"""
    F = h.F
    fun = kind.endswith("fun")
    kd = kind[:-3] if fun else kind
    one = surfaces[0] if len(surfaces) == 1 and k % 2 == 0 else list(surfaces)
    comp = 0 if field in (0, "0", "solute") else int(field)
    if kd == "value":
        v, at = par(h, f"val{k}", fun)
        return F.DirichletBC(surfaces=one, value=v, field=field), comp, (lambda T, t: at(t))
    if kd in ("sieverts", "henry"):
        a, e = h.real(f"A{k}", pos=True), h.real(f"E{k}", scale=0.1)
        P, Pt = par(h, f"P{k}", fun)
        if kd == "sieverts":
            return F.SievertsBC(surfaces=one, S_0=a, E_S=e, pressure=P), comp, (lambda T, t: arr(h, a, e, T) * Pt(t) ** 0.5)
        return F.HenrysBC(surfaces=one, H_0=a, E_H=e, pressure=P), comp, (lambda T, t: arr(h, a, e, T) * Pt(t))
    if kd.startswith("imp"):
        phi, phit = par(h, f"phi{k}", k % 2 == 0)
        Rp, Rpt = par(h, f"Rp{k}", True)
        D0, ED = h.real(f"D0_{k}", pos=True), h.real(f"ED_{k}", scale=0.1)
        kw = {}
        if kd != "imp":
            Kr, EKr = h.real(f"Kr_{k}", pos=True), h.real(f"EKr_{k}", scale=0.1)
            kw.update(Kr_0=Kr, E_Kr=EKr)
        if kd == "impD":
            Kd, EKd = h.real(f"Kd_{k}", pos=True), h.real(f"EKd_{k}", scale=0.1)
            P, Pt = par(h, f"P{k}", True)
            kw.update(Kd_0=Kd, E_Kd=EKd, P=P)

        def val(T, t):
            v = phit(t) * Rpt(t) / arr(h, D0, ED, T)
            if kd == "impR":
                v = v + (phit(t) / arr(h, Kr, EKr, T)) ** 0.5
            if kd == "impD":
                v = v + ((phit(t) + arr(h, Kd, EKd, T) * Pt(t)) / arr(h, Kr, EKr, T)) ** 0.5
            return v
        return F.ImplantationDirichlet(surfaces=one, phi=phi, R_p=Rp, D_0=D0, E_D=ED, **kw), comp, val
    if kd == "custom":
        g = h.callfun(f"g{k}")
        p1 = h.real(f"p1_{k}", pos=True)
        return (F.CustomDirichlet(surfaces=one, function=lambda T, p1, p2, p3: g(T, p1, p2, p3), field=field, p1=p1, p2=h.fun(f"p2_{k}"), p3=h.fun(f"p3_{k}")), comp,
                lambda T, t: g(T, p1, h.funval(f"p2_{k}", t), h.funval(f"p3_{k}", t)))
    raise KeyError(kind)


@contract("C09", functions=["sieverts_law", "henrys_law", "dc_imp", "BoundaryConditionExpression.eval", "DirichletBC.create_expression", "DirichletBC.create_dirichletbc",
                            "SievertsBC.create_expression", "HenrysBC.create_expression", "ImplantationDirichlet.create_expression", "CustomDirichlet.create_expression",
                            "CustomDirichlet.convert_prms", "HTransportProblem.create_dirichlet_bcs", "HTransportProblem.solve_once"],
          bounded="up to 5 conditions on 4 surfaces, 3 traps", weight=4)
def prescribed_values(h, embedded=False):
    constants(h)
    F, f = h.F, h.f
    combo = h.choose(list(COMBOS), "conditions")
    transient = h.maybe("transient")
    many = "many" in combo
    nt = 3 if combo == "trap-many" else 2 if combo.startswith("trap") else h.choose([0, 2], "traps")
    flux = h.maybe("with a source and a flux") if combo in ("value", "trap", "two") else False
    vols, surfs = h.ids("v", 1), h.ids("s", 4 if many else 2)
    fm = h.mesh(vols, surfs, dim=2 if many else 1)
    mats = [material(h, "0", vols[0])]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1),
                    materials=mats[0], density=h.real(f"n_{j}", pos=True)) for j in range(nt)] or None
    conds, want = [], []
    for k, (kind, where, field) in enumerate(COMBOS[combo]):
        bc, comp, val = dirichlet(h, k, kind, [surfs[i] for i in where], field)
        conds.append(bc)
        want += [(comp, i, val) for i in where]
    allc = list(conds)
    if flux and combo == "value":
        allc.insert(0, F.FluxBC(surfaces=[surfs[1]], value=h.real("J"), field=0))
    t0, dt, tf = clock(h)
    sim = simulation(h, fm, mats, transient=transient, bcs=allc, traps=traps, final_time=tf if transient else None,
                     sources=[F.Source(h.real("src"), volume=vols[0], field=0)] if flux else None)
    n = []
    pb = lambda: sim.h_transport_problem

    def hook(solver, problem, vec):
        n.append(1)
        t = t0 + dt if transient else 0
        T = sim.T.T
        infos = [h.bc_info(b) for b in problem.bcs]
        h.prove("as many prescribed values as named surfaces", len(infos) == len(want), f"{len(infos)} instead of {len(want)}")
        for comp, i, val in want:
            mine = [b for b in infos if b[2] == surfs[i] and (b[0] if b[0] is not None else 0) == comp]
            h.prove("imposed once on its field and surface", len(mine) == 1, f"{len(mine)} values on component {comp} surface {i}")
            if len(mine) == 1:
                h.prove("surfaces are those of the mesh", mine[0][3] is fm.surface_markers)
                h.same("prescribed value", mine[0][1], val(T, t), h.at_surf(surfs[i], vols[0]))
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    if embedded:
        rebuild(h, sim, traps=False)
    if transient:
        h.set_const(sim.dt.value, dt)
        sim.t = t0
        sim.timer = f.Timer()
        sim.iterate()
    elif embedded:
        pb().solve_once()
    else:
        sim.run()
    h.prove("solved once", len(n) == 1)


@contract("C09", functions=["HTransportProblem.create_dirichlet_bcs", "DirichletBC.create_dirichletbc", "SievertsBC.create_expression", "HenrysBC.create_expression",
                            "ImplantationDirichlet.create_expression", "CustomDirichlet.create_expression", "update_expressions"], weight=2, loops=True)
def prescribed_in_any_model(h):
    """prescribed_values for conditions and surfaces that are part of a model with any number of others"""
    prescribed_values(h, embedded=True)
