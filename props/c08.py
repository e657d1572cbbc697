from pyvc.harness import contract
from .common import *
from .c07 import conc

SETUPS = {
    # (surfaces of each condition, constant or callable rates)
    "one-const": [([0], "const")],
    "one-call": [([1], "call")],
    "one-both": [([0, 1], "call")],
    "one-both-rev": [([1, 0], "const")],
    "two": [([1], "call"), ([0], "const")],
    "two-call": [([0], "call"), ([1], "call")],
}


@contract("C08", functions=["SurfaceKinetics.__init__", "SurfaceKinetics.create_form", "SurfaceKinetics.convert_prms", "HTransportProblem.define_function_space",
                            "HTransportProblem.initialise_concentrations", "HTransportProblem.update_post_processing_solutions", "Mobile.create_fluxes_form",
                            "Simulation.update_post_processing_solutions"],
          bounded="up to 2 conditions and 2 surfaces (one dimension has two ends), 2 traps", weight=6)
def surface_kinetics(h):
    constants(h)
    F, f = h.F, h.f
    setup = h.choose(list(SETUPS), "conditions")
    law = h.choose([None, "sievert", "henry"], "chemical potential")
    nt = h.choose([0, 1, 2], "traps") if law != "henry" else 0  # traps in Henry materials are not implemented
    transient = h.maybe("transient")
    mixed = h.maybe("with a flux condition")
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], solub=law) for k in range(2)]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1),
                    materials=mats[j % 2], density=h.real(f"n_{j}", pos=True)) for j in range(nt)]
    conds, info = [], []
    for k, (where, kind) in enumerate(SETUPS[setup]):
        lam, ns, ni, ic = (h.real(f"{q}_{k}", pos=True) for q in ("lambda", "nsurf", "nIS", "ini"))
        if kind == "const":
            r = {q: h.real(f"{q}_{k}", pos=True) for q in ("ksb", "kbs", "Jvs")}
            args = dict(k_sb=r["ksb"], k_bs=r["kbs"], J_vs=r["Jvs"])
            val = {q: (lambda T, cs, c, t, q=q, r=r: r[q]) for q in r}
        else:
            g = {q: h.callfun(f"{q}_{k}") for q in ("ksb", "kbs", "Jvs")}
            p1 = h.real(f"p1_{k}", pos=True)

            def mkc(q, g=g):
                return lambda T, cs, c, p1, p2: g[q](T, cs, c, p1, p2)
            args = dict(k_sb=mkc("ksb"), k_bs=mkc("kbs"), J_vs=mkc("Jvs"), p1=p1, p2=h.fun(f"p2_{k}"))
            val = {q: (lambda T, cs, c, t, q=q, g=g, p1=p1, k=k: g[q](T, cs, c, p1, h.funval(f"p2_{k}", t))) for q in g}
        bc = F.SurfaceKinetics(lambda_IS=lam, n_surf=ns, n_IS=ni, initial_condition=ic,
                               surfaces=surfs[where[0]] if len(where) == 1 else [surfs[i] for i in where], **args)
        conds.append(bc)
        for q, i in enumerate(where):
            info.append(dict(bc=bc, q=q, surf=i, lam=lam, ns=ns, ni=ni, ic=ic, val=val))
    J = h.real("J")
    free = [i for i in (0, 1) if i not in [d["surf"] for d in info]]
    if mixed and not free:
        h.stop()
    allc = list(conds)
    if mixed:
        allc = [F.FluxBC(surfaces=surfs[free[0]], value=J, field=0)] + allc
    t0, dt, tf = clock(h)
    T = h.fun("T", scale=600.0)
    sim = simulation(h, fm, mats, transient=transient, T=T, bcs=allc, traps=traps or None, chemical_pot=bool(law), final_time=tf if transient else None)
    sim.initialise()
    pb = sim.h_transport_problem
    nsub = pb.V.num_sub_spaces()
    h.prove("one adsorbed unknown per surface", nsub == 1 + nt + len(info), str(nsub))
    un0 = list(pb.u_n.split())
    for j, d in enumerate(info):
        h.const_content(un0[1 + nt + j], d["ic"], "adsorbed concentration starts from its initial value", h.at_vol(vols[0]))

    def check(form, t):
        us, uns, vs = list(f.split(pb.u)), list(f.split(pb.u_n)), list(f.split(pb.v))
        for i, s in enumerate(surfs):
            mi = 0 if i == 0 else 1
            at = h.at_surf(s, vols[mi])
            c = conc(h, law, mats[mi], us[0], sim.T.T)
            cn = conc(h, law, mats[mi], uns[0], sim.T.T_n)
            want = 0 * vs[0]
            if mixed and i == free[0]:
                want = want - J * vs[0]
            for j, d in enumerate(info):
                if d["surf"] != i:
                    continue
                cs, csn, v = us[1 + nt + j], uns[1 + nt + j], vs[1 + nt + j]
                R = {q: d["val"][q](sim.T.T, cs, c, t) for q in ("ksb", "kbs", "Jvs")}
                Jbs = R["kbs"] * c * (1 - cs / d["ns"])
                Jsb = R["ksb"] * cs * (1 - c / d["ni"])
                want = want - (R["Jvs"] + Jbs - Jsb) * v - (Jsb - Jbs) * vs[0]
                if transient:
                    want = want + (cs - csn) / dt * v + d["lam"] * (c - cn) / dt * vs[0]
            h.same("surface equations on surface %d" % i, h.total(form, "ds", s), want, at)
        for k in (0, 1):
            at = h.at_vol(vols[k])
            tot = h.total(form, "dx", vols[k])
            # nothing of the adsorbed unknowns in the bulk
            c = conc(h, law, mats[k], us[0], sim.T.T)
            cn = conc(h, law, mats[k], uns[0], sim.T.T_n)
            want = arr(h, mats[k].D_0, mats[k].E_D, sim.T.T) * f.dot(f.grad(c), f.grad(vs[0]))
            if transient:
                want = want + (c - cn) / dt * vs[0]
            for j, tr in enumerate(traps):
                if transient:
                    want = want + (us[1 + j] - uns[1 + j]) / dt * vs[1 + j]
                if j % 2 == k:
                    X = arr(h, tr.k_0, tr.E_k, sim.T.T) * c * (h.num(tr.density[0]) - us[1 + j]) - arr(h, tr.p_0, tr.E_p, sim.T.T) * us[1 + j]
                    want = want + X * (vs[0] - vs[1 + j])
                elif not transient:
                    want = want + us[1 + j] * vs[1 + j]
            h.same("bulk equations in material %d" % k, tot, want, at)
    if not transient:
        free_state(h, sim)
        check(pb.F, 0)
        return
    free_state(h, sim, dt)
    sim.t = t0
    sim.timer = f.Timer()
    n = []

    def hook(solver, problem, vec):
        n.append(1)
        h.havoc(sim.T.T, "Tnow", scale=600.0)
        h.havoc(sim.T.T_n, "Tbefore", scale=600.0)
        check(problem.residual_form, t0 + dt)
        h.havoc(pb.u, "solved")
        return 3, True
    h.on_newton(hook)
    sim.iterate()
    h.prove("solved once", len(n) == 1)
    # what is exported as adsorbed hydrogen of each surface
    us = list(pb.u.split())
    tab = sim.label_to_function["adsorbed"]
    for j, d in enumerate(info):
        rows = [r for r in tab if surfs[d["surf"]] in r["surfaces"]]
        h.prove("one entry per surface", len(rows) == 1)
        got = rows[0]["post_processing_solutions"][rows[0]["surfaces"].index(surfs[d["surf"]])]
        h.same_content("adsorbed hydrogen exported for its surface", got, us[1 + nt + j])
