from pyvc.harness import contract
from .common import *
from .c04 import exchange


def spellings(nt, mobile=(0, "0", "solute")):
    out = [(s, 0) for s in mobile]
    for i in range(1, nt + 1):
        out += [(i, i), (str(i), i)]
    return out


def model(h, nt, transient=True, **kw):
    """one host material with nt traps and one material without, default trap numbers"""
    F = h.F
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], heat=kw.get("heat", False)) for k in range(2)]
    info = [dict(k0=h.real(f"k0_{j}", pos=True), Ek=h.real(f"Ek_{j}", scale=0.1), p0=h.real(f"p0_{j}", pos=True), Ep=h.real(f"Ep_{j}", scale=0.1), n=h.real(f"n_{j}", pos=True)) for j in range(nt)]
    traps = [F.Trap(q["k0"], q["Ek"], q["p0"], q["Ep"], mats[0], q["n"]) for q in info]
    if nt == 3 and kw.get("extrinsic"):
        traps[1] = extrinsic(h, "E", info[1], mats[0])
        traps[2] = extrinsic(h, "N", info[2], mats[0])
    return fm, vols, surfs, mats, traps, info


def extrinsic(h, kind, q, mat):
    F = h.F
    if kind == "E":
        return F.ExtrinsicTrap(q["k0"], q["Ek"], q["p0"], q["Ep"], mat, phi_0=1, n_amax=h.real("na", pos=True), n_bmax=h.real("nb", pos=True), f_a=0, f_b=0, eta_a=1, eta_b=1)
    return F.NeutronInducedTrap(q["k0"], q["Ek"], q["p0"], q["Ep"], mat, phi=1, K=0, n_max=h.real("nm", pos=True), A_0=1, E_A=0)


def densities(info, traps):
    """the density of a trap that evolves is the one the model computes (C05)"""
    for q, t in zip(info, traps):
        if hasattr(t, "density_previous_solution"):
            q["n"] = t.density[0]


@contract("C14", functions=["Simulation.attribute_source_terms", "Mobile.create_source_form", "Trap.create_source_form", "RadioactiveDecay.form", "ImplantationFlux.__init__"],
          bounded="up to 3 traps, 2 sources, 2 materials", weight=6)
def sources_reach_their_field(h):
    F, f = h.F, h.f
    nt = h.choose([0, 1, 3], "traps")
    transient = h.maybe("transient")
    opts = spellings(nt, (0, "0", "solute", "mobile"))
    kind = h.choose(["two", "decay all", "decay one", "decay all + source", "implantation"], "sources")
    ext = h.maybe("extrinsic traps") if nt == 3 and transient and kind.startswith("decay all") else False
    fm, vols, surfs, mats, traps, info = model(h, nt, extrinsic=ext)
    src = {i: {0: [], 1: []} for i in range(nt + 1)}
    sources = []

    def plain(k, vol):
        sp, i = h.choose(opts, f"field {k}")
        if k == 0 and h.maybe(f"function {k}"):
            sources.append(F.Source(h.fun(f"s{k}"), volume=vols[vol], field=sp))
            src[i][vol].append(lambda c: h.funval(f"s{k}", 0))
        else:
            s = h.real(f"s{k}")
            sources.append(F.Source(s, volume=vols[vol], field=sp))
            src[i][vol].append(lambda c: s)
    if kind == "two":
        plain(0, h.choose([0, 1], "volume 0"))
        plain(1, 0)
    elif kind.startswith("decay all"):
        lam = h.real("lam", pos=True)
        vol = h.choose([0, 1], "decay volume")
        if kind.endswith("source"):
            plain(0, 0)
        sources.append(F.RadioactiveDecay(lam, volume=vols[vol]))
        for i in range(nt + 1):
            src[i][vol].append(lambda c: -lam * c)
    elif kind == "decay one":
        lam = h.real("lam", pos=True)
        sp, i = h.choose(opts, "decay field")
        sources.append(F.RadioactiveDecay(lam, volume=vols[0], field=sp))
        src[i][0].append(lambda c: -lam * c)
        plain(0, 0)
    else:
        fl, dep, wid = h.real("flux", pos=True), h.real("depth", pos=True), h.real("width", pos=True)
        sources.append(F.ImplantationFlux(fl, dep, wid, volume=vols[1]))

        def implanted(c):
            x = f.SpatialCoordinate(fm.mesh)[0]
            return fl / (wid * (2 * 3.141592653589793) ** 0.5) * f.exp(-0.5 * ((x - dep) / wid) ** 2)
        src[0][1].append(implanted)
    sim = simulation(h, fm, mats, transient=transient, T=h.fun("T", scale=600.0), sources=sources, traps=traps or None)
    sim.initialise()
    densities(info, traps)
    pb = free_state(h, sim)
    us, uns, vs = (list(f.split(x)) if nt else [x] for x in (pb.u, pb.u_n, pb.v))
    T = sim.T.T
    dt = h.num(sim.dt.value) if transient else None
    for k in range(2):
        want = dot_grad(h, "cartesian", fm, arr(h, mats[k].D_0, mats[k].E_D, T), us[0], vs[0])
        for i in range(nt + 1):
            eqn = 0 * vs[i]
            if transient:
                eqn = eqn + (us[i] - uns[i]) / dt * vs[i]
            for s in src[i][k]:
                eqn = eqn - s(us[i]) * vs[i]
            if i and k == 0:
                eqn = eqn - exchange(h, info[i - 1], us[0], us[i], T) * (vs[i] - vs[0])
            elif i and not transient:
                eqn = eqn + us[i] * vs[i]
            want = want + eqn
        h.same("sources in material %d" % k, h.total(pb.F, "dx", vols[k]), want, h.at_vol(vols[k]))


@contract("C14", functions=["RadioactiveDecay.form", "Mobile.create_source_form", "Theta.mobile_concentration", "Simulation.attribute_source_terms"], bounded="up to 2 traps, 2 materials")
def decay_uses_the_concentration(h):
    """radioactive decay with the chemical potential as the unknown: the rate is lambda times the concentration"""
    F, f = h.F, h.f
    nt = h.choose([0, 2], "traps")
    laws = h.choose(["sievert", "henry", "mixed"], "laws") if not nt else "sievert"
    fld = h.choose(["all", 0, "0", "solute"] + ([2, "1"] if nt else []), "field")
    vlist = h.maybe("list of volumes") if not nt and fld != "all" else False
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    law = [("henry" if laws == "henry" or (laws == "mixed" and k) else "sievert") for k in range(2)]
    mats = [material(h, str(k), vols[k], solub=law[k]) for k in range(2)]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1), mats[0], h.real(f"n_{j}", pos=True)) for j in range(nt)]
    lam = h.real("lam", pos=True)
    src = F.RadioactiveDecay(lam, volume=list(vols) if vlist else vols[1], field=fld)

    def forms(sources):
        sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0), sources=sources, traps=traps or None, chemical_pot=True)
        sim.initialise()
        return sim, free_state(h, sim)
    sim, pb = forms([src])
    us, vs = (list(f.split(x)) if nt else [x] for x in (pb.u, pb.v))
    tot = [h.total(pb.F, "dx", v) for v in vols]
    T = sim.T.T
    for k in range(2):
        at = h.at_vol(vols[k])
        S = arr(h, mats[k].S_0, mats[k].E_S, T)
        rate = 0 * vs[0]
        if k == 1 or vlist:
            for i in range(nt + 1):
                if fld == "all" or fld in [0, "0", "solute"] and i == 0 or i and fld in (i, str(i)):
                    c = us[i] if i else (us[0] ** 2 * S if law[k] == "henry" else us[0] * S)
                    rate = rate + lam * c * vs[i]
        # what the decay adds: the rest of the equation is that of the same model without it
        Sn = arr(h, mats[k].S_0, mats[k].E_S, sim.T.T_n)
        uns = list(f.split(pb.u_n)) if nt else [pb.u_n]
        c, cn = (us[0] ** 2 * S, uns[0] ** 2 * Sn) if law[k] == "henry" else (us[0] * S, uns[0] * Sn)
        dt = h.num(sim.dt.value)
        base = arr(h, mats[k].D_0, mats[k].E_D, T) * f.dot(f.grad(c), f.grad(vs[0])) + (c - cn) / dt * vs[0]
        for j in range(1, nt + 1):
            base = base + (us[j] - uns[j]) / dt * vs[j]
            if k == 0:
                t_ = traps[j - 1]
                ex = arr(h, t_.k_0, t_.E_k, T) * c * (t_.density[0] - us[j]) - arr(h, t_.p_0, t_.E_p, T) * us[j]
                base = base - ex * (vs[j] - vs[0])
        h.same("decay at lambda times the concentration in material %d" % k, tot[k], base + rate, at)


@contract("C14", functions=["HTransportProblem.attribute_flux_boundary_conditions", "BoundaryCondition.__init__", "Simulation.attribute_boundary_conditions", "Mobile.create_fluxes_form"], bounded="up to 3 traps")
def fluxes_reach_their_field(h):
    """a flux acts on mobile hydrogen when it names it in any spelling, and on no other field otherwise"""
    F, f = h.F, h.f
    nt = h.choose([0, 1, 3], "traps")
    opts = spellings(nt)
    sp, i = h.choose(opts, "field")
    kind = h.choose(["value", "custom"], "kind")
    fm, vols, surfs, mats, traps, info = model(h, nt)
    J = h.real("J")
    bc = F.FluxBC(surfaces=[surfs[0]], value=J, field=sp) if kind == "value" else F.CustomFlux(surfaces=[surfs[0]], function=lambda T, c, p: p, field=sp, p=J)
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0), bcs=[bc], traps=traps or None)
    sim.initialise()
    pb = free_state(h, sim)
    vs = list(f.split(pb.v)) if nt else [pb.v]
    for q, s in enumerate(surfs):
        h.same("flux on the named field only", h.total(pb.F, "ds", s), -J * vs[0] if i == 0 and q == 0 else 0 * vs[0], h.at_surf(s, vols[q]))


@contract("C14", functions=["DirichletBC.create_dirichletbc", "HTransportProblem.create_dirichlet_bcs", "Simulation.attribute_boundary_conditions", "BoundaryCondition.__init__"],
          bounded="up to 3 traps, 2 conditions")
def conditions_reach_their_field(h):
    F, f = h.F, h.f
    nt = h.choose([0, 1, 3], "traps")
    heat = h.maybe("heat")
    fm, vols, surfs, mats, traps, info = model(h, nt, heat=heat, extrinsic=nt == 3 and h.maybe("extrinsic traps"))
    opts = spellings(nt)
    bcs, want = [], []
    for k in range(2):
        sp, i = h.choose(opts, f"field {k}")
        s = surfs[(k + i) % 2] if k == 0 else surfs[1 - (0 + want[0][0]) % 2]
        v = h.real(f"c{k}")
        bcs.append(F.DirichletBC(surfaces=[s], value=v, field=sp))
        want.append((i, v, s))
    if heat:
        T0 = h.real("T0", pos=True)
        bcs.insert(1, F.DirichletBC(surfaces=list(surfs), value=T0, field="T"))
    Tp = F.HeatTransferProblem(transient=False) if heat else h.fun("T", scale=600.0)
    sim = simulation(h, fm, mats, T=Tp, bcs=bcs, traps=traps or None)
    tb = []

    def hook(solver, problem, vec):
        tb.extend(h.bc_info(b) for b in problem.bcs)
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    pb = sim.h_transport_problem
    got = [h.bc_info(b) for b in pb.bcs]
    if h.prove("one prescribed value per condition on hydrogen", len(got) == 2, str(len(got))):
        for i, v, s in want:
            mine = [g for g in got if g[2] == s]
            if not h.prove("on the named surface", len(mine) == 1):
                continue
            comp, val, surf, _ = mine[0]
            h.prove("prescribed on the named field", comp == (i if nt else None), f"{comp} instead of {i}")
            h.same("with the named value", val, v, h.at_surf(s, vols[0] if s is surfs[0] else vols[1]) if h.symbolic else h.at_vol(vols[0]))
    if heat:
        h.prove("temperature conditions stay with the temperature", len(tb) == 2 and all(b[0] is None for b in tb))


@contract("C14", functions=["HTransportProblem.initialise_concentrations", "Concentration.initialise", "Concentration.get_comp"],
          bounded="up to 3 traps, 2 initial conditions")
def initial_values_reach_their_field(h):
    F, f = h.F, h.f
    nt = h.choose([0, 1, 3], "traps")
    fm, vols, surfs, mats, traps, info = model(h, nt, extrinsic=nt == 3 and h.maybe("extrinsic traps"))
    opts = spellings(nt)
    a, i = h.choose(opts, "field 0")
    rest = [o for o in opts if o[1] != i]
    ics = [F.InitialCondition(field=a, value=h.fun("c0", t=False))]
    want = {i: h.funval("c0")}
    if rest and h.maybe("second"):
        b, j = h.choose(rest, "field 1")
        v = h.real("c1")
        ics.append(F.InitialCondition(field=b, value=v))
        want[j] = v
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0), traps=traps or None, ics=ics)
    sim.initialise()
    pb = sim.h_transport_problem
    for k in range(nt + 1):
        u = pb.u_n if not nt else pb.u_n.sub(k)
        for vol in vols:
            h.same("initial value of each field", f.split(pb.u_n)[k] if nt else pb.u_n, want.get(k, 0), h.at_vertex(vol))


@contract("C14", functions=["Simulation.update_post_processing_solutions", "HTransportProblem.update_post_processing_solutions", "Exports.write", "XDMFExport.write", "TXTExport.write", "TrapDensityXDMF.write"],
          bounded="up to 3 traps, with or without surface kinetics", weight=4)
def exports_read_their_field(h):
    F, f = h.F, h.f
    nt = h.choose([0, 1, 3], "traps")
    kin = h.maybe("surface kinetics")
    step = h.choose(["steady", "transient"], "kind")
    kind = h.choose(["xdmf", "txt", "point", "density"] if nt else ["xdmf", "txt", "point"], "export")
    fm, vols, surfs, mats, traps, info = model(h, nt)
    opts = spellings(nt) + [("T", "T"), ("retention", "retention")]
    perm = h.maybe("per-material density") if kind == "density" else False
    if nt == 3 and kind != "density" and h.maybe("extrinsic traps"):
        traps[1] = extrinsic(h, "E", info[1], mats[0])
        traps[2] = extrinsic(h, "N", info[2], mats[0])
    if kind != "density":
        sp, i = h.choose(opts, "field")
    bcs = []
    if kin:
        bcs.append(F.SurfaceKinetics(k_sb=h.real("ksb", pos=True), k_bs=h.real("kbs", pos=True), lambda_IS=h.real("lam", pos=True), n_surf=h.real("nsurf", pos=True),
                                     n_IS=h.real("nIS", pos=True), J_vs=h.real("Jvs"), surfaces=[surfs[1]], initial_condition=0))
    if kind == "xdmf":
        e = F.XDMFExport(field=sp, label="lab", checkpoint=False)
    elif kind == "txt":
        e = F.TXTExport(field=sp, filename="p.txt")
    elif kind == "point":
        px = h.real("px", lo=1.0, hi=2.0)
        q = F.PointValue(field=sp, x=px)
        e = F.DerivedQuantities([q])
    else:
        k = h.choose(list(range(nt)), "trap")
        if perm:
            na, nb = h.real("na", pos=True), h.real("nb", pos=True)
            q = info[k]
            traps[k] = F.Trap([q["k0"]] * 2, [q["Ek"]] * 2, [q["p0"]] * 2, [q["Ep"]] * 2, [mats[1], mats[0]], [na, nb])
        e = F.TrapDensityXDMF(trap=traps[k], label="dens", checkpoint=False)
    sim = simulation(h, fm, mats, transient=step == "transient", T=h.fun("T", scale=600.0), bcs=bcs, traps=traps or None, exports=[e])

    def solve(solver, problem, vec):
        h.havoc(sim.h_transport_problem.u, "u")
        return 3, True
    h.on_newton(solve)
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "before")
    sim.timer = f.Timer()
    h.clear_events()
    if step == "transient":
        sim.iterate()
    else:
        sim.run_steady()
    mixed = bool(nt or kin)
    if kind == "density":
        ev = [x for x in h.events("xdmf.write")]
        if h.prove("density written once", len(ev) == 1):
            ref = {vols[0]: nb, vols[1]: na} if perm else {vols[0]: info[k]["n"], vols[1]: 0}
            h.projection_is("density of the named trap in each of its materials", ev[0][2], ref)
        return
    comps = list(f.split(pb.u)) if mixed else [pb.u]
    if i == "T":
        want = sim.T.T
    elif i == "retention":
        want = comps[0]
        for c in comps[1:nt + 1]:
            want = want + c
    else:
        want = comps[i]
    if kind == "xdmf":
        ev = h.events("xdmf.write")
        if h.prove("written once", len(ev) == 1):
            h.same("XDMF holds the named field", ev[0][2], want, h.at_vol(vols[0]))
            h.same("XDMF holds the named field", ev[0][2], want, h.at_vol(vols[1]))
    elif kind == "txt":
        for v in vols:
            h.same("text export reads the named field", e.function, want, h.at_vol(v))
    else:
        got = q.data[-1]
        if h.symbolic:
            h.eq("point value of the named field", got, want([px]))
        else:
            ux = pb.u(px)
            ux = list(ux) if mixed else [ux]
            h.eq("point value of the named field", got, sim.T.T(px) if i == "T" else (sum(ux[:nt + 1]) if i == "retention" else ux[i]))


@contract("C14", functions=["Simulation.attribute_source_terms", "Traps.get_trap", "Traps.assign_traps_ids", "DirichletBC.create_dirichletbc", "HTransportProblem.initialise_concentrations",
                            "Simulation.update_post_processing_solutions", "HTransportProblem.update_post_processing_solutions", "Exports.write"], bounded="12 fields")
def many_fields(h):
    """field numbers of more than one digit"""
    F, f = h.F, h.f
    nt = 11
    what = h.choose(["sources", "conditions", "initial values", "exports"], "objects")
    fm, vols, surfs, mats, traps, info = model(h, nt)
    named = [(10, 10), ("11", 11), ("1", 1), (2, 2), ("solute", 0)]
    if h.maybe("other spellings"):
        named = [("10", 10), (11, 11), (1, 1), ("2", 2), (0, 0)]
    vals = [h.real(f"val{k}", pos=True) for k in range(len(named))]
    kw, exps = {}, []
    if what == "sources":
        kw["sources"] = [F.Source(v, volume=vols[1], field=sp) for (sp, i), v in zip(named, vals)]
    elif what == "conditions":
        kw["bcs"] = [F.DirichletBC(surfaces=[surfs[k % 2]], value=v, field=sp) for k, ((sp, i), v) in enumerate(zip(named, vals))]
    elif what == "initial values":
        kw["ics"] = [F.InitialCondition(field=sp, value=v) for (sp, i), v in zip(named, vals)]
    else:
        exps = [F.XDMFExport(field=sp, label=f"lab{i}", filename=f"f{i}.xdmf", checkpoint=False) for sp, i in named]
        exps.append(F.XDMFExport(field="retention", label="ret", filename="ret.xdmf", checkpoint=False))
        kw["exports"] = exps
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0), traps=traps, **kw)

    def solve(solver, problem, vec):
        h.havoc(sim.h_transport_problem.u, "u")
        return 3, True
    h.on_newton(solve)
    sim.initialise()
    pb = sim.h_transport_problem
    at = [h.at_vol(v) for v in vols]
    if what == "sources":
        free_state(h, sim)
        us, uns, vs = (list(f.split(x)) for x in (pb.u, pb.u_n, pb.v))
        dt = h.num(sim.dt.value)
        want = dot_grad(h, "cartesian", fm, arr(h, mats[1].D_0, mats[1].E_D, sim.T.T), us[0], vs[0])
        for i in range(nt + 1):
            want = want + (us[i] - uns[i]) / dt * vs[i]
        for (sp, i), v in zip(named, vals):
            want = want - v * vs[i]
        h.same("each source in the equation of its field", h.total(pb.F, "dx", vols[1]), want, at[1])
    elif what == "conditions":
        got = [h.bc_info(b) for b in pb.bcs]
        if h.prove("one prescribed value per condition", len(got) == len(named), str(len(got))):
            for k, ((sp, i), v) in enumerate(zip(named, vals)):
                mine = [g for g in got if g[0] == i]
                if h.prove("prescribed on the named field", len(mine) == 1, f"{[g[0] for g in got]} for {sp}"):
                    h.prove("on the named surface", mine[0][2] == surfs[k % 2])
                    h.same("with the named value", mine[0][1], v, at[0])
    elif what == "initial values":
        for k in range(nt + 1):
            want = next((v for (sp, i), v in zip(named, vals) if i == k), 0)
            h.same("initial value of each field", f.split(pb.u_n)[k], want, h.at_vertex(vols[0]))
    else:
        sim.timer = f.Timer()
        h.clear_events()
        sim.iterate()
        ev = h.events("xdmf.write")
        us = list(f.split(pb.u))
        if h.prove("each field written once", len(ev) == len(exps), str(len(ev))):
            for k, (sp, i) in enumerate(named):
                h.same("XDMF holds the named field", ev[k][2], us[i], at[0])
            want = us[0]
            for c in us[1:]:
                want = want + c
            h.same("retention is the sum of all fields", ev[-1][2], want, at[0])


@contract("C14", functions=["Exports.write", "HTransportProblem.update_post_processing_solutions", "Simulation.update_post_processing_solutions", "AdsorbedHydrogen.compute"], bounded="up to 2 conditions, 2 surfaces, 2 traps")
def adsorbed_hydrogen_of_its_surface(h):
    """the adsorbed amount that is reported is that of the named surface"""
    F, f = h.F, h.f
    nt = h.choose([0, 2], "traps")
    setup = h.choose([[[0]], [[1]], [[0, 1]], [[1, 0]], [[1], [0]], [[0], [1]]], "surfaces of the conditions")
    kind = h.choose(["steady", "transient"], "kind")
    fm, vols, surfs, mats, traps, info = model(h, nt)
    bcs = [F.SurfaceKinetics(k_sb=h.real(f"ksb{k}", pos=True), k_bs=h.real(f"kbs{k}", pos=True), lambda_IS=h.real(f"lam{k}", pos=True), n_surf=h.real(f"nsurf{k}", pos=True),
                             n_IS=h.real(f"nIS{k}", pos=True), J_vs=h.real(f"Jvs{k}"), surfaces=[surfs[i] for i in w], initial_condition=0) for k, w in enumerate(setup)]
    order = [i for w in setup for i in w]
    if nt and h.maybe("other condition first"):
        bcs.insert(0, F.DirichletBC(surfaces=[surfs[0]], value=h.real("c0", pos=True), field=1))
    qs = [F.AdsorbedHydrogen(surface=surfs[i]) for i in sorted(order)]
    sim = simulation(h, fm, mats, transient=kind == "transient", T=h.fun("T", scale=600.0), bcs=bcs, traps=traps or None, exports=[F.DerivedQuantities(qs)])

    def solve(solver, problem, vec):
        h.havoc(sim.h_transport_problem.u, "u")
        return 3, True
    h.on_newton(solve)
    sim.initialise()
    h.havoc(sim.h_transport_problem.u, "before")
    sim.timer = f.Timer()
    if kind == "transient":
        sim.iterate()
    else:
        sim.run_steady()
    us = list(f.split(sim.h_transport_problem.u))
    for q, i in zip(qs, sorted(order)):
        want = us[1 + nt + order.index(i)]
        h.eq("adsorbed hydrogen of the named surface", q.data[-1], f.assemble(want * sim.mesh.ds(surfs[i])))
