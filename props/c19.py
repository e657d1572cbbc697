from pyvc.harness import contract
from .common import *
from .c05 import EXT, NEU


LIN = [("mumps", "default"), ("gmres", "icc"), (None, "icc")]


def tolerances(h, tag):
    """arbitrary requested settings"""
    lin, pre = h.choose(LIN, f"linear solver {tag}")
    kw = dict(absolute_tolerance=h.real(f"atol_{tag}", pos=True), relative_tolerance=h.real(f"rtol_{tag}", pos=True, scale=1e-3),
              maximum_iterations=h.int(f"maxit_{tag}", lo=1), linear_solver=lin, preconditioner=pre)
    return kw


def settings_are(h, name, solver, kw):
    p = solver.parameters
    for q in ("absolute_tolerance", "relative_tolerance", "maximum_iterations"):
        h.eq(f"{q} of the {name} solver", p[q], kw[q])
    for q in ("linear_solver", "preconditioner"):
        if kw[q] is not None:
            h.prove(f"{q} of the {name} solver", p[q] == kw[q], f"{p[q]} instead of {kw[q]}")


@contract("C19", functions=["HTransportProblem.define_newton_solver", "HTransportProblem.solve_once", "HTransportProblem.compute_jacobian", "HeatTransferProblem.define_newton_solver", "HeatTransferProblem.update",
                            "HeatTransferProblem.create_functions", "ExtrinsicTrapBase.__init__", "ExtrinsicTrapBase.define_newton_solver", "Traps.define_newton_solver_extrinsic_traps", "Traps.solve_extrinsic_traps",
                            "Problem.__init__", "Problem.F", "Problem.J", "Settings.__init__"],
          bounded="2 materials, up to 2 extrinsic traps, 2 steps", weight=8)
def solvers_and_problems(h):
    """every Newton solve: settings, whole residual, all prescribed values, Jacobian"""
    F, f = h.F, h.f
    transient = h.maybe("transient")
    heat = h.choose([None, "transient", "stationary"] if transient else [None, "stationary"], "heat")
    extra = h.choose(["none", "extrinsic", "neutron+extrinsic"], "induced traps") if transient else "none"
    kin = h.maybe("surface kinetics")
    upd = h.maybe("update jacobian")
    retry = h.maybe("first attempt fails") if transient else False
    replaced = h.maybe("solver replaced by the user") if h.symbolic and not retry else False
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], heat=True) for k in range(2)]
    want, trapargs = {}, []
    want["H"] = tolerances(h, "H")
    if heat:
        want["T"] = dict(absolute_tolerance=h.real("atol_T", pos=True), relative_tolerance=h.real("rtol_T", pos=True, scale=1e-3), maximum_iterations=h.int("maxit_T", lo=1), linear_solver="mumps", preconditioner="default")
    kinds = {"none": [], "extrinsic": ["E"], "neutron+extrinsic": ["N", "E"]}[extra]
    ex = []
    for j, kd in enumerate(kinds):
        names, cls = (EXT, F.ExtrinsicTrap) if kd == "E" else (NEU, F.NeutronInducedTrap)
        want[j] = dict(absolute_tolerance=h.real(f"atol_{j}", pos=True), relative_tolerance=h.real(f"rtol_{j}", pos=True, scale=1e-3), maximum_iterations=h.int(f"maxit_{j}", lo=1), linear_solver="gmres", preconditioner="icc")
        ex.append(cls(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1), materials=mats[0],
                      **{nm: h.real(f"{nm}{j}", pos=True, scale=0.05 if nm == "E_A" else 1.0) for nm in names}, **want[j]))
    k0, Ek, p0, Ep, n = h.real("k0", pos=True), h.real("Ek", scale=0.1), h.real("p0", pos=True), h.real("Ep", scale=0.1), h.real("n", pos=True)
    tr = F.Trap(k0, Ek, p0, Ep, materials=mats[1], density=n)
    bcs = [F.FluxBC(surfaces=surfs[0], value=h.real("J"), field=0)] if not kin else []
    bcs.append(F.DirichletBC(surfaces=surfs[1], value=h.real("c1"), field=0))
    bcs.append(F.DirichletBC(surfaces=[surfs[0], surfs[1]], value=h.real("ct"), field=len(ex) + 1))
    if kin:
        r = {q: h.real(q, pos=True) for q in ("k_sb", "k_bs", "J_vs", "lambda_IS", "n_surf", "n_IS")}
        bcs.append(F.SurfaceKinetics(surfaces=surfs[0], initial_condition=h.real("ini", pos=True), **r))
    if heat:
        bcs += [F.DirichletBC(surfaces=surfs[0], value=h.real("T0", scale=500.0), field="T"), F.ConvectiveFlux(h_coeff=h.real("hc", pos=True), T_ext=h.real("Te", scale=400.0), surfaces=surfs[1])]
        T = F.HeatTransferProblem(transient=heat == "transient", initial_condition=h.real("Tini", scale=500.0) if heat == "transient" else None, **want["T"])
    else:
        T = h.fun("T", t=False, scale=600.0)
    s0 = h.real("s0")
    src = [F.Source(s0, volume=vols[0], field=0)]
    dt = h.real("dt0", pos=True)
    dts = None if not transient else F.Stepsize(dt, stepsize_change_ratio=2.0, dt_min=dt / 100)
    sim = simulation(h, fm, mats, transient=transient, T=T, bcs=bcs, sources=src, traps=ex + [tr], final_time=(10 if retry else 2) * dt if transient else None, dt=dts, update_jacobian=upd, **want["H"])
    count = {"H": 0, "T": 0, "ext": 0}
    mine = {}
    ats = [(h.at_vol(vols[i]), "dx", vols[i]) for i in (0, 1)] + [(h.at_surf(surfs[i], vols[i]), "ds", surfs[i]) for i in (0, 1)]
    pb = lambda: sim.h_transport_problem

    def hydrogen(problem):
        h.havoc(pb().u, "u")
        h.havoc(pb().u_n, "un")
        us, uns, vs, T = list(f.split(pb().u)), list(f.split(pb().u_n)), list(f.split(pb().v)), sim.T.T
        d = h.num(sim.dt.value) if transient else None
        m = len(ex) + 1
        for i in (0, 1):
            spec = arr(h, mats[i].D_0, mats[i].E_D, T) * f.dot(f.grad(us[0]), f.grad(vs[0]))
            if transient:
                for q in range(m + 1):
                    spec = spec + (us[q] - uns[q]) / d * vs[q]
            elif i == 0:
                spec = spec + us[m] * vs[m]
            if i == 0:
                spec = spec - s0 * vs[0]
                for j, e in enumerate(ex):
                    spec = spec + (arr(h, e.k_0, e.E_k, T) * us[0] * (e.density[0] - us[j + 1]) - arr(h, e.p_0, e.E_p, T) * us[j + 1]) * (vs[0] - vs[j + 1])
            else:
                spec = spec + (arr(h, k0, Ek, T) * us[0] * (n - us[m]) - arr(h, p0, Ep, T) * us[m]) * (vs[0] - vs[m])
            h.same("the whole residual in each volume", h.total(problem.residual_form, "dx", vols[i]), spec, ats[i][0])
        if kin:
            c, cs, vc, va = us[0], us[m + 1], vs[0], vs[m + 1]
            Jbs, Jsb = r["k_bs"] * c * (1 - cs / r["n_surf"]), r["k_sb"] * cs * (1 - c / r["n_IS"])
            spec = -(r["J_vs"] + Jbs - Jsb) * va - (Jsb - Jbs) * vc
            if transient:
                spec = spec + (cs - uns[m + 1]) / d * va + r["lambda_IS"] * (c - uns[0]) / d * vc
        else:
            spec = -bcs[0].value * vs[0]
        h.same("the whole residual on the surfaces", h.total(problem.residual_form, "ds", surfs[0]), spec, ats[2][0])
        h.same("the whole residual on the surfaces", h.total(problem.residual_form, "ds", surfs[1]), 0, ats[3][0])
        for b in (problem.bcs, problem.jacobian_bcs):
            got = sorted((x[0] or 0, 0 if x[2] == surfs[0] else 1) for x in (h.bc_info(y) for y in b))
            h.prove("all prescribed values, in residual and Jacobian", got == [(0, 1), (m, 0), (m, 1)], str(got))

    def hook(solver, problem, vec):
        if h.target_is(vec, sim.T.T):
            count["T"] += 1
            settings_are(h, "heat", solver, want["T"])
            h.havoc(sim.T.T, "Tguess", scale=500.0)
            h.jacobian_is("Jacobian of the heat problem", problem, sim.T.T, ats)
            for b in (problem.bcs, problem.jacobian_bcs):
                h.prove("prescribed temperatures, in residual and Jacobian", [h.bc_info(x)[2] == surfs[0] for x in b] == [True])
            h.havoc(sim.T.T, f"T{count['T']}", scale=500.0)
            return 3, True
        for j, e in enumerate(ex):
            if h.target_is(vec, e.density[0]):
                count["ext"] += 1
                settings_are(h, "trap density", solver, want[j])
                h.havoc(e.density[0], "dguess")
                h.jacobian_is("Jacobian of the density problem", problem, e.density[0], ats)
                h.prove("no prescribed densities", len(problem.bcs) == 0 and len(problem.jacobian_bcs) == 0)
                h.havoc(e.density[0], f"d{j}_{count['ext']}")
                return 2, True
        h.prove("the unknown is solved for", h.target_is(vec, pb().u))
        count["H"] += 1
        if replaced:
            h.prove("the solver the user put in is used", solver is mine["s"])
        else:
            settings_are(h, "hydrogen", solver, want["H"])
            h.prove("a diverging step is reported, not raised", not solver.parameters["error_on_nonconvergence"])
        hydrogen(problem)
        h.jacobian_is("Jacobian of the hydrogen problem", problem, pb().u, ats)
        h.havoc(pb().u, f"solved{count['H']}")
        return 3, not (retry and count["H"] == 1)
    h.on_newton(hook)
    sim.initialise()
    if replaced:
        mine["s"] = f.NewtonSolver(f.MPI.comm_world)
        sim.h_transport_problem.newton_solver = mine["s"]
    if heat == "stationary":
        h.prove("stationary heat problem solved once, first", count == {"H": 0, "T": 1, "ext": 0}, str(count))
    sim.timer = f.Timer()
    if retry:
        if not upd:
            sim.h_transport_problem.compute_jacobian()
        for _ in range(2):
            sim.iterate()
    else:
        sim.run()
    h.prove("hydrogen solved at every step", count["H"] == (1 if not transient else (3 if retry else 2)), str(count))
    h.prove("heat solved at every step", count["T"] == {None: 0, "stationary": 1, "transient": 2}[heat], str(count))
    h.prove("densities solved at every step", count["ext"] == 2 * len(ex), str(count))


@contract("C19", functions=["HTransportProblem.create_dirichlet_bcs", "HTransportProblem.solve_once", "HeatTransferProblem.create_dirichlet_bcs", "Problem.F", "Problem.J"],
          bounded="4 surfaces, up to 5 conditions")
def all_prescribed_values(h):
    """every prescribed value on every surface is imposed in residual and Jacobian of its problem"""
    F, f = h.F, h.f
    transient = h.maybe("transient")
    heat = h.maybe("heat")
    nt = h.choose([0, 2], "traps")
    mob = h.choose([(0, 1, 2, 3), (2, 0, 3), (1,)], "surfaces of the mobile field")
    vols, surfs = h.ids("v", 1), h.ids("s", 4)
    fm = h.mesh(vols, surfs, dim=2)
    mats = [material(h, "0", vols[0], heat=True)]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1), materials=mats[0], density=h.real(f"n_{j}", pos=True)) for j in range(nt)]
    bcs = [F.DirichletBC(surfaces=[surfs[i] for i in mob], value=h.real("c0"), field=0)]
    want = [(0, i) for i in mob]
    for i in range(4):
        if i not in mob:
            bcs.append(F.DirichletBC(surfaces=surfs[i], value=h.real(f"d{i}"), field=0))
            want.append((0, i))
    if nt:
        bcs.append(F.DirichletBC(surfaces=[surfs[3], surfs[1], surfs[0]], value=h.real("c2"), field=2))
        want += [(2, 3), (2, 1), (2, 0)]
    T = h.real("T", pos=True, scale=600.0)
    if heat:
        T = F.HeatTransferProblem(transient=transient, initial_condition=h.real("Tini", scale=500.0) if transient else None)
        bcs.append(F.DirichletBC(surfaces=[surfs[2], surfs[3], surfs[1]], value=h.real("Td", scale=500.0), field="T"))
    dt = h.real("dt0", pos=True)
    sim = simulation(h, fm, mats, transient=transient, T=T, bcs=bcs, traps=traps or None, final_time=dt if transient else None, dt=F.Stepsize(dt) if transient else None)
    n = []

    def hook(solver, problem, vec):
        isT = h.target_is(vec, sim.T.T)
        n.append("T" if isT else "H")
        for b in (problem.bcs, problem.jacobian_bcs):
            got = sorted((x[0] or 0, [k for k in range(4) if x[2] == surfs[k]][0]) for x in (h.bc_info(y) for y in b))
            h.prove("every prescribed value, in residual and Jacobian", got == ([(0, 1), (0, 2), (0, 3)] if isT else sorted(want)), f"{n[-1]}: {got}")
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    sim.run()
    h.prove("each problem solved once", sorted(n) == (["H", "T"] if heat else ["H"]), str(n))


@contract("C19", functions=["HTransportProblem.update", "HTransportProblem.update_previous_solutions", "HTransportProblem.update_post_processing_solutions", "Simulation.iterate", "Simulation.run_post_processing", "Simulation.run_steady"],
          bounded="up to 2 traps, 3 steps from an arbitrary state", weight=2)
def state_is_handed_on(h):
    F, f = h.F, h.f
    nt = h.choose([0, 1, 2], "traps")
    kin = h.maybe("surface kinetics")
    elem = h.choose(["CG", "DG"], "trap element") if nt else "CG"
    fails = h.choose([0, 1, 2], "failed attempts in the second step")
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k]) for k in range(2)]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1), materials=mats[j], density=h.real(f"n_{j}", pos=True)) for j in range(nt)]
    bcs = []
    if kin:
        bcs.append(F.SurfaceKinetics(k_sb=h.real("ksb", pos=True), k_bs=h.real("kbs", pos=True), lambda_IS=h.real("lam", pos=True), n_surf=h.real("nsurf", pos=True),
                                     n_IS=h.real("nIS", pos=True), J_vs=h.real("Jvs"), surfaces=[surfs[0], surfs[1]], initial_condition=h.real("ini", pos=True)))
    xs = [F.XDMFExport(field=k if k else "solute", label=f"x{k}", filename=f"x{k}.xdmf", checkpoint=False) for k in range(nt + 1)]
    qs = [F.TotalVolume(field=k if k else "solute", volume=vols[1]) for k in range(nt + 1)]
    dt = h.real("dt0", pos=True)
    dts = F.Stepsize(dt, stepsize_change_ratio=2.0, dt_min=dt / 1000)
    sim = simulation(h, fm, mats, bcs=bcs, traps=traps or None, exports=xs + [F.DerivedQuantities(qs)], dt=dts, final_time=100 * dt, traps_element_type=elem)
    pb = lambda: sim.h_transport_problem
    st = {"step": 0, "try": 0}

    def hook(solver, problem, vec):
        h.same_content("the previous state during a solve is the state computed last", pb().u_n, st["last"])
        h.same_content("every attempt starts from the state computed last", pb().u, st["start"])
        st["try"] += 1
        bad = st["step"] == 1 and st["try"] <= fails
        h.havoc(pb().u, f"u{st['step']}_{st['try']}")
        if not bad:
            st["new"] = h.content(pb().u)
        return 3, not bad
    h.on_newton(hook)
    sim.initialise()
    h.havoc(pb().u, "start")
    h.havoc(pb().u_n, "before")
    st["last"] = h.content(pb().u_n)
    st["start"] = h.content(pb().u)
    sim.timer = f.Timer()
    for k in range(3):
        st["step"], st["try"] = k, 0
        h.clear_events()
        sim.iterate()
        h.prove("solved until converged", st["try"] == (1 + fails if k == 1 else 1))
        h.same_content("the state is the converged one", pb().u, st["new"])
        h.same_content("after a converged step the previous state is the state just computed", pb().u_n, st["new"])
        st["last"] = st["start"] = st["new"]
        ev = h.events("xdmf.write")
        comps = list(f.split(pb().u)) if nt or kin else [pb().u]
        if h.prove("every field is exported", len(ev) == nt + 1):
            for i in range(nt + 1):
                for v in vols:
                    h.same("exports see the state just computed", ev[i][2], comps[i], h.at_vol(v))
        for i, q in enumerate(qs):
            h.prove("every quantity is computed", len(q.data) == k + 1)
            h.eq("quantities see the state just computed", q.data[-1], f.assemble(comps[i] * sim.mesh.dx(vols[1])))


@contract("C19", functions=["HTransportProblem.initialise_concentrations", "Concentration.initialise", "Concentration.get_comp", "HeatTransferProblem.create_functions", "InitialCondition.__init__"],
          bounded="up to 2 traps, one initial value per field", weight=4)
def first_step_starts_from_initial_values(h):
    F, f = h.F, h.f
    nt = h.choose([0, 1, 2], "traps")
    kin = h.maybe("surface kinetics")
    elem = h.choose(["CG", "DG"], "trap element") if nt else "CG"
    heat = h.choose([None, "number", "function", "file"], "initial temperature") if nt < 2 else None
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], heat=True) for k in range(2)]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1), materials=mats[j], density=h.real(f"n_{j}", pos=True)) for j in range(nt)]
    ics, want = [], {}

    def given(kind, name, scale=1.0):
        """(arguments of the initial condition, value)"""
        if kind == "number":
            v = h.real(name, pos=True, scale=scale)
            return dict(value=v), lambda u, at: v
        if kind == "function":
            return dict(value=h.fun(name, t=False, scale=scale)), lambda u, at: h.funval(name, scale=scale)
        step = {"c0": -1, "c1": 0, "c2": 3, "Tini": 2}[name]
        return dict(value=name + ".xdmf", label="lab" + name, time_step=step), lambda u, at: h.file_content(u, name + ".xdmf", "lab" + name, step, at)
    for k in reversed(range(nt + 1)):
        kind = h.choose([None, "number", "function", "file"], f"initial value {k}")
        if kind:
            kw, want[k] = given(kind, f"c{k}")
            ics.append(F.InitialCondition(field=k, **kw))
    bcs, ini = [], None
    if kin:
        ini = h.real("ini", pos=True)
        bcs.append(F.SurfaceKinetics(k_sb=h.real("ksb", pos=True), k_bs=h.real("kbs", pos=True), lambda_IS=h.real("lam", pos=True), n_surf=h.real("nsurf", pos=True),
                                     n_IS=h.real("nIS", pos=True), J_vs=h.real("Jvs"), surfaces=[surfs[0], surfs[1]], initial_condition=ini))
    T = h.fun("T", t=False, scale=600.0)
    if heat:
        kw, Tw = given(heat, "Tini", 500.0)
        T = F.HeatTransferProblem(transient=True, initial_condition=kw["value"] if heat == "number" else F.InitialCondition(field="T", **kw))
    dt = h.real("dt0", pos=True)
    sim = simulation(h, fm, mats, T=T, bcs=bcs, traps=traps or None, ics=ics, dt=F.Stepsize(dt), final_time=100 * dt, traps_element_type=elem)
    pb = lambda: sim.h_transport_problem
    seen = []

    def hook(solver, problem, vec):
        if h.target_is(vec, sim.T.T):
            if "T" not in seen:
                for v in vols:
                    at = h.at_vertex(v)
                    h.same("the previous temperature of the first step is the initial one", sim.T.T_n, Tw(sim.T.T_n, at), at)
            seen.append("T")
            return 3, True
        if "H" not in seen:
            mixed = nt or kin
            uns = list(f.split(pb().u_n)) if mixed else [pb().u_n]
            for k in range(nt + 1):
                for v in vols:
                    at = h.at_vertex(v)
                    sub = pb().u_n.sub(k) if mixed else pb().u_n
                    h.same("the previous state of the first step holds the initial values, zero where none is given", uns[k], want[k](sub, at) if k in want else 0, at)
            if kin:
                for k in (nt + 1, nt + 2):
                    h.same("adsorbed hydrogen starts from its initial value", uns[k], ini, h.at_vol(vols[0]))
        seen.append("H")
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    sim.timer = f.Timer()
    sim.iterate()
    h.prove("a first step was solved", "H" in seen and ("T" in seen) == bool(heat))
