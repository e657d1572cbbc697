import types
from pyvc.harness import contract
from .common import *


def heat_bcs(h, cfg, surfs, tn):
    """boundary conditions on T; returns (bcs, flux per surface (T,t)->, dirichlet per surface t->)"""
    F = h.F
    out, flux, dirich = [], {i: [] for i in range(4)}, {i: [] for i in range(4)}
    if cfg == "none":
        pass
    elif cfg == "flux":
        q = h.real("q")
        out.append(F.FluxBC(surfaces=surfs[0], value=q, field="T"))
        flux[0].append(lambda T, t: q)
    elif cfg == "flux-both":
        out.append(F.FluxBC(surfaces=[surfs[0], surfs[1]], value=h.fun("q"), field="T"))
        for i in (0, 1):
            flux[i].append(lambda T, t: h.funval("q", t))
    elif cfg == "convective+flux":
        out.append(F.ConvectiveFlux(h_coeff=h.fun("hc"), T_ext=h.fun("Text", scale=500.0), surfaces=[surfs[1]]))
        q = h.real("q")
        out.append(F.FluxBC(surfaces=[surfs[1]], value=q, field="T"))
        flux[1] += [lambda T, t: -h.funval("hc", t) * (T - h.funval("Text", t, scale=500.0)), lambda T, t: q]
    elif cfg == "custom":
        g = h.callfun("gflux")
        p1 = h.real("p1")
        out.append(F.CustomFlux(surfaces=[surfs[0]], function=lambda T, c, p1, p2, p3: g(T, p1, p2, p3), field="T", p1=p1, p2=h.fun("p2"), p3=h.fun("p3")))
        flux[0].append(lambda T, t: g(T, p1, h.funval("p2", t), h.funval("p3", t)))
    elif cfg == "dirichlet":
        d = h.real("Td", scale=500.0)
        out.append(F.DirichletBC(surfaces=surfs[0], value=d, field="T"))
        out.append(F.DirichletBC(surfaces=[surfs[1]], value=h.fun("Te", scale=500.0), field="T"))
        dirich[0].append(lambda t: d)
        dirich[1].append(lambda t: h.funval("Te", t, scale=500.0))
    elif cfg == "dirichlet-both+":
        out.append(F.DirichletBC(surfaces=[surfs[1], surfs[0]], value=h.fun("Te", scale=500.0), field="T"))
        for i in (0, 1):
            dirich[i].append(lambda t: h.funval("Te", t, scale=500.0))
    elif cfg == "many":
        q = h.real("q")
        out.append(F.FluxBC(surfaces=[surfs[3], surfs[0], surfs[2]], value=h.fun("q"), field="T"))
        out.append(F.FluxBC(surfaces=list(surfs), value=q, field="T"))
        out.append(F.ConvectiveFlux(h_coeff=h.fun("hc"), T_ext=h.fun("Text", scale=500.0), surfaces=[surfs[2], surfs[1], surfs[3]]))
        for i in range(4):
            if i in (3, 0, 2):
                flux[i].append(lambda T, t: h.funval("q", t))
            flux[i].append(lambda T, t: q)
            if i in (2, 1, 3):
                flux[i].append(lambda T, t: -h.funval("hc", t) * (T - h.funval("Text", t, scale=500.0)))
    elif cfg == "many prescribed":
        d = h.real("Td", scale=500.0)
        out.append(F.DirichletBC(surfaces=[surfs[3], surfs[0], surfs[2]], value=h.fun("Te", scale=500.0), field="T"))
        out.append(F.DirichletBC(surfaces=surfs[1], value=d, field="T"))
        for i in (3, 0, 2):
            dirich[i].append(lambda t: h.funval("Te", t, scale=500.0))
        dirich[1].append(lambda t: d)
    return out, flux, dirich


@contract("C06", functions=["HeatTransferProblem.create_functions", "HeatTransferProblem.define_variational_problem", "HeatTransferProblem.create_dirichlet_bcs",
                            "HeatTransferProblem.update", "HeatTransferProblem.define_newton_solver", "Simulation.initialise", "Simulation.iterate",
                            "Simulation.attribute_source_terms", "Simulation.attribute_boundary_conditions"],
          bounded="up to 3 materials with up to 3 volumes, 3 sources, 3 conditions, 4 surfaces", weight=8)
def heat_equation(h, embedded=False):
    F, f = h.F, h.f
    bcc = h.choose(["flux-both", "convective+flux", "custom", "dirichlet", "dirichlet-both+"] if embedded else
                   ["none", "flux", "flux-both", "convective+flux", "custom", "dirichlet", "dirichlet-both+", "many", "many prescribed"], "bcs")
    many = bcc.startswith("many")
    coord = h.choose(["cartesian", "cylindrical", "spherical"], "coord")
    layout = h.choose(["1", "ids2"] if embedded else ["1", "2", "ids2+1"] + (["3"] if bcc == "none" else []), "layout") if not many else "1"
    transient = h.maybe("heat transient")
    calls = h.maybe("callable properties")
    src = h.choose(["none", "list", "two"], "sources") if not many else "none"
    htrans = True if transient else h.maybe("hydrogen transient")
    groups = {"1": [[0]], "ids2": [[0, 1]], "2": [[0], [1]], "ids2+1": [[0, 1], [2]], "3": [[0], [1], [2]]}[layout]
    n = sum(len(g) for g in groups)
    if many and coord == "spherical":
        h.stop()
    vols, surfs = h.ids("v", n), h.ids("s", 4 if many else 2)
    fm = h.mesh(vols, surfs, coord, dim=2 if many else 1)
    mats = [material(h, str(k), vols[g[0]] if len(g) == 1 else [vols[i] for i in g], heat=True, callables=calls) for k, g in enumerate(groups)]
    sspec = {i: [] for i in range(n)}
    sources = []
    if src == "list":
        s = h.real("s")
        sources.append(F.Source(s, volume=list(vols), field="T"))
        for i in range(n):
            sspec[i].append(lambda t: s)
    elif src == "two":
        s = h.real("s")
        sources += [F.Source(h.fun("hs"), volume=vols[-1], field="T"), F.Source(s, volume=vols[0], field="T"),
                    F.Source(h.real("hyd"), volume=vols[0], field=0)]
        sspec[n - 1].append(lambda t: h.funval("hs", t))
        sspec[0].append(lambda t: s)
    bcs, flux, dirich = heat_bcs(h, bcc, surfs, None)
    ini = h.choose(["number"] if embedded else ["number", "function"], "initial") if transient else None
    iv = h.real("Tini", scale=500.0) if ini == "number" else h.fun("Ti", t=False, scale=500.0) if ini == "function" else None
    ivspec = iv
    if ini == "function":
        ivspec = h.funval("Ti", scale=500.0)
    Tp = F.HeatTransferProblem(transient=transient, initial_condition=iv)
    t0, dt, tf = clock(h)
    sim = simulation(h, fm, mats, transient=htrans, T=Tp, sources=sources, bcs=bcs, final_time=tf if htrans else None)
    solves = []
    state = {}

    def check_form(problem, t, Tn):
        form = problem.residual_form
        T, v = Tp.T, f.TestFunction(Tp.T.function_space())
        for k, g in enumerate(groups):
            m = mats[k]
            for i in g:
                at = h.at_vol(vols[i])
                spec = dot_grad(h, coord, fm, prop_at(m.thermal_cond, T), T, v)
                if transient:
                    spec = spec + prop_at(m.rho, T) * prop_at(m.heat_capacity, T) * (T - Tn) / state["dt"] * v
                for s_ in sspec[i]:
                    spec = spec - s_(t) * v
                h.same(f"heat equation in material {k}", h.total(form, "dx", vols[i]), spec, at)
        for q, s_ in enumerate(surfs):
            at = h.at_surf(s_, vols[-1] if q == 1 else vols[0])
            spec = 0 * v
            for fl in flux[q]:
                spec = spec - fl(T, t) * v
            h.same("heat flux conditions", h.total(form, "ds", s_), spec, at)
        infos = [h.bc_info(b) for b in problem.bcs]
        for q, s_ in enumerate(surfs):
            mine = [b for b in infos if b[2] == s_]
            h.prove("prescribed temperatures on exactly their surfaces", len(mine) == len(dirich[q]), f"{len(mine)} for surface {q}")
            at = h.at_surf(s_, vols[-1] if q == 1 else vols[0])
            for b, d in zip(mine, dirich[q]):
                h.same("prescribed temperature", b[1], d(t), at)
        h.prove("no other prescribed temperature", len(infos) == sum(len(d) for d in dirich.values()))

    def hook(solver, problem, vec):
        if h.target_is(vec, Tp.T):
            solves.append("T")
            if not state.get("iterating"):
                h.havoc(Tp.T, "T", scale=600.0)
                check_form(problem, 0, None)
            else:
                h.same_content("previous temperature is the one computed at the step before", Tp.T_n, state["Tbefore"])
                h.havoc(Tp.T, "Tguess", scale=600.0)
                check_form(problem, state["t"], Tp.T_n)
            h.havoc(Tp.T, "Tsolved%d" % len(solves), scale=600.0)
            state["Tsolved"] = h.content(Tp.T)
            return 4, True
        solves.append("H")
        if state.get("iterating") and transient:
            h.same_content("hydrogen is solved with the temperature just computed", Tp.T, state["Tsolved"])
            h.same_content("previous temperature during the hydrogen solve", Tp.T_n, state["Tbefore"])
        return 3, True
    h.on_newton(hook)
    sim.initialise()
    at0 = h.at_vol(vols[0])
    if transient:
        h.prove("transient heat problem is not solved at initialisation", solves == [])
        h.const_content(Tp.T_n, ivspec, "starts from the initial condition", at0)
        h.const_content(Tp.T, ivspec, "temperature before the first step is the initial condition", at0)
    else:
        h.prove("stationary heat problem is solved once, first", solves == ["T"], str(solves))
        h.same_content("stationary temperature is both current and previous", Tp.T_n, Tp.T)
    if embedded:
        rebuild(h, sim, heat=True)
        if not transient:
            h.havoc(Tp.T, "T", scale=600.0)
            check_form(types.SimpleNamespace(residual_form=Tp.F, bcs=h.known(Tp.dirichlet_bcs)), 0, None)
            return
    if not htrans:
        return
    # an arbitrary iteration
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    h.havoc(Tp.T, "Tk", scale=600.0)
    h.havoc(Tp.T_n, "Tk-1", scale=600.0)
    state["Tbefore"] = h.content(Tp.T)
    h.set_const(sim.dt.value, dt)
    state.update(iterating=True, t=t0 + dt, dt=dt)
    sim.t = t0
    sim.timer = f.Timer()
    del solves[:]
    sim.iterate()
    h.prove("order of solves in a step", solves == (["T", "H"] if transient else ["H"]), str(solves))


@contract("C06", functions=["HeatTransferProblem.define_variational_problem", "HeatTransferProblem.create_dirichlet_bcs", "HeatTransferProblem.update",
                            "Simulation.attribute_source_terms"], weight=4, loops=True)
def heat_in_any_model(h):
    """heat_equation for materials, volumes, sources, conditions and surfaces that are part of a model with any number of others"""
    heat_equation(h, embedded=True)
