from pyvc.harness import contract
from .common import *

EXT = ["phi_0", "n_amax", "n_bmax", "eta_a", "eta_b", "f_a", "f_b"]
NEU = ["phi", "K", "n_max", "A_0", "E_A"]


def value(h, nm, kind, t):
    if kind == "number":
        v = h.real(nm, pos=True, scale=0.05 if "E_A" in nm else 1.0)
        return v, (lambda tt: v)
    if kind == "space":
        return h.fun(nm, t=False, scale=0.05 if "E_A" in nm else 1.0), (lambda tt: h.funval(nm, scale=0.05 if "E_A" in nm else 1.0))
    return h.fun(nm, scale=0.05 if "E_A" in nm else 1.0), (lambda tt: h.funval(nm, tt, scale=0.05 if "E_A" in nm else 1.0))


def make(h, kinds, prm, mats):
    F = h.F
    traps, spec = [], []
    for j, k in enumerate(kinds):
        base = dict(k_0=h.real(f"k0_{j}", pos=True), E_k=h.real(f"Ek_{j}", scale=0.1), p_0=h.real(f"p0_{j}", pos=True), E_p=h.real(f"Ep_{j}", scale=0.1),
                    materials=mats[j % len(mats)])
        if k == "T":
            d = h.real(f"n_{j}", pos=True)
            traps.append(F.Trap(density=d, **base))
            spec.append((base, None, d))
            continue
        names = EXT if k == "E" else NEU
        vals = {}
        for q, nm in enumerate(names):
            kind = {"number": "number", "function": "time", "mixed": ["number", "time", "space"][q % 3]}[prm]
            vals[nm] = value(h, f"{nm}_{j}", kind, None)
        cls = F.ExtrinsicTrap if k == "E" else F.NeutronInducedTrap
        traps.append(cls(**base, **{nm: v[0] for nm, v in vals.items()}))
        spec.append((base, (k, {nm: v[1] for nm, v in vals.items()}), None))
    return traps, spec


def rate(h, law, n, T, t):
    k, p = law
    p = {a: b(t) for a, b in p.items()}
    if k == "E":
        return p["phi_0"] * ((1 - n / p["n_amax"]) * p["eta_a"] * p["f_a"] + (1 - n / p["n_bmax"]) * p["eta_b"] * p["f_b"])
    return p["phi"] * p["K"] * (1 - n / p["n_max"]) - arr(h, p["A_0"], p["E_A"], T) * n


@contract("C05", functions=["ExtrinsicTrapBase.__init__", "ExtrinsicTrap.create_form_density", "NeutronInducedTrap.create_form_density",
                            "Traps.initialise_extrinsic_traps", "Traps.define_variational_problem_extrinsic_traps", "Traps.solve_extrinsic_traps",
                            "Traps.update_extrinsic_traps_density", "HTransportProblem.update", "HTransportProblem.update_previous_solutions", "Simulation.iterate"],
          bounded="up to 3 traps", weight=5)
def density_laws(h):
    constants(h)
    F, f = h.F, h.f
    kinds = h.choose(["E", "N", "EN", "TE", "NTE", "EE", "NN"], "traps")
    prm = h.choose(["number", "function", "mixed"], "parameters")
    nm = h.choose([1, 2], "materials")
    step = h.choose(["constant", "adaptive", "milestones"], "stepsize")
    vols, surfs = h.ids("v", nm), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k]) for k in range(nm)]
    traps, spec = make(h, kinds, prm, mats)
    ratio = h.real("ratio", lo=1.01)
    t0, dt, tf = clock(h)
    if step == "adaptive":
        dts = F.Stepsize(h.real("dt0", pos=True), stepsize_change_ratio=ratio, dt_min=1e-9)
    elif step == "milestones":
        dts = F.Stepsize(h.real("dt0", pos=True), milestones=[t0 + dt])
    else:
        dts = F.Stepsize(h.real("dt0", pos=True))
    sim = simulation(h, fm, mats, traps=traps, dt=dts, final_time=tf)
    sim.initialise()
    pb = sim.h_transport_problem
    ext = [j for j, k in enumerate(kinds) if k != "T"]
    at = h.at_vol(vols[0])
    for j in ext:
        h.const_content(traps[j].density[0], 0.0, "density starts from zero", at)
        h.const_content(traps[j].density_previous_solution, 0.0, "previous density starts from zero", at)
    # an arbitrary later iteration
    free_state(h, sim, dt)
    sim.t = t0
    sim.timer = f.Timer()
    before = {}
    for j in ext:
        h.havoc(traps[j].density[0], f"dens{j}")
        h.havoc(traps[j].density_previous_solution, f"densprev{j}")
        before[j] = h.content(traps[j].density[0])
    solved = []
    t = t0 + dt

    def hook(solver, problem, vec):
        if h.target_is(vec, pb.u):
            us, vs = list(f.split(pb.u)), list(f.split(pb.v))
            for i in range(nm):
                a = h.at_vol(vols[i])
                X = 0
                for j in range(len(kinds)):
                    if j % nm != i:
                        continue
                    b = spec[j][0]
                    n = traps[j].density[0] if spec[j][1] else spec[j][2]
                    ex = arr(h, b["k_0"], b["E_k"], sim.T.T) * us[0] * (n - us[j + 1]) - arr(h, b["p_0"], b["E_p"], sim.T.T) * us[j + 1]
                    X = X + ex * (vs[0] - vs[j + 1])
                tot = h.total(pb.F, "dx", vols[i])
                uns = list(f.split(pb.u_n))
                D = arr(h, mats[i].D_0, mats[i].E_D, sim.T.T)
                base = D * f.dot(f.grad(us[0]), f.grad(vs[0])) + sum((us[q] - uns[q]) / dt * vs[q] for q in range(len(kinds) + 1))
                h.same("the computed density is the one in the trapping terms", tot, base + X, a)
            for j in ext:
                h.same_content("density during the hydrogen solve is the one computed last", traps[j].density[0], before[j])
            h.havoc(pb.u, "unew")
            solved.append("H")
            return 3, True
        for j in ext:
            if h.target_is(vec, traps[j].density[0]):
                n, v = traps[j].density[0], f.TestFunction(traps[j].density[0].function_space())
                # the equation, at an arbitrary value of the unknown
                h.havoc(n, f"darb{j}")
                for i in range(nm):
                    a = h.at_vol(vols[i])
                    form = problem.residual_form
                    h.same_content("previous density is the one of the step before", traps[j].density_previous_solution, before[j])
                    h.same("density equation of trap", h.total(form, "dx", vols[i]),
                           (n - traps[j].density_previous_solution) / dt * v - rate(h, spec[j][1], n, sim.T.T, t) * v, a)
                h.havoc(n, f"dnew{j}")
                solved.append(j)
                return 2, True
        h.fail("only the known problems are solved")
        return 1, True
    h.on_newton(hook)
    sim.iterate()
    h.prove("hydrogen solved once, then every density once", solved[:1] == ["H"] and sorted(solved[1:]) == ext, str(solved))
