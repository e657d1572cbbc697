from pyvc.harness import contract
from .common import *

HOSTS = {
    # per trap: (materials hosting it, parameters given as lists?, how materials are named)
    "one-scalar": [([0], False, "obj")],
    "one-name": [([0], False, "name")],
    "one-all-scalar": [("all", False, "obj")],
    "one-all-list": [("all", True, "obj")],
    "one-rev-list": [("rev", True, "name")],
    "one-last": [("last", False, "name")],
    "two": [([0], False, "obj"), ("rev", True, "obj")],
    "three": [("all", True, "name"), ("last", True, "obj"), ([0], False, "obj")],
}


def make_traps(h, mats, cfg, dens):
    F = h.F
    n = len(mats)
    traps, info = [], []
    for j, (hosts, aslist, naming) in enumerate(HOSTS[cfg]):
        hosts = {"all": list(range(n)), "rev": list(range(n))[::-1], "last": [n - 1]}.get(hosts, hosts) if isinstance(hosts, str) else hosts
        ref = [mats[i] if naming == "obj" else mats[i].name for i in hosts]

        def dval(tag):
            if dens == "number":
                d = h.real(f"n{tag}", pos=True)
                return d, d
            return h.fun(f"n{tag}"), h.funval(f"n{tag}", 0)
        if aslist:
            k0 = [h.real(f"k0_{j}_{i}", pos=True) for i in hosts]
            Ek = [h.real(f"Ek_{j}_{i}", scale=0.1) for i in hosts]
            p0 = [h.real(f"p0_{j}_{i}", pos=True) for i in hosts]
            Ep = [h.real(f"Ep_{j}_{i}", scale=0.1) for i in hosts]
            dd = [dval(f"{j}_{i}") for i in hosts]
            tr = F.Trap(k_0=list(k0), E_k=list(Ek), p_0=list(p0), E_p=list(Ep), materials=ref if len(ref) > 1 else ref[0] if j == 0 else ref, density=[d[0] for d in dd])
        else:
            k0, Ek, p0, Ep = (h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1))
            d = dval(f"{j}")
            tr = F.Trap(k_0=k0, E_k=Ek, p_0=p0, E_p=Ep, materials=ref if len(ref) > 1 else ref[0], density=d[0])
            k0, Ek, p0, Ep, dd = [k0] * len(hosts), [Ek] * len(hosts), [p0] * len(hosts), [Ep] * len(hosts), [d] * len(hosts)
        traps.append(tr)
        info.append({m: dict(k0=k0[q], Ek=Ek[q], p0=p0[q], Ep=Ep[q], n=dd[q][1]) for q, m in enumerate(hosts)})
    return traps, info


def exchange(h, q, c, ct, T):
    """what the trap gains per unit time from the mobile hydrogen"""
    return arr(h, q["k0"], q["Ek"], T) * c * (q["n"] - ct) - arr(h, q["p0"], q["Ep"], T) * ct


@contract("C04", functions=["Mobile.create_diffusion_form", "Trap.create_trapping_form", "Trap.create_source_form", "Trap.create_form", "Traps.create_forms",
                            "Trap.make_materials", "Trap.make_density", "HTransportProblem.define_variational_problem",
                            "HTransportProblem.initialise_concentrations", "Simulation.attribute_source_terms"],
          bounded="up to 3 materials, 3 traps, 2 sources per trap", weight=8)
def trapping_exchange(h, embedded=False):
    constants(h)
    F, f = h.F, h.f
    cfg = h.choose(["one-name", "one-all-list", "two"] if embedded else list(HOSTS), "traps")
    nm = h.choose([1, 2] if embedded else [1, 2, 3], "materials")
    dens = h.choose(["number", "function"], "density")
    transient = h.maybe("transient")
    src = h.choose(["none", "number", "function+decay"], "trap sources")
    elem = h.choose(["CG", "DG"], "element") if cfg in ("two", "one-scalar") and not embedded else "CG"
    coord = h.choose(["cartesian", "cylindrical", "spherical"], "coord") if nm < 3 else "cartesian"
    vols = h.ids("v", nm)
    surfs = h.ids("s", 2)
    fm = h.mesh(vols, surfs, coord)
    mats = [material(h, str(k), vols[k]) for k in range(nm)]
    traps, info = make_traps(h, mats, cfg, dens)
    nt = len(traps)
    sources, sspec = [], {}
    if src == "number":
        s = h.real("s")
        sources.append(F.Source(s, volume=vols[0], field=nt))
        sspec[(nt - 1, 0)] = [lambda ct: s]
    elif src == "function+decay":
        lam = h.real("lam", pos=True)
        sources.append(F.Source(h.fun("g"), volume=vols[-1], field="1"))
        sources.append(F.RadioactiveDecay(lam, volume=vols[-1], field=1))
        sspec[(0, nm - 1)] = [lambda ct: h.funval("g", 0), lambda ct: -lam * ct]
    sim = simulation(h, fm, mats, transient=transient, sources=sources, traps=traps, traps_element_type=elem)
    sim.initialise()
    if embedded:
        rebuild(h, sim)
    pb = free_state(h, sim)
    us, uns, vs, T = list(f.split(pb.u)), list(f.split(pb.u_n)), list(f.split(pb.v)), sim.T.T
    h.prove("one unknown per field", pb.u.function_space().num_sub_spaces() == nt + 1)
    dt = h.num(sim.dt.value) if transient else None
    for i in range(nm):
        at = h.at_vol(vols[i])
        D = arr(h, mats[i].D_0, mats[i].E_D, T)
        mob = dot_grad(h, coord, fm, D, us[0], vs[0])
        if transient:
            mob = mob + (us[0] - uns[0]) / dt * vs[0]
        tot = mob
        for j in range(nt):
            ct, ctn, vt = us[j + 1], uns[j + 1], vs[j + 1]
            eqn = 0 * vt
            if transient:
                eqn = eqn + (ct - ctn) / dt * vt
            if i in info[j]:
                X = exchange(h, info[j][i], us[0], ct, T)
                eqn = eqn - X * vt
                tot = tot + X * vs[0]
            elif not transient:
                eqn = eqn + ct * vt
            for s_ in sspec.get((j, i), []):
                eqn = eqn - s_(ct) * vt
            tot = tot + eqn
        h.same("trapping and mobile equations in material %d" % i, h.total(pb.F, "dx", vols[i]), tot, at)
    for k, s_ in enumerate(surfs):
        h.same("no boundary term", h.total(pb.F, "ds", s_), 0, h.at_surf(s_, vols[0] if k == 0 else vols[-1]))


@contract("C04", functions=["Traps.create_forms", "Trap.create_trapping_form", "Mobile.create_diffusion_form", "Trap.create_source_form"], bounded="5 materials, 6 traps, 4 sources")
def many_traps(h):
    """the same exchange with more traps and materials"""
    F, f = h.F, h.f
    transient = h.maybe("transient")
    naming = h.choose(["obj", "name"], "materials given as")
    nm = 5
    vols, surfs = h.ids("v", nm), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k]) for k in range(nm)]
    hosts = [[0], [4], [2, 0, 3], [1, 2, 3, 4], [3], [4, 0]]
    traps, info = [], []
    for j, hs in enumerate(hosts):
        ref = [mats[i] if naming == "obj" else mats[i].name for i in hs]
        if len(hs) > 1 and j != 3:
            q = [dict(k0=h.real(f"k0_{j}_{i}", pos=True), Ek=h.real(f"Ek_{j}_{i}", scale=0.1), p0=h.real(f"p0_{j}_{i}", pos=True), Ep=h.real(f"Ep_{j}_{i}", scale=0.1), n=h.real(f"n_{j}_{i}", pos=True)) for i in hs]
            traps.append(F.Trap([x["k0"] for x in q], [x["Ek"] for x in q], [x["p0"] for x in q], [x["Ep"] for x in q], ref, [x["n"] for x in q]))
        else:
            x = dict(k0=h.real(f"k0_{j}", pos=True), Ek=h.real(f"Ek_{j}", scale=0.1), p0=h.real(f"p0_{j}", pos=True), Ep=h.real(f"Ep_{j}", scale=0.1), n=h.real(f"n_{j}", pos=True))
            q = [x] * len(hs)
            traps.append(F.Trap(x["k0"], x["Ek"], x["p0"], x["Ep"], ref if len(ref) > 1 else ref[0], x["n"]))
        info.append(dict(zip(hs, q)))
    where = [(6, 4), ("3", 0), (4, 2), (6, 4)]
    vals = [h.real(f"s{k}") for k in range(len(where))]
    sim = simulation(h, fm, mats, transient=transient, sources=[F.Source(v, volume=vols[i], field=fl) for (fl, i), v in zip(where, vals)], traps=traps)
    sim.initialise()
    pb = free_state(h, sim)
    us, uns, vs, T = list(f.split(pb.u)), list(f.split(pb.u_n)), list(f.split(pb.v)), sim.T.T
    dt = h.num(sim.dt.value) if transient else None
    for i in range(nm):
        tot = dot_grad(h, "cartesian", fm, arr(h, mats[i].D_0, mats[i].E_D, T), us[0], vs[0])
        for j in range(len(hosts) + 1):
            if transient:
                tot = tot + (us[j] - uns[j]) / dt * vs[j]
            if j and i in info[j - 1]:
                tot = tot - exchange(h, info[j - 1][i], us[0], us[j], T) * (vs[j] - vs[0])
            elif j and not transient:
                tot = tot + us[j] * vs[j]
        for (fl, k), v in zip(where, vals):
            if k == i:
                tot = tot - v * vs[int(fl)]
        h.same("trapping and mobile equations in material %d" % i, h.total(pb.F, "dx", vols[i]), tot, h.at_vol(vols[i]))


@contract("C04", functions=["Mobile.create_diffusion_form", "Trap.create_trapping_form", "Trap.create_source_form", "Trap.create_form", "Traps.create_forms",
                            "HTransportProblem.define_variational_problem"], weight=4, loops=True)
def exchange_in_any_model(h):
    """trapping_exchange for materials and traps that are part of a model with any number of others"""
    trapping_exchange(h, embedded=True)
