from pyvc.harness import contract
from .common import *


def source_list(h, vols, cfg):
    """sources and, per volume, what the equation must receive"""
    F, f = h.F, h.f
    spec = {i: 0 for i in range(len(vols))}
    out = []
    if cfg == "none":
        return out, spec
    if cfg in ("number", "number-list"):
        s = h.real("s")
        where = [0] if cfg == "number" else list(range(len(vols)))
        out.append(F.Source(s, volume=vols[0] if cfg == "number" else list(vols), field=0))
        for i in where:
            spec[i] = spec[i] + s
    if cfg == "two":
        s1, s2 = h.real("s1"), h.fun("s2")
        out.append(F.Source(s1, volume=vols[-1], field="solute"))
        out.append(F.Source(s2, volume=vols[-1], field="0"))
        out.append(F.Source(h.real("s3"), volume=vols[0], field=0))
        spec[len(vols) - 1] = spec[len(vols) - 1] + s1 + h.funval("s2", 0)
        spec[0] = spec[0] + out[-1].value
    if cfg == "implantation":
        fl, dep, w = h.fun("flux", x=False), h.real("dep"), h.real("w", pos=True)
        out.append(F.ImplantationFlux(fl, dep, w, vols[0]))
        x = h.f.SpatialCoordinate(h_mesh(h))[0] if not h.symbolic else h.f.SpatialCoordinate(None)[0]
        spec[0] = spec[0] + h.funval("flux", 0, x=False) / (w * (2 * 3.141592653589793) ** 0.5) * h.f.exp(-0.5 * ((x - dep) / w) ** 2)
    return out, spec


def h_mesh(h):
    return h.meshes[-1].mesh


@contract("C03", functions=["Simulation.initialise", "Mobile.create_form", "Mobile.create_diffusion_form", "Mobile.create_source_form",
                            "Mobile.get_concentration_for_a_given_material", "HTransportProblem.define_variational_problem",
                            "Source.__init__", "ImplantationFlux.__init__", "Mesh.define_measures"],
          bounded="up to 3 materials, 3 sources", weight=3)
def mobile_balance(h, embedded=False):
    constants(h)
    F, f = h.F, h.f
    coord = h.choose(["cartesian", "cylindrical", "spherical"], "coord")
    layout = h.choose(["1", "ids2"] if embedded else ["1", "2", "3", "ids2", "ids2+1"], "layout")
    soret = h.choose([False, "number", "callable"], "soret")
    transient = h.maybe("transient")
    src = h.choose(["none", "number", "number-list", "two", "implantation"], "sources")
    n = {"1": 1, "2": 2, "3": 3, "ids2": 2, "ids2+1": 3}[layout]
    vols = h.ids("v", n)
    surfs = h.ids("s", 2)
    fm = h.mesh(vols, surfs, coord)
    groups = {"1": [[0]], "2": [[0], [1]], "3": [[0], [1], [2]], "ids2": [[0, 1]], "ids2+1": [[0, 1], [2]]}[layout]
    mats = [material(h, str(k), vols[g[0]] if len(g) == 1 else [vols[i] for i in g],
                     soret=bool(soret), callables=(soret == "callable")) for k, g in enumerate(groups)]
    sources, sspec = source_list(h, vols, src)
    sim = simulation(h, fm, mats, transient=transient, sources=sources, soret=bool(soret))
    sim.initialise()
    if embedded:
        rebuild(h, sim)
    pb = free_state(h, sim)
    c, cn, v, T = pb.u, pb.u_n, pb.v, sim.T.T
    for k, g in enumerate(groups):
        m = mats[k]
        for i in g:
            at = h.at_vol(vols[i])
            D = arr(h, m.D_0, m.E_D, T)
            spec = dot_grad(h, coord, fm, D, c, v) - sspec[i] * v
            if transient:
                spec = spec + (c - cn) / h.num(sim.dt.value) * v
            if soret:
                Q = prop_at(m.Q, T)
                spec = spec + dot_grad(h, coord, fm, D * Q * c / (F.k_B * T ** 2), T, v)
            h.same(f"mobile equation in material {k}", h.total(pb.F, "dx", vols[i]), spec, at)
    for s in surfs:
        h.same("no boundary term without boundary condition", h.total(pb.F, "ds", s), 0, h.at_surf(s, vols[0] if s is surfs[0] else vols[-1]))


@contract("C03", functions=["Mobile.create_diffusion_form", "Mobile.create_source_form"], bounded="6 materials with 7 subdomains, 9 sources", weight=2)
def many_materials(h):
    """the same balance with more materials, subdomains and sources"""
    F, f = h.F, h.f
    transient = h.maybe("transient")
    soret = h.maybe("soret")
    vols, surfs = h.ids("v", 7), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    groups = [[0], [1], [2], [3], [4, 6], [5]]
    mats = [material(h, str(k), vols[g[0]] if len(g) == 1 else [vols[i] for i in g], soret=soret) for k, g in enumerate(groups)]
    places = [[0], [5], [3, 1], [2], [6, 0, 4], [4], [5], [1], [5]]
    vals = [h.real(f"s{k}") for k in range(len(places))]
    sources = [F.Source(v, volume=[vols[i] for i in p] if len(p) > 1 else vols[p[0]], field=[0, "solute", "0"][k % 3]) for k, (p, v) in enumerate(zip(places, vals))]
    sim = simulation(h, fm, mats, transient=transient, sources=sources, soret=soret)
    sim.initialise()
    pb = free_state(h, sim)
    c, cn, v, T = pb.u, pb.u_n, pb.v, sim.T.T
    for k, g in enumerate(groups):
        m = mats[k]
        for i in g:
            D = arr(h, m.D_0, m.E_D, T)
            spec = dot_grad(h, "cartesian", fm, D, c, v)
            for p, s in zip(places, vals):
                if i in p:
                    spec = spec - s * v
            if transient:
                spec = spec + (c - cn) / h.num(sim.dt.value) * v
            if soret:
                spec = spec + dot_grad(h, "cartesian", fm, D * m.Q * c / (F.k_B * T ** 2), T, v)
            h.same(f"mobile equation in material {k}", h.total(pb.F, "dx", vols[i]), spec, h.at_vol(vols[i]))


@contract("C03", functions=["Mobile.create_form", "Mobile.create_diffusion_form", "Mobile.create_source_form", "HTransportProblem.define_variational_problem"], loops=True)
def balance_in_any_model(h):
    """mobile_balance for materials, subdomains and sources that are part of a model with any number of others"""
    mobile_balance(h, embedded=True)
