from pyvc.harness import contract
from .common import *


def build(h, n, multi=(0, 2), heat=False, callables=False, **kw):
    mats, ids = [], []
    for k in range(n):
        m = h.choose(multi, f"ids of {k}")
        own = h.ids(f"id{k}_", max(m, 1))
        for a in own:
            for b in [x for o in ids for x in o]:
                h.assume(a != b)
        ids.append(own)
        # names that contain one another
        mats.append(material(h, str(k), own if m else own[0], heat=heat, callables=callables, name=["alloy", "alloy2", "Alloy", "all"][k], **kw))
    return mats, ids


@contract("C16", functions=["Materials.find_material_from_id", "Materials.find_material_from_name", "Materials.find_material"], bounded="up to 4 materials (any ids)")
def lookup_finds_the_material(h):
    F = h.F
    n = h.choose([1, 2, 4], "materials")
    mats, ids = build(h, n, (0, 1, 3) if n < 4 else (0, 2))
    ms = F.Materials(mats)
    by = h.choose(["id", "name", "object"], "by")
    via = h.maybe("through find_material")
    if by == "id":
        q = h.int("q", lo=0)
        hit = [m for m, own in zip(mats, ids) if any(bool(q == i) for i in own)]
        fn = ms.find_material if via else ms.find_material_from_id
    elif by == "name":
        k = h.choose(list(range(n)) + ["none", "part"], "which")
        q = {"none": "nobody", "part": "lloy"}[k] if isinstance(k, str) else mats[k].name
        hit = [] if isinstance(k, str) else [mats[k]]
        fn = ms.find_material if via else ms.find_material_from_name
    else:
        q = mats[h.choose(list(range(n)), "which")]
        hit = [q]
        fn = ms.find_material
    if hit:
        got = h.accepts("an existing material is found", fn, q)
        h.prove("the material looked up", got is hit[0])
    else:
        h.raises("a material that does not exist is an error", Exception, fn, q)


@contract("C16", functions=["Materials.create_properties", "ArheniusCoeff.eval_cell", "ThermalProp.eval_cell", "Simulation.initialise"], bounded="up to 3 materials, up to 2 ids each", weight=3)
def properties_are_those_of_the_material(h):
    F, f = h.F, h.f
    n = h.choose([1, 2, 3], "materials")
    heat, soret, solub = h.maybe("thermal"), h.maybe("soret"), h.maybe("solubility")
    call = h.maybe("functions of temperature") if heat or soret else False
    chem = h.maybe("chemical potential") if solub else False  # (which supports one subdomain per material)
    mats, ids = build(h, n, (0,) if chem else (0, 2), heat=heat, callables=call, soret=soret, solub="sievert" if solub else None)
    surfs = h.ids("s", 2)
    fm = h.mesh([i for own in ids for i in own], surfs)
    sim = simulation(h, fm, list(mats), T=h.fun("T", scale=600.0), soret=soret, chemical_pot=chem)
    sim.initialise()
    if chem:
        for m, own in zip(mats, ids):
            for i in own:
                h.same("solubility at the initial temperature", sim.materials.S, arr(h, m.S_0, m.E_S, sim.T.T), h.at_vertex(i))
    h.havoc(sim.T.T, "T", scale=600.0)
    T = sim.T.T
    ms = sim.materials
    for m, own in zip(mats, ids):
        for i in own:
            at = h.at_vertex(i)
            h.same("diffusivity", ms.D, arr(h, m.D_0, m.E_D, T), at)
            if solub and not chem:
                h.same("solubility", ms.S, arr(h, m.S_0, m.E_S, T), at)
            if heat:
                h.same("thermal conductivity", ms.thermal_cond, prop_at(m.thermal_cond, T), at)
                h.same("heat capacity", ms.heat_capacity, prop_at(m.heat_capacity, T), at)
                h.same("density", ms.density, prop_at(m.rho, T), at)
            if soret:
                h.same("heat of transport", ms.Q, prop_at(m.Q, T), at)


@contract("C16", functions=["MeshFromVertices.generate_mesh_from_vertices", "Mesh1D.define_volume_markers", "Mesh1D.define_surface_markers", "Materials.find_subdomain_from_x_coordinate", "Mesh1D.define_measures"],
          bounded="up to 4 vertices (any positions, any order, repeated or not), up to 3 intervals (any cuts)", weight=8)
def one_dimensional_marks(h):
    F, f = h.F, h.f
    layout = h.choose(["no borders", [1], [1, 1], [1, 2], [2, 1], [2], [1, 1, 1]], "intervals per material")
    nv = h.choose([2, 3, 4] if layout in ("no borders", [1], [1, 1]) else [3], "vertices")
    start = h.choose([0, "any"], "start") if layout == "no borders" else 0
    coord = "cartesian"
    vs = [h.real("start") if start == "any" else 0]
    for i in range(nv - 1):
        x = h.real(f"x{i}", pos=True)
        if not h.symbolic and not x > vs[-1]:
            x = vs[-1] + x
        h.assume(x > vs[-1])
        vs.append(x)
    size = vs[-1]
    order = h.choose(["sorted", "reversed", "rotated"], "order of the vertices")
    given = {"sorted": list(vs), "reversed": vs[::-1], "rotated": vs[1:] + vs[:1]}[order]
    if h.maybe("a vertex twice"):
        given = given + [vs[0]]
    if layout == "no borders":
        ids = h.ids("v", 1)
        mats, where = [material(h, "0", ids[0])], [(vs[0], size, ids[0])]
    else:
        n = sum(layout)
        ids = h.ids("v", n)
        cuts = [0]
        for i in range(n - 1):
            c = h.real(f"cut{i}", pos=True)
            if not h.symbolic:
                c = cuts[-1] + (size - cuts[-1]) * h.rnd.uniform(0.2, 0.7)
            h.assume(c > cuts[-1])
            h.assume(c < size)
            cuts.append(c)
        cuts.append(size)
        perm = list(range(n)) if n == 1 or not h.maybe("intervals reversed") else list(range(n))[::-1]
        iv = [[cuts[i], cuts[i + 1]] for i in perm]
        mats, where, k = [], [], 0
        for j, m in enumerate(layout):
            own = iv[k:k + m]
            shared = m > 1 and h.maybe(f"one id for the intervals of {j}")
            mid = ids[k] if m == 1 or shared else ids[k:k + m]
            mats.append(material(h, str(j), mid, borders=own[0] if m == 1 else own))
            for q, (a, b) in enumerate(own):
                where.append((a, b, ids[k] if shared or m == 1 else ids[k + q]))
            k += m
    fm = F.MeshFromVertices(given)
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0))
    sim.initialise()
    mesh = sim.mesh
    cells, facets = list(f.cells(mesh.mesh)), list(f.facets(mesh.mesh))
    mids = sorted(((c.midpoint().x(), c) for c in cells), key=lambda p: p[0]) if not h.symbolic else [(c.midpoint().x(), c) for c in cells]
    if h.prove("one cell between neighbouring vertices", len(cells) == nv - 1 and len(facets) == nv, f"{len(cells)} cells, {len(facets)} facets"):
        for i, (x, c) in enumerate(mids):
            h.eq("cells join neighbouring vertices", x, (vs[i] + vs[i + 1]) / 2)
            mark = mesh.volume_markers[c]
            h.prove("mark of the cell", any((bool(a <= x) and bool(x <= b) and bool(mark == s)) for a, b, s in where), f"cell at {x} marked {mark}; intervals {where}")
        for fc in facets:
            x = fc.midpoint().x()
            mark = mesh.surface_markers[fc]
            want = 1 if bool(x == vs[0]) else (2 if bool(x == size) else 0)
            h.prove("marks of the ends", bool(mark == want), f"facet at {x} marked {mark} instead of {want}")
    h.prove("integrals use the marks of the cells", mesh.dx.subdomain_data() is mesh.volume_markers)
    h.prove("integrals use the marks of the ends", mesh.ds.subdomain_data() is mesh.surface_markers)


@contract("C16", functions=["Mesh.define_measures", "Simulation.initialise"])
def given_marks_are_used(h):
    F = h.F
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    dim = h.choose([1, 2, 3], "dimension")
    fm = h.mesh(vols, surfs, dim=dim)
    vm, sm = fm.volume_markers, fm.surface_markers
    sim = simulation(h, fm, [material(h, str(k), vols[k]) for k in range(2)], T=h.fun("T", scale=600.0))
    sim.initialise()
    h.prove("the marks given for the volumes are kept", sim.mesh.volume_markers is vm and sim.mesh.dx.subdomain_data() is vm)
    h.prove("the marks given for the surfaces are kept", sim.mesh.surface_markers is sm and sim.mesh.ds.subdomain_data() is sm)
