import math
from pyvc.harness import contract
from .common import *

# class -> (kind, coordinate system)
CLASSES = {
    "TotalVolume": ("total", "vol", "cartesian"), "TotalVolumeCylindrical": ("total", "vol", "cylindrical"), "TotalVolumeSpherical": ("total", "vol", "spherical"),
    "TotalSurface": ("total", "surf", "cartesian"), "TotalSurfaceCylindrical": ("total", "surf", "cylindrical"), "TotalSurfaceSpherical": ("total", "surf", "spherical"),
    "AverageVolume": ("mean", "vol", "cartesian"), "AverageVolumeCylindrical": ("mean", "vol", "cylindrical"), "AverageVolumeSpherical": ("mean", "vol", "spherical"),
    "AverageSurface": ("mean", "surf", "cartesian"), "AverageSurfaceCylindrical": ("mean", "surf", "cylindrical"), "AverageSurfaceSpherical": ("mean", "surf", "spherical"),
    "SurfaceFlux": ("flux", "surf", "cartesian"), "SurfaceFluxCylindrical": ("flux", "surf", "cylindrical"), "SurfaceFluxSpherical": ("flux", "surf", "spherical"),
    "HydrogenFlux": ("flux", "surf", "cartesian"), "ThermalFlux": ("flux", "surf", "cartesian"),
    "PointValue": ("point", None, None), "AdsorbedHydrogen": ("adsorbed", "surf", None),
}
PI = math.pi
# admissible angular ranges: (azimuth, polar)
RANGES = {
    "TotalVolumeCylindrical": ((0, 2 * PI), None), "TotalSurfaceCylindrical": ((0, 2 * PI), None), "SurfaceFluxCylindrical": ((0, 2 * PI), None),
    "TotalVolumeSpherical": ((0, 2 * PI), (0, PI)), "TotalSurfaceSpherical": ((0, 2 * PI), (0, PI)),
    "SurfaceFluxSpherical": ((0, PI), (-PI, PI)),
}
COMPUTES = ["%s.compute" % c for c in CLASSES if c not in ("HydrogenFlux", "ThermalFlux", "AverageSurfaceSpherical")]


def angles(h, cls):
    """(keyword arguments, factor) for an arbitrary admissible range"""
    if cls not in RANGES:
        return {}, 1
    az, pol = RANGES[cls]
    given = h.choose(["given", "default"], "angular range")
    a = (h.real("az0", lo=az[0], hi=az[1]), h.real("az1", lo=az[0], hi=az[1])) if given == "given" else az
    p = None
    kw = {"azimuth_range": a} if given == "given" else {}
    if pol is not None:
        p = (h.real("pol0", lo=pol[0], hi=pol[1]), h.real("pol1", lo=pol[0], hi=pol[1])) if given == "given" else pol
        if given == "given":
            kw["polar_range"] = p
    if pol is None:
        return kw, a[1] - a[0]
    if cls == "SurfaceFluxSpherical":
        # this class calls azimuth the angle in [0, pi]
        return kw, (p[1] - p[0]) * (h.cos(a[0]) - h.cos(a[1]))
    return kw, (a[1] - a[0]) * (h.cos(p[0]) - h.cos(p[1]))


@contract("C12", functions=COMPUTES + ["SurfaceFlux.prop", "DerivedQuantities.assign_measures_to_quantities", "DerivedQuantities.assign_properties_to_quantities",
                                       "DerivedQuantities.compute", "Exports.write", "Exports.initialise_derived_quantities", "Materials.create_properties",
                                       "ArheniusCoeff.eval_cell", "ThermalProp.eval_cell", "Simulation.update_post_processing_solutions"],
          bounded="2 or 3 volumes, 2 surfaces, 2 materials, up to 2 traps, one quantity among others", weight=8)
def quantity_is_its_integral(h):
    F, f = h.F, h.f
    cls = h.choose(list(CLASSES), "quantity")
    kind, where, coord = CLASSES[cls]
    if coord is None:
        coord = h.choose(["cartesian", "cylindrical", "spherical"], "coord")
    if cls == "HydrogenFlux":
        field = "solute"
    elif cls == "ThermalFlux":
        field = "T"
    elif kind == "adsorbed":
        field = "adsorbed"
    elif kind == "flux":
        field = h.choose([0, "0", "solute", "T"], "field")
    else:
        field = h.choose([0, "solute", 1, "2", "T", "retention"], "field")
    soret = h.maybe("soret") if kind == "flux" else False
    callables = h.maybe("properties are functions") if kind == "flux" else False
    ntraps = 2 if field in (1, "2") else (h.choose([0, 2], "traps") if field in ("retention", "solute", "adsorbed") else 0)
    chem = h.maybe("chemical potential") if field == 0 and kind in ("flux", "mean", "point") else False
    transient = h.maybe("transient") if kind == "point" else True
    # materials: the second one on two volumes when there are no traps
    lists = ntraps == 0 and not chem and kind != "adsorbed"
    nv = 3 if lists else 2
    vols, surfs = h.ids("v", nv), h.ids("s", 2)
    dim = 1
    if coord != "spherical" and kind != "adsorbed" and field in (0, "T"):
        dim = h.choose([1, 2], "dimension")
    fm = h.mesh(vols, surfs, coord, dim=dim)
    ids = [vols[0], [vols[1], vols[2]]] if lists else [vols[0], vols[1]]
    mats = [material(h, str(k), ids[k], heat=True, soret=soret, callables=callables, solub="sievert" if chem else None) for k in range(2)]
    traps = [F.Trap(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1),
                    materials=mats[j % 2], density=h.real(f"n_{j}", pos=True)) for j in range(ntraps)]
    at = h.choose([0, 1], "surface") if where == "surf" else (h.choose(list(range(nv)), "volume") if where == "vol" else None)
    bcs = []
    if kind == "adsorbed":
        bcs.append(F.SurfaceKinetics(k_sb=h.real("ksb", pos=True), k_bs=h.real("kbs", pos=True), lambda_IS=h.real("lam", pos=True), n_surf=h.real("nsurf", pos=True),
                                     n_IS=h.real("nIS", pos=True), J_vs=h.real("Jvs"), surfaces=[surfs[1], surfs[0]], initial_condition=0))
    kw, factor = angles(h, cls)
    place = {} if where is None else ({"surface": surfs[at]} if where == "surf" else {"volume": vols[at]})
    if cls in ("HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"):
        q = getattr(F, cls)(**place)
    elif kind == "point":
        px = h.real("px", lo=1.0, hi=2.0)
        q = F.PointValue(field=field, x=h.choose([px, [px], (px,)], "point") if dim == 1 else [px, 0.25])
        pt = [px] if dim == 1 else [px, 0.25]
    else:
        q = getattr(F, cls)(field=field, **place, **kw)
    # other quantities around it, which must not interfere
    before = F.TotalVolume(field="T", volume=vols[0])
    after = F.SurfaceFlux(field="T", surface=surfs[0]) if kind != "flux" else F.TotalSurface(field="solute", surface=surfs[1])
    dq = F.DerivedQuantities([before, q, after])
    sim = simulation(h, fm, mats, transient=transient, T=h.fun("T", scale=600.0), bcs=bcs, traps=traps or None, exports=[dq], soret=soret, chemical_pot=chem)
    h.on_newton(lambda s, p, v: (3, True))
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    if not chem:
        h.havoc(sim.T.T, "T", scale=600.0)
    sim.t = h.real("t", nonneg=True)
    sim.run_post_processing()
    comps = list(f.split(pb.u)) if ntraps or kind == "adsorbed" else [pb.u]
    T = sim.T.T
    mobile = sim.mobile.post_processing_solution if chem else comps[0]
    if field == "T":
        g = T
    elif field == "retention":
        g = mobile
        for c in comps[1:1 + ntraps]:
            g = g + c
    elif field in (1, "2"):
        g = comps[int(field)]
    elif field == "adsorbed":
        g = comps[1 + ntraps + (0 if at == 1 else 1)]
    else:
        g = mobile
    r = f.SpatialCoordinate(fm.mesh)[0]
    w = {"cartesian": 1, "cylindrical": r, "spherical": r ** 2}[coord]
    if where == "surf":
        dm, mat = fm.ds(surfs[at]), mats[0] if at == 0 else mats[1]
    elif where == "vol":
        dm, mat = fm.dx(vols[at]), mats[0] if at == 0 else mats[1]
    if kind == "total":
        want = f.assemble(w * g * dm) * factor
    elif kind == "mean":
        want = f.assemble(w * g * dm) / f.assemble(w * dm)
    elif kind == "adsorbed":
        want = f.assemble(g * dm)
    elif kind == "point":
        want = value_at(h, sim, g, field, ntraps, comps, mobile, pt)
    else:
        n = f.FacetNormal(fm.mesh)
        lam = prop_at(mat.thermal_cond, T) if field == "T" else arr(h, mat.D_0, mat.E_D, T)
        want = f.assemble(w * lam * f.dot(f.grad(g), n) * dm)
        if soret and field != "T":
            want = want + f.assemble(w * lam * g * prop_at(mat.Q, T) / (h.F.k_B * T ** 2) * f.dot(f.grad(T), n) * dm)
        want = want * factor
    h.prove("one value per call", len(q.data) == 1 and len(q.t) == 1 and len(dq.data) == 2)
    # (the code interpolates the properties; only one-dimensional facets are nodes)
    h.eq("value of the quantity", q.data[-1], want, tol=1e-6 if dim == 1 or kind != "flux" else 0.05)
    h.eq("time of the value", q.t[-1], sim.t)
    h.eq("value in the table", dq.data[-1][2], q.data[-1])
    h.eq("neighbouring quantity", before.data[-1], f.assemble(T * fm.dx(vols[0])))


def value_at(h, sim, g, field, ntraps, comps, mobile, px):
    if h.symbolic:
        return g(px)
    # a point value of the exported fields
    pb = sim.h_transport_problem
    if field == "T":
        return sim.T.T(px)
    if field == "retention":
        s = mobile(px) if not ntraps else pb.u(px)[0]
        for i in range(1, 1 + ntraps):
            s = s + pb.u(px)[i]
        return s
    if field in (1, "2"):
        return pb.u(px)[int(field)]
    return mobile(px) if not ntraps else pb.u(px)[0]


@contract("C12", functions=["%s.azimuth_range" % c for c in RANGES] + ["%s.polar_range" % c for c in RANGES if RANGES[c][1]])
def angular_ranges(h):
    """ranges outside the admissible interval are rejected, others kept; at construction and by assignment"""
    F = h.F
    cls = h.choose(list(RANGES), "class")
    which = h.choose(["azimuth", "polar"] if RANGES[cls][1] else ["azimuth"], "angle")
    lo, hi = RANGES[cls][0] if which == "azimuth" else RANGES[cls][1]
    a, b = h.real("a", lo=-10.0, hi=10.0), h.real("b", lo=-10.0, hi=10.0)
    place = {"volume": 1} if "Volume" in cls else {"surface": 1}
    how = h.choose(["construct", "assign"], "how")
    if how == "construct":
        def make():
            return getattr(F, cls)(field="solute", **place, **{which + "_range": (a, b)})
    else:
        q = getattr(F, cls)(field="solute", **place)

        def make():
            setattr(q, which + "_range", (a, b))
            return q
    h.assume(a <= b)
    if (a < lo) or (b > hi):
        h.raises("an angular range outside its interval is rejected", ValueError, make)
    else:
        o = h.accepts("an admissible angular range is accepted", make)
        r = getattr(o, which + "_range")
        h.eq("lower angle kept", r[0], a)
        h.eq("upper angle kept", r[1], b)


@contract("C12", functions=["MaximumVolume.compute", "MinimumVolume.compute", "DerivedQuantities.compute", "Exports.write"],
          bounded="3 cells in 2 volumes, 4 (continuous) or 6 (discontinuous) degrees of freedom")
def extreme_values(h):
    """largest and smallest value over the cells of the named volume only"""
    F, f = h.F, h.f
    cls = h.choose(["MaximumVolume", "MinimumVolume"], "quantity")
    field = h.choose([0, "solute", "1", "T", "retention"], "field")
    ntraps = 1 if field == "1" else (h.choose([0, 1], "traps") if field == "retention" else 0)
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k]) for k in range(2)]
    traps = [F.Trap(h.real("k0", pos=True), h.real("Ek", scale=0.1), h.real("p0", pos=True), h.real("Ep", scale=0.1), materials=mats, density=h.real("n", pos=True))] if ntraps else None
    at = h.choose([0, 1], "volume")
    q = getattr(F, cls)(field=field, volume=vols[at])
    dq = F.DerivedQuantities([q])
    sim = simulation(h, fm, mats, T=h.fun("T", scale=600.0), traps=traps, exports=[dq])
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    h.havoc(sim.T.T, "T", scale=600.0)
    sim.t = h.real("t", nonneg=True)
    sim.run_post_processing()
    vals = h.cell_values(sim.label_to_function[field], fm, vols, at)
    if field in (0, "solute"):
        u = pb.u
    elif field == "1":
        u = pb.u.sub(1)
    elif field == "T":
        u = sim.T.T
    else:
        u = q.function
    if field != "retention":
        vals = h.cell_values(u, fm, vols, at)
    got = q.data[-1]
    one = False
    for v in vals:
        h.prove("no value of the volume is beyond the extreme", got >= v if cls == "MaximumVolume" else got <= v)
        one = (got == v) | one
    h.prove("the extreme is one of the values in the volume", one)
