"""pieces of models shared by the contracts"""
KB = 8.6173303e-05


def settings(h, transient=True, final_time=None, **kw):
    F = h.F
    kw.setdefault("absolute_tolerance", 1e10)
    kw.setdefault("relative_tolerance", 1e-10)
    return F.Settings(transient=transient, final_time=final_time, **kw)


def kB(h):
    return h.F.k_B


def constants(h):
    h.prove("k_B is the Boltzmann constant in eV/K", abs(h.F.k_B / 8.617333262e-05 - 1) < 1e-5, str(h.F.k_B))


def arr(h, pre, E, T):
    """Arrhenius law of the contracts (written independently of the code)"""
    return pre * h.f.exp(-(E / (h.F.k_B * T)))


def material(h, tag, ids, solub=None, heat=False, soret=False, callables=False, **kw):
    F = h.F
    d = dict(id=ids, D_0=h.real(f"D_0_{tag}", pos=True), E_D=h.real(f"E_D_{tag}", scale=0.1), name=f"mat_{tag}")
    if solub:
        d.update(S_0=h.real(f"S_0_{tag}", pos=True), E_S=h.real(f"E_S_{tag}", scale=0.05), solubility_law=solub)
    if heat:
        if callables:
            d.update(thermal_cond=h.callfun(f"lam_{tag}"), heat_capacity=h.callfun(f"cp_{tag}"), rho=h.callfun(f"rho_{tag}"))
        else:
            d.update(thermal_cond=h.real(f"lam_{tag}", pos=True), heat_capacity=h.real(f"cp_{tag}", pos=True), rho=h.real(f"rho_{tag}", pos=True))
    if soret:
        d["Q"] = h.callfun(f"Q_{tag}") if callables else h.real(f"Q_{tag}")
    d.update(kw)
    return F.Material(**d)


def prop_at(p, T):
    return p(T) if callable(p) else p


def vol_ids(mat):
    return mat.id if isinstance(mat.id, list) else [mat.id]


def simulation(h, fm, mats, transient=True, T=None, sources=None, bcs=None, traps=None, ics=None, exports=None, dt=None, final_time=None, **st):
    F = h.F
    final_time = final_time if final_time is not None else (10.0 if transient else None)
    sim = F.Simulation(
        mesh=fm, materials=mats, sources=sources if sources is not None else [], boundary_conditions=bcs if bcs is not None else [],
        traps=traps, dt=(dt if dt is not None else F.Stepsize(h.real("dt0", pos=True))) if transient else None,
        settings=settings(h, transient, final_time, **st), temperature=T if T is not None else h.fun("T", scale=600.0),
        initial_conditions=ics if ics is not None else [], exports=exports, log_level=50)
    return sim


def free_state(h, sim, dt=None):
    """all unknowns, previous values and temperatures arbitrary; dt reassigned"""
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    h.havoc(pb.u_n, "un")
    h.havoc(sim.T.T, "T", scale=600.0)
    h.havoc(sim.T.T_n, "Tn", scale=600.0)
    if sim.dt is not None:
        h.set_const(sim.dt.value, h.real("dt", pos=True) if dt is None else dt)
    return pb


def dot_grad(h, coord, fm, k, a, v):
    """integrand of the weak divergence of -k grad(a) in each coordinate system"""
    f = h.f
    if coord == "cartesian":
        return k * f.dot(f.grad(a), f.grad(v))
    r = f.SpatialCoordinate(fm.mesh)[0]
    p = {"cylindrical": 1, "spherical": 2}[coord]
    # r^p grad(a).grad(v r^-p) = grad(a).grad(v) - p v/r  da/dr
    return k * (f.dot(f.grad(a), f.grad(v)) - p * v / r * f.grad(a)[0])


def clock(h):
    """time at the start of an arbitrary iteration, its step size, a final time beyond it"""
    t0, dt, extra = h.real("t0", nonneg=True), h.real("dt", pos=True), h.real("extra", pos=True)
    return t0, dt, t0 + dt + extra


def rebuild(h, sim, heat=False, traps=True):
    """the equations of the model embedded in an arbitrarily larger one"""
    if not h.symbolic:
        return
    pb = sim.h_transport_problem
    mats = h.embed(sim, traps)
    sim.attribute_source_terms()
    if heat:
        sim.T.define_variational_problem(mats, sim.mesh, sim.dt)
        sim.T.create_dirichlet_bcs(sim.mesh.surface_markers)
        return
    pb.mobile.boundary_conditions = []
    pb.attribute_flux_boundary_conditions()
    pb.define_variational_problem(mats, sim.mesh, sim.dt)
    pb.create_dirichlet_bcs(mats, sim.mesh)
