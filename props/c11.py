from pyvc.harness import contract
from .common import *
from .c05 import EXT, NEU, rate
from .c06 import heat_bcs
from .c07 import conc, flux
from .c09 import dirichlet

FLUX = ["valuefun", "recfun", "disfun", "massfun", "mass", "custom"]
DIRI = ["valuefun", "sievertsfun", "henryfun", "imp", "impR", "impD", "custom"]
HEAT = ["flux-both", "convective+flux", "custom", "dirichlet", "dirichlet-both+"]
KINDS = (["source", "source expression", "source list", "implantation", "trap source", "trap source expression", "density", "density list", "density expression", "extrinsic", "neutron", "kinetics"]
         + ["flux " + k for k in FLUX] + ["value " + k for k in DIRI] + ["trap value valuefun", "trap value custom"]
         + ["heat source"] + ["heat " + k for k in HEAT])


@contract("C11", functions=["HTransportProblem.update", "HTransportProblem.define_variational_problem", "HTransportProblem.create_dirichlet_bcs", "update_expressions",
                            "Mobile.create_source_form", "Mobile.create_fluxes_form", "Trap.create_trapping_form", "Trap.create_source_form", "Traps.create_forms",
                            "ExtrinsicTrapBase.__init__", "HeatTransferProblem.update", "HeatTransferProblem.define_variational_problem", "HeatTransferProblem.create_dirichlet_bcs",
                            "Temperature.create_functions", "Temperature.update", "SurfaceKinetics.create_form", "DirichletBC.normalise_by_solubility", "*.create_expression", "Simulation.iterate"],
          bounded="one or two time-dependent inputs at a time (every kind at every place), 2 materials, 2 consecutive steps from an arbitrary time", weight=8)
def inputs_at_current_time(h):
    F, f = h.F, h.f
    kind = h.choose(KINDS, "input")
    heat = kind.startswith("heat")
    law = h.choose([None, "sievert", "henry"], "chemical potential") if kind.split()[0] in ("value", "flux", "source") else None
    extra = h.maybe("second object of the same kind") if kind in ("source", "trap source", "density", "extrinsic", "neutron") else False
    Tk = "heat" if heat else h.choose(["time", "constant"], "temperature")
    htr = h.maybe("adaptive") if kind in ("source", "flux valuefun", "value valuefun", "extrinsic", "heat source") else False
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], solub=law, heat=heat) for k in range(2)]
    traps, sources, bcs = [], [], []
    bulk = {0: [], 1: []}       # extra bulk terms: (us, vs, T, t) -> term
    surf = {0: [], 1: []}       # flux terms on the surfaces
    presc = []                  # (component, surface, value(T, t))
    kin, ext, hflux, hdir, hsrc = None, [], {0: [], 1: []}, {0: [], 1: []}, {0: [], 1: []}

    def trap(j, density, mat, spec):
        """spec: [(material index, density(t))]"""
        k0, Ek, p0, Ep = h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1)
        if isinstance(mat, list):
            t_ = F.Trap([k0] * len(mat), [Ek] * len(mat), [p0] * len(mat), [Ep] * len(mat), materials=mat, density=density)
        else:
            t_ = F.Trap(k0, Ek, p0, Ep, materials=mat, density=density)
        traps.append(t_)
        i = len(traps)
        for m, d in spec:
            bulk[m].append(lambda us, vs, T, t, d=d, i=i: (arr(h, k0, Ek, T) * us[0] * (d(t) - us[i]) - arr(h, p0, Ep, T) * us[i]) * (vs[0] - vs[i]))
        return i
    if kind in ("source", "source expression", "source list"):
        for q in range(2 if extra else 1):
            v = h.fun(f"s{q}")
            v = F.as_expression(v) if kind == "source expression" else v
            where = [0, 1] if kind == "source list" else [q]
            sources.append(F.Source(v, volume=[vols[i] for i in where] if kind == "source list" else vols[q], field=[0, "0", "solute"][q]))
            for i in where:
                bulk[i].append(lambda us, vs, T, t, q=q: -h.funval(f"s{q}", t) * vs[0])
    elif kind == "implantation":
        w, d = h.real("width", pos=True), h.real("depth")
        sources.append(F.ImplantationFlux(flux=h.fun("fl"), imp_depth=d, width=w, volume=vols[0]))
        x = f.SpatialCoordinate(fm.mesh)[0]
        bulk[0].append(lambda us, vs, T, t: -h.funval("fl", t) / (w * (2 * 3.141592653589793) ** 0.5) * f.exp(-0.5 * ((x - d) / w) ** 2) * vs[0])
    elif kind in ("trap source", "trap source expression"):
        n = h.real("n", pos=True)
        i = trap(0, n, mats[0], [(0, lambda t: n)])
        for q in range(2 if extra else 1):
            v = F.as_expression(h.fun(f"s{q}")) if kind.endswith("expression") else h.fun(f"s{q}")
            sources.append(F.Source(v, volume=vols[q], field=[1, "1"][q]))
            bulk[q].append(lambda us, vs, T, t, q=q: -h.funval(f"s{q}", t) * vs[i])
    elif kind == "density":
        for q in range(2 if extra else 1):
            trap(q, h.fun(f"n{q}"), mats[q], [(q, lambda t, q=q: h.funval(f"n{q}", t))])
    elif kind == "density expression":
        trap(0, F.as_expression(h.fun("n0")), mats[0], [(0, lambda t: h.funval("n0", t))])
    elif kind == "density list":
        trap(0, [h.fun("n0"), h.fun("n1")], [mats[1], mats[0]], [(1, lambda t: h.funval("n0", t)), (0, lambda t: h.funval("n1", t))])
    elif kind in ("extrinsic", "neutron"):
        for q in range(2 if extra else 1):
            k0, Ek, p0, Ep = h.real(f"k0_{q}", pos=True), h.real(f"Ek_{q}", scale=0.1), h.real(f"p0_{q}", pos=True), h.real(f"Ep_{q}", scale=0.1)
            names = EXT if kind == "extrinsic" else NEU
            sc = {nm: 0.05 if nm == "E_A" else 1.0 for nm in names}
            cls = F.ExtrinsicTrap if kind == "extrinsic" else F.NeutronInducedTrap
            tr = cls(k0, Ek, p0, Ep, materials=mats[q], **{nm: h.fun(f"{nm}{q}", scale=sc[nm]) for nm in names})
            traps.append(tr)
            ext.append((tr, ("E" if kind == "extrinsic" else "N", {nm: (lambda t, nm=nm, q=q: h.funval(f"{nm}{q}", t, scale=sc[nm])) for nm in names})))
            bulk[q].append(lambda us, vs, T, t, tr=tr, i=q + 1, a=(k0, Ek, p0, Ep): (arr(h, a[0], a[1], T) * us[0] * (tr.density[0] - us[i]) - arr(h, a[2], a[3], T) * us[i]) * (vs[0] - vs[i]))
    elif kind == "kinetics":
        g = {q: h.callfun(q) for q in ("ksb", "kbs", "Jvs")}
        lam, ns, ni, ic = (h.real(q, pos=True) for q in ("lambda", "nsurf", "nIS", "ini"))
        mk = lambda q: (lambda T, cs, c, p1, p2, p3: g[q](T, cs, c, p1, p2, p3))
        bcs.append(F.SurfaceKinetics(k_sb=mk("ksb"), k_bs=mk("kbs"), J_vs=mk("Jvs"), lambda_IS=lam, n_surf=ns, n_IS=ni, initial_condition=ic, surfaces=surfs[1], p1=h.fun("p1"), p2=h.fun("p2"), p3=h.fun("p3")))

        def kin(us, uns, vs, T, t):
            c, cs, cn, csn = us[0], us[1], uns[0], uns[1]
            R = {q: g[q](T, cs, c, h.funval("p1", t), h.funval("p2", t), h.funval("p3", t)) for q in g}
            Jbs, Jsb = R["kbs"] * c * (1 - cs / ns), R["ksb"] * cs * (1 - c / ni)
            return (cs - csn) / dt * vs[1] + lam * (c - cn) / dt * vs[0] - (R["Jvs"] + Jbs - Jsb) * vs[1] - (Jsb - Jbs) * vs[0]
    elif kind.startswith("flux"):
        bc, fl = flux(h, 1, kind[5:], [surfs[1], surfs[0]])
        bcs.append(bc)
        for i in (0, 1):
            surf[i].append(fl)
    elif kind.startswith("value"):
        bc, comp, val = dirichlet(h, 0, kind[6:], [surfs[1], surfs[0]], 0)
        bcs.append(bc)
        presc += [(0, 1, val), (0, 0, val)]
    elif kind.startswith("trap value"):
        n = h.real("n", pos=True)
        trap(0, n, mats[0], [(0, lambda t: n)])
        bc, comp, val = dirichlet(h, 0, kind[11:], [surfs[1]], 1)
        bcs.append(bc)
        presc.append((1, 1, val))
    elif kind == "heat source":
        sources.append(F.Source(h.fun("hs"), volume=[vols[0], vols[1]], field="T"))
        for i in (0, 1):
            hsrc[i].append(lambda t: h.funval("hs", t))
    elif heat:
        bcs, hflux, hdir = heat_bcs(h, kind[5:], surfs, None)
    if heat:
        T = F.HeatTransferProblem(transient=True, initial_condition=h.real("Tini", scale=500.0))
    else:
        T = h.fun("T", scale=600.0) if Tk == "time" else h.real("T", pos=True, scale=600.0)
    t0, dt, tf = clock(h)
    tf = tf + dt
    dts = F.Stepsize(h.real("dt0", pos=True), stepsize_change_ratio=h.real("ratio", lo=1.01), dt_min=1e-12) if htr else None
    sim = simulation(h, fm, mats, T=T, bcs=bcs, sources=sources, traps=traps or None, chemical_pot=bool(law), final_time=tf, dt=dts)
    st = {"n": 0}
    pb = lambda: sim.h_transport_problem
    nsub = lambda u: list(f.split(u)) if pb().V.num_sub_spaces() else [u]

    def hydrogen(problem, t):
        us, uns, vs = nsub(pb().u), nsub(pb().u_n), nsub(pb().v)
        Tc, Tn = sim.T.T, sim.T.T_n
        form = problem.residual_form
        for k in (0, 1):
            m = mats[k]
            c, cn = conc(h, law, m, us[0], Tc), conc(h, law, m, uns[0], Tn)
            spec = arr(h, m.D_0, m.E_D, Tc) * f.dot(f.grad(c), f.grad(vs[0])) + (c - cn) / dt * vs[0]
            for i in range(1, len(traps) + 1):
                spec = spec + (us[i] - uns[i]) / dt * vs[i]
            for b in bulk[k]:
                spec = spec + b(us, vs, Tc, t)
            h.same("bulk inputs have their value at the time being solved", h.total(form, "dx", vols[k]), spec, h.at_vol(vols[k]))
        for q, s in enumerate(surfs):
            at = h.at_surf(s, vols[q])
            want = 0 * vs[0]
            c = conc(h, law, mats[q], us[0], Tc)
            for fl in surf[q]:
                want = want - fl(Tc, c, t) * vs[0]
            if kin and q == 1:
                want = want + kin(us, uns, vs, Tc, t)
            h.same("surface inputs have their value at the time being solved", h.total(form, "ds", s), want, at)
        infos = [h.bc_info(b) for b in problem.bcs]
        h.prove("prescribed values present", len(infos) == len(presc))
        for comp, q, val in presc:
            mine = [b for b in infos if b[2] == surfs[q] and (b[0] or 0) == comp]
            h.prove("prescribed values present", len(mine) == 1)
            at = h.at_surf(surfs[q], vols[q])
            v = val(Tc, t)
            if comp == 0 and law:
                S = arr(h, mats[q].S_0, mats[q].E_S, Tc)
                v = v / S if law == "sievert" else (v / S + f.DOLFIN_EPS) ** 0.5
            h.same("prescribed values have their value at the time being solved", mine[0][1], v, at)

    def hook(solver, problem, vec):
        t = st["t"]
        if h.target_is(vec, sim.T.T):
            st["n"] += 1
            Tc, Tn, v = sim.T.T, sim.T.T_n, f.TestFunction(sim.T.T.function_space())
            form = problem.residual_form
            h.havoc(Tc, "Tguess", scale=600.0)
            for k in (0, 1):
                m = mats[k]
                spec = m.thermal_cond * f.dot(f.grad(Tc), f.grad(v)) + m.rho * m.heat_capacity * (Tc - Tn) / dt * v
                for s_ in hsrc[k]:
                    spec = spec - s_(t) * v
                h.same("heat sources have their value at the time being solved", h.total(form, "dx", vols[k]), spec, h.at_vol(vols[k]))
            infos = [h.bc_info(b) for b in problem.bcs]
            for q, s in enumerate(surfs):
                at = h.at_surf(s, vols[q])
                want = 0 * v
                for fl in hflux[q]:
                    want = want - fl(Tc, t) * v
                h.same("heat fluxes have their value at the time being solved", h.total(form, "ds", s), want, at)
                mine = [b for b in infos if b[2] == s]
                h.prove("prescribed temperatures present", len(mine) == len(hdir[q]))
                for b, d in zip(mine, hdir[q]):
                    h.same("prescribed temperatures have their value at the time being solved", b[1], d(t), at)
            h.havoc(Tc, "Tsolved%d" % st["n"], scale=600.0)
            return 3, True
        for tr, law_ in ext:
            if h.target_is(vec, tr.density[0]):
                n_, v = tr.density[0], f.TestFunction(tr.density[0].function_space())
                h.same("rate-law parameters have their value at the time being solved", h.total(problem.residual_form, "dx", vols[0]),
                       (n_ - tr.density_previous_solution) / dt * v - rate(h, law_, n_, sim.T.T, t) * v, h.at_vol(vols[0]))
                h.havoc(n_, "dens%d" % st["n"])
                return 2, True
        st["n"] += 1
        if Tk == "time":
            h.const_content(sim.T.T, h.funval("T", t, scale=600.0), "prescribed temperature has its value at the time being solved", h.at_vol(vols[0]))
        if not heat:
            h.same_content("previous temperature is that of the step before", sim.T.T_n, st["Tbefore"])
        hydrogen(problem, t)
        h.havoc(pb().u, "solved%d" % st["n"])
        return (5, True)
    h.on_newton(hook)
    sim.initialise()
    # any earlier history
    h.havoc(pb().u, "u")
    h.havoc(pb().u_n, "un")
    if heat:
        h.havoc(sim.T.T, "Tk", scale=600.0)
        h.havoc(sim.T.T_n, "Tk-1", scale=600.0)
    for tr, _ in ext:
        h.havoc(tr.density[0], "densA")
        h.havoc(tr.density_previous_solution, "densB")
    h.set_const(sim.dt.value, dt)
    sim.t = t0
    sim.timer = f.Timer()
    for step in (1, 2):
        st["t"] = t0 + step * dt
        st["Tbefore"] = h.content(sim.T.T)
        h.set_const(sim.dt.value, dt)
        sim.iterate()
    h.prove("both steps were solved", st["n"] == (4 if heat else 2), str(st["n"]))
