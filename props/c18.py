from pyvc.harness import contract
from .common import *
from .c05 import EXT, NEU
from .c06 import heat_bcs
from .c07 import flux
from .c09 import dirichlet
from .c11 import FLUX, DIRI, HEAT


class Memo:
    """builds the same model again: the same numbers and choices under the same names, new objects"""
    def __init__(self, h):
        self.__dict__.update(h=h, known={})

    def __getattr__(self, n):
        return getattr(self.h, n)

    def _once(self, key, make):
        if key not in self.known:
            self.known[key] = make()
        return self.known[key]

    def real(self, name, **kw):
        return self._once(("real", name), lambda: self.h.real(name, **kw))

    def int(self, name, **kw):
        return self._once(("int", name), lambda: self.h.int(name, **kw))

    def ids(self, name, n, **kw):
        return list(self._once(("ids", name), lambda: self.h.ids(name, n, **kw)))

    def choose(self, options, label):
        options = list(options)
        return options[self._once(("choose", label), lambda: self.h.choose(list(range(len(options))), label))]

    def maybe(self, label):
        return self._once(("maybe", label), lambda: self.h.maybe(label))

    def mesh(self, vols, surfs, coord="cartesian", dim=1):
        if "mesh" not in self.known:
            self.known["mesh"] = self.h.mesh(vols, surfs, coord, dim=dim)
            return self.known["mesh"]
        return self.h.mesh_again(self.known["mesh"])


KINDS = (["plain", "source", "source list", "implantation", "trap source", "decay", "decay all", "density", "density list", "density expression", "trap list", "extrinsic", "neutron", "kinetics", "kinetics function"]
         + ["initial", "initial trap", "initial theta", "soret", "adaptive", "milestones", "exports", "exports sparse", "text times", "trap exports", "steady exports", "steady heat", "steady kinetics"]
         + ["flux " + k for k in FLUX] + ["value " + k for k in DIRI] + ["trap value valuefun"]
         + ["kept jacobian", "everything", "steady everything", "everything chemical", "shared objects"] + ["heat source", "heat stationary", "heat temperature dependent"] + ["heat " + k for k in HEAT])


def build(h, kind):
    """a new model of this kind; the same one each time"""
    F = h.F
    heat = kind.startswith("heat") or kind == "steady heat"
    steady = kind.startswith("steady")
    keep = kind == "kept jacobian"
    law = h.choose([None, "sievert", "henry"], "chemical potential") if kind.split()[0] in ("value", "flux", "source", "initial", "plain") and kind != "initial trap" else None
    if kind == "everything chemical":
        law = "sievert"
    if kind == "initial theta":
        law = law or "sievert"
    vols, surfs = h.ids("v", 2), h.ids("s", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, str(k), vols[k], solub=law, heat=True, soret=kind in ("soret", "everything"), callables=kind == "heat temperature dependent") for k in range(2)]
    traps, sources, bcs, ics, exports = [], [], [], [], []

    def trap(j, density, where):
        p = [h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1)]
        if isinstance(where, list):
            p = [[x] * len(where) for x in p]
        traps.append(F.Trap(*p, materials=where, density=density))
    dts, tf = None, None
    dt0 = h.real("dt0", pos=True)
    if kind == "source":
        sources += [F.Source(h.fun("s0"), volume=vols[0], field=0), F.Source(h.fun("s1"), volume=vols[1], field="solute")]
    elif kind == "source list":
        sources.append(F.Source(h.fun("s0"), volume=[vols[0], vols[1]], field=0))
    elif kind == "implantation":
        sources.append(F.ImplantationFlux(flux=h.fun("fl"), imp_depth=h.real("depth"), width=h.real("width", pos=True), volume=vols[0]))
    elif kind in ("trap source", "decay", "decay all"):
        trap(0, h.real("n0", pos=True), mats[0])
        trap(1, h.real("n1", pos=True), "mat_1")
        if kind == "trap source":
            sources.append(F.Source(h.fun("s0"), volume=vols[0], field=1))
            sources.append(F.Source(h.fun("s1"), volume=vols[1], field="2"))
        else:
            sources.append(F.RadioactiveDecay(h.real("lam", pos=True), volume=vols[0], field="all" if kind == "decay all" else 1))
    elif kind == "density":
        trap(0, h.fun("n0"), mats[0])
        trap(1, h.fun("n1"), mats[1])
    elif kind == "density expression":
        trap(0, F.as_expression(h.fun("n0")), "mat_0")
    elif kind == "density list":
        trap(0, [h.fun("n0"), h.fun("n1")], [mats[1], mats[0]])
    elif kind == "trap list":
        trap(0, [h.real("n0", pos=True), h.real("n1", pos=True)], ["mat_1", "mat_0"])
        trap(1, h.real("n2", pos=True), mats[0])
    elif kind in ("extrinsic", "neutron"):
        names, cls = (EXT, F.ExtrinsicTrap) if kind == "extrinsic" else (NEU, F.NeutronInducedTrap)
        for j in range(2):
            traps.append(cls(h.real(f"k0_{j}", pos=True), h.real(f"Ek_{j}", scale=0.1), h.real(f"p0_{j}", pos=True), h.real(f"Ep_{j}", scale=0.1), materials=mats[j],
                             **{nm: h.fun(f"{nm}{j}", scale=0.05 if nm == "E_A" else 1.0) for nm in names}))
    elif kind in ("kinetics", "kinetics function", "steady kinetics"):
        fun = kind == "kinetics function"
        r = {}
        for q in ("k_sb", "k_bs", "J_vs"):
            g = h.callfun(q)
            r[q] = (lambda T, cs, c, p1, g=g: g(T, cs, c, p1)) if fun else h.real(q, pos=True)
        kw = dict(p1=h.fun("p1")) if fun else {}
        bcs.append(F.SurfaceKinetics(lambda_IS=h.real("lambda", pos=True), n_surf=h.real("nsurf", pos=True), n_IS=h.real("nIS", pos=True),
                                     initial_condition=h.real("ini", pos=True), surfaces=[surfs[1], surfs[0]], **r, **kw))
        trap(0, h.real("n0", pos=True), mats[0])
        exports.append(F.DerivedQuantities([F.AdsorbedHydrogen(surface=surfs[0])]))
    elif kind in ("initial", "initial theta"):
        ics.append(F.InitialCondition(field=0, value=h.fun("c0", t=False)))
    elif kind == "initial trap":
        trap(0, h.real("n0", pos=True), mats[0])
        ics += [F.InitialCondition(field=1, value=h.fun("ct0", t=False)), F.InitialCondition(field="solute", value=h.real("c0", pos=True))]
    elif kind == "adaptive":
        dts = F.Stepsize(dt0, stepsize_change_ratio=2, dt_min=1e-12, max_stepsize=3 * dt0, milestones=[2.5 * dt0, 1.5 * dt0])
        tf = 4 * dt0
    elif kind == "milestones":
        dts = F.Stepsize(dt0, milestones=[1.5 * dt0, 0.5 * dt0])
        tf = 2 * dt0
    elif kind in ("exports", "exports sparse", "steady exports"):
        sparse = kind == "exports sparse"
        qs = [F.TotalVolume(field="solute", volume=vols[0]), F.AverageSurface(field="T", surface=surfs[1]), F.SurfaceFlux(field="solute", surface=surfs[0]),
              F.PointValue(field="solute", x=1.5), F.HydrogenFlux(surface=surfs[1])]
        exports += [F.DerivedQuantities(qs[1:4] if sparse else qs, filename="a.csv", show_units=not sparse, **(dict(nb_iterations_between_compute=2, nb_iterations_between_exports=2) if sparse else {})),
                    F.XDMFExport(field="solute", filename="c.xdmf", mode=2 if sparse else 1, checkpoint=sparse),
                    F.XDMFExport(field="T", mode="last", checkpoint=True),
                    F.TXTExport(field="T" if sparse else "solute", filename="p.txt", write_at_last=sparse)]
    elif kind == "text times":
        exports.append(F.TXTExport(field="solute", filename="p.txt", times=[1.5 * dt0, 0.5 * dt0]))
        exports.append(F.TXTExport(field="solute", filename="q.txt", times=[0.5 * dt0], write_at_last=True))
        tf = 2 * dt0
    elif kind == "trap exports":
        trap(0, [h.fun("n0"), h.fun("n1")], [mats[1], mats[0]])
        exports += [F.DerivedQuantities([F.TotalVolume(field="1", volume=vols[0]), F.TotalVolume(field="retention", volume=vols[1])], filename="a.csv"),
                    F.XDMFExport(field="retention", filename="r.xdmf", checkpoint=True), F.XDMFExport(field=1, filename="t.xdmf", label="one", checkpoint=True)]
        if h.symbolic:
            exports.append(F.TrapDensityXDMF(trap=traps[0], filename="d.xdmf", label="dens"))
    elif kind.startswith("flux"):
        bcs.append(flux(h, 1, kind[5:], [surfs[1], surfs[0]])[0])
    elif kind.startswith("value"):
        bcs.append(dirichlet(h, 0, kind[6:], [surfs[1], surfs[0]], 0)[0])
    elif kind.startswith("trap value"):
        trap(0, h.real("n0", pos=True), mats[0])
        bcs.append(dirichlet(h, 0, kind[11:], [surfs[1]], 1)[0])
    elif kind == "heat source":
        sources.append(F.Source(h.fun("hs"), volume=[vols[0], vols[1]], field="T"))
    elif kind in ("heat stationary", "steady heat"):
        sources.append(F.Source(h.fun("hs"), volume=vols[0], field="T"))
        bcs = heat_bcs(h, "dirichlet", surfs, None)[0] + [F.ConvectiveFlux(h_coeff=h.fun("hc"), T_ext=h.fun("Te2", scale=500.0), surfaces=[surfs[0]])][:0]
    elif kind in ["heat " + k for k in HEAT]:
        bcs = heat_bcs(h, kind[5:], surfs, None)[0]
    elif kind in ("everything", "steady everything", "everything chemical"):
        heat = kind != "everything chemical"
        trap(0, [h.fun("n0"), h.real("n1", pos=True)], ["mat_1", mats[0]])
        if not steady:
            traps.append(F.ExtrinsicTrap(h.real("k0_1", pos=True), h.real("Ek_1", scale=0.1), h.real("p0_1", pos=True), h.real("Ep_1", scale=0.1), materials=mats[0], **{nm: h.real(f"{nm}1", pos=True) for nm in EXT}))
            traps.append(F.NeutronInducedTrap(h.real("k0_3", pos=True), h.real("Ek_3", scale=0.1), h.real("p0_3", pos=True), h.real("Ep_3", scale=0.1), materials="mat_1", **{nm: h.real(f"{nm}3", pos=True, scale=0.05 if nm == "E_A" else 1.0) for nm in NEU}))
        trap(2, h.real("n2", pos=True), mats[1])
        sources += [F.Source(h.fun("s0"), volume=[vols[1], vols[0]], field=0), F.Source(h.real("s1"), volume=vols[0], field="1"), F.RadioactiveDecay(h.real("lam", pos=True), volume=vols[1], field="all")]
        bcs += [F.DirichletBC(surfaces=surfs[0], value=h.fun("cb"), field=1), dirichlet(h, 0, "sieverts", [surfs[1]], 0)[0], F.FluxBC(surfaces=surfs[0], value=h.fun("J"), field=0)]
        if heat:
            sources.append(F.Source(h.fun("hs"), volume=vols[1], field="T"))
            bcs += [F.DirichletBC(surfaces=surfs[0], value=h.fun("Tb", scale=500.0), field="T"), F.ConvectiveFlux(h_coeff=h.real("hc", pos=True), T_ext=h.fun("Te", scale=400.0), surfaces=surfs[1])]
        ics += [F.InitialCondition(field=1, value=h.fun("ct0", t=False)), F.InitialCondition(field="solute", value=h.real("c0", pos=True))]
        exports += [F.DerivedQuantities([F.TotalVolume(field="solute", volume=vols[0]), F.TotalVolume(field="1", volume=vols[1])] + ([F.SurfaceFlux(field="T", surface=surfs[0])] if heat else []), filename="a.csv"),
                    F.XDMFExport(field="retention", filename="r.xdmf", checkpoint=True)]
        if not steady:
            exports.append(F.TXTExport(field="solute", filename="p.txt", times=[1.5 * dt0, 0.5 * dt0]))
            dts = F.Stepsize(dt0, milestones=[1.2 * dt0])
            tf = 2 * dt0
    elif kind == "shared objects":
        # one object standing for several parts of the model
        n0 = F.as_expression(h.fun("n0"))
        trap(0, n0, mats[0])
        trap(1, n0, mats[1])
        e0 = F.as_expression(h.fun("e0"))
        sources += [F.Source(e0, volume=vols[0], field=0), F.Source(e0, volume=vols[1], field=2)]
        m = [0.5 * dt0]
        dts = F.Stepsize(dt0, milestones=m)
        exports.append(F.TXTExport(field="solute", filename="p.txt", times=m))
        exports.append(F.TXTExport(field="1", filename="q.txt", times=m))
    if heat:
        tr = not steady and kind != "heat stationary"
        T = F.HeatTransferProblem(transient=tr, initial_condition=h.fun("Tini", t=False, scale=500.0) if tr else None)
    else:
        T = h.fun("T", scale=600.0) if not steady else h.fun("T", t=False, scale=600.0)
    if not exports:
        exports.append(F.DerivedQuantities([F.TotalVolume(field="solute", volume=vols[0])], filename="a.csv"))
    if dts is None and not steady:
        dts = F.Stepsize(dt0)
    sim = simulation(h, fm, mats, transient=not steady, T=T, bcs=bcs, sources=sources, traps=traps or None, ics=ics, exports=exports, chemical_pot=bool(law), soret=kind in ("soret", "everything"), update_jacobian=not keep,
                     final_time=None if steady else (tf if tf is not None else 2 * dt0), dt=dts)
    return sim


class Record:
    """everything observable of one run"""
    def __init__(self, h, sim, places, tag):
        self.h, self.sim, self.places, self.tag = h, sim, places, tag
        self.items = []
        self.n = 0

    def add(self, name, v):
        self.items.append((name, v))

    def hook(self, solver, problem, vec):
        h = self.h
        k = self.n
        self.n += 1
        scale = 600.0 if h.target_is(vec, self.sim.T.T) else 1.0
        self.add(f"starting point of the solve {k}", ("content", h.vec_content(vec)))
        h.vec_set(vec, f"guess{k}", scale)
        for at, typ, sid in self.places:
            self.add(f"equation of solve {k} on {typ}", h.val(h.total(problem.residual_form, typ, sid), at))
        if self.sim.h_transport_problem.u is not None and h.target_is(vec, self.sim.h_transport_problem.u):
            h.jacobian_is("Jacobian", problem, self.sim.h_transport_problem.u, self.places)
        infos = [h.bc_info(b) for b in problem.bcs]
        self.add("number of prescribed values", ("plain", len(infos)))
        for comp, value, surf, markers in infos:
            self.add("field of the prescribed value", ("plain", comp))
            self.add("surface of the prescribed value", surf)
            for at, typ, sid in self.places:
                if typ == "ds" and surf == sid:
                    self.add("prescribed value", h.val(value, at))
        self.add("settings of the solver", ("plain", sorted((str(a), str(b)) for a, b in [(q, solver.parameters[q]) for q in ("absolute_tolerance", "relative_tolerance", "maximum_iterations")])))
        h.vec_set(vec, f"solved{k}", scale)
        return (3 if k % 2 == 0 else 6), True

    def file_name(self, x):
        return getattr(x, "filename", x)

    def run(self):
        h, sim = self.h, self.sim
        h.on_newton(self.hook)
        h.clear_events()
        sim.initialise()
        self.add("clock", sim.t)
        if sim.dt is not None:
            self.add("step size", h.num(sim.dt.value))
            self.add("number of milestones", ("plain", None if sim.dt.milestones is None else len(sim.dt.milestones)))
            for m in sim.dt.milestones or []:
                self.add("milestone", m)
        vols = [p for p in self.places if p[1] == "dx"]
        self.add("previous state", ("content", h.content(sim.h_transport_problem.u_n)))
        self.add("temperature", ("content", h.content(sim.T.T)))
        self.add("previous temperature", ("content", h.content(sim.T.T_n)))
        before = {id(e): self.tables(e) for e in sim.exports}
        self.add("tables are empty", ("plain", [t[1] for e in sim.exports for t in before[id(e)]]))
        sim.run()
        self.add("clock at the end", sim.t)
        self.add("state at the end", ("content", h.content(sim.h_transport_problem.u)))
        self.add("solves", ("plain", self.n))
        for e in sim.exports:
            for name, n, cells in self.tables(e):
                self.add(name + " size", ("plain", n))
                for c in cells:
                    self.add(name, ("plain", c) if isinstance(c, str) else c)
        for ev in h.events("savetxt", "xdmf.write", "write_checkpoint"):
            self.add("kind of output", ("plain", (ev[0], str(self.file_name(ev[1])))))
            if ev[0] == "savetxt":
                self.add("header", ("plain", str(ev[3].get("header"))))
                for r in ev[2]:
                    for c in list(r):
                        self.add("saved value", ("plain", str(c)) if isinstance(c, str) else c)
            else:
                self.add("output time", ev[4] if ev[0] == "write_checkpoint" else ev[3])
                if ev[0] == "write_checkpoint":
                    self.add("output label, appended", ("plain", (ev[3], ev[5])))
                self.add("written field", ("content", h.content(ev[2])))

    def tables(self, e):
        F = self.h.F
        if isinstance(e, F.DerivedQuantities):
            rows = [("table", [len(r) for r in e.data], [c for r in e.data for c in r]), ("times of the table", len(e.t), list(e.t))]
            for q in e:
                rows += [("record", len(q.data), list(q.data)), ("times of the record", len(q.t), list(q.t))]
            return rows
        if isinstance(e, F.TXTExport):
            return [("text table", [len(r) for r in e.data], [c for r in e.data for c in r]), ("text header", e.header, [])]
        return []


def compare(h, a, b, at):
    h.prove("same number of observations", len(a.items) == len(b.items), f"{len(a.items)} and {len(b.items)}: {[x[0] for x in a.items][:60]} against {[x[0] for x in b.items][:60]}")
    for (n1, x), (n2, y) in zip(a.items, b.items):
        if not h.prove("same observations in the same order", n1 == n2, f"{n1} and {n2}"):
            return
        if isinstance(x, tuple) and x[0] == "plain":
            h.prove(n1, x == y, f"{x} and {y}")
        elif isinstance(x, tuple) and x[0] == "content":
            for p in at:
                h.same_contents(n1, x[1], y[1], p)
        else:
            h.eq(n1, x, y)


@contract("C18", functions=["Simulation.initialise", "HTransportProblem.__init__", "HTransportProblem.initialise", "Exports.initialise_derived_quantities", "TXTExport.initialise", "Stepsize.initialise_value",
                            "Traps.create_forms", "Traps.initialise_extrinsic_traps", "Traps.make_traps_materials", "Traps.assign_traps_ids", "Trap.create_trapping_form",
                            "HeatTransferProblem.create_functions", "Temperature.create_functions", "Materials.create_properties", "SurfaceKinetics.create_form", "DirichletBC.create_dirichletbc",
                            "Simulation.attribute_source_terms", "Simulation.attribute_boundary_conditions", "Mesh.define_measures"],
          bounded="one kind of feature at a time, 2 materials, up to 2 traps, runs of up to 5 steps, one or two earlier uses of the model", weight=8)
def used_model_equals_fresh_one(h):
    F, f = h.F, h.f
    kind = h.choose(KINDS, "model")
    mh = Memo(h)
    steady = kind.startswith("steady")
    history = h.choose(["initialised", "initialised twice", "run", "stopped run"] if not steady else ["initialised", "run", "run twice"], "earlier use")
    used = build(mh, kind)
    fresh = build(mh, kind)
    vols, surfs = mh.ids("v", 2), mh.ids("s", 2)
    ats = [h.at_vol(v, used.mesh) for v in vols]
    places = [(ats[i], "dx", vols[i]) for i in (0, 1)] + [(h.at_surf(surfs[i], vols[i], used.mesh), "ds", surfs[i]) for i in (0, 1)]
    n = [0]

    def earlier(solver, problem, vec):
        n[0] += 1
        h.vec_set(vec, f"earlier{n[0]}", 600.0 if h.target_is(vec, used.T.T) else 1.0)
        return 4 if n[0] % 2 else 8, True
    h.on_newton(earlier)
    used.initialise()
    if history == "initialised twice":
        used.initialise()
    elif history == "stopped run":
        used.timer = f.Timer()
        used.iterate()
    elif history == "run":
        used.run()
    elif history == "run twice":
        used.run()
        used.initialise()
        used.run()
    a, b = Record(h, used, places, "used"), Record(h, fresh, places, "fresh")
    a.run()
    b.run()
    compare(h, a, b, ats)
