from pyvc.harness import contract
from .common import *


def rounded(h, name, x):
    """a time that differs from x by rounding only"""
    side = h.choose(["below", "above"], f"rounding of {name}")
    if not h.symbolic:
        return x * (1 - 1e-12 if side == "below" else 1 + 1e-12)
    t = h.real(f"near_{name}", pos=True)
    if side == "below":
        h.assume(t < x)
        h.assume(t >= x * (1 - 1e-9))
    else:
        h.assume(t > x)
        h.assume(t <= x * (1 + 1e-9))
    return t


def about(t, x):
    """equal up to rounding"""
    return (t >= x * (1 - 1e-9)) & (t <= x * (1 + 1e-9))


def at_final(h, t, tf):
    """(certainly the final time, certainly before it); in between the code may decide either way"""
    if tf is None:
        return True, False
    return about(t, tf), t < tf * 0.999


def base_model(h, exports, transient=True, final_time=None, dt=None, dim=1, **st):
    F = h.F
    vols, surfs = h.ids("v", 1), h.ids("s", 2)
    fm = h.mesh(vols, surfs, dim=dim)
    mats = [material(h, "0", vols[0], heat=True)]
    ex = exports(vols, surfs)
    sim = simulation(h, fm, mats, transient=transient, T=h.fun("T", t=False, scale=600.0), exports=ex, final_time=final_time, dt=dt, **st)
    return sim, ex, vols, surfs


def saved(h, name):
    """tables written to this file, in order"""
    return [(ev[2], ev[3] if len(ev) > 3 else {}) for ev in h.events("savetxt") if str(ev[1]).endswith(name)]


def table_is(h, name, X, rows):
    """the written table has exactly these rows"""
    X = [list(r) for r in X]
    if not h.prove(name + " (shape)", len(X) == len(rows) and all(len(a) == len(b) for a, b in zip(X, rows)), f"{X} vs {rows}"):
        return
    for a, b in zip(X, rows):
        for x, y in zip(a, b):
            if isinstance(y, str):
                h.prove(name, str(x) == y, f"{x!r} vs {y!r}")
            elif h.symbolic:
                h.eq(name, x, y)
            else:
                h.eq(name, float(x), float(y))


@contract("C13", functions=["Exports.write", "DerivedQuantities.is_compute", "DerivedQuantities.is_export", "DerivedQuantities.compute", "DerivedQuantities.write",
                            "DerivedQuantities.make_header", "XDMFExport.is_export", "XDMFExport.write", "Simulation.run_post_processing"],
          bounded="2 tables, up to 3 quantities each, 2 XDMF exports; one step from an arbitrary earlier history", weight=4)
def one_export_step(h):
    """any iteration number, cadences, time, final time and earlier rows"""
    F, f = h.F, h.f
    steady = h.maybe("steady")
    first = h.maybe("nothing computed before")
    nq = h.choose([1, 3], "number of quantities")
    units = h.maybe("units")
    n1 = h.int("n_compute", lo=1)
    cad = h.choose(["default", "every m"], "writing cadence")
    m1 = None if cad == "default" else h.int("n_export", lo=1)
    folder = h.choose(["", "res/"], "folder") if h.symbolic else ""
    xm = h.choose(["last", "every k"], "xdmf mode")
    mode = "last" if xm == "last" else h.int("mode", lo=1)
    ck = h.maybe("checkpoint")
    k = h.int("iteration", lo=0, hi=None if h.symbolic else 6)
    if not h.symbolic:
        n1, m1, mode = 1 + n1 % 3, (None if m1 is None else 1 + m1 % 3), (mode if mode == "last" else 1 + mode % 3)
    tf = None if steady else h.real("tf", pos=True)
    t = h.real("t", nonneg=True)
    if tf is not None:
        where = h.choose(["before", "final", "rounding"], "time")
        if where == "final":
            t = tf
        elif where == "rounding":
            t = rounded(h, "tf", tf)
        else:
            h.assume(t <= tf)

    def exports(vols, surfs):
        qs = [F.TotalVolume(field="solute", volume=vols[0]), F.AverageSurface(field="T", surface=surfs[1]), F.SurfaceFlux(field="solute", surface=surfs[0])][:nq]
        dq = F.DerivedQuantities(qs, filename=folder + "a.csv", nb_iterations_between_compute=n1, nb_iterations_between_exports=m1, show_units=units)
        other = F.DerivedQuantities([F.TotalSurface(field="T", surface=surfs[0])], filename="b.csv")
        x1 = F.XDMFExport(field="solute", filename="c.xdmf", label="lab", folder="fo", mode=mode, checkpoint=ck)
        x2 = F.XDMFExport(field="T", checkpoint=not ck)
        return [dq, x1, other, x2]
    sim, (dq, x1, other, x2), vols, surfs = base_model(h, exports, transient=True, final_time=h.real("tf_", pos=True) if tf is None else tf)
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    h.havoc(sim.T.T, "T", scale=600.0)
    h.prove("the iteration counter starts at zero", sim.exports.nb_iterations == 0)
    # an arbitrary history
    sim.exports.nb_iterations = k
    sim.exports.final_time = tf
    sim.t = t
    titles = ["t(s)"]
    old = []
    if not first:
        # the header an earlier step made
        for q in dq:
            q.function = pb.u
        old = [dq.make_header(), [h.real("t_old", nonneg=True)] + [h.real(f"old{i}") for i in range(nq)]]
        dq.data = [list(r) for r in old]
        dq.t = [old[1][0]]
        for i, q in enumerate(dq):
            q.data, q.t = [old[1][1 + i]], [old[1][0]]
    h.clear_events()
    sim.run_post_processing()
    due = (k % n1 == 0)
    if due:
        if first:
            titles = ["t(s)"] + [q.title for q in dq]
            want = [titles]
        else:
            want = list(old)
        vals = [q.compute() for q in dq]
        want.append([t] + vals)
        h.prove("one row more", len(dq.data) == len(want) and len(dq.t) == (1 if first else 2))
        table_is(h, "table", dq.data, want)
        h.eq("time of the row", dq.t[-1], t)
        for i, q in enumerate(dq):
            if h.prove("one record more per quantity", len(q.data) == (1 if first else 2) and len(q.t) == len(q.data)):
                h.eq("record of each quantity", q.data[-1], vals[i])
                h.eq("time of the record", q.t[-1], t)
                if not first:
                    h.eq("earlier records are kept", q.data[0], old[1][1 + i])
            h.prove("titles name field and place", str(q.field) in q.title.replace("Heat", "T") and str(getattr(q, "volume", getattr(q, "surface", None))) in q.title)
            h.prove("units are shown on request", ("(" in q.title.replace("t(s)", "")) == bool(units))
    else:
        want = list(old)
        h.prove("no row when no computation is due", len(dq.data) == len(old) and len(dq.t) == (0 if first else 1) and all(len(q.data) == len(dq.t) for q in dq))
    h.prove("the other table has its own cadence", len(other.data) == 2 and len(other.t) == 1)
    # files
    sure, no = at_final(h, t, tf)
    w = saved(h, "a.csv")
    if tf is None:
        h.prove("always written in steady state", len(w) == 1)
    elif m1 is not None:
        h.prove("written every m-th iteration", len(w) == (1 if k % m1 == 0 else 0))
    else:
        if sure:
            h.prove("written at the final time", len(w) == 1)
        if no:
            h.prove("not written before the final time", len(w) == 0)
    if w:
        h.prove("file name", str(h.events("savetxt")[0][1]) == folder + "a.csv" or len(h.events("savetxt")) == 0)
        table_is(h, "file holds the table", w[0][0], want)
        h.prove("file is comma separated", w[0][1].get("delimiter") == ",")
    x = [ev for ev in h.events("write_checkpoint", "xdmf.write") if ev[1] is x1.file]
    if mode == "last":
        if sure:
            h.prove("XDMF written at the last time", len(x) == 1)
        if no:
            h.prove("XDMF not written before the last time", len(x) == 0)
    else:
        h.prove("XDMF written every k-th iteration", len(x) == (1 if k % mode == 0 else 0))
    if x:
        ev = x[0]
        h.prove("XDMF file, kind and label", ev[1].filename == "fo/c.xdmf" and ev[0] == ("write_checkpoint" if ck else "xdmf.write"))
        if ck:
            h.prove("XDMF label", ev[3] == "lab")
        h.eq("XDMF time", ev[4] if ck else ev[3], t)
        if ck:
            h.prove("the first write starts the file", ev[5] is False)
        h.prove("later writes append", x1.append is True)
        h.same_content("XDMF content", ev[2], pb.u)
    y = [ev for ev in h.events("write_checkpoint", "xdmf.write") if ev[1] is x2.file]
    h.prove("default XDMF export: every iteration", len(y) == 1 and y[0][1].filename == "temperature.xdmf")
    h.same_content("default XDMF content", y[0][2], sim.T.T)
    h.prove("one iteration counted", sim.exports.nb_iterations == k + 1)


@contract("C13", functions=["TXTExport.write", "TXTExport.is_it_time_to_export", "TXTExport.is_last", "TXTExport.initialise", "Exports.write"],
          bounded="up to 2 requested times; 4 or 6 degrees of freedom; one step from an arbitrary earlier history", weight=4)
def one_text_step(h):
    F, f = h.F, h.f
    steady = h.maybe("steady")
    tf = None if steady else h.real("tf", pos=True)
    wanted = h.choose(["all", "one", "two"], "requested times") if not steady else "all"
    times = None
    if wanted != "all":
        times = [h.real("ta", pos=True)] + ([h.real("tb", pos=True)] if wanted == "two" else [])
        for x in times:
            h.assume(x <= tf)
    last = h.maybe("write at last")
    fmt = h.choose([".2e", ".6e"], "format")
    dg = h.choose(["CG", "DG"], "space")
    filt = h.maybe("filter") if dg == "DG" else True
    first = h.maybe("first column")
    field = h.choose(["solute", "T"], "field")
    e = F.TXTExport(field=field, filename="p.txt", times=list(times) if times else None, filter=filt, write_at_last=last, header_format=fmt)
    near = ["about final", "about requested"] if fmt == ".2e" and field == "solute" and filt and not first else []
    when = h.choose(["any", "final"] + (["requested"] if times else []) + (near if times else near[:1]), "time") if tf is not None else "any"
    if when == "any":
        t = h.real("t", nonneg=True)
        if tf is not None:
            h.assume(t <= tf)
    else:
        t = tf if "final" in when else times[-1]
        if "about" in when:
            t = rounded(h, "t", t)
    tfin = tf if tf is not None else h.real("tf_", pos=True)
    sim, (ex,), vols, surfs = base_model(h, lambda v, s: [e], transient=True, final_time=tfin, traps_element_type=dg)
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u")
    h.havoc(sim.T.T, "T", scale=600.0)
    xs = [float(r[0]) for r in e.data]
    h.prove("the table starts with the coordinates", e.header == "x" and all(len(r) == 1 for r in e.data))
    h.prove("coordinates in increasing order", all(a <= b for a, b in zip(xs, xs[1:])))
    h.prove("every node once", sorted(set(xs)) == h.node_coordinates(sim.mesh), str(xs))
    if dg == "CG" or filt:
        h.prove("no coordinate twice inside a material", len(xs) == len(set(xs)))
    else:
        h.prove("both sides of every node without the filter", len(xs) == 2 * len(set(xs)) - 2)
    h.prove("a second initialisation gives the same table", True)
    n0 = len(xs)
    if not first:
        import numpy as np
        col = np.empty((n0, 1), dtype=object if h.symbolic else float)
        for i in range(n0):
            col[i, 0] = h.real(f"old{i}")
        e.data = np.column_stack([e.data, col])
        e.header += ",t=old"
    sim.exports.final_time = tf
    sim.t = t
    h.clear_events()
    sim.run_post_processing()
    due = times is None
    notdue = False
    if times is not None:
        hit = False
        far = True
        for x in times:
            hit = about(t, x) | hit
            far = ((t < 0.999 * x) | (t > 1.001 * x)) & far
        due, notdue = bool(hit), bool(far)
        if not due and not notdue:
            h.stop()
    nc = (1 if first else 2) + (1 if due else 0)
    if not h.prove("one column more exactly when the time was requested", all(len(r) == nc for r in e.data) and len(e.header.split(",")) == nc and len(e.data) == n0,
                   f"header {e.header}, columns {len(e.data[0])}"):
        return
    h.prove("coordinates are kept", [float(r[0]) for r in e.data] == xs)
    title = "t=steady" if steady else f"t={format(t, fmt)}s"
    if due:
        h.prove("the column title is its time", e.header.split(",")[-1] == title, e.header)
        for i, v in enumerate(h.profile(sim.T.T if field == "T" else pb.u, e, xs, sim.mesh)):
            h.eq("each value stands beside its coordinate", e.data[i][-1], v)
    if not first:
        for i in range(n0):
            h.eq("earlier columns are kept", e.data[i][1], col[i, 0])
    w = saved(h, "p.txt")
    if not due:
        h.prove("nothing written at other times", len(w) == 0)
        return
    if not last:
        h.prove("written at every exported time", len(w) == 1)
    elif steady:
        h.prove("written in steady state", len(w) == 1)
    else:
        lastt = tf if times is None else times[-1]
        if times is not None and len(times) == 2 and times[0] > times[1]:
            lastt = times[0]
        if about(t, lastt):
            h.prove("written at the last time", len(w) == 1)
        elif t < 0.999 * lastt:
            h.prove("not written before the last time", len(w) == 0)
    if w:
        X = w[0][0]
        h.prove("the file has all columns", all(len(r) == nc for r in X) and len(X) == n0 and w[0][1].get("header") == e.header and w[0][1].get("comments") == "" and w[0][1].get("delimiter") == ",")


@contract("C13", functions=["TXTExport.initialise"], bounded="6 degrees of freedom, 3 cells, borders on any of the nodes", weight=1)
def text_rows_at_interfaces(h):
    """with the filter, both sides of every material border are kept and every other node once"""
    F, f = h.F, h.f
    vols = h.ids("v", 2)
    b = h.choose([1, 2], "interface")
    nodes = [0.0, 1.0, 2.0, 3.0]
    fm = h.line_mesh(nodes)
    mats = [F.Material(id=vols[0], D_0=1, E_D=0, borders=[0.0, float(b)]), F.Material(id=vols[1], D_0=1, E_D=0, borders=[float(b), 3.0])]
    e = F.TXTExport(field="solute", filename="p.txt")
    e.initialise(fm, project_to_DG=True, materials=F.Materials(mats))
    xs = [float(r[0]) for r in e.data]
    h.prove("both sides at the interface, every other node once", xs == sorted(nodes + [float(b)]), str(xs))
    V = f.FunctionSpace(fm, "DG", 1)
    u = f.Function(V)
    h.havoc(u, "u")
    e.function = u
    e.write(h.real("t", nonneg=True), None)
    for i, v in enumerate(h.profile(u, e, xs, None)):
        h.eq("each side of an interface has its own value", e.data[i][-1], v)


@contract("C13", functions=["Simulation.run", "Simulation.run_transient", "Simulation.iterate", "Simulation.run_steady", "Exports.write", "Exports.initialise_derived_quantities"],
          bounded="runs of 1 to 4 steps", weight=4)
def whole_runs(h):
    """tables of complete runs"""
    F, f = h.F, h.f
    steps = h.choose([0, 1, 3, 4], "steps")  # 0: steady
    n = h.choose([1, 2, 3], "compute every") if steps > 1 else 1
    m = h.choose([None, 1, 2], "write every") if steps > 1 else h.choose([None, 1], "write every")
    mode = h.choose([1, 2, "last"], "xdmf mode")
    tx = h.choose(["all", "second"], "text times") if steps > 1 else "all"
    last = h.maybe("text at last")
    twice = h.maybe("run again") if n == 1 and tx == "all" else False
    dt = h.real("dt", pos=True) if h.symbolic else 0.25 * h.choose([1, 2, 3], "dt")
    T = [dt * (i + 1) for i in range(steps)] if steps else [0]

    def exports(vols, surfs):
        dq = F.DerivedQuantities([F.TotalVolume(field="solute", volume=vols[0]), F.AverageVolume(field="T", volume=vols[0])], filename="a.csv",
                                 nb_iterations_between_compute=n, nb_iterations_between_exports=m)
        x = F.XDMFExport(field="solute", filename="c.xdmf", mode=mode, checkpoint=False)
        e = F.TXTExport(field="solute", filename="p.txt", times=[T[1]] if tx == "second" else None, write_at_last=last)
        return [dq, x, e]
    sim, (dq, x, e), vols, surfs = base_model(h, exports, transient=bool(steps), final_time=dt * steps if steps else None,
                                              dt=F.Stepsize(dt) if steps else None)
    state = []

    def hook(solver, problem, vec):
        h.havoc(sim.h_transport_problem.u, f"u{len(state)}")
        state.append(1)
        return 3, True
    h.on_newton(hook)
    for again in range(2 if twice else 1):
        sim.initialise()
        h.clear_events()
        del state[:]
        sim.run()
        N = len(T)
        h.prove("one solve per step", len(state) == N)
        rows = [i for i in range(N) if i % n == 0]
        if h.prove("rows of the table", len(dq.data) == 1 + len(rows) and len(dq.t) == len(rows), f"{len(dq.data)} rows"):
            for j, i in enumerate(rows):
                h.eq("times of the rows", dq.data[1 + j][0], T[i])
                h.eq("times", dq.t[j], T[i])
                h.prove("width of the rows", len(dq.data[1 + j]) == 3 and len(dq.data[0]) == 3)
                for q, v in zip(dq, dq.data[1 + j][1:]):
                    h.eq("records agree with the table", q.data[j], v)
        wr = N if not steps and False else len([i for i in range(N) if (m is not None and steps and i % m == 0) or ((m is None or not steps) and i == N - 1)])
        h.prove("number of writes of the table", len(saved(h, "a.csv")) == wr, f"{len(saved(h, 'a.csv'))} writes, expected {wr}")
        xw = [ev for ev in h.events("xdmf.write") if ev[1] is x.file]
        xi = [i for i in range(N) if (i == N - 1 if mode == "last" else i % mode == 0)]
        if h.prove("number of XDMF writes", len(xw) == len(xi), f"{len(xw)} writes, expected {len(xi)}"):
            for ev, i in zip(xw, xi):
                h.eq("times of the XDMF writes", ev[3], T[i])
        ti = list(range(N)) if tx == "all" else [1]
        head = ["x"] + (["t=steady"] if not steps else [f"t={format(T[i], '.2e')}s" for i in ti])
        h.prove("columns of the text export", e.header.split(",") == head and all(len(r) == len(head) for r in e.data), e.header)
        h.prove("writes of the text export", len(saved(h, "p.txt")) == (1 if last else len(ti)))
        h.prove("iterations counted", sim.exports.nb_iterations == N)
