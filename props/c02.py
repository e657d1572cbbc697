from pyvc.harness import contract
from .common import *
from .c01 import AND, OR, RTOL, close_to, eqn


def AREQ(h, name, a, b):
    h.prove(name, a == b if h.symbolic else abs(a - b) <= 1e-9 * (abs(a) + abs(b)), f"{a} instead of {b}")


def make_stepsize(h, kind, cap, dtmin, milestones, v0):
    """(Stepsize, ratio, cap at t or None, minimum)"""
    F = h.F
    if kind == "constant":
        return F.Stepsize(v0, milestones=milestones), None, (lambda t: None), None
    ratio = h.real("ratio", lo=1.0, hi=3.0) if not h.symbolic else h.real("ratio")
    h.assume(ratio > 1)
    kw, capf = {}, (lambda t: None)
    if cap == "number":
        c0 = h.real("cap", pos=True)
        kw["max_stepsize"] = c0
        capf = lambda t: c0
    elif cap == "callable":
        c0 = h.real("cap", pos=True)
        kw["max_stepsize"] = lambda t: c0 + t
        capf = lambda t: c0 + t
    elif cap == "callable-none":
        c0, tc = h.real("cap", pos=True), h.real("tcap", nonneg=True)
        kw["max_stepsize"] = lambda t: None if t < tc else c0
        capf = lambda t: None if t < tc else c0
    elif cap == "stop":
        ts, c0 = h.real("t_stop", pos=True), h.real("cap", pos=True)
        kw.update(t_stop=ts, stepsize_stop_max=c0)
        capf = lambda t: c0 if t >= ts else None
    mn = None
    if dtmin:
        mn = h.real("dt_min", pos=True, scale=0.05)
        kw["dt_min"] = mn
    return F.Stepsize(v0, stepsize_change_ratio=ratio, milestones=milestones, **kw), ratio, capf, mn


def law(h, v, ratio, capf, mn, t, nb_it, converged, ms):
    """(new value, error?) by the documented law"""
    if ratio is not None:
        if not converged:
            if mn is None:
                return None, True
            v = v / ratio
            if v < mn:
                return None, True
        else:
            v = v * ratio if nb_it < 5 else v / ratio
        c = capf(t)
        if c is not None and v > c:
            v = c
    elif not converged:
        return None, True
    nxt = None
    for m in ms or []:
        if m > t and not close_to(h, t, m) and (nxt is None or m < nxt):
            nxt = m
    if nxt is not None and t + v > nxt:
        v = nxt - t
    return v, False


CAPS = ["none", "number", "callable", "callable-none", "stop"]


@contract("C02", functions=["Stepsize.__init__", "Stepsize.adapt", "Stepsize.next_milestone", "Stepsize.milestones"], bounded="up to 2 milestones (any number: adapt_any_milestones)", weight=2)
def step_size_law(h):
    """Stepsize.adapt for every setting, time, iteration count and outcome"""
    kind = h.choose(["adaptive", "constant"], "step size")
    converged = h.maybe("converged")
    if kind == "constant" and not converged:
        h.assume(False) if not h.symbolic else h.stop()
    cap = h.choose(CAPS, "cap") if kind == "adaptive" else "none"
    dtmin = h.maybe("dt_min") if kind == "adaptive" else False
    nm = h.choose([None, 0, 1, 2], "milestones")
    ms = None if nm is None else [h.real(f"m{i}", pos=True) for i in range(nm)]
    st, ratio, capf, mn = make_stepsize(h, kind, cap, dtmin, None if ms is None else list(ms), h.real("dt0", pos=True))
    v, t, nb = h.real("v", pos=True), h.real("t", nonneg=True), h.int("nb_it", lo=0)
    h.set_const(st.value, v)
    want, err = law(h, v, ratio, capf, mn, t, nb, converged, ms)
    if err:
        h.raises("a step that cannot be reduced further is an error", ValueError, st.adapt, t, nb, converged)
        return
    h.accepts("no error otherwise", st.adapt, t, nb, converged)
    got = h.num(st.value)
    AREQ(h, "step size law", got, want)
    if h.symbolic:
        h.prove("step size stays positive", got > 0)


@contract("C02", functions=["Stepsize.adapt", "Stepsize.next_milestone"], lemma=True)
def adapt_any_milestones(h):
    """milestone lists of any length: an arbitrary milestone m is followed"""
    kind = h.choose(["adaptive", "constant"], "step size")
    converged = h.maybe("converged") if kind == "adaptive" else True
    cap = h.choose(CAPS, "cap") if kind == "adaptive" else "none"
    m = h.real("m", pos=True)
    t, nb = h.real("t", nonneg=True), h.int("nb_it", lo=0)
    passed = lambda e: OR(e <= t, close_to(h, t, e))
    seq = h.sorted_seq("milestones", m, passed)
    st, ratio, capf, mn = make_stepsize(h, kind, cap, True, seq, h.real("dt0", pos=True))
    v = h.real("v", pos=True)
    h.set_const(st.value, v)
    want, err = law(h, v, ratio, capf, mn, t, nb, converged, [])
    if err:
        h.raises("a step that cannot be reduced further is an error", ValueError, st.adapt, t, nb, converged)
        return
    st.adapt(t, nb, converged)
    got = h.num(st.value)
    h.prove("milestones can only shorten the step", got <= want if h.symbolic else got <= want * (1 + 1e-9))
    h.prove("the followed milestone is not jumped", OR(passed(m), t + got <= m if h.symbolic else t + got <= m * (1 + 1e-9)))
    h.prove("step size stays positive", got > 0)


def small_model(h, dt, traps=None, exports=None, transient=True, tf=None):
    vols, surfs = h.ids("vol", 1), h.ids("surf", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, "0", vols[0])]
    if traps:
        traps = [h.F.Trap(1.0, 0.1, 1.0, 0.2, materials=mats[0], density=h.real("n", pos=True))]
    return simulation(h, fm, mats, T=h.real("T", pos=True, scale=600.0), dt=dt, transient=transient, final_time=tf, traps=traps or None, exports=exports)


@contract("C02", functions=["HTransportProblem.update", "HTransportProblem.solve_once", "HTransportProblem.update_previous_solutions", "Stepsize.adapt", "Simulation.iterate", "Exports.write"],
          bounded="up to one milestone ahead while retrying; any number of failures in a row (induction over the retry loop)", weight=3)
def retries(h):
    """every pattern of solver failures inside a step"""
    kind = h.choose(["adaptive", "constant", "adaptive, no dt_min"], "step size")
    cap = h.choose(["none", "number"], "cap") if kind == "adaptive" else "none"
    traps = h.maybe("with a trap")
    nfail = h.choose(["converges", "fails once", "fails", "fails again"], "failures")
    ms = [h.real("m", pos=True)] if h.maybe("milestone") else None
    st, ratio, capf, mn = make_stepsize(h, "constant" if kind == "constant" else "adaptive", cap, kind == "adaptive", ms, h.real("dt0", pos=True))
    t0, dt, tf = clock(h)
    # the exported state
    ex = [h.F.XDMFExport("solute", filename="scratch.xdmf", checkpoint=True, mode=1)]
    sim = small_model(h, st, traps, ex, tf=tf)
    sim.initialise()
    pb = sim.h_transport_problem
    h.havoc(pb.u, "u0")
    h.havoc(pb.u_n, "un")
    before, prev = h.content(pb.u), h.content(pb.u_n)
    h.set_const(sim.dt.value, dt)
    sim.t = t0
    sim.timer = h.f.Timer()
    S = dict(calls=0, dt=dt, converged=False, nb=None)

    def fail_allowed():
        return kind == "adaptive" and not (S["dt"] / ratio < mn)

    def hook(solver, problem, vec):
        S["calls"] += 1
        h.same_content("the step starts from the state before it", pb.u, before)
        h.same_content("the previous state is untouched until the solver converges", pb.u_n, prev)
        d = h.num(sim.dt.value)
        if S["calls"] > 1:
            want, err = law(h, S["dt"], ratio, capf, mn, sim.t, 0, False, ms)
            h.prove("an irreducible step is not retried", not err)
            if err:
                h.stop()
            AREQ(h, "the retry uses the step size divided by the ratio", d, want)
            # any later retry: an arbitrary step size
            if nfail in ("fails", "fails again"):
                d = h.real("dk", pos=True)
                h.set_const(sim.dt.value, d)
        S["dt"] = d
        stop_failing = {"converges": 1, "fails once": 2, "fails": 3, "fails again": 99}[nfail]
        if S["calls"] >= stop_failing:
            h.havoc(pb.u, "usolved")
            S["u"] = h.content(pb.u)
            S["converged"] = True
            S["nb"] = h.int("nb_it", lo=0)
            return S["nb"], True
        if S["calls"] > 3:
            h.stop()
        h.havoc(pb.u, "udiverged%d" % S["calls"])
        return 30, False
    h.on_newton(hook)
    h.clear_events()
    try:
        sim.iterate()
    except ValueError:
        h.prove("an error only when the failed step cannot be reduced", not S["converged"])
        h.prove("an error only when the failed step cannot be reduced", not fail_allowed())
        h.same_content("the previous state is untouched by a failed step", pb.u_n, prev)
        h.prove("nothing is exported from a failed step", not h.events("write_checkpoint", "savetxt"))
        return
    h.prove("only a converged step is accepted", S["converged"])
    h.same_content("the accepted state is the converged one", pb.u_n, S["u"])
    h.same_content("the exported state is the converged one", pb.u, S["u"])
    w = h.events("write_checkpoint")
    h.prove("the accepted step is exported once", len(w) == 1, str(w))
    want, err = law(h, S["dt"], ratio, capf, mn, sim.t, S["nb"], True, ms)
    if sim.t + want > tf:
        want = tf - sim.t
    AREQ(h, "step size after the accepted step", h.num(sim.dt.value), want)
    if nfail == "converges":
        AREQ(h, "the clock advances by the step size", sim.t, t0 + dt)


@contract("C02", functions=["Simulation.run", "Simulation.run_steady", "HTransportProblem.solve_once"])
def steady_failure(h):
    """a steady run returns only with a converged state, and exports only that"""
    ok = h.maybe("converged")
    traps = h.maybe("with a trap")
    ex = [h.F.XDMFExport("solute", filename="scratch.xdmf", checkpoint=True, mode=1)]
    sim = small_model(h, None, traps, ex, transient=False)
    sim.initialise()
    n = []

    def hook(solver, problem, vec):
        n.append(1)
        h.havoc(sim.h_transport_problem.u, "u%d" % len(n))
        return 7, ok
    h.on_newton(hook)
    h.clear_events()
    if ok:
        h.accepts("a converged steady run returns", sim.run)
        h.prove("one solve", len(n) == 1)
        h.prove("exported once", len(h.events("write_checkpoint")) == 1)
    else:
        h.raises("a diverged steady run is an error", ValueError, sim.run)
        h.prove("a diverged steady state is not exported", not h.events("write_checkpoint"))
