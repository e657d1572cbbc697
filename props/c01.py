from pyvc.harness import contract
from .common import *

RTOL = 1e-5


def close(a, b):
    """the relative closeness of the statement, as a formula"""
    return abs_le(a - b, RTOL, b)


def abs_le(d, r, b):
    # |d| <= r |b|, for b >= 0
    return (d <= r * b) & (-d <= r * b)


def AND(*cs):
    r = True
    for c in cs:
        r = c if r is True else (r & c)
    return r


def OR(*cs):
    r = False
    for c in cs:
        r = c if r is False else (r | c)
    return r


def stepsize(h, kind, cap, milestones, v0):
    """a Stepsize of every kind; the cap is positive where it is defined"""
    F = h.F
    if kind == "given":
        return v0
    if kind == "constant":
        return F.Stepsize(v0, milestones=milestones)
    ratio = h.real("ratio", lo=1.0, hi=3.0) if not h.symbolic else h.real("ratio")
    h.assume(ratio > 1)
    kw = {}
    if cap == "number":
        kw["max_stepsize"] = h.real("cap", pos=True)
    elif cap == "callable":
        c0 = h.real("cap", pos=True)
        kw["max_stepsize"] = lambda t: c0
    elif cap == "callable-none":
        c0 = h.real("cap", pos=True)
        tc = h.real("tcap", nonneg=True)
        kw["max_stepsize"] = lambda t: None if t < tc else c0
    elif cap == "stop":
        kw["t_stop"] = h.real("t_stop", pos=True)
        kw["stepsize_stop_max"] = h.real("cap", pos=True)
    return F.Stepsize(v0, stepsize_change_ratio=ratio, milestones=milestones, **kw)


def model(h, kind, cap, ms, txt, tf, v0):
    vols, surfs = h.ids("vol", 1), h.ids("surf", 2)
    fm = h.mesh(vols, surfs)
    mats = [material(h, "0", vols[0])]
    ex = [h.F.XDMFExport("solute", filename="scratch.xdmf", checkpoint=True, mode=1)]
    if txt:
        ex.append(h.F.TXTExport("solute", filename="scratch.txt", times=list(txt)))
    return simulation(h, fm, mats, T=h.real("T", pos=True, scale=600.0), dt=stepsize(h, kind, cap, list(ms) if isinstance(ms, list) and ms else ms, v0), final_time=tf, exports=ex)


@contract("C01", functions=["Simulation.run", "Simulation.run_transient", "Simulation.iterate", "Stepsize.adapt", "Stepsize.next_milestone", "Stepsize.initialise_value",
                            "HTransportProblem.update", "Simulation.initialise", "Exports.write", "TXTExport.is_it_time_to_export"],
          bounded="up to 2 milestones and text-export times together (any order, repeated or not); any number of steps (induction over the time loop)", weight=5)
def time_loop(h):
    """induction over the time loop: the first step from t=0, and an arbitrary later one"""
    F, f = h.F, h.f
    shape = h.choose([(0, 0), (1, 0), (0, 1), (2, 0), (1, 1)], "milestones, txt times")
    kind = h.choose(["constant", "adaptive"], "step size")
    cap = h.choose(["none", "number", "callable", "callable-none", "stop"], "cap") if kind == "adaptive" and shape == (1, 0) else "number" if kind == "adaptive" else "none"
    ms = [h.real(f"m{i}", pos=True) for i in range(shape[0])]
    txt = [h.real(f"x{i}", pos=True) for i in range(shape[1])]
    phase = h.choose(["first step", "later step"], "phase")
    tf = h.real("tf", pos=True, scale=2.0)
    v0 = h.real("v0", pos=True)
    sim = model(h, kind, cap, ms, txt, tf, v0)
    sim.initialise()
    allm = ms + txt
    # induction hypothesis at the head of the loop
    if phase == "first step":
        t0 = 0
        hit = {i: False for i in range(len(allm))}
    else:
        t0, d0 = h.real("t0", nonneg=True, scale=0.5), h.real("d0", pos=True)
        h.assume(AND(t0 < tf, tf - t0 > RTOL * tf, t0 + d0 <= tf))
        hit = {}
        for i, m in enumerate(allm):
            # either already one of the computed times (up to closeness), or still ahead and not jumped by this step
            hit[i] = h.choose([True, False], f"m{i} already reached")
            if hit[i]:
                h.assume(m <= t0 + RTOL * m)
            else:
                h.assume(AND(m - t0 > RTOL * m, t0 + d0 <= m))
        sim.t = t0
        h.set_const(sim.dt.value, d0)
    times = []

    def hook(solver, problem, vec):
        t, d = sim.t, h.num(sim.dt.value)
        last = times[-1] if times else t0
        h.prove("a step advances the clock by the step size solved with", same_time(h, t - last, d, tf), f"{last} + {d} -> {t}")
        h.prove("the clock increases", t > last, f"{last} -> {t}")
        h.prove("the clock never passes the final time", t <= upper(h, tf), f"{t} > {tf}")
        for i, m in enumerate(allm):
            if not hit[i]:
                h.prove("no requested time is jumped", OR(t <= upper(h, m), *[close_to(h, x, m) for x in times]), f"from {last} to {t} over {m}")
        if times:
            h.stop()
        times.append(t)
        return h.int("nb_it", lo=0), True
    h.on_newton(hook)
    h.clear_events()
    sim.run()
    # the loop was left after this step
    t = sim.t
    h.prove("the run stops only at the final time", close_to(h, t, tf), f"{t} of {tf}")
    w = h.events("write_checkpoint")
    h.prove("the computed time is the exported one", len(w) == 1 and eqn(h, w[0][4], t), str([e[4] for e in w]))
    for i, m in enumerate(allm):
        if not hit[i]:
            h.prove("every requested time up to the final time is computed", OR(m > tf, close_to(h, t, m)), f"{m}; last time {t}; final {tf}")


@contract("C01", functions=["Simulation.run", "Simulation.run_transient", "Simulation.iterate", "Stepsize.adapt", "Stepsize.next_milestone", "HTransportProblem.update"], weight=2, lemma=True)
def time_loop_any_milestones(h):
    """the same induction for a milestone list of arbitrary length: one arbitrary milestone is followed"""
    kind = h.choose(["constant", "adaptive"], "step size")
    cap = h.choose(["none", "number", "callable-none"], "cap") if kind == "adaptive" else "none"
    phase = h.choose(["first step", "later step"], "phase")
    m = h.real("m", pos=True)
    tf, v0 = h.real("tf", pos=True, scale=2.0), h.real("v0", pos=True)
    box = {}

    def passed(e):
        # what next_milestone has established for the elements it has skipped
        t = box["sim"].t
        return OR(e <= t, close_to(h, t, e))
    seq = h.sorted_seq("milestones", m, passed)
    sim = box["sim"] = model(h, kind, cap, seq, [], tf, v0)
    sim.initialise()
    t0, hit = 0, False
    if phase == "later step":
        t0, d0 = h.real("t0", nonneg=True, scale=0.5), h.real("d0", pos=True)
        h.assume(AND(t0 < tf, tf - t0 > RTOL * tf, t0 + d0 <= tf))
        hit = h.choose([True, False], "m already reached")
        h.assume(m <= t0 + RTOL * m if hit else AND(m - t0 > RTOL * m, t0 + d0 <= m))
        sim.t = t0
        h.set_const(sim.dt.value, d0)
    times = []

    def hook(solver, problem, vec):
        t, d = sim.t, h.num(sim.dt.value)
        last = times[-1] if times else t0
        h.prove("a step advances the clock by the step size solved with", same_time(h, t - last, d, tf), f"{last} + {d} -> {t}")
        h.prove("the clock increases", t > last, f"{last} -> {t}")
        h.prove("the clock never passes the final time", t <= upper(h, tf), f"{t} > {tf}")
        if not hit:
            h.prove("no requested time is jumped", OR(t <= upper(h, m), *[close_to(h, x, m) for x in times]), f"from {last} to {t} over {m}")
        if times:
            h.stop()
        times.append(t)
        return h.int("nb_it", lo=0), True
    h.on_newton(hook)
    sim.run()
    t = sim.t
    h.prove("the run stops only at the final time", close_to(h, t, tf), f"{t} of {tf}")
    if not hit:
        h.prove("every requested time up to the final time is computed", OR(m > tf, close_to(h, t, m)), f"{m}; last time {t}; final {tf}")


def same_time(h, a, b, scale):
    return a == b if h.symbolic else abs(a - b) <= 1e-9 * (abs(scale) + abs(a))


def upper(h, x):
    return x if h.symbolic else x * (1 + 1e-12)


def eqn(h, a, b):
    return a == b if h.symbolic else abs(a - b) <= 1e-9 * (1 + abs(b))


def close_to(h, a, b):
    if h.symbolic:
        return close(a, b)
    return bool(close(a, b * (1 + 1e-9)) or abs(a - b) <= RTOL * abs(b) * (1 + 1e-6))


@contract("C01", functions=["HTransportProblem.update", "Simulation.iterate"])
def clock_after_retry(h):
    """a step accepted after failed attempts"""
    st = h.F.Stepsize(h.real("v0", pos=True), stepsize_change_ratio=2.0, dt_min=1e-8)
    t0, dt, tf = clock(h)
    sim = model(h, "given", "none", None, [], tf, st)
    sim.initialise()
    h.set_const(sim.dt.value, dt)
    h.assume(dt > 1e-6)
    sim.t = t0
    sim.timer = h.f.Timer()
    S = dict(n=0)

    def hook(solver, problem, vec):
        S["n"] += 1
        S["d"] = h.num(sim.dt.value)
        return 3, S["n"] > 1
    h.on_newton(hook)
    sim.iterate()
    h.prove("a failed attempt is retried", S["n"] == 2)
    h.prove("the clock advances by the step size of the accepted attempt", same_time(h, sim.t - t0, S["d"], tf), f"accepted {S['d']}, clock advanced {sim.t - t0}")
