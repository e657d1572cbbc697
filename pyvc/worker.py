"""python3-vt -m pyvc.worker PROP NAME OUT.json [shard n] : explores one contract"""
import sys
import os
import json
import time
import collections


def run(prop, name, shard=None, deadline_s=400, timeout_ms=20000, unbounded=False):
    t0 = time.time()
    from . import engine as EN
    from . import loader, symh, harness
    import importlib
    res = dict(prop=prop, name=name, shard=shard)
    try:
        from . import loops
        importlib.import_module(f"props.{prop.lower()}")
        c = next(c for c in harness.REG[prop] if c.name == name)
        festim = loader.load(loops.transform, loops.EXTRA) if c.loops else loader.load()
    except BaseException as e:
        import traceback
        res.update(load_error=traceback.format_exc()[-3000:], obligations=0, discharged=0, refuted=[], errors=[], undecided=[["load", repr(e), []]],
                   paths=0, ok_paths=0, solver_time=0, backends={}, assumptions=[], names=[], covered=[], wall=time.time() - t0, called=[])
        return res
    eng = EN.Engine(name, timeout_ms=timeout_ms, deadline=t0 + deadline_s)
    eng.shard = shard
    tracer = CallTracer(loader.REPO)
    tracer.start()
    eng.explore(lambda e: c.fn(symh.SymH(e, festim)))
    tracer.stop()
    if c.loops:
        # outside the reach of the loop rule
        eng.undecided += [("exception", e[0] + e[1][-1500:], e[2]) for e in eng.errors]
        eng.errors = []
        never = eng.loops_run[False] - eng.loops_run[True]
        if never:
            eng.undecided.append(("loops", f"loops over open lists never run with a tracked element: {sorted(never)}", []))
    by = collections.Counter(o.status for o in eng.obligations)
    res.update(
        obligations=len(eng.obligations), discharged=by["discharged"], unknown=by["unknown"],
        names=sorted({o.name for o in eng.obligations}),
        refuted=[dict(name=o.name, detail=o.detail, choices=o.choices, model=o.model) for o in eng.obligations if o.status == "refuted"][:20],
        unknowns=[dict(name=o.name, detail=o.detail, choices=o.choices) for o in eng.obligations if o.status == "unknown"][:10],
        errors=[dict(exc=e[0], tb=e[1], choices=e[2], model=e[3]) for e in eng.errors][:10],
        undecided=[list(u) for u in eng.undecided][:10], paths=eng.paths, ok_paths=eng.finished_ok, solver_time=eng.solver_time,
        backends=dict(collections.Counter(o.backend for o in eng.obligations if o.status == "discharged")),
        assumptions=sorted(eng.assumptions), covered=sorted(eng.covered), wall=time.time() - t0, called=sorted(tracer.seen), lines=tracer.lines(),
        loops=sorted(eng.loops_run[True]))
    return res


class CallTracer:
    """which functions of the code the contract really executed"""
    def __init__(self, repo):
        self.root = os.path.join(repo, "festim") + os.sep
        self.seen = set()
        self.line = {}

    def lines(self):
        return {k: sorted(v) for k, v in sorted(self.line.items())}

    def cb_line(self, code, line):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.line.setdefault(fn[len(self.root):], set()).add(line)
        return sys.monitoring.DISABLE

    def start(self):
        import sys
        mon = sys.monitoring
        self.tool = 3
        mon.use_tool_id(self.tool, "pyvc")
        mon.register_callback(self.tool, mon.events.PY_START, self.cb)
        mon.register_callback(self.tool, mon.events.LINE, self.cb_line)
        mon.set_events(self.tool, mon.events.PY_START | mon.events.LINE)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.seen.add(fn[len(self.root):-3].replace(os.sep, ".") + ":" + code.co_qualname)
        return sys.monitoring.DISABLE

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.free_tool_id(self.tool)


if __name__ == "__main__":
    prop, name, out = sys.argv[1:4]
    shard = tuple(int(x) for x in sys.argv[4].split("/")) if len(sys.argv) > 4 and sys.argv[4] != "-" else None
    dl = float(sys.argv[5]) if len(sys.argv) > 5 else 400
    r = run(prop, name, shard, dl)
    with open(out, "w") as fh:
        json.dump(r, fh, default=str)
