"""usage: /opt/venv/bin/python -m pyvc.realrun JOBS.json OUT.json
jobs: list of {prop, name, choices, model, seed, rnd}"""
import sys
import os
import json
import io
import contextlib
import traceback
import time
import warnings


def main():
    jobs = json.load(open(sys.argv[1]))
    out = []
    deadline = time.time() + float(os.environ.get("PYVC_REAL_LIMIT", "300"))
    warnings.simplefilter("ignore")
    import logging
    import numpy as np
    from . import realh
    realh.instrument()
    repo = os.environ.get("PYVC_REPO", "/repo")
    props = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
    sys.path.insert(0, repo)
    sys.stdout = io.StringIO()
    import fenics
    fenics.set_log_level(50)
    logging.disable(logging.CRITICAL)
    import festim
    warnings.simplefilter("ignore")
    festim.Simulation.display_time  # the class must exist
    from . import harness
    import importlib
    done = set()
    for j in jobs:
        if time.time() > deadline:
            out.append(dict(status="timeout"))
            continue
        if j["prop"] not in done:
            importlib.import_module(f"props.{j['prop'].lower()}")
            done.add(j["prop"])
        c = next(c for c in harness.REG[j["prop"]] if c.name == j["name"])
        h = realh.RealH(festim, choices=j.get("choices"), model=j.get("model"), seed=j.get("seed", 0), rnd_choices=j.get("rnd", False))
        realh.NEWTON["hook"] = None
        del realh.LOG[:]
        r = dict(status="ok", error=None)
        try:
            c.fn(h)
        except realh.Skip as e:
            r["status"] = "skip"
        except realh.Stop:
            pass
        except realh.NotRunnable as e:
            r["status"] = "notrunnable"
            r["error"] = str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            r["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            last = {True: -1, False: -1}
            for k, fr in enumerate(tb):
                fn = os.path.abspath(fr.filename)
                if fn.startswith(os.path.join(repo, "festim")):
                    last[True] = k
                elif fn.startswith(props):
                    last[False] = k
            # raised by the code (or by what it calls), not by the contract
            r["status"] = "exception" if last[True] > last[False] else "harness-exception"
            r["exc"] = repr(e)[:300]
        r["failed"] = [(n, d) for n, ok, d in h.results if not ok]
        r["checked"] = len(h.results)
        r["choices"] = h.taken
        r["values"] = h.values
        out.append(r)
        with open(sys.argv[2], "w") as fh:
            json.dump(out, fh, default=str)
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh, default=str)


main()
