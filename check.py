"""python3-vt check.py PROPERTY [--tier quick|thorough]

Decides one property: explores every contract of the property on /repo's working
tree, replays refutations against the real code, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import sys
import os
import json
import time
import shutil
import tempfile
import subprocess
import importlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
REAL = "/opt/venv/bin/python"
NPROC = int(os.environ.get("PYVC_PROCS", "8"))


def env_base():
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONHASHSEED="0")
    return e


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def unexecuted(called, lines_run):
    """statements of the functions under contract that no explored path reaches (by function)"""
    import ast
    repo = os.environ.get("PYVC_REPO", "/repo")
    out = {}
    by = {}
    for q in called:
        m, fn = q.split(":", 1)
        by.setdefault(m, set()).add(fn)
    for m, fns in by.items():
        rel = m.replace(".", os.sep) + ".py"
        path = os.path.join(repo, "festim", rel)
        try:
            tree = ast.parse(open(path).read())
        except Exception:
            continue

        def walk(node, pre):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    q = pre + ch.name
                    if isinstance(ch, ast.FunctionDef) and q in fns:
                        miss = [s.lineno for s in ast.walk(ch) if isinstance(s, ast.stmt) and s is not ch and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass))
                                and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and s.lineno not in lines_run.get(rel, ())]
                        if miss:
                            out[m + ":" + q] = sorted(set(miss))
                    walk(ch, q + ("." if isinstance(ch, ast.ClassDef) else ".<locals>."))
                else:
                    walk(ch, pre)
        walk(tree, "")
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = 780 if tier == "quick" else 3300
        self.scratch = tempfile.mkdtemp(prefix=f"pyvc_{prop}_")
        self.notes = []
        self.known_hits = []

    # -- symbolic exploration
    def explore(self, contracts):
        jobs = []
        lim = 330 if self.tier == "quick" else 1500
        for c in contracts:
            for k in range(c.weight):
                jobs.append((c, None if c.weight == 1 else (k, c.weight)))

        def one(job):
            c, shard = job
            out = os.path.join(self.scratch, f"{c.name}.{shard[0] if shard else 0}.json")
            cmd = [VT, "-m", "pyvc.worker", self.prop, c.name, out, f"{shard[0]}/{shard[1]}" if shard else "-", str(lim)]
            try:
                p = subprocess.run(cmd, cwd=HERE, env=env_base(), capture_output=True, text=True, timeout=lim + 90)
                if p.returncode == 0 and os.path.exists(out):
                    return c, json.load(open(out))
                why = f"worker exit {p.returncode}: {p.stderr[-1500:]}"
            except subprocess.TimeoutExpired:
                why = "worker time limit"
            return c, dict(name=c.name, shard=shard, obligations=0, discharged=0, unknown=0, refuted=[], unknowns=[], errors=[],
                           undecided=[["worker", why, []]], paths=0, ok_paths=0, solver_time=0, backends={}, assumptions=[], covered=[],
                           names=[], wall=0, called=[])
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(one, jobs))

    # -- real code
    def real(self, jobs, limit):
        """run jobs on the real code, spread over processes"""
        if not jobs:
            return []
        cache = os.path.join(self.scratch, "dijitso")
        if not os.path.exists(cache):
            try:
                shutil.copytree("/opt/vp-cache/dijitso", cache, dirs_exist_ok=True)
            except Exception:
                os.makedirs(cache, exist_ok=True)
        n = min(NPROC, len(jobs))
        parts = [jobs[i::n] for i in range(n)]
        res = [None] * len(jobs)

        def one(k):
            a = os.path.join(self.scratch, f"jobs{k}.{time.time_ns()}.json")
            b = a + ".out"
            json.dump(parts[k], open(a, "w"), default=str)
            e = env_base()
            e["DIJITSO_CACHE_DIR"] = cache
            e["PYVC_REAL_LIMIT"] = str(limit)
            try:
                p = subprocess.run([REAL, "-W", "ignore", "-m", "pyvc.realrun", a, b], cwd=HERE, env=e, capture_output=True, text=True, timeout=limit + 45)
                err = p.stderr[-1500:]
            except subprocess.TimeoutExpired:
                err = "time limit"
            try:
                r = json.load(open(b))
            except Exception:
                r = []
            while len(r) < len(parts[k]):
                r.append(dict(status="crash", error=err, failed=[]))
            return r
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, range(n)))
        for k in range(n):
            for j, r in enumerate(rs[k]):
                res[k + j * n] = r
        return res

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run(self):
        from pyvc import harness
        importlib.import_module(f"props.{self.prop.lower()}")
        contracts = [c for c in harness.REG[self.prop] if c.tier == "quick" or self.tier == "thorough"]
        results = self.explore(contracts)
        findings = [k for k in known_findings() if k["property"] == self.prop]
        violations = []
        # candidates
        cands = []
        for c, r in results:
            seen = {}
            for x in r["refuted"]:
                kf = next((k for k in findings if k["contract"] == c.name and k["obligation"] == x["name"]), None)
                if kf:
                    if kf not in self.known_hits:
                        self.known_hits.append(kf)
                    continue
                seen.setdefault(x["name"], []).append(x)
            for name, xs in seen.items():
                cands.append((c, name, xs, "refuted"))
            ex = {}
            for x in r["errors"]:
                ex.setdefault(x["exc"].split("(")[0], []).append(x)
            for name, xs in ex.items():
                cands.append((c, f"no unexpected exception ({name})", xs, "error"))
        unresolved, doubtful = [], []
        for c, name, xs, kind in cands[:8]:
            if c.symbolic_only:
                if kind == "refuted" and not c.lemma:
                    violations.append((c, name, xs[0], None))
                else:
                    unresolved.append((c, name, xs[0]))
                continue
            if self.left() < 60:
                unresolved.append((c, name, xs[0]))
                continue
            jobs = []
            # distinct choices first
            for x in xs[:3]:
                jobs.append(dict(prop=self.prop, name=c.name, choices=x["choices"], model=x["model"] or {}, seed=self.seed))
                for s in range(2):
                    jobs.append(dict(prop=self.prop, name=c.name, choices=x["choices"], model={}, seed=self.seed * 1000 + s))
                intm = {k: v for k, v in (x["model"] or {}).items() if isinstance(v, int)}
                jobs.append(dict(prop=self.prop, name=c.name, choices=x["choices"], model=intm, seed=self.seed * 1000 + 7))
            rr = self.real(jobs, min(150, max(40, self.left() - 50)))
            hit = None
            ran = 0
            for j, r in zip(jobs, rr):
                if r["status"] in ("ok", "exception"):
                    ran += 1
                kfn = {k["obligation"] for k in findings if k["contract"] == c.name}
                bad = [b for b in r.get("failed", []) if b[0] not in kfn]
                if bad or r["status"] == "exception":
                    hit = (j, dict(r, failed=bad))
                    break
            if hit:
                violations.append((c, name, xs[0], hit))
            elif ran == 0:
                sts = {r["status"] for r in rr}
                self.notes.append(f"{c.name}/{name}: replay not runnable ({sorted(sts)}: {(rr[0].get('error') or '')[-300:]})")
                if kind == "refuted" and not (sts <= {"skip"}) and not c.lemma:
                    violations.append((c, name, xs[0], None))
                else:
                    unresolved.append((c, name, xs[0]))
            else:
                self.notes.append(f"{c.name}/{name}: refuted, but the real code satisfies it on the {ran} replayed inputs")
                if kind == "refuted" and not c.lemma:
                    doubtful.append((c, name, xs[0], None))
                unresolved.append((c, name, xs[0]))
        # fallback: contracts that could not be decided
        undecided = []
        for c in contracts:
            mine = [r for cc, r in results if cc is c]
            if (any(r["undecided"] or r.get("unknown") for r in mine) or sum(r["ok_paths"] for r in mine) == 0
                    or sum(r["obligations"] for r in mine) == 0 or any(u[0] is c for u in unresolved)):
                undecided.append(c)
        sampled = []
        want = [(c, 24) for c in undecided]
        if self.tier == "thorough":
            want += [(c, 40) for c in contracts if c not in undecided]
        for c, n in want:
            if c.symbolic_only or self.left() < 90:
                continue
            jobs = [dict(prop=self.prop, name=c.name, rnd=True, seed=self.seed * 7919 + s) for s in range(n)]
            rr = self.real(jobs, min(200 if self.tier == "quick" else 500, max(40, self.left() - 60)))
            ok = sum(1 for r in rr if r["status"] == "ok" and not r["failed"])
            sampled.append(dict(contract=c.name, runs=len(rr), ok=ok, statuses=sorted({r["status"] for r in rr})))
            kfn = {k["obligation"] for k in findings if k["contract"] == c.name}
            for j, r in zip(jobs, rr):
                bad = [b for b in r.get("failed", []) if b[0] not in kfn]
                if bad or r["status"] == "exception":
                    j = dict(j, rnd=False, choices=r["choices"], model=r["values"])
                    violations.append((c, bad[0][0] if bad else "no unexpected exception", dict(choices=r["choices"], detail=str(bad[:1]), model=r["values"]), (j, r)))
                    break
        if not violations:
            # an obligation with a counterexample that neither its replay nor the samples reproduce
            violations = doubtful[:2]
        self.finish(contracts, results, violations, undecided, sampled, cands)

    def finish(self, contracts, results, violations, undecided, sampled, cands):
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        repdir = os.path.join(ev, "replay")
        os.makedirs(repdir, exist_ok=True)
        for fn in os.listdir(repdir):
            if fn.startswith(self.prop + "_"):
                os.unlink(os.path.join(repdir, fn))
        lines = []
        for i, (c, name, x, hit) in enumerate(violations[:6]):
            path = os.path.join(repdir, f"{self.prop}_{i}.json")
            rec = dict(property=self.prop, contract=c.name, obligation=name, choices=x.get("choices"), counterexample=x.get("model"),
                       verifier_output=x.get("detail") or x.get("tb"))
            if hit:
                rec["job"] = [hit[0]]
                rec["real_outcome"] = hit[1]
                rec["replay_cmd"] = f"cd {HERE} && PYTHONPATH={HERE} {REAL} -W ignore -m pyvc.realrun <(python3 -c 'import json;print(json.dumps(json.load(open(\"{path}\"))[\"job\"]))') /dev/stdout"
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1, default=str)
            lines.append(f"VIOLATION property={self.prop} replay={path}" + ("" if hit else " no-failing-input-found"))
        ob = sum(r["obligations"] for _, r in results)
        di = sum(r["discharged"] for _, r in results)
        back = {}
        for _, r in results:
            for k, v in r["backends"].items():
                back[k] = back.get(k, 0) + v
        called = sorted({f for _, r in results for f in r["called"]})
        lines_run = {}
        for _, r in results:
            for fn, ls in r.get("lines", {}).items():
                lines_run.setdefault(fn, set()).update(ls)
        if os.environ.get("PYVC_COV"):
            json.dump({k: sorted(v) for k, v in lines_run.items()}, open(os.path.join(os.environ["PYVC_COV"], self.prop + ".json"), "w"))
        missed = unexecuted(called, lines_run)
        bounded = sorted({f"{c.name}: {c.bounded}" for c in contracts if c.bounded})
        from props import assumptions as A
        assume = sorted({a for _, r in results for a in r["assumptions"]} | set(A.COMMON) | set(A.BY_PROP.get(self.prop, [])))
        evd = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=A.LEVEL.get(self.prop, "proof"),
            coverage=dict(
                obligations=ob, discharged=di,
                discharged_without_any_bound=sum(r["discharged"] for c, r in results if not c.bounded),
                discharged_within_a_stated_bound=sum(r["discharged"] for c, r in results if c.bounded),
                checker_cmd=f"python3-vt check.py {self.prop} --tier {self.tier}",
                trusted_base=A.TRUSTED,
                back_ends=back, solver_seconds=round(sum(r["solver_time"] for _, r in results), 2),
                contracts=[dict(name=c.name, functions=c.functions, bound=c.bounded, symbolic_only=c.symbolic_only,
                                paths=sum(r["paths"] for cc, r in results if cc is c),
                                obligations=sum(r["obligations"] for cc, r in results if cc is c),
                                discharged=sum(r["discharged"] for cc, r in results if cc is c),
                                obligation_names=sorted({n for cc, r in results if cc is c for n in r["names"]})) for c in contracts],
                loops_proved_for_lists_of_any_length=sorted({l for _, r in results for l in r.get("loops", [])}),
                functions_under_contract=called, statements_of_these_functions_not_executed=missed, bounded=bounded,
                undecided=[dict(contract=c.name, why=[u[:2] for cc, r in results if cc is c for u in r["undecided"]][:3]) for c in undecided],
                real_code_samples=sampled, replays_attempted=len(cands), notes=self.notes,
                known_findings=[k["what"] for k in self.known_hits]),
            assumptions=assume, wall_s=round(time.time() - self.t0, 2), violations=len(lines), violation_lines=lines)
        with open(os.path.join(ev, f"{self.prop}.json"), "w") as fh:
            json.dump(evd, fh, indent=1, default=str)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop} [{self.tier}] obligations={ob} discharged={di} contracts={len(contracts)} undecided={[c.name for c in undecided]} "
              f"sampled={[(s['contract'], s['ok'], s['runs']) for s in sampled]} wall={time.time() - self.t0:.1f}s")
        for n in self.notes:
            print("note:", n)
        for l in lines:
            print(l)
        sys.stdout.flush()
        shutil.rmtree(self.scratch, ignore_errors=True)
        sys.exit(1 if lines else 0)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ck = Check(prop, tier, seed)
    try:
        ck.run()
    finally:
        shutil.rmtree(ck.scratch, ignore_errors=True)


main()
