"""real side of the harness interface: the installed fenics, concrete numbers.

Runs under /opt/venv/bin/python.  Used to replay counterexamples against the
code that really runs, and (thorough tier) to compare the assumed fenics
contracts with fenics itself on sampled inputs.
"""
import random
import math
import hashlib
from .harness import Loc


class Skip(BaseException):
    """the concrete values do not satisfy the contract's precondition"""


class Stop(BaseException):
    pass


class NotRunnable(BaseException):
    pass


class RealH:
    symbolic = False

    def __init__(self, festim, choices=None, model=None, seed=0, rnd_choices=False):
        import fenics
        self.F, self.f = festim, fenics
        self.choices = list(choices or [])
        self.ci = 0
        self.model = dict(model or {})
        self.rnd = random.Random(seed)
        self.rnd_choices = rnd_choices
        self.results = []
        self.counter = {}
        self.taken = []
        self.log = []
        self.args = {}
        self.newton_hook = None
        self.values = {}
        self.meshes = []
        self.fcoef = {}

    # ---- inputs
    def _name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}~{n}"

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, scale=1.0):
        nm = self._name(name)
        if nm in self.model:
            v = float(self.model[nm])
        elif lo is not None and hi is not None:
            v = self.rnd.uniform(lo, hi)
        else:
            v = scale * self.rnd.uniform(0.5, 2.0)
            if lo is not None:
                v = lo + abs(v)
            if hi is not None:
                v = hi - abs(v)
        self.values[nm] = v
        return v

    def int(self, name, lo=None, hi=None):
        nm = self._name(name)
        if nm in self.model:
            v = int(self.model[nm])
        else:
            a = 1 if lo is None else lo
            v = self.rnd.randint(a, hi if hi is not None else a + 9)
        self.values[nm] = v
        return v

    def ids(self, name, n, lo=1):
        out = []
        for i in range(n):
            nm = self._name(f"{name}{i}")
            v = self.model.get(nm)
            if v is None or int(v) in out or int(v) > 10 ** 6:
                v = self.rnd.randint(lo, lo + 8)
                while v in out:
                    v = self.rnd.randint(lo, lo + 8)
            out.append(int(v))
            self.values[nm] = int(v)
        return out

    def known(self, lst):
        return lst

    def choose(self, options, label):
        if isinstance(options, int):
            options = list(range(options))
        options = list(options)
        if self.rnd_choices:
            i = self.rnd.randrange(len(options))
        else:
            # by label and position
            i = 0
            for k in range(self.ci, len(self.choices)):
                if self.choices[k][0] == label:
                    want = self.choices[k][1]
                    names = [str(getattr(x, "__name__", x)) for x in options]
                    if len(self.choices[k]) > 2:
                        i = min(self.choices[k][2], len(options) - 1)
                    else:
                        i = names.index(str(want)) if str(want) in names else 0
                    self.ci = k + 1
                    break
        self.taken.append((label, str(getattr(options[i], "__name__", options[i])), i))
        return options[i]

    def maybe(self, label):
        return self.choose([False, True], label)

    def assume(self, c):
        if not c:
            raise Skip("precondition")

    def _coef(self, name):
        if name not in self.fcoef:
            r = random.Random(f"{name}/{self.rnd.random()}")
            self.fcoef[name] = [r.uniform(0.5, 1.5) for _ in range(4)]
        return self.fcoef[name]

    def _fixed(self, name):
        """values of the function in the verifier's counterexample: [[time or None, value], ...] -> (a, b) of a + b t"""
        pts = self.model.get("fun:" + name)
        if not pts:
            return None
        ts = {}
        for tv, v in pts:
            ts.setdefault(tv, v)
        num = sorted((tv, v) for tv, v in ts.items() if tv is not None)
        if len(num) > 1 and num[1][0] != num[0][0]:
            k = (num[1][1] - num[0][1]) / (num[1][0] - num[0][0])
            return num[0][1] - k * num[0][0], k
        return pts[0][1], 0.0

    def fun(self, name, t=True, x=True, scale=1.0):
        fx = self._fixed(name)
        if fx:
            return fx[0] + 0 * self.F.x if not (t and fx[1]) else fx[0] + fx[1] * self.F.t
        a, b, c, d = self._coef(name)
        X, T = self.F.x, self.F.t
        e = a
        if x:
            e = e + 0.4 * b * X
        if t:
            e = e + 0.3 * c * T
        if x and t:
            e = e + 0.1 * d * X * T
        return scale * e

    def funval(self, name, tval=None, x=True, scale=1.0):
        fx = self._fixed(name)
        if fx:
            return fx[0] if tval is None else fx[0] + fx[1] * tval
        a, b, c, d = self._coef(name)
        X = self.f.SpatialCoordinate(self.meshes[-1].mesh)[0] if self.meshes else None
        e = a
        if x:
            e = e + 0.4 * b * X
        if tval is not None:
            e = e + 0.3 * c * tval
        if x and tval is not None:
            e = e + 0.1 * d * tval * X
        return scale * e

    def callfun(self, name, scale=1.0):
        co = self._coef("call:" + name)
        fx = self._fixed("call:" + name)

        def g(*a, **kw):
            if fx:
                return fx[0]
            r = co[0]
            for i, v in enumerate(list(a) + [kw[k] for k in sorted(kw)]):
                if v is None:
                    continue
                r = r + co[(i + 1) % 4] * (i + 1) * 1e-3 * v
            return scale * r
        g.__name__ = name
        return g

    def sorted_seq(self, name, tracked, inv):
        return [tracked] + [self.rnd.uniform(0.1, 3.0) for _ in range(self.rnd.randrange(4))]

    def cos(self, x):
        return math.cos(x)

    # ---- outcome
    def prove(self, name, cond, detail=None):
        ok = bool(cond)
        self.results.append((name, ok, None if ok else str(detail)[:2000]))
        return ok

    def fail(self, name, detail=None):
        return self.prove(name, False, detail)

    def eq(self, name, a, b, detail=None, tol=1e-6):
        a, b = self._num(a), self._num(b)
        if math.isnan(a) and math.isnan(b):
            return self.prove(name, True)
        ok = abs(a - b) <= 1e-9 + tol * max(abs(a), abs(b))
        return self.prove(name, ok, f"code gives {a!r}, specification gives {b!r}")

    def _num(self, a):
        if isinstance(a, (int, float)):
            return float(a)
        try:
            return float(a)
        except TypeError:
            return float(self.val(a))

    def cover(self, label):
        pass

    def stop(self):
        raise Stop()

    def raises(self, name, exc, fn, *a, **kw):
        try:
            fn(*a, **kw)
        except exc as e:
            self.prove(name, True)
            return e
        except Exception as e:
            self.prove(name, False, f"raised {e!r} instead of {exc}")
            return None
        self.prove(name, False, f"accepted; expected {exc}")
        return None

    def accepts(self, name, fn, *a, **kw):
        try:
            r = fn(*a, **kw)
        except Exception as e:
            self.prove(name, False, f"rejected with {e!r}")
            raise Stop()
        self.prove(name, True)
        return r

    # ---- geometry
    def mesh(self, vols, surfs, coord="cartesian", dim=1):
        f = self.f
        n = max(1, len(vols))
        if len(surfs) > 2 and dim == 1:
            raise NotRunnable("more than two surfaces in one dimension")
        if dim == 1:
            vs = [1.0 + i / (2.0 * n) for i in range(2 * n + 1)]
            m = f.IntervalMesh(2 * n, 1.0, 2.0)
        elif dim == 2:
            m = f.RectangleMesh(f.Point(1.0, 0.0), f.Point(2.0, 1.0), 2 * n, 2)
        else:
            m = f.BoxMesh(f.Point(1.0, 0.0, 0.0), f.Point(2.0, 1.0, 1.0), 2 * n, 1, 1)
        vm = f.MeshFunction("size_t", m, m.topology().dim(), 0)
        sm = f.MeshFunction("size_t", m, m.topology().dim() - 1, 0)
        for c in f.cells(m):
            x = c.midpoint().x()
            i = min(n - 1, int((x - 1.0) * n))
            if vols:
                vm[c] = vols[i]
        places = [lambda p: abs(p.x() - 1.0) < 1e-9, lambda p: abs(p.x() - 2.0) < 1e-9,
                  lambda p: abs(p.y()) < 1e-9, lambda p: abs(p.y() - 1.0) < 1e-9]
        for fc in f.facets(m):
            p = fc.midpoint()
            for i, s in enumerate(surfs[:4]):
                if places[i](p):
                    sm[fc] = s
        fm = self.F.Mesh(m, vm, sm, coord)
        fm.__dict__["pv_vols"] = list(vols)
        fm.__dict__["pv_surfs"] = list(surfs)
        self.meshes.append(fm)
        return fm

    def at_vol(self, v, fm=None):
        """a random point of a cell of volume v"""
        f = self.f
        fm = fm or self.meshes[-1]
        cs = [c for c in f.cells(fm.mesh) if fm.volume_markers is None or fm.volume_markers[c] == v]
        if not cs:
            raise NotRunnable(f"no cell in volume {v}")
        c = cs[self.rnd.randrange(len(cs))]
        return Loc(vol=v, cell=c, x=tuple(c.midpoint().array()[: fm.mesh.geometry().dim()]), fm=fm)

    def at_vertex(self, v, fm=None):
        """a node of a cell of volume v (where interpolation is exact)"""
        f = self.f
        a = self.at_vol(v, fm)
        x = next(iter(f.vertices(a.cell))).point().array()[: a.fm.mesh.geometry().dim()]
        return Loc(vol=v, cell=a.cell, x=tuple(x), fm=a.fm)

    def at_surf(self, s, vol, fm=None):
        f = self.f
        fm = fm or self.meshes[-1]
        fm.mesh.init()
        fs = [e for e in f.facets(fm.mesh) if fm.surface_markers[e] == s and e.exterior()]
        if not fs:
            raise NotRunnable(f"no facet on surface {s}")
        c = fx = None
        for fc in fs:
            cc = next(iter(f.cells(fc)))
            if fm.volume_markers is None or vol is None or fm.volume_markers[cc] == vol:
                c, fx = cc, fc
                break
        if c is None:
            raise Skip(f"surface {s} is not adjacent to volume {vol}")
        d = fm.mesh.geometry().dim()
        nrm = fx.normal()
        # a hair inside the cell, so that every term is evaluated in this cell
        inside = 0.999999 * fx.midpoint().array()[:d] + 0.000001 * c.midpoint().array()[:d]
        return Loc(vol=fm.volume_markers[c] if fm.volume_markers is not None else None, surf=s, cell=c,
                   x=tuple(inside), n=[nrm[i] for i in range(d)], fm=fm)

    # ---- terms
    def total(self, form, typ, sid):
        if isinstance(form, (int, float)) and form == 0:
            return 0.0
        tot = 0.0
        for it in form.integrals():
            k = {"cell": "dx", "exterior_facet": "ds"}.get(it.integral_type(), it.integral_type())
            i = it.subdomain_id()
            ids = i if isinstance(i, tuple) else (i,)
            if k == typ:
                for j in ids:
                    if j in ("everywhere", "otherwise") or j == sid:
                        tot = it.integrand() + tot
        return tot

    def val(self, e, at=None):
        ufl = ufl_mod()
        import numpy as np
        f = self.f
        if isinstance(e, (int, float)):
            return float(e)
        if isinstance(e, np.generic):
            return float(e)
        if at is None:
            if not self.meshes:
                return float(e)
            at = self.at_vol(self.meshes[-1].pv_vols[0])
        from ufl_legacy.algorithms import expand_derivatives
        from ufl_legacy.algorithms.traversal import iter_expressions
        from ufl_legacy.algorithms.analysis import extract_type
        e = ufl.as_ufl(e)
        from ufl_legacy.algorithms.apply_algebra_lowering import apply_algebra_lowering
        from ufl_legacy.algorithms.apply_derivatives import apply_derivatives
        e = apply_derivatives(apply_algebra_lowering(e))
        mapping = {}
        for tcls in (ufl.classes.Coefficient, ufl.classes.Argument, ufl.classes.FacetNormal):
            for t in extract_type(e, tcls):
                mapping[t] = self._evaluator(t, at)
        x = at.x
        return float(e(x, mapping))

    def _evaluator(self, t, at):
        ufl = ufl_mod()
        import numpy as np
        f = self.f
        x = np.array(at.x, dtype=float)
        dim = len(x)
        mid = np.array(at.cell.midpoint().array()[:dim])

        def point_value(y):
            if isinstance(t, f.Constant):
                v = t.values()
                return v if t.ufl_shape else float(v[0])
            if isinstance(t, f.UserExpression):
                v = np.zeros(max(1, t.value_size()) if hasattr(t, "value_size") else 1)

                class C:
                    index = at.cell.index()
                if hasattr(t, "eval_cell") and "eval_cell" in dir(type(t)) and _defines(type(t), "eval_cell"):
                    t.eval_cell(v, y, C)
                else:
                    t.eval(v, y)
                return float(v[0])
            if isinstance(t, f.Function):
                return self._eval_fun(t, y)
            r = t(y)
            return r
        if isinstance(t, ufl.classes.FacetNormal):
            n = at.n
            return lambda xx, derivatives=(): list(n)
        if isinstance(t, ufl.classes.Argument):
            key = (t.number(), t.ufl_shape)
            if key not in self.args:
                n = int(np.prod(t.ufl_shape)) if t.ufl_shape else 1
                self.args[key] = [[self.rnd.uniform(0.5, 1.5) for _ in range(4)] for _ in range(n)]
            A = self.args[key]

            def arg(xx, derivatives=()):
                if len(derivatives) == 0:
                    v = [a[0] for a in A]
                elif len(derivatives) == 1:
                    v = [a[1 + derivatives[0]] for a in A]
                else:
                    raise NotRunnable("second derivative")
                return v if t.ufl_shape else v[0]
            return arg

        def co(xx, derivatives=()):
            if len(derivatives) == 0:
                return point_value(x)
            if len(derivatives) > 1:
                raise NotRunnable("second derivative")
            k = derivatives[0]
            hcell = at.cell.h() * 0.05
            base = 0.5 * (x + mid) if at.surf is not None else x
            d = np.zeros(dim)
            d[k] = hcell
            a, b = point_value(base + d), point_value(base - d)
            if t.ufl_shape:
                return [(p - q) / (2 * hcell) for p, q in zip(a, b)]
            return (a - b) / (2 * hcell)
        return co

    def _eval_fun(self, t, y):
        r = t(y)
        try:
            return [float(v) for v in r]
        except TypeError:
            return float(r)

    def same(self, name, code, spec, at=None):
        return self.eq(name, self.val(code, at), self.val(spec, at))

    def num(self, x):
        if isinstance(x, self.f.Constant):
            return float(x)
        return x

    def set_const(self, c, v):
        c.assign(v)

    def havoc(self, u, name, scale=1.0, uniform=False):
        import numpy as np
        v = u.vector()
        rs = np.random.RandomState(self.rnd.randrange(2 ** 31))
        vals = scale * rs.uniform(0.7, 1.3, size=v.local_size())
        if uniform:
            vals[:] = vals[0]
        if "fld:" + name in self.model:
            vals[:] = float(self.model["fld:" + name])
        for i in range(10):
            if f"fld:{name}[{i}]" in self.model and u.function_space().num_sub_spaces():
                vals[u.function_space().sub(i).dofmap().dofs()] = float(self.model[f"fld:{name}[{i}]"])
        v[:] = vals

    def content(self, u):
        if _is_sub(u):
            u = u.copy(deepcopy=True)
        return u.vector().get_local().copy()

    def same_content(self, name, u, c, at=None):
        import numpy as np
        a = u if isinstance(u, np.ndarray) else self.content(u)
        b = c if isinstance(c, np.ndarray) else self.content(c)
        ok = a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-6, atol=1e-12))
        return self.prove(name, ok, f"{a} vs {b}")

    def const_content(self, u, value, name, at=None):
        at = at or self.at_vol(self.meshes[-1].pv_vols[0])
        self.eq(name, self.val(u, at), self.val(value, at))

    def projection_is(self, name, u, specs, fm=None):
        import numpy as np
        f = self.f
        fm = fm or self.meshes[-1]
        if _is_sub(u):
            u = u.copy(deepcopy=True)
        V = u.function_space()
        v = f.TestFunction(V)
        dx = f.Measure("dx", domain=fm.mesh, subdomain_data=fm.volume_markers, metadata={"quadrature_degree": 8})
        R = N = 0
        for vol, spec in specs.items() if isinstance(specs, dict) else specs:
            spec = ufl_mod().as_ufl(spec)
            R += (u - spec) * v * dx(vol)
            N += (abs(u) + abs(spec)) * v * dx(vol)
        r, n = f.assemble(R).get_local(), f.assemble(N).get_local()
        bad = np.abs(r) > 2e-3 * np.abs(n).max() + 1e-12
        return self.prove(name, not bad.any(), f"residual {r} against {n}")

    def node_coordinates(self, fm):
        return sorted({float(x[0]) for x in fm.mesh.coordinates()})

    def line_mesh(self, nodes):
        return self.f.IntervalMesh(len(nodes) - 1, nodes[0], nodes[-1])

    def profile(self, u, export, xs, fm):
        V = export.V
        ux = self.f.project(u, V).vector().get_local()
        xd = V.tabulate_dof_coordinates()[:, 0]
        used, out = [], []
        for row, x in zip(export.data, xs):
            free = [i for i in range(len(xd)) if abs(xd[i] - x) < 1e-12 and i not in used]
            if not free:
                self.prove("each row stands for one degree of freedom at its coordinate", False, str(xs))
                raise Stop()
            i = min(free, key=lambda i: abs(ux[i] - float(row[-1])))
            used.append(i)
            out.append(float(ux[i]))
        return out

    def cell_values(self, u, fm, vols, k):
        if _is_sub(u):
            u = u.copy(deepcopy=True)
        V = u.function_space()
        arr = u.vector().get_local()
        return [float(arr[d]) for c in self.f.cells(fm.mesh) if fm.volume_markers[c] == vols[k] for d in V.dofmap().cell_dofs(c.index())]

    def jacobian_is(self, name, problem, u, places):
        f = self.f
        J = problem.jacobian_form
        own = f.derivative(problem.residual_form, u, f.TrialFunction(u.function_space()))
        for at, typ, sid in places:
            self.eq(name + ": of the residual that is solved", self.val(self.total(J, typ, sid), at), self.val(self.total(own, typ, sid), at))

    def file_content(self, u, filename, label, step, at):
        V = u.function_space()
        g = self.f.Function(V.collapse() if _is_sub(u) else V)
        _fill(g.vector(), f"{filename}/{label}/{step}")
        return g

    def mesh_again(self, fm):
        new = self.F.Mesh(fm.mesh, fm.volume_markers, fm.surface_markers, fm.type)
        new.__dict__["pv_vols"], new.__dict__["pv_surfs"] = fm.pv_vols, fm.pv_surfs
        return new

    def vec_content(self, vec):
        return vec.get_local().copy()

    def vec_set(self, vec, name, scale=1.0):
        _fill(vec, name, scale)

    def same_contents(self, name, a, b, at=None):
        return self.same_content(name, a, b, at)

    # ---- events
    def on_newton(self, hook):
        NEWTON["hook"] = lambda solver, problem, vec: hook(solver, ProblemView(problem), vec)

    def target_is(self, vec, u):
        return vec.id() == u.vector().id()

    def events(self, *kinds):
        return [ev for ev in LOG if ev[0] in kinds]

    def clear_events(self):
        del LOG[:]

    def exprt(self, e):
        return e.t

    def bc_info(self, bc):
        V, value, markers, surface = bc.pv
        comp = V.component()
        return (int(comp[0]) if len(comp) else None), value, surface, markers


def _is_sub(u):
    try:
        return u.function_space().component() is not None and len(u.function_space().component()) > 0
    except Exception:
        return False


def _defines(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__ and not c.__module__.startswith("dolfin"):
            return True
    return False


def _fill(vec, name, scale=1.0):
    import numpy as np
    seed = int(hashlib.sha256(name.encode()).hexdigest()[:8], 16)
    vec[:] = scale * np.random.RandomState(seed).uniform(0.7, 1.3, size=vec.local_size())


NEWTON = {"hook": None}
PROBE = [None]


class ProblemView:
    """what the nonlinear problem handed to the solver assembles (see symh.ProblemView)"""
    def __init__(self, problem):
        self.raw = problem

    def _ask(self, what):
        b, x = object(), object()
        PROBE[0] = []
        try:
            (self.raw.F if what == "F" else self.raw.J)(b, x)
            calls = PROBE[0]
        finally:
            PROBE[0] = None
        want = (b, x) if what == "F" else (b,)
        if len(calls) != 1 or calls[0][1] != want:
            raise NotRunnable("assembly of the nonlinear problem")
        return calls[0][0].pv

    residual_form = property(lambda self: self._ask("F")[1])
    bcs = property(lambda self: self._ask("F")[2] or [])
    jacobian_form = property(lambda self: self._ask("J")[0])
    jacobian_bcs = property(lambda self: self._ask("J")[2] or [])
LOG = []


def instrument():
    """before festim is imported: observable entry points of fenics"""
    import fenics
    import numpy

    base = fenics.NewtonSolver

    class NewtonSolver(base):
        def solve(self, problem, vec):
            if NEWTON["hook"] is not None:
                return NEWTON["hook"](self, problem, vec)
            return base.solve(self, problem, vec)
    fenics.NewtonSolver = NewtonSolver

    abase = fenics.SystemAssembler

    class SystemAssembler(abase):
        def __init__(self, a, L, bcs=None):
            self.pv = (a, L, bcs)
            abase.__init__(self, a, L, bcs)

        def assemble(self, *args):
            if PROBE[0] is not None:
                PROBE[0].append((self, args))
                return
            return abase.assemble(self, *args)
    fenics.SystemAssembler = SystemAssembler

    class XDMFFile:
        """records what is written; reads go to the real file"""
        Encoding = fenics.XDMFFile.Encoding
        _real = fenics.XDMFFile

        def __init__(self, *a):
            self.filename = a[-1]
            self.parameters = {}

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write_checkpoint(self, fn, label, t, enc=None, append=False):
            LOG.append(("write_checkpoint", self, fn, label, t, append))

        def write(self, fn, t=None):
            LOG.append(("xdmf.write", self, fn, t))

        def read_checkpoint(self, fn, label, step=-1):
            LOG.append(("read_checkpoint", self.filename, fn, label, step))
            _fill(fn.vector(), f"{self.filename}/{label}/{step}")

        def read(self, *a):
            LOG.append(("xdmf.read", self.filename, a))

        def close(self):
            pass
    fenics.XDMFFile = XDMFFile
    fenics._pv_XDMFFile = XDMFFile._real

    dbase = fenics.DirichletBC

    class DirichletBC(dbase):
        def __init__(self, V, value, markers, surface=None, *a, **k):
            self.pv = (V, value, markers, surface)
            dbase.__init__(self, V, value, markers, surface, *a, **k)
    fenics.DirichletBC = DirichletBC

    def savetxt(fname, X, *a, **kw):
        LOG.append(("savetxt", fname, X, kw))
    numpy.savetxt = savetxt


def ufl_mod():
    import fenics
    import sys
    name = fenics.grad.__module__.split(".")[0]
    return sys.modules[name]
