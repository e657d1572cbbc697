"""symbolic side of the harness interface"""
import sympy as sp
from . import engine as EN
from . import fenics_stub as FS
from .engine import Engine, Sym, Unsupported, mk, rat, StopPath
from .term import Poly, atom, FN, ZERO, ONE, equal, EXP
from .harness import Loc


class SymSeq:
    """a sorted sequence of numbers of arbitrary length containing `tracked`.

    Iterating applies the loop rule with the declared invariant `inv(e)` (= what
    every element already visited satisfies): either the loop is exhausted (the
    tracked element satisfies inv), or an arbitrary element is visited, the tracked
    one being before (inv holds), at, or after it (not smaller).  When the body
    falls through, inv of the visited element is an obligation."""
    def __init__(self, eng, name, tracked, inv):
        self.__dict__.update(e=eng, name=name, tracked=tracked, inv=inv)

    def __bool__(self):
        return True

    def __iter__(self):
        e = self.e
        where = e.choose(["exhausted", "tracked visited before", "tracked visited now", "tracked still to come"], f"loop over {self.name}")
        if where == "exhausted":
            e.assume(self.inv(self.tracked))
            return
        if where == "tracked visited now":
            x = self.tracked
        else:
            x = e.real(f"{self.name}_any", pos=True)
            if where == "tracked visited before":
                e.assume(self.inv(self.tracked))
                e.assume(self.tracked <= x)
            else:
                e.assume(self.tracked >= x)
        yield x
        e.prove(f"loop invariant over {self.name}", self.inv(x))
        raise StopPath()

    def pv_sorted(self):
        return self

    def __getattr__(self, n):
        raise Unsupported(f"sequence operation {n}")

    def __len__(self):
        raise Unsupported("length of an arbitrary sequence")

    def __getitem__(self, i):
        raise Unsupported("index into an arbitrary sequence")

    def __contains__(self, x):
        raise Unsupported("membership in an arbitrary sequence")


def tracked(x):
    from .loops import GenMixin
    return x.tracked if isinstance(x, GenMixin) else x


class ProblemView:
    """what the nonlinear problem handed to the solver assembles, found out by asking it
    for the residual and the Jacobian as the Newton solver does"""
    def __init__(self, h, problem):
        self.h, self.raw = h, problem

    def _ask(self, what):
        e = self.h.e
        keep = list(e.log)
        b, x = object(), object()
        (self.raw.F if what == "F" else self.raw.J)(b, x)
        calls = [ev for ev in e.log[len(keep):] if ev[0] == "assembler.assemble"]
        e.log[:] = keep
        want = (b, x) if what == "F" else (b,)
        if len(calls) != 1 or calls[0][2] != want:
            raise Unsupported("assembly of the nonlinear problem: " + str([c[2] for c in calls]))
        return calls[0][1]

    @property
    def residual_form(self):
        return self._ask("F").L

    @property
    def bcs(self):
        return tracked(self._ask("F").bcs or [])

    @property
    def jacobian_form(self):
        return self._ask("J").a

    @property
    def jacobian_bcs(self):
        return tracked(self._ask("J").bcs or [])


class SymH:
    symbolic = True

    def sorted_seq(self, name, tracked, inv):
        return SymSeq(self.e, name, tracked, inv)

    def __init__(self, eng, festim):
        self.e = eng
        self.F = festim
        import sys
        self.f = sys.modules["fenics"]

    # ---- inputs
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, scale=1.0):
        return self.e.real(name, pos=pos, nonneg=nonneg, lo=lo, hi=hi)

    def int(self, name, lo=None, hi=None):
        v = self.e.int(name, lo=lo)
        if hi is not None:
            self.e.assume(v <= hi)
        return v

    def ids(self, name, n, lo=1):
        """n distinct integer ids, otherwise arbitrary"""
        out = []
        for i in range(n):
            v = self.e.int(f"{name}{i}", lo=lo)
            for w in out:
                self.e.assume(v != w, check=False)
            out.append(v)
        return out

    def choose(self, options, label):
        return self.e.choose(options, label)

    def maybe(self, label):
        return self.e.choose([False, True], label)

    def assume(self, c):
        self.e.assume(c)

    def fun(self, name, t=True, x=True, scale=1.0):
        """an arbitrary function of space (and time) as a user would write it with sympy"""
        F = self.F
        args = ([F.x] if x else []) + ([F.t] if t else [])
        return sp.Function(name)(*args)

    def funval(self, name, tval=None, x=True, scale=1.0):
        """its value at the generic point (and time tval)"""
        args = []
        if x:
            args.append(FS.X0)
        if tval is not None:
            args.append(rat(tval))
        return FS.UExpr(FN("user:" + name, *args, const=False))

    def callfun(self, name, scale=1.0):
        """an arbitrary Python function of UFL/number arguments"""
        def g(*a, **kw):
            polys = [FS.scal(v) for v in a] + [FS.scal(kw[k]) for k in sorted(kw)]
            if any(p is None for p in polys):
                raise Unsupported("argument of a user function")
            keys = tuple(sorted(kw))
            r = FN(f"call:{name}", keys, *polys, const=False)
            if any(isinstance(v, FS.UExpr) for v in list(a) + list(kw.values())):
                return FS.UExpr(r)
            return mk(r)
        g.__name__ = name
        return g

    def cos(self, x):
        from .loader import _cos
        return _cos(x)

    # ---- lists of arbitrary length
    def embed(self, sim, traps=True):
        """the model is part of one with arbitrarily many more materials, subdomains, traps,
        sources, conditions and surfaces, before or after: every list is opened and the
        equations are built again"""
        from .loops import open_list
        e = self.e
        pb = sim.h_transport_problem
        done = {}

        def o(lst, index=None, absent=()):
            if type(lst) is not list or not lst:
                return lst
            if id(lst) not in done:
                done[id(lst)] = (open_list(list(lst), index=index, absent=absent), lst)
            return done[id(lst)][0]
        for m in sim.materials:
            m.id = o(m.id)
        for s in list(sim.sources):
            s.volume = o(s.volume)
        for b in list(sim.boundary_conditions):
            if not isinstance(b, self.F.SurfaceKinetics):
                b.surfaces = o(b.surfaces)
        for t in list(sim.traps) if traps else []:
            ix = [e.int("place", lo=0) for _ in t.materials]
            for i, x in enumerate(ix):
                for y in ix[:i]:
                    e.assume(x != y, check=False)
            absent = [m for m in sim.materials if not any(m is k for k in t.materials)]
            per_material = type(t.k_0) is list
            t.__dict__[next(k for k, v in vars(t).items() if v is t.materials)] = open_list(list(t.materials), index=ix, absent=absent)
            for a in ("k_0", "E_k", "p_0", "E_p", "density"):
                v = getattr(t, a)
                if type(v) is list and per_material:
                    setattr(t, a, open_list(v, index=ix))
        pb.boundary_conditions = o(pb.boundary_conditions)
        mats = open_list(list(sim.materials), like=sim.materials)
        if len(sim.traps) and traps:
            pb.traps = open_list(list(sim.traps), like=sim.traps)
        if type(sim.sources) is list:
            sim.sources = o(sim.sources)
        if isinstance(sim.T, self.F.HeatTransferProblem):
            sim.T.boundary_conditions = o(sim.T.boundary_conditions)
        return mats

    def known(self, lst):
        """the elements of an open list that the contract knows"""
        return tracked(lst)

    # ---- outcome
    def prove(self, name, cond, detail=None):
        return self.e.prove(name, cond, detail)

    def fail(self, name, detail=None):
        return self.e.prove(name, False, detail)

    def eq(self, name, a, b, detail=None, tol=None):
        return self.e.prove_eq(name, a, b, detail)

    def cover(self, label):
        self.e.cover(label)

    def stop(self):
        raise StopPath()

    def raises(self, name, exc, fn, *a, **kw):
        """fn must raise exc"""
        try:
            fn(*a, **kw)
        except exc as e:
            self.e.prove(name, True)
            return e
        except (EN.Unsupported, EN.Infeasible, EN.StopPath, EN.Restart):
            raise
        except Exception as e:
            self.e.prove(name, False, f"raised {e!r} instead of {exc}")
            return None
        self.e.prove(name, False, f"accepted; expected {exc}")
        return None

    def accepts(self, name, fn, *a, **kw):
        try:
            r = fn(*a, **kw)
        except (EN.Unsupported, EN.Infeasible, EN.StopPath, EN.Restart):
            raise
        except Exception as e:
            import traceback
            self.e.prove(name, False, f"rejected with {e!r}\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]))
            raise StopPath()
        self.e.prove(name, True)
        return r

    # ---- geometry
    def mesh(self, vols, surfs, coord="cartesian", dim=1):
        m = FS.Mesh(dim)
        self.e.store["geometry"] = (list(vols), list(surfs))
        self.e.store["dim"] = dim
        fm = self.F.Mesh(m, FS.Subdomains(m, "volume"), FS.Subdomains(m, "surface"), coord)
        return fm

    def at_vol(self, v, fm=None):
        return Loc(vol=v)

    def at_vertex(self, v, fm=None):
        return Loc(vol=v)

    def at_surf(self, s, vol, fm=None):
        return Loc(vol=vol, surf=s)

    # ---- terms
    def total(self, form, typ, sid):
        if isinstance(form, (int, float)) and form == 0:
            return FS.UExpr(ZERO)
        if not isinstance(form, FS.Form):
            raise Unsupported(f"form is {type(form)}")
        tot = ZERO
        for (ty, i), p in form.t.items():
            if ty == typ and (i == "everywhere" or FS.same_id(i, sid)):
                tot = tot + p
        return FS.UExpr(tot)

    def val(self, e, at=None):
        p = FS.scal(e)
        if p is None:
            raise Unsupported(f"no value for {type(e)}")
        return FS.UExpr(FS.resolve(p, at.vol if at else None))

    def same(self, name, code, spec, at=None):
        return self.eq(name, self.val(code, at), self.val(spec, at))

    def num(self, x):
        """the number held by a Constant or number"""
        if isinstance(x, FS.Constant):
            return x.content
        return x

    def set_const(self, c, v):
        c.assign(v)

    def havoc(self, u, name, scale=1.0, uniform=False):
        """arbitrary content (uniform: real samples take one value everywhere, so that projections are exact)"""
        if isinstance(u, FS.Function) and u.ncomp():
            u.set_content(tuple(FS.Content(Poly.atom(atom("fld", f"{name}[{i}]"))) for i in range(u.ncomp())))
        else:
            u.set_content(FS.Content(Poly.atom(atom("fld", name))))

    def content(self, u):
        return u.get_content()

    def same_content(self, name, u, c, at=None):
        a = u.get_content() if isinstance(u, FS.Function) else u
        b = c.get_content() if isinstance(c, FS.Function) else c
        if isinstance(a, tuple) != isinstance(b, tuple):
            return self.e.prove(name, False, "different shapes")
        aa = a if isinstance(a, tuple) else (a,)
        bb = b if isinstance(b, tuple) else (b,)
        if len(aa) != len(bb):
            return self.e.prove(name, False, "different shapes")
        sub = at.vol if at else None
        for i, (x, y) in enumerate(zip(aa, bb)):
            if x is y:
                self.e.prove(name, True)
            else:
                self.eq(name, x.at(sub), y.at(sub))

    def const_content(self, u, value, name, at=None):
        """u's content is the expression `value` now"""
        c = u.get_content()
        self.eq(name, c.at(at.vol if at else None), self.val(value, at))

    def projection_is(self, name, u, specs, fm=None):
        """u is, in each volume, (the projection of) the given expression"""
        for v, spec in specs.items() if isinstance(specs, dict) else specs:
            self.const_content(u, spec, name, self.at_vol(v))

    def node_coordinates(self, fm):
        return sorted(set(FS.DOFX["CG"]))

    def line_mesh(self, nodes):
        if sorted(set(FS.DOFX["CG"])) != list(nodes):
            raise Unsupported("nodes")
        return FS.Mesh(1)

    def profile(self, u, export, xs, fm):
        """value of u at the degree of freedom that each row of the table stands for"""
        V = export.V
        vals = FS.nodal(FS.project(u, V))
        fam = {"Lagrange": "CG", "Discontinuous Lagrange": "DG"}.get(V.ufl_element().family(), V.ufl_element().family())
        used, out = [], []
        for row, x in zip(export.data, xs):
            free = [i for i in range(len(vals)) if FS.DOFX[fam][i] == x and i not in used]
            if not free:
                self.e.prove("each row stands for one degree of freedom at its coordinate", False, f"{xs}")
                raise StopPath()
            got = rat(row[-1])
            i = next((i for i in free if got is not None and equal(vals[i].p, got)), free[0])
            used.append(i)
            out.append(vals[i])
        return out

    def cell_values(self, u, fm, vols, k):
        """values of u at the degrees of freedom of the cells of volume k (first cell / the other two)"""
        vals = FS.nodal(u)
        out = []
        for c in ([0] if k == 0 else [1, 2]):
            for d in FS.DofMap(u.function_space()).cell_dofs(c):
                out.append(vals[d])
        return out

    def jacobian_is(self, name, problem, u, places):
        """the Jacobian handed to the solver is the derivative of its residual with respect to u"""
        J = problem.jacobian_form
        if not isinstance(J, FS.Jacobian):
            raise Unsupported("Jacobian given otherwise than by derivative()")
        self.prove(name + ": with respect to the unknown", J.u is u)
        self.prove(name + ": trial function", J.du is None or (isinstance(J.du, FS.Argument) and J.du.kind_ == "Trial" and J.du.V.mesh_ is u.V.mesh_
                                                                  and FS.element_key(J.du.V.element) == FS.element_key(u.V.element)))
        R = problem.residual_form
        for at, typ, sid in places:
            self.eq(name + ": of the residual that is solved", self.total(J.F, typ, sid), self.total(R, typ, sid))

    def file_content(self, u, filename, label, step, at):
        return FS.UExpr(Poly.atom(atom("fn", "xdmf", (str(filename), str(label), str(step)), const=False)))

    def mesh_again(self, fm):
        """another festim mesh of the same domain"""
        return self.F.Mesh(fm.mesh, fm.volume_markers, fm.surface_markers, fm.type)

    def vec_content(self, vec):
        return vec.u.get_content()

    def vec_set(self, vec, name, scale=1.0):
        """content that depends on the name only"""
        self.havoc(vec.u, name)

    def same_contents(self, name, a, b, at=None):
        return self.same_content(name, a, b, at)

    # ---- events
    def on_newton(self, hook):
        """hook(problem, target) -> (nb_it, converged); target identifies the unknown"""
        self.e.store["newton"] = lambda solver, problem, vec: hook(solver, ProblemView(self, problem), vec)

    def target_is(self, vec, u):
        return vec.u is u

    def events(self, *kinds):
        return [ev for ev in self.e.log if ev[0] in kinds]

    def clear_events(self):
        del self.e.log[:]

    def exprt(self, e):
        return e.t

    # ---- prescribed values
    def bc_info(self, bc):
        """(component or None, value, surface, marker function)"""
        return bc.V.comp, bc.value, bc.surface, bc.markers
