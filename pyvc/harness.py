"""Registry of contracts and the interface a contract is written against.

A contract is a Python function of one argument `h`.  `h` is either symbolic
(`symh.SymH`: universally quantified inputs, obligations for the solvers) or
real (`realh.RealH`: the installed fenics and concrete numbers; used to replay a
counterexample against the code that really runs).
"""
REG = {}


class Contract:
    def __init__(self, prop, name, fn, functions, bounded, symbolic_only, weight, tier, sizes, lemma=False, loops=False):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions, self.bounded, self.symbolic_only = functions, bounded, symbolic_only
        self.weight, self.tier, self.sizes = weight, tier, sizes
        self.lemma = lemma
        self.loops = loops


def contract(prop, functions=(), bounded=None, symbolic_only=False, weight=1, tier="quick", name=None, sizes=None, lemma=False, loops=False):
    """bounded: text of the bound left by this contract (None: no bound)
    lemma: strengthens another contract from bounded to unbounded; when its proof does
    not go through any more and no failing input is found, the bounded contract decides
    loops: the code is loaded with its loops rewritten for lists of arbitrary length (loops.py)"""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REG.setdefault(p, []).append(Contract(p, name or fn.__name__, fn, list(functions), bounded, symbolic_only, weight, tier, sizes, lemma, loops))
        return fn
    return deco


class Loc:
    """a generic place: an arbitrary point of volume `vol` (on surface `surf`)"""
    def __init__(self, vol=None, surf=None, **kw):
        self.vol, self.surf = vol, surf
        self.__dict__.update(kw)

    def __repr__(self):
        return f"vol={self.vol} surf={self.surf}"


def flat_forms(form):
    return form
