"""what every check assumes (reported in the evidence)"""
COMMON = [
    "the fenics contracts in pyvc/fenics_stub.py: UFL expressions denote the real-valued functions their operators name; a Constant/Expression/Function in a form denotes its content at solve time; interpolate/project/assign copy values exactly; solving a mass-matrix problem gives its pointwise solution",
    "the nonlinear solver is assumed only to change the unknown it is given and to report a number of iterations and convergence (both arbitrary)",
    "floating-point numbers are treated as exact reals (coefficients compared to 1e-10 relative)",
    "sympy.printing.ccode prints an expression with the meaning of the expression",
    "CPython executes the code under contract; proxies for symbolic numbers are indistinguishable from floats for the code",
    "no files are read or written in the proofs: writes are recorded calls",
]
LOOPS = "contracts over lists of any length: the elements that are not known are of the kinds of the known ones, share no objects or ids with them and do not raise"
BY_PROP = {
    "C01": ["numpy.isclose with its default tolerances decides 'reached'", "the steps converge at the first attempt (retries: C02 and the known finding)"],
    "C03": [LOOPS], "C04": [LOOPS], "C06": [LOOPS], "C07": [LOOPS], "C09": [LOOPS],
    "C12": ["a facet has one adjacent volume; in one dimension it is a point", "degrees of freedom of a subdomain are those of its cells"],
    "C13": ["numpy.savetxt/csv writers store the rows they are given"],
    "C16": ["dolfin.near is equality within DOLFIN_EPS; cells are between consecutive vertices"],
    "C18": ["equality of two models is equality of everything handed to the solver and to the files, not of private attributes"],
}
LEVEL = {}
TRUSTED = ["pyvc: term.py (canonical forms), engine.py (path exploration, obligations), loader.py (loads /repo's sources unchanged), loops.py (loop rule, mechanical rewriting of for statements for the contracts marked loops)", "the assumed fenics contracts in pyvc/fenics_stub.py", "z3 and cvc5", "CPython, sympy, numpy"]
_B = "Every obligation is discharged for all numbers, ids, fields and user functions. "
_E = " Assumes the fenics contracts in pyvc/fenics_stub.py and real arithmetic; trusts pyvc and z3/cvc5."
LEVEL_NOTE = {
    "C01": _B + "Any number of steps by induction over the time loop; any number of milestones as a lemma, two in the contract that can alarm." + _E,
    "C02": _B + "Any number of failures in a row by induction over the retry loop; any number of milestones as a lemma, two in the contract that can alarm." + _E,
    "C03": _B + "Any number of materials, subdomains and sources (loop rule), and unrolled up to 6 materials and 9 sources." + _E,
    "C04": _B + "Any number of traps, host materials and sources (loop rule), and unrolled up to 6 traps." + _E,
    "C05": _B + "An arbitrary iteration; up to 3 traps." + _E,
    "C06": _B + "Any number of materials, sources, conditions and surfaces (loop rule), and unrolled up to 4 surfaces." + _E,
    "C07": _B + "Any number of conditions and surfaces (loop rule), and unrolled up to 5 conditions on 4 surfaces." + _E,
    "C08": _B + "Up to 2 conditions on 2 surfaces and 2 traps." + _E,
    "C09": _B + "Any number of conditions and surfaces (loop rule), and unrolled up to 5 conditions on 4 surfaces." + _E,
    "C12": _B + "Angular ranges without bound; values for one quantity among others, up to 3 volumes." + _E,
    "C18": _B + "Bounded: one kind of feature at a time, up to two earlier uses, runs of up to 5 steps." + _E,
}
