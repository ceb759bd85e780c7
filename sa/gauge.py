"""Scaling gauges of a model.

A model is a set of signals (input, state, output ...) and parameters whose
elements relate signal elements (A[n,i,j] relates state (n+1,i) to state (n,j)).
A scaling assigns to every signal element a factor c**g with an exponent g that
is a polynomial in the signal's own indices; it is a symmetry of the model if
every parameter can absorb the difference with an exponent that depends only on
the indices the parameter owns.  All symmetries of a given polynomial shape form
a vector space; each basis vector becomes one formal weight.
"""
from fractions import Fraction
from .poly import Poly, P

GROUPS = {
    # group -> monomials offered to every signal that has the needed indices
    "lin": [()],
    "batch": [("b",), ("b", "t")],
    "time": [("t",), ("t", "t")],
    "basis": [("i",), ("f",), ("o",), ("i", "t"), ("f", "t"), ("o", "t")],
}


class Gauge:
    def __init__(self, groups=None):
        self.groups = groups or list(GROUPS)
        self.sigs = {}
        self.params = {}
        self.cons = []
        self.sol = None

    def signal(self, name, args):
        self.sigs[name] = tuple(args)

    def _monos(self, group):
        # index offsets (time shifts, negative tap times) produce constants, so
        # every group also has the constant monomial
        return [()] + [m for m in GROUPS[group] if m]

    def _raw(self, name, group, **ix):
        """Unknown-coefficient polynomial of a signal at the given indices."""
        r = Poly()
        for m in self._monos(group):
            if all(a in self.sigs[name] for a in m):
                t = Poly.atom(f"c:{group}:{name}:" + ".".join(m))
                for a in m:
                    t = t * P(ix[a])
                r = r + t
        return r

    def param(self, name, fn, owned):
        """fn(at) -> polynomial, at(sig, **indices); index atoms "n_b" etc."""
        self.params[name] = (fn, tuple(owned))

    def require_zero(self, fn):
        """The polynomial must vanish identically (absent identity parameters)."""
        self.cons.append(fn)

    def solve(self):
        self.sol = {}
        self.weights = {}
        for g in self.groups:
            at = lambda sig, **ix: self._raw(sig, g, **ix)
            rows = []
            names = sorted({f"c:{g}:{s}:" + ".".join(m) for s, a in self.sigs.items()
                            for m in self._monos(g) if all(x in a for x in m)},
                           key=lambda n: (not n.endswith(":"), n))
            exprs = [(fn(at), own) for fn, own in self.params.values()] + [(fn(at), ()) for fn in self.cons]
            for k, (e, own) in enumerate(exprs):
                strict = k >= len(self.params)
                byidx = {}
                for m, c in e.t.items():
                    cs = [a for a, _ in m if a.startswith("c:")]
                    rest = tuple((a, n) for a, n in m if not a.startswith("c:"))
                    byidx.setdefault(rest, {})[cs[0]] = c
                for rest, lin in byidx.items():
                    if not strict and all(a in own for a, _ in rest):
                        continue
                    rows.append(lin)
            basis = nullspace(rows, names)
            ws = []
            val = {n: Poly() for n in names}
            if g != "lin":      # pure constants belong to the "lin" group
                basis = [v for v in basis if any(not n.endswith(":") for n in v)]
            for k, vec in enumerate(basis):
                wname = f"w:{g}{k}"
                ws.append(wname)
                for n, c in vec.items():
                    val[n] = val[n] + Poly.atom(wname) * c
            self.sol.update(val)
            self.weights[g] = ws
        return self

    def at(self, sig, **ix):
        r = Poly()
        for g in self.groups:
            r = r + self._raw(sig, g, **ix)
        return r.subst(self.sol)

    def grade(self, name):
        """Function of the index atoms (dict) -> grade of a parameter."""
        fn, own = self.params[name]

        def f(**ix):
            r = Poly()
            for g in self.groups:
                e = fn(lambda sig, **i: self._raw(sig, g, **i))
                r = r + e.subst(self.sol)
            return r.subst(ix)
        return f


def nullspace(rows, names):
    m = [[Fraction(r.get(n, 0)) for n in names] for r in rows]
    piv = []
    r = 0
    for c in range(len(names)):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        d = m[r][c]
        m[r] = [x / d for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(len(names)):
        if c in piv:
            continue
        v = {names[c]: Fraction(1)}
        for i, pc in enumerate(piv):
            if m[i][c] != 0:
                v[names[pc]] = -m[i][c]
        # integer scale
        den = 1
        for x in v.values():
            den = den * x.denominator
        out.append({n: x * den for n, x in v.items()})
    return out
