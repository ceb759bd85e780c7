"""Multivariate polynomials with rational coefficients over named atoms.

Sizes, index expressions and grades (exponents of the formal scalings used by
the typing rules) are all polynomials.  A monomial is a sorted tuple of
(atom, exponent) pairs.
"""
from fractions import Fraction

_ONE = ()


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms=None):
        self.t = {m: c for m, c in (terms or {}).items() if c != 0}
        self._h = None

    # -- construction -----------------------------------------------------
    @staticmethod
    def const(c):
        return Poly({_ONE: Fraction(c)})

    @staticmethod
    def atom(name):
        return Poly({((name, 1),): Fraction(1)})

    @staticmethod
    def of(v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, (int, Fraction)):
            return Poly.const(v)
        raise TypeError(f"not a polynomial: {v!r}")

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted(d.items()))
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    # -- queries ----------------------------------------------------------
    def is_zero(self):
        return not self.t

    def is_const(self):
        return all(m == _ONE for m in self.t)

    def const_value(self):
        return self.t.get(_ONE, Fraction(0))

    def as_int(self):
        """The Python int this denotes, or None."""
        if self.is_const():
            c = self.const_value()
            if c.denominator == 1:
                return int(c)
        return None

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def degree_in(self, a):
        return max((dict(m).get(a, 0) for m in self.t), default=0)

    def coeff_of(self, a, e=1):
        """Coefficient polynomial of a**e."""
        t = {}
        for m, c in self.t.items():
            d = dict(m)
            if d.get(a, 0) == e:
                d.pop(a, None)
                mm = tuple(sorted(d.items()))
                t[mm] = t.get(mm, 0) + c
        return Poly(t)

    def subst(self, env):
        """Replace atoms by polynomials."""
        if not env or not (self.atoms() & env.keys()):
            return self
        r = Poly()
        for m, c in self.t.items():
            term = Poly.const(c)
            for a, e in m:
                if a in env:
                    term = term * (Poly.of(env[a]) ** e)
                else:
                    term = term * Poly({((a, e),): Fraction(1)})
            r = r + term
        return r

    def divide_exact(self, d):
        """self / d when the division is exact, else None (single-divisor
        multivariate division; exact for the products met here)."""
        d = Poly.of(d)
        if d.is_zero():
            return None
        if d.is_const():
            return self * Poly.const(1 / d.const_value())
        # choose a leading monomial order: lexicographic on sorted atoms
        def key(m):
            return tuple(sorted(((a, e) for a, e in m)))
        order = sorted(self.atoms() | d.atoms())

        def vec(m):
            dd = dict(m)
            return tuple(dd.get(a, 0) for a in order)

        lead_m = max(d.t, key=vec)
        lead_c = d.t[lead_m]
        lv = dict(lead_m)
        q, r = Poly(), self
        for _ in range(200):
            if r.is_zero():
                return q
            m = max(r.t, key=vec)
            rm = dict(m)
            if any(rm.get(a, 0) < e for a, e in lv.items()):
                return None
            nm = {a: rm.get(a, 0) - lv.get(a, 0) for a in rm}
            nm = tuple(sorted((a, e) for a, e in nm.items() if e))
            t = Poly({nm: r.t[m] / lead_c})
            q = q + t
            r = r - t * d
        return None

    def div_int(self, d):
        """Exact quotient with integer coefficients, or None."""
        q = self.divide_exact(d)
        if q is None or any(c.denominator != 1 for c in q.t.values()):
            return None
        return q

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Poly.const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (-sum(e for _, e in kv[0]), kv[0])):
            ms = "*".join(a if e == 1 else f"{a}^{e}" for a, e in m)
            if not ms:
                s = str(c)
            elif c == 1:
                s = ms
            elif c == -1:
                s = "-" + ms
            else:
                s = f"{c}*{ms}"
            out.append(s)
        return "+".join(out).replace("+-", "-")


def P(v):
    return Poly.of(v)


class Facts:
    """What a path knows about the size atoms: substitutions (equalities solved
    for one atom), lower bounds and disequalities."""

    def __init__(self):
        self.sub = {}
        self.lb = {}
        self.ne = []  # polynomials known to be non-zero
        self.nn = []  # polynomials known to be non-negative
        self.div = []  # (N, L, q, r) with N = q*L + r, 0 <= r < L

    def copy(self):
        f = Facts()
        f.sub = dict(self.sub)
        f.lb = dict(self.lb)
        f.ne = list(self.ne)
        f.nn = list(self.nn)
        f.div = list(self.div)
        return f

    # -- learning ---------------------------------------------------------
    def learn(self, fact):
        self._learn(fact)
        self.tighten()

    def tighten(self):
        """Integer bounds of single atoms: a >= 1 and a != 1 give a >= 2;
        a >= 2 and a <= 2 give a = 2."""
        again = True
        while again:
            again = False
            for q in self.ne:
                q = self.norm(q)
                a = self._single(q)
                if a and -q.t.get((), 0) / q.t[((a, 1),)] == self.low(a):
                    self.lb[a] = self.low(a) + 1
                    again = True
            for q in self.nn:
                q = self.norm(q)
                a = self._single(q)
                if a and q.t[((a, 1),)] == -1 and q.t.get((), 0) == self.low(a):
                    self.sub[a] = Poly.const(self.low(a))
                    again = True

    @staticmethod
    def _single(q):
        ms = [m for m in q.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            return ms[0][0][0]
        return None

    def _learn(self, fact):
        """fact: ("eq",p) p==0 | ("ne",p) | ("ge",p,slack) p>=0 | ("lb",a,n) |
        ("div",N,L,q,r)."""
        kind = fact[0]
        if kind == "eq":
            d = self.norm(fact[1])
            q = d.subst({a: Poly.atom(a) + self.low(a) for a in d.atoms()})
            if q.t and () not in q.t and (all(c > 0 for c in q.t.values()) or all(c < 0 for c in q.t.values())):
                # a sum of non-negative terms is zero: every linear term is
                for m in list(q.t):
                    if len(m) == 1 and m[0][1] == 1:
                        self.sub[m[0][0]] = Poly.const(self.low(m[0][0]))
                return
            sol = self.solve(fact[1])
            if sol is None:
                self.nn.append(fact[1])
                self.nn.append(-fact[1])
                return
            a, v, ok = sol
            if not ok:
                self.nn.append(v - self.low(a))
            self.sub[a] = v
        elif kind == "ne":
            self.ne.append(fact[1])
        elif kind == "ge":
            _, p, slack = fact
            if self.nonneg(-P(p)):
                return self._learn(("eq", P(p)))
            self.lb[slack] = 0
            sol = self.solve(P(p) - Poly.atom(slack), avoid=(slack,))
            if sol is None or not sol[2]:
                self.nn.append(P(p))
                self.lb.pop(slack)
            else:
                self.sub[sol[0]] = sol[1]
        elif kind == "nn":
            self.nn.append(fact[1])
        elif kind == "lb":
            self.lb[fact[1]] = fact[2]
        elif kind == "div":
            self.div.append(fact[1:])
        else:
            raise ValueError(kind)

    def norm(self, p):
        p = Poly.of(p)
        for _ in range(50):
            q = p.subst(self.sub)
            if q == p:
                return p
            p = q
        return p

    def low(self, a):
        return self.lb.get(a, 1)

    def nonneg(self, p):
        """Sufficient test for p >= 0."""
        p = self.norm(p)
        if self._nn0(p):
            return True
        for f in self.nn:
            r = p - self.norm(f)
            if self._nn0(r):
                return True
            for g in self.nn:
                if g is not f and self._nn0(r - self.norm(g)):
                    return True
        return False

    def _nn0(self, p):
        q = p.subst({a: Poly.atom(a) + self.low(a) for a in p.atoms()})
        return all(c >= 0 for c in q.t.values())

    def pos(self, p):
        return self.nonneg(Poly.of(p) - 1) or (
            self.nonneg(p) and self.known_nonzero(p))

    def known_nonzero(self, p):
        p = self.norm(p)
        for q in self.ne:
            q = self.norm(q)
            if q == p or q == -p:
                return True
        return False

    def eq(self, p, q):
        """True / False / None (unknown)."""
        d = self.norm(Poly.of(p) - Poly.of(q))
        if d.is_zero():
            return True
        if d.is_const():
            return False
        if self.nonneg(d - 1) or self.nonneg(-d - 1) or self.known_nonzero(d):
            return False
        return None

    def ge(self, p, q):
        d = self.norm(Poly.of(p) - Poly.of(q))
        if self.nonneg(d):
            return True
        if self.nonneg(-d - 1):
            return False
        if self.nonneg(-d) and self.known_nonzero(d):
            return False
        return None

    def solve(self, p, avoid=()):
        """Turn p == 0 into a substitution atom -> polynomial; returns (atom, poly)
        or None. Only atoms that occur linearly with a constant +-1 coefficient."""
        p = self.norm(p)
        best = None
        for a in sorted(p.atoms()):
            if a in avoid or p.degree_in(a) != 1:
                continue
            c = p.coeff_of(a)
            if not c.is_const():
                continue
            rest = p - Poly.atom(a) * c
            val = rest * (-1 / c.const_value())
            if any(x.denominator != 1 for x in val.t.values()):
                continue
            # the solved atom must respect its lower bound
            ok = self.nonneg(val - self.low(a))
            cand = (0 if ok else 1, a, val)
            if best is None or cand[0] < best[0]:
                best = cand
        if best is None:
            return None
        return best[1], best[2], best[0] == 0
