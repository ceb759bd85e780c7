"""Values, inequalities and index decompositions of the native-source analysis.

Integer expressions are polynomials over tensor sizes and loop counters,
pointers are (storage, offset polynomial), tensor elements are symbolic atoms.
Anything the analysis has no rule for raises Und, which makes the enclosing
entry point undetermined.
"""
from fractions import Fraction
from .poly import Poly, Facts

BIG = 10 ** 9


class Und(Exception):
    """No rule for a construct."""


class Reject(Exception):
    """The call raises on this path."""


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Cont(Exception):
    pass


INTW = {"int": 32, "int32_t": 32, "unsigned": 32, "uint32_t": 32, "short": 16, "int16_t": 16, "uint16_t": 16, "char": 8, "int8_t": 8,
        "uint8_t": 8, "long": 64, "int64_t": 64, "uint64_t": 64, "size_t": 64, "ssize_t": 64, "ptrdiff_t": 64, "long long": 64,
        "unsigned int": 32, "unsigned long": 64, "long int": 64}


class Int:
    __slots__ = ("p", "w", "nar")

    def __init__(self, p, w=64, nar=None):
        self.p, self.w, self.nar = Poly.of(p), w, nar

    def __repr__(self):
        return f"Int({self.p},{self.w})"


class Data:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = Poly.of(p)

    def __repr__(self):
        return f"Data({self.p})"


class Ptr:
    __slots__ = ("st", "off", "nar")

    def __init__(self, st, off, nar=None):
        self.st, self.off, self.nar = st, Poly.of(off), nar

    def __repr__(self):
        return f"Ptr({self.st},{self.off})"


class Tup:
    def __init__(self, items):
        self.items = list(items)


class Obj:
    """Instance of a user struct."""

    def __init__(self, st, fields):
        self.st, self.fields = st, fields


class Lam:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Fun:
    def __init__(self, name, targs=()):
        self.name, self.targs = name, targs


class It:
    """Thrust iterator; kind: count, ptr, map(op, base), zip(items), outmap(op, base)."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Opaque:
    def __init__(self, what):
        self.what = what


class Cond:
    """op: ge (p >= 0), eq, ne, and, or, not, opaque."""

    def __init__(self, op, *a):
        self.op, self.a = op, a


class Cell:
    __slots__ = ("v", "ty", "name", "depth", "ref")

    def __init__(self, v, ty, name, depth):
        self.v, self.ty, self.name, self.depth, self.ref = v, ty, name, depth, None


class Store:
    """A block of elements.  `extent` counts elements; `content(flat)` describes
    the initial element."""
    n = 0

    def __init__(self, label, extent, shape=None, get=None, local=False, arg=None, line=0):
        Store.n += 1
        self.id = f"{label}#{Store.n}"
        self.label, self.extent, self.shape, self.get, self.local, self.arg, self.line = label, Poly.of(extent), shape, get, local, arg, line

    def __repr__(self):
        return self.id


class Loop:
    n = 0

    def __init__(self, count, line, par=False):
        Loop.n += 1
        self.atom = f"k{Loop.n}"
        self.n, self.line, self.par = count, line, par
        self.writes = []
        self.nar = None
        self.p = Poly.atom(self.atom)

    def __repr__(self):
        return f"{self.atom}<{self.n}"


class Acc:
    __slots__ = ("kind", "st", "off", "val", "loops", "facts", "line", "file", "func", "nar", "final")

    def __init__(self, kind, st, off, val, loops, facts, line, file, func, nar):
        self.kind, self.st, self.off, self.val, self.loops, self.facts = kind, st, off, val, loops, facts
        self.line, self.file, self.func, self.nar = line, file, func, nar

    def __repr__(self):
        return f"{self.kind} {self.st}[{self.off}] := {self.val} in {self.loops} @{self.line}"


class Tensor:
    """shape: polynomials; get(idx) -> ("st", Store, flat) | ("src", name, idx) |
    ("zero",) | ("none",) | None; contig True/False/None."""

    def __init__(self, shape, get, contig, dtype, name, arg=None):
        self.shape, self.get, self.contig, self.dtype, self.name = [Poly.of(s) for s in shape], get, contig, dtype, name
        self.store = None
        self.bound = False
        self.arg = arg            # argument whose memory this may be

    def numel(self):
        p = Poly.const(1)
        for s in self.shape:
            p = p * s
        return p


# ---------------------------------------------------------------- inequalities

def learn_ge(f, p):
    """p >= 0"""
    p = f.norm(p)
    if p.is_const():
        if p.const_value() < 0:
            raise Infeasible()
        return
    if f.nonneg(p):
        return
    a = Facts._single(p)
    if a is not None:
        c = p.t[((a, 1),)]
        k = p.t.get((), Fraction(0))
        if c > 0:
            lo = -((k / c).__floor__())
            f.lb[a] = max(f.low(a), lo)
            f.tighten()
            return
        hi = (k / -c).__floor__()
        if hi < f.low(a):
            raise Infeasible()
        if hi == f.low(a):
            f.sub[a] = Poly.const(hi)
            return
        f.nn.append(p)
        return
    if f.nonneg(-p):
        return learn_eq(f, p)
    if f.nonneg(-p - 1):
        raise Infeasible()
    if () in p.t and p.t[()] < 0 and len(p.t) == 2:
        # c*x*y*.. >= 1: every factor is positive
        m = next(m for m in p.t if m)
        if p.t[m] > 0 and all(f.low(a) >= 0 for a, _ in m):
            for a, _ in m:
                f.lb[a] = max(1, f.low(a))
            f.tighten()
            if f.nonneg(p):
                return
    f.nn.append(p)


def learn_eq(f, p):
    p = f.norm(p)
    if p.is_zero():
        return
    if p.is_const() or f.eq(p, 0) is False:
        raise Infeasible()
    a = Facts._single(p)
    if a is not None:
        v = -p.t.get((), Fraction(0)) / p.t[((a, 1),)]
        if v.denominator != 1 or v < f.low(a):
            raise Infeasible()
        f.sub[a] = Poly.const(v)
        return
    f.learn(("eq", p))


def learn_ne(f, p):
    p = f.norm(p)
    if p.is_zero():
        raise Infeasible()
    f.learn(("ne", p))
    # a counter that is not at its lower bound is above it
    at = list(p.atoms())
    if len(at) == 1 and p.degree_in(at[0]) == 1 and at[0] not in f.sub and at[0] in f.lb:
        c = p.coeff_of(at[0])
        v = -p.subst({at[0]: Poly.const(0)}).const_value() / c.const_value()
        if v == f.lb[at[0]]:
            f.lb[at[0]] = int(v) + 1


def nonneg(f, loops, p, depth=0):
    """Sufficient test for p >= 0 for every admissible iteration of `loops`."""
    p = f.norm(p)
    if f.nonneg(p):
        return True
    if depth > 12:
        return False
    for l in reversed(loops):
        a = l.atom
        if a not in p.atoms():
            continue
        if p.degree_in(a) != 1:
            return False
        c = p.coeff_of(a)
        if nonneg(f, loops, c, depth + 1):
            return nonneg(f, loops, p.subst({a: Poly.const(f.low(a))}), depth + 1)
        if nonneg(f, loops, -c, depth + 1):
            return nonneg(f, loops, p.subst({a: f.norm(l.n) - 1}), depth + 1)
        return False
    return False


def evaluate(p, env):
    tot = Fraction(0)
    for m, c in p.t.items():
        for a, e in m:
            c = c * env[a] ** e
        tot += c
    return tot


def witnesses(f, ps, loops, limit=4, cap=60000):
    """Small valuations of the atoms of `ps` and `loops` that satisfy the facts;
    loop counters range over their iteration space."""
    latoms = [l.atom for l in loops]
    # a counter split into two is determined by its parts
    loops = [l for l in loops if l.atom not in f.sub] + [l for l in loops if l.atom in f.sub]
    need = set()
    for p in list(ps) + [l.n for l in loops]:
        need |= f.norm(p).atoms()
    cons = [f.norm(q) for q in f.nn]
    nes = [f.norm(q) for q in f.ne]
    # an atom replaced through an equation keeps its own lower bound
    low_of = [(f.norm(v) - f.lb.get(a, 0)) for a, v in f.sub.items()]
    for q in cons + nes + low_of:
        need |= q.atoms()
    size = sorted(need - set(latoms))
    if len(size) > 9:
        return
    cnt = [0]

    def loopsgen(i, env):
        if i == len(loops):
            yield dict(env)
            return
        l = loops[i]
        n = f.norm(l.n)
        if not n.atoms() <= set(env):
            return
        n = evaluate(n, env)
        if l.atom in f.sub:
            q = f.norm(Poly.atom(l.atom))
            if not q.atoms() <= set(env):
                return
            v = evaluate(q, env)
            if 0 <= v < n:
                env[l.atom] = v
                yield from loopsgen(i + 1, env)
                env.pop(l.atom, None)
            return
        for v in range(max(0, f.low(l.atom)), int(n)):
            env[l.atom] = Fraction(v)
            yield from loopsgen(i + 1, env)
        env.pop(l.atom, None)

    def gen(i, env):
        cnt[0] += 1
        if cnt[0] > cap:
            return
        if i == len(size):
            for e in loopsgen(0, dict(env)):
                cnt[0] += 1
                if cnt[0] > cap:
                    return
                try:
                    if all(evaluate(q, e) >= 0 for q in cons + low_of) and all(evaluate(q, e) != 0 for q in nes):
                        yield e
                except KeyError:
                    return
            return
        a = size[i]
        lo = f.low(a)
        if lo < -1000:
            lo = -2
        for v in range(lo, max(lo, limit) + 1):
            env[a] = Fraction(v)
            yield from gen(i + 1, env)
        env.pop(a, None)
    yield from gen(0, {})


# ---------------------------------------------------------------- mixed radix

def split(flat, dims, f, loops):
    """Indices per dimension of a flat offset, or None when they cannot be proven."""
    dims = [f.norm(d) for d in dims]
    out = []
    r = f.norm(flat)
    for d in range(len(dims)):
        s = Poly.const(1)
        for e in dims[d + 1:]:
            s = s * e
        if d == len(dims) - 1:
            q, r = r, Poly.const(0)
        else:
            q, r = quot(r, s, loops)
            for _ in range(2):
                if nonneg(f, loops, r):
                    break
                if nonneg(f, loops, r + s) and nonneg(f, loops, -r - 1):
                    q, r = q - 1, r + s
                else:
                    break
            if not (nonneg(f, loops, r) and nonneg(f, loops, s - 1 - r)):
                return None
        out.append(q)
    return out


def exact(g, s):
    try:
        q = g.divide_exact(s)
    except Exception:
        return None
    # an integer quotient only: 1 is no multiple of 2
    return None if q is not None and any(Fraction(v).denominator != 1 for v in q.t.values()) else q


def quot(p, s, loops):
    """p = q*s + r, dividing the coefficient of every loop counter where possible."""
    if s == Poly.const(1):
        return p, Poly.const(0)
    latoms = {l.atom for l in loops}
    groups = {}
    for m, c in p.t.items():
        key = tuple(x for x in m if x[0] in latoms)
        rest = tuple(x for x in m if x[0] not in latoms)
        groups.setdefault(key, {})[rest] = c
    q, r = Poly(), Poly()
    for key, g in groups.items():
        g = Poly(g)
        base = Poly({key: Fraction(1)})
        e = exact(g, s)
        if e is not None:
            q = q + base * e
            continue
        if s.is_const() and g.is_const():
            v, k = g.const_value(), s.const_value()
            d = Fraction(v // k)
            q = q + base * d
            r = r + base * (v - d * k)
            continue
        e, rem = peel(g, s)
        q = q + base * e
        r = r + base * rem
    return q, r


def peel(g, s):
    lead = max(s.t, key=lambda m: (sum(e for _, e in m), m))
    lc = s.t[lead]
    q = Poly()
    for _ in range(6):
        hit = None
        for m, c in g.t.items():
            d = dict(m)
            ok = True
            for a, e in lead:
                if d.get(a, 0) < e:
                    ok = False
                    break
                d[a] -= e
            if ok:
                hit = Poly({tuple(sorted((a, e) for a, e in d.items() if e)): c / lc})
                break
        if hit is None or any(v.denominator != 1 for v in hit.t.values()):
            break
        q = q + hit
        g = g - hit * s
    return q, g
