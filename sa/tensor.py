"""Abstract tensors: piecewise grade types over symbolic sizes.

An abstract tensor has symbolic axes.  Every axis is a list of segments, every
segment a row-major product of index atoms; for every combination of segments
there is one Block, which records what is known about *all* elements in that
region:

  zero      every element is 0
  support   index equations outside which elements are 0 (diagonals)
  grade     exponent polynomial of the formal scalings (weights "w:...") under
            which the element is homogeneous
  unk       weights for which nothing is known
  coef      the common rational coefficient of all monomials in the element
            (state matrices are entered with the sign convention of the caller)
  deps      which inputs the element is built from, with conjugation polarity
            and whether the autograd path is intact
  taint     rule conflicts that flowed into the element
"""
import itertools
from fractions import Fraction
from .poly import Poly, P

_counter = itertools.count()


def fresh(prefix="i"):
    return f"{prefix}#{next(_counter)}"


class Unsupported(Exception):
    """The analysis has no transfer rule here: the result is unknown."""


class Infeasible(Exception):
    """The path condition is contradictory."""


class AbsError(Exception):
    """The analysed program raises on this path."""

    def __init__(self, kind, msg, cls="shape"):
        super().__init__(msg)
        self.kind = kind      # python exception name
        self.msg = msg
        self.cls = cls
        self.loc = None


class Seg:
    __slots__ = ("factors", "size", "pad")

    def __init__(self, factors, size=None, pad=None):
        self.factors = tuple(factors)
        if size is None:
            size = P(1)
            for _, n in self.factors:
                size = size * n
        self.size = P(size)
        self.pad = pad    # (head, tail) zeros along the innermost factor

    def natural(self):
        n = P(1)
        for _, k in self.factors:
            n = n * k
        return n

    def __repr__(self):
        return "[" + "*".join(f"{a}:{n}" for a, n in self.factors) + f"|{self.size}]"


def seg1(size, prefix="i"):
    size = P(size)
    if size == 1:
        return Seg((), P(1))
    return Seg(((fresh(prefix), size),))


class Storage:
    __slots__ = ("root", "saved", "id", "where")

    def __init__(self, root=None, where=None):
        self.root = root
        self.saved = None
        self.id = next(_counter)
        self.where = where


class Block:
    __slots__ = ("zero", "support", "grade", "unk", "coef", "deps", "taint")

    def __init__(self, zero=False, support=(), grade=None, unk=frozenset(),
                 coef=Fraction(1), deps=frozenset(), taint=frozenset()):
        self.zero = zero
        self.support = tuple(support)
        self.grade = grade if grade is not None else Poly()
        self.unk = unk
        self.coef = coef
        self.deps = deps
        self.taint = taint

    def with_(self, **kw):
        b = Block(self.zero, self.support, self.grade, self.unk, self.coef,
                  self.deps, self.taint)
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def subst(self, env):
        if not env:
            return self
        return self.with_(support=tuple(s.subst(env) for s in self.support),
                          grade=self.grade.subst(env))

    def __repr__(self):
        if self.zero:
            return "0"
        s = f"<{self.grade} c={self.coef}"
        if self.support:
            s += f" sup={list(self.support)}"
        if self.unk:
            s += f" unk={sorted(self.unk)}"
        if self.deps:
            s += " d=" + ",".join(sorted(f"{r}{'*' if p == 'c' else ''}{'' if g else '!'}" for r, p, g in self.deps))
        if self.taint:
            s += f" taint={len(self.taint)}"
        return s + ">"


ZERO = Block(zero=True)
ALL = "*"


def unknown_block(deps=frozenset(), taint=frozenset()):
    return Block(unk=frozenset([ALL]), coef=None, deps=deps, taint=taint)


class T:
    """Abstract tensor."""

    def __init__(self, axes, blocks, cplx=False, dtype="X", dev="X", stor=None,
                 layout=None, pending=None):
        self.axes = [list(a) for a in axes]
        self.blocks = blocks
        self.cplx = cplx
        self.dtype = dtype
        self.dev = dev
        self.stor = stor if stor is not None else frozenset([Storage()])
        self.strides = None       # see strides.py
        self.layout = layout      # None | "contig" | ("like", root)
        self.pending = pending    # lazily re-factored axis pair

    # -- helpers ----------------------------------------------------------
    @property
    def ndim(self):
        return len(self.axes)

    def size(self, i):
        n = P(0)
        for s in self.axes[i]:
            n = n + s.size
        return n

    def shape(self):
        return [self.size(i) for i in range(self.ndim)]

    def deps(self):
        r = frozenset()
        for b in self.blocks.values():
            r |= b.deps
        return r

    def taint(self):
        r = frozenset()
        for b in self.blocks.values():
            r |= b.taint
        return r

    def atoms(self):
        return [a for ax in self.axes for s in ax for a, _ in s.factors]

    def like(self, axes=None, blocks=None, **kw):
        d = dict(cplx=self.cplx, dtype=self.dtype, dev=self.dev)
        d.update(kw)
        return T(self.axes if axes is None else axes,
                 self.blocks if blocks is None else blocks, **d)

    def view(self, axes=None, blocks=None, **kw):
        return self.like(axes, blocks, stor=self.stor, **kw)

    def freshened(self):
        env = {a: fresh() for a in self.atoms()}
        ren = {a: Poly.atom(b) for a, b in env.items()}
        axes = [[Seg(tuple((env[a], n) for a, n in s.factors), s.size, s.pad) for s in ax]
                for ax in self.axes]
        t = T(axes, {k: b.subst(ren) for k, b in self.blocks.items()}, self.cplx,
              self.dtype, self.dev, self.stor, self.layout, self.pending)
        return t

    def is_zero(self):
        return all(b.zero for b in self.blocks.values())

    def __repr__(self):
        return f"T({self.shape()} {self.axes} {self.blocks})"


def mk(shape, block_fn=None, prefix="i", **kw):
    """A one-block tensor. block_fn(index atoms as Poly list) -> Block."""
    axes = [[seg1(n, prefix)] for n in shape]
    idx = [Poly.atom(s[0].factors[0][0]) if s[0].factors else P(0) for s in axes]
    b = block_fn(idx) if block_fn else ZERO
    return T(axes, {tuple(0 for _ in axes): b}, **kw)


def scalar(coef, cplx=False):
    b = ZERO if coef == 0 else Block(coef=Fraction(coef) if coef is not None else None)
    return T([], {(): b}, cplx=cplx, dtype=None, dev=None)


def unknown(shape, deps=frozenset(), taint=frozenset(), **kw):
    return mk(shape, lambda ix: unknown_block(deps, taint), **kw)


# --------------------------------------------------------------------------
class Ops:
    """Transfer functions; ctx supplies facts, forks and events."""

    def __init__(self, ctx):
        self.ctx = ctx

    @property
    def F(self):
        return self.ctx.facts

    # ---- comparisons ----------------------------------------------------
    def same(self, p, q):
        """Sizes equal?  Undecided differences of generic sizes count as
        different, differences involving opaque numbers as unknown."""
        r = self.F.eq(p, q)
        if r is None:
            d = self.F.norm(P(p) - P(q))
            if any(a.startswith("?") for a in d.atoms()):
                raise Unsupported(f"size comparison {p} vs {q}")
            return False
        return r

    def weights(self, poly, skip=frozenset()):
        """Weights that occur in a (normalised) grade difference."""
        out = set()
        if ALL in skip:
            return out
        for m in self.F.norm(poly).t:
            w = [a for a, _ in m if a.startswith("w:")]
            for a in w:
                if a not in skip:
                    out.add(a)
            if not w:
                out.add("w:?")
        return out

    def reduce(self, g, support):
        """g modulo the index equations in support."""
        for _ in range(len(support) + 1):
            changed = False
            for s in support:
                s = self.F.norm(s)
                sol = None
                for a in sorted(s.atoms()):
                    if "#" in a and s.degree_in(a) == 1 and a in g.atoms():
                        c = s.coeff_of(a)
                        if c.is_const() and abs(c.const_value()) == 1:
                            sol = (a, (s - Poly.atom(a) * c) * (-1 / c.const_value()))
                            break
                if sol:
                    g = g.subst({sol[0]: sol[1]})
                    changed = True
            if not changed:
                break
        return g

    def gdiff(self, b1, b2, support=()):
        skip = b1.unk | b2.unk
        return self.weights(self.reduce(b1.grade - b2.grade, support), skip)

    # ---- simplification -------------------------------------------------
    def simp(self, t):
        """Drop empty segments and the atoms of size-1 factors."""
        if t.pending is not None:
            return t
        axes, keep, env = [], [], {}
        changed = False
        for ax in t.axes:
            na, nk = [], []
            for k, s in enumerate(ax):
                size = self.F.norm(s.size)
                if size.is_zero():
                    changed = True
                    continue
                fs = []
                for a, n in s.factors:
                    if self.F.norm(n) == 1:
                        env[a] = P(0)
                        changed = True
                    else:
                        fs.append((a, n))
                na.append(Seg(fs, s.size, s.pad) if len(fs) != len(s.factors) else s)
                nk.append(k)
            if not na:
                # empty axis: keep one empty segment with zero content
                na, nk = [Seg((), P(0))], [0]
            axes.append(na)
            keep.append(nk)
        if not changed:
            return t
        blocks = {}
        for key in itertools.product(*[range(len(a)) for a in axes]):
            ok = tuple(keep[i][k] for i, k in enumerate(key))
            b = t.blocks[ok].subst(env)
            blocks[key] = self._check_support(b) if b.support else b
        r = T(axes, blocks, t.cplx, t.dtype, t.dev, t.stor, t.layout)
        return r

    # ---- block algebra --------------------------------------------------
    def badd(self, b1, b2, what="sum", disjoint=False, coefs=True):
        if b1.zero:
            return b2.with_(deps=b2.deps | b1.deps, taint=b1.taint | b2.taint)
        if b2.zero:
            return b1.with_(deps=b2.deps | b1.deps, taint=b1.taint | b2.taint)
        if self.ctx.probe:
            if self.ctx.probe in b1.grade.atoms():
                return b1
            if self.ctx.probe in b2.grade.atoms():
                return b2
        deps, taint = b1.deps | b2.deps, b1.taint | b2.taint
        unk = b1.unk | b2.unk
        sup = ()
        s1, s2 = set(map(self.F.norm, b1.support)), set(map(self.F.norm, b2.support))
        if s1 == s2:
            sup = b1.support
            bad = self.gdiff(b1, b2, sup)
            g = b1.grade
        else:
            # the union region: one polynomial must be valid on both
            bad = self.gdiff(b1, b2, b2.support)
            g = b1.grade
            if bad and b1.support:
                bad2 = self.gdiff(b1, b2, b1.support)
                if not bad2:
                    bad, g = bad2, b2.grade
                elif b2.support:
                    g = self._two_points(b1, b2)
                    if g is not None:
                        coef = b1.coef if b1.coef == b2.coef else None
                        return Block(False, (), g, unk, coef, deps, taint)
                    # both diagonal-like: no polynomial found, not a conflict
                    return Block(False, (), b1.grade, unk | frozenset(bad), None, deps, taint)
            if s1 < s2 and not bad:
                sup = b1.support
            elif s2 < s1 and not bad:
                sup = b2.support
        if bad:
            ev = self.ctx.event("grade", what, weights=bad,
                                detail=self.describe(b1, b2, bad))
            taint = taint | {ev}
            unk = unk | frozenset(bad)
        if b1.coef is None or b2.coef is None:
            coef = None
        elif b1.coef == b2.coef:
            coef = b1.coef
        else:
            coef = None
            if coefs and not bad and not disjoint:
                ev = self.ctx.event("coef", what,
                                    detail=f"terms with coefficients {b1.coef} and {b2.coef} are added")
                taint = taint | {ev}
        return Block(False, sup, g, unk, coef, deps, taint)

    def _two_points(self, b1, b2):
        """Values on two different diagonals: interpolate their grades."""
        for s in b1.support:
            u = self.F.norm(s)
            for q in b2.support:
                for sg in (1, -1):
                    d = u - self.F.norm(q) * sg        # u on the second region
                    if d.is_const() and not d.is_zero():
                        diff = self.reduce(b2.grade, [q]) - self.reduce(b1.grade, [s])
                        return self.F.norm(b1.grade + u * diff * (1 / d.const_value()) + (
                            self.reduce(b1.grade, [s]) - b1.grade))
        return None

    def describe(self, b1, b2, bad):
        def part(g):
            g = self.F.norm(g)
            t = {m: c for m, c in g.t.items() if any(a in bad for a, _ in m)}
            return repr(Poly(t))
        return f"left scales as {part(b1.grade)}, right as {part(b2.grade)}"

    def bmul(self, b1, b2):
        deps, taint = b1.deps | b2.deps, b1.taint | b2.taint
        if b1.zero or b2.zero:
            return Block(zero=True, deps=frozenset(), taint=frozenset())
        coef = None if b1.coef is None or b2.coef is None else b1.coef * b2.coef
        sup = list(b1.support)
        for s in b2.support:
            if s not in sup:
                sup.append(s)
        return Block(False, sup, b1.grade + b2.grade, b1.unk | b2.unk, coef, deps, taint)

    def contract(self, b, atoms, what="contraction"):
        """Sum of b over the index atoms."""
        if b.zero:
            return b
        g, sup = b.grade, [self.F.norm(s) for s in b.support]
        left = []
        for k in atoms:
            done = False
            for n, s in enumerate(sup):
                if s.degree_in(k) == 1:
                    c = s.coeff_of(k)
                    if c.is_const() and abs(c.const_value()) == 1:
                        val = (s - Poly.atom(k) * c) * (-1 / c.const_value())
                        g = g.subst({k: val})
                        sup = [x.subst({k: val}) for m, x in enumerate(sup) if m != n]
                        sup = [x for x in (self.F.norm(x) for x in sup) if not x.is_zero()]
                        done = True
                        break
            if not done:
                left.append(k)
        taint, unk = b.taint, b.unk
        g = self.F.norm(g)
        for k in left:
            if k in g.atoms():
                t = Poly({m: c for m, c in g.t.items() if dict(m).get(k)})
                bad = self.weights(t, unk)
                if bad:
                    ev = self.ctx.event("grade", what, weights=bad,
                                        detail=f"terms of the sum scale differently: {t}")
                    taint = taint | {ev}
                    unk = unk | frozenset(bad)
                g = Poly({m: c for m, c in g.t.items() if not dict(m).get(k)})
            sup = [x for x in sup if k not in x.atoms()]
        return Block(False, sup, g, unk, b.coef, b.deps, taint)

    # ---- axis surgery ---------------------------------------------------
    def check_plain(self, t):
        if t.pending is not None:
            raise Unsupported("operation on a lazily re-factored tensor")
        return t

    def split_seg(self, t, ax, k, pos):
        """Split segment k of axis ax at element position pos (0<pos<size)."""
        s = t.axes[ax][k]
        pos = self.F.norm(pos)
        env1, env2 = {}, {}
        if len(s.factors) > 1:
            inner = P(1)
            for _, n in s.factors[1:]:
                inner = inner * n
            inner = self.F.norm(inner)
            q = pos.div_int(inner)
            if q is not None and s.pad is None and self.F.eq(s.size, s.natural()):
                a, n = s.factors[0]
                s1 = Seg(((fresh(), q),) + tuple((fresh(), m) for _, m in s.factors[1:]))
                s2 = Seg(((fresh(), self.F.norm(n - q)),) + tuple((fresh(), m) for _, m in s.factors[1:]))
                env1 = {a: Poly.atom(s1.factors[0][0])}
                env2 = {a: Poly.atom(s2.factors[0][0]) + q}
                for (b, _), (c, _), (d, _) in zip(s.factors[1:], s1.factors[1:], s2.factors[1:]):
                    env1[b] = Poly.atom(c)
                    env2[b] = Poly.atom(d)
                return self._replace_seg(t, ax, k, [(s1, env1), (s2, env2)])
            t = self.merge_factors(t, ax, k)
            s = t.axes[ax][k]
        if not s.factors:
            if self.F.eq(s.size, 1) is True:
                # 0 < pos < 1 cannot happen: one of the parts is empty
                raise Infeasible(f"split of a single element at {pos}")
            raise Unsupported("split of a single element")
        a = s.factors[0][0]
        s1, s2 = Seg(((fresh(), pos),)), Seg(((fresh(), self.F.norm(s.size - pos)),))
        env1 = {a: Poly.atom(s1.factors[0][0])}
        env2 = {a: Poly.atom(s2.factors[0][0]) + pos}
        return self._replace_seg(t, ax, k, [(s1, env1), (s2, env2)])

    def _replace_seg(self, t, ax, k, parts):
        axes = [list(a) for a in t.axes]
        axes[ax] = axes[ax][:k] + [s for s, _ in parts] + axes[ax][k + 1:]
        blocks = {}
        for key, b in t.blocks.items():
            if key[ax] < k:
                blocks[key] = b
            elif key[ax] > k:
                kk = list(key); kk[ax] += len(parts) - 1
                blocks[tuple(kk)] = b
            else:
                for n, (_, env) in enumerate(parts):
                    kk = list(key); kk[ax] += n
                    blocks[tuple(kk)] = self._check_support(b.subst(env)) if b.support else b.subst(env)
        return self.simp(T(axes, blocks, t.cplx, t.dtype, t.dev, t.stor, t.layout))

    def merge_factors(self, t, ax, k):
        """Rewrite a multi-factor segment over a single position atom."""
        s = t.axes[ax][k]
        if len(s.factors) <= 1:
            return t
        p = fresh()
        pp = Poly.atom(p)
        inner = P(1)
        rest = P(0)
        # position = sum atom_i * stride_i ; eliminate the last atom
        strides = []
        for a, n in reversed(s.factors):
            strides.append((a, inner))
            inner = self.F.norm(inner * n)
        last = s.factors[-1][0]
        expr = pp
        for a, st in strides:
            if a != last:
                expr = expr - Poly.atom(a) * st
        others = [a for a, _ in s.factors[:-1]]
        blocks = {}
        for key, b in t.blocks.items():
            if key[ax] != k or b.zero:
                blocks[key] = b
                continue
            env = {last: expr}
            g = self.F.norm(b.grade.subst(env))
            sup = [self.F.norm(x.subst(env)) for x in b.support]
            bad = set()
            for o in others:
                if o in g.atoms():
                    tt = Poly({m: c for m, c in g.t.items() if dict(m).get(o)})
                    bad |= self.weights(tt, b.unk)
                    g = Poly({m: c for m, c in g.t.items() if not dict(m).get(o)})
            sup = [x for x in sup if not (set(others) & x.atoms())]
            # soft: the piecewise structure cannot be expressed any more
            if bad:
                ev = self.ctx.event("grade", "flattened axis", weights=bad,
                                    detail="the elements of the flattened axis do not follow one index order")
                blocks[key] = b.with_(grade=g, support=tuple(sup), unk=b.unk | frozenset(bad),
                                      taint=b.taint | {ev})
            else:
                blocks[key] = b.with_(grade=g, support=tuple(sup))
        axes = [list(a) for a in t.axes]
        axes[ax][k] = Seg(((p, s.size),), s.size)
        return T(axes, blocks, t.cplx, t.dtype, t.dev, t.stor, t.layout)

    def coalesce(self, t, ax, what="concatenated axis"):
        """Describe an axis by a single segment."""
        t = self.simp(self.check_plain(t))
        for k in range(len(t.axes[ax])):
            t = self.merge_factors(t, ax, k)
        while len(t.axes[ax]) > 1:
            t = self._merge_pair(t, ax, what)
        return t

    def _merge_pair(self, t, ax, what):
        s1, s2 = t.axes[ax][0], t.axes[ax][1]
        n1 = self.F.norm(s1.size)
        total = self.F.norm(s1.size + s2.size)
        p = fresh()
        pp = Poly.atom(p)
        seg = Seg(((p, total),))
        axes = [list(a) for a in t.axes]
        axes[ax] = [seg] + axes[ax][2:]
        blocks = {}
        for key in itertools.product(*[range(len(a)) for a in axes]):
            if key[ax] > 0:
                kk = list(key); kk[ax] += 1
                blocks[key] = t.blocks[tuple(kk)]
                continue
            k2 = list(key); k2[ax] = 1
            blocks[key] = self.join_adjacent(t.blocks[key], s1, t.blocks[tuple(k2)], s2, n1, pp, what)
        return T(axes, blocks, t.cplx, t.dtype, t.dev, t.stor, t.layout)

    def join_adjacent(self, b1, s1, b2, s2, n1, pp, what):
        """One description for two neighbouring regions: region 1 holds positions
        0..n1-1, region 2 the following ones; pp is the new position."""
        a1 = s1.factors[0][0] if s1.factors else None
        a2 = s2.factors[0][0] if s2.factors else None
        if b1.zero and b2.zero:
            return Block(zero=True, deps=b1.deps | b2.deps, taint=b1.taint | b2.taint)

        def g1_at(p):
            return b1.subst({a1: p}) if a1 else b1

        def g2_at(p):           # p is an absolute position
            return b2.subst({a2: p - n1}) if a2 else b2
        deps, taint, unk = b1.deps | b2.deps, b1.taint | b2.taint, b1.unk | b2.unk
        coef = b1.coef if b2.zero else b2.coef if b1.zero else (b1.coef if b1.coef == b2.coef else None)
        ctaint = frozenset()
        if b1.zero:
            c = g2_at(pp)
            sup = c.support if a2 else c.support + (pp - n1,)
            return c.with_(deps=deps, taint=taint, coef=coef, support=sup)
        if b2.zero:
            c = g1_at(pp)
            sup = c.support if a1 else c.support + (pp,)
            return c.with_(deps=deps, taint=taint, coef=coef, support=sup)
        if b1.coef is not None and b2.coef is not None and b1.coef != b2.coef:
            ctaint = frozenset([self.ctx.event("coef", what, detail=f"coefficients {b1.coef} and {b2.coef} in one sequence")])
        # candidate polynomials valid on both regions
        cands = []
        A1 = Poly.atom(a1) if a1 else P(0)
        A2 = Poly.atom(a2) if a2 else P(0)
        if a1 or (not a1 and not a2):
            cands.append(g1_at(pp))
        if a2:
            cands.append(g2_at(pp))
        if not a1 and not a2:
            # two single elements: any line through both
            d = b2.grade - b1.grade
            cands.append(b1.with_(grade=b1.grade + pp * d))
        elif not a1:
            # single element then a run: fit a slope correction allowed by support
            d = self.reduce(b2.grade - b1.grade, b2.support)
            cands.append(b1.with_(grade=b1.grade + (self._slope(d, A2)) * pp))
        for c in cands:
            pn = next(iter(pp.atoms()))
            on1 = c.grade.subst({pn: A1})
            on2 = c.grade.subst({pn: A2 + n1})
            w1 = self.weights(self.reduce(on1 - b1.grade, b1.support), unk)
            w2 = self.weights(self.reduce(on2 - b2.grade, b2.support), unk)
            if not w1 and not w2:
                sup = self._joint_support(b1, a1, b2, a2, n1, pp)
                return Block(False, sup, c.grade, unk, coef, deps, taint | ctaint)
        # no common polynomial for all weights: keep those that agree
        c = cands[0]
        pn = next(iter(pp.atoms()))
        bad = set()
        for cc in cands[:2]:
            on1 = cc.grade.subst({pn: A1})
            on2 = cc.grade.subst({pn: A2 + n1})
            w = (self.weights(self.reduce(on1 - b1.grade, b1.support), unk)
                 | self.weights(self.reduce(on2 - b2.grade, b2.support), unk))
            if not bad or len(w) < len(bad):
                bad, c = w, cc
        ev = self.ctx.event("grade", what, weights=bad, detail=self.describe(
            b1, b2, bad) + f" (second part starts at position {n1})")
        return Block(False, (), c.grade, unk | frozenset(bad), coef, deps, taint | ctaint | {ev})

    def _slope(self, d, A2):
        """d should be slope*(A2+1): return the slope polynomial if so."""
        q = self.F.norm(d).divide_exact(A2 + 1)
        return q if q is not None else Poly()

    def _joint_support(self, b1, a1, b2, a2, n1, pp):
        if not b1.support and not b2.support:
            return ()
        sup = []
        s2 = [x.subst({a2: pp - n1}) if a2 else x for x in b2.support]
        s1 = [x.subst({a1: pp}) if a1 else x for x in b1.support]
        for x in s1:
            if any(self.F.norm(x - y).is_zero() or self.F.norm(x + y).is_zero() for y in s2):
                sup.append(x)
        return tuple(sup)

    # ---- alignment of two axes -----------------------------------------
    def align(self, t1, ax1, t2, ax2, what="axis", fresh_ok=True):
        """Common refinement of axis ax1 of t1 and ax2 of t2 (equal totals);
        afterwards segments correspond and use the same atoms."""
        t1, t2 = self.simp(self.check_plain(t1)), self.simp(self.check_plain(t2))
        if not fresh_ok:
            pass
        elif t1 is t2:
            t2 = t2.freshened()
        else:
            common = set(t1.atoms()) & set(t2.atoms())
            if common:
                t2 = t2.freshened()
        k = 0
        while k < len(t1.axes[ax1]) or k < len(t2.axes[ax2]):
            if k >= len(t1.axes[ax1]) or k >= len(t2.axes[ax2]):
                raise Unsupported("axis alignment")
            s1, s2 = t1.axes[ax1][k], t2.axes[ax2][k]
            if self.F.eq(s1.size, s2.size) is True:
                pass
            elif self.F.nonneg(s2.size - s1.size):
                t2 = self.split_seg(t2, ax2, k, s1.size)
            elif self.F.nonneg(s1.size - s2.size):
                t1 = self.split_seg(t1, ax1, k, s2.size)
            else:
                self.ctx.decide_ge(s1.size, s2.size)   # forks with a fact
                raise Unsupported(f"axis alignment {s1.size} vs {s2.size}")
            t1, t2 = self.unify_seg(t1, ax1, t2, ax2, k)
            k += 1
        return t1, t2

    def unify_seg(self, t1, ax1, t2, ax2, k):
        s1, s2 = t1.axes[ax1][k], t2.axes[ax2][k]
        if len(s1.factors) != len(s2.factors) or any(
                self.F.eq(n, m) is not True for (_, n), (_, m) in zip(s1.factors, s2.factors)):
            if len(s1.factors) == 1 and len(s2.factors) > 1 and self.F.eq(s2.size, s2.natural()):
                t1 = self.refactor(t1, ax1, k, [n for _, n in s2.factors])
            elif len(s2.factors) == 1 and len(s1.factors) > 1 and self.F.eq(s1.size, s1.natural()):
                t2 = self.refactor(t2, ax2, k, [n for _, n in s1.factors])
            else:
                t1 = self.merge_factors(t1, ax1, k)
                t2 = self.merge_factors(t2, ax2, k)
            s1, s2 = t1.axes[ax1][k], t2.axes[ax2][k]
        env = {}
        for (a, _), (b, _) in zip(s1.factors, s2.factors):
            if a != b:
                env[b] = Poly.atom(a)
        if env:
            axes = [list(a) for a in t2.axes]
            axes[ax2][k] = s1
            blocks = {key: (b.subst(env) if key[ax2] == k else b) for key, b in t2.blocks.items()}
            t2 = T(axes, blocks, t2.cplx, t2.dtype, t2.dev, t2.stor, t2.layout)
        return t1, t2

    def refactor(self, t, ax, k, sizes):
        """Single-factor segment -> row-major product with the given sizes."""
        s = t.axes[ax][k]
        if len(s.factors) != 1:
            raise Unsupported("refactor")
        a = s.factors[0][0]
        fs = [(fresh(), P(n)) for n in sizes]
        expr, inner = P(0), P(1)
        for b, n in reversed(fs):
            expr = expr + Poly.atom(b) * inner
            inner = self.F.norm(inner * n)
        axes = [list(x) for x in t.axes]
        axes[ax][k] = Seg(fs)
        blocks = {key: (b.subst({a: expr}) if key[ax] == k else b) for key, b in t.blocks.items()}
        return self.simp(T(axes, blocks, t.cplx, t.dtype, t.dev, t.stor, t.layout))

    # ---- metadata -------------------------------------------------------
    def meta(self, *ts):
        cplx = any(t.cplx for t in ts)
        dts = [t.dtype for t in ts if t.ndim > 0 or True]
        dt = self.promote(ts)
        devs = {t.dev for t in ts if t.dev is not None and not (t.dev == "D" and t.ndim == 0)}
        dev = "X" if "X" in devs else (devs.pop() if len(devs) == 1 else ("X" if devs else None))
        return dict(cplx=cplx, dtype=dt, dev=dev)

    def promote(self, ts):
        dts = {t.dtype for t in ts if t.dtype is not None}
        dims = [t for t in ts if t.dtype is not None]
        if not dts:
            return None
        if len(dts) == 1:
            return next(iter(dts))
        order = ["B", "L", "F", "X", "CX"]
        return max(dts, key=lambda d: order.index(d) if d in order else 2)

    def check_mix(self, what, *ts):
        """dtype/device rules for an operation on several tensors; returns taint."""
        out = frozenset()
        real = [t for t in ts if t.dtype is not None]
        dimd = [t for t in real if t.ndim > 0]
        if any(t.dtype in ("X", "CX") for t in real) and any(t.dtype in ("F", "CF") for t in dimd):
            out |= {self.ctx.event("dtype", what, detail="a tensor of the default dtype meets tensors of the caller's dtype")}
        if any(t.dev == "X" for t in real) and any(t.dev == "D" for t in dimd):
            out |= {self.ctx.event("device", what, detail="a tensor on the default device meets tensors on the caller's device")}
        return out

    def mark_saved(self, a, b, what):
        """a*b: each operand is kept for backward if the other needs gradients."""
        ga = any(g for _, _, g in a.deps())
        gb = any(g for _, _, g in b.deps())
        if gb:
            for s in a.stor:
                if s.saved is None:
                    s.saved = self.ctx.where()
        if ga:
            for s in b.stor:
                if s.saved is None:
                    s.saved = self.ctx.where()

    # ---- elementwise ----------------------------------------------------
    def broadcast(self, t1, t2, what="broadcast"):
        """Bring two tensors to a common piecewise structure."""
        t1, t2 = self.simp(self.check_plain(t1)), self.simp(self.check_plain(t2))
        if set(t1.atoms()) & set(t2.atoms()):
            t2 = t2.freshened()
        n = max(t1.ndim, t2.ndim)

        def lift(t):
            d = n - t.ndim
            if not d:
                return t
            axes = [[Seg((), P(1))] for _ in range(d)] + t.axes
            return T(axes, {(0,) * d + k: b for k, b in t.blocks.items()}, t.cplx, t.dtype, t.dev, t.stor)
        t1, t2 = lift(t1), lift(t2)
        for i in range(n):
            n1, n2 = t1.size(i), t2.size(i)
            e = self.F.eq(n1, n2)
            if e is True:
                t1, t2 = self.align(t1, i, t2, i, fresh_ok=False)
            elif self.is_one(n1):
                t1 = self.expand_axis(t1, i, t2.axes[i])
            elif self.is_one(n2):
                t2 = self.expand_axis(t2, i, t1.axes[i])
            else:
                self.same(n1, n2)
                raise AbsError("RuntimeError", f"{what}: sizes {self.F.norm(n1)} and {self.F.norm(n2)} of axis {i - n} do not match")
        return t1, t2

    def is_one(self, n):
        """Decide n == 1; an undecided single atom is split into both cases."""
        e = self.F.eq(n, 1)
        if e is not None:
            return e
        return self.ctx.decide_eq(n, 1)

    def expand_axis(self, t, ax, segs):
        """Broadcast a size-1 axis along the given segments."""
        axes = [list(a) for a in t.axes]
        axes[ax] = list(segs)
        blocks = {}
        for key, b in t.blocks.items():
            for k in range(len(segs)):
                kk = list(key); kk[ax] = k
                blocks[tuple(kk)] = b
        return T(axes, blocks, t.cplx, t.dtype, t.dev, t.stor)

    def add(self, t1, t2, what="addition", sign=1):
        extra = self.check_mix(what, t1, t2)
        m = self.meta(t1, t2)
        t1, t2 = self.broadcast(t1, t2, what)
        blocks = {}
        for key in t1.blocks:
            b2 = t2.blocks[key]
            if sign < 0:
                b2 = self.bneg(b2)
            b = self.badd(t1.blocks[key], b2, what)
            if extra:
                b = b.with_(taint=b.taint | extra)
            blocks[key] = b
        return T(t1.axes, blocks, **m)

    def bneg(self, b):
        return b if b.zero else b.with_(coef=None if b.coef is None else -b.coef)

    def mul(self, t1, t2, what="product"):
        extra = self.check_mix(what, t1, t2)
        self.mark_saved(t1, t2, what)
        m = self.meta(t1, t2)
        t1, t2 = self.broadcast(t1, t2, what)
        blocks = {}
        for key in t1.blocks:
            b = self.bmul(t1.blocks[key], t2.blocks[key])
            if extra:
                b = b.with_(taint=b.taint | extra)
            blocks[key] = b
        return T(t1.axes, blocks, **m)

    def map_blocks(self, t, f, **kw):
        return t.like(t.axes, {k: f(b) for k, b in t.blocks.items()}, **kw)

    def neg(self, t):
        return self.map_blocks(t, self.bneg)

    def conj(self, t):
        if not t.cplx:
            return t
        def f(b):
            return b.with_(deps=frozenset((r, "c" if p == "p" else "p", g) for r, p, g in b.deps))
        return self.map_blocks(t, f)

    def opaque(self, what, shape, *ts, extra_taint=frozenset(), keep=True, **kw):
        """A function nothing is known about: invariant under every scaling
        that leaves its arguments invariant, unknown for the others."""
        deps, taint, unk = frozenset(), frozenset(extra_taint), frozenset()
        for t in ts:
            for b in t.blocks.values():
                deps |= b.deps
                taint |= b.taint
                unk |= b.unk
                unk |= frozenset(self.weights(b.grade, frozenset()) )
        cplx = any(t.cplx for t in ts)
        m = self.meta(*ts) if ts else {}
        m.update(kw)
        return mk(shape, lambda ix: Block(False, (), Poly(), unk, None, deps, taint), **m)

    # ---- contraction ----------------------------------------------------
    def vecdot(self, t1, t2, what="dot product"):
        """sum over the last axis of t1*t2 with broadcasting (no conjugation)."""
        extra = self.check_mix(what, t1, t2)
        self.mark_saved(t1, t2, what)
        m = self.meta(t1, t2)
        if t1.ndim < 1 or t2.ndim < 1:
            raise AbsError("RuntimeError", f"{what}: needs at least one axis")
        if t1.ndim and t2.ndim and not self.same(t1.size(t1.ndim - 1), t2.size(t2.ndim - 1)):
            if not (self.is_one(t1.size(t1.ndim - 1)) or self.is_one(t2.size(t2.ndim - 1))):
                raise AbsError("RuntimeError", f"{what}: contracted sizes {self.F.norm(t1.size(t1.ndim-1))} and {self.F.norm(t2.size(t2.ndim-1))} differ")
        t1, t2 = self.broadcast(t1, t2, what)
        prod = {k: self.bmul(t1.blocks[k], t2.blocks[k]) for k in t1.blocks}
        return self._sum_last(t1.axes, prod, what, extra, m)

    def _sum_last(self, axes, prod, what, extra, m):
        out = {}
        last = axes[-1]
        for key in itertools.product(*[range(len(a)) for a in axes[:-1]]):
            acc = ZERO
            for k, s in enumerate(last):
                b = self.contract(prod[key + (k,)], [a for a, _ in s.factors], what)
                acc = self.badd(acc, b, what)
            if extra:
                acc = acc.with_(taint=acc.taint | extra)
            out[key] = acc
        return T(axes[:-1], out, **m)

    def sum_axis(self, t, ax, what="sum"):
        t = self.simp(self.check_plain(t))
        order = [i for i in range(t.ndim) if i != ax] + [ax]
        t = self.permute(t, order)
        return self._sum_last(t.axes, t.blocks, what, frozenset(), dict(cplx=t.cplx, dtype=t.dtype, dev=t.dev))

    def matmul(self, t1, t2, what="matrix product"):
        if t1.ndim == 0 or t2.ndim == 0:
            raise AbsError("RuntimeError", f"{what}: 0-d operand")
        if t1.ndim == 1 and t2.ndim == 1:
            return self.vecdot(t1, t2, what)
        v1, v2 = t1.ndim == 1, t2.ndim == 1
        if v1:
            t1 = self.unsqueeze(t1, 0)
        if v2:
            t2 = self.unsqueeze(t2, 1)
        n1, n2 = t1.size(t1.ndim - 1), t2.size(t2.ndim - 2)
        if not self.same(n1, n2):
            raise AbsError("RuntimeError", f"{what}: contracted sizes {self.F.norm(n1)} and {self.F.norm(n2)} differ")
        # (..., i, 1?, k) x (..., 1, j, k)
        a = self.unsqueeze(t1, t1.ndim - 1)
        b = self.unsqueeze(self.transpose(t2, t2.ndim - 1, t2.ndim - 2), t2.ndim - 2)
        r = self.vecdot(a, b, what)
        for s, o in ((t1, t2), (t2, t1)):
            pass
        if v1:
            r = self.squeeze(r, r.ndim - 2, force=True)
        if v2:
            r = self.squeeze(r, r.ndim - 1, force=True)
        return r

    # ---- structure ------------------------------------------------------
    def norm_axis(self, t, d, extra=0):
        n = t.ndim + extra
        if not isinstance(d, int):
            raise Unsupported("symbolic axis")
        if d < -n or d >= n:
            raise AbsError("IndexError", f"axis {d} out of range for {t.ndim} axes")
        return d % n

    def unsqueeze(self, t, d):
        self.check_plain(t)
        axes = t.axes[:d] + [[Seg((), P(1))]] + t.axes[d:]
        return t.view(axes, {k[:d] + (0,) + k[d:]: b for k, b in t.blocks.items()})

    def squeeze(self, t, d, force=False):
        t = self.simp(self.check_plain(t))
        if not force:
            if not self.is_one(t.size(d)):
                return t
        t = self.simp(t)
        if len(t.axes[d]) != 1:
            raise Unsupported("squeeze of a segmented axis")
        env = {a: P(0) for a, _ in t.axes[d][0].factors}
        axes = t.axes[:d] + t.axes[d + 1:]
        return t.view(axes, {k[:d] + k[d + 1:]: b.subst(env) for k, b in t.blocks.items()})

    def permute(self, t, order):
        self.check_plain(t)
        axes = [t.axes[i] for i in order]
        return t.view(axes, {tuple(k[i] for i in order): b for k, b in t.blocks.items()})

    def transpose(self, t, i, j):
        order = list(range(t.ndim))
        order[i], order[j] = order[j], order[i]
        return self.permute(t, order)

    def flip(self, t, ax):
        t = self.simp(self.check_plain(t))
        n = len(t.axes[ax])
        axes = [list(a) for a in t.axes]
        envs = {}
        segs = []
        for k, s in reversed(list(enumerate(t.axes[ax]))):
            env = envs[k] = {}      # two segments may share an atom
            if self.F.eq(s.size, 0) is True:
                segs.append(s)
                continue
            if s.pad is not None or self.F.eq(s.size, s.natural()) is not True:
                raise Unsupported("flip of a truncated segment")
            fs = []
            for a, m in s.factors:
                b = fresh()
                env[a] = P(m) - 1 - Poly.atom(b)
                fs.append((b, m))
            segs.append(Seg(fs))
        axes[ax] = segs
        blocks = {}
        for key, b in t.blocks.items():
            kk = list(key); kk[ax] = n - 1 - kk[ax]
            blocks[tuple(kk)] = b.subst(envs[key[ax]])
        return t.like(axes, blocks)

    def locate(self, t, ax, pos):
        """Split axis ax so that pos is a segment boundary; returns (t, index)."""
        start = P(0)
        k = 0
        while True:
            if self.F.eq(start, pos) is True:
                return t, k
            if k >= len(t.axes[ax]):
                raise Unsupported(f"position {pos} beyond axis end {start}")
            end = self.F.norm(start + t.axes[ax][k].size)
            if self.F.eq(end, pos) is True:
                return t, k + 1
            ge = self.ctx.decide_ge(pos, end)
            if ge:
                if self.F.eq(end, pos) is True:
                    return t, k + 1
                start = end
                k += 1
                continue
            # start <= pos < end
            if self.F.eq(start, pos) is True:
                return t, k
            if not t.axes[ax][k].factors and self.F.eq(t.axes[ax][k].size, 1) is True:
                if self.ctx.decide_eq(start, pos):
                    return t, k
                raise Infeasible(f"{pos} strictly inside a single element")
            t = self.split_seg(t, ax, k, self.F.norm(P(pos) - start))
            return t, k + 1

    def slice_axis(self, t, ax, lo, hi):
        """Half-open slice with 0 <= lo <= hi <= size already established."""
        if t.pending is not None:
            return self._slice_pending(t, ax, lo, hi)
        t = self.simp(t)
        t, k1 = self.locate(t, ax, lo)
        t, k2 = self.locate(t, ax, hi)
        if k2 <= k1:
            segs = []
        else:
            segs = t.axes[ax][k1:k2]
        if not segs:
            axes = [list(a) for a in t.axes]
            axes[ax] = [Seg((), P(0))]
            blocks = {k: ZERO for k in itertools.product(*[range(len(a)) for a in axes])}
            return t.view(axes, blocks)
        axes = [list(a) for a in t.axes]
        axes[ax] = segs
        blocks = {}
        for key, b in t.blocks.items():
            if k1 <= key[ax] < k2:
                kk = list(key); kk[ax] -= k1
                blocks[tuple(kk)] = b
        return t.view(axes, blocks)

    def index_axis(self, t, ax, pos):
        """Select one position (0 <= pos < size established or unknown)."""
        t = self.simp(self.check_plain(t))
        start = P(0)
        segs = t.axes[ax]
        if len(segs) == 1:
            k, start = 0, P(0)
        else:
            k = None
            for n, s in enumerate(segs):
                end = self.F.norm(start + s.size)
                if self.F.ge(pos, end) is True:
                    start = end
                    continue
                if self.F.ge(pos, end) is False:
                    k = n
                    break
                if self.ctx.decide_ge(pos, end):
                    start = end
                    continue
                k = n
                break
            if k is None:
                raise Unsupported("index beyond axis")
        s = segs[k]
        local = self.F.norm(P(pos) - start)
        if len(s.factors) > 1:
            t = self.merge_factors(t, ax, k)
            s = t.axes[ax][k]
        env = {s.factors[0][0]: local} if s.factors else {}
        axes = t.axes[:ax] + t.axes[ax + 1:]
        blocks = {}
        for key, b in t.blocks.items():
            if key[ax] == k:
                nb = b.subst(env)
                nb = self._check_support(nb)
                blocks[key[:ax] + key[ax + 1:]] = nb
        return t.view(axes, blocks)

    def _check_support(self, b):
        """Index equations may become decided after substitution."""
        if not b.support:
            return b
        sup = []
        for s in b.support:
            s = self.F.norm(s)
            if s.is_zero():
                continue
            if s.is_const():
                return Block(zero=True)
            if not any("#" in a for a in s.atoms()):
                if self.F.eq(s, 0) is False:
                    return Block(zero=True)
            sup.append(s)
        return b.with_(support=tuple(sup))

    def cat(self, ts, ax, what="concatenation"):
        extra = self.check_mix(what, *ts)
        m = self.meta(*ts)
        ts = [self.simp(self.check_plain(t)) for t in ts]
        # the legacy 1-d empty tensor is skipped by torch.cat
        ts2 = [t for t in ts if not (t.ndim == 1 and self.F.eq(t.size(0), 0) is True)] or ts[:1]
        nd = ts2[0].ndim
        for t in ts2:
            if t.ndim != nd:
                raise AbsError("RuntimeError", f"{what}: operands have {nd} and {t.ndim} axes")
        r = ts2[0]
        for t in ts2[1:]:
            if set(r.atoms()) & set(t.atoms()):
                t = t.freshened()
            for i in range(nd):
                if i == ax:
                    continue
                if not self.same(r.size(i), t.size(i)):
                    raise AbsError("RuntimeError", f"{what}: sizes {self.F.norm(r.size(i))} and {self.F.norm(t.size(i))} of axis {i} do not match")
                r, t = self.align(r, i, t, i, what, fresh_ok=False)
            n = len(r.axes[ax])
            axes = [list(a) for a in r.axes]
            axes[ax] = axes[ax] + list(t.axes[ax])
            blocks = dict(r.blocks)
            for key, b in t.blocks.items():
                kk = list(key); kk[ax] += n
                blocks[tuple(kk)] = b
            r = T(axes, blocks, r.cplx, r.dtype, r.dev)
        blocks = r.blocks
        if extra:
            blocks = {k: b.with_(taint=b.taint | extra) for k, b in blocks.items()}
        return self.simp(T(r.axes, blocks, **m))

    def flatten(self, t, i, j):
        """Flatten axes i..j (inclusive)."""
        if t.pending is not None:
            return self._flatten_pending(t, i, j)
        t = self.simp(t)
        while j > i:
            t = self._flatten2(t, i)
            j -= 1
        return t

    def _flatten2(self, t, i):
        """Flatten axes i and i+1."""
        outer, inner = t.axes[i], t.axes[i + 1]
        pad = None
        if len(inner) > 1 and not (len(outer) == 1 and not outer[0].factors):
            # remember zero head / tail for index-skewing reshapes
            def allzero(k):
                return all(b.zero for key, b in t.blocks.items() if key[i + 1] == k)
            head = tail = P(0)
            ks = list(range(len(inner)))
            while len(ks) > 1 and allzero(ks[0]):
                head = head + inner[ks[0]].size
                ks = ks[1:]
            while len(ks) > 1 and allzero(ks[-1]):
                tail = tail + inner[ks[-1]].size
                ks = ks[:-1]
            if not (head.is_zero() and tail.is_zero()):
                pad = (head, tail)
            t = self.coalesce(t, i + 1, "flattened axis")
            outer, inner = t.axes[i], t.axes[i + 1]
        segs, blocks = [], {}
        for ko, so in enumerate(outer):
            for ki, si in enumerate(inner):
                if len(inner) > 1 and so.factors:
                    raise Unsupported("flatten")
                segs.append(Seg(so.factors + si.factors, self.F.norm(so.size * si.size), pad))
        n = len(inner)
        for key, b in t.blocks.items():
            blocks[key[:i] + (key[i] * n + key[i + 1],) + key[i + 2:]] = b
        axes = t.axes[:i] + [segs] + t.axes[i + 2:]
        return t.view(axes, blocks)

    def unflatten(self, t, ax, sizes):
        """sizes: list of Poly; at most one is -1."""
        t = self.simp(self.check_plain(t))
        total = self.F.norm(t.size(ax))
        sizes = [P(s) for s in sizes]
        neg = [k for k, s in enumerate(sizes) if s == -1]
        if len(neg) > 1:
            raise AbsError("RuntimeError", "unflatten: only one -1 allowed")
        if neg:
            rest = P(1)
            for k, s in enumerate(sizes):
                if k not in neg:
                    rest = rest * s
            q = total.div_int(self.F.norm(rest))
            if q is None:
                q = self.ctx.floordiv_exact(total, self.F.norm(rest))
            if q is None:
                raise AbsError("RuntimeError", f"unflatten: {total} is not divisible by {self.F.norm(rest)}")
            sizes[neg[0]] = q
        prod = P(1)
        for s in sizes:
            prod = prod * s
        if not self.same(prod, total):
            raise AbsError("RuntimeError", f"unflatten: {[self.F.norm(s) for s in sizes]} does not multiply to {total}")
        while len(sizes) > 1:
            # split off the innermost size first
            t = self._unflatten2(t, ax, sizes[-1])
            if t.pending is not None:
                if len(sizes) > 2:
                    raise Unsupported("unflatten of a skewed axis")
                return t
            sizes = sizes[:-1]
        return t

    def _unflatten2(self, t, ax, inner):
        inner = self.F.norm(inner)
        segs = t.axes[ax]
        nd = t.ndim
        # every segment a whole number of rows?
        plan = []
        ok = True
        for s in segs:
            fs = s.factors
            if s.pad is not None or self.F.eq(s.size, s.natural()) is not True:
                ok = False
                break
            acc, k = P(1), len(fs)
            while k > 0 and self.F.eq(acc, inner) is not True:
                acc = self.F.norm(acc * fs[k - 1][1])
                k -= 1
                q = acc.div_int(inner)
                if q is not None and self.F.eq(acc, inner) is not True:
                    break
            if self.F.eq(acc, inner) is True:
                plan.append(("cut", fs[:k], fs[k:]))
                continue
            q = acc.div_int(inner)
            if q is not None and q.as_int() != 1:
                # factor fs[k] = q' * something: p = r*sub + c
                sub = self.F.norm(fs[k][1]).div_int(q)
                if sub is not None:
                    plan.append(("split", fs[:k], fs[k], q, sub, fs[k + 1:]))
                    continue
            ok = False
            break
        if not ok:
            if len(segs) == 1 and (segs[0].pad is not None or self.F.eq(segs[0].size, segs[0].natural()) is not True):
                return self._unflatten_skew(t, ax, inner)
            if len(segs) == 1 and len(segs[0].factors) == 1:
                raise Unsupported("unflatten")
            if len(segs) == 1 and len(segs[0].factors) == 2:
                r = self._unflatten_skew(t, ax, inner)
                return r
            groups = self._row_groups(segs, inner)
            if groups is not None:
                parts = []
                for lo, hi, rows in groups:
                    sub = t.axes[:ax] + [segs[lo:hi]] + t.axes[ax + 1:]
                    blk = {k[:ax] + (k[ax] - lo,) + k[ax + 1:]: b for k, b in t.blocks.items() if lo <= k[ax] < hi}
                    g = t.view(sub, blk)
                    if rows == 1:
                        g = g.view(g.axes[:ax] + [[Seg((), P(1))]] + g.axes[ax:],
                                   {k[:ax] + (0,) + k[ax:]: b for k, b in g.blocks.items()})
                    else:
                        g = self._unflatten2(g, ax, inner)
                    parts.append(g)
                return self.cat(parts, ax, "re-blocked axis")
            return self._unflatten2(self._reblock(t, ax), ax, inner)
        # row structure per segment; the inner axis uses common atoms
        inner_fs = None
        newsegs, envs = [], []
        for pl, s in zip(plan, segs):
            env = {}
            if pl[0] == "cut":
                out_fs, in_fs = pl[1], pl[2]
            else:
                _, pre, (a, n), q, sub, post = pl
                r, c = fresh(), fresh()
                env[a] = Poly.atom(r) * sub + Poly.atom(c)
                out_fs = tuple(pre) + ((r, q),)
                in_fs = ((c, sub),) + tuple(post)
            newsegs.append((out_fs, in_fs, env))
        # choose the finest inner factorisation, refactor the others to it
        best = max(newsegs, key=lambda x: len(x[1]))[1]
        for out_fs, in_fs, env in newsegs:
            if len(in_fs) != len(best) and len(in_fs) > 1 and len(best) > 1:
                return self._unflatten2(self._reblock(t, ax), ax, inner)
        common = tuple((fresh(), n) for _, n in best)
        stride_expr, acc = P(0), P(1)
        for a, n in reversed(common):
            stride_expr = stride_expr + Poly.atom(a) * acc
            acc = acc * n
        outsegs = []
        for out_fs, in_fs, env in newsegs:
            ren = {}
            if len(in_fs) == len(common):
                bad = any(self.F.eq(n, m) is not True for (_, n), (_, m) in zip(in_fs, common))
                if bad:
                    return self._unflatten2(self._reblock(t, ax), ax, inner)
                for (a, _), (b, _) in zip(in_fs, common):
                    ren[a] = Poly.atom(b)
            elif len(in_fs) == 1:
                ren[in_fs[0][0]] = stride_expr
            elif len(in_fs) == 0:
                pass
            else:
                return self._unflatten2(self._reblock(t, ax), ax, inner)
            full = {a: p.subst(ren) for a, p in env.items()}
            full.update(ren)
            outsegs.append((Seg(out_fs), full))
        axes = t.axes[:ax] + [[s for s, _ in outsegs], [Seg(common)]] + t.axes[ax + 1:]
        blocks = {}
        for key, b in t.blocks.items():
            blocks[key[:ax] + (key[ax], 0) + key[ax + 1:]] = b.subst(outsegs[key[ax]][1])
        return self.simp(t.view(axes, blocks))

    def _reblock(self, t, ax):
        """One segment for an axis that is about to be cut differently.  If its
        parts cannot be put on one scale the new rows cannot be described; that
        alone is no mistake of the program."""
        r = self.coalesce(t, ax, "re-blocked axis")
        if len(t.axes[ax]) > 1:
            before = set().union(*[b.taint for b in t.blocks.values()])
            if any(b.taint - before for b in r.blocks.values()):
                raise Unsupported("re-blocked axis of several parts")
        return r

    def _row_groups(self, segs, inner):
        """Partition the segments into runs that are whole numbers of rows."""
        out, lo, acc = [], 0, P(0)
        for k, s in enumerate(segs):
            acc = self.F.norm(acc + s.size)
            q = acc.div_int(inner)
            if q is not None and not q.is_zero():
                out.append((lo, k + 1, q.as_int() if q.is_const() else None))
                lo, acc = k + 1, P(0)
        if lo != len(segs) or len(out) < 2:
            return None
        return out

    # ---- index skewing through re-factored flat axes ---------------------
    def _unflatten_skew(self, t, ax, inner):
        s = t.axes[ax][0]
        fs = s.factors
        if len(fs) != 2:
            raise Unsupported("unflatten of a truncated axis")
        (m, M), (c, W) = fs
        size = self.F.norm(s.size)
        rows = size.div_int(inner)
        # drop k elements per row:  size = M*(W-k), inner = W-k
        q = size.div_int(self.F.norm(M))
        if q is not None and self.F.eq(q, inner) is True:
            k = self.F.norm(W - q)
            head, tail = s.pad if s.pad is not None else (P(0), P(0))
            need = self.F.norm(k * (P(M) - 1))
            c2, m2 = fresh(), fresh()
            env = {c: Poly.atom(c2) - k * Poly.atom(m2), m: Poly.atom(m2)}
            ok = (self.F.nonneg(tail - need) and self.F.nonneg(k))
            axes = t.axes[:ax] + [[Seg(((m2, M),))], [Seg(((c2, q),))]] + t.axes[ax + 1:]
            blocks = {}
            for key, b in t.blocks.items():
                nb = b.subst(env)
                if not ok and not b.zero:
                    ev = self.ctx.event("grade", "skewed reshape", weights={ALL},
                                        detail="elements wrap around into the next row")
                    nb = nb.with_(unk=frozenset([ALL]), taint=nb.taint | {ev})
                blocks[key[:ax] + (0, 0) + key[ax + 1:]] = nb
            return t.view(axes, blocks)
        if rows is None:
            raise Unsupported("unflatten")
        axes = t.axes[:ax] + [[Seg(((fresh("lz"), rows),))], [Seg(((fresh("lz"), inner),))]] + t.axes[ax + 1:]
        blocks = {key[:ax] + (0, 0) + key[ax + 1:]: b for key, b in t.blocks.items()}
        r = t.view(axes, blocks)
        r.pending = (ax, s, rows, inner)
        return r

    def _slice_pending(self, t, ax, lo, hi):
        pax, s, rows, inner = t.pending
        if ax == pax and self.F.eq(lo, 0) is True:
            axes = [list(a) for a in t.axes]
            axes[ax] = [Seg(((axes[ax][0].factors[0][0], self.F.norm(hi)),))]
            r = t.view(axes, t.blocks)
            r.pending = (pax, s, self.F.norm(hi), inner)
            return r
        if ax == pax + 1 and self.F.eq(lo, 0) is True and self.F.eq(hi, inner) is True:
            return t
        if ax not in (pax, pax + 1):
            tt = t.view(t.axes, t.blocks)
            tt.pending = None
            r = self.slice_axis(tt, ax, lo, hi)
            r.pending = t.pending
            return r
        raise Unsupported("slice of a re-factored axis")

    def _flatten_pending(self, t, i, j):
        pax, s, rows, inner = t.pending
        if (i, j) != (pax, pax + 1):
            raise Unsupported("flatten of a re-factored tensor")
        seg = Seg(s.factors, self.F.norm(rows * inner), s.pad)
        # dropped tail elements must be zeros, which shortens the zero tail of the last row only
        axes = t.axes[:i] + [[seg]] + t.axes[i + 2:]
        return t.view(axes, {k[:i] + (0,) + k[i + 2:]: b for k, b in t.blocks.items()})

    # ---- padding, unfolding ---------------------------------------------
    def pad_axis(self, t, ax, left, right, value=0, what="padding"):
        """left/right: Poly (>=0 established) or negative ints handled by caller."""
        t = self.simp(self.check_plain(t))
        parts = []

        def filler(n):
            shape = t.shape()
            shape[ax] = P(n)
            if value == 0:
                return mk(shape, None, cplx=t.cplx, dtype=t.dtype, dev=t.dev)
            c = Fraction(value) if float(value) == int(value) else None
            return mk(shape, lambda ix: Block(coef=c), cplx=t.cplx, dtype=t.dtype, dev=t.dev)
        if self.F.eq(left, 0) is not True:
            parts.append(filler(left))
        parts.append(t)
        if self.F.eq(right, 0) is not True:
            parts.append(filler(right))
        if len(parts) == 1:
            return t.like(t.axes, t.blocks)
        return self.cat(parts, ax, what)

    def unfold(self, t, ax, size, step=1):
        if step != 1:
            raise Unsupported("unfold step")
        t = self.coalesce(t, ax, "windowed axis")
        s = t.axes[ax][0]
        n = self.F.norm(s.size)
        cnt = self.F.norm(n - size + 1)
        if self.F.ge(n, size) is False:
            raise AbsError("RuntimeError", f"unfold: window {size} exceeds size {n}")
        w, o = seg1(cnt), seg1(size)
        W = Poly.atom(w.factors[0][0]) if w.factors else P(0)
        O = Poly.atom(o.factors[0][0]) if o.factors else P(0)
        axes = [list(a) for a in t.axes]
        axes[ax] = [w]
        axes.append([o])
        env = {s.factors[0][0]: W + O} if s.factors else {}
        blocks = {k + (0,): b.subst(env) for k, b in t.blocks.items()}
        return self.simp(t.view(axes, blocks))

    def expand(self, t, sizes):
        """broadcast_to / expand; entries of -1 keep the size."""
        d = len(sizes) - t.ndim
        if d < 0:
            raise AbsError("RuntimeError", f"expand: {len(sizes)} sizes for a tensor with {t.ndim} axes")
        t = self.simp(self.check_plain(t))
        for _ in range(d):
            t = self.unsqueeze(t, 0)
        for i, s in enumerate(sizes):
            s = P(s)
            if s == -1:
                if i < d:
                    raise AbsError("RuntimeError", "expand: -1 for a new axis")
                continue
            if self.F.eq(t.size(i), s) is True:
                continue
            if self.is_one(t.size(i)):
                t2 = self.expand_axis(t, i, [seg1(s)])
                t2.stor = t.stor
                t = t2
            elif self.F.eq(t.size(i), s) is not True:
                self.same(t.size(i), s)
                raise AbsError("RuntimeError", f"expand: size {self.F.norm(t.size(i))} of axis {i} cannot become {self.F.norm(s)}")
        r = t.view(t.axes, t.blocks)
        return r

    def repeat_axis(self, t, ax, n):
        """tile: whole-tensor copies along ax -> (n, size)."""
        t = self.unsqueeze(t, ax)
        t = self.expand_axis(t, ax, [seg1(n)])
        return self.flatten(t, ax, ax + 1)

    def repeat_interleave_axis(self, t, ax, n):
        t = self.unsqueeze(t, ax + 1)
        t = self.expand_axis(t, ax + 1, [seg1(n)])
        return self.flatten(t, ax, ax + 1)

    # ---- equality of types ----------------------------------------------
    def same_type(self, t1, t2):
        """Weights (set) on which two tensors of equal shape differ."""
        a, b = self.broadcast(t1, t2, "comparison")
        bad = set()
        for k in a.blocks:
            x, y = a.blocks[k], b.blocks[k]
            if x.zero or y.zero:
                continue
            if set(map(self.F.norm, x.support)) == set(map(self.F.norm, y.support)):
                bad |= self.gdiff(x, y, x.support)
            else:
                w = self.gdiff(x, y, y.support)
                if w and x.support:
                    w = self.gdiff(x, y, x.support)
                bad |= w
        return bad

    def join(self, t1, t2, what="join", coefs=False):
        """Elementwise union of two possible values."""
        a, b = self.broadcast(t1, t2, what)
        blocks = {k: self.badd(a.blocks[k], b.blocks[k], what, coefs=coefs) for k in a.blocks}
        return T(a.axes, blocks, **self.meta(t1, t2))
