"""C03 on native kernels: the stores of a kernel, read as equations, are the
recurrence h[b,t,i] = x[b,t,i] + sum_j A[b,t,i,j] h[b,t-1,j]."""
import itertools

from .poly import Poly
from .instance import refute
from .cppbase import Loop, Tensor, Und, nonneg, quot, split

ONE, ZERO = Poly.const(1), Poly.const(0)


class Ctx:
    """Evaluate references under the facts and loops of one access."""

    def __init__(self, it, facts, loops):
        self.it, self.f, self.l = it, facts, list(loops)

    def __enter__(self):
        self.old = self.it.facts, self.it.loops
        self.it.facts, self.it.loops = self.f, self.l
        return self

    def __exit__(self, *a):
        self.it.facts, self.it.loops = self.old

    def nn(self, p):
        return nonneg(self.f, self.l, p)

    def zero(self, p):
        return self.f.norm(p).is_zero()


def spec(case):
    """(time-invariant, scalar)"""
    return case.op.startswith("lti"), case.op == "lti_recur"


def recurrence(path, case, report, stats):
    n = len(stats["undetermined"])
    hits = []

    def rep(*a):
        hits.append(a)
        report(*a)
    prove(path, case, rep, stats)
    if len(stats["undetermined"]) > n and not hits and isinstance(path.ret, Tensor):
        refute(path, case, report)


def prove(path, case, report, stats):
    it = path.it
    ret = path.ret
    lti, scalar = spec(case)
    A, z, x = path.args
    where = path.where
    if not isinstance(ret, Tensor):
        stats["undetermined"].append(f"{case.id}: result is not a tensor")
        return
    want = list(x.shape)
    f0 = path.facts
    if len(ret.shape) != len(want):
        report("C04", "shape", f"kernel returns rank {len(ret.shape)} for an input of rank {len(want)}", *where)
        return
    for k, (p, q) in enumerate(zip(ret.shape, want)):
        d = f0.norm(p - q)
        if not d.is_zero():
            if d.is_const() or f0.eq(p, q) is False:
                for prop in ("C03", "C04"):
                    report(prop, "shape", f"dimension {k} of the result is {show(it, f0, p)} instead of {show(it, f0, q)}", *where)
            else:
                stats["undetermined"].append(f"{case.id}: result dimension {k}")
            return
    if any(f0.norm(p).is_zero() for p in want):
        stats["ok"] += 1
        return
    # layout of the result inside the block the kernel stores to
    f = f0.copy()
    loops = [Loop(f.norm(p), 0) for p in want]
    for l in loops:
        f.lb[l.atom] = 0
        from .cppbase import learn_ge, Infeasible
        try:
            learn_ge(f, f.norm(l.n) - 1)
        except Infeasible:
            stats["ok"] += 1
            return
    with Ctx(it, f, loops) as c:
        r = it.at(ret, [l.p for l in loops])
    if r is None:
        stats["undetermined"].append(f"{case.id}: origin of the result")
        return
    if r[0] in ("src", "zero", "none"):
        report("C03", "result", "the returned tensor is not the one the kernel stores its result to", *where)
        return
    st, flat = r[1], f.norm(r[2])
    lay = layout(flat, loops, f)
    if lay is None:
        stats["undetermined"].append(f"{case.id}: layout of the result")
        return
    mains, inits, bad = [], [], 0
    ws = [a for a in path.log if a.kind == "W" and a.st is st]
    if not ws:
        report("C03", "result", "no kernel stores to the returned tensor", *where)
        return
    rets = dict(st=st, lay=lay, scalar=scalar, lti=lti, A=A, z=z, x=x)
    for w in ws:
        with Ctx(it, w.facts, w.loops) as c:
            cell = locate(c, w.off, lay)
            if cell is None:
                stats["undetermined"].append(f"{case.id}: element stored at line {w.line}")
                return
            b, t1, i = cell
            if c.zero(t1):
                inits.append((w, cell))
            elif c.nn(t1 - 1):
                mains.append((w, cell))
            else:
                stats["undetermined"].append(f"{case.id}: time index of the store at line {w.line}")
                return
    for w, cell in inits:
        with Ctx(it, w.facts, w.loops) as c:
            try:
                ts = terms(c, w.val, rets, cell)
            except Und as e:
                stats["undetermined"].append(f"{case.id}: {e}")
                return
            b, t1, i = cell
            okz = len(ts) == 1 and ts[0][0] == 1 and ts[0][2] is None and len(ts[0][1]) == 1 and ts[0][1][0][0] == "z" and same(
                c, ts[0][1][0][1], [b] if scalar else [b, i])
            if not okz:
                report("C03", "initial", "step 0 does not start from the initial state", w.line, w.file, w.func)
                bad += 1
    for w, cell in mains:
        with Ctx(it, w.facts, w.loops) as c:
            try:
                r = equation(c, w, cell, rets, inits)
            except Und as e:
                stats["undetermined"].append(f"{case.id}: {e}")
                return
            if r is not None:
                report("C03", "recurrence", r, w.line, w.file, w.func)
                bad += 1
    if not bad:
        r = coverage(it, mains, path, lay, scalar)
        if r is None:
            stats["undetermined"].append(f"{case.id}: coverage of the result")
            return
        if r is not True:
            w = mains[0][0] if mains else ws[0]
            report("C03", "coverage", r, w.line, w.file, w.func)
            return
        stats["ok"] += 1


def show(it, f, p):
    return str(f.norm(p)).replace("Tn", "(T+1)")


def layout(flat, loops, f):
    """Origin and strides of (b, t, i) in the block; the time index of the block is
    one ahead of the result when the block also holds the initial state."""
    co = []
    c0 = flat
    for l in loops:
        if flat.degree_in(l.atom) > 1:
            return None
        co.append(f.norm(flat.coeff_of(l.atom)))
        c0 = c0.subst({l.atom: ZERO})
    if any(l.atom in q.atoms() for l in loops for q in co):
        return None
    ext = [f.norm(l.n) for l in loops]
    n = len(loops)
    for with_init in (True, False):
        e = list(ext)
        if with_init:
            e[1] = e[1] + 1
        for perm in itertools.permutations(range(n)):
            s = ONE
            ok = True
            for d in reversed(perm):
                # a unit dimension can have any stride
                if not (f.norm(co[d] - s).is_zero() or f.norm(e[d] - 1).is_zero()):
                    ok = False
                    break
                s = f.norm(s * e[d])
            if not ok:
                continue
            origin = f.norm(c0 - (co[1] if with_init else ZERO))
            if origin.is_zero():
                return dict(perm=perm, ext=e, co=co, init=with_init, n=n)
    return None


def locate(c, off, lay):
    """(b, t+1, i) of a block offset; i is 0 for scalar recurrences."""
    dims = [lay["ext"][d] for d in lay["perm"]]
    q = split(off, dims, c.f, c.l)
    if q is None:
        return None
    idx = [None] * lay["n"]
    for d, v in zip(lay["perm"], q):
        idx[d] = v
    b, t = idx[0], idx[1]
    i = idx[2] if lay["n"] > 2 else ZERO
    return b, (t if lay["init"] else t + 1), i


def same(c, a, b):
    return len(a) == len(b) and all(c.zero(p - q) for p, q in zip(a, b))


def factor(c, a, rets, own):
    """Resolve one element atom."""
    it = c.it
    st = it.data.get(a)
    if st is None:
        raise Und("unknown element")
    if st[0] == "src":
        return [(st[1], list(st[2]))]
    if st[0] == "fn":
        return [("fn", [st[1]])]
    if st[0] != "ld":
        raise Und(f"element {st[0]}")
    store, off = st[1], st[2]
    if store.local:
        raise Und(f"local buffer {store.label}")
    if store is rets["st"]:
        cell = locate(c, off, rets["lay"])
        if cell is None:
            raise Und("element of the result read at an unknown position")
        if own is None or not same(c, cell, own):
            return [("cell", list(cell))]
    elif any(w.st is store and w.kind == "W" for w in it.log):
        raise Und(f"intermediate buffer {store.label}")
    idx = split(off, store.shape, c.f, c.l) if store.shape else ([] if store.shape is not None else None)
    if idx is None:
        raise Und(f"element of {store.label} at an unknown position")
    r = store.get(idx, it)
    if r is None:
        raise Und(f"element of {store.label} of unknown origin")
    if r[0] == "zero":
        return None
    if r[0] == "none":
        return [("garbage", [])]
    if r[0] == "src":
        return [(r[1], list(r[2]))]
    return factor(c, next(iter(it.datom("ld", r[1], c.f.norm(r[2])).atoms())), rets, None)


def terms(c, val, rets, own):
    """[(coefficient, [factor], bound loop or None)]"""
    it = c.it
    out = []
    for m, k in val.t.items():
        fs = []
        bound = None
        zero = False
        sub = None
        for a, e in m:
            st = it.data.get(a)
            if st is not None and st[0] == "sum":
                if e != 1 or sub is not None:
                    raise Und("product of sums")
                sub = st
                continue
            r = factor(c, a, rets, own)
            if r is None:
                zero = True
                break
            fs += r * e
        if zero:
            continue
        if sub is None:
            out.append((k, fs, None))
            continue
        bl = Loop(sub[2], 0)
        bl.atom = sub[1]
        bl.p = Poly.atom(sub[1])
        c.f.lb[bl.atom] = 0
        c.l.append(bl)
        try:
            for m2, k2 in sub[3].t.items():
                gs = list(fs)
                zero = False
                for a, e in m2:
                    st = it.data.get(a)
                    if st is not None and st[0] == "sum":
                        raise Und("nested sums")
                    r = factor(c, a, rets, own)
                    if r is None:
                        zero = True
                        break
                    gs += r * e
                if not zero:
                    out.append((k * k2, gs, bl))
        finally:
            c.l.remove(bl)
    return out


def fmt(fs):
    return " * ".join(f"{'h' if n == 'cell' else n}[{', '.join(str(q) for q in i)}]" for n, i in fs)


def equation(c, w, cell, rets, inits):
    """None when the store is the recurrence, else what differs."""
    it = c.it
    b, t1, i = cell
    scalar, lti = rets["scalar"], rets["lti"]
    ts = terms(c, w.val, rets, cell)
    names = {n for _, fs, _ in ts for n, _ in fs}
    if "fn" in names:
        return "an element is transformed before it enters the recurrence"
    if "garbage" in names:
        return "an uninitialised element enters the recurrence"
    base = [t for t in ts if len(t[1]) == 1]
    prod = [t for t in ts if len(t[1]) == 2]
    if len(base) + len(prod) != len(ts):
        return f"term {fmt(next(t[1] for t in ts if len(t[1]) not in (1, 2)))} is not linear in the state"
    xs = [t for t in base if t[1][0][0] == "x"]
    if len(base) != 1 or len(xs) != 1:
        extra = [t for t in base if t not in xs]
        if extra:
            return f"the state enters without a coefficient: {fmt(extra[0][1])}"
        return "the input of the step is not added exactly once"
    k, fs, bound = xs[0]
    if k != 1 or bound is not None:
        return f"the input enters with factor {k}" if bound is None else "the input of the step is added several times"
    if not same(c, fs[0][1], [b, t1 - 1] if scalar else [b, t1 - 1, i]):
        return f"step (b={b}, t={c.f.norm(t1 - 1)}, i={i}) adds input element {fmt(fs)}"
    rank = len(rets["A"].shape)
    js = []
    tl = next((l for l in w.loops if l.atom in c.f.norm(t1).atoms()), None)
    seen = c.f.norm(b).atoms() | c.f.norm(t1).atoms() | c.f.norm(i).atoms()
    if any(l.atom not in seen and l.atom not in c.f.sub and c.f.norm(l.n) != ONE for l in w.loops):
        raise Und("element stored by several iterations")
    il = next((l for l in w.loops if l.atom in c.f.norm(i).atoms()), None)
    for k, fs, bound in prod:
        a = [x for x in fs if x[0] == "A"]
        h = [x for x in fs if x[0] in ("cell", "z")]
        if len(a) != 1 or len(h) != 1:
            return f"term {fmt(fs)} is not a coefficient times a state component"
        if k != 1:
            return f"term {fmt(fs)} has factor {k}"
        ai = a[0][1]
        hn, hi = h[0]
        if scalar:
            want = [b] if (rank == 1 and not (len(ai) == 1 and c.zero(ai[0]) and c.zero(rets["A"].shape[0] - 1))) else ([ZERO] if rank else [])
            j = ZERO
        else:
            j = ai[-1]
            want = ([b] if rank == (3 if lti else 4) else []) + ([] if lti else [t1 - 1]) + [i, j]
        if not same(c, ai, want):
            return f"step (b={b}, t={c.f.norm(t1 - 1)}, i={i}) uses coefficient A[{', '.join(str(c.f.norm(q)) for q in ai)}]"
        if hn == "z":
            if not c.zero(t1 - 1):
                return "the initial state enters after the first step"
            if not same(c, hi, [b] if scalar else [b, j]):
                return f"coefficient column {j} multiplies initial state component {fmt([h[0]])}"
        else:
            if not c.zero(hi[0] - b):
                return f"batch item {b} reads the state of batch item {hi[0]}"
            if not c.zero(hi[1] - t1 + 1):
                return f"step t={c.f.norm(t1 - 1)} reads the state of step {c.f.norm(hi[1] - 1)}"
            if not c.zero(hi[2] - j):
                return f"coefficient column {j} multiplies state component {hi[2]}"
            if tl is not None:
                s = c.f.norm(t1).coeff_of(tl.atom)
                if s.is_const() and s.const_value() < 0:
                    return "the time steps are computed backwards"
                if tl.par is True:
                    return "the time steps are computed in parallel"
                if il is not None and not scalar and w.loops.index(il) < w.loops.index(tl) and tl.par != "scan":
                    return "a step reads state components that are computed later"
            # first step: the element before it holds the initial state
            if c.f.low(tl.atom) == 0 if tl is not None else True:
                r = first_state(c, rets, inits, b, hi, scalar, bound)
                if r is not None:
                    return r
        js.append((j, bound))
    if not prod:
        return "the previous state does not enter the step"
    if scalar:
        return None if len(js) == 1 else "the previous state enters several times"
    N = rets["x"].shape[-1]
    iv = []
    for j, bound in js:
        if bound is None:
            if any(l.atom in c.f.norm(j).atoms() for l in w.loops):
                return f"only state component {j} enters component {i}"
            iv.append((j, j + 1))
            continue
        co = j.coeff_of(bound.atom)
        c0 = j.subst({bound.atom: ZERO})
        if co == ONE:
            iv.append((c0, c0 + bound.n))
        elif co == -ONE:
            iv.append((c0 - bound.n + 1, c0 + 1))
        else:
            raise Und("column index")
    r = cover(c, iv, ZERO, N)
    if r is None:
        raise Und("columns of the product")
    if r is not True:
        return f"the product {r} of the state components"
    return None


def first_state(c, rets, inits, b, hi, scalar, bound):
    if inits:
        return None
    if bound is not None:
        c.l.append(bound)
        try:
            return first_state(c, rets, inits, b, hi, scalar, None)
        finally:
            c.l.remove(bound)
    st = rets["st"]
    lay = rets["lay"]
    if not lay["init"]:
        raise Und("first step")
    f = c.f.copy()
    idx = [b, ZERO] + ([] if scalar else [hi[2]])
    with Ctx(c.it, f, c.l):
        flat = sum((q * s for q, s in zip(idx, lay["co"])), ZERO)
        q = split(flat, st.shape, f, c.l)
        r = st.get(q, c.it) if q is not None else None
        while r is not None and r[0] == "st":
            q = split(r[2], r[1].shape, f, c.l)
            r = r[1].get(q, c.it) if q is not None else None
    if r is None:
        raise Und("origin of the initial state")
    if r[0] != "z" and not (r[0] == "src" and r[1] == "z"):
        return "the first step does not start from the initial state"
    got = list(r[2])
    if not same(c, got, [b] if scalar else [b, hi[2]]):
        return "the first step starts from the initial state of another batch item or component"
    return None


def cover(c, iv, lo, hi):
    """True, a description of a gap or overlap, or None."""
    iv = [(c.f.norm(a), c.f.norm(b)) for a, b in iv]
    cur = c.f.norm(lo)
    hi = c.f.norm(hi)
    rest = list(iv)
    while rest:
        nxt = [x for x in rest if c.zero(x[0] - cur)]
        if nxt:
            cur = nxt[0][1]
            rest.remove(nxt[0])
            continue
        if all(c.nn(x[0] - cur - 1) for x in rest):
            return "skips some"
        if any(c.nn(cur - x[0] - 1) for x in rest):
            return "repeats some"
        return None
    if c.zero(hi - cur):
        return True
    if c.nn(hi - cur - 1):
        return "skips the last"
    if c.nn(cur - hi - 1):
        return "exceeds the range"
    return None


def interval(w, e):
    """[lo, hi) of an index expression of a store."""
    f = w.facts
    e = f.norm(e).subst({l.atom: ZERO for l in w.loops if f.norm(l.n) == ONE})
    ls = [l for l in w.loops if l.atom in e.atoms()]
    if not ls:
        return e, e + 1, None
    if len(ls) > 1:
        return None
    l = ls[0]
    co = e.coeff_of(l.atom)
    if e.degree_in(l.atom) != 1 or not co.is_const() or abs(co.const_value()) != 1:
        return None
    a, b = e.subst({l.atom: Poly.const(f.low(l.atom))}), e.subst({l.atom: f.norm(l.n) - 1})
    if any(l.atom in f.norm(q).atoms() for q in f.nn + f.ne):
        return None
    return (a, b + 1, l) if co.const_value() > 0 else (b, a + 1, l)


def coverage(it, mains, path, lay, scalar):
    f = path.facts.copy()
    x = path.args[2]
    for q in x.shape:
        from .cppbase import learn_ge, Infeasible
        try:
            learn_ge(f, f.norm(q) - 1)
        except Infeasible:
            return True
    B, Tn = x.shape[0], x.shape[1] + 1
    N = ONE if scalar else x.shape[2]
    if not mains:
        return "no step of the recurrence is stored"
    c = Ctx(it, f, [])
    rows = []
    for w, (b, t1, i) in mains:
        v = [interval(w, q) for q in (b, t1, i)]
        if None in v:
            return None
        used = [q[2] for q in v if q[2] is not None]
        if len(used) != len(set(used)):
            return "only a diagonal of the result is stored"
        rows.append(v)
    for v in rows:
        r = cover(c, [v[0][:2]], ZERO, B)
        if r is not True:
            return r if r is None else f"the kernel {r} batch items"
    groups = []
    for v in rows:
        for g in groups:
            if c.zero(g[0][0] - v[2][0]) and c.zero(g[0][1] - v[2][1]):
                g[1].append(v[1][:2])
                break
        else:
            groups.append((v[2][:2], [v[1][:2]]))
    r = cover(c, [g[0] for g in groups], ZERO, N)
    if r is not True:
        return r if r is None else f"the kernel {r} state components"
    for g in groups:
        r = cover(c, g[1], ONE, Tn)
        if r is not True:
            return r if r is None else f"the kernel {r} time steps"
    return True


__all__ = ["quot", "recurrence"]
