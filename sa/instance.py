"""Refutation of a recurrence whose symbolic proof fails: the extracted store
equations are instantiated at small sizes and compared element by element."""
from fractions import Fraction

from .poly import Poly
from .cppbase import Und, Infeasible, evaluate, learn_eq, witnesses


def refute(path, case, report):
    """True when an instance contradicts the recurrence."""
    f = path.facts
    dims = [s for a in path.args for s in a.shape]
    envs = []
    for env in witnesses(f, dims, [], limit=3):
        v = [evaluate(f.norm(s), env) for s in dims]
        envs.append((sum(1 for x in v if x >= 2), -sum(v), dict(env)))
        if len(envs) > 400:
            break
    envs.sort(key=lambda e: (-e[0], -e[1]))
    for _, _, env in envs[:2] + envs[len(envs) // 2:len(envs) // 2 + 1]:
        try:
            if Instance(path, case, report, env).run():
                return True
        except (Und, Infeasible, KeyError):
            continue
    return False


class Instance:
    def __init__(self, path, case, report, env):
        self.path, self.it, self.report, self.case = path, path.it, report, case
        self.env = {k: Fraction(v) for k, v in env.items()}
        self.f = path.facts.copy()
        for k, v in self.env.items():
            learn_eq(self.f, Poly.atom(k) - int(v))
        self.lti, self.scalar = case.op.startswith("lti"), case.op == "lti_recur"

    def num(self, p, f=None, env=None):
        v = evaluate((f or self.f).norm(p), env if env is not None else self.env)
        if v.denominator != 1:
            raise Und("fractional index")
        return int(v)

    def run(self):
        it = self.it
        old = it.facts, it.loops
        it.facts, it.loops = self.f, []
        try:
            return self.go()
        finally:
            it.facts, it.loops = old

    def go(self):
        A, z, x = self.path.args
        shape = [self.num(s) for s in x.shape]
        if len(self.path.ret.shape) != len(shape):
            raise Und("rank")
        self.A = [self.num(s) for s in A.shape]
        B, T = shape[:2]
        N = 1 if self.scalar else shape[2]
        if B * T * N == 0 or B * T * N > 200:
            return False
        self.cells, self.st = {}, None
        for b in range(B):
            for t in range(T):
                for i in range(N):
                    idx = [b, t] if self.scalar else [b, t, i]
                    r = it_at(self.it, self.path.ret, idx)
                    if r is None:
                        raise Und("origin of the result")
                    while r[0] == "st" and not any(w.kind == "W" and w.st is r[1] for w in self.path.log):
                        st = r[1]
                        r = self.content(st, self.num(r[2]))
                    if r[0] == "none":
                        return self.bad(None, (b, t, i), "is never computed")
                    if r[0] != "st":
                        return self.bad(None, (b, t, i), f"is a copy of an element of {r[1] if len(r) > 1 else 'a constant'}")
                    if self.st is None:
                        self.st = r[1]
                    elif self.st is not r[1]:
                        raise Und("result from several blocks")
                    self.cells[self.num(r[2])] = (b, t, i)
        if len(self.cells) != B * T * N:
            return self.bad(None, (0, 0, 0), "shares its memory with another element of the result")
        done, self.extra, twice = {}, {}, False
        for k, w in enumerate(self.path.log):
            if w.kind != "W" or w.st is not self.st:
                continue
            for env in self.iterations(w):
                off = self.num(w.off, w.facts, env)
                cell = self.cells.get(off)
                if cell is None:
                    self.extra[off] = None if off in self.extra else (w, env)
                    continue
                twice = twice or (cell in done and done[cell][0] == k)
                done[cell] = (k, w, env, off)
        miss = sorted(set(self.cells.values()) - set(done))
        if twice:
            if miss:
                return self.bad(None, miss[0], "is never computed")
            raise Und("element stored by several iterations")
        for cell, (k, w, env, off) in sorted(done.items()):
            # the last store decides; earlier ones are forwarded into it
            got = self.terms(w.val, w.facts, env, off)
            want = self.spec(cell, B, N)
            if got != want:
                return self.bad(w, cell, "is " + show(got) + " instead of " + show(want))
        if miss:
            return self.bad(None, miss[0], "is never computed")
        return False

    def bad(self, w, cell, msg):
        b, t, i = cell
        where = (w.line, w.file, w.func) if w else self.path.where
        s = ", ".join(f"{k}={v}" for k, v in zip(("batch", "steps", "state") if not self.scalar else ("batch", "steps"),
                                                 [self.num(q) for q in self.path.args[2].shape]))
        self.report("C03", "recurrence", f"h[{b},{t}{'' if self.scalar else f',{i}'}] {msg} (for {s})", *where)
        return True

    def iterations(self, w):
        f = w.facts
        loops = [l for l in w.loops if l.atom not in f.sub] + [l for l in w.loops if l.atom in f.sub]
        cons = [f.norm(q) for q in f.nn]
        nes = [f.norm(q) for q in f.ne]
        lows = [f.norm(v) - f.lb.get(a, 0) for a, v in f.sub.items()]

        def gen(k, env):
            if k == len(loops):
                if all(evaluate(q, env) >= 0 for q in cons + lows) and all(evaluate(q, env) != 0 for q in nes):
                    yield dict(env)
                return
            l = loops[k]
            n = self.num(l.n, f, env)
            if l.atom in f.sub:
                v = self.num(Poly.atom(l.atom), f, env)
                if 0 <= v < n:
                    yield from gen(k + 1, dict(env, **{l.atom: Fraction(v)}))
                return
            for v in range(max(0, f.low(l.atom)), n):
                yield from gen(k + 1, dict(env, **{l.atom: Fraction(v)}))
        # sizes the access level learnt to be equal
        env = dict(self.env)
        for q in cons + nes + lows:
            for a in q.atoms():
                if a not in env and not any(l.atom == a for l in loops):
                    raise Und("unknown size")
        yield from gen(0, env)

    def content(self, st, off):
        """What the block held before any kernel stored to it."""
        if st.shape is None:
            raise Und("block of unknown shape")
        idx = []
        for s in reversed([self.num(q) for q in st.shape]):
            if s <= 0:
                raise Und("empty block")
            idx.append(off % s)
            off //= s
        if off:
            raise Und("outside the block")
        r = st.get([Poly.const(i) for i in reversed(idx)], self.it)
        if r is None:
            raise Und("origin of an element")
        return r

    def factor(self, a, f, env, own):
        s = self.it.data.get(a)
        if s is None:
            raise Und("unknown element")
        if s[0] == "src":
            return (s[1], tuple(self.num(q, f, env) for q in s[2]))
        if s[0] == "fn":
            return ("fn", str(s[1]))
        if s[0] != "ld":
            raise Und("element " + s[0])
        st, off = s[1], self.num(s[2], f, env)
        written = any(w.kind == "W" and w.st is st for w in self.path.log)
        if written and st is not self.st:
            raise Und("intermediate block")
        if st is self.st and off != own and off in self.cells:
            return ("h", self.cells[off])
        if st is self.st and off != own and off in self.extra:
            if self.extra[off] is None:
                raise Und("element stored twice")
            w, env = self.extra[off]
            ts = self.terms(w.val, w.facts, env, off)
            if len(ts) != 1 or list(ts.values()) != [1] or len(list(ts)[0]) != 1:
                return ts       # a whole step that is not part of the result
            return list(ts)[0][0]
        return self.source(st, off)

    def source(self, st, off):
        r = self.content(st, off)
        for _ in range(8):
            if r[0] != "st":
                break
            r = self.content(r[1], self.num(r[2]))
        if r[0] == "zero":
            return None
        if r[0] == "src":
            return (r[1], tuple(self.num(q) for q in r[2]))
        if r[0] == "none":
            return ("garbage", ())
        return (r[0], tuple(self.num(q) for q in r[2]) if len(r) > 2 else ())

    def terms(self, val, f, env, own):
        out = {}
        for m, k in val.t.items():
            parts = [(k, ())]
            for a, e in m:
                s = self.it.data.get(a)
                for _ in range(e):
                    if s is not None and s[0] == "sum":
                        new = []
                        n = self.num(s[2], f, env)
                        for v in range(n):
                            sub = self.terms(s[3], f, dict(env, **{s[1]: Fraction(v)}), own)
                            for fs, c in sub.items():
                                new += [(k0 * c, g + fs) for k0, g in parts]
                        parts = new
                    else:
                        r = self.factor(a, f, env, own)
                        if isinstance(r, dict):
                            parts = [(k0 * c, g + fs) for k0, g in parts for fs, c in r.items()]
                        else:
                            parts = [] if r is None else [(k0, g + (r,)) for k0, g in parts]
            for c, g in parts:
                g = tuple(sorted(g))
                out[g] = out.get(g, 0) + c
        return {g: c for g, c in out.items() if c}

    def spec(self, cell, B, N):
        b, t, i = cell
        rank = len(self.A)
        out = {(("x", (b, t) if self.scalar else (b, t, i)),): 1}
        for j in range(N):
            if self.scalar:
                a = () if rank == 0 else ((b,) if self.A[0] == B else (0,))
            else:
                a = ((b,) if rank == (3 if self.lti else 4) else ()) + (() if self.lti else (t,)) + (i, j)
            h = ("z", (b,) if self.scalar else (b, j)) if t == 0 else ("h", (b, t - 1, j))
            out[tuple(sorted((("A", a), h)))] = 1
        return out


def it_at(it, t, idx):
    return it.at(t, [Poly.const(i) for i in idx])


def show(ts):
    def one(g):
        return "*".join(f"{n}[{','.join(map(str, i)) if isinstance(i, tuple) else i}]" for n, i in g)
    return " + ".join((f"{c}*" if c != 1 else "") + one(g) for g, c in sorted(ts.items())) or "0"
