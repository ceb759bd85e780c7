"""Interpreter core: decisions, element atoms, memory, conversions."""
from .poly import Poly, Facts
from .cppbase import (Acc, BIG, Cell, Cond, Data, Infeasible, Int, INTW, Loop, Obj, Opaque, Ptr, Tup, Und, exact, learn_eq, learn_ge,
                      learn_ne, nonneg)


class Forker:
    def __init__(self, prefix, owner):
        self.prefix, self.taken, self.memo, self.owner = prefix, [], {}, owner

    def next(self):
        k = len(self.taken)
        v = self.prefix[k] if k < len(self.prefix) else True
        self.taken.append(v)
        return v


class Core:
    def __init__(self, unit, report):
        self.unit = unit
        self.report = report          # report(prop, rule, msg, line, file, func)
        self.facts = Facts()
        self.fstack = []              # facts of the enclosing loop levels
        self.loops = []
        self.forks = []
        self.cells = []
        self.log = []
        self.syms = {}
        self.data = {}                # data atom -> structure
        self.dkey = {}
        self.quiet = 0
        self.calls = []               # (function name, file)
        self.funcs_seen = set()
        self.steps = 0
        self.dispatched = []

    # -- data atoms -------------------------------------------------------
    def datom(self, *st):
        key = repr(st)
        a = self.dkey.get(key)
        if a is None:
            a = f"d{len(self.dkey):04d}"
            self.dkey[key] = a
            self.data[a] = st
        return Poly.atom(a)

    def dsub(self, p, env):
        """Substitute index atoms inside a data polynomial."""
        m = {}
        for a in p.atoms():
            st = self.data.get(a)
            if st is not None:
                n = self.dsub1(st, env)
                if n is not None:
                    m[a] = n
        return p.subst(m) if m else p

    def dsub1(self, st, env):
        k = st[0]
        if k == "ld":
            return self.datom("ld", st[1], self.facts.norm(st[2].subst(env)))
        if k == "src":
            return self.datom("src", st[1], tuple(q.subst(env) for q in st[2]))
        if k == "sum":
            return self.datom("sum", st[1], st[2].subst(env), self.dsub(st[3], {a: v for a, v in env.items() if a != st[1]}))
        if k == "fn":
            return self.datom("fn", st[1], tuple(self.dsub(q, env) for q in st[2]))
        return None

    def deep(self, p):
        """Every index and data atom of a polynomial, including below data atoms."""
        out = set()
        todo = list(p.atoms())
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            st = self.data.get(a)
            if st is None:
                continue
            for x in st[1:]:
                for q in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(q, Poly):
                        todo += q.atoms()
        return out

    # -- decisions --------------------------------------------------------
    def nn(self, p):
        return nonneg(self.facts, self.loops, p)

    def learn(self, kind, p, depth):
        fs = {"ge": learn_ge, "eq": learn_eq, "ne": learn_ne}[kind]
        for f in self.fstack[depth:]:
            fs(f, p)
        fs(self.facts, p)

    def truth(self, c):
        """True/False when the facts decide a condition, else None."""
        if isinstance(c, bool):
            return c
        if c.op == "opaque":
            return None
        if c.op == "not":
            t = self.truth(c.a[0])
            return None if t is None else not t
        if c.op in ("and", "or"):
            ts = [self.truth(x) for x in c.a]
            if c.op == "and":
                return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        p = self.facts.norm(c.a[0])
        if c.op == "ge":
            if self.nn(p):
                return True
            if self.nn(-p - 1):
                return False
            return None
        if p.is_zero():
            t = True
        elif p.is_const() or self.nn(p - 1) or self.nn(-p - 1) or self.facts.known_nonzero(p):
            t = False
        else:
            return None
        return t if c.op == "eq" else not t

    def decide(self, c):
        if isinstance(c, bool):
            return c
        t = self.truth(c)
        if t is not None:
            return t
        if c.op == "not":
            return not self.decide(c.a[0])
        if c.op == "and":
            return all(self.decide(x) for x in c.a)
        if c.op == "or":
            return any(self.decide(x) for x in c.a)
        if c.op == "opaque":
            raise Und(f"condition on {c.a[0]}")
        p = self.facts.norm(c.a[0])
        key = (c.op if c.op == "ge" else "eq", p)
        hit = next((fk.memo[key] for fk in self.forks if key in fk.memo), None)
        if p.atoms() & set(self.syms):
            if hit is not None:
                return hit if c.op != "ne" else not hit
            # discovery pass: both outcomes, nothing learnt
            v = self.forks[-1].next()
            self.forks[-1].memo[key] = v
            return v if c.op != "ne" else not v
        depth = 0
        for i, l in enumerate(self.loops):
            if l.atom in p.atoms():
                depth = i + 1
        if hit is not None:
            v = hit                     # decided before, but not known at this level
        else:
            fk = [f for f in self.forks if f.owner <= depth][-1]
            v = fk.next()
            fk.memo[key] = v
        if c.op == "ge":
            self.learn("ge", p if v else -p - 1, depth)
        else:
            self.learn("eq" if v else "ne", p, depth)
        return v if c.op != "ne" else not v

    def classes(self, fn, owner):
        """Run fn once for every class of undecided conditions."""
        todo = [[]]
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > 64:
                raise Und("too many cases")
            fk = Forker(pre, owner)
            k = len(self.forks)
            self.forks.append(fk)
            try:
                fn(fk)
            except Infeasible:
                pass
            finally:
                del self.forks[k:]
            for i in range(len(pre), len(fk.taken)):
                todo.append(fk.taken[:i] + [not fk.taken[i]])

    # -- memory -----------------------------------------------------------
    def acc(self, kind, st, off, val, line, nar):
        if getattr(st, "lazy", None) is not None and not self.quiet:
            self.lazy_access(st, off, line)
        for l in self.loops:
            if l.atom in off.atoms() and l.nar:
                nar = nar or l.nar
        a = Acc(kind, st, off, val, tuple(self.loops), self.facts.copy(), line, self.file(), self.func(), nar)
        a.final = not self.quiet
        self.log.append(a)
        return a

    def file(self):
        return self.calls[-1][1] if self.calls else "?"

    def func(self):
        return self.calls[-1][0] if self.calls else "?"

    def load(self, ptr, line):
        if not isinstance(ptr, Ptr):
            raise Und("load through an unknown pointer")
        st, off = ptr.st, self.facts.norm(ptr.off)
        self.acc("R", st, off, None, line, ptr.nar)
        if self.novalue:
            return Data(self.datom("ld", st, off))
        v = self.forward(st, off)
        return v if v is not None else Data(self.datom("ld", st, off))

    def disjoint(self, f, loops, d):
        return nonneg(f, loops, d - 1) or nonneg(f, loops, -d - 1)

    def forward(self, st, off):
        """Value of the last store to this element, when it is unambiguous."""
        n = len(self.loops)
        cur = tuple(self.loops)
        i = len(self.log) - 1
        lv = n
        while True:
            lo = self.loops[lv - 1].start if lv else 0
            while i >= lo:
                w = self.log[i]
                i -= 1
                if w.kind != "W" or w.st is not st:
                    continue
                woff = self.facts.norm(w.off)
                if w.loops[:lv] != cur[:lv]:
                    return None
                extra = w.loops[lv:]
                if not extra:
                    if self.facts.norm(off - woff).is_zero():
                        return Data(w.val)
                    if self.disjoint(self.facts, self.loops, off - woff):
                        continue
                    return None
                f = self.facts.copy()
                for l in extra:
                    f.lb[l.atom] = 0
                if self.disjoint(f, self.loops + list(extra), off - woff):
                    continue
                return self.solve(off, woff, w, extra)
            if lv == 0:
                return None
            l = self.loops[lv - 1]
            for (wst, woff, wloops) in l.writes:
                if wst is st and not self.other_iteration_disjoint(off, woff, wloops, l):
                    return None
            lv -= 1

    def other_iteration_disjoint(self, off, woff, wloops, l):
        """off at iteration k of l never equals woff at an iteration k' < k."""
        f = self.facts.copy()
        delta = f"q{l.atom}"
        f.lb[delta] = 0
        env = {l.atom: Poly.atom(l.atom) - 1 - Poly.atom(delta)}
        fresh = []
        for x in wloops[wloops.index(l) + 1:]:
            y = Loop(x.n.subst(env), x.line)
            env[x.atom] = y.p
            f.lb[y.atom] = 0
            fresh.append(y)
        d = off - self.facts.norm(woff).subst(env)
        dl = Loop(Poly.atom(l.atom), 0)      # k' >= 0: delta <= k - 1
        dl.atom = delta
        return self.disjoint(f, self.loops + [dl] + fresh, d)

    def solve(self, off, woff, w, extra):
        """The stored value when the completed loop visited this element."""
        f = self.facts
        if len(extra) != 1:
            return None
        l = extra[0]
        if woff.degree_in(l.atom) != 1:
            return None
        c = woff.coeff_of(l.atom)
        rest = f.norm(off - woff.subst({l.atom: Poly.const(0)}))
        k = exact(rest, c)
        if k is None or not (nonneg(f, self.loops, k) and nonneg(f, self.loops, l.n - 1 - k)):
            return None
        if w.facts.low(l.atom) > 0 or l.atom in w.facts.sub:
            return None                      # only some iterations stored
        return Data(self.dsub(w.val, {l.atom: k}))

    def store(self, ptr, v, line):
        if not isinstance(ptr, Ptr):
            raise Und("store through an unknown pointer")
        v = Data(Poly.atom("any")) if self.novalue else self.as_data(v)
        self.acc("W", ptr.st, self.facts.norm(ptr.off), v.p, line, ptr.nar)

    # -- values -----------------------------------------------------------
    def as_data(self, v):
        if isinstance(v, Data):
            return v
        if isinstance(v, Int):
            if v.p.is_const():
                return Data(v.p)
            raise Und("index value used as a tensor element")
        if isinstance(v, Tup) and len(v.items) == 0:
            return Data(0)
        if isinstance(v, Tup) and len(v.items) == 1:
            return self.as_data(v.items[0])
        raise Und(f"not an element value: {type(v).__name__} {getattr(v, 'what', '')}")

    def as_int(self, v):
        if isinstance(v, Int):
            return v
        if isinstance(v, bool):
            return Int(int(v), 32)
        if isinstance(v, Data) and v.p.is_const() and v.p.const_value().denominator == 1:
            return Int(v.p)
        if isinstance(v, Tup) and len(v.items) == 1:
            return self.as_int(v.items[0])
        if isinstance(v, Cond):
            return Int(int(self.decide(v)), 32)
        raise Und(f"not an integer: {type(v).__name__} {getattr(v, 'what', '')}")

    def as_cond(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, Int):
            return Cond("ne", v.p)
        if isinstance(v, Opaque):
            return Cond("opaque", v.what)
        raise Und(f"not a condition: {type(v).__name__}")

    def narrow(self, v, w, line):
        if w >= 64:
            return Int(v.p, 64, v.nar)
        nar = v.nar
        if v.w > w and not self.facts.norm(v.p).is_const():
            nar = nar or (line, f"{w}-bit", v.p)
        return Int(v.p, w, nar)

    def convert(self, v, ty, line, tnames=()):
        if ty is None or v is None or isinstance(v, Opaque):
            return v
        if ty.ptr or ty.name == "auto":
            return v
        name = ty.name.split("::")[-1]
        if name in self.unit.alias and name not in INTW:
            return self.convert(v, self.unit.alias[name], line, tnames)
        if name in INTW:
            return self.narrow(self.as_int(v), INTW[name], line)
        if name == "bool":
            return self.as_cond(v)
        if name in ("scalar_t", "float", "double", "acc_t", "opmath_t", "T") or name in tnames:
            if isinstance(v, (Int, Data)) or (isinstance(v, Tup) and len(v.items) < 2):
                return self.as_data(v)
            return v
        if name in self.unit.structs and isinstance(v, Tup):
            return self.build(self.unit.structs[name], v.items, line)
        return v

    def build(self, st, items, line):
        fs = {}
        for k, f in enumerate(st.fields):
            n, ty = f[0], f[1]
            v = items[k] if k < len(items) else Int(0, 32)
            fs[n] = self.convert(v, ty, line, st.tparams)
        return Obj(st, fs)

    # -- environments -----------------------------------------------------
    def bind(self, env, name, v, ty=None, ref=None):
        c = Cell(v, ty, name, len(self.loops))
        c.ref = ref
        self.cells.append(c)
        env[name] = c
        return c

    def lookup(self, env, name):
        while env is not None:
            if name in env:
                return env[name]
            env = env.get("^")
        return None

    def finding(self, prop, rule, msg, line):
        if not self.quiet:
            self.report(prop, rule, msg, line, self.file(), self.func())
