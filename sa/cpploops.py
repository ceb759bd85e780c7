"""Summaries of loops: induction variables, accumulation, iteration counts."""
from .poly import Poly
from .cppbase import (Acc, Cond, Cont, Data, Int, Loop, Opaque, Ptr, Ret, Und, BIG, learn_ge)


class Loops:
    # -- loops ------------------------------------------------------------
    def start_value(self, c, v):
        a = f"s{Loop.n}{len(self.syms)}"
        self.syms[a] = c
        self.facts.lb[a] = -BIG
        if isinstance(v, Int):
            return Int(Poly.atom(a), v.w, v.nar)
        if isinstance(v, Ptr):
            return Ptr(v.st, Poly.atom(a), v.nar)
        if isinstance(v, Data):
            return Data(Poly.atom(a))
        raise Und(f"variable {c.name} changes in a loop")

    def run_loop(self, line, body, cond=None, n=None, par=False, own=(), private=(), holder=None):
        """body() runs one iteration (step included); cond() yields the loop condition."""
        lp = Loop(None, line, par)
        lp.start = len(self.log)
        if holder is not None:
            holder["lp"] = lp
        cells = list(self.cells)
        snap = [c.v for c in cells]
        nlog = len(self.log)
        self.syms = dict(self.syms)

        def restore():
            for c, v in zip(cells, snap):
                c.v = v
            del self.cells[len(cells):]

        def passes(starts, real, collect=None):
            """One analysis of the body for every class; list of end values."""
            res = []

            def once(fk):
                restore()
                for c, v in starts.items():
                    c.v = v
                self.fstack.append(self.facts)
                self.facts = self.facts.copy()
                depth = len(self.loops)
                nl = len(self.loops)
                try:
                    self.facts.lb[lp.atom] = 0
                    learn_ge(self.facts, lp.n - 1)
                    self.loops.append(lp)
                    try:
                        body()
                    except Cont:
                        pass
                    except Ret:
                        raise Und("return inside a loop")
                    res.append(([c.v for c in cells], self.facts))
                finally:
                    del self.loops[nl:]
                    self.facts = self.fstack.pop()
            if not real:
                self.quiet += 1
            try:
                self.classes(once, len(self.loops) + 1)
            finally:
                if not real:
                    self.quiet -= 1
                restore()
            if collect is not None:
                collect += [x for x in self.log[nlog:] if x.kind in ("W", "w") and lp in x.loops]
            if not real:
                del self.log[nlog:]
            return res

        # which variables change, and how
        starts = {}
        mod = []
        lp.n = Poly.atom(f"m{Loop.n}") if n is None else self.facts.norm(n)
        if n is not None and (not self.decide(Cond("ge", lp.n - 1))):
            return
        saved = self.facts
        self.facts = self.facts.copy()
        self.facts.lb[f"m{Loop.n}"] = 1
        try:
            for _ in range(6):
                ends = passes(starts, False)
                new = []
                for vs, _f in ends:
                    for c, v0, v in zip(cells, snap, vs):
                        if c in starts:
                            continue
                        if v is not v0 and not self.same(v, v0):
                            if c not in new:
                                new.append(c)
                if not new:
                    break
                for c in new:
                    if par is True and c not in own and c.name not in private:
                        self.shared(c, line)
                for c in new:
                    v0 = snap[cells.index(c)]
                    if isinstance(v0, (Int, Ptr, Data)):
                        starts[c] = self.start_value(c, v0)
                    elif v0 is None or isinstance(v0, Opaque):
                        starts[c] = Opaque(f"uninitialised {c.name}")
                    else:
                        raise Und(f"variable {c.name} changes in a loop")
            else:
                raise Und("no induction found")
        finally:
            self.facts = saved
        mod = list(starts)
        idx = {c: i for i, c in enumerate(cells)}
        symof = {c: next(iter(v.p.atoms() if isinstance(v, (Int, Data)) else v.off.atoms())) for c, v in starts.items() if not isinstance(v, Opaque)}
        syms = set(symof.values())
        lin, reset, accs, carry = {}, {}, {}, {}
        for c in mod:
            i = idx[c]
            v0 = snap[i]
            if c not in symof:
                reset[c] = None
                continue
            s = symof[c]
            outs = [vs[i] for vs, _ in ends]
            if any(type(o) is not type(v0) for o in outs):
                raise Und(f"variable {c.name} changes its kind")
            ps = [o.off if isinstance(o, Ptr) else o.p for o in outs]
            if isinstance(v0, Ptr) and any(o.st is not v0.st for o in outs):
                raise Und(f"pointer {c.name} changes its block")
            d = [p - Poly.atom(s) for p in ps]
            if isinstance(v0, Data):
                if all(s not in self.deep(x) for x in d):
                    accs[c] = True
                elif all(s not in self.deep(p) for p in ps):
                    reset[c] = ps
                else:
                    carry[c] = ps
                continue
            if all(x == d[0] for x in d) and not (d[0].atoms() & (syms | {lp.atom})) and not any(
                    a.startswith("k") and a not in [l.atom for l in self.loops] for a in d[0].atoms()):
                lin[c] = d[0]
            elif all(s not in p.atoms() for p in ps):
                reset[c] = ps
            else:
                raise Und(f"no induction expression for {c.name}")
        k = lp.p
        env = {}
        now = {}
        for c, d in lin.items():
            v0 = snap[idx[c]]
            base = v0.off if isinstance(v0, Ptr) else v0.p
            e = base + d * k
            env[symof[c]] = e
            now[c] = Ptr(v0.st, e, v0.nar) if isinstance(v0, Ptr) else Int(e, v0.w, v0.nar)
        # number of iterations
        if n is None:
            restore()
            for c, v in now.items():
                c.v = v
            for c in mod:
                if c not in now:
                    c.v = Opaque(f"{c.name} is not linear in the iteration")
            cd = cond() if cond else True
            restore()
            n = self.count(cd, lp)
        n = self.facts.norm(n)
        lp.n = n
        wide = [c for c in own if isinstance(c.v, Int) and c.v.w < 64 and not n.is_const()]
        for c in wide:
            lp.nar = (line, f"{c.v.w}-bit loop counter {c.name}", n)
        if not self.decide(Cond("ge", n)):
            return
        if self.facts.norm(n).is_zero():
            return
        # reset and carried variables
        final = dict(now)
        for c in mod:
            if c in lin:
                continue
            v0 = snap[idx[c]]
            if c in accs:
                final[c] = starts[c]
                continue
            ps = reset.get(c, carry.get(c))
            e = None
            if ps and c in reset and all(p == ps[0] for p in ps):
                e = (self.dsub(ps[0].subst(env), env) if isinstance(v0, Data) else ps[0].subst(env))
                if self.deep(e) & syms:
                    e = None
            if e is not None and not isinstance(v0, Data):
                b = v0.off if isinstance(v0, Ptr) else v0.p
                prev = e.subst({lp.atom: k - 1})
                if self.facts.norm(e.subst({lp.atom: Poly.const(-1)}) - b).is_zero():
                    final[c] = Ptr(v0.st, prev, v0.nar) if isinstance(v0, Ptr) else Int(prev, v0.w, v0.nar)
                    continue
            final[c] = Opaque(f"value of {c.name} from the previous iteration") if c in reset else starts[c]
        # values carried in a register that equal a stored element
        cand = [c for c in mod if isinstance(final.get(c), (Opaque, Data)) and c not in accs and isinstance(snap[idx[c]], Data)]
        for c in cand:
            final[c] = starts[c]
        if cand:
            kept = []
            ends = passes(final, False, kept)
            for c in cand:
                got = self.carried(c, idx[c], snap, ends, lp, kept)
                if got is None:
                    if self.novalue:
                        continue
                    raise Und(f"no induction expression for {c.name}")
                final[c] = got
        lp.writes = []
        kept = []
        passes(final, False, kept)
        lp.writes = [(x.st, self.facts.norm(x.off), x.loops) for x in kept]
        ends = passes(final, True)
        self.close(lp, nlog)
        # values after the loop
        after = {}
        for c in mod:
            v0 = snap[idx[c]]
            if c in lin:
                e = (v0.off if isinstance(v0, Ptr) else v0.p) + lin[c] * n
                after[c] = Ptr(v0.st, e, v0.nar) if isinstance(v0, Ptr) else Int(e, v0.w, v0.nar)
            elif self.novalue and isinstance(v0, Data):
                after[c] = Data(Poly.atom("any"))
            elif c in accs:
                s = symof[c]
                es = [vs[idx[c]].p - Poly.atom(s) for vs, _ in ends]
                if any(e != es[0] for e in es) or s in self.deep(es[0]):
                    raise Und(f"accumulation in {c.name} depends on the iteration class")
                # the running value must not have been stored or tested
                for a in self.log[nlog:]:
                    if a.val is not None and s in self.deep(a.val):
                        raise Und(f"running value of {c.name} is stored")
                after[c] = Data(v0.p + self.total(lp, n, es[0]))
            else:
                vs = [e[0][idx[c]] for e in ends]
                v = vs[0]
                if len(vs) == 1 and isinstance(v, (Int, Ptr)) and self.truth(Cond("ge", n - 1)) and not self.deep(v.off if isinstance(v, Ptr) else v.p) & syms:
                    q = (v.off if isinstance(v, Ptr) else v.p).subst({lp.atom: n - 1})
                    after[c] = Ptr(v.st, q, v.nar) if isinstance(v, Ptr) else Int(q, v.w, v.nar)
                else:
                    after[c] = Opaque(f"value of {c.name} after the loop")
        for c, v in after.items():
            c.v = v

    def shared(self, c, line):
        # holds on every path through the body, so it is reported even while the body is only explored
        self.report("C02", "shared", f"variable {c.name} is shared by the parallel iterations and changed by each of them", line, self.file(), self.func())

    def carried(self, c, i, snap, ends, lp, kept):
        """The variable holds what the previous iteration stored at some element."""
        v0 = snap[i]
        for vs, _f in ends:
            end = vs[i]
            if not isinstance(end, Data):
                return None
        cands = [w for w in kept if w.kind == "W" and w.loops and w.loops[-1] is lp and all(w.val == vs[i].p for vs, _ in ends)]
        for w in cands:
            off = self.facts.norm(w.off)
            first = off.subst({lp.atom: Poly.const(-1)})
            # the initial value must be the element before the first one stored
            want = self.datom("ld", w.st, self.facts.norm(first))
            if v0.p == want:
                return Data(self.datom("ld", w.st, self.facts.norm(off.subst({lp.atom: lp.p - 1}))))
            got = self.forward(w.st, self.facts.norm(first))
            if got is not None and got.p == v0.p:
                return Data(self.datom("ld", w.st, self.facts.norm(off.subst({lp.atom: lp.p - 1}))))
        return None

    def same(self, a, b):
        if isinstance(a, Int) and isinstance(b, Int):
            return a.p == b.p
        if isinstance(a, Data) and isinstance(b, Data):
            return a.p == b.p
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.st is b.st and a.off == b.off
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return False

    def count(self, cd, lp):
        if isinstance(cd, bool) or cd is None:
            raise Und("loop without a size condition")
        if cd.op == "not":
            x = cd.a[0]
            cd = Cond("ge", -x.a[0] - 1) if x.op == "ge" else (Cond("ne", x.a[0]) if x.op == "eq" else cd)
        p = self.facts.norm(cd.a[0]) if cd.op in ("ge", "ne") else None
        if p is None or p.degree_in(lp.atom) != 1:
            raise Und("loop condition")
        c = p.coeff_of(lp.atom)
        if not c.is_const() or lp.atom in c.atoms():
            raise Und("loop step")
        c = c.const_value()
        c0 = p.subst({lp.atom: Poly.const(0)})
        if cd.op == "ne":
            if abs(c) != 1:
                raise Und("loop step")
            return c0 * (-1 / c)
        if c >= 0:
            raise Und("loop condition never fails")
        if c == -1:
            return c0 + 1
        if c0.is_const():
            return Poly.const((c0.const_value() // -c) + 1)
        q = (c0 - (-c - 1)) * (1 / -c)
        if all(v.denominator == 1 for v in q.t.values()):
            return q + 1
        raise Und("loop step")

    def total(self, lp, n, e):
        """sum over the iterations of lp"""
        if e.is_zero():
            return Poly.const(0)
        if lp.atom not in self.deep(e):
            if n.is_const():
                return e * n.const_value()
            raise Und("sum of a constant over a symbolic range")
        n = self.facts.norm(n)
        if n.is_const() and n.const_value() <= 8:
            out = Poly.const(0)
            for i in range(int(n.const_value())):
                out = out + self.dsub(e, {lp.atom: Poly.const(i)})
            return out
        depth = 0
        for a in self.deep(e):
            if a.startswith("_"):
                depth = max(depth, int(a[1:]) + 1)
        b = f"_{depth}"
        return self.datom("sum", b, n, self.dsub(e, {lp.atom: Poly.atom(b)}))

    def close(self, lp, nlog):
        """Summarise in-memory accumulation: stores whose address does not move."""
        out = []
        if self.novalue:
            return
        for a in self.log[nlog:]:
            if a.kind != "W" or lp not in a.loops:
                continue
            k = a.loops.index(lp)
            inner = a.loops[k + 1:]
            off = self.facts.norm(a.off)
            if lp.atom in off.atoms() or lp.atom in a.facts.sub:
                continue
            if inner and (any(lp.atom in self.facts.norm(l.n).atoms() for l in inner) or getattr(lp, "parts", None)):
                continue
            if inner and a.facts.norm(lp.n) == Poly.const(1):
                continue
            others = [b for b in self.log[nlog:] if b is not a and b.kind == "W" and b.st is a.st and lp in b.loops]
            if any(lp.atom not in self.facts.norm(b.off).atoms() for b in others):
                raise Und("several accumulations into memory in one loop")
            if any(lp.atom in a.facts.norm(q).atoms() for q in a.facts.nn + a.facts.ne) or a.facts.low(lp.atom) > 0:
                raise Und("accumulation into memory in some iterations only")
            ld = self.datom("ld", a.st, off)
            la = next(iter(ld.atoms()))
            e = a.val - ld
            a.kind = "w"
            if la not in self.deep(e):
                first = self.forward(a.st, off) if not inner else None
                out.append((a, (first.p if first is not None else ld) + self.total(lp, lp.n, e)))
            elif la not in self.deep(a.val):
                if self.truth(Cond("ge", lp.n - 1)) is not True:
                    raise Und("conditional overwrite in a loop")
                out.append((a, self.dsub(a.val, {lp.atom: lp.n - 1})))
            else:
                raise Und("in-memory recurrence at a fixed address")
        for a, v in out:
            k = a.loops.index(lp)
            rest = a.loops[k + 1:]
            self.log.append(Acc("W", a.st, self.facts.norm(a.off), v, tuple(self.loops) + rest, (a.facts if rest else self.facts).copy(), a.line, a.file,
                                a.func, a.nar))
            self.log[-1].final = a.final
