"""Thrust/CUDA device algorithms over fancy iterators."""
from .poly import Poly
from .cppbase import Cond, Data, Int, It, Obj, Opaque, Ptr, Tup, Und, exact


class Thrust:
    expect_T = None

    def it_arith(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It) and op == "-" and a.kind == b.kind == "count":
            return Int(a.base - b.base)
        if isinstance(b, It):
            a, b = b, a
        i = self.as_int(b).p
        if op == "-":
            i = -i
        return self.advance(a, i)

    def advance(self, it, i):
        if isinstance(it, Ptr):
            return Ptr(it.st, it.off + i, it.nar)
        if it.kind == "count":
            return It("count", base=it.base + i)
        if it.kind in ("map", "outmap"):
            return It(it.kind, op=it.op, src=self.advance(it.src, i))
        if it.kind == "zip":
            return It("zip", items=[self.advance(x, i) for x in it.items])
        if it.kind == "const":
            return it
        raise Und("iterator arithmetic")

    def get_it(self, it, i, line):
        if isinstance(it, Ptr):
            return self.load(Ptr(it.st, it.off + i, it.nar), line)
        if it.kind == "count":
            return Int(it.base + i)
        if it.kind == "const":
            return it.value
        if it.kind == "map":
            return self.invoke(it.op, [self.get_it(it.src, i, line)], line)
        if it.kind == "zip":
            return Tup([self.get_it(x, i, line) for x in it.items])
        raise Und("read through an output iterator")

    def targets(self, it, i, v, line):
        """[(Ptr, value)] of storing v through an output iterator."""
        if isinstance(it, Ptr):
            return [(Ptr(it.st, it.off + i, it.nar), self.as_data(v))]
        if it.kind == "zip":
            items = v.items if isinstance(v, Tup) else None
            if items is None or len(items) != len(it.items):
                raise Und("zip store")
            return [t for x, y in zip(it.items, items) for t in self.targets(x, i, y, line)]
        if it.kind == "outmap":
            return self.targets(it.src, i, self.invoke(it.op, [v], line), line)
        raise Und("store through an input iterator")

    def span(self, a, b):
        while isinstance(a, It) and a.kind in ("map", "outmap"):
            a, b = a.src, b.src
        if isinstance(a, It) and a.kind == "zip":
            return self.span(a.items[0], b.items[0])
        if isinstance(a, Ptr) and a.st is b.st:
            return b.off - a.off
        if isinstance(a, It) and a.kind == "count":
            return b.base - a.base
        raise Und("iterator range")

    def thrust(self, name, n, env):
        base = name.split("::")[-1]
        line = n.line
        if base not in ("make_tuple", "make_pair", "get", "tie", "make_counting_iterator", "make_transform_iterator", "make_zip_iterator",
                        "make_zip_function", "make_transform_output_iterator", "make_constant_iterator", "counting_iterator",
                        "constant_iterator", "inclusive_scan_by_key", "for_each", "for_each_n", "transform", "device_pointer_cast",
                        "tuple", "equal_to", "copy", "copy_n", "device", "host", "zip_iterator", "transform_iterator"):
            return NotImplemented
        args = [self.ev(a, env) for a in n.args]
        if base in ("make_tuple", "make_pair", "tuple", "tie"):
            return Tup(args)
        if base == "get":
            k = n.f.targs[0] if n.f.targs else None
            k = self.targ_int(k)
            if not isinstance(args[0], Tup) or k is None or k >= len(args[0].items):
                raise Und("tuple element")
            return args[0].items[k]
        if base in ("make_counting_iterator", "counting_iterator"):
            return It("count", base=self.as_int(args[0]).p if args else Poly.const(0))
        if base in ("make_constant_iterator", "constant_iterator"):
            return It("const", value=args[0])
        if base in ("make_transform_iterator", "transform_iterator"):
            return It("map", src=args[0], op=args[1])
        if base == "make_transform_output_iterator":
            return It("outmap", src=args[0], op=args[1])
        if base in ("make_zip_iterator", "zip_iterator"):
            if len(args) == 1 and isinstance(args[0], Tup):
                args = args[0].items
            return It("zip", items=args)
        if base == "make_zip_function":
            return It("zipfn", fn=args[0])
        if base == "device_pointer_cast":
            return args[0]
        if base == "equal_to":
            return Opaque("equal_to")
        if base in ("for_each", "for_each_n", "transform"):
            if isinstance(args[0], Opaque) or not isinstance(args[0], (It, Ptr)):
                args = args[1:]
            return self.device_loop(base, args, line)
        if base == "inclusive_scan_by_key":
            if not isinstance(args[0], (It, Ptr)):
                args = args[1:]
            return self.scan_by_key(args, line)
        raise Und(f"function {name}")

    def targ_int(self, k):
        if k is None:
            return None
        s = str(getattr(k, "v", getattr(k, "name", k)))
        return int(s) if s.isdigit() else None

    def device_loop(self, base, args, line):
        out = {}
        first = args[0]
        m = self.as_int(args[1]).p if base == "for_each_n" else self.span(first, args[1])

        def once():
            k = out["lp"].p
            if base == "transform":
                xs = [self.get_it(first, k, line)] + [self.get_it(a, k, line) for a in args[2:-2]]
                for p, v in self.targets(args[-2], k, self.invoke(args[-1], xs, line), line):
                    self.store(p, v, line)
            else:
                self.invoke(args[2], [self.get_it(first, k, line)], line)
        self.run_loop(line, once, n=m, par=True, holder=out)
        return None

    def same_shape(self, v, make):
        if isinstance(v, Tup):
            return Tup([self.same_shape(x, make) for x in v.items])
        if isinstance(v, Obj):
            return Obj(v.st, {k: self.same_shape(x, make) for k, x in v.fields.items()})
        return Data(make())

    def leaves(self, v):
        if isinstance(v, Tup):
            return [y for x in v.items for y in self.leaves(x)]
        if isinstance(v, Obj):
            return [y for x in v.fields.values() for y in self.leaves(x)]
        return [self.as_data(v).p]

    def scan_by_key(self, args, line):
        if len(args) < 5:
            raise Und("scan arguments")
        k0, k1, src, dst = args[:4]
        op = args[5] if len(args) > 5 else None
        if op is None:
            raise Und("scan without an operator")
        total = self.span(k0, k1)
        out = {}
        self.scans.append(line)

        def once():
            lp = out["lp"]
            i = lp.p
            try:
                key = self.as_int(self.get_it(k0, i, line)).p
            except Und as e:
                T = self.expect_T
                if T is not None and str(e) == "division of sizes":
                    self.loud("C03", "segments", "scan segments are not the time steps of one batch item", line)
                if self.quiet:
                    return
                # the elements are read whatever the keys are
                self.get_it(src, i, line)
                raise
            parts = [l for l in self.loops if l in getattr(lp, "parts", ())]
            if not parts and self.expect_T is not None and self.facts.norm(key).is_const():
                m = exact(self.facts.norm(lp.n), self.expect_T)
                if m is not None:
                    self.split_loop(lp, m, self.expect_T)
                    parts = [l for l in self.loops if l in lp.parts]
            key = self.facts.norm(key)
            if len(parts) != 2:
                raise Und("scan key")
            b, t = parts
            if t.atom in key.atoms():
                if key.degree_in(t.atom) == 1 and key.coeff_of(t.atom).is_const() and self.expect_T is not None:
                    self.loud("C03", "segments", "successive time steps have different scan keys, so the scan restarts at each of them", line)
                raise Und("scan key")
            whole = b.atom not in key.atoms()
            if whole and not key.is_const():
                raise Und("scan key")
            if self.expect_T is not None and not self.facts.norm(t.n - self.expect_T).is_zero():
                self.loud("C03", "segments", f"scan segments have {self.show(t.n)} elements instead of the {self.show(self.expect_T)} time steps of one batch item", line)
                raise Und("scan segments")
            x = self.get_it(src, i, line)
            first = not self.decide(Cond("ge", t.p - 1))
            cnt = [0]

            def sym(tag):
                def mk():
                    cnt[0] += 1
                    return self.datom("sym", f"{tag}{cnt[0]}", line)
                cnt[0] = 0
                return self.same_shape(x, mk)
            u, v, w = sym("u"), sym("v"), sym("w")
            lhs = self.leaves(self.invoke(op, [self.invoke(op, [u, v], line), w], line))
            rhs = self.leaves(self.invoke(op, [u, self.invoke(op, [v, w], line)], line))
            if lhs != rhs:
                for prop in ("C02", "C03"):
                    self.loud(prop, "associative", "the combining operator of a parallel scan is not associative, so the result depends on how the scan is split", line)
                raise Und("scan operator")
            if first:
                outs = self.targets(dst, i, x, line)
                if whole:
                    # one segment for all batch items: the state of the previous item must not get through
                    prev = self.targets(dst, i, self.invoke(op, [u, x], line), line)
                    if [v.p for _, v in prev] != [v.p for _, v in outs]:
                        if {q for _, v in prev for q in v.p.atoms()} & {q for y in self.leaves(u) for q in y.atoms()}:
                            self.loud("C03", "segments", "the scan continues from one batch item into the next", line)
                        raise Und("scan key")
                for p, val in outs:
                    self.store(p, val, line)
                return
            state = u
            outs = self.targets(dst, i, state, line)
            sub = {}
            for p, val in outs:
                a = val.p
                if len(a.t) != 1 or not (len(a.atoms()) == 1) or list(a.t.values())[0] != 1:
                    raise Und("scan output")
                off = self.facts.norm(p.off)
                prev = self.facts.norm(off.subst({t.atom: t.p - 1}))
                sub[next(iter(a.atoms()))] = self.datom("ld", p.st, prev)
            hidden = {next(iter(q.atoms())) for q in self.leaves(u)} - set(sub)
            for p, val in self.targets(dst, i, self.invoke(op, [state, x], line), line):
                if val.p.atoms() & hidden:
                    self.loud("C03", "recurrence", "the scanned state depends on the accumulated coefficient product", line)
                    raise Und("scan output")
                self.store(p, Data(val.p.subst(sub)), line)
        self.scanning = True
        try:
            self.run_loop(line, once, n=total, par="scan", holder=out)
        finally:
            self.scanning = False
        return None

    scanning = False

    def loud(self, prop, rule, msg, line):
        # the scan is analysed under the same decisions in every pass
        self.report(prop, rule, msg, line, self.file(), self.func())

    def show(self, p):
        return str(self.facts.norm(p))


