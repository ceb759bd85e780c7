"""Model of the ATen calls the native entry points make: shapes, element
provenance, contiguity, and the errors the library raises by itself."""
from .poly import Poly
from .cppbase import Cond, Data, Int, Opaque, Ptr, Reject, Store, Tensor, Tup, Und

ONE = Poly.const(1)


def rowmajor(shape):
    out, p = [], ONE
    for s in reversed(shape):
        out.append(p)
        p = p * s
    return out[::-1]


class Aten:
    # -- facts ------------------------------------------------------------
    def require(self, c):
        """The library (or a check macro) raises unless c holds."""
        t = self.truth(c)
        if t is True:
            return
        if t is False:
            raise Reject()
        if c.op == "and":
            for x in c.a:
                self.require(x)
            return
        if c.op in ("eq", "ge", "ne") and not self.loops:
            self.learn(c.op, c.a[0], 0)
            return
        if not self.decide(c):
            raise Reject()

    def require_eq(self, p, q):
        self.require(Cond("eq", Poly.of(p) - Poly.of(q)))

    def dim(self, t, d, extra=0):
        """A constant dimension index; extra: one more position (unsqueeze)."""
        d = self.as_int(d)
        p = self.facts.norm(d.p)
        if not p.is_const():
            raise Und("dimension index")
        d = int(p.const_value())
        n = len(t.shape) + extra
        lim = max(n, 1)
        if not -lim <= d < lim:
            raise Reject()
        return d + n if d < 0 else d

    def ints(self, v):
        if isinstance(v, Tup):
            return [self.as_int(x).p for x in v.items]
        if isinstance(v, Int):
            return [v.p]
        raise Und("size list")

    # -- construction -----------------------------------------------------
    def fresh(self, shape, get, dtype, name, contig=True):
        return Tensor(shape, get, contig, dtype, name)

    def at(self, t, idx):
        """Reference to one element."""
        if t.store is not None:
            return ("st", t.store, self.flat(t, idx))
        v = getattr(t, "view", None)
        if v is not None:
            base, off, strides = v
            if base.store is not None or base.contig is True:
                f = off
                for i, s in zip(idx, strides):
                    f = f + i * s
                if base.store is not None:
                    return ("st", base.store, f)
        return t.get(list(idx), self)

    def flat(self, t, idx):
        f = Poly.const(0)
        for i, s in zip(idx, rowmajor(t.shape)):
            f = f + i * s
        return f

    def mkview(self, t, shape, fn, affine, contig, name=None):
        """A view; affine: (offset, strides in units of t's own indices) or None."""
        r = Tensor(shape, lambda idx, it: it.at(t, fn(idx)), contig, t.dtype, name or t.name, t.arg)
        r.owner = getattr(t, "owner", t)
        v = getattr(t, "view", None)
        if affine is not None and (v is not None or t.contig is True):
            base, off, st = v if v is not None else (t, Poly.const(0), rowmajor(t.shape))
            o2, coef = affine
            # coef: per new dim, list of (old dim, multiplier)
            off = off + sum((o * s for o, s in zip(o2, st)), Poly.const(0))
            strides = []
            for c in coef:
                strides.append(sum((st[d] * m for d, m in c), Poly.const(0)))
            r.view = (base, off, strides)
        return r

    def zeros(self, t):
        return [Poly.const(0)] * len(t.shape)

    def permute(self, t, order):
        shape = [t.shape[d] for d in order]

        def fn(idx):
            out = [None] * len(order)
            for k, d in enumerate(order):
                out[d] = idx[k]
            return out
        same = order == list(range(len(order)))
        return self.mkview(t, shape, fn, (self.zeros(t), [[(d, ONE)] for d in order]), t.contig if same else False)

    def unsqueeze(self, t, d):
        n = len(t.shape)
        shape = t.shape[:d] + [ONE] + t.shape[d:]
        coef = [[(k, ONE)] for k in range(n)]
        return self.mkview(t, shape, lambda i: i[:d] + i[d + 1:], (self.zeros(t), coef[:d] + [[]] + coef[d:]), t.contig)

    def select(self, t, d, i):
        self.require(Cond("ge", t.shape[d] - 1 - i))
        self.require(Cond("ge", i + t.shape[d]))
        if self.facts.norm(i).is_const() and self.facts.norm(i).const_value() < 0:
            i = i + t.shape[d]
        o = self.zeros(t)
        o[d] = i
        coef = [[(k, ONE)] for k in range(len(t.shape)) if k != d]
        return self.mkview(t, t.shape[:d] + t.shape[d + 1:], lambda x: x[:d] + [i] + x[d:], (o, coef), None if d else t.contig)

    def slice(self, t, d, start, end, step=1):
        if step != 1:
            raise Und("strided slice")
        n = t.shape[d]

        def clamp(p, dflt):
            if p is None:
                return dflt
            q = self.facts.norm(p)
            if q.is_const() and q.const_value() < 0:
                p = p + n
                if self.truth(Cond("ge", p)) is not True:
                    p = p if self.decide(Cond("ge", p)) else Poly.const(0)
                return p
            if self.truth(Cond("ge", p)) is not True and not self.decide(Cond("ge", p)):
                raise Und("negative symbolic slice bound")
            if not self.decide(Cond("ge", n - p)):
                return n
            return p
        a, b = clamp(start, Poly.const(0)), clamp(end, n)
        if not self.decide(Cond("ge", b - a)):
            b = a
        o = self.zeros(t)
        o[d] = a
        shape = list(t.shape)
        shape[d] = b - a
        whole = self.facts.norm(b - a - n).is_zero()
        contig = t.contig if whole or (d == 0) else None

        def fn(x):
            x = list(x)
            x[d] = x[d] + a
            return x
        return self.mkview(t, shape, fn, (o, [[(k, ONE)] for k in range(len(shape))]), contig)

    def flip(self, t, dims):
        def fn(x):
            return [t.shape[k] - 1 - i if k in dims else i for k, i in enumerate(x)]
        return self.fresh(t.shape, lambda idx, it: it.at(t, fn(idx)), t.dtype, t.name, True if t.contig else None)

    def expand(self, t, sizes):
        k = len(sizes) - len(t.shape)
        if k < 0:
            raise Reject()
        shape, coef = [], []
        drop = []
        for d, s in enumerate(sizes):
            if d < k:
                shape.append(s)
                coef.append([])
                continue
            o = t.shape[d - k]
            q = self.facts.norm(s)
            if q.is_const() and q.const_value() == -1 or self.facts.norm(s - o).is_zero():
                shape.append(o)
                coef.append([(d - k, ONE)])
            elif self.decide(Cond("eq", o - 1)):
                shape.append(s)
                coef.append([])
                drop.append(d - k)
            else:
                self.require_eq(s, o)
                shape.append(o)
                coef.append([(d - k, ONE)])
        return self.mkview(t, shape, lambda x: [Poly.const(0) if d in drop else x[d + k] for d in range(len(t.shape))], (self.zeros(t), coef), None)

    def newshape(self, t, sizes):
        """Resolve one -1 and check the element count."""
        hole = [k for k, s in enumerate(sizes) if self.facts.norm(s).is_const() and self.facts.norm(s).const_value() == -1]
        rest = ONE
        for k, s in enumerate(sizes):
            if k not in hole:
                rest = rest * s
        n = t.numel()
        rest_n, n_n = self.facts.norm(rest), self.facts.norm(n)
        if len(hole) == 1:
            from .cppbase import exact
            q = exact(n_n, rest_n)
            if q is None:
                raise Und("view size")
            sizes = list(sizes)
            sizes[hole[0]] = q
        elif not hole:
            self.require_eq(n_n, rest_n)
        else:
            raise Reject()
        return sizes

    def view(self, t, sizes, line, copy):
        shape = self.newshape(t, sizes)
        if t.contig is not True and getattr(t, "view", None) is not None:
            r = self.split_view(t, shape)
            if r is not None:
                return r
        if not copy and t.contig is None and not self.trivial_regroup(t, shape):
            self.finding("C03", "layout", f"view of {t.name}, whose memory layout follows the caller's tensor, fails for other layouts", line)
            raise Und("view of a tensor of unknown layout")
        if not copy and t.contig is False and not self.trivial_regroup(t, shape):
            raise Und("view of a transposed tensor")
        old = list(t.shape)
        if t.contig is True:
            base, off, _ = getattr(t, "view", None) or (t, Poly.const(0), None)

        def fn(idx):
            f = Poly.const(0)
            for i, s in zip(idx, rowmajor(shape)):
                f = f + i * s
            return f

        def get(idx, it):
            q = it.split(fn(idx), old)
            return None if q is None else it.at(t, q)
        r = Tensor(shape, get, True if t.contig is True else (True if copy and t.contig is False and False else None), t.dtype, t.name, t.arg)
        if t.contig is True:
            r.view = (base, off, rowmajor(shape))
        r.owner = getattr(t, "owner", t)
        return r

    def split_view(self, t, shape):
        """A reshape that only splits axes is a view for every layout."""
        groups, j = [], 0
        for o in t.shape:
            o = self.facts.norm(o)
            g, p = [], ONE
            while self.facts.norm(p) != o and j < len(shape):
                p = p * shape[j]
                g.append(j)
                j += 1
            if self.facts.norm(p) != o:
                return None
            groups.append(g)
        rest = list(range(j, len(shape)))
        if any(self.facts.norm(shape[k]) != ONE for k in rest):
            return None

        def fn(idx):
            out = []
            for g in groups:
                f = Poly.const(0)
                for k in g:
                    f = f * shape[k] + idx[k]
                out.append(f)
            return out
        coef = [[] for _ in shape]
        for d, g in enumerate(groups):
            m = ONE
            for k in reversed(g):
                coef[k] = [(d, m)]
                m = m * shape[k]
        return self.mkview(t, shape, fn, (self.zeros(t), coef), None if t.contig is None else False)

    def trivial_regroup(self, t, shape):
        a = [s for s in (self.facts.norm(x) for x in t.shape) if s != ONE]
        b = [s for s in (self.facts.norm(x) for x in shape) if s != ONE]
        return a == b

    def cat(self, ts, d, line):
        if not ts:
            raise Reject()
        n = len(ts[0].shape)
        for t in ts[1:]:
            if len(t.shape) != n:
                if len(t.shape) == 1 or n == 1:
                    raise Und("concatenation with an empty legacy tensor")
                raise Reject()
        d = self.dim(ts[0], d)
        for t in ts[1:]:
            for k in range(n):
                if k != d:
                    self.require_eq(t.shape[k], ts[0].shape[k])
        total = sum((t.shape[d] for t in ts), Poly.const(0))
        shape = list(ts[0].shape)
        shape[d] = total

        def get(idx, it):
            base = Poly.const(0)
            for t in ts:
                lo, hi = base, base + t.shape[d]
                if it.truth(Cond("ge", idx[d] - lo)) and it.truth(Cond("ge", hi - 1 - idx[d])):
                    x = list(idx)
                    x[d] = idx[d] - lo
                    return it.at(t, x)
                base = hi
            return None
        dts = {t.dtype for t in ts}
        return self.fresh(shape, get, dts.pop() if len(dts) == 1 else ("cat",) + tuple(t.dtype for t in ts), "cat", True if n <= 3 else None)

    def pad(self, t, pads, line, value=0):
        pads = [self.facts.norm(p) for p in pads]
        if len(pads) % 2 or len(pads) > 2 * len(t.shape):
            raise Reject()
        n = len(t.shape)
        before = [Poly.const(0)] * n
        shape = list(t.shape)
        for k in range(len(pads) // 2):
            d = n - 1 - k
            before[d] = pads[2 * k]
            shape[d] = shape[d] + pads[2 * k] + pads[2 * k + 1]

        def get(idx, it):
            x = []
            for d in range(n):
                i = idx[d] - before[d]
                if it.truth(Cond("ge", -i - 1)) or it.truth(Cond("ge", i - t.shape[d])):
                    return ("zero",)
                if not (it.truth(Cond("ge", i)) and it.truth(Cond("ge", t.shape[d] - 1 - i))):
                    return None
                x.append(i)
            return it.at(t, x)
        return self.fresh(shape, get, t.dtype, "pad", True if n <= 3 else None)

    def contiguous(self, t):
        if t.contig is True:
            return t
        return Tensor(t.shape, lambda idx, it: it.at(t, idx), True, t.dtype, t.name, t.arg)

    def is_contiguous(self, t):
        if t.contig is not None:
            return t.contig
        key = ("contig", id(t))
        for fk in self.forks:
            if key in fk.memo:
                return fk.memo[key]
        v = self.forks[0].next()
        self.forks[0].memo[key] = v
        t.contig = v
        if not v:
            t.contig = None
        return v

    def data_ptr(self, t, line, write):
        v = getattr(t, "view", None)
        owner = getattr(t, "owner", t)
        if v is not None:
            base, off, _ = v
            p = self.data_ptr(base, line, write)
            return self.own(Ptr(p.st, p.off + off), owner)
        if t.store is None:
            if t.contig is not True and self.dense(t) == len(t.shape):
                t.contig = True
            if t.contig is not True:
                if self.uses_strides:
                    if not t.bound or not t.arg:
                        raise Und("strided access")
                    # judged where it is indexed
                    t.store = Store(t.name, t.numel(), list(t.shape), t.get, arg=t.arg, line=line)
                    t.store.lazy = t
                    return self.own(Ptr(t.store, 0), owner)
                for prop in ("C01", "C03"):
                    self.finding(prop, "layout", f"element pointer of {t.name}, which need not be contiguous, is indexed as a dense block", line)
                raise Und("pointer to a tensor of unknown layout")
            get = t.get
            t.store = Store(t.name, t.numel(), list(t.shape), get, arg=t.arg, line=line)
        return self.own(Ptr(t.store, 0), owner)

    def stride_of(self, t, d):
        if t.contig is True:
            return Int(rowmajor(t.shape)[d])
        v = getattr(t, "view", None)
        if v is not None and (v[0].store is not None or v[0].contig is True):
            return Int(v[2][d])
        if not t.bound or not t.arg:
            raise Und("stride of a derived tensor")
        a = f"st{t.name}{d}"
        if a not in self.facts.sub and self.facts.lb.get(a, 0) <= 0:
            self.facts.lb[a] = 0
        return Int(Poly.atom(a))

    def dense(self, t):
        """Number of trailing dimensions whose strides are known to be row-major."""
        if not t.bound or not t.arg:
            return 0
        k = 0
        for d, want in list(enumerate(rowmajor(t.shape)))[::-1]:
            if not self.facts.norm(Poly.atom(f"st{t.name}{d}") - want).is_zero():
                break
            k += 1
        return k

    def lazy_access(self, st, off, line):
        """Element of a block whose layout the code looks at itself."""
        t = st.lazy
        if t.contig is True:
            return
        k = self.dense(t)
        if any(f"st{t.name}{d}" in off.atoms() for d in range(len(t.shape))):
            raise Und("strided access")
        inner = Poly.const(1)
        for s in t.shape[len(t.shape) - k:] if k else ():
            inner = inner * s
        if k == len(t.shape) or off.is_zero() or self.nn(inner - 1 - off):
            return
        for prop in ("C01", "C03"):
            self.finding(prop, "layout", f"element pointer of {t.name}, which need not be contiguous, is indexed as a dense block", line)
        raise Und("pointer to a tensor of unknown layout")

    def own(self, p, owner):
        self.ptr_owner[p.st.id] = owner
        return p

    def item(self, t, line):
        self.require_eq(t.numel(), 1)
        return Data(self.ref(self.at(t, [Poly.const(0)] * len(t.shape))))

    def ref(self, r):
        """Element atom of a reference."""
        if r is None:
            raise Und("element of unknown origin")
        if r[0] == "zero":
            return Poly.const(0)
        if r[0] == "src":
            return self.datom("src", r[1], tuple(self.facts.norm(q) for q in r[2]))
        if r[0] == "st":
            return self.datom("ld", r[1], self.facts.norm(r[2]))
        raise Und("uninitialised element")

    # -- methods ----------------------------------------------------------
    def method(self, t, name, args, targs, line):
        n = len(t.shape)
        if name.endswith("_") and not name.endswith("__") and name not in ("requires_grad_", "_"):
            if t.arg:
                self.report("C05", "mutate", f"in-place {name} on memory of the caller's argument {t.arg}", line, self.file(), self.func())
            raise Und(f"tensor method {name}")
        if name == "size":
            if not args:
                return Tup([Int(s) for s in t.shape])
            d = self.dim(t, args[0])
            if n == 0:
                raise Reject()
            return Int(t.shape[d])
        if name in ("sizes", "sym_sizes"):
            return Tup([Int(s) for s in t.shape])
        if name == "sym_size":
            return self.method(t, "size", args, targs, line)
        if name in ("dim", "ndimension"):
            return Int(n)
        if name in ("numel", "sym_numel"):
            return Int(t.numel())
        if name == "contiguous":
            return self.contiguous(t)
        if name == "is_contiguous":
            return self.is_contiguous(t)
        if name in ("stride", "sym_stride") and args:
            return self.stride_of(t, self.dim(t, args[0]))
        if name in ("strides", "sym_strides") or (name == "stride" and not args):
            return Tup([self.stride_of(t, d) for d in range(n)])
        if name == "is_non_overlapping_and_dense" and t.contig is not True:
            key = ("dense", id(t))
            fk = next((f for f in self.forks if key in f.memo), None)
            if fk is None:
                fk = self.forks[0]
                fk.memo[key] = fk.next()
                if fk.memo[key] and n <= 1:
                    t.contig = True
            return fk.memo[key]
        if name == "is_non_overlapping_and_dense":
            return True
        if name == "unsqueeze":
            return self.unsqueeze(t, self.dim(t, args[0], 1))
        if name == "squeeze":
            if not args:
                raise Und("squeeze of every unit dimension")
            d = self.dim(t, args[0])
            if not self.decide(Cond("eq", t.shape[d] - 1)):
                return t
            return self.select(t, d, Poly.const(0))
        if name in ("transpose", "swapaxes", "swapdims"):
            a, b = self.dim(t, args[0]), self.dim(t, args[1])
            o = list(range(n))
            o[a], o[b] = o[b], o[a]
            return self.permute(t, o)
        if name == "t":
            if n > 2:
                raise Reject()
            return self.permute(t, list(range(n))[::-1])
        if name in ("mT", "adjoint"):
            return self.permute(t, list(range(n - 2)) + [n - 1, n - 2])
        if name == "permute":
            ds = args if len(args) > 1 else (args[0].items if isinstance(args[0], Tup) else args)
            return self.permute(t, [self.dim(t, d) for d in ds])
        if name in ("view", "reshape"):
            ds = self.ints(args[0]) if isinstance(args[0], Tup) else [self.as_int(a).p for a in args]
            return self.view(t, ds, line, name == "reshape")
        if name == "flatten":
            a = self.dim(t, args[0]) if args else 0
            b = self.dim(t, args[1]) if len(args) > 1 else n - 1
            m = ONE
            for s in t.shape[a:b + 1]:
                m = m * s
            return self.view(t, t.shape[:a] + [m] + t.shape[b + 1:], line, True)
        if name == "slice":
            d = self.dim(t, args[0]) if args else 0
            st = self.as_int(args[1]).p if len(args) > 1 and not isinstance(args[1], Opaque) else None
            en = self.as_int(args[2]).p if len(args) > 2 and not isinstance(args[2], Opaque) else None
            if len(args) > 3 and self.as_int(args[3]).p != ONE:
                raise Und("strided slice")
            return self.slice(t, d, st, en)
        if name == "narrow":
            d = self.dim(t, args[0])
            st, ln = self.as_int(args[1]).p, self.as_int(args[2]).p
            self.require(Cond("ge", t.shape[d] - st - ln))
            self.require(Cond("ge", ln))
            return self.slice(t, d, st, st + ln)
        if name == "select":
            return self.select(t, self.dim(t, args[0]), self.as_int(args[1]).p)
        if name in ("expand",):
            return self.expand(t, self.ints(args[0]) if isinstance(args[0], Tup) else [self.as_int(a).p for a in args])
        if name == "flip":
            return self.flip(t, [self.dim(t, d) for d in (args[0].items if isinstance(args[0], Tup) else args)])
        if name in ("clone",):
            r = Tensor(t.shape, lambda idx, it: it.at(t, idx), True if t.contig else None, t.dtype, t.name)
            return r
        if name in ("data_ptr", "const_data_ptr", "mutable_data_ptr"):
            if targs and self.scalar is not None and t.dtype != self.scalar:
                if t.dtype in ("A", "z", "x") and self.scalar in ("A", "z", "x"):
                    raise Reject()        # the accessor checks the element type
                raise Und("element type")
            return self.data_ptr(t, line, name != "const_data_ptr" and (name == "mutable_data_ptr"))
        if name == "item":
            return self.item(t, line)
        if name in ("scalar_type", "dtype", "type"):
            return Opaque(("dtype", t.dtype))
        if name in ("options", "device", "layout", "key_set", "device_type", "get_device"):
            return Opaque((name, t.dtype))
        if name in ("is_complex", "is_floating_point", "is_cuda", "is_cpu", "requires_grad", "is_conj", "is_neg"):
            return Opaque((name, t.name))
        if name in ("new_empty", "new_zeros"):
            return self.alloc(self.ints(args[0]), t.dtype, name[4:])
        if name in ("resolve_conj", "resolve_neg", "detach", "defined"):
            return True if name == "defined" else t
        if name == "to" and args and isinstance(args[0], Opaque) and args[0].what == ("dtype", t.dtype):
            return t
        raise Und(f"tensor method {name}")

    def alloc(self, sizes, dtype, kind):
        z = kind == "zeros"
        return self.fresh(sizes, lambda idx, it: ("zero",) if z else ("none",), dtype, kind)

    def aten(self, name, args, targs, line):
        """Free functions of at:: / torch::."""
        f = name.split("::")[-1]
        if f in ("cat", "concat", "concatenate"):
            return self.cat(args[0].items, args[1] if len(args) > 1 else Int(0), line)
        if f == "stack":
            ts = args[0].items
            d = self.dim(ts[0], args[1] if len(args) > 1 else Int(0), 1)
            return self.cat([self.unsqueeze(t, d) for t in ts], Int(d), line)
        if f in ("pad", "constant_pad_nd"):
            return self.pad(args[0], self.ints(args[1]), line)
        if f in ("empty_like", "zeros_like"):
            t = args[0]
            r = self.alloc(t.shape, t.dtype, f.split("_")[0])
            r.contig = True if t.contig else None
            return r
        if f in ("empty", "zeros"):
            dt = next((a.what[1] for a in args[1:] if isinstance(a, Opaque) and isinstance(a.what, tuple) and a.what[0] in ("options", "dtype")), "?")
            return self.alloc(self.ints(args[0]), dt, f)
        if args and isinstance(args[0], Tensor) and f in (
                "transpose", "unsqueeze", "squeeze", "permute", "reshape", "flatten", "slice", "narrow", "select", "flip", "clone", "t"):
            return self.method(args[0], f, args[1:], targs, line)
        raise Und(f"function {name}")
