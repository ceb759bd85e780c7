"""Transfer functions for the library calls the analysed code makes."""
import itertools
from fractions import Fraction

from . import tensor as tz
from .poly import Poly, P
from .tensor import Infeasible, T, Seg, Block, AbsError, Unsupported, ZERO, ALL, mk, scalar
from . import interp as I
from . import strides


def is_t(v):
    return isinstance(v, T)


def _num(v):
    return isinstance(v, (int, float, complex, I.SInt, I.OpaqueNum)) and not isinstance(v, bool) or isinstance(v, bool)


CUTTING = {"detach", "item", "tolist", "numpy", "detach_", "cpu_numpy"}
ELEMENTWISE_OPAQUE = {
    "abs", "sqrt", "rsqrt", "exp", "log", "sin", "cos", "tanh", "sigmoid", "square", "reciprocal",
    "pow", "sign", "sgn", "angle", "clamp", "clip", "nan_to_num", "relu", "round", "floor",
    "ceil", "logical_not", "isnan", "isfinite", "log2", "log10", "log1p", "expm1", "absolute",
    "float_power", "frac", "trunc", "erf", "softmax", "sigmoid", "atan", "positive_",
}
# numbers in, numbers out, but f(c x) != c f(x)
CLIPPING = {"clamp", "clip", "clamp_min", "clamp_max", "nan_to_num", "relu", "round", "floor", "ceil", "trunc", "frac", "tanh", "sigmoid", "erf",
            "threshold", "hardtanh", "hardshrink", "softshrink", "relu6", "softplus", "gelu", "elu", "selu", "celu", "silu", "mish", "softsign",
            "tanhshrink", "logsigmoid", "leaky_relu", "dropout", "alpha_dropout"}
RANDOM = {"rand", "randn", "randint", "randperm", "normal", "bernoulli", "multinomial", "poisson", "rand_like", "randn_like", "randint_like",
          "dropout", "alpha_dropout", "feature_dropout", "rrelu", "normal_", "uniform_", "random_", "bernoulli_", "exponential_"}
GLOBAL_SETTERS = {"set_default_dtype", "set_default_device", "set_default_tensor_type", "set_num_threads", "set_num_interop_threads", "manual_seed", "seed",
                  "set_rng_state", "set_flush_denormal", "use_deterministic_algorithms", "set_float32_matmul_precision", "set_deterministic_debug_mode",
                  "set_printoptions", "set_warn_always", "set_anomaly_enabled"}
PREDICATES = {"any", "all", "isnan", "allclose", "equal", "gt", "lt", "ge", "le", "eq", "ne",
              "argsort", "argmax", "argmin", "nonzero", "count_nonzero", "searchsorted", "isfinite",
              "logical_not", "is_nonzero"}


_REGISTERED = {}


TENSOR_FIRST = {"torch." + n for n in (
    "squeeze unsqueeze flip roll narrow select flatten unflatten transpose swapaxes swapdims permute reshape matmul bmm mm mv mul add sub div "
    "neg conj real imag sum mean cumsum cumprod diff zeros_like ones_like empty_like rand_like full_like clone t diag diag_embed diagonal "
    "chunk split unbind repeat_interleave tile vander kron outer dot vdot inner gather index_select movedim moveaxis nn.functional.pad "
    "linalg.vecdot linalg.eig linalg.eigvals linalg.solve linalg.inv linalg.matrix_power linalg.norm baddbmm addmm addmv lerp where").split()}
TENSOR_FIRST -= {"torch.mul", "torch.add", "torch.sub", "torch.div"}


def registered(repo):
    if repo not in _REGISTERED:
        both = ("CPU", "CUDA")
        out = {n: both if n in ("lti_recur", "lti_recur2", "recur2") else both[:1] for n in ("lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN")}
        try:
            from .kernels import Registry
            reg = Registry(repo)
            if reg.defs and not reg.failed and not reg.opaque:
                out = {}
                for op, dev in reg.impls:
                    out[op] = out.get(op, ()) + (both if dev not in both else (dev,))
        except Exception:
            pass
        _REGISTERED[repo] = out
    return _REGISTERED[repo]


class TorchModel:
    def __init__(self, it):
        self.it = it
        self.nograd = 0
        self.nograd_stmt = 0
        self._held = None
        self.not_required = set()     # arguments that need no gradient on this path
        self.root_cplx = {}
        self.lib = {}
        self.trace = None         # what is computed, operation by operation
        self.numbers = {}
        self.keep = []

    @property
    def ops(self):
        return self.it.ops

    @property
    def F(self):
        return self.it.facts

    # ------------------------------------------------------------------ misc
    def poly(self, v, what="size"):
        p = I.as_poly(v)
        if p is None:
            if isinstance(v, T) and v.ndim == 0:
                raise Unsupported("tensor used as a size")
            raise Unsupported(f"{what}: {v!r}")
        return p

    def py(self, v, what="axis"):
        p = self.poly(v, what)
        i = self.F.norm(p).as_int()
        if i is None:
            raise Unsupported(f"{what} {v!r}")
        return i

    def axis(self, t, d, extra=0):
        return self.ops.norm_axis(t, self.py(d), extra)

    def num(self, p):
        return I.num(self.F.norm(P(p)))

    def shape(self, t):
        return I.Shape(self.num(n) for n in t.shape())

    def cut(self, v, why):
        """Detach a value from the autograd graph."""
        if isinstance(v, T):
            none = self.not_required

            def f(b):
                return b.with_(deps=frozenset((r, p, g and r in none) for r, p, g in b.deps))
            ev = frozenset()
            if any(g and r not in none for r, _, g in v.deps()):
                ev = frozenset([self.it.event("cut", why, detail="gradient path to " + ", ".join(
                    sorted({r for r, _, g in v.deps() if g and r not in none})) + " is cut")])
            r = self.ops.map_blocks(v, lambda b: f(b).with_(taint=b.taint | (ev if not b.zero else frozenset())))
            r.stor = v.stor
            return r
        if isinstance(v, I.Unknown):
            return I.Unknown(frozenset((r, p, False) for r, p, g in v.deps), v.taint, v.why)
        if isinstance(v, tuple):
            return tuple(self.cut(x, why) for x in v)
        if isinstance(v, list):
            return [self.cut(x, why) for x in v]
        return v

    def post(self, v):
        if self.nograd and isinstance(v, (T, tuple, list)):
            return self.cut(v, "no_grad region")
        return v

    def lift(self, v):
        """Python number -> 0-d abstract tensor."""
        if isinstance(v, T):
            return v
        if isinstance(v, bool):
            return scalar(int(v))
        if isinstance(v, (int, float)):
            if v == int(v) if v == v and abs(v) != float("inf") else False:
                return scalar(int(v))
            try:
                c = Fraction(str(v)) if v == v and abs(v) != float("inf") else None
            except ValueError:
                c = None
            return scalar(c)
        if isinstance(v, complex):
            if v == 0:
                return scalar(0, cplx=True)
            return scalar(None, cplx=True)
        if isinstance(v, (I.SInt, I.OpaqueNum)):
            return scalar(None)
        if isinstance(v, I.Unknown):
            raise Unsupported("unknown operand")
        raise Unsupported(f"operand {type(v).__name__}")

    # ------------------------------------------------------------- mutation
    def storage_write(self, t, what):
        for s in t.stor:
            if s.root is not None:
                ev = self.it.event("mutate", what, detail=f"writes to the caller's tensor {s.root}")
                self.it.mutations.append(ev)
            if s.saved is not None and not self.nograd:
                f, l, fn = s.saved
                ev = self.it.event("inplace-saved", what, detail=f"value kept for backward at {f}:{l} is overwritten")
                self.it.mutations.append(ev)

    def inplace(self, cur, v, what):
        self.storage_write(cur, what)
        if v is None:
            return cur
        v2 = self.ops.expand(v, cur.shape()) if v.ndim <= cur.ndim else v
        cur.axes, cur.blocks = [list(a) for a in v2.axes], dict(v2.blocks)
        cur.cplx = cur.cplx or v.cplx
        self.touch_views(cur)
        return cur

    def touch_views(self, t):
        pass

    def mutated(self, t, what):
        self.storage_write(t, what)

    def state_write(self, what):
        stack = [f for f, _ in self.it.stack if f is not None]
        if len(stack) == 1 and stack[0].name == "<module>":
            return
        ev = self.it.event("state", what, detail="state survives the call")
        self.it.mutations.append(ev)

    def outlives(self, obj):
        """Is this container held by a module, a class or a function (defaults, attributes)?"""
        mods = self.it.modules
        key = (len(mods), sum(len(m.ns) for m in mods.values()))
        if self._held is None or self._held[0] != key:
            held, todo = {}, [v for m in mods.values() for v in m.ns.values()]
            seen = set()
            while todo:
                v = todo.pop()
                if id(v) in seen:
                    continue
                seen.add(id(v))
                if isinstance(v, (list, dict, set, I.Obj)) and not isinstance(v, I.Module):
                    held[id(v)] = v
                if isinstance(v, (list, tuple, set)):
                    todo += list(v)
                elif isinstance(v, dict):
                    todo += list(v.values())
                elif isinstance(v, I.Func):
                    e = v.env
                    while e is not None and e.parent is not None:
                        todo += list(e.vars.values())
                        e = e.parent
                    todo += list(v.defaults) + list((v.kwdefaults if hasattr(v, "kwdefaults") else {}).values()) + list(v.attrs.values())
                elif isinstance(v, I.ClassVal):
                    todo += list(v.ns.values())
                elif isinstance(v, I.Obj):
                    todo += list(v.attrs.values())
                elif isinstance(v, I.Partial):
                    todo += list(v.args) + list(v.kwargs.values())
            self._held = (key, held)
        return id(obj) in self._held[1]

    def stored(self, obj, *vs):
        """A value is put into a container; does a later call find it there?"""
        if any(f is not None and f.name == "<module>" for f, _ in self.it.stack):
            return

        def tensor(v):
            if isinstance(v, (list, tuple)):
                return any(map(tensor, v))
            if isinstance(v, dict):
                return any(map(tensor, v.values()))
            return isinstance(v, (T, I.SeqVal)) or isinstance(v, I.Unknown) and bool(v.deps)
        if any(map(tensor, vs)) and self.outlives(obj):
            self.state_write("a container that outlives the call")

    # ------------------------------------------------------------- sequences
    def unbind(self, t, dim):
        d = self.axis(t, dim)
        n = self.F.norm(t.size(d))
        c = n.as_int()
        if c is not None and c <= 64:
            return tuple(self.ops.index_axis(t, d, P(k)) for k in range(c))
        if len(t.axes[d]) > 1:
            t = self.ops.coalesce(t, d, "iterated axis")
        return I.SeqVal(n, lambda p: self.ops.index_axis(t, d, P(p)), "tuple")

    def star(self, v):
        if isinstance(v, I.SeqVal):
            r = self.it.iterate(v)
            if isinstance(r, list):
                return r
            raise Unsupported("star of symbolic sequence")
        if isinstance(v, T):
            return list(self.unbind(v, 0))
        if isinstance(v, I.Unknown):
            raise Unsupported("star of unknown")
        return list(v)

    def stack_seq(self, seq, dim, what="stack"):
        """torch.stack of a symbolic-length sequence."""
        p = tz.fresh("n")
        saved = list(self.F.nn)
        self.F.lb[p] = 0
        self.F.nn.append(P(seq.length) - 1 - Poly.atom(p))
        try:
            e = seq.elem(Poly.atom(p))
        finally:
            self.F.nn = saved
        if isinstance(e, I.Unknown):
            return e
        if not isinstance(e, T):
            raise Unsupported("stack of non-tensors")
        d = dim if dim >= 0 else dim + e.ndim + 1
        axes = e.axes[:d] + [[Seg(((p, self.F.norm(seq.length)),))]] + e.axes[d:]
        blocks = {k[:d] + (0,) + k[d:]: b for k, b in e.blocks.items()}
        return self.ops.simp(T(axes, blocks, e.cplx, e.dtype, e.dev))

    def pop_factor(self, fl):
        n = self.F.norm(fl.prod)
        i = n.as_int()
        if i is not None:
            f = 2
            while i % f:
                f += 1
            return f, ([] if f == i else I.FactorList(i // f))
        k = len(self.it.learned)
        a, q = f"f{k}", f"g{k}"
        key = self.it._key("factor")
        if key not in self.it.decisions:
            at = sorted(n.atoms())
            raise I.Fork([
                ([("lb", a, 2), ("eq", n - Poly.atom(a))], {key: ("one", a, None)}),
                ([("lb", a, 2), ("lb", q, 2), ("eq", n - Poly.atom(a) * Poly.atom(q))], {key: ("two", a, q)}),
            ])
        kind, a, q = self.it.decisions[key]
        if kind == "one":
            return self.num(n), []
        return self.num(Poly.atom(a)), I.FactorList(self.F.norm(Poly.atom(q)))

    # ------------------------------------------------------------- operators
    def masked(self, *ts):
        """Truth values of tensor data take part in a computation."""
        for t in ts:
            if isinstance(t, T) and t.dtype == "B" and t.deps():
                self.it.event("branch", "where (mask)", detail="selects on the values of " + ", ".join(sorted({r for r, _, _ in t.deps()})))

    def tbinop(self, op, a, b):
        self.note(op, a, b)
        if op == "Mult" and (isinstance(a, T) and a.dtype != "B" or isinstance(b, T) and b.dtype != "B"):
            self.masked(a, b)
        try:
            return self.post(self._tbinop(op, a, b))
        except Unsupported as e:
            return self.unknown_result(f"operator {op}", [a, b], e)

    def unknown_result(self, what, vals, e):
        self.it.unknown_ops[(self.it.where()[:2], what, str(e))] = self.it.unknown_ops.get(
            (self.it.where()[:2], what, str(e)), 0) + 1
        d, t = frozenset(), frozenset()
        for v in vals:
            x, y = self.it.prov(v)
            d |= x
            t |= y
        return I.Unknown(d, t, what)

    def _tbinop(self, op, a, b):
        if isinstance(a, I.Unknown) or isinstance(b, I.Unknown):
            return self.it.merge_unknown(a, b)
        for v in (a, b):
            if v is None or isinstance(v, str):
                raise AbsError("TypeError", f"{op} of a tensor and {I.pyname(v)}", "raise")
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            raise Unsupported("tensor and sequence")
        if op == "MatMult":
            return self.ops.matmul(a, b)
        x, y = self.lift(a), self.lift(b)
        if op == "Add":
            return self.ops.add(x, y)
        if op == "Sub":
            return self.ops.add(x, y, "subtraction", sign=-1)
        if op == "Mult":
            return self.ops.mul(x, y)
        if op == "Div":
            return self.ops.mul(x, self.recip(y), "division")
        if op == "Pow":
            if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4 and is_t(a):
                if b == 0:
                    return self.opaque_like("pow", x)
                r = x
                for _ in range(b - 1):
                    r = self.ops.mul(r, x)
                return r
            return self.opaque_bin("power", x, y)
        return self.opaque_bin(op, x, y)

    def recip(self, y):
        def f(b):
            if b.zero:
                return tz.unknown_block(b.deps, b.taint)
            c = None if b.coef is None or b.coef == 0 else 1 / b.coef
            return b.with_(grade=-b.grade, coef=c)
        return self.ops.map_blocks(y, f)

    def opaque_bin(self, what, x, y):
        a, b = self.ops.broadcast(x, y, what)
        return self.ops.opaque(what, a.shape(), x, y)

    def opaque_like(self, what, t, *more):
        def f(b):
            unk = b.unk | frozenset(self.ops.weights(b.grade, frozenset())) if not b.zero else frozenset()
            deps, taint = b.deps, b.taint
            return Block(False, (), Poly(), unk, None, deps, taint)
        return self.ops.map_blocks(t, f)

    def tcompare(self, op, a, b):
        if isinstance(a, I.Unknown) or isinstance(b, I.Unknown):
            return self.it.merge_unknown(a, b)
        try:
            x, y = self.lift(a), self.lift(b)
            r = self.opaque_bin("comparison", x, y)
        except Unsupported as e:
            return self.unknown_result("comparison", [a, b], e)
        r.dtype = "B"
        r.cplx = False
        return r

    # -------------------------------------------------------------- indexing
    def bound(self, v, n, default):
        """Slice bound -> Poly in [0, n]."""
        if v is None:
            return default
        p = self.F.norm(self.poly(v, "slice bound"))
        if not self.it.decide_ge(p, 0):
            p = self.F.norm(P(n) + p)
            if not self.it.decide_ge(p, 0):
                return P(0)
            return p
        if not self.it.decide_ge(n, p):
            return self.F.norm(n)
        return p

    def pos(self, v, n):
        p = self.F.norm(self.poly(v, "index"))
        if any("#" in a for a in p.atoms()):
            return p
        neg = not self.it.decide_ge(p, 0)
        if neg:
            p = self.F.norm(P(n) + p)
            if not self.it.decide_ge(p, 0):
                raise AbsError("IndexError", f"index {v} is out of bounds for size {self.F.norm(n)}")
            return p
        if not self.it.decide_ge(P(n) - 1, p):
            raise AbsError("IndexError", f"index {v} is out of bounds for size {self.F.norm(n)}")
        return p

    def split_index(self, t, idx):
        if not isinstance(idx, tuple) or isinstance(idx, I.Shape):
            idx = (idx,)
        idx = list(idx)
        used = sum(1 for x in idx if x is not None and x is not Ellipsis)
        if Ellipsis in [x for x in idx if not isinstance(x, (T, I.SeqVal))]:
            k = next(i for i, x in enumerate(idx) if x is Ellipsis)
            idx[k:k + 1] = [slice(None)] * (t.ndim - used)
        else:
            idx = idx + [slice(None)] * (t.ndim - used)
        if sum(1 for x in idx if x is not None) > t.ndim:
            raise AbsError("IndexError", f"too many indices for a tensor with {t.ndim} axes")
        return idx

    def getitem(self, t, idx):
        self.note("[]", t, idx)
        try:
            return strides.index(self, t, idx, self.post(self._getitem(t, idx)))
        except Unsupported as e:
            return self.unknown_result("indexing", [t, idx if isinstance(idx, T) else None], e)

    def _getitem(self, t, idx):
        idx = self.split_index(t, idx)
        if any(isinstance(x, (T, list, I.SeqVal, I.Unknown)) for x in idx):
            return self.adv_getitem(t, idx)
        r = t
        ax = 0
        full_stor = t.stor
        for x in idx:
            if x is None:
                r = self.ops.unsqueeze(r, ax)
                ax += 1
            elif isinstance(x, slice):
                if x.step is not None and x.step != 1:
                    return self.strided(r, ax, x, idx)
                n = self.F.norm(r.size(ax))
                if x.start is None and x.stop is None:
                    ax += 1
                    continue
                lo = self.bound(x.start, n, P(0))
                hi = self.bound(x.stop, n, n)
                if not self.it.decide_ge(hi, lo):
                    hi = lo
                if not (self.F.eq(lo, 0) is True and self.F.eq(hi, n) is True):
                    r = self.ops.slice_axis(r, ax, lo, hi)
                ax += 1
            elif isinstance(x, bool):
                raise Unsupported("boolean index")
            else:
                p = self.pos(x, r.size(ax))
                if len(r.axes[ax]) > 1 and any("#" in a for a in p.atoms()):
                    r = self.ops.coalesce(r, ax, "indexed axis")
                r = self.ops.index_axis(r, ax, p)
        r = r.view(r.axes, r.blocks) if r is t else r
        r.stor = full_stor
        return r

    def strided(self, r, ax, x, idx):
        if sum(1 for y in idx if isinstance(y, slice) and (y.start, y.stop, y.step) != (None,) * 3) != 1 or \
                any(not isinstance(y, slice) for y in idx):
            raise Unsupported("strided slice")
        st = self.py(x.step, "step")
        if st < 1:
            raise AbsError("ValueError", "step must be greater than zero")
        r = self.ops.coalesce(r, ax, "strided axis")
        n = r.size(ax)
        lo = self.bound(x.start, n, P(0))
        hi = self.bound(x.stop, n, n)
        q, rem = self.it.divmod(self.F.norm(hi - lo), P(st))
        cnt = q if self.F.eq(rem, 0) is True else q + 1
        a = tz.fresh()
        s = r.axes[ax][0]
        axes = [list(y) for y in r.axes]
        axes[ax] = [Seg(((a, self.F.norm(cnt)),))]
        env = {s.factors[0][0]: Poly.atom(a) * st + lo} if s.factors else {}
        return self.ops.simp(r.view(axes, {k: b.subst(env) for k, b in r.blocks.items()}))

    def adv_getitem(self, t, idx):
        if sum(1 for x in idx if isinstance(x, (T, list, I.SeqVal, I.Unknown))) == 1 and \
                all(x is None or isinstance(x, (slice, T, list, I.SeqVal)) for x in idx):
            k = next(i for i, x in enumerate(idx) if isinstance(x, (T, list, I.SeqVal)))
            x = idx[k]
            rest = [slice(None) if i == k else y for i, y in enumerate(idx)]
            if isinstance(x, list) and all(isinstance(y, (int, I.SInt)) for y in x):
                r = self._getitem(t, tuple(rest))
                ax = sum(1 for y in idx[:k])
                parts = [self.ops.unsqueeze(self.ops.index_axis(r, ax, self.pos(y, r.size(ax))), ax) for y in x]
                return self.ops.cat(parts, ax)
        ds = t.deps()
        tt = t.taint()
        for x in idx:
            a, b = self.it.prov(x)
            ds |= a
            tt |= b
        return I.Unknown(ds, tt, "advanced index")

    def setitem(self, t, idx, v):
        self.note("[]=", t, idx, v)
        self.masked(idx, *(idx if isinstance(idx, tuple) else ()))
        self.storage_write(t, "item assignment")
        try:
            r = self._setitem(t, idx, v)
            t.axes, t.blocks = [list(a) for a in r.axes], dict(r.blocks)
        except Unsupported as e:
            u = self.unknown_result("item assignment", [t, v], e)
            b = tz.unknown_block(u.deps, u.taint)
            t.blocks = {k: b for k in t.blocks}
        if isinstance(v, T):
            ex = self.ops.check_mix("item assignment", t, v)
            if ex:
                t.blocks = {k: b.with_(taint=b.taint | ex) for k, b in t.blocks.items()}

    def _setitem(self, t, idx, v):
        if isinstance(v, I.Unknown):
            raise Unsupported("unknown value")
        val = self.lift(v)
        if isinstance(v, T) and v.cplx and not t.cplx:
            ev = self.it.event("complex", "item assignment", detail="complex values stored in a real tensor")
            val = self.ops.map_blocks(val, lambda b: b.with_(taint=b.taint | {ev}))
        idx = self.split_index(t, idx)
        if isinstance(idx[0], T) and idx[0].dtype == "B":
            raise Unsupported("masked assignment")
        adv = [k for k, x in enumerate(idx) if isinstance(x, (list, I.SeqVal))]
        if any(isinstance(x, (T, I.Unknown)) for x in idx):
            raise Unsupported("tensor index")
        if adv:
            return self.set_diag(t, idx, adv, val)
        return self.write(t, 0, [x for x in idx], val)

    def write(self, t, ax, idx, val):
        """Copy of t with val written at idx (idx applies from axis ax on)."""
        for j, x in enumerate(idx):
            if x is None:
                raise Unsupported("newaxis in assignment")
            n = t.size(ax + j)
            if isinstance(x, slice):
                if x.step not in (None, 1):
                    raise Unsupported("strided assignment")
                lo = self.bound(x.start, n, P(0))
                hi = self.bound(x.stop, n, n)
                if not self.it.decide_ge(hi, lo):
                    hi = lo
                if self.F.eq(lo, 0) is True and self.F.eq(hi, self.F.norm(n)) is True:
                    continue
                v2 = val
            else:
                lo = self.pos(x, n)
                hi = self.F.norm(lo + 1)
                # give the value an axis for the indexed one
                back = sum(1 for y in idx[j + 1:] if isinstance(y, slice))
                v2 = val
                if val.ndim >= back:
                    v2 = self.ops.unsqueeze(val, val.ndim - back)
            pre = self.ops.slice_axis(t, ax + j, P(0), lo)
            mid = self.ops.slice_axis(t, ax + j, lo, hi)
            post = self.ops.slice_axis(t, ax + j, hi, self.F.norm(n))
            mid = self.write(mid, ax + j + 1, idx[j + 1:], v2)
            parts = [p for p in (pre, mid, post) if self.F.eq(p.size(ax + j), 0) is not True]
            r = self.ops.cat(parts, ax + j, "item assignment") if len(parts) > 1 else parts[0]
            r.stor, r.dtype, r.dev, r.cplx = t.stor, t.dtype, t.dev, t.cplx
            return r
        v = val
        if v.ndim > t.ndim:
            raise AbsError("RuntimeError", "assigned value has too many axes")
        v = self.ops.expand(v, t.shape())
        r = T(v.axes, v.blocks, t.cplx, t.dtype, t.dev, t.stor)
        return r

    def set_diag(self, t, idx, adv, val):
        if len(adv) != 2 or adv[1] != adv[0] + 1 or any(
                not isinstance(x, slice) or (x.start, x.stop) != (None, None) for k, x in enumerate(idx) if k not in adv):
            raise Unsupported("advanced assignment")
        a, b = idx[adv[0]], idx[adv[1]]
        ax = adv[0]

        def affine(s):
            if isinstance(s, list):
                if not s:
                    return P(0), P(0), None
                ps = [self.poly(x) for x in s]
                if any(self.F.eq(q - p, 1) is not True for p, q in zip(ps, ps[1:])):
                    raise Unsupported("non-contiguous advanced index")
                return P(len(s)), ps[0], True
            e0, e1 = s.elem(P(0)), s.elem(P(1))
            p0, p1 = self.poly(e0), self.poly(e1)
            if self.F.eq(p1 - p0, 1) is not True:
                raise Unsupported("advanced index")
            return s.length, p0, True
        na, a0, oka = affine(a)
        nb, b0, okb = affine(b)
        if self.F.eq(na, nb) is not True:
            raise AbsError("IndexError", "advanced index lengths differ")
        if self.it.decide_eq(na, 0):
            return t
        if not self.it.decide_ge(t.size(ax), a0 + na) or not self.it.decide_ge(t.size(ax + 1), b0 + nb):
            raise AbsError("IndexError", "advanced index out of range")
        if val.ndim:
            raise Unsupported("tensor written on a diagonal")
        vb = val.blocks[()]
        t2, k1 = self.ops.locate(self.ops.simp(t), ax, a0)
        t2, k2 = self.ops.locate(t2, ax, self.F.norm(a0 + na))
        t2, k1 = self.ops.locate(t2, ax, a0)
        if k2 != k1 + 1:
            raise Unsupported("diagonal across segments")
        t2 = self.ops.coalesce(t2, ax + 1, "diagonal") if len(t2.axes[ax + 1]) > 1 else t2
        row, col = t2.axes[ax][k1], t2.axes[ax + 1][0]
        ra = Poly.atom(row.factors[0][0]) if row.factors else P(0)
        ca = Poly.atom(col.factors[0][0]) if col.factors else P(0)
        blocks = {}
        for key, blk in t2.blocks.items():
            if key[ax] != k1:
                blocks[key] = blk
                continue
            if not blk.zero:
                raise Unsupported("diagonal over non-zero values")
            sup = self.F.norm((ca - b0) - ra)
            blocks[key] = vb.with_(support=() if sup.is_zero() else (sup,)) if not vb.zero else blk
            if sup.is_const() and not sup.is_zero():
                blocks[key] = blk
        return T(t2.axes, blocks, t.cplx, t.dtype, t.dev, t.stor)

    # ------------------------------------------------------------ attributes
    def tattr(self, t, a):
        if a == "shape":
            return self.shape(t)
        if a == "ndim":
            return t.ndim
        if a == "dtype":
            d = I.DType(t.dtype or "F")
            d.cplx = t.cplx
            return d
        if a == "device":
            return I.Device(t.dev or "D")
        if a in ("mT", "mH", "H"):
            if t.ndim < 2:
                raise AbsError("RuntimeError", f".{a} needs at least two axes")
            try:
                r = self.ops.transpose(t, t.ndim - 1, t.ndim - 2)
            except Unsupported as e:
                return self.unknown_result(a, [t], e)
            return self.ops.conj(r) if a != "mT" else r
        if a == "T":
            return self.ops.permute(t, list(range(t.ndim))[::-1])
        if a in ("real", "imag"):
            return self.re(t, a)
        if a in ("is_cuda", "is_cpu"):
            return (self.it.world["device"] == "cuda") == (a == "is_cuda")
        if a == "requires_grad":
            roots = {r for r, _, g in t.deps() if g}
            if not roots or roots <= self.not_required:
                return False
            if self.it.choose("cond", 2) == 1:
                return True
            self.not_required |= roots
            return False
        if a == "data":
            return self.cut(t, ".data")
        if a in ("grad", "grad_fn", "layout", "is_sparse", "names", "itemsize", "nbytes"):
            return I.Unknown(why=a)
        return I.Method(t, a)

    def re(self, t, a):
        if not t.cplx:
            if a == "imag":
                raise AbsError("RuntimeError", "imag of a real tensor")
            return t
        ev = None
        cx = sorted({r for r, _, _ in t.deps() if self.root_cplx.get(r)})
        if cx:
            ev = self.it.event("complex", f".{a}", detail="drops part of a value that depends on complex " + ", ".join(cx))

        def f(b):
            if b.zero:
                return b
            deps = frozenset((r, q, g) for r, p, g in b.deps for q in ("p",))
            return b.with_(coef=None if b.coef is None else b.coef, deps=deps,
                           taint=b.taint | ({ev} if ev else frozenset()))
        dt = {"CX": "X", "CF": "F"}.get(t.dtype, t.dtype)
        r = self.ops.map_blocks(t, f, cplx=False, dtype=dt)
        r.stor = t.stor
        return r

    def refattr(self, path):
        it = self.it
        tail = path.split(".")[-1]
        if path.startswith("philtorch."):
            m = it.module(".".join(path.split(".")[:-1]))
            return m.ns[tail]
        if path.startswith("torch.") and tail in ("float", "float32", "float64", "double", "half", "complex64",
                                                 "complex128", "long", "int", "int64", "int32", "bool", "cfloat", "cdouble") \
                and path.count(".") == 1:
            name = {"long": "L", "int": "L", "int64": "L", "int32": "L", "bool": "B"}.get(tail)
            if name is None:
                name = "CF" if tail.startswith("c") else "F"
            d = I.DType(name)
            d.cplx = tail.startswith("c")
            return d
        if path in ("math.pi", "torch.pi", "math.e", "torch.inf", "math.inf"):
            return 3.1415
        if path == "torch.Tensor" or path.startswith("typing."):
            return I.Ref(path)
        return I.Ref(path)

    # ---------------------------------------------------------------- trace
    def show(self, v):
        if isinstance(v, T):
            if id(v) not in self.numbers:
                self.numbers[id(v)] = len(self.numbers)
                self.keep.append(v)
            return f"t{self.numbers[id(v)]}" + repr(tuple(v.shape()))
        if isinstance(v, (tuple, list)):
            return "(" + ",".join(map(self.show, v)) + ")"
        if isinstance(v, dict):
            return "{" + ",".join(f"{k}:{self.show(x)}" for k, x in sorted(v.items(), key=str)) + "}"
        if isinstance(v, (int, float, complex, str, bool, type(None), I.SInt, Fraction)):
            return repr(v)
        if isinstance(v, slice):
            return f"[{self.show(v.start)}:{self.show(v.stop)}:{self.show(v.step)}]"
        return type(v).__name__

    def note(self, what, *vals):
        if self.trace is not None:
            self.trace.append((what,) + tuple(self.show(v) for v in vals))

    # ---------------------------------------------------------------- calls
    def call_ref(self, path, args, kwargs):
        it = self.it
        self.note(path, args, kwargs)
        name = path.split(".")[-1]
        if args and path in TENSOR_FIRST and (args[0] is None or isinstance(args[0], (int, float, str, tuple, list, I.SInt))):
            raise AbsError("TypeError", f"{path}: first argument is {I.pyname(args[0])}, not a tensor", "raise")
        try:
            r = self._call_ref(path, name, args, kwargs)
        except Unsupported as e:
            vals = list(args) + list(kwargs.values())
            return self.unknown_result(path, vals, e)
        return self.post(r)

    def call_method(self, obj, name, args, kwargs):
        self.note("." + name, obj, args, kwargs)
        try:
            r = self._call_method(obj, name, args, kwargs)
        except Unsupported as e:
            return self.unknown_result("." + name, [obj] + list(args) + list(kwargs.values()), e)
        return self.post(r)

    def arg(self, args, kwargs, i, names, default=None):
        if isinstance(names, str):
            names = (names,)
        for n in names:
            if n in kwargs:
                return kwargs[n]
        if i is not None and i < len(args):
            return args[i]
        return default

    def _call_ref(self, path, name, args, kwargs):
        it = self.it
        root = path.split(".")[0]
        if root == "builtins":
            return self.builtin(name, args, kwargs)
        if root in ("collections", "weakref") and name in ("OrderedDict", "defaultdict", "WeakKeyDictionary", "WeakValueDictionary"):
            return {}
        if root == "collections" and name == "deque":
            return []
        if root == "functools":
            if name == "partial":
                return I.Partial(args[0], args[1:], kwargs)
            if name == "reduce":
                seq = it.iterate(args[1])
                if not isinstance(seq, list):
                    raise Unsupported("reduce over symbolic sequence")
                acc = args[2] if len(args) > 2 else seq.pop(0)
                for x in seq:
                    acc = it.call(args[0], [acc, x], {})
                return acc
            if name in ("lru_cache", "cache"):
                self_it = it
                ev_holder = self

                def deco(a, k):
                    ev_holder.memo(a[0] if a else None)
                    return a[0]
                if args and isinstance(args[0], I.Func):
                    self.memo(args[0])
                    return args[0]
                return I.Builtin("lru_cache", deco)
            if name == "wraps":
                return I.Builtin("wraps", lambda a, k: a[0])
        if root == "itertools":
            if name == "accumulate":
                seq = it.iterate(args[0])
                f = args[1] if len(args) > 1 else kwargs.get("func")
                if isinstance(seq, list):
                    out = []
                    for x in seq:
                        out.append(x if not out else it.call(f, [out[-1], x], {}))
                    return out
                return it.accumulate(seq, lambda a, b: it.call(f, [a, b], {}), "accumulate")
            if name == "chain":
                out = []
                for a in args:
                    s = it.iterate(a)
                    if not isinstance(s, list):
                        raise Unsupported("chain")
                    out += s
                return out
            if name == "starmap":
                return [it.call(args[0], list(x), {}) for x in it.iterate(args[1])]
            if name == "repeat" and len(args) == 2:
                n = self.F.norm(self.poly(args[1]))
                if n.as_int() is not None:
                    return [args[0]] * n.as_int()
                return I.SeqVal(n, lambda p: args[0])
            raise Unsupported(path)
        if root == "operator":
            opn = {"add": "Add", "mul": "Mult", "sub": "Sub", "matmul": "MatMult", "truediv": "Div"}.get(name)
            if opn:
                return it.binop(opn, args[0], args[1])
            raise Unsupported(path)
        if root == "warnings":
            return None
        if root == "sympy" and name == "factorint":
            n = self.F.norm(self.poly(args[0]))
            i = n.as_int()
            if i is not None:
                fs, f = [], 2
                while i > 1:
                    while i % f == 0:
                        fs.append(f)
                        i //= f
                    f += 1
                return fs
            return I.FactorList(n)
        if root == "math":
            if name == "prod":
                s = it.iterate(args[0])
                r = 1
                for x in s:
                    r = it.binop("Mult", r, x)
                return r
            if name in ("ceil", "floor", "sqrt", "isqrt") and isinstance(args[0], (I.SInt, I.OpaqueNum, int, float)):
                if name in ("isqrt", "ceil", "floor"):
                    return self.roundnum(args[0], name)
                return I.OpaqueNum("sqrt") if not isinstance(args[0], I.SInt) else self.sqrtnum(args[0])
            return I.OpaqueNum(name)
        if root == "torchlpc":
            return self.lpc(args, kwargs)
        if root == "pathlib" or root == "os" or root == "sys":
            return I.Unknown(why=path)
        if path.startswith("torch.ops."):
            return self.native(path, name, args, kwargs)
        if path.startswith("torch.library"):
            return self.library(name, args, kwargs)
        if path.startswith("torch.linalg."):
            return self.linalg(name, args, kwargs)
        if path.startswith("torch.nn.functional."):
            return self.functional(name, args, kwargs)
        if name == "once_differentiable" and args and isinstance(args[0], I.Func):
            it.event("once", "once_differentiable", detail=f"{args[0].name} cannot be differentiated again")
            return args[0]
        if path.startswith("torch.autograd"):
            if name == "grad_mode" or name in ("no_grad", "inference_mode"):
                return I.Unknown(why="no_grad")
            raise Unsupported(path)
        if root == "torch":
            return self.torchfn(name, args, kwargs)
        raise Unsupported(path)

    def memo(self, f):
        if isinstance(f, I.Func):
            f.attrs["__memo__"] = True

    def sqrtnum(self, v):
        o = I.OpaqueNum("sqrt")
        o.arg = v.p
        return o

    def roundnum(self, v, name):
        """round(N**0.5) and similar: some integer between 1 and N."""
        src = getattr(v, "arg", None)
        if isinstance(v, (int, float)):
            import math
            return {"round": round, "ceil": math.ceil, "floor": math.floor, "isqrt": math.isqrt, "int": int}[name](v)
        if src is None and isinstance(v, I.SInt) and name == "isqrt":
            src = v.p
        if src is not None and self.F.norm(src).as_int() is not None:
            return {"round": round, "int": int, "ceil": lambda z: -int(-z // 1), "floor": int, "isqrt": int}[name](
                self.F.norm(src).as_int() ** 0.5)
        if src is not None:
            key = "usqrt"
            if key not in self.it.__dict__:
                self.it.__dict__[key] = {}
            tab = self.it.__dict__[key]
            k = repr(self.F.norm(src))
            if k not in tab:
                a = "U" if not tab else f"U{len(tab)}"
                tab[k] = a
                self.F.nn.append(P(src) - Poly.atom(a))
            return I.num(self.F.norm(Poly.atom(tab[k])))
        return I.OpaqueNum(name)

    def builtin(self, name, args, kwargs):
        it = self.it
        a0 = args[0] if args else None
        if name == "len":
            if isinstance(a0, T):
                if a0.ndim == 0:
                    raise AbsError("TypeError", "len() of a 0-d tensor")
                return self.num(a0.size(0))
            if isinstance(a0, (list, tuple, dict, str)):
                return len(a0)
            if isinstance(a0, I.SeqVal):
                return self.num(a0.length)
            if isinstance(a0, I.FactorList):
                return I.SInt(Poly.atom("nfactors"))
            raise Unsupported("len")
        if name == "range":
            ps = [self.F.norm(self.poly(x)) for x in args]
            lo, hi, st = (P(0), ps[0], P(1)) if len(ps) == 1 else (ps[0], ps[1], P(1)) if len(ps) == 2 else ps
            s = st.as_int()
            if s is None:
                raise Unsupported("range step")
            if lo.as_int() is not None and hi.as_int() is not None:
                return list(range(lo.as_int(), hi.as_int(), s))
            if s == 1:
                if not it.decide_ge(hi, lo):
                    return []
                n = self.F.norm(hi - lo)
                if n.as_int() is not None:
                    return [self.num(lo + k) for k in range(n.as_int())]
                return I.SeqVal(n, lambda p: self.num(lo + P(p)))
            if s == -1:
                if not it.decide_ge(lo, hi):
                    return []
                n = self.F.norm(lo - hi)
                return I.SeqVal(n, lambda p: self.num(lo - P(p)))
            if s > 1:
                if not it.decide_ge(hi, lo):
                    return []
                q, r = it.divmod(self.F.norm(hi - lo), P(s))
                n = q if self.F.eq(r, 0) is True else q + 1
                return I.SeqVal(n, lambda p: self.num(lo + P(p) * s))
            raise Unsupported("range")
        if name in ("zip",):
            seqs = [it.iterate(a) for a in args]
            if all(isinstance(s, list) for s in seqs):
                return [tuple(x) for x in zip(*seqs)]
            ln = None
            for s in seqs:
                l = P(len(s)) if isinstance(s, list) else s.length
                if ln is None:
                    ln = l
                elif self.F.eq(ln, l) is not True:
                    e = self.F.eq(ln, l)
                    if it.decide_ge(l, ln):
                        pass
                    else:
                        ln = l
            if any(isinstance(s, list) for s in seqs):
                raise Unsupported("zip of mixed sequences")
            return I.SeqVal(ln, lambda p: tuple(s.elem(p) for s in seqs), "tuple")
        if name == "enumerate":
            s = it.iterate(a0)
            if isinstance(s, list):
                return [(i, x) for i, x in enumerate(s)]
            return I.SeqVal(s.length, lambda p: (self.num(P(p)), s.elem(p)))
        if name in ("list", "tuple"):
            if a0 is None:
                return [] if name == "list" else ()
            if isinstance(a0, I.SeqVal):
                return a0
            if isinstance(a0, I.FactorList):
                return a0
            r = it.iterate(a0)
            if not isinstance(r, list):
                return r
            return list(r) if name == "list" else tuple(r)
        if name == "reversed":
            s = it.iterate(a0)
            if isinstance(s, list):
                return s[::-1]
            return I.SeqVal(s.length, lambda p: s.elem(self.F.norm(s.length - 1 - P(p))))
        if name == "map":
            s = it.iterate(args[1])
            if len(args) != 2:
                raise Unsupported("map")
            if isinstance(s, list):
                return [it.call(args[0], [x], {}) for x in s]
            return I.SeqVal(s.length, lambda p: it.call(args[0], [s.elem(p)], {}))
        if name == "isinstance":
            return self.isinst(a0, args[1])
        if name in ("max", "min"):
            vals = list(args) if len(args) > 1 else it.iterate(a0)
            if not isinstance(vals, list):
                raise Unsupported("max of sequence")
            if all(I.as_poly(v) is not None for v in vals):
                best = I.as_poly(vals[0])
                for v in vals[1:]:
                    p = I.as_poly(v)
                    ge = it.decide_ge(best, p)
                    if (name == "max") != ge:
                        best = p
                return self.num(best)
            if all(isinstance(v, (int, float)) for v in vals):
                return max(vals) if name == "max" else min(vals)
            return I.OpaqueNum(name)
        if name == "abs":
            if isinstance(a0, T):
                return self.call_method(a0, "abs", [], {})
            if isinstance(a0, I.SInt):
                return a0 if it.decide_ge(a0.p, 0) else self.num(-a0.p)
            if isinstance(a0, (int, float)):
                return abs(a0)
            return I.OpaqueNum("abs")
        if name == "round":
            return self.roundnum(a0, "round")
        if name in ("int", "float", "bool"):
            if isinstance(a0, T):
                d, t = a0.deps(), a0.taint()
                if d:
                    ev = self.it.event("cut", f"{name}()", detail="tensor value turned into a Python number")
                    return I.Unknown(frozenset((r, p, False) for r, p, g in d), t | {ev}, "number")
                return I.OpaqueNum(name)
            if isinstance(a0, (int, float, str)) and not isinstance(a0, str):
                return {"int": int, "float": float, "bool": bool}[name](a0)
            if name == "int" and isinstance(a0, I.OpaqueNum):
                return self.roundnum(a0, "int")
            if name == "bool":
                return it.truth(a0)
            return a0
        if name == "sum":
            s = it.iterate(a0)
            acc = args[1] if len(args) > 1 else kwargs.get("start", 0)
            if isinstance(s, list):
                for x in s:
                    acc = it.binop("Add", acc, x)
                return acc
            e = s.elem(P(0))
            if isinstance(e, T):
                st = self.stack_seq(s, 0)
                r = self.ops.sum_axis(st, 0)
                return r if acc == 0 else it.binop("Add", acc, r)
            raise Unsupported("sum of symbolic sequence")
        if name == "slice" and args and not kwargs:
            return slice(*args)
        if name == "divmod" and len(args) == 2:
            return (it.binop("FloorDiv", *args), it.binop("Mod", *args))
        if name == "pow" and len(args) == 2:
            return it.binop("Pow", *args)
        if name in ("id", "hash"):
            return I.OpaqueNum(name)
        if name == "callable":
            return isinstance(a0, (I.Func, I.Builtin, I.Partial, I.ClassVal))
        if name in ("repr", "format", "ascii", "chr"):
            return "<str>"
        if name == "filter":
            s = it.iterate(args[1])
            if isinstance(s, list):
                return [x for x in s if it.truth(x if a0 is None else it.call(a0, [x], {}))]
        if name == "complex" and all(isinstance(v, (int, float, complex)) for v in args):
            return complex(*args)
        if name in ("any", "all"):
            s = it.iterate(a0)
            if isinstance(s, list):
                r = [it.truth(x) for x in s]
                return any(r) if name == "any" else all(r)
            if isinstance(a0, I.SeqVal):
                return I.Unknown(why=name)
            raise Unsupported(name)
        if name in ("getattr",):
            try:
                return it.getattr(args[0], args[1])
            except (Unsupported, AbsError, KeyError):
                if len(args) > 2:
                    return args[2]
                raise
        if name == "hasattr":
            return I.Unknown(why="hasattr")
        if name in ("str", "print", "type", "repr"):
            return I.Unknown(why=name)
        if name == "dict":
            d = dict(a0) if isinstance(a0, dict) else {}
            d.update(kwargs)
            return d
        if name == "sorted":
            return a0
        if name == "set":
            return list(a0) if a0 is not None else []
        if name.endswith("Error") or name in ("Exception", "UserWarning"):
            return I.Unknown(why=name)
        raise Unsupported(name)

    def isinst(self, v, cls):
        cs = cls if isinstance(cls, (tuple, list)) else (cls,)
        out = False
        for c in cs:
            n = c.path.split(".")[-1] if isinstance(c, I.Ref) else getattr(c, "name", "?")
            if n == "Tensor":
                out |= isinstance(v, T)
                if isinstance(v, I.Unknown):
                    return I.Unknown(why="isinstance")
            elif n == "tuple":
                out |= isinstance(v, tuple)
            elif n == "list":
                out |= isinstance(v, (list, I.SeqVal))
            elif n == "int":
                out |= isinstance(v, (int, I.SInt))
            elif n == "float":
                out |= isinstance(v, (float, I.OpaqueNum))
            elif n == "str":
                out |= isinstance(v, str)
            elif n == "dict":
                out |= isinstance(v, dict)
            else:
                return I.Unknown(why="isinstance")
        return out

    # -------------------------------------------------------------- creation
    def create(self, shape, fill, args_kw, like=None, prefix="i"):
        dt = args_kw.get("dtype")
        dev = args_kw.get("device")
        if isinstance(dt, I.DType):
            dtype, cplx = dt.name, getattr(dt, "cplx", False)
        elif isinstance(dt, I.Unknown):
            dtype, cplx = None, False
        elif like is not None:
            dtype, cplx = like.dtype, like.cplx
        else:
            dtype, cplx = "F", False
        if isinstance(dev, I.Device):
            d = dev.name
        elif isinstance(dev, I.Unknown):
            d = None
        elif dev is not None:
            d = "D"
        elif like is not None:
            d = like.dev
        else:
            d = "D"
        if self.it.world["device"] == "cpu" and d == "D" and False:
            d = "X"
        shp = [self.F.norm(self.poly(s)) for s in shape]
        for s in shp:
            if self.F.ge(s, 0) is False:
                raise AbsError("RuntimeError", f"negative size {s}")
            if self.F.ge(s, 0) is None:
                if not self.it.decide_ge(s, 0):
                    raise AbsError("RuntimeError", f"negative size {s}")
        if fill == 0:
            r = mk(shp, None, cplx=cplx, dtype=dtype, dev=d)
        elif fill is None:
            r = mk(shp, lambda ix: tz.unknown_block(), cplx=cplx, dtype=dtype, dev=d)
        else:
            c = Fraction(fill) if isinstance(fill, (int, Fraction)) else None
            r = mk(shp, lambda ix: Block(coef=c), cplx=cplx, dtype=dtype, dev=d)
        if args_kw.get("memory_format") is None or "contiguous" in repr(args_kw["memory_format"]):
            r.strides = "dense"
        return r

    def shape_args(self, args):
        if len(args) == 1 and isinstance(args[0], (tuple, list)):
            return list(args[0])
        out = []
        for a in args:
            if isinstance(a, (tuple, list)):
                raise Unsupported("shape")
            out.append(a)
        return out

    def clipped(self, name, t, args, kwargs):
        """A clipping or saturating function of something that scales with the signal."""
        r = self.opaque_like(name, t)
        if any(is_t(x) or isinstance(x, I.Unknown) for x in list(args) + list(kwargs.values())):
            return r
        bad = set()
        for b in t.blocks.values():
            if not b.zero:
                bad |= {w for w in self.ops.weights(b.grade, b.unk) if w.startswith("w:lin")}
        if bad:
            ev = self.it.event("grade", name, weights=frozenset(bad), detail=f"{name} is not homogeneous in its argument")
            r = self.ops.map_blocks(r, lambda b: b.with_(taint=b.taint | {ev}))
        return r

    def random(self, name):
        self.state_write(f"random numbers ({name})")

    def torchfn(self, name, args, kwargs):
        it, ops = self.it, self.ops
        if name in RANDOM:
            self.random(name)
        if name in GLOBAL_SETTERS:
            self.state_write(f"global setting torch.{name}")
            return None
        if name == "finfo":
            return I.Finfo()
        a = lambda i, n, d=None: self.arg(args, kwargs, i, n, d)
        if name in ("no_grad", "inference_mode"):
            return I.Unknown(why="no_grad")
        if name == "set_grad_enabled" and args and args[0] is False:
            return I.Unknown(why="no_grad")
        if name in ("enable_grad", "set_grad_enabled"):
            return I.Unknown(why="grad_mode")
        if name == "_check" or name == "_check_value":
            c = args[0]
            if isinstance(c, (I.Unknown, I.OpaqueNum, T)):
                return None
            if not it.truth(c):
                raise AbsError("RuntimeError", "torch._check fails", "raise")
            return None
        if name in ("cat", "concat", "concatenate"):
            seq = a(0, "tensors")
            seq = it.iterate(seq)
            dim = a(1, ("dim", "axis"), 0)
            if not isinstance(seq, list):
                e = seq.elem(P(0))
                if isinstance(e, T):
                    d = self.axis(e, dim)
                    st = self.stack_seq(seq, d)
                    return ops.flatten(st, d, d + 1)
                raise Unsupported("cat of symbolic sequence")
            if any(isinstance(x, I.Unknown) for x in seq):
                return it.merge_unknown(*seq)
            if not seq:
                raise AbsError("RuntimeError", "cat of an empty list")
            return ops.cat(seq, ops.norm_axis(max(seq, key=lambda x: x.ndim), self.py(dim)))
        if name in ("stack", "vstack", "hstack"):
            seq = it.iterate(a(0, "tensors"))
            dim = self.py(a(1, "dim", 0))
            if isinstance(seq, list) and any(isinstance(x, I.Unknown) for x in seq):
                return it.merge_unknown(*seq)
            if name == "hstack":
                dim = 0 if seq[0].ndim == 1 else 1
                return ops.cat(seq, dim)
            if name == "vstack":
                seq = [ops.unsqueeze(x, 0) if x.ndim == 1 else x for x in seq]
                return ops.cat(seq, 0)
            if isinstance(seq, list):
                if not seq:
                    raise AbsError("RuntimeError", "stack expects a non-empty list")
                d = dim if dim >= 0 else dim + seq[0].ndim + 1
                for x in seq[1:]:
                    if x.ndim != seq[0].ndim:
                        raise AbsError("RuntimeError", "stack expects equal shapes")
                return ops.cat([ops.unsqueeze(x, d) for x in seq], d, "stack")
            return self.stack_seq(seq, dim)
        if name in ("zeros", "ones", "empty", "rand", "randn"):
            shp = self.shape_args(args) if args else list(kwargs["size"])
            return self.create(shp, {"zeros": 0, "ones": 1}.get(name), kwargs)
        if name == "empty_strided":
            r = self.create(list(args[0]), None, kwargs)
            r.strides = [self.poly(q) for q in args[1]]
            return r
        if name == "full":
            return self.create(list(args[0]), args[1], kwargs)
        if name in ("zeros_like", "ones_like", "empty_like", "full_like", "rand_like"):
            x = args[0]
            if isinstance(x, I.Unknown):
                return I.Unknown(why="like")
            fill = {"zeros_like": 0, "ones_like": 1}.get(name)
            if name == "full_like":
                fill = args[1]
            r = self.create(self.shape(x), fill, kwargs, like=x)
            r.layout = ("like", x)
            if kwargs.get("memory_format") is None or "preserve" in repr(kwargs["memory_format"]):
                r.strides = ("like", x)
            if kwargs.get("memory_format") is not None:
                r.layout = "contig" if "contiguous" in repr(kwargs["memory_format"]) and "preserve" not in repr(kwargs["memory_format"]) else r.layout
            return r
        if name == "eye":
            n = a(0, "n")
            m = a(1, "m", n)
            r = self.create([n, m], 0, kwargs)
            if self.F.eq(self.poly(n), self.poly(m)) is not True:
                raise Unsupported("rectangular eye")
            i, j = tz.seg1(r.size(0)), tz.seg1(r.size(1))
            ia = Poly.atom(i.factors[0][0]) if i.factors else P(0)
            ja = Poly.atom(j.factors[0][0]) if j.factors else P(0)
            sup = (ia - ja,) if i.factors else ()
            return T([[i], [j]], {(0, 0): Block(support=sup)}, r.cplx, r.dtype, r.dev)
        if name == "arange":
            return self.arange(args, kwargs)
        if name == "tensor" or name == "as_tensor" or name == "scalar_tensor":
            v = args[0]
            if isinstance(v, T):
                return self.cut(v, "torch.tensor copy") if name == "tensor" else v
            if isinstance(v, (list, tuple)):
                flat = list(v)
                if any(isinstance(x, (T, I.Unknown)) for x in flat):
                    d, t = it.prov(flat)
                    return self.cut(I.Unknown(d, t, "tensor"), "torch.tensor")
                if any(isinstance(x, (list, tuple)) for x in flat):
                    raise Unsupported("nested literal")
                r = self.create([len(flat)], None, kwargs)
                r.blocks = {k: Block(coef=None) for k in r.blocks}
                return r
            r = self.create([], None, kwargs)
            if isinstance(v, (int, float)) and "dtype" not in kwargs and name == "tensor" and isinstance(v, int):
                r.dtype = "L"
            r.blocks = {(): scalar(v if isinstance(v, int) and not isinstance(v, bool) else None).blocks[()]}
            return r
        if name == "where":
            if len(args) == 1:
                return I.Unknown(*it.prov(args[0]), "where")
            c, x, y = args[0], self.lift(args[1]), self.lift(args[2])
            if isinstance(c, I.Unknown):
                return it.merge_unknown(c, args[1], args[2])
            b1, b2 = ops.broadcast(x, y, "where")
            j = ops.join(b1, b2, "where")
            cx, j2 = ops.broadcast(c, j, "where")
            m = ops.meta(x, y)
            blocks = {}
            for k, b in j2.blocks.items():
                cb = cx.blocks[k]
                extra = frozenset()
                if cb.deps:
                    extra = frozenset([it.event("branch", "where", detail="selects on the values of " + ", ".join(sorted({r for r, _, _ in cb.deps})))])
                blocks[k] = b.with_(taint=b.taint | cb.taint | extra, deps=b.deps)
            return T(j2.axes, blocks, **m)
        if name == "roll":
            return self.roll(args[0], a(1, "shifts"), a(2, "dims"))
        if name in ("addmm", "baddbmm", "addcmul", "addbmm", "addmv"):
            if any(isinstance(x, I.Unknown) for x in args):
                return it.merge_unknown(*args)
            beta, alpha, value = kwargs.get("beta", 1), kwargs.get("alpha", 1), kwargs.get("value", 1)
            inp, m1, m2 = args[:3]
            if name == "addmm":
                if not (m1.ndim == 2 and m2.ndim == 2):
                    raise AbsError("RuntimeError", "addmm expects matrices")
                p = ops.matmul(m1, m2)
            elif name == "baddbmm":
                if not (m1.ndim == 3 and m2.ndim == 3):
                    raise AbsError("RuntimeError", "baddbmm expects batches of matrices")
                if not ops.same(m1.size(0), m2.size(0)):
                    raise AbsError("RuntimeError", "baddbmm: batch sizes differ")
                p = ops.matmul(m1, m2)
            elif name == "addcmul":
                p = ops.mul(m1, m2)
            elif name == "addmv":
                p = ops.matmul(m1, m2)
            else:
                raise Unsupported(name)
            if alpha != 1 or value != 1:
                p = it.binop("Mult", p, alpha if alpha != 1 else value)
            if beta != 1:
                inp = it.binop("Mult", inp, beta)
            return ops.add(inp, p, name)
        if name in ("matmul", "mm", "mv", "dot", "inner"):
            x, y = args[:2]
            if isinstance(x, I.Unknown) or isinstance(y, I.Unknown):
                return it.merge_unknown(x, y)
            if name == "mm" and not (x.ndim == y.ndim == 2):
                raise AbsError("RuntimeError", "mm expects matrices")
            if name == "inner":
                return ops.vecdot(x, y)
            return ops.matmul(x, y)
        if name == "bmm":
            x, y = args[:2]
            if isinstance(x, I.Unknown) or isinstance(y, I.Unknown):
                return it.merge_unknown(x, y)
            if not (x.ndim == y.ndim == 3):
                raise AbsError("RuntimeError", "bmm expects batches of matrices")
            return ops.matmul(x, y)
        if name == "vdot":
            return ops.vecdot(ops.conj(args[0]), args[1])
        if name == "einsum":
            return self.einsum(args)
        if name in ("result_type", "promote_types"):
            d = I.DType("X")
            d.cplx = any(is_t(x) and x.cplx for x in args) or any(getattr(x, "cplx", False) for x in args)
            return d
        if name in ("is_complex", "is_floating_point"):
            it.asked_cplx = True
        if name == "is_complex":
            return args[0].cplx if is_t(args[0]) else I.Unknown(why=name)
        if name in ("is_tensor",):
            return is_t(args[0])
        if name in ("broadcast_tensors",):
            xs = list(args)
            r = xs[0]
            for x in xs[1:]:
                r, _ = ops.broadcast(r, x)
            return tuple(ops.expand(x, r.shape()) for x in xs)
        if name == "broadcast_shapes":
            shapes = [tuple(x) if isinstance(x, (tuple, list)) else (x,) for x in args]
            r = []
            for k in range(max(map(len, shapes), default=0)):
                n = None
                for sh in shapes:
                    if k >= len(sh):
                        continue
                    m = self.poly(sh[-1 - k])
                    if n is None or (ops.F.eq(n, m) is not True and ops.is_one(n)):
                        n = m
                    elif ops.F.eq(n, m) is not True and not ops.is_one(m):
                        ops.same(n, m)
                        raise AbsError("RuntimeError", "broadcast_shapes: sizes do not match")
                r.insert(0, self.num(n))
            return I.Shape(r)
        if name == "complex":
            raise Unsupported("complex")
        if name == "vander":
            return ops.opaque("vander", [args[0].size(0)] * 2 if args[0].ndim == 1 else args[0].shape() + [args[0].size(args[0].ndim - 1)], args[0])
        if name in ("diag", "diag_embed") and is_t(args[0]) and a(1, ("diagonal", "offset"), 0) == 0 and (name == "diag_embed" or args[0].ndim == 1):
            t = ops.simp(args[0])
            t = ops.coalesce(t, t.ndim - 1)
            s = t.axes[-1][0]
            j = tz.seg1(s.size)
            if not s.factors:
                return ops.unsqueeze(t, t.ndim)
            sup = Poly.atom(s.factors[0][0]) - Poly.atom(j.factors[0][0])
            return t.like(t.axes + [[j]], {k + (0,): b if b.zero else b.with_(support=b.support + (sup,)) for k, b in t.blocks.items()})
        if name in ("get_default_dtype",):
            return I.DType("F")
        if name in ("device", "dtype"):
            return I.Device("D")
        if name in ("contiguous_format", "preserve_format"):
            return I.Ref("torch." + name)
        if name in ("add", "sub", "mul", "div", "true_divide", "multiply", "subtract", "divide", "pow", "power"):
            opn = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "pow": "Pow"}.get(name, "Div")
            y = args[1] if len(args) > 1 else kwargs.get("other")
            al = kwargs.get("alpha", 1)
            if al != 1:
                y = it.binop("Mult", y, al)
            return it.binop(opn, args[0], y)
        if name in ("neg", "negative"):
            return ops.neg(args[0])
        if name in ("logical_and", "logical_or", "bitwise_and", "bitwise_or", "maximum", "minimum", "fmax", "fmin", "fmod", "remainder", "atan2", "floor_divide", "hypot"):
            return self.opaque_bin(name, self.lift(args[0]), self.lift(args[1]))
        if name in ("compile",):
            return args[0]
        if args and isinstance(args[0], (T, I.Unknown)):
            return self._call_method(args[0], name, args[1:], kwargs)
        for key in ("input", "self", "x", "A"):
            if key in kwargs:
                kw = dict(kwargs)
                t = kw.pop(key)
                return self._call_method(t, name, args, kw)
        raise Unsupported("torch." + name)

    def einsum(self, args):
        eq = args[0]
        if not isinstance(eq, str) or "->" not in eq or "." in eq or len(args) != 3:
            raise Unsupported("einsum")
        lhs, out = eq.replace(" ", "").split("->")
        l1, l2 = lhs.split(",")
        x, y = args[1], args[2]
        if not (is_t(x) and is_t(y)):
            return self.it.merge_unknown(x, y)
        if len(l1) != x.ndim or len(l2) != y.ndim:
            raise AbsError("RuntimeError", "einsum: wrong number of axes")
        if len(set(l1)) != len(l1) or len(set(l2)) != len(l2):
            raise Unsupported("einsum diagonal")
        contr = [c for c in dict.fromkeys(l1 + l2) if c not in out]
        order = list(out) + contr

        def arrange(t, ls):
            for k, c in enumerate(order):
                pass
            have = [c for c in order if c in ls]
            t = self.ops.permute(t, [ls.index(c) for c in have])
            for k, c in enumerate(order):
                if c not in ls:
                    t = self.ops.unsqueeze(t, k)
            return t
        p = self.ops.mul(arrange(x, l1), arrange(y, l2), "einsum")
        for _ in contr:
            p = self.ops.sum_axis(p, p.ndim - 1, "einsum")
        return p

    def arange(self, args, kwargs):
        vals = list(args)
        for k in ("start", "end", "step"):
            if k in kwargs:
                vals.append(kwargs[k])
        dtype_given = "dtype" in kwargs
        if any(isinstance(v, (float, I.OpaqueNum)) for v in vals):
            lo, hi, st = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], 1) if len(vals) == 2 else vals[:3]
            ev = self.it.event("float-count", "arange with a non-integer step",
                               detail="the number of elements is ceil((end-start)/step) in floating point and may be one off")
            taint = frozenset([ev])
            n = None
            arg = getattr(st, "arg", None)
            if isinstance(st, (int, float)) and isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
                import math
                n = P(math.ceil((hi - lo) / st))
            elif arg is not None and I.as_poly(lo) is not None and I.as_poly(hi) is not None:
                # step = num/den
                nump, denp = arg
                q = ((I.as_poly(hi) - I.as_poly(lo)) * denp).divide_exact(nump)
                if q is not None:
                    n = q
            if n is None:
                raise Unsupported("arange length")
            r = self.create([I.num(n)], None, kwargs)
            r.blocks = {k: Block(coef=None, taint=taint) for k in r.blocks}
            return r
        ps = [self.F.norm(self.poly(v)) for v in vals]
        lo, hi, st = (P(0), ps[0], P(1)) if len(ps) == 1 else (ps[0], ps[1], P(1)) if len(ps) == 2 else ps[:3]
        s = st.as_int()
        if s is None or s == 0:
            raise Unsupported("arange step")
        if s < 0:
            lo, hi, s = hi, lo, -s
        if not self.it.decide_ge(hi, lo):
            raise AbsError("RuntimeError", "arange: upper bound below lower bound")
        q, r = self.it.divmod(self.F.norm(hi - lo), P(s))
        n = q if self.F.eq(r, 0) is True else q + 1
        t = self.create([self.num(n)], None, kwargs)
        if not dtype_given:
            t.dtype = "L"
        t.blocks = {k: Block(coef=None) for k in t.blocks}
        t.arange = (lo, s)
        return t

    def roll(self, t, shifts, dims):
        if shifts is None:
            raise AbsError("TypeError", "torch.roll: no shifts given", "raise")
        if isinstance(t, I.Unknown):
            return t
        if isinstance(shifts, (tuple, list)):
            if len(shifts) != 1:
                raise Unsupported("roll of several axes")
            shifts = shifts[0]
        if isinstance(dims, (tuple, list)):
            dims = dims[0]
        if dims is None:
            raise Unsupported("roll of a flattened tensor")
        d = self.axis(t, dims)
        s = self.py(shifts, "shift")
        n = self.F.norm(t.size(d))
        if s == 0:
            return t
        if self.it.decide_eq(n, 0):
            return t
        k = P(abs(s))
        if not self.it.decide_ge(n, k):
            raise Unsupported("roll beyond size")
        # shifts=-1: [1:] then [:1]
        cutp = k if s < 0 else self.F.norm(n - k)
        if self.F.eq(cutp, n) is True or self.F.eq(cutp, 0) is True:
            return t
        a = self.ops.slice_axis(t, d, cutp, n)
        b = self.ops.slice_axis(t, d, P(0), cutp)
        return self.ops.cat([a, b], d, "roll")

    def functional(self, name, args, kwargs):
        it, ops = self.it, self.ops
        a = lambda i, n, d=None: self.arg(args, kwargs, i, n, d)
        if name == "pad":
            x, pad = args[0], a(1, "pad")
            mode, value = a(2, "mode", "constant"), a(3, "value", 0)
            if isinstance(x, I.Unknown):
                return x
            if value is None:
                value = 0
            if isinstance(pad, I.SeqVal):
                raise Unsupported("pad")
            pad = list(pad)
            r = x
            for k in range(len(pad) // 2):
                ax = x.ndim - 1 - k
                if ax < 0:
                    raise AbsError("RuntimeError", "pad: more pairs than axes")
                l, rr = self.F.norm(self.poly(pad[2 * k])), self.F.norm(self.poly(pad[2 * k + 1]))
                if mode == "constant":
                    for side, p in (("l", l), ("r", rr)):
                        if self.F.eq(p, 0) is True:
                            continue
                        if not it.decide_ge(p, 0):
                            n = self.F.norm(r.size(ax))
                            m = self.F.norm(n + p)
                            if not it.decide_ge(m, 0):
                                raise AbsError("RuntimeError", f"pad: negative result size {m}")
                            r = ops.slice_axis(r, ax, self.F.norm(-p), n) if side == "l" else ops.slice_axis(r, ax, P(0), m)
                        else:
                            r = ops.pad_axis(r, ax, p if side == "l" else P(0), p if side == "r" else P(0), value)
                elif mode in ("reflect", "replicate", "circular"):
                    r = self.pad_copy(r, ax, l, rr, mode)
                else:
                    raise AbsError("NotImplementedError", f"unknown padding mode {mode}")
            return r if r is not x else x.like(x.axes, x.blocks)
        if name == "conv1d":
            return self.conv1d(args, kwargs)
        if name == "conv_transpose1d":
            return self.conv_t(args, kwargs)
        if name in RANDOM:
            self.random(name)
        if name in CLIPPING and args and isinstance(args[0], T):
            return self.clipped(name, args[0], args[1:], kwargs)
        raise Unsupported("F." + name)

    def pad_copy(self, t, ax, l, r, mode):
        """Boundary-extending paddings (they change the grading in time)."""
        n = self.F.norm(t.size(ax))
        if mode == "reflect":
            for p in (l, r):
                if not self.it.decide_ge(n - 1, p):
                    raise AbsError("RuntimeError", "pad: reflect padding must be smaller than the input")
        parts = []
        tt = self.ops.coalesce(t, ax, "padded axis")
        s = tt.axes[ax][0]

        def piece(size, f):
            a = tz.fresh()
            axes = [list(y) for y in tt.axes]
            axes[ax] = [Seg(((a, size),))]
            env = {s.factors[0][0]: f(Poly.atom(a))} if s.factors else {}
            return tt.like(axes, {k: b.subst(env) for k, b in tt.blocks.items()})
        if self.F.eq(l, 0) is not True:
            parts.append(piece(l, {"reflect": lambda i: l - i, "replicate": lambda i: P(0),
                                   "circular": lambda i: n - l + i}[mode]))
        parts.append(tt)
        if self.F.eq(r, 0) is not True:
            parts.append(piece(r, {"reflect": lambda i: n - 2 - i, "replicate": lambda i: n - 1,
                                   "circular": lambda i: i}[mode]))
        return self.ops.cat(parts, ax, "padding")

    def conv_args(self, args, kwargs):
        a = lambda i, n, d=None: self.arg(args, kwargs, i, n, d)
        x, w, bias = args[0] if args else kwargs["input"], a(1, "weight"), a(2, "bias")
        stride, padding = a(3, "stride", 1), a(4, "padding", 0)
        return x, w, bias, stride, padding

    def conv1d(self, args, kwargs):
        x, w, bias, stride, padding = self.conv_args(args, kwargs)
        dil = self.arg(args, kwargs, 5, "dilation", 1)
        groups = self.poly(self.arg(args, kwargs, 6, "groups", 1))
        if isinstance(x, I.Unknown) or isinstance(w, I.Unknown):
            return self.it.merge_unknown(x, w)
        if bias is not None or stride != 1 or dil != 1:
            raise Unsupported("conv1d options")
        ops = self.ops
        sq = False
        if x.ndim == 2:
            x = ops.unsqueeze(x, 0)
            sq = True
        if x.ndim != 3 or w.ndim != 3:
            raise AbsError("RuntimeError", "conv1d expects 3-d tensors")
        pad = padding[0] if isinstance(padding, (tuple, list)) else padding
        if not (isinstance(pad, int) and pad == 0):
            pp = self.poly(pad)
            x = ops.pad_axis(x, 2, pp, pp)
        if self.F.eq(x.size(2), 0) is True:
            pass
        if not self.it.decide_ge(x.size(2), w.size(2)):
            raise AbsError("RuntimeError", "conv1d: kernel larger than the padded input")
        if self.F.eq(groups, 1) is True:
            if not ops.same(x.size(1), w.size(1)):
                raise AbsError("RuntimeError", f"conv1d: {self.F.norm(x.size(1))} input channels, weight expects {self.F.norm(w.size(1))}")
            u = ops.unfold(x, 2, w.size(2))            # (b, c, n, k)
            u = ops.unsqueeze(u, 1)                     # (b, 1, c, n, k)
            wv = ops.unsqueeze(w, 2)                    # (o, c, 1, k)
            p = ops.vecdot(u, wv, "conv1d")             # (b, o, c, n)
            r = ops.sum_axis(p, 2, "conv1d")
        else:
            if not (ops.same(x.size(1), groups) and ops.same(w.size(0), groups) and ops.same(w.size(1), 1)):
                if self.F.eq(x.size(1), groups) is not True or self.F.eq(w.size(0), groups) is not True:
                    raise AbsError("RuntimeError", f"conv1d: groups {groups} do not match {self.F.norm(x.size(1))} input / {self.F.norm(w.size(0))} output channels")
                raise Unsupported("grouped conv1d")
            u = ops.unfold(x, 2, w.size(2))             # (b, c, n, k)
            wv = ops.simp(w)                            # (c, 1, k)
            r = ops.vecdot(u, wv, "conv1d")
        return ops.squeeze(r, 0, force=True) if sq else r

    def conv_t(self, args, kwargs):
        x, w, bias, stride, padding = self.conv_args(args, kwargs)
        groups = self.poly(self.arg(args, kwargs, 6, "groups", 1))
        if isinstance(x, I.Unknown) or isinstance(w, I.Unknown):
            return self.it.merge_unknown(x, w)
        ops = self.ops
        if bias is not None or stride != 1 or padding != 0:
            raise Unsupported("conv_transpose1d options")
        if x.ndim != 3 or w.ndim != 3:
            raise AbsError("RuntimeError", "conv_transpose1d expects 3-d tensors")
        if not ops.same(x.size(1), w.size(0)):
            raise AbsError("RuntimeError", "conv_transpose1d: channel mismatch")
        if not (ops.same(groups, x.size(1)) and ops.same(w.size(1), 1)):
            raise Unsupported("conv_transpose1d groups")
        ops.mark_saved(x, w, "conv_transpose1d")
        n, k = self.F.norm(x.size(2)), self.F.norm(w.size(2))
        out = self.F.norm(n + k - 1)
        xx = ops.coalesce(x, 2, "convolved axis")
        ww = ops.squeeze(ops.coalesce(w, 2, "kernel axis"), 1, force=True)     # (c, k)
        # (b, c, m, n, k)
        xx = ops.unsqueeze(ops.unsqueeze(xx, 2), 4)
        ww = ops.unsqueeze(ops.unsqueeze(ww, 1), 1)
        p = ops.mul(xx, ww, "conv_transpose1d")          # (b,c,1,n,k)
        m = tz.seg1(out)
        ma = Poly.atom(m.factors[0][0]) if m.factors else P(0)
        na = Poly.atom(p.axes[3][0].factors[0][0]) if p.axes[3][0].factors else P(0)
        ka = Poly.atom(p.axes[4][0].factors[0][0]) if p.axes[4][0].factors else P(0)
        sup = ma - na - ka
        axes = [p.axes[0], p.axes[1], [m], p.axes[3], p.axes[4]]
        blocks = {key: (b if b.zero else b.with_(support=b.support + ((sup,) if not sup.is_zero() else ())))
                  for key, b in p.blocks.items()}
        q = T(axes, blocks, p.cplx, p.dtype, p.dev)
        # the kernel index is the innermost: eliminate it, then the signal index
        q = ops.sum_axis(q, 4, "conv_transpose1d")
        return ops.sum_axis(q, 3, "conv_transpose1d")

    def linalg(self, name, args, kwargs):
        ops, it = self.ops, self.it
        if any(isinstance(x, I.Unknown) for x in args):
            return it.merge_unknown(*args)
        if name == "vecdot":
            x, y = args[:2]
            d = self.arg(args, kwargs, 2, "dim", -1)
            if d != -1:
                raise Unsupported("vecdot dim")
            return ops.vecdot(ops.conj(x), y)
        if name in ("matmul",):
            return ops.matmul(*args[:2])
        if name == "multi_dot":
            ts = it.iterate(args[0])
            r = ts[0]
            for t in ts[1:]:
                r = ops.matmul(r, t)
            return r
        if name in ("inv", "pinv"):
            return self.inv(args[0])
        if name in ("eigvals", "eigvalsh"):
            t = args[0]
            r = self.eig_like(t, t.shape()[:-1])
            return r
        if name == "eig":
            t = args[0]
            return (self.eig_like(t, t.shape()[:-1]), self.eig_like(t, t.shape()))
        if name in ("vector_norm", "norm"):
            t = args[0]
            d = self.arg(args, kwargs, 2, "dim")
            keep = self.arg(args, kwargs, 3, "keepdim", False)
            shp = t.shape()
            if d is None:
                return ops.opaque(name, [], t)
            d = self.axis(t, d)
            if keep:
                shp[d] = P(1)
            else:
                shp = shp[:d] + shp[d + 1:]
            r = ops.opaque(name, shp, t)
            r.cplx = False
            return r
        if name == "solve":
            return self.solve(args[0], args[1])
        if name == "matrix_power":
            n = self.py(args[1])
            r = args[0]
            if n < 1:
                raise Unsupported("matrix_power")
            for _ in range(n - 1):
                r = ops.matmul(r, args[0])
            return r
        raise Unsupported("linalg." + name)

    # Matrix functions.  A matrix D1 M D2 with diagonal D1, D2 whose grades are
    # linear in the row and the column index: its inverse, eigenvalues and
    # eigenvectors scale too.
    def matrix_scaling(self, t):
        """{batch key: (row slope, column slope, common grade, unk, deps, taint)}, or None."""
        ops, F = self.ops, self.F
        nd = t.ndim
        pos = []
        for ax in (nd - 2, nd - 1):
            off, ps = P(0), []
            for s in t.axes[ax]:
                if s.pad is not None:
                    return None
                e, st = off, P(1)
                for a, n in reversed(s.factors):
                    e, st = e + Poly.atom(a) * st, F.norm(st * n)
                ps.append(e)
                off = F.norm(off + s.size)
            pos.append(ps)
        groups = {}
        for key, b in t.blocks.items():
            groups.setdefault(key[:-2], []).append((key, b))
        out = {}
        U = ("?r", "?k", "?g")
        for bk, bs in groups.items():
            unk, deps, taint, rows = frozenset(), frozenset(), frozenset(), []
            ws = set()
            for key, b in bs:
                unk, deps, taint = unk | b.unk, deps | b.deps, taint | b.taint
                if not b.zero:
                    ws |= {a for a in F.norm(b.grade).atoms() if a.startswith("w:")}
            if all(b.zero for _, b in bs):
                return None
            sol = [P(0), P(0), P(0)]
            for w in sorted(ws - set(unk)):
                eqs = []
                for key, b in bs:
                    if b.zero:
                        continue
                    g = Poly({tuple(f for f in m if f[0] != w): c for m, c in F.norm(b.grade).t.items() if dict(m).get(w) == 1})
                    i, j = pos[0][key[-2]], pos[1][key[-1]]
                    e = ops.reduce(Poly.atom("?r") * i + Poly.atom("?k") * j + Poly.atom("?g") - g, b.support)
                    idx = {a for ax in (nd - 2, nd - 1) for a, _ in t.axes[ax][key[ax]].factors}
                    by = {}
                    for m, c in F.norm(e).t.items():
                        ix = tuple(f for f in m if f[0] in idx)
                        rest = tuple(f for f in m if f[0] not in idx)
                        by.setdefault(ix, {})[rest] = c
                    for r in by.values():
                        co, rhs = [Poly(), Poly(), Poly()], Poly()
                        for m, c in r.items():
                            u = [q for q in U if q in dict(m)]
                            mm = tuple(f for f in m if f[0] not in U)
                            if u:
                                n = U.index(u[0])
                                co[n] = co[n] + Poly({mm: c})
                            else:
                                rhs = rhs - Poly({mm: c})
                        eqs.append((co, rhs))
                v = self.solve3(eqs)
                if v is None:
                    return None
                for n in range(3):
                    sol[n] = sol[n] + v[n] * Poly.atom(w)
            out[bk] = (sol[0], sol[1], sol[2], unk, deps, taint)
        return out

    def solve3(self, eqs):
        """Linear system in three unknowns with polynomial right-hand sides; free
        unknowns are zero; None when there is no solution."""
        F = self.F
        val = [None, None, None]
        eqs = [([F.norm(c) for c in co], F.norm(r)) for co, r in eqs]
        for _ in range(4):
            done = True
            nxt = []
            for co, r in eqs:
                for n in range(3):
                    if val[n] is not None and not co[n].is_zero():
                        r = F.norm(r - co[n] * val[n])
                        co = [Poly() if m == n else c for m, c in enumerate(co)]
                live = [n for n in range(3) if not co[n].is_zero()]
                if not live:
                    if not r.is_zero():
                        return None
                    continue
                if len(live) == 1:
                    n = live[0]
                    q = r.divide_exact(co[n]) if not r.is_zero() else Poly()
                    if q is None:
                        return None
                    val[n] = F.norm(q)
                    done = False
                    continue
                nxt.append((co, r))
            eqs = nxt
            if done:
                break
        if eqs:
            # eliminate pairs: constant coefficients only
            const = [([c.const_value() if c.is_const() or c.is_zero() else None for c in co], r) for co, r in eqs]
            if any(c is None for co, _ in const for c in co):
                return None
            rows = [([Fraction(c) for c in co], r) for co, r in const]
            piv = []
            for n in range(3):
                k = next((x for x in range(len(piv), len(rows)) if rows[x][0][n]), None)
                if k is None:
                    continue
                rows[len(piv)], rows[k] = rows[k], rows[len(piv)]
                co, r = rows[len(piv)]
                d = co[n]
                co, r = [c / d for c in co], r * (1 / d)
                rows[len(piv)] = (co, r)
                for x in range(len(rows)):
                    if x != len(piv) and rows[x][0][n]:
                        f = rows[x][0][n]
                        rows[x] = ([a - f * b for a, b in zip(rows[x][0], co)], F.norm(rows[x][1] - r * f))
                piv.append(n)
            for co, r in rows[len(piv):]:
                if not F.norm(r).is_zero():
                    return None
            for (co, r), n in zip(rows, piv):
                val[n] = F.norm(r)
        return [v if v is not None else Poly() for v in val]

    def matrix_result(self, t, sc, grade, vector=False, **kw):
        n = self.F.norm(t.size(t.ndim - 1))
        a1, a2 = tz.mk([n], None).axes[0], tz.mk([n], None).axes[0]
        at = [Poly.atom(a[0].factors[0][0]) if a[0].factors else P(0) for a in (a1, a2)]
        axes = [list(a) for a in t.axes[:-2]] + ([a1] if vector else [a1, a2])
        blocks = {}
        for bk, (r, c, g, unk, deps, taint) in sc.items():
            gr, bad = grade(r, c, g, *at)
            blocks[bk + ((0,) if vector else (0, 0))] = Block(False, (), self.F.norm(gr), unk | frozenset(bad), None, deps, taint)
        m = self.ops.meta(t)
        m.update(kw)
        return T(axes, blocks, **m)

    def eig_like(self, t, shape):
        ops = self.ops
        dt = "CX" if not t.cplx and t.dtype == "X" else ("CF" if t.dtype == "F" else t.dtype)
        t = ops.simp(t)
        sc = self.matrix_scaling(t) if len(shape) == t.ndim - 1 else None
        if sc is not None:
            return self.matrix_result(t, sc, lambda r, c, g, i, j: (g, ops.weights(r + c)), True, cplx=True, dtype=dt)
        r = ops.opaque("eigenvalues", shape, t)
        r.cplx, r.dtype = True, dt
        return r

    def eigenvectors(self, A, lam):
        """Columns of V are eigenvectors of D1 M D1^-1 with an unknown scale per
        column: grade of D1 plus a weight of its own for every column."""
        ops = self.ops
        n = A.size(A.ndim - 1)
        if not ops.same(A.size(A.ndim - 2), n) or not ops.same(lam.size(lam.ndim - 1), n):
            raise AbsError("AssertionError", "eigenvalues must match the size of A", "shape")
        self.it.contracts.add("find_eigenvectors")
        A = ops.simp(A)
        sc = self.matrix_scaling(A)
        if sc is not None:
            sc = {k: v[:4] + (v[4] | lam.deps(), v[5] | lam.taint()) for k, v in sc.items()}
            return self.matrix_result(A, sc, lambda r, c, g, i, j: (r * i + Poly.atom("w:basis8") + j * Poly.atom("w:basis9"), ops.weights(r + c)),
                                      cplx=True, dtype=lam.dtype)
        r = ops.opaque("eigenvectors", A.shape(), A, lam)
        r.cplx, r.dtype = True, lam.dtype
        return r

    def inv(self, t):
        """Inverse of D1 M D2 is D2^-1 M^-1 D1^-1."""
        ops = self.ops
        t = ops.simp(t)
        sc = self.matrix_scaling(t)
        if sc is not None:
            return self.matrix_result(t, sc, lambda r, c, g, i, j: (-(c * i + r * j + g), ()))
        return ops.opaque("inverse", t.shape(), t)

    def solve(self, A, B):
        ops = self.ops
        if A.ndim < 2:
            raise AbsError("RuntimeError", "solve: A must be a matrix")
        n = A.size(A.ndim - 1)
        if not ops.same(A.size(A.ndim - 2), n):
            raise AbsError("RuntimeError", "solve: A must be square")
        vec = B.ndim == 1 or (A.ndim - 1 == B.ndim and all(
            self.F.eq(p, q) is True for p, q in zip(A.shape()[:-1], B.shape())))
        shp = B.shape()
        k = B.ndim - 1 if vec else B.ndim - 2
        if k < 0 or not ops.same(B.size(k), n):
            raise AbsError("RuntimeError", f"solve: right-hand side does not match size {self.F.norm(n)}")
        if vec and B.ndim == 1 and A.ndim > 2:
            shp = A.shape()[:-2] + shp
        if self.matrix_scaling(ops.simp(A)) is not None:
            Ai = self.inv(A)
            r = ops.matmul(Ai, ops.unsqueeze(B, B.ndim)) if vec else ops.matmul(Ai, B)
            return ops.squeeze(r, r.ndim - 1) if vec else r
        return ops.opaque("solve", shp, A, B)

    # --------------------------------------------------------------- methods
    def _call_method(self, obj, name, args, kwargs):
        it, ops = self.it, self.ops
        if isinstance(obj, I.Unknown):
            d, t = obj.deps, obj.taint
            for v in list(args) + list(kwargs.values()):
                x, y = it.prov(v)
                d |= x
                t |= y
            if name in CUTTING:
                d = frozenset((r, p, False) for r, p, g in d)
            return I.Unknown(d, t, obj.why + "." + name)
        if isinstance(obj, I.ClassVal):
            if name == "apply" and obj.is_autograd_function():
                return self.fn_apply(obj, args, kwargs)
            raise Unsupported(f"{obj.name}.{name}")
        if isinstance(obj, I.Obj):
            if name in ("save_for_backward", "save_for_forward"):
                obj.attrs["saved_tensors"] = tuple(args)
                obj.attrs.setdefault("saved", {})[name] = tuple(args)
                obj.attrs.setdefault("saves", []).append(name)
                return None
            if name in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
                if name == "mark_dirty":
                    raise Unsupported(name)
                return None
            raise Unsupported(name)
        if isinstance(obj, (I.Func, I.Builtin)):
            if name == "register_fake" and args and args[0] is not None:
                return self.reg("fake", self.op_name(obj), args[0])
            if name == "register_fake":
                return I.Builtin("register_fake", lambda a, k: self.reg("fake", self.op_name(obj), a[0]))
            if name in ("register_autograd",):
                return self.reg("autograd", self.op_name(obj), (args[0], kwargs.get("setup_context")))
            if name == "register_kernel":
                return I.Builtin("register_kernel", lambda a, k: a[0])
            raise Unsupported(name)
        if isinstance(obj, list):
            if name in ("append", "extend", "insert"):
                self.stored(obj, *args)
            if name == "append":
                obj.append(args[0])
                return None
            if name == "extend":
                s = it.iterate(args[0])
                if not isinstance(s, list):
                    raise Unsupported("extend")
                obj.extend(s)
                return None
            if name == "insert":
                obj.insert(args[0], args[1])
                return None
            if name == "pop":
                return obj.pop(*args)
            if name == "reverse":
                obj.reverse()
                return None
            if name == "copy":
                return list(obj)
            if name == "index":
                return obj.index(args[0])
            raise Unsupported("list." + name)
        if isinstance(obj, dict):
            if name in ("get", "pop", "setdefault"):
                d = args[1] if len(args) > 1 else None
                if name == "get":
                    return obj.get(args[0], d)
                if name == "pop":
                    if args[0] in obj:
                        return obj.pop(args[0])
                    if len(args) > 1:
                        return d
                    raise AbsError("KeyError", str(args[0]), "raise")
                self.stored(obj, d)
                return obj.setdefault(args[0], d)
            if name == "items":
                return [(k, v) for k, v in obj.items()]
            if name == "keys":
                return list(obj.keys())
            if name == "values":
                return list(obj.values())
            if name == "update":
                self.stored(obj, *args, *kwargs.values())
                obj.update(args[0] if args else kwargs)
                return None
            if name == "copy":
                return dict(obj)
            if name == "clear":
                obj.clear()
                return None
            if name == "move_to_end":
                return None
            if name == "popitem":
                if obj:
                    return obj.popitem()
                raise AbsError("KeyError", "popitem", "raise")
            raise Unsupported("dict." + name)
        if isinstance(obj, str):
            if name in ("format", "join"):
                return "<str>"
            if name in ("lower", "upper", "strip"):
                return getattr(obj, name)()
            if name in ("startswith", "endswith"):
                return getattr(obj, name)(args[0])
            raise Unsupported("str." + name)
        if isinstance(obj, I.Shape) or isinstance(obj, tuple):
            if name == "numel":
                r = P(1)
                for s in obj:
                    r = r * self.poly(s)
                return self.num(r)
            if name == "index":
                return obj.index(args[0])
            if name == "count":
                return obj.count(args[0])
            raise Unsupported("tuple." + name)
        if isinstance(obj, I.SeqVal):
            raise Unsupported("sequence." + name)
        if isinstance(obj, (int, float, I.SInt, I.OpaqueNum)):
            if name in ("item", "__int__", "bit_length"):
                return obj
            raise Unsupported(name)
        if isinstance(obj, T):
            return strides.method(self, obj, name, args, kwargs, self.tmethod(obj, name, args, kwargs))
        raise Unsupported(f"{type(obj).__name__}.{name}")

    def tmethod(self, t, name, args, kwargs):
        it, ops = self.it, self.ops
        a = lambda i, n, d=None: self.arg(args, kwargs, i, n, d)
        if any(isinstance(x, I.Unknown) for x in list(args) + list(kwargs.values())) and name not in ("to", "new_zeros"):
            return it.merge_unknown(t, *args, *kwargs.values())
        if name == "size":
            if args or "dim" in kwargs:
                return self.num(t.size(self.axis(t, a(0, "dim"))))
            return self.shape(t)
        if name in ("dim", "ndimension"):
            return t.ndim
        if name in ("numel", "nelement"):
            r = P(1)
            for s in t.shape():
                r = r * s
            return self.num(r)
        if name in ("is_complex", "is_floating_point"):
            self.it.asked_cplx = True
        if name in ("is_complex",):
            return bool(t.cplx)
        if name in ("is_floating_point",):
            return (not t.cplx) and t.dtype in ("X", "F")
        if name in ("is_contiguous",):
            return it.choose("contiguous", 2) == 1
        if name in ("stride", "storage_offset", "data_ptr", "element_size", "get_device"):
            return I.OpaqueNum(name)
        if name == "unsqueeze":
            return ops.unsqueeze(t, self.axis(t, a(0, "dim"), 1))
        if name == "squeeze":
            d = a(0, "dim")
            if d is None:
                r = t
                for k in reversed(range(t.ndim)):
                    r = ops.squeeze(r, k)
                return r
            if isinstance(d, (tuple, list)):
                r = t
                for k in sorted((self.axis(t, x) for x in d), reverse=True):
                    r = ops.squeeze(r, k)
                return r
            return ops.squeeze(t, self.axis(t, d))
        if name in ("flip", "fliplr", "flipud"):
            ds = args[0] if args and isinstance(args[0], (tuple, list)) else (args if args else kwargs.get("dims", ()))
            if isinstance(ds, int):
                ds = (ds,)
            if name == "fliplr":
                ds = (1,)
            if name == "flipud":
                ds = (0,)
            r = t
            for d in ds:
                r = ops.flip(r, self.axis(t, d))
            return r
        if name in ("flatten", "ravel"):
            if t.ndim == 0:
                return ops.unsqueeze(t, 0)
            i = self.axis(t, a(0, "start_dim", 0))
            j = self.axis(t, a(1, "end_dim", -1))
            if i > j:
                raise AbsError("RuntimeError", "flatten: start_dim after end_dim")
            return ops.flatten(t, i, j)
        if name == "unflatten":
            d = self.axis(t, a(0, "dim"))
            sizes = a(1, "sizes")
            if isinstance(sizes, (I.FactorList, I.SeqVal)):
                raise Unsupported("unflatten to a symbolic number of axes")
            return ops.unflatten(t, d, [self.poly(s) for s in sizes])
        if name in ("transpose", "swapaxes", "swapdims"):
            return ops.transpose(t, self.axis(t, args[0]), self.axis(t, args[1]))
        if name == "t":
            return ops.permute(t, list(range(t.ndim))[::-1])
        if name in ("permute",):
            ds = args[0] if args and isinstance(args[0], (tuple, list)) else (args or kwargs.get("dims"))
            if len(ds) != t.ndim:
                raise AbsError("RuntimeError", f"permute: {len(ds)} entries for {t.ndim} axes")
            return ops.permute(t, [self.axis(t, d) for d in ds])
        if name in ("movedim", "moveaxis"):
            s, d = self.axis(t, args[0]), self.axis(t, args[1])
            order = [k for k in range(t.ndim) if k != s]
            order.insert(d, s)
            return ops.permute(t, order)
        if name == "adjoint":
            return ops.conj(ops.transpose(t, t.ndim - 1, t.ndim - 2))
        if name in ("conj", "conj_physical", "resolve_conj"):
            if name == "resolve_conj":
                return t
            r = ops.conj(t)
            if name == "conj":
                if r is t:
                    return t
                r.stor = t.stor
            elif r is t:
                return t      # conj_physical of a real tensor returns the same tensor
            return r
        if name == "new_empty_strided":
            r = self.create(list(args[0]), None, kwargs, like=t)
            r.strides = [self.poly(q) for q in args[1]]
            return r
        if name in ("new_zeros", "new_ones", "new_empty", "new_full"):
            if name == "new_full":
                return self.create(list(args[0]), args[1], kwargs, like=t)
            shp = self.shape_args(args) if args else list(kwargs["size"])
            r = self.create(shp, {"new_zeros": 0, "new_ones": 1}.get(name), kwargs, like=t)
            r.layout = "contig"
            return r
        if name == "new_tensor":
            return self.create([], None, kwargs, like=t)
        if name in ("expand", "broadcast_to", "expand_as"):
            if name == "expand_as":
                sizes = args[0].shape()
            else:
                sizes = self.shape_args(args) if args else list(kwargs.get("size", kwargs.get("shape")))
                sizes = [self.poly(s) for s in sizes]
            r = ops.expand(t, sizes)
            r.stor = t.stor
            return r
        if name in ("repeat", "tile"):
            reps = self.shape_args(args)
            return self.repeat(t, reps, name)
        if name == "repeat_interleave":
            n = a(0, "repeats")
            d = a(1, "dim")
            if isinstance(n, T):
                raise Unsupported("repeat_interleave")
            if d is None:
                if t.ndim != 1:
                    t = ops.flatten(t, 0, t.ndim - 1) if t.ndim else ops.unsqueeze(t, 0)
                d = 0
            r = ops.repeat_interleave_axis(t, self.axis(t, d), self.poly(n))
            return r.like(r.axes, r.blocks)
        if name == "unbind":
            return self.unbind(t, a(0, "dim", 0))
        if name == "unfold":
            d = self.axis(t, a(0, "dimension"))
            st = a(2, "step")
            if self.F.eq(self.poly(st), 1) is not True:
                raise Unsupported("unfold step")
            size = self.F.norm(self.poly(a(1, "size")))
            if not it.decide_ge(t.size(d), size):
                raise AbsError("RuntimeError", f"unfold: window {size} exceeds size {self.F.norm(t.size(d))}")
            return ops.unfold(t, d, size)
        if name in ("view", "reshape"):
            if args and isinstance(args[0], I.DType):
                raise Unsupported("dtype view")
            return self.reshape(t, self.shape_args(args) if args else list(kwargs.get("shape")))
        if name in ("view_as", "reshape_as"):
            return self.reshape(t, list(self.shape(args[0])))
        if name in ("contiguous",):
            r = t.view(t.axes, t.blocks)
            r.pending = t.pending
            return r
        if name == "clone":
            r = t.like(t.axes, t.blocks)
            r.pending = t.pending
            return r
        if name in ("detach", "detach_"):
            return self.cut(t, "detach")
        if name in ("item", "tolist", "numpy"):
            d = frozenset((r, p, False) for r, p, g in t.deps())
            ev = frozenset()
            if any(g for _, _, g in t.deps()):
                ev = frozenset([it.event("cut", "." + name + "()", detail="tensor value leaves the autograd graph")])
            return I.Unknown(d, t.taint() | ev, name)
        if name in ("requires_grad_", "retain_grad", "register_hook"):
            if name == "requires_grad_":
                self.mutated(t, "requires_grad_")
            return t
        if name in ("to", "type", "type_as", "float", "double", "half", "cuda", "cpu", "long", "int", "bool", "cfloat", "cdouble"):
            return self.convert(t, name, args, kwargs)
        if name in ("sum",):
            return self.reduce_sum(t, a(0, "dim"), a(1, "keepdim", False))
        if name in ("mean",):
            return self.reduce_sum(t, a(0, "dim"), a(1, "keepdim", False))
        if name in ("matmul", "mm", "bmm", "mv", "dot", "addmm", "baddbmm", "addcmul", "roll", "vdot",
                    "add", "sub", "mul", "div", "true_divide", "neg", "pow", "where", "subtract", "multiply"):
            if name == "where":
                raise Unsupported("where method")
            return self.torchfn(name, [t] + list(args), kwargs)
        if name in ("cumprod", "cumsum"):
            return self.cum(t, self.axis(t, a(0, "dim")), name)
        if name in ("select",):
            d = self.axis(t, args[0])
            return self._getitem(t, tuple([slice(None)] * d + [args[1]]))
        if name in ("narrow",):
            d = self.axis(t, args[0])
            lo = self.poly(args[1])
            return ops.slice_axis(t, d, lo, self.F.norm(lo + self.poly(args[2])))
        if name in ("index_select", "gather", "take", "masked_select", "take_along_dim"):
            raise Unsupported(name)
        if name in ("split", "split_with_sizes"):
            sizes = a(0, ("split_sizes", "split_size_or_sections", "split_size"))
            d = self.axis(t, a(1, "dim", 0))
            if not isinstance(sizes, (list, tuple)):
                raise Unsupported("split by chunk size")
            tot = P(0)
            out = []
            for s in sizes:
                p = self.F.norm(self.poly(s))
                if self.F.ge(p, 0) is False:
                    raise AbsError("RuntimeError", "split: negative size")
                out.append((tot, self.F.norm(tot + p)))
                tot = self.F.norm(tot + p)
            if not ops.same(tot, t.size(d)):
                raise AbsError("RuntimeError", f"split sizes sum to {tot}, axis has {self.F.norm(t.size(d))}")
            return tuple(ops.slice_axis(t, d, lo, hi) for lo, hi in out)
        if name in ("chunk", "tensor_split"):
            n = self.py(a(0, "chunks"))
            d = self.axis(t, a(1, "dim", 0))
            q, r = it.divmod(t.size(d), P(n))
            if self.F.eq(r, 0) is not True:
                raise Unsupported("chunk")
            return tuple(ops.slice_axis(t, d, self.F.norm(q * k), self.F.norm(q * (k + 1))) for k in range(n))
        if name in ("diagonal",):
            raise Unsupported(name)
        if name in ("any", "all") or name in ("allclose", "equal", "isclose"):
            r = ops.opaque(name, [], t, *[x for x in args if is_t(x)])
            r.dtype = "B"
            return r
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.tcompare(name, t, args[0])
        if name in ("masked_fill",):
            return it.call_method if False else self.torchfn("where", [args[0], args[1], t], {})
        if name == "reciprocal":
            return self.recip(t)
        if name == "square":
            return ops.mul(t, t)
        if name in RANDOM:
            self.random(name)
        if name in CLIPPING:
            return self.clipped(name, t, args, kwargs)
        if name in ELEMENTWISE_OPAQUE:
            r = self.opaque_like(name, t)
            if name in ("abs", "absolute", "angle"):
                if t.cplx:
                    def f(b):
                        return b.with_(deps=b.deps | frozenset((r_, "c" if p == "p" else "p", g) for r_, p, g in b.deps))
                    r = ops.map_blocks(r, f, cplx=False)
            return r
        if name in ("argsort", "sort", "nonzero", "count_nonzero", "max", "min", "argmax", "unique", "amax", "amin", "median"):
            return I.Unknown(t.deps(), t.taint(), name)
        if name in ("type_promotion",):
            raise Unsupported(name)
        if name.endswith("_") and not name.endswith("__"):
            return self.inplace_method(t, name, args, kwargs)
        if name in ("__getitem__",):
            return self.getitem(t, args[0])
        raise Unsupported("Tensor." + name)

    def inplace_method(self, t, name, args, kwargs):
        base = name[:-1]
        if base in ("zero",):
            v = mk(t.shape(), None, cplx=t.cplx, dtype=t.dtype, dev=t.dev)
        elif base == "fill":
            v = self.ops.expand(self.lift(args[0]), t.shape())
        elif base == "copy":
            v = self.ops.expand(self.lift(args[0]), t.shape())
        else:
            try:
                v = self._call_method(t, base, args, kwargs)
            except Unsupported:
                v = None
        if isinstance(v, T):
            return self.inplace(t, v, f"in-place {name}")
        self.storage_write(t, f"in-place {name}")
        u = self.it.merge_unknown(t, *args)
        t.blocks = {k: tz.unknown_block(u.deps, u.taint) for k in t.blocks}
        return t

    def convert(self, t, name, args, kwargs):
        src = None
        dt = dev = None
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, T):
                src = v
            elif isinstance(v, I.DType):
                dt = v
            elif isinstance(v, I.Device):
                dev = v
        r = t.view(t.axes, t.blocks)
        if name in ("float", "double", "half"):
            r.dtype, r.cplx = "F", False
        elif name in ("long", "int"):
            r.dtype, r.cplx = "L", False
        elif name == "bool":
            r.dtype, r.cplx = "B", False
        elif name in ("cuda", "cpu"):
            r.dev = "D"
        elif src is not None:
            r.dtype, r.cplx, r.dev = src.dtype, src.cplx, src.dev
        if dt is not None:
            r.dtype = dt.name
            cp = getattr(dt, "cplx", False)
            if t.cplx and not cp:
                r.cplx = True
                r = self.re(r, "real (dtype conversion)")
                r.dtype = dt.name
            r.cplx = cp
        if dev is not None:
            r.dev = dev.name
        if t.dtype in ("X", "CX") and r.dtype in ("F", "L"):
            ev = self.it.event("dtype", f".{name}()", detail="the caller's dtype is replaced by a fixed one")
            r = self.ops.map_blocks(r, lambda b: b.with_(taint=b.taint | {ev}))
        if t.dev == "X" and r.dev == "D":
            ev = self.it.event("device", f".{name}()", detail="moved away from the caller's device")
            r = self.ops.map_blocks(r, lambda b: b.with_(taint=b.taint | {ev}))
        return r

    def repeat(self, t, reps, name):
        ops = self.ops
        d = len(reps) - t.ndim
        if d < 0:
            if name == "tile":
                reps = [1] * (-d) + list(reps)
                d = 0
            else:
                raise AbsError("RuntimeError", "repeat: fewer repeats than axes")
        r = t
        for _ in range(d):
            r = ops.unsqueeze(r, 0)
        for i, n in enumerate(reps):
            p = self.F.norm(self.poly(n))
            if self.F.eq(p, 1) is True:
                continue
            if self.F.eq(r.size(i), 1) is True:
                r = ops.expand(r, [p if k == i else r.size(k) for k in range(r.ndim)])
            else:
                r = ops.repeat_axis(r, i, p)
        return r.like(r.axes, r.blocks)

    def reduce_sum(self, t, d, keep):
        ops = self.ops
        if d is None:
            r = t
            for _ in range(t.ndim):
                r = ops.sum_axis(r, 0)
            return r
        ds = [self.axis(t, x) for x in (d if isinstance(d, (tuple, list)) else (d,))]
        r = t
        for x in sorted(ds, reverse=True):
            r = ops.sum_axis(r, x)
            if keep:
                r = ops.unsqueeze(r, x)
        return r

    def reshape(self, t, sizes):
        """view / reshape by flattening and splitting matching axis groups."""
        ops = self.ops
        sizes = [self.F.norm(self.poly(s)) for s in sizes]
        shp = [self.F.norm(s) for s in t.shape()]
        neg = [k for k, s in enumerate(sizes) if s == -1]
        if len(neg) > 1:
            raise AbsError("RuntimeError", "view: more than one -1")
        if neg:
            tot, rest = P(1), P(1)
            for s in shp:
                tot = tot * s
            for k, s in enumerate(sizes):
                if k not in neg:
                    rest = rest * s
            q = self.F.norm(tot).div_int(self.F.norm(rest))
            if q is None:
                q = self.it.floordiv_exact(self.F.norm(tot), self.F.norm(rest))
            if q is None:
                raise Unsupported("view: quotient")
            sizes[neg[0]] = self.F.norm(q)
        # greedy grouping from the left
        i = j = 0
        r = t
        pos = 0
        one = lambda s: self.F.eq(s, 1) is True
        while i < len(shp) or j < len(sizes):
            if i < len(shp) and j < len(sizes) and self.F.eq(shp[i], sizes[j]) is True:
                i += 1
                j += 1
                pos += 1
                continue
            if i < len(shp) and one(shp[i]) and (j >= len(sizes) or not one(sizes[j])):
                r = ops.squeeze(r, pos, force=True)
                i += 1
                continue
            if j < len(sizes) and one(sizes[j]):
                r = ops.unsqueeze(r, pos)
                j += 1
                pos += 1
                continue
            if i >= len(shp) or j >= len(sizes):
                raise AbsError("RuntimeError", f"view: cannot reshape {shp} to {sizes}")
            pi, pj = shp[i], sizes[j]
            ni, nj = 1, 1
            ok = False
            for _ in range(12):
                if self.F.eq(pi, pj) is True:
                    ok = True
                    break
                if pi.div_int(pj) is not None and j + nj < len(sizes):
                    pj = self.F.norm(pj * sizes[j + nj])
                    nj += 1
                elif i + ni < len(shp):
                    pi = self.F.norm(pi * shp[i + ni])
                    ni += 1
                elif j + nj < len(sizes):
                    pj = self.F.norm(pj * sizes[j + nj])
                    nj += 1
                else:
                    break
            if not ok:
                e = self.F.eq(pi, pj)
                if e is False:
                    raise AbsError("RuntimeError", f"view: cannot reshape {shp} to {sizes}")
                raise Unsupported("view")
            if ni > 1:
                r = ops.flatten(r, pos, pos + ni - 1)
            if nj > 1:
                r = ops.unflatten(r, pos, sizes[j:j + nj])
            i += ni
            j += nj
            pos += nj
        return r if r is not t else t.view(t.axes, t.blocks)

    def cum(self, t, d, name):
        n = self.F.norm(t.size(d))
        seq = self.unbind(t, d)
        f = (lambda x, y: self.ops.mul(x, y)) if name == "cumprod" else (lambda x, y: self.ops.add(x, y, "cumsum"))
        if isinstance(seq, tuple):
            if not seq:
                return t
            out = [seq[0]]
            for x in seq[1:]:
                out.append(f(out[-1], x))
            return self.ops.cat([self.ops.unsqueeze(x, d) for x in out], d)
        acc = self.it.accumulate(seq, f, name)
        return self.stack_seq(acc, d)

    # ----------------------------------------------------- autograd function
    def fn_apply(self, cls, args, kwargs):
        self.note("apply " + cls.name, args, kwargs)
        fwd = cls.lookup("forward")
        if fwd is None:
            raise Unsupported("Function without forward")
        if cls.lookup("setup_context") is None:
            r = self.it.call(fwd, [I.Obj(needs_input_grad=I.Unknown(why="needs"))] + list(args), kwargs)
        else:
            r = self.it.call(fwd, list(args), kwargs)
        self.it.applied = getattr(self.it, "applied", set())
        self.it.applied.add(cls.name)
        # a custom Function keeps its inputs and its output
        if isinstance(r, T):
            r = r.like(r.axes, r.blocks)
            for x in list(args) + [r]:
                if isinstance(x, T):
                    for s in x.stor:
                        if s.saved is None:
                            s.saved = self.it.where()
        return r

    def op_name(self, f):
        return getattr(f, "opname", None) or (f.attrs.get("opname") if isinstance(f, I.Func) else None) or getattr(f, "name", "?")

    def reg(self, kind, name, v):
        name = name.split("::")[-1] if isinstance(name, str) else repr(name)
        d = self.it.registry[kind]
        if name in d:
            d[name + "#dup"] = v
        d[name] = v
        return v

    def library(self, name, args, kwargs):
        if name in ("register_fake", "impl_abstract"):
            if len(args) > 1:
                return self.reg("fake", args[0], args[1])
            return I.Builtin(name, lambda a, k: self.reg("fake", args[0], a[0]))
        if name == "register_autograd":
            op = args[0]
            if not isinstance(op, str):
                op = self.op_name(op)
            return self.reg("autograd", op, (args[1] if len(args) > 1 else kwargs.get("backward"), kwargs.get("setup_context")))
        if name == "custom_op":
            def deco(a, k):
                f = a[0]
                f.attrs["opname"] = args[0].split("::")[-1]
                self.reg("custom_op", args[0], f)
                self.it.registry.setdefault("custom_kw", {})[args[0].split("::")[-1]] = kwargs
                return f
            if len(args) > 1:
                return deco([args[1]], {})
            return I.Builtin(name, deco)
        if name in ("register_kernel", "register_vmap", "register_torch_dispatch"):
            return I.Builtin(name, lambda a, k: a[0])
        raise Unsupported("torch.library." + name)

    # ------------------------------------------------------- recurrence spec
    def helion_kernel(self, name):
        def run(args, kwargs):
            A, zi, x = args[:3]
            self.it.calls["helion." + name] = self.it.calls.get("helion." + name, 0) + 1
            want = {"lti_shared_A_recursion_loop": 2, "lti_recursion_loop": 3,
                    "lpv_shared_A_recursion_loop": 3, "lpv_recursion_loop": 4}.get(name)
            if isinstance(A, T) and want is not None and A.ndim != want:
                raise AbsError("RuntimeError", f"kernel {name} called with a {A.ndim}-d coefficient tensor")
            return self.recurrence(A, zi, x, lpv=name.startswith("lpv"), what=name)
        return run

    def kernels_of(self, name):
        """Devices a kernel of the operator is registered for, read from the C++ sources."""
        return registered(self.it.repo).get(name, ())

    def native(self, path, name, args, kwargs):
        it = self.it
        if not path.startswith("torch.ops.philtorch."):
            if "parallel_reduce" in path:
                return self.pararnn(args)
            raise Unsupported(path)
        it.calls[name] = it.calls.get(name, 0) + 1
        if name in ("hl_lti_recurN", "hl_recurN"):
            if not it.world["helion"]:
                self.unavailable(name, "the Helion back end is absent")
            return self.recurrence(args[0], args[1], args[2], lpv=name == "hl_recurN", what=name)
        if name not in ("lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"):
            raise AbsError("AttributeError", f"torch.ops.philtorch has no operator {name}", "unavailable")
        if not it.world["ext"]:
            self.unavailable(name, "the compiled extension is absent")
        if it.world["device"].upper() not in self.kernels_of(name):
            self.unavailable(name, f"no {it.world['device'].upper()} kernel is registered for it")
        if isinstance(args[0], I.Unknown) or any(isinstance(x, I.Unknown) for x in args):
            return it.merge_unknown(*args)
        A, zi, x = args[:3]
        if name in ("lti_recur2", "recur2") and self.F.eq(x.size(x.ndim - 1), 2) is not True:
            if self.F.eq(x.size(x.ndim - 1), 2) is False:
                raise AbsError("RuntimeError", f"{name} needs a state of size 2", "shape")
            raise AbsError("RuntimeError", f"{name} needs a state of size 2", "shape")
        return self.recurrence(A, zi, x, lpv=name in ("recur2", "recurN"), what=name, scalar=name == "lti_recur", strict=True)

    def unavailable(self, name, why):
        raise AbsError("RuntimeError", f"operator {name} is called but {why}", "unavailable")

    def pararnn(self, args):
        """Block-diagonal solve h_n = -jac_n h_{n-1} + rhs_n along axis 1."""
        jac, rhs = args[:2]
        if isinstance(jac, I.Unknown) or isinstance(rhs, I.Unknown):
            return self.it.merge_unknown(jac, rhs)
        zi = self.ops.index_axis(rhs, 1, P(0))
        n = self.F.norm(rhs.size(1))
        x = self.ops.slice_axis(rhs, 1, P(1), n)
        A = self.ops.neg(self.ops.slice_axis(jac, 1, P(1), n))
        y = self.recurrence(A, zi, x, lpv=True, what="pararnn")
        return self.ops.cat([self.ops.unsqueeze(zi, 1), y], 1)

    def recurrence(self, A, zi, x, lpv, what, scalar=False, strict=False):
        """States h_n = A_n h_{n-1} + x_n, n = 0..N-1, h_{-1} = zi."""
        it, ops = self.it, self.ops
        if any(isinstance(v, I.Unknown) for v in (A, zi, x)):
            return it.merge_unknown(A, zi, x)
        def need(c, msg):
            if not c:
                raise AbsError("RuntimeError", f"{what}: {msg}")
        ops.mark_saved(A, x, what)
        if scalar:
            need(x.ndim == 2, "x must have 2 axes")
            nd = A.ndim if not lpv else A.ndim - 1
            if strict:
                need(zi.ndim == 1, "initial state must have 1 axis")
                need(A.ndim <= 1, "coefficient must have at most 1 axis")
                need(ops.same(zi.size(0), x.size(0)), f"batch sizes {self.F.norm(zi.size(0))} and {self.F.norm(x.size(0))} differ")
                if A.ndim == 1 and not ops.is_one(A.size(0)):
                    need(ops.same(A.size(0), x.size(0)), "coefficient and signal batch sizes differ")
            n = self.F.norm(x.size(1))
            if A.ndim >= 1 and not lpv and zi.ndim == 1:
                pass

            def step(h, k):
                a = ops.index_axis(A, A.ndim - 1, k) if lpv else A
                xn = ops.index_axis(x, 1, k)
                return ops.add(ops.mul(a, h), xn, what)
            h0 = ops.expand(zi, [x.size(0)]) if zi.ndim < 1 or self.F.eq(zi.size(0), x.size(0)) is not True else zi
        else:
            need(x.ndim == 3, "x must have 3 axes")
            need(zi.ndim == 2, "initial state must have 2 axes")
            base = 3 if lpv else 2
            need(A.ndim in (base, base + 1), "wrong number of axes of the state matrix")
            M = x.size(2)
            need(ops.same(A.size(A.ndim - 1), M) and ops.same(A.size(A.ndim - 2), M), "state sizes differ")
            need(ops.same(zi.size(1), M) and ops.same(zi.size(0), x.size(0)), "initial state does not match")
            if A.ndim == base + 1:
                need(ops.same(A.size(0), x.size(0)), "batch sizes differ")
            if lpv:
                need(ops.same(A.size(A.ndim - 3), x.size(1)), "time sizes differ")
            n = self.F.norm(x.size(1))

            def step(h, k):
                a = ops.index_axis(A, A.ndim - 3, k) if lpv else A
                xn = ops.index_axis(x, 1, k)
                p = ops.vecdot(a, ops.unsqueeze(h, h.ndim - 1), what)
                return ops.add(p, xn, what)
            h0 = zi
        ta = A.ndim - (1 if scalar else 3)
        if lpv and len(A.axes[ta]) > 1 and h0.is_zero() and self.F.eq(A.axes[ta][0].size, 1) is True:
            # nothing is multiplied by the first coefficient: it may belong to any time
            h = step(h0, P(0))
            rest = self.recurrence(ops.slice_axis(A, ta, P(1), n), h, ops.slice_axis(x, 1, P(1), n), lpv, what, scalar)
            return ops.cat([ops.unsqueeze(h, 1), rest], 1, what)
        if lpv and len(A.axes[ta]) > 1:
            A = ops.coalesce(A, A.ndim - (1 if scalar else 3), "coefficient time axis")
        if len(x.axes[1]) > 1:
            x = ops.coalesce(x, 1, "input time axis")
        c = n.as_int()
        if c is not None and c <= 8:
            if c == 0:
                return x
            out, h = [], h0
            for k in range(c):
                h = step(h, P(k))
                out.append(ops.unsqueeze(h, 1))
            return ops.cat(out, 1, what)

        def run(i, st):
            return {"h": step(st["h"], P(i))}, {}
        k, G, _ = it.fit({"h": h0}, ["h"], [], run, n)
        g = G["h"]
        m = ops.meta(A, x, zi)
        r = self.stack_seq(I.SeqVal(n, lambda p: it.subst_val(g, {k: self.F.norm(P(p) + 1)})), 1)
        r.cplx, r.dtype, r.dev = m["cplx"], m["dtype"], m["dev"]
        return r

    def lpc(self, args, kwargs):
        """torchlpc.sample_wise_lpc: y_n = x_n - sum_k a_{n,k} y_{n-1-k}."""
        it, ops = self.it, self.ops
        a_ = lambda i, n, d=None: self.arg(args, kwargs, i, n, d)
        x, a, zi, rz = a_(0, "x"), a_(1, "a"), a_(2, "zi"), a_(3, "return_zf", False)
        if any(isinstance(v, I.Unknown) for v in (x, a, zi)):
            u = it.merge_unknown(x, a, zi if zi is not None else 0)
            return (u, u) if rz else u
        if x.ndim != 2 or a.ndim != 3:
            raise AbsError("AssertionError", "sample_wise_lpc expects x (B, T) and a (B, T, M)", "shape")
        if not (ops.same(a.size(0), x.size(0)) and ops.same(a.size(1), x.size(1))):
            raise AbsError("AssertionError", f"sample_wise_lpc: a {self.shape(a)} does not match x {self.shape(x)}", "shape")
        M = self.F.norm(a.size(2))
        if zi is None:
            s0 = mk([x.size(0), M], None, cplx=x.cplx, dtype=x.dtype, dev=x.dev)
        else:
            if zi.ndim != 2 or not (ops.same(zi.size(0), x.size(0)) and ops.same(zi.size(1), M)):
                raise AbsError("AssertionError", f"sample_wise_lpc: zi must be (B, M)", "shape")
            ex = ops.check_mix("sample_wise_lpc", x, a, zi)
            s0 = ops.map_blocks(zi, lambda b: b.with_(taint=b.taint | ex)) if ex else zi
        ops.mark_saved(a, x, "sample_wise_lpc")
        for ax in (1,):
            if len(x.axes[ax]) > 1:
                x = ops.coalesce(x, ax, "input time axis")
            if len(a.axes[ax]) > 1:
                a = ops.coalesce(a, ax, "coefficient time axis")
        n = self.F.norm(x.size(1))

        def y_at(s, k):
            an = ops.index_axis(a, 1, k)
            xn = ops.index_axis(x, 1, k)
            return ops.add(xn, ops.neg(ops.vecdot(an, s, "sample_wise_lpc")), "sample_wise_lpc")

        def step(s, k):
            y = ops.unsqueeze(y_at(s, k), 1)
            if self.F.eq(M, 1) is True:
                return y
            if self.F.eq(M, 0) is True:
                return s
            r = ops.cat([y, ops.slice_axis(s, 1, P(0), self.F.norm(M - 1))], 1, "sample_wise_lpc")
            return ops.coalesce(r, 1, "sample_wise_lpc")

        def run(i, st):
            return {"s": step(st["s"], P(i))}, {}
        if s0.ndim == 2 and len(s0.axes[1]) > 1:
            s0 = ops.coalesce(s0, 1, "initial state")
        c = n.as_int()
        if c is not None and 0 < c <= 8:
            out, s = [], s0
            for i in range(c):
                out.append(ops.unsqueeze(y_at(s, P(i)), 1))
                s = step(s, P(i))
            y = ops.cat(out, 1, "sample_wise_lpc")
            return (y, s) if rz else y
        g = None
        if (zi is None or all(b.zero for b in s0.blocks.values())) and len(x.axes[1]) == 1 and len(x.axes[1][0].factors) == 1 and all(
                not b.zero and not b.support for b in x.blocks.values()):
            # y scales like x, and state component m before step k is y[k-1-m]
            k = tz.fresh("n")
            self.F.lb[k] = 0
            self.F.nn.append(self.F.norm(n - 1 - Poly.atom(k)))
            ta = x.axes[1][0].factors[0][0]
            seg = tz.mk([M], None).axes[0]
            ma = seg[0].factors[0][0] if seg[0].factors else None
            past = Poly.atom(k) - 1 - (Poly.atom(ma) if ma else 0)
            g = T([x.axes[0], seg], {key: b.with_(grade=b.grade.subst({ta: past}), deps=b.deps | a.deps(), taint=b.taint | a.taint())
                                     for key, b in x.blocks.items()}, x.cplx, x.dtype, x.dev)
        else:
            k, G, _ = it.fit({"s": s0}, ["s"], [], run, n)
            g = G["s"]
        y = self.stack_seq(I.SeqVal(n, lambda p: y_at(it.subst_val(g, {k: P(p)}), P(p))), 1)
        m = ops.meta(a, x)
        y.cplx, y.dtype, y.dev = m["cplx"], m["dtype"], m["dev"]
        if rz:
            zf = it.subst_val(g, {k: n})
            return y, zf
        return y

    # -------------------------------------------------------------- contracts
    def contract(self, f, args, kwargs):
        it = self.it
        self.note("call " + f.name, args, kwargs)
        rec = [x for x, _ in it.stack if x is not None and x.node is f.node]
        mod = f.module.name
        if f.attrs.get("__memo__") and any(isinstance(v, T) for v in list(args) + list(kwargs.values())):
            it.mutations.append(it.event("state", "memoised function", detail=f"results of {f.name} are cached across calls"))
        if f.name == "matrices_cumdot" and mod == "philtorch.mat" and not rec:
            A = args[0] if args else kwargs.get("A")
            if isinstance(A, T) and A.ndim >= 3:
                n = self.F.norm(A.size(A.ndim - 3))
                if n.as_int() is None:
                    return self.cumdot(A)
            return None
        if f.name == "find_eigenvectors" and mod == "philtorch.mat" and any(x is not None for x, _ in it.stack):
            ts = [v for v in list(args) + list(kwargs.values()) if isinstance(v, T)]
            if len(ts) == 2 and ts[0].ndim == ts[1].ndim + 1:
                return self.eigenvectors(*ts)
        if f.name == "trim_zeros" and mod.endswith("poly") and any(x is not None for x, _ in it.stack):
            # the leading coefficient is taken to be nonzero
            if len(args) == 1 and not kwargs and isinstance(args[0], T) and args[0].ndim == 1:
                return args[0]
        if not rec:
            return None
        b = it.bind(f, args, kwargs)
        vals = list(b.values())
        if len(vals) == 2 and isinstance(vals[0], T) and isinstance(vals[1], I.FactorList):
            return self.powers(vals[0], vals[1].prod)
        if mod.startswith(("philtorch.lti", "philtorch.lpv")) and len(vals) >= 3 and all(isinstance(v, (T, I.Unknown)) for v in vals[:3]):
            A, zi, x = vals[:3]
            if any(isinstance(v, I.Unknown) for v in vals[:3]):
                return it.merge_unknown(*vals[:3])
            lpv = mod.startswith("philtorch.lpv")
            if x.ndim == 2 and A.ndim <= (2 if lpv else 1):
                return self.recurrence(A, zi, x, lpv, f.name, scalar=True)
            if x.ndim == 2:
                M = A.size(A.ndim - 1)
                z = mk(x.shape() + [self.F.norm(M - 1)], None, cplx=x.cplx, dtype=x.dtype, dev=x.dev)
                x = self.ops.cat([self.ops.unsqueeze(x, 2), z], 2)
            r = self.recurrence(A, zi, x, lpv, f.name)
            oi = b.get("out_idx")
            if oi is not None and isinstance(r, T):
                r = self.ops.index_axis(r, 2, self.pos(oi, r.size(2)))
            return r
        if all(self.concrete_size(v) for v in vals):
            return None           # ordinary recursion on concrete structure
        raise Unsupported(f"recursive call of {f.name}")

    def concrete_size(self, v):
        return not isinstance(v, (I.FactorList, I.SeqVal))

    def powers(self, A, n):
        """[A, A^2, ..., A^n] along a new axis -3."""
        it = self.it
        n = self.F.norm(n)
        seq = I.SeqVal(n, lambda p: A)
        acc = it.accumulate(seq, lambda a, b: self.ops.matmul(a, b), "matrix powers")
        return self.stack_seq(acc, -3)

    def cumdot(self, A):
        it = self.it
        d = A.ndim - 3
        n = self.F.norm(A.size(d))
        if len(A.axes[d]) > 1:
            A = self.ops.coalesce(A, d, "matrix sequence")
        seq = I.SeqVal(n, lambda p: self.ops.index_axis(A, d, P(p)))
        acc = it.accumulate(seq, lambda a, b: self.ops.matmul(a, b), "cumulative product")
        return self.stack_seq(acc, -3)


def kw_true(v):
    return v is True
