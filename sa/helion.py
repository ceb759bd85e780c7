"""Helion kernels (philtorch/_helion.py): the tile loops are read as loops over the elements of a
tile and handed to the obligations of the native kernels (bounds, independence, recurrence)."""
import ast
import os

from .poly import Poly
from .cppbase import (Cond, Data, Int, Loop, Opaque, Ptr, Reject, Ret, Tensor, Tup, Und, Infeasible, evaluate, nonneg, witnesses)
from .cppcore import Forker
from .cppsem import Interp
from . import kernels as K
from .recur import recurrence

ONE, ZERO = Poly.const(1), Poly.const(0)


class Tile:
    def __init__(self, lp, lo, n):
        self.lp, self.lo, self.n = lp, lo, n
        self.p = lo + lp.p


class Dim:
    """Dimension of a block: a whole range (size) or the elements of one tile."""

    def __init__(self, size, tile=None):
        self.size, self.tile = size, tile


class Block:
    """Value of a tile expression: dims, and fn(index polynomials) -> data polynomial."""

    def __init__(self, dims, fn):
        self.dims, self.fn = dims, fn


class Mod:
    def __init__(self, name):
        self.name = name


class Var:
    def __init__(self, c, dims=None):
        self.c, self.dims = c, dims


class HL(Interp):
    def __init__(self, report, tree, path):
        super().__init__(None, report)
        self.mods = {}
        for s in tree.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.mods[a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.mods[a.asname or a.name] = Mod(f"{s.module}.{a.name}")
        self.tree, self.path = tree, path
        self.outer = True
        self.consts = {t.id: s.value for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}

    # -- kernels
    def kernel(self, f, args):
        self.calls.append((f.name, self.path))
        names = [a.arg for a in f.args.posonlyargs + f.args.args]
        env = {"^": None}
        if len(names) < len(args):
            raise Und("parameters")
        for n, v in zip(names, args):
            env[n] = Var(self.bind({"^": None}, n, v))
        ds = f.args.defaults
        for a, d in zip(f.args.args[len(f.args.args) - len(ds):], ds):
            if a.arg not in env:
                env[a.arg] = Var(self.bind({"^": None}, a.arg, self.ev(d, env)))
        try:
            self.block(f.body, env)
        except Ret as r:
            return r.v
        return None

    def block(self, body, env):
        for s in body:
            self.st(s, env)

    def st(self, s, env):
        self.steps += 1
        if isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env))
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t, env)
            self.assign(t, self.binop(s.op, old, self.ev(s.value, env), s.lineno), env)
        elif isinstance(s, ast.For):
            self.loop(s, env)
        elif isinstance(s, ast.If):
            c = self.cond(self.ev(s.test, env))
            self.block(s.body if self.decide(c) else s.orelse, env)
        elif isinstance(s, (ast.Assert, ast.Pass)):
            pass
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        else:
            raise Und(type(s).__name__)

    def cond(self, c):
        if isinstance(c, (bool, Cond)):
            return c
        raise Und("condition")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            dims = None
            if isinstance(v, Block):
                if v.dims and all(d.tile is not None for d in v.dims):
                    dims = v.dims
                    v = Data(v.fn([d.tile.p for d in dims]))
                elif not v.dims:
                    v = Data(v.fn([]))
            o = env.get(t.id)
            if o is not None and isinstance(o.c.v, Data) and isinstance(v, Data) and [d.tile.lp for d in o.dims or ()] == [d.tile.lp for d in dims or ()]:
                o.c.v = v
            elif o is not None and isinstance(o.c.v, (Int, Tensor)) and type(o.c.v) is type(v) and o.c in self.cells:
                o.c.v = v
            else:
                env[t.id] = Var(self.bind({"^": None}, t.id, v), dims)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = v.items if isinstance(v, Tup) else None
            if items is None or len(items) != len(t.elts):
                raise Und("unpacking")
            for a, b in zip(t.elts, items):
                self.assign(a, b, env)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            if not isinstance(base, Tensor):
                raise Und("store into a value")
            self.put(base, self.index(t, env), v, t.lineno)
        else:
            raise Und("assignment target")

    # -- loops
    def loop(self, s, env):
        if s.orelse:
            raise Und("for/else")
        kind, args, kw = None, [], {}
        if isinstance(s.iter, ast.Call):
            f = self.ev(s.iter.func, env)
            kind = f.name.split(".")[-1] if isinstance(f, Mod) else None
            args = [self.ev(a, env) for a in s.iter.args]
        if kind not in ("tile", "grid", "range", "static_range", "tile_range"):
            raise Und("loop over something else")
        if kind == "range" and self.loops:
            kind = "grid"
        if any(k.arg not in ("block_size",) for k in s.iter.keywords):
            raise Und("loop option")
        lo, hi = (ZERO, args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) > 2:
            raise Und("loop step")
        los = lo.items if isinstance(lo, Tup) else None
        his = [self.poly(x) for x in (hi.items if isinstance(hi, Tup) else [hi])]
        los = [self.poly(x) for x in los] if los is not None else [self.poly(lo)] * len(his) if isinstance(lo, Poly) else [self.poly(lo)] * len(his)
        names = [s.target] if not isinstance(hi, Tup) else (list(s.target.elts) if isinstance(s.target, (ast.Tuple, ast.List)) else None)
        if names is None or len(names) != len(his) or len(los) != len(his):
            raise Und("loop target")
        outer = not self.loops
        tile = kind.startswith("tile")

        def go(k, vals):
            if k == len(his):
                e = dict(env)
                for nm, v in zip(names, vals):
                    if isinstance(nm, ast.Name):
                        e[nm.id] = Var(self.bind({"^": None}, nm.id, v))
                    else:
                        raise Und("loop target")
                self.block(s.body, e)
                return
            holder = {}

            def once():
                lp = holder["lp"]
                # the elements of a tile are computed together; only the outermost loops run in parallel programs
                go(k + 1, vals + [Tile(lp, los[k], his[k] - los[k]) if tile else Int(los[k] + lp.p)])
            self.run_loop(s.lineno, once, n=self.facts.norm(his[k] - los[k]), par=True if outer else ("tile" if tile else False), holder=holder)
        go(0, [])

    def poly(self, v):
        if isinstance(v, Poly):
            return v
        return self.as_int(v).p

    # -- expressions
    def ev(self, n, env):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or n.value is None:
                return n.value
            if isinstance(n.value, int):
                return Int(n.value)
            if isinstance(n.value, float):
                return Data(Poly.const(n.value)) if n.value == int(n.value) else Opaque("float")
            return Opaque(n.value)
        if isinstance(n, ast.Name):
            v = env.get(n.id)
            if v is not None:
                if v.dims is not None:
                    c = v.c
                    p = c.v.p if isinstance(c.v, Data) else None
                    if p is None:
                        raise Und(f"value of {n.id}")
                    return Block(v.dims, lambda idx: p)
                return v.c.v
            if n.id in self.mods:
                return self.mods[n.id]
            if n.id in self.consts:
                return self.ev(self.consts[n.id], {"^": None})
            return Mod(n.id)
        if isinstance(n, (ast.Tuple, ast.List)):
            return Tup([self.ev(e, env) for e in n.elts])
        if isinstance(n, ast.Attribute):
            o = self.ev(n.value, env)
            if isinstance(o, Mod):
                return Mod(o.name + "." + n.attr)
            return self.attr(o, n.attr, n.lineno)
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value, env)
            if isinstance(o, Tup):
                i = self.as_int(self.ev(n.slice, env)).p
                if not i.is_const():
                    raise Und("subscript")
                try:
                    return o.items[int(i.const_value())]
                except IndexError:
                    raise Reject()
            if isinstance(o, Tensor):
                return self.get(o, self.index(n, env), n.lineno)
            if isinstance(o, Block):
                return self.bindex(o, self.index(n, env))
            raise Und("subscript")
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env), n.lineno)
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.USub):
                if isinstance(v, Int):
                    return Int(-v.p)
                if isinstance(v, Data):
                    return Data(-v.p)
                if isinstance(v, Block):
                    return Block(v.dims, lambda idx: -v.fn(idx))
            if isinstance(n.op, ast.Not):
                return Cond("not", self.cond(v))
            raise Und("unary operator")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.poly(self.ev(n.left, env)), self.poly(self.ev(n.comparators[0], env))
            o = type(n.ops[0]).__name__
            p = a - b
            return {"Eq": lambda: Cond("eq", p), "NotEq": lambda: Cond("ne", p), "Gt": lambda: Cond("ge", p - 1), "GtE": lambda: Cond("ge", p),
                    "Lt": lambda: Cond("ge", -p - 1), "LtE": lambda: Cond("ge", -p)}[o]()
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.decide(self.cond(self.ev(n.test, env))) else n.orelse, env)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        raise Und(type(n).__name__)

    def attr(self, o, name, line):
        if isinstance(o, Tensor):
            if name == "shape":
                return Tup([Int(s) for s in o.shape])
            if name in ("T", "mT", "mH", "H"):
                if name in ("mH", "H"):
                    raise Und("conjugate")
                r = list(range(len(o.shape)))
                return self.permute(o, r[::-1] if name == "T" else r[:-2] + [r[-1], r[-2]])
            if name == "ndim":
                return Int(len(o.shape))
            if name in ("dtype", "device"):
                return Opaque((name, o.dtype))
        if isinstance(o, Block):
            if name in ("mT", "T"):
                return self.bperm(o, len(o.dims) - 2, len(o.dims) - 1)
            if name in ("dtype", "device"):
                return Opaque((name, "dtype"))
        raise Und(f"attribute {name}")

    def call(self, n, env):
        f = n.func
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        args = [self.ev(a, env) for a in n.args]
        line = n.lineno
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, env)
            if not isinstance(o, Mod):
                return self.meth(o, f.attr, args, kw, line)
            name = (o.name + "." + f.attr)
        else:
            m = self.ev(f, env)
            if not isinstance(m, Mod):
                raise Und("call")
            name = m.name
        last = name.split(".")[-1]
        if last in ("matmul", "mm", "bmm", "dot", "mv") and len(args) >= 2:
            r = self.matmul(self.blk(args[0], line), self.blk(args[1], line), line)
            return self.binop(ast.Add(), kw["acc"], r, line) if "acc" in kw else r
        if last in ("addmm", "baddbmm", "addbmm", "addmv") and len(args) == 3 and not kw:
            return self.binop(ast.Add(), args[0], self.matmul(self.blk(args[1], line), self.blk(args[2], line), line), line)
        if last in ("add", "sub", "mul") and len(args) == 2 and not kw:
            return self.binop({"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult()}[last], args[0], args[1], line)
        if last in ("zeros", "full") and args and isinstance(args[0], Tup) and any(isinstance(x, Tile) for x in args[0].items):
            if last == "full" and not (len(args) > 1 and isinstance(args[1], (Int, Data)) and args[1].p.is_zero()):
                raise Und("full")
            dims = [Dim(x.n, x) if isinstance(x, Tile) else Dim(self.poly(x)) for x in args[0].items]
            return Block(dims, lambda idx: ZERO)
        if last == "sum" and args and isinstance(args[0], Block):
            return self.meth(args[0], "sum", args[1:], kw, line)
        if last in ("cat", "stack", "concat", "concatenate"):
            a = [args[0], kw.get("dim", args[1] if len(args) > 1 else Int(0))]
            return self.aten(last, a, (), line)
        if last in ("empty", "zeros", "empty_like", "zeros_like", "transpose", "unsqueeze", "squeeze", "permute", "reshape", "flatten", "flip", "clone"):
            if args and isinstance(args[0], (Block,)):
                return self.meth(args[0], last, args[1:], kw, line)
            if last in ("empty", "zeros"):
                if len(args) == 1 and isinstance(args[0], Tup):
                    return self.alloc([self.poly(x) for x in args[0].items], "dtype", last)
                return self.alloc([self.poly(x) for x in args], "dtype", last)
            return self.tmeth(args[0], last, args[1:], kw, line)
        if last in ("len",) and isinstance(args[0], Tensor):
            return Int(args[0].shape[0])
        if last in ("specialize", "int", "register_block_size"):
            return args[0]
        raise Und(f"call of {name}")

    def tmeth(self, t, name, args, kw, line):
        if "dim" in kw and name in ("unsqueeze", "squeeze"):
            args, kw = [kw.pop("dim")] + args, kw
        if kw and name not in ("new_empty", "new_zeros", "clone"):
            raise Und(f"keyword of {name}")
        if name in ("float", "double", "half", "to", "type_as"):
            return t
        if name in ("new_empty", "new_zeros") and args and not isinstance(args[0], Tup):
            args = [Tup(args)]
        if name == "copy_" and args and isinstance(args[0], Tensor) and not t.arg:
            raise Und("copy_")
        if name == "size" and args:
            return self.method(t, "size", args, (), line)
        return self.method(t, name, args, (), line)

    def meth(self, o, name, args, kw, line):
        if isinstance(o, Tensor):
            return self.tmeth(o, name, args, kw, line)
        if isinstance(o, Block):
            nd = len(o.dims)

            def d(k, extra=0):
                v = int(self.poly(k).const_value())
                return v + nd + extra if v < 0 else v
            if name in ("matmul", "bmm", "mm"):
                return self.matmul(o, self.blk(args[0], line), line)
            if name in ("add", "sub", "mul"):
                return self.binop({"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult()}[name], o, args[0], line)
            if name in ("to", "float", "double", "half", "contiguous", "clone", "type_as"):
                return o
            if name == "transpose":
                return self.bperm(o, d(args[0]), d(args[1]))
            if name == "unsqueeze":
                k = d(kw.get("dim", args[0] if args else None), 1)
                return self.bindex(o, [slice(None)] * k + [None])
            if name == "squeeze":
                k = d(kw.get("dim", args[0] if args else None))
                if o.dims[k].tile is None and o.dims[k].size == ONE:
                    return self.bindex(o, [slice(None)] * k + [Int(0)])
                raise Und("squeeze")
            if name == "sum":
                k = d(kw.get("dim", args[0] if args else None))
                keep = kw.get("keepdim", args[1] if len(args) > 1 else False) is True
                dm = o.dims[k]
                if dm.tile is not None:
                    raise Und("sum over a tile")

                def fn(idx):
                    rest = idx if not keep else idx[:k] + idx[k + 1:]
                    return self.summed(dm.size, lambda p: o.fn(rest[:k] + [p] + rest[k:]), line)
                return Block(o.dims[:k] + ([Dim(ONE)] if keep else []) + o.dims[k + 1:], fn)
        raise Und(f"method {name}")

    def summed(self, n, fn, line):
        c = self.bind({"^": None}, "(sum)", Data(0))
        holder = {}

        def once():
            c.v = Data(c.v.p + fn(holder["lp"].p))
        if self.facts.norm(n) == ONE:
            return fn(ZERO)
        self.run_loop(line, once, n=n, par=False, holder=holder)
        if not isinstance(c.v, Data):
            raise Und("sum")
        return c.v.p

    # -- blocks
    def blk(self, v, line):
        if isinstance(v, Block):
            return v
        if isinstance(v, Tensor):
            return self.get(v, [], line)
        if isinstance(v, Data):
            return Block([], lambda idx: v.p)
        if isinstance(v, Int) and v.p.is_const():
            return Block([], lambda idx: v.p)
        raise Und("operand")

    def binop(self, op, a, b, line):
        o = type(op).__name__
        if isinstance(a, (Int, Tile)) and isinstance(b, (Int, Tile)):
            if isinstance(a, Tile) or isinstance(b, Tile):
                if isinstance(a, Tile) and isinstance(b, Int) and o in ("Add", "Sub"):
                    return Tile(a.lp, a.lo + b.p if o == "Add" else a.lo - b.p, a.n)
                if isinstance(b, Tile) and isinstance(a, Int) and o == "Add":
                    return Tile(b.lp, b.lo + a.p, b.n)
                raise Und("arithmetic on a tile")
            if o in ("Add", "Sub", "Mult"):
                return Int({"Add": lambda: a.p + b.p, "Sub": lambda: a.p - b.p, "Mult": lambda: a.p * b.p}[o]())
            raise Und("integer operator")
        if isinstance(a, Tup) and isinstance(b, Tup) and o == "Add":
            return Tup(a.items + b.items)
        if isinstance(a, Tensor) and isinstance(b, Tensor) and not self.loops:
            raise Und("tensor arithmetic")
        a, b = self.blk(a, line), self.blk(b, line)
        if o == "MatMult":
            return self.matmul(a, b, line)
        if o not in ("Add", "Sub", "Mult"):
            raise Und("operator")
        dims, pa, pb = self.broadcast(a.dims, b.dims, line)

        def fn(idx):
            x, y = a.fn(pa(idx)), b.fn(pb(idx))
            return x + y if o == "Add" else (x - y if o == "Sub" else x * y)
        return Block(dims, fn)

    def samedim(self, x, y):
        if x.tile is not None or y.tile is not None:
            return x.tile is not None and y.tile is not None and x.tile.lp is y.tile.lp
        return self.facts.norm(x.size - y.size).is_zero()

    def unit(self, d):
        return d.tile is None and self.facts.norm(d.size) == ONE

    unit_ = unit

    def broadcast(self, da, db, line):
        n = max(len(da), len(db))
        xa, xb = [None] * (n - len(da)) + da, [None] * (n - len(db)) + db
        dims = []
        for x, y in zip(xa, xb):
            if x is None or y is None:
                dims.append(x or y)
            elif self.samedim(x, y):
                dims.append(x)
            elif self.unit_(x):
                dims.append(y)
            elif self.unit_(y):
                dims.append(x)
            else:
                self.mismatch(x, y, line)

        def proj(xs):
            return lambda idx: [ZERO if (not self.samedim(x, d)) else i for x, d, i in zip(xs, dims, idx) if x is not None]
        return dims, proj(xa), proj(xb)

    def mismatch(self, x, y, line):
        if (x.tile is None) != (y.tile is None) or (x.tile is not None and x.tile.lp is not y.tile.lp):
            self.report("C03", "tile", "the dimensions of two operands are a tile of one loop and a range that is not that tile", line, self.file(), self.func())
        raise Und("operands of different shapes")

    def bperm(self, o, a, b):
        p = list(range(len(o.dims)))
        p[a], p[b] = p[b], p[a]
        return Block([o.dims[k] for k in p], lambda idx: o.fn([idx[p.index(k)] for k in range(len(p))]))

    def bindex(self, o, ix):
        dims, plan, k = [], [], 0
        for i in ix:
            if i is None:
                dims.append(Dim(ONE))
                plan.append(None)
            elif isinstance(i, slice) and i == slice(None):
                dims.append(o.dims[k])
                plan.append("d")
                k += 1
            elif isinstance(i, Int) and o.dims[k].tile is None:
                plan.append(i.p)
                k += 1
            else:
                raise Und("subscript of a block")
        for d in o.dims[k:]:
            dims.append(d)
            plan.append("d")

        def fn(idx):
            it = iter(idx)
            out = []
            for p in plan:
                if p is None:
                    next(it)
                elif isinstance(p, str):
                    out.append(next(it))
                else:
                    out.append(p)
            return o.fn(out)
        return Block(dims, fn)

    def matmul(self, a, b, line):
        va, vb = len(a.dims) == 1, len(b.dims) == 1
        if va:
            a = self.bindex(a, [None])
        if vb:
            b = self.bindex(b, [slice(None), None])
        if len(a.dims) < 2 or len(b.dims) < 2:
            raise Und("matmul")
        x, y = a.dims[-1], b.dims[-2]
        if not self.samedim(x, y):
            self.mismatch(x, y, line)
        batch, pa, pb = self.broadcast(a.dims[:-2], b.dims[:-2], line)
        rows, cols = a.dims[-2], b.dims[-1]
        dims = batch + ([] if va else [rows]) + ([] if vb else [cols])

        def fn(idx):
            q = idx[:len(batch)]
            rest = list(idx[len(batch):])
            i = ZERO if va else rest.pop(0)
            j = ZERO if vb else rest.pop(0)

            def term(k):
                return a.fn(pa(q) + [i, k]) * b.fn(pb(q) + [k, j])
            if x.tile is not None:
                return term(x.tile.p)       # the loop over the tiles completes the sum
            return self.summed(x.size, term, line)
        return Block(dims, fn)

    # -- memory
    def index(self, n, env):
        e = n.slice
        es = e.elts if isinstance(e, ast.Tuple) else [e]
        out = []
        for s in es:
            if isinstance(s, ast.Slice):
                lo = self.ev(s.lower, env) if s.lower is not None else None
                hi = self.ev(s.upper, env) if s.upper is not None else None
                if s.step is not None:
                    raise Und("strided slice")
                out.append(slice(lo, hi))
            elif isinstance(s, ast.Constant) and s.value is Ellipsis:
                out.append(Ellipsis)
            else:
                out.append(self.ev(s, env))
        return out

    def spread(self, t, ix):
        if Ellipsis in [i for i in ix if i is Ellipsis]:
            k = next(j for j, i in enumerate(ix) if i is Ellipsis)
            used = len([i for i in ix if i is not None and i is not Ellipsis])
            ix = ix[:k] + [slice(None)] * (len(t.shape) - used) + ix[k + 1:]
        used = len([i for i in ix if i is not None])
        if used > len(t.shape):
            raise Reject()
        return ix + [slice(None)] * (len(t.shape) - used)

    def get(self, t, ix, line):
        ix = self.spread(t, ix)
        if not any(isinstance(i, Tile) for i in ix) and not self.loops:
            # ordinary tensor views outside the kernel
            d = 0
            for i in ix:
                if i is None:
                    t = self.unsqueeze(t, d)
                    d += 1
                elif isinstance(i, slice):
                    if i != slice(None):
                        t = self.slice(t, d, None if i.start is None else self.poly(i.start), None if i.stop is None else self.poly(i.stop))
                    d += 1
                else:
                    t = self.select(t, d, self.poly(i))
            return t
        dims, plan = [], []
        k = 0
        for i in ix:
            if i is None:
                dims.append(Dim(ONE))
                plan.append(None)
                continue
            if isinstance(i, Tile):
                dims.append(Dim(i.n, i))
                plan.append(("t", i, k))
            elif isinstance(i, slice):
                lo, hi = self.bounds_of(i, t.shape[k])
                dims.append(Dim(self.facts.norm(hi - lo)))
                plan.append(("r", lo, k))
            else:
                p = self.poly(i)
                if p.is_const() and p.const_value() < 0:
                    p = t.shape[k] + p
                plan.append(("i", p, k))
            k += 1
        tt = t

        def fn(idx):
            it = iter(idx)
            out = []
            for q in plan:
                if q is None:
                    next(it)
                elif q[0] == "i":
                    out.append(q[1])
                elif q[0] == "t":
                    next(it)
                    out.append(q[1].p)
                else:
                    out.append(q[1] + next(it))
            return self.fetch(tt, out, line)
        return Block(dims, fn)

    def bounds_of(self, s, n):
        lo = ZERO if s.start is None else self.poly(s.start)
        hi = n if s.stop is None else self.poly(s.stop)
        if lo.is_const() and lo.const_value() < 0:
            lo = n + lo
        if hi.is_const() and hi.const_value() < 0:
            hi = n + hi
        return lo, hi

    def inside(self, t, idx, line, what):
        for d, (i, s) in enumerate(zip(idx, t.shape)):
            f, i, s = self.facts, self.facts.norm(i), self.facts.norm(s)
            if nonneg(f, self.loops, i) and nonneg(f, self.loops, s - 1 - i):
                continue
            for env in witnesses(f, [i, s], self.loops):
                o, e = evaluate(i, env), evaluate(s, env)
                if o < 0 or o >= e:
                    self.report("C01", "bounds", f"{what} index {o} of dimension {d} of {t.name}, which has {e} elements ({K.names_of(K.full(f, env))})",
                                line, self.file(), self.func())
                    return

    def where_(self, t, idx, line, write):
        v = getattr(t, "view", None)
        base = v[0] if v is not None else t
        if base.contig is True and (write or base.arg is None):
            self.data_ptr(base, line, True)
        return self.at(t, idx)

    def fetch(self, t, idx, line):
        self.inside(t, idx, line, "reads")
        r = self.where_(t, idx, line, False)
        if r is not None and r[0] == "st":
            return self.load(Ptr(r[1], r[2]), line).p
        if r is not None and r[0] == "none":
            raise Und("uninitialised element")
        return self.ref(r)

    def put(self, t, ix, v, line):
        ix = self.spread(t, ix)
        if any(i is None for i in ix):
            raise Und("new axis in a store")
        b = self.blk(v, line)
        dims = []
        for k, i in enumerate(ix):
            if isinstance(i, Tile):
                dims.append(Dim(i.n, i))
            elif isinstance(i, slice):
                lo, hi = self.bounds_of(i, t.shape[k])
                dims.append(Dim(self.facts.norm(hi - lo)))
        _, _, pb = self.broadcast(dims, b.dims, line)
        if len(b.dims) > len(dims):
            raise Und("store of a larger block")

        def go(k, out, idx):
            if k == len(ix):
                self.inside(t, out, line, "writes")
                p = b.fn(pb(idx))
                r = self.where_(t, out, line, True)
                if r is None or r[0] != "st":
                    if t.arg:
                        self.report("C05", "mutate", f"stores to memory of the caller's argument {t.arg}", line, self.file(), self.func())
                    raise Und("store into a tensor of unknown layout")
                self.store(Ptr(r[1], r[2]), Data(p), line)
                return
            i = ix[k]
            if isinstance(i, Tile):
                go(k + 1, out + [i.p], idx + [i.p])
            elif isinstance(i, slice):
                lo, hi = self.bounds_of(i, t.shape[k])
                n = self.facts.norm(hi - lo)
                if n == ONE:
                    go(k + 1, out + [lo], idx + [ZERO])
                    return
                holder = {}

                def once():
                    p = holder["lp"].p
                    go(k + 1, out + [lo + p], idx + [p])
                self.run_loop(line, once, n=n, par=False, holder=holder)
            else:
                p = self.poly(i)
                if p.is_const() and p.const_value() < 0:
                    p = t.shape[k] + p
                go(k + 1, out + [p], idx)
        go(0, [], [])


SPEC = {"lti_shared_A_recursion_loop": ("lti", 2), "lti_recursion_loop": ("lti", 3),
        "lpv_shared_A_recursion_loop": ("lpv", 3), "lpv_recursion_loop": ("lpv", 4)}


def kernels(repo):
    """(functions of _helion.py that carry the kernel decorator, tree, path)"""
    p = os.path.join(repo, "philtorch", "_helion.py")
    if not os.path.exists(p):
        return [], None, p
    with open(p) as f:
        tree = ast.parse(f.read())
    out = []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef) and any("kernel" in ast.unparse(d.func if isinstance(d, ast.Call) else d) or "jit" in ast.unparse(d) for d in s.decorator_list):
            out.append(s)
    return out, tree, p


def paths(f, tree, path, kind, rank, report):
    """Accepted paths of one kernel for the documented shapes."""
    out, und = [], []
    todo = [[]]
    n = 0
    while todo and n < 20:
        pre = todo.pop()
        n += 1
        it = HL(report, tree, path)
        fk = Forker(pre, 0)
        it.forks = [fk]
        B, T, M = Poly.atom("x0"), Poly.atom("Tn") - 1, Poly.atom("x2")
        for a in ("x0", "Tn", "x2"):
            it.facts.lb[a] = 1
        sa = {("lti", 2): [M, M], ("lti", 3): [B, M, M], ("lpv", 3): [T, M, M], ("lpv", 4): [B, T, M, M]}[(kind, rank)]
        args = []
        for nm, sh in (("A", sa), ("z", [B, M]), ("x", [B, T, M])):
            t = Tensor(sh, (lambda nm: lambda idx, it: ("src", nm, tuple(idx)))(nm), None, "dtype", nm, arg=nm)
            t.bound = True
            args.append(t)
        try:
            ret = it.kernel(f, args)
            q = K.Path(it, ret, args)
            q.where = (f.lineno, path, f.name)
            out.append(q)
        except (Reject, Infeasible):
            pass
        except Und as e:
            und.append(str(e))
        except RecursionError:
            und.append("expression too deep")
        for i in range(len(pre), len(fk.taken)):
            todo.append(fk.taken[:i] + [not fk.taken[i]])
    return out, und


def check(repo):
    """statistics, findings"""
    fs, tree, path = kernels(repo)
    stats, found = {}, {}
    for f in fs:
        if f.name not in SPEC:
            stats[f.name] = dict(undetermined=[f"{f.name}: kernel without a specification"], ok=0, accesses=0, proved=0, pairs=0, stores=0)
            continue
        kind, rank = SPEC[f.name]
        st = stats[f.name] = dict(undetermined=[], ok=0, accesses=0, proved=0, pairs=0, stores=0)
        c = K.Case("lti_recurN" if kind == "lti" else "recurN", "helion", f.name, None, path, (rank, 2, 3))

        def rep(prop, rule, msg, line, file, func):
            k = (prop, rule, func, line, msg if rule not in ("bounds", "race") else "")
            found.setdefault(k, dict(prop=prop, rule=rule, msg=msg, line=line, file=file, func=func, case=c.id))
        try:
            ps, und = paths(f, tree, path, kind, rank, rep)
        except Exception as e:
            st["undetermined"].append(f"{f.name}: {type(e).__name__}: {e}"[:200])
            continue
        st["undetermined"] += [f"{f.name}: {u}" for u in und]
        from .native import effects
        for q in ps:
            for a in q.log:
                for l in a.loops:
                    if l.par == "tile":
                        l.par = True
            for name, g in (("bounds", K.bounds), ("races", K.races), ("recurrence", recurrence), ("effects", effects)):
                try:
                    g(q, c, rep, st)
                except Exception as e:
                    st["undetermined"].append(f"{f.name}: {name}: {type(e).__name__}: {e}"[:200])
    return stats, list(found.values())


if __name__ == "__main__":
    import sys
    s, f = check(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    for k, v in s.items():
        print(k, v)
    for x in f:
        print(x)
