"""Statements and expressions of the native sources (see cppbase)."""
import re

from . import cpp
from .poly import Poly
from .cppaten import Aten
from .cppbase import (Cond, Cont, Data, Fun, Infeasible, Int, INTW, It, Lam, Loop, Obj, Opaque, Ptr, Reject, Ret, Store, Tensor, Tup, Und,
                      split)
from .cppcore import Core
from .cpploops import Loops
from .cppthrust import Thrust

DTYPES = ("kHalf", "kBFloat16", "kLong", "kFloat", "kDouble", "kComplexFloat", "kComplexDouble", "kInt", "kBool", "kComplexHalf", "kShort",
          "kChar", "kByte")


class Interp(Core, Loops, Aten, Thrust):
    def __init__(self, unit, report):
        super().__init__(unit, report)
        self.ptr_owner = {}
        self.uses_strides = False
        self.novalue = False        # only the addresses matter: element values are not followed
        self.omp = None
        self.scans = []
        self.scalar = None       # dtype the kernel is instantiated for

    def split(self, flat, dims):
        return split(flat, dims, self.facts, self.loops)

    # -- functions --------------------------------------------------------
    def call_func(self, f, args, line, this=None, argcells=None):
        if f.body is None or f.body.k == "opaque":
            raise Und(f"function {f.name} is not parsed")
        if len(self.calls) > 20:
            raise Und("recursion")
        env = {"^": None}
        if this is not None:
            for n, v in this.fields.items():
                self.bind(env, n, v)
            env["this"] = None
            env.pop("this")
        self.calls.append((f.name, f.path))
        self.funcs_seen.add((f.path, f.name, f.line))
        names = self.tnames
        self.tnames = set(names) | set(f.tparams or ())
        try:
            for k, (n, ty, d) in enumerate(f.params):
                ref = None
                if k < len(args):
                    v = args[k]
                    if ty.ref and not ty.const and argcells and argcells[k] is not None:
                        ref = argcells[k]
                else:
                    if d is None:
                        raise Und(f"missing argument {n} of {f.name}")
                    v = self.ev(d, env)
                if n:
                    c = self.bind(env, n, self.convert(v, ty, line, f.tparams or ()) if ref is None else v, ty, ref)
                    if isinstance(c.v, Tensor):
                        pass
            try:
                self.stmt(f.body, env)
            except Ret as r:
                return self.convert(r.v, f.ret, line, f.tparams or ()) if f.ret is not None and not isinstance(r.v, Tensor) else r.v
            return None
        finally:
            self.tnames = names
            self.calls.pop()

    tnames = set()

    def invoke(self, v, args, line, argcells=None):
        """Call a callable value."""
        if isinstance(v, Lam):
            env = {"^": v.env}
            n = v.node
            for k, (nm, ty, d) in enumerate(n.params):
                ref = argcells[k] if ty.ref and not ty.const and argcells and argcells[k] is not None else None
                val = args[k] if k < len(args) else self.ev(d, env)
                self.bind(env, nm, val if ref is not None else self.convert(val, ty, line, self.tnames), ty, ref)
            try:
                self.stmt(n.body, env)
            except Ret as r:
                return r.v
            return None
        if isinstance(v, Obj):
            ms = v.st.methods.get("operator()")
            if not ms or ms[0].k == "opaque":
                raise Und(f"call of {v.st.name}")
            f = next((m for m in ms if len(m.params) == len(args)), ms[0])
            names = self.tnames
            self.tnames = set(names) | set(v.st.tparams or ())
            try:
                return self.call_func(f, args, line, this=v)
            finally:
                self.tnames = names
        if isinstance(v, Fun):
            return self.call_name(v.name, args, v.targs, line, argcells)
        if isinstance(v, It) and v.kind == "zipfn":
            t = args[0]
            return self.invoke(v.fn, t.items if isinstance(t, Tup) else args, line)
        raise Und(f"call of {type(v).__name__}")

    # -- statements -------------------------------------------------------
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 60000:
            raise Und("analysis budget")
        k = s.k
        if k == "block":
            e = {"^": env}
            for x in s.body:
                self.stmt(x, e)
        elif k == "decl":
            for name, ty, init, dims in s.vars:
                self.declare(name, ty, init, dims, env, s)
        elif k == "bind":
            v = self.ev(s.init, env)
            items = v.items if isinstance(v, Tup) else (list(v.fields.values()) if isinstance(v, Obj) else None)
            if items is None or len(items) != len(s.names):
                raise Und("structured binding")
            for n, x in zip(s.names, items):
                self.bind(env, n, x)
        elif k == "expr":
            self.ev(s.e, env)
        elif k == "if":
            e = {"^": env}
            if s.init is not None:
                self.stmt(s.init, e)
            c = self.cond_of(s.cond, e)
            if self.decide(c):
                self.stmt(s.then, e)
            elif s.els is not None:
                self.stmt(s.els, e)
        elif k == "for":
            self.for_(s, env, None)
        elif k == "omp":
            self.omp_(s, env)
        elif k == "range":
            self.range_(s, env)
        elif k == "return":
            raise Ret(self.ev(s.value, env) if s.value is not None else None)
        elif k == "continue":
            raise Cont()
        elif k == "throw":
            raise Reject()
        elif k in ("empty",):
            pass
        elif k == "alias":
            self.unit.alias.setdefault(s.name, s.type)
        elif k == "break":
            raise Und("break")
        else:
            raise Und(f"statement {k}")

    def cond_of(self, c, env):
        if c.k == "expr":
            return self.as_cond(self.ev(c.e, env))
        if c.k == "decl":
            self.stmt(c, env)
            return self.as_cond(self.lookup(env, c.vars[0][0]).v)
        return self.as_cond(self.ev(c, env))

    def declare(self, name, ty, init, dims, env, s):
        line = s.line
        base = ty.name.split("::")[-1]
        if dims:
            n = Poly.const(1)
            for d in dims:
                if d is None:
                    if init is not None and init.k == "list":
                        n = n * len(init.items)
                        continue
                    raise Und("array bound")
                n = n * self.as_int(self.ev(d, env)).p
            if base in INTW or base == "bool" or len(dims) > 1:
                raise Und("local array")
            st = Store(name, n, local=True, line=line)
            if init is not None:
                vals = init.items if init.k == "list" else init.args
                for i, x in enumerate(vals):
                    self.store(Ptr(st, i), self.ev(x, env), line)
                if not vals or len(vals) < 8:
                    st.get = "zero"
            self.bind(env, name, Ptr(st, 0), ty)
            return
        if base in ("OptionalCUDAGuard", "CUDAGuard", "DeviceGuard", "OptionalDeviceGuard", "NoGradGuard", "AutoGradMode", "InferenceMode"):
            self.bind(env, name, Opaque(base), ty)
            return
        if base == "vector" and ty.args and ty.ptr == 0:
            el = ty.args[0]
            eb = el.name.split("::")[-1] if hasattr(el, "name") else ""
            args = [self.ev(a, env) for a in (init.args if init is not None and init.k == "ctor" else [])]
            if eb in INTW or eb in self.unit.alias or eb in self.unit.structs or eb in ("valarray", "array", "tuple", "bool") or init is None or init.k != "ctor" or not args:
                raise Und(f"container {name}")
            st = Store(name, self.as_int(args[0]).p, local=True, line=line)
            st.get = "zero" if len(args) == 1 else None
            if len(args) > 1 and isinstance(args[1], (Int, Data)) and self.as_data(args[1]).p.is_zero():
                st.get = "zero"
            elif len(args) > 1:
                raise Und(f"container {name}")
            self.bind(env, name, Ptr(st, 0), ty)
            return
        if base in ("array", "valarray", "unique_ptr", "map", "unordered_map", "deque") and ty.ptr == 0:
            raise Und(f"container {base}")
        if base == "counting_iterator":
            a = [self.ev(x, env) for x in (init.args if init is not None else [])]
            self.bind(env, name, It("count", base=self.as_int(a[0]).p if a else Poly.const(0)), ty)
            return
        if init is None:
            if base in self.unit.structs:
                self.bind(env, name, self.build(self.unit.structs[base], [], line), ty)
                return
            plain = base in INTW or base in ("bool", "scalar_t", "T", "float", "double", "auto") or base in self.tnames or ty.ptr
            self.bind(env, name, Opaque(f"uninitialised {name}" if plain else base), ty)
            return
        if ty.ref:
            lv = self.lvalue(init, env, quiet=True)
            if lv is not None:
                self.bind(env, name, None, ty, lv)
                return
        if init.k == "ctor" and getattr(init, "type", None) is ty and ty.name != "auto":
            v = self.construct(ty, init.args, env, line)
        elif init.k == "list":
            v = Tup([self.ev(x, env) for x in init.items])
            if base in INTW or base in ("scalar_t", "T", "float", "double"):
                v = v.items[0] if v.items else Int(0, 32)
        else:
            v = self.ev(init, env)
        v = self.convert(v, ty, line, self.tnames)
        if ty.name == "auto" and isinstance(v, Tup) is False and isinstance(v, Tensor):
            pass
        self.settle(v, line)
        self.bind(env, name, v, ty)

    def settle(self, v, line):
        """A value is kept in a variable: tensors become owned, pointers into
        temporaries dangle."""
        if isinstance(v, Tensor):
            o = v
            while o is not None:
                o.bound = True
                nxt = getattr(o, "owner", None)
                vw = getattr(o, "view", None)
                if vw is not None and vw[0] is not o:
                    vw[0].bound = True
                o = nxt if nxt is not o else None
        elif isinstance(v, Ptr):
            o = self.ptr_owner.get(v.st.id)
            if o is not None and not o.bound and not v.st.local:
                self.finding("C01", "dangling", f"pointer into the temporary tensor {o.name} is kept after the tensor is released", line)

    def construct(self, ty, args, env, line):
        base = ty.name.split("::")[-1]
        if base in self.unit.alias and base not in self.unit.structs:
            return self.construct(self.unit.alias[base], args, env, line)
        vals = [self.ev(a, env) for a in args]
        if base in self.unit.structs:
            return self.build(self.unit.structs[base], vals, line)
        if base in ("tuple", "pair", "array"):
            return Tup(vals)
        if base == "counting_iterator":
            return It("count", base=self.as_int(vals[0]).p if vals else Poly.const(0))
        if base in INTW or base in ("scalar_t", "T", "float", "double", "auto") or base in self.tnames or ty.ptr:
            return vals[0] if vals else Int(0, 32)
        if base in ("equal_to", "plus", "multiplies", "OptionalCUDAGuard"):
            return Opaque(base)
        if len(vals) == 1 and isinstance(vals[0], Tensor):
            return vals[0]
        raise Und(f"construction of {ty.name}")

    # -- loops ------------------------------------------------------------
    def for_(self, s, env, omp):
        e = {"^": env}
        own = []
        private = ()
        par = False
        if s.init is not None:
            self.stmt(s.init, e)
            if s.init.k == "decl":
                own = [e[v[0]] for v in s.init.vars]
            else:
                a = s.init.e
                while a is not None:
                    if a.k == "assign" and a.a.k == "name":
                        c = self.lookup(env, a.a.name)
                        if c is not None:
                            own.append(c)
                    a = a.a if a.k == "comma" else None
        body = s.body
        inner = None
        if omp:
            par = omp["par"]
            private = omp["private"]
            if omp["collapse"] > 1:
                inner = dict(omp, collapse=omp["collapse"] - 1)

        def once():
            try:
                if inner is not None:
                    b = body
                    while b.k == "block" and len(b.body) == 1:
                        b = b.body[0]
                    if b.k != "for":
                        raise Und("collapsed loops")
                    self.for_(b, e, inner)
                else:
                    self.stmt(body, {"^": e})
            except Cont:
                pass
            if s.step is not None:
                self.ev(s.step, e)

        def cond():
            return self.as_cond(self.ev(s.cond, e)) if s.cond is not None else True
        if s.init is None and not par:
            # while loop: the counter is whatever the condition depends on
            own = []
        self.run_loop(s.line, once, cond, par=par, own=own, private=private)

    def omp_(self, s, env):
        t = s.text
        words = re.sub(r"\([^()]*\)", " ", t).split()
        cl = {m.group(1): m.group(2) for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", t)}
        priv = set()
        for k in ("private", "firstprivate", "lastprivate", "linear"):
            priv |= {x.strip() for x in cl.get(k, "").split(":")[0].split(",") if x.strip()}
        priv |= {x.strip() for x in cl.get("reduction", "").split(":")[-1].split(",") if x.strip()}
        collapse = int(cl.get("collapse", "1")) if cl.get("collapse", "1").strip().isdigit() else 1
        b = s.body
        if "for" in words:
            par = "parallel" in words or self.omp_region
            if b.k != "for":
                raise Und("omp for without a loop")
            if "ordered" in words or "depend" in cl:
                raise Und("ordered loop")
            self.for_(b, env, dict(par=bool(par), private=priv, collapse=collapse if par else 1))
            return
        if "parallel" in words:
            old = self.omp_region
            self.omp_region = True
            try:
                self.stmt(b, env)
            finally:
                self.omp_region = old
            return
        if words[1:2] in (["simd"], ["barrier"]) or words[:1] in (["simd"], ["barrier"]):
            self.stmt(b, env)
            return
        raise Und(f"pragma {t}")

    omp_region = False

    def range_(self, s, env):
        v = self.ev(s.it, env)
        if isinstance(v, Tup):
            for x in v.items:
                e = {"^": env}
                if s.var.k != "decl":
                    raise Und("range loop")
                self.bind(e, s.var.vars[0][0], x, s.var.vars[0][1])
                try:
                    self.stmt(s.body, e)
                except Cont:
                    pass
            return
        raise Und("range loop")

    # -- lvalues ----------------------------------------------------------
    def lvalue(self, n, env, quiet=False):
        if n.k == "name":
            c = self.lookup(env, n.name)
            if c is None:
                return None
            return c.ref if c.ref is not None else ("cell", c)
        if n.k == "index":
            a = self.ev(n.a, env)
            if isinstance(a, Ptr):
                i = self.as_int(self.ev(n.i, env))
                return ("mem", Ptr(a.st, a.off + i.p, a.nar or i.nar))
            return None
        if n.k == "un" and n.op == "*":
            a = self.ev(n.a, env)
            if isinstance(a, Ptr):
                return ("mem", a)
            return None
        if n.k == "member":
            o = self.ev(n.a, env)
            if isinstance(o, Obj) and n.name in o.fields:
                return ("field", o, n.name)
            return None
        return None

    def read_lv(self, lv, line):
        if lv[0] == "cell":
            v = lv[1].v
            return v
        if lv[0] == "mem":
            return self.load(lv[1], line)
        return lv[1].fields[lv[2]]

    def write_lv(self, lv, v, line):
        if lv is None:
            raise Und("assignment target")
        if lv[0] == "cell":
            c = lv[1]
            v = self.convert(v, c.ty, line, self.tnames) if c.ty is not None else v
            self.settle(v, line)
            c.v = v
        elif lv[0] == "mem":
            self.store(lv[1], v, line)
        else:
            raise Und("assignment to a structure field")

    # -- expressions ------------------------------------------------------
    def ev(self, n, env):
        self.steps += 1
        if self.steps > 60000:
            raise Und("analysis budget")
        m = getattr(self, "e_" + n.k, None)
        if m is None:
            raise Und(f"expression {n.k}")
        return m(n, env)

    def e_num(self, n, env):
        v = n.v.lower()
        if v.startswith("0x"):
            return Int(int(v.rstrip("ul"), 16), 32)
        core = v.rstrip("ulfz")
        if "." in core or "e" in core:
            from fractions import Fraction
            return Data(Poly.const(Fraction(core)))
        return Int(int(core), 64 if "l" in v or "z" in v else 32)

    def e_str(self, n, env):
        return Opaque("str")

    def e_bool(self, n, env):
        return n.v

    def e_null(self, n, env):
        return Opaque("null")

    def e_sizeof(self, n, env):
        return Opaque("sizeof")

    def e_expr(self, n, env):
        return self.ev(n.e, env)

    def e_list(self, n, env):
        return Tup([self.ev(x, env) for x in n.items])

    def e_comma(self, n, env):
        self.ev(n.a, env)
        return self.ev(n.b, env)

    def e_throwexpr(self, n, env):
        raise Reject()

    def e_lambda(self, n, env):
        if n.cap and any(c == ["="] for c in n.cap):
            # copies: later changes of the captured variables are not seen
            snap = {"^": None}
            e = env
            while e is not None:
                for k, c in e.items():
                    if k != "^" and k not in snap:
                        snap[k] = c
                e = e.get("^")
            e2 = {"^": None}
            for k, c in snap.items():
                if k != "^":
                    if c.ref is not None:
                        self.bind(e2, k, self.read_lv(c.ref, n.line), c.ty)
                    else:
                        self.bind(e2, k, c.v, c.ty)
            return Lam(n, e2)
        return Lam(n, env)

    def e_name(self, n, env):
        c = self.lookup(env, n.name)
        if c is not None:
            if c.ref is not None:
                return self.read_lv(c.ref, n.line)
            if isinstance(c.v, Opaque) and str(c.v.what).startswith(("uninitialised", "value of")):
                raise Und(str(c.v.what))
            return c.v
        base = n.name.split("::")[-1]
        if base in DTYPES:
            return Opaque(("kdtype", base))
        if n.name in self.unit.globals:
            ty, init = self.unit.globals[n.name]
            if init is not None and ty.const:
                return self.convert(self.ev(init, {"^": None}), ty, n.line)
            raise Und(f"global variable {n.name}")
        if base in self.unit.funcs:
            return Fun(base, n.targs)
        if n.name in ("c10::nullopt", "std::nullopt", "at::indexing::None"):
            return Opaque("none")
        return Fun(n.name, n.targs)

    def e_cond(self, n, env):
        return self.ev(n.a if self.decide(self.as_cond(self.ev(n.c, env))) else n.b, env)

    def e_cast(self, n, env):
        v = self.ev(n.a, env)
        if n.type.ptr and isinstance(v, Ptr):
            return v
        return self.convert(v, n.type, n.line, self.tnames)

    def e_ctor(self, n, env):
        return self.construct(n.type, n.args, env, n.line)

    def e_un(self, n, env):
        if n.op in ("++", "--"):
            lv = self.lvalue(n.a, env)
            v = self.arith("+" if n.op == "++" else "-", self.read_any(lv, n), Int(1, 32), n.line)
            self.write_lv(lv, v, n.line)
            return v
        if n.op == "*":
            return self.load(self.ev(n.a, env), n.line)
        if n.op == "&":
            lv = self.lvalue(n.a, env)
            if lv is not None and lv[0] == "mem":
                return lv[1]
            if n.a.k == "name":
                return self.ev(n.a, env)
            raise Und("address")
        v = self.ev(n.a, env)
        if n.op == "!":
            c = self.as_cond(v)
            return (not c) if isinstance(c, bool) else Cond("not", c)
        if n.op == "-":
            if isinstance(v, Int):
                return Int(-v.p, v.w, v.nar)
            return Data(-self.as_data(v).p)
        if n.op == "+":
            return v
        raise Und(f"operator {n.op}")

    def read_any(self, lv, n):
        if lv is None:
            raise Und("increment")
        v = self.read_lv(lv, n.line)
        if isinstance(v, Opaque):
            raise Und(str(v.what))
        return v

    def e_post(self, n, env):
        lv = self.lvalue(n.a, env)
        old = self.read_any(lv, n)
        if isinstance(old, It):
            raise Und("iterator increment")
        self.write_lv(lv, self.arith("+" if n.op == "++" else "-", old, Int(1, 32), n.line), n.line)
        return old

    def e_assign(self, n, env):
        lv = self.lvalue(n.a, env)
        if n.op == "=":
            v = self.ev(n.b, env)
            if isinstance(v, Opaque) and lv is not None and lv[0] == "cell":
                lv[1].v = v
                return v
        else:
            # C++ evaluates the right operand first
            b = self.ev(n.b, env)
            a = self.read_any(lv, n)
            v = self.arith(n.op[:-1], a, b, n.line)
        self.write_lv(lv, v, n.line)
        return v

    def e_index(self, n, env):
        a = self.ev(n.a, env)
        i = self.ev(n.i, env)
        if isinstance(a, Ptr):
            i = self.as_int(i)
            return self.load(Ptr(a.st, a.off + i.p, a.nar or i.nar), n.line)
        if isinstance(a, Tup):
            p = self.facts.norm(self.as_int(i).p)
            if p.is_const() and 0 <= p.const_value() < len(a.items):
                return a.items[int(p.const_value())]
        if isinstance(a, Tensor):
            return self.select(a, 0, self.as_int(i).p)
        raise Und("subscript")

    def e_bin(self, n, env):
        op = n.op
        if op in ("&&", "||"):
            a = self.as_cond(self.ev(n.a, env))
            t = self.truth(a)
            if t is not None:
                if (op == "&&" and not t) or (op == "||" and t):
                    return t
                return self.as_cond(self.ev(n.b, env))
            # the right operand is only evaluated when the left one allows it
            if self.pure_sizes(n.b):
                try:
                    b = self.as_cond(self.ev(n.b, env))
                    return Cond("and" if op == "&&" else "or", a, b)
                except Reject:
                    pass
            t = self.decide(a)
            if (op == "&&" and not t) or (op == "||" and t):
                return t
            return self.as_cond(self.ev(n.b, env))
        a, b = self.ev(n.a, env), self.ev(n.b, env)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, n.line)

    def pure_sizes(self, n):
        return True

    def compare(self, op, a, b):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and isinstance(a.what, tuple) and isinstance(b.what, tuple):
            if a.what[0] == b.what[0] == "dtype":
                return (a.what[1] == b.what[1]) == (op == "==")
            return Cond("opaque", f"{a.what[0]} comparison")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.st is b.st:
            a, b = Int(a.off), Int(b.off)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            x, y = self.decide(self.as_cond(a)), self.decide(self.as_cond(b))
            return (x == y) if op == "==" else (x != y)
        if isinstance(a, Tup) and isinstance(b, Tup) and op in ("==", "!="):
            if len(a.items) != len(b.items):
                return op == "!="
            c = Cond("and", *[Cond("eq", self.as_int(x).p - self.as_int(y).p) for x, y in zip(a.items, b.items)])
            return c if op == "==" else Cond("not", c)
        if isinstance(a, Data) or isinstance(b, Data):
            return Cond("opaque", "element value")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Cond("opaque", str(getattr(a, "what", getattr(b, "what", ""))))
        p, q = self.as_int(a).p, self.as_int(b).p
        return {"==": Cond("eq", p - q), "!=": Cond("ne", p - q), "<": Cond("ge", q - p - 1), ">": Cond("ge", p - q - 1),
                "<=": Cond("ge", q - p), ">=": Cond("ge", p - q)}[op]

    def arith(self, op, a, b, line):
        if isinstance(a, It) or isinstance(b, It):
            return self.it_arith(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == "-" and a.st is b.st:
                    return Int(a.off - b.off)
                raise Und("pointer arithmetic")
            if isinstance(b, Ptr):
                a, b = b, a
                if op != "+":
                    raise Und("pointer arithmetic")
            i = self.as_int(b)
            return Ptr(a.st, a.off + (i.p if op == "+" else -i.p), a.nar or i.nar)
        if isinstance(a, (bool, Cond)):
            a = self.as_int(a)
        if isinstance(b, (bool, Cond)):
            b = self.as_int(b)
        if isinstance(a, Int) and isinstance(b, Int):
            w = max(32, a.w, b.w)
            nar = a.nar or b.nar
            if op in ("+", "-", "*"):
                p = a.p + b.p if op == "+" else a.p - b.p if op == "-" else a.p * b.p
                if w == 32 and not self.facts.norm(p).is_const() and op == "*" and not (a.p.is_const() or b.p.is_const()):
                    nar = (line, "32-bit product", p)
                return Int(p, w, nar)
            if op in ("/", "%"):
                return Int(self.divmod(op, a.p, b.p), w, nar)
            if op in ("<<", ">>", "&", "|", "^"):
                x, y = self.facts.norm(a.p), self.facts.norm(b.p)
                if op == "<<" and y.is_const():
                    return Int(x * (2 ** int(y.const_value())), w, nar)
                if x.is_const() and y.is_const():
                    i, j = int(x.const_value()), int(y.const_value())
                    return Int({">>": i >> j, "&": i & j, "|": i | j, "^": i ^ j}[op], w, nar)
            raise Und(f"integer operator {op}")
        x, y = self.as_data(a).p, self.as_data(b).p
        if op == "+":
            return Data(x + y)
        if op == "-":
            return Data(x - y)
        if op == "*":
            return Data(x * y)
        if op == "/" and y.is_const() and not y.is_zero():
            return Data(x * (1 / y.const_value()))
        if op == "/":
            return Data(x * self.datom("fn", "reciprocal", (y,)))
        raise Und(f"element operator {op}")

    def divmod(self, op, p, q):
        p, q = self.facts.norm(p), self.facts.norm(q)
        if p.is_const() and q.is_const() and q.const_value() > 0 and p.const_value() >= 0:
            a, b = int(p.const_value()), int(q.const_value())
            return Poly.const(a // b if op == "/" else a % b)
        # a loop counter over m*q iterations is a pair of counters
        from .cppbase import exact, nonneg, quot
        for l in self.loops:
            if p == l.p and not q.is_const() or p == l.p:
                m = exact(self.facts.norm(l.n), q)
                if m is not None:
                    self.split_loop(l, m, q)
                    p = self.facts.norm(p)
                    break
        a, r = quot(p, q, self.loops)
        if nonneg(self.facts, self.loops, r) and nonneg(self.facts, self.loops, q - 1 - r):
            return a if op == "/" else r
        raise Und("division of sizes")

    def split_loop(self, l, m, q):
        """Counter l over m*q iterations becomes outer*q + inner."""
        i = self.loops.index(l)
        a, b = Loop(m, l.line, l.par), Loop(q, l.line, l.par)
        for x in (a, b):
            x.start, x.writes, x.nar = l.start, l.writes, l.nar
        l.parts = (a, b)
        for f in self.fstack[i + 1:] + [self.facts]:
            f.lb[a.atom] = f.lb[b.atom] = 0
            f.sub[l.atom] = a.p * q + b.p
        self.loops[i + 1:i + 1] = [a, b]
        # the pair is visible to the inequality prover; the original counter is substituted

    # -- calls ------------------------------------------------------------
    def e_call(self, n, env):
        f = n.f
        if f.k == "name":
            c = self.lookup(env, f.name)
            if c is None and not (f.name in self.unit.funcs):
                return self.builtin(f.name, n, env)
            if c is None:
                args = [self.ev(a, env) for a in n.args]
                for v in args:
                    self.note_temp(v)
                return self.call_name(f.name, args, f.targs, n.line, [self.lvalue_safe(a, env) for a in n.args])
            args = [self.ev(a, env) for a in n.args]
            return self.invoke(self.ev(f, env), args, n.line, [self.lvalue_safe(a, env) for a in n.args])
        if f.k == "member":
            o = self.ev(f.a, env)
            if isinstance(o, Tensor):
                args = [self.ev(a, env) for a in n.args]
                return self.method(o, f.name, args, f.targs, n.line)
            if isinstance(o, Obj):
                args = [self.ev(a, env) for a in n.args]
                ms = o.st.methods.get(f.name)
                if ms:
                    return self.call_func(ms[0], args, n.line, this=o)
            if isinstance(o, Tup):
                if f.name == "size":
                    return Int(len(o.items))
                if f.name in ("at", "front", "back"):
                    if f.name == "at":
                        i = self.facts.norm(self.as_int(self.ev(n.args[0], env)).p)
                        if i.is_const():
                            return o.items[int(i.const_value())]
                    elif o.items:
                        return o.items[0 if f.name == "front" else -1]
            if isinstance(o, Ptr) and o.st.local:
                if f.name in ("data", "begin", "get"):
                    return o
                if f.name == "end":
                    return Ptr(o.st, o.off + o.st.extent)
                if f.name == "size":
                    return Int(o.st.extent)
            if isinstance(o, Opaque):
                return Opaque((f.name, o.what))
            raise Und(f"method {f.name}")
        if f.k == "lambda":
            return self.invoke(self.ev(f, env), [self.ev(a, env) for a in n.args], n.line)
        if f.k == "ctor" and not n.args or f.k in ("ctor", "call", "index"):
            return self.invoke(self.ev(f, env), [self.ev(a, env) for a in n.args], n.line)
        raise Und("call")

    def note_temp(self, v):
        # a temporary bound to a parameter lives until the call returns
        if isinstance(v, Tensor):
            self.settle(v, 0)

    def lvalue_safe(self, a, env):
        if a.k == "name":
            c = self.lookup(env, a.name)
            if c is not None:
                return c.ref if c.ref is not None else ("cell", c)
        if a.k == "index":
            saved = len(self.log)
            try:
                return self.lvalue(a, env)
            except Und:
                return None
            finally:
                del self.log[saved:]
        return None

    def call_name(self, name, args, targs, line, argcells=None):
        fs = self.unit.funcs.get(name) or self.unit.funcs.get(name.split("::")[-1])
        if fs:
            f = next((x for x in fs if len(x.params) == len(args) and x.body is not None), fs[0])
            return self.call_func(f, args, line, argcells=argcells)
        raise Und(f"function {name}")

    def builtin(self, name, n, env):
        base = name.split("::")[-1]
        line = n.line
        if base.startswith("TORCH_CHECK") or base in ("AT_ASSERT", "AT_ASSERTM", "TORCH_INTERNAL_ASSERT", "TORCH_INTERNAL_ASSERT_DEBUG_ONLY"):
            if base.endswith("DEBUG_ONLY"):
                return None
            c = self.as_cond(self.ev(n.args[0], env))
            if isinstance(c, Cond) and c.op == "opaque":
                return None
            self.checks.append((line, base))
            self.require(c)
            return None
        if base == "AT_ERROR":
            raise Reject()
        if base == "assert" or base.startswith(("C10_CUDA_CHECK", "AT_CUDA_CHECK", "C10_CUDA_KERNEL", "TORCH_WARN", "RECORD_FUNCTION", "C10_LOG")):
            return None
        if base.startswith("AT_DISPATCH"):
            lam = n.args[-1]
            ks = [self.ev(a, env) for a in n.args[:-2]]
            on = [k.what[1] for k in ks if isinstance(k, Opaque) and isinstance(k.what, tuple) and k.what[0] == "dtype"]
            self.scalar = on[-1] if on else None
            self.dispatched.append((base, tuple(a.what[1] for a in ks if isinstance(a, Opaque) and isinstance(a.what, tuple) and a.what[0] == "kdtype")))
            return self.invoke(self.ev(lam, env), [], line)
        if base == "parallel_for":
            lo, hi = self.as_int(self.ev(n.args[0], env)).p, self.as_int(self.ev(n.args[1], env)).p
            fn = self.ev(n.args[3], env)
            holder = {}

            def once():
                k = holder["lp"]
                self.invoke(fn, [Int(lo + k.p), Int(lo + k.p + 1)], line)
            holder["lp"] = None
            self.run_loop(line, once, n=hi - lo, par=True, holder=holder)
            return None
        if base in ("min", "max") and len(n.args) == 2:
            a, b = (self.as_int(self.ev(x, env)) for x in n.args)
            ge = self.decide(Cond("ge", a.p - b.p))
            return (a if ge else b) if base == "max" else (b if ge else a)
        if base in ("move", "forward", "as_const", "ref", "cref", "raw_pointer_cast"):
            return self.ev(n.args[0], env)
        if base == "conj" and len(n.args) == 1:
            v = self.as_data(self.ev(n.args[0], env))
            return Data(self.datom("fn", "conj", (v.p,)))
        if base == "fma":
            a, b, c = (self.as_data(self.ev(x, env)) for x in n.args)
            return Data(a.p * b.p + c.p)
        if base in ("inner_product", "transform_reduce") and len(n.args) == 4:
            a, b, c, z = (self.ev(x, env) for x in n.args)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(c, Ptr) and a.st is b.st:
                m = b.off - a.off
                return self.dot(a, c, m, self.as_data(z), line)
        if base in ("copy", "copy_n", "fill", "fill_n") and name.startswith("std::"):
            return self.std_copy(base, [self.ev(x, env) for x in n.args], line)
        if base in INTW and len(n.args) == 1:
            return self.narrow(self.as_int(self.ev(n.args[0], env)), INTW[base], line)
        if (base in ("scalar_t", "T", "float", "double") or base in self.tnames) and len(n.args) <= 1:
            return self.as_data(self.ev(n.args[0], env)) if n.args else Data(0)
        if base in self.unit.structs:
            return self.build(self.unit.structs[base], [self.ev(a, env) for a in n.args], line)
        if base in ("device_of", "getCurrentCUDAStream", "get_num_threads", "OptionalCUDAGuard"):
            return Opaque(base)
        if base in ("make_optional", "optional", "IntArrayRef", "SmallVector", "vector") and len(n.args) == 1:
            return self.ev(n.args[0], env)
        th = self.thrust(name, n, env)
        if th is not NotImplemented:
            return th
        ns = name.split("::")[0]
        args = [self.ev(a, env) for a in n.args]
        if ns in ("at", "torch", "native", "c10") or (args and isinstance(args[0], Tensor)):
            return self.aten(name, args, n.f.targs, line)
        raise Und(f"function {name}")

    def dot(self, a, c, m, z, line):
        out = {}

        def once():
            k = out["lp"]
            x = self.load(Ptr(a.st, a.off + k.p, a.nar), line)
            y = self.load(Ptr(c.st, c.off + k.p, c.nar), line)
            cell.v = Data(cell.v.p + x.p * y.p)
        cell = self.bind({}, "(dot)", z)
        self.run_loop(line, once, n=m, holder=out)
        return cell.v

    def std_copy(self, base, args, line):
        out = {}
        if base in ("copy", "copy_n"):
            src, dst = args[0], args[2]
            m = args[1].off - src.off if base == "copy" else self.as_int(args[1]).p

            def once():
                k = out["lp"]
                self.store(Ptr(dst.st, dst.off + k.p, dst.nar), self.load(Ptr(src.st, src.off + k.p, src.nar), line), line)
        else:
            dst = args[0]
            m = args[1].off - dst.off if base == "fill" else self.as_int(args[1]).p

            def once():
                k = out["lp"]
                self.store(Ptr(dst.st, dst.off + k.p, dst.nar), args[2], line)
        if not isinstance(dst, Ptr):
            raise Und("std algorithm")
        self.run_loop(line, once, n=m, holder=out)
        return None

    checks = ()

    def e_member(self, n, env):
        o = self.ev(n.a, env)
        if isinstance(o, Obj) and n.name in o.fields:
            return o.fields[n.name]
        if isinstance(o, Tup) and n.name in ("first", "second"):
            return o.items[0 if n.name == "first" else 1]
        raise Und(f"member {n.name}")


