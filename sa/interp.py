"""Abstract interpreter for the Python subset the library is written in.

It evaluates functions over abstract tensors (tensor.py), symbolic integers and
ordinary Python structure.  Conditions on sizes that the current facts do not
decide split the path (Fork); loops over a symbolic number of steps are
summarised by an inductive invariant; recursion is replaced by the callee's
contract.  Nothing of the analysed code is executed.
"""
import ast
import builtins
import itertools
import os
from fractions import Fraction

from . import tensor as tz
from .poly import Poly, P, Facts
from .tensor import T, Block, AbsError, Unsupported, Ops, ZERO, ALL


# --------------------------------------------------------------------------
class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts      # list of (facts to add, {key: value})


class Budget(Exception):
    pass


EXPIRED = False       # the time of the current case is up


class SInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"SInt({self.p})"


def num(p):
    """Poly -> Python int when constant."""
    i = p.as_int()
    return i if i is not None else SInt(p)


def pyname(v):
    return "None" if v is None else {"Shape": "Size", "SInt": "int"}.get(type(v).__name__, type(v).__name__)


class Unknown:
    """A value about which only its provenance is known."""

    def __init__(self, deps=frozenset(), taint=frozenset(), why=""):
        self.deps = deps
        self.taint = taint
        self.why = why

    def __repr__(self):
        return f"Unknown({self.why})"


class OpaqueNum:
    """An unknown Python number."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Num({self.why})"


class Finfo:
    """Machine limits of a floating-point type: numbers, none of them zero."""
    V = {"eps": 2.0 ** -23, "tiny": 2.0 ** -126, "smallest_normal": 2.0 ** -126, "max": 3.4e38, "min": -3.4e38, "resolution": 1e-6, "bits": 32}


class Shape(tuple):
    pass


class SeqVal:
    """A sequence of symbolic length."""

    def __init__(self, length, elem, kind="list"):
        self.length = P(length)
        self.elem = elem      # Poly -> value
        self.kind = kind


class FactorList:
    """Prime factors of a symbolic integer, any number of them."""

    def __init__(self, prod):
        self.prod = P(prod)


class DType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"dtype({self.name})"


class Device:
    def __init__(self, name):
        self.name = name


class Func:
    def __init__(self, node, env, module, name, defaults, kwdefaults, qual=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual or name
        self.attrs = {}

    def __repr__(self):
        return f"<func {self.module.name}.{self.qual}>"


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def plain(self):
        return all(isinstance(b, ClassVal) and b.plain() or isinstance(b, Ref) and b.path == "builtins.object" for b in self.bases) and not getattr(
            self, "decorated", False)

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def is_autograd_function(self):
        return any((isinstance(b, Ref) and b.path.endswith("autograd.Function"))
                   or (isinstance(b, ClassVal) and b.is_autograd_function()) for b in self.bases)


class Ref:
    """A dotted name of an external library (torch.nn.functional.pad, ...)."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<{self.path}>"


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Obj:
    """A plain object with attributes (used for autograd ctx)."""

    def __init__(self, **kw):
        self.attrs = dict(kw)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = {}
        self.tree = None


class Env:
    def __init__(self, parent=None, vars=None):
        self.parent = parent
        self.vars = vars if vars is not None else {}

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Event:
    __slots__ = ("cls", "file", "line", "func", "what", "weights", "detail", "chain")

    def __init__(self, cls, file, line, func, what, weights, detail, chain):
        self.cls, self.file, self.line, self.func = cls, file, line, func
        self.what, self.weights, self.detail, self.chain = what, weights, detail, chain

    def __repr__(self):
        return f"{self.cls}@{self.file}:{self.line} {self.func}: {self.what} {self.detail}"


BUILTIN_NAMES = {
    "len", "range", "zip", "list", "tuple", "isinstance", "max", "min", "abs",
    "round", "int", "float", "sum", "enumerate", "reversed", "map", "any", "all",
    "bool", "str", "print", "sorted", "dict", "set", "getattr", "hasattr", "type",
}
EXC_NAMES = {"ValueError", "NotImplementedError", "AssertionError", "RuntimeError",
             "ImportError", "TypeError", "IndexError", "KeyError", "Exception",
             "ModuleNotFoundError", "ZeroDivisionError", "UserWarning", "AttributeError"}


class Interp:
    MAXDEPTH = 40

    def __init__(self, repo, world, facts=None, decisions=None, learned=(), max_steps=200000):
        self.repo = repo
        self.world = world
        self.facts = facts or Facts()
        self.learned = list(learned)
        for f in self.learned:
            self.facts.learn(f)
        self.decisions = dict(decisions or {})
        self.counts = {}
        self.events = {}
        self.modules = {}
        self.stack = []           # (Func, current node)
        self.ops = Ops(self)
        self.unknown_ops = {}
        self.assumed = set()
        self.guessed = False     # a condition that is not known was decided both ways
        self.asked_cplx = False  # the program looks at whether its inputs are complex
        self.visited = set()      # (file, line) of statements interpreted
        self.calls = {}           # native operator calls
        self.registry = {"fake": {}, "autograd": {}, "custom_op": {}}
        self.steps = 0
        self.max_steps = max_steps
        self.opaque_n = 0
        self.mutations = []
        self.contracts = set()
        self.probe = None
        self.in_loop = 0
        from . import torchmodel
        self.tm = torchmodel.TorchModel(self)
        tz._counter = itertools.count()

    # ---- locations and events ------------------------------------------
    def where(self):
        for fn, node in reversed(self.stack):
            if node is not None:
                return (fn.module.path if fn else "?", getattr(node, "lineno", 0),
                        fn.qual if fn else "?")
        return ("?", 0, "?")

    def event(self, cls, what, weights=None, detail=""):
        f, l, fn = self.where()
        w = tuple(sorted(weights)) if weights else ()
        key = (cls, f, l, what, w)
        if key not in self.events:
            chain = tuple(f"{x.module.name}.{x.qual}" for x, _ in self.stack if x is not None)
            self.events[key] = Event(cls, f, l, fn, what, w, detail, chain)
        return self.events[key]

    # ---- decisions -------------------------------------------------------
    def _key(self, tag):
        base = (tag,) + self.where()
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        return base + (n,)

    def choose(self, tag, n, facts=None):
        key = self._key(tag)
        if key in self.decisions:
            return self.decisions[key]
        raise Fork([([] if facts is None else facts[i], {key: i}) for i in range(n)])

    def _local(self, p):
        return any("#" in a for a in p.atoms())

    def fresh_size(self, tag, lb=1):
        """A size atom with a name that is stable across replays."""
        n = sum(1 for f in self.learned if f[0] == "lb")
        return f"{tag}{n}_{len(self.learned)}"

    def decide_eq(self, p, q):
        e = self.facts.eq(p, q)
        if e is not None:
            return e
        d = self.facts.norm(P(p) - P(q))
        if self._local(d):
            return self.choose("eq", 2) == 1
        raise Fork([([("ne", d)], {}), ([("eq", d)], {})])

    def decide_ge(self, p, q):
        e = self.facts.ge(p, q)
        if e is not None:
            return e
        d = self.facts.norm(P(p) - P(q))
        if self._local(d):
            return self.choose("ge", 2) == 1
        s = self.fresh_size("e")
        less = ("eq", d + 1) if self.facts.ge(d + 1, 0) is True else ("ge", -d - 1, s)
        more = ("eq", d) if self.facts.ge(-d, 0) is True else ("ge", d, s)
        raise Fork([([less], {}), ([more], {})])

    def divmod(self, n, l):
        """Quotient and remainder of sizes n (>=0) by l (>=1)."""
        F = self.facts
        n, l = F.norm(n), F.norm(l)
        q = n.div_int(l)
        if q is not None:
            return q, P(0)
        ni, li = n.as_int(), l.as_int()
        if ni is not None and li is not None:
            if li == 0:
                raise AbsError("ZeroDivisionError", "integer division or modulo by zero", "raise")
            return P(ni // li), P(ni % li)
        if li is not None and li > 0:
            c = n.const_value()      # li * q + c, in integers
            q = (n - P(c)).div_int(l) if c.denominator == 1 else None
            if q is not None:
                return F.norm(q + int(c) // li), P(int(c) % li)
        if self.decide_eq(l, 0):
            raise AbsError("ZeroDivisionError", "integer division or modulo by zero", "raise")
        for (N, L, Q, R) in F.div:
            if F.eq(N, n) is True and F.eq(L, l) is True:
                return F.norm(Q), F.norm(R)
        if self._local(n) or self._local(l):
            raise Unsupported("modulo of loop index")
        if F.ge(n, 0) is not True:
            # negative dividend: -n % l
            m = F.norm(-n)
            if F.ge(m, 0) is not True:
                raise Unsupported("modulo of a value of unknown sign")
            q, r = self.divmod(m, l)
            if F.eq(r, 0) is True:
                return F.norm(-q), P(0)
            return F.norm(-q - 1), F.norm(l - r)
        if not self.decide_ge(n, l):
            return P(0), n
        k = len(self.learned)
        Q, R, S = f"q{k}", f"r{k}", f"s{k}"
        strict = F.ge(n, l + 1) is True
        a0 = [("lb", Q, 2 if strict else 1), ("eq", n - Poly.atom(Q) * l),
              ("div", n, l, Poly.atom(Q), P(0))]
        l2 = Poly.atom(R) + Poly.atom(S)
        if li is not None:
            a1 = [("nn", l - 1 - Poly.atom(R)), ("eq", n - Poly.atom(Q) * l - Poly.atom(R)),
                  ("div", n, l, Poly.atom(Q), Poly.atom(R))]
        else:
            a1 = [("eq", l - l2), ("eq", n - Poly.atom(Q) * l - Poly.atom(R)),
                  ("div", n, l, Poly.atom(Q), Poly.atom(R))]
        raise Fork([(a0, {}), (a1, {})])

    def floordiv_exact(self, n, l):
        for (N, L, Q, R) in self.facts.div:
            if self.facts.eq(N, n) is True and self.facts.eq(L, l) is True and self.facts.eq(R, 0) is True:
                return self.facts.norm(Q)
        return None

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, tuple, list, dict, complex)):
            return bool(v)
        if isinstance(v, SInt):
            return not self.decide_eq(v.p, 0)
        if isinstance(v, T):
            if v.deps():
                ev = self.event("branch", "condition on tensor values",
                                detail="control flow depends on the values of " + ", ".join(sorted({r for r, _, _ in v.deps()})))
                self.path_taint = getattr(self, "path_taint", frozenset()) | {ev}
            return self.choose("cond", 2) == 1
        if isinstance(v, (Unknown, OpaqueNum)):
            self.guessed = True      # either answer may be impossible
            return self.choose("cond", 2) == 1
        if isinstance(v, SeqVal):
            return not self.decide_eq(v.length, 0)
        if isinstance(v, FactorList):
            return not self.decide_eq(v.prod, 1)
        return True

    # ---- modules ----------------------------------------------------------
    def module(self, name):
        """Load (interpret) a module of the package by dotted name."""
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        rel = name.split(".")
        base = os.path.join(self.repo, *rel)
        path = None
        for cand in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.exists(cand):
                path = cand
                break
        if path is None and os.path.isdir(base) and any(f.endswith(".py") for f in os.listdir(base)):
            m = Module(name, os.path.relpath(base, self.repo))   # namespace package
            m.is_pkg = True
            m.tree = ast.Module(body=[], type_ignores=[])
            self.modules[name] = m
            m.ns["__name__"] = name
            return m
        if path is None:
            raise AbsError("ImportError", f"no module {name}", "import")
        m = Module(name, os.path.relpath(path, self.repo))
        m.is_pkg = path.endswith("__init__.py")
        self.modules[name] = m
        m.tree = parse_file(path)
        m.ns["__name__"] = name
        m.ns["__file__"] = Unknown(why="__file__")
        env = Env(None, m.ns)
        fn = Func(m.tree, env, m, "<module>", [], {})
        saved = self.stack
        self.stack = [(fn, None)]
        try:
            self.exec_block(m.tree.body, env, fn)
        finally:
            self.stack = saved
        return m

    def resolve_from(self, module, level, modname):
        pkg = module.name.split(".")
        if not module.is_pkg:
            pkg = pkg[:-1]
        if level > 1:
            pkg = pkg[: len(pkg) - (level - 1)]
        return ".".join(pkg + (modname.split(".") if modname else []))

    def do_import_from(self, node, env, fn):
        if node.level == 0:
            base = node.module
            if not base.split(".")[0] == "philtorch":
                if base.split(".")[0] in ("pararnn",) and not self.world.get("pararnn"):
                    raise AbsError("ImportError", base, "import")
                for a in node.names:
                    env.vars[a.asname or a.name] = Ref(f"{base}.{a.name}")
                return
            full = base
        else:
            full = self.resolve_from(fn.module, node.level, node.module or "")
        for a in node.names:
            if a.name == "_C" and full == "philtorch":
                if not self.world["ext"]:
                    raise AbsError("ImportError", "no extension", "import")
                env.vars[a.asname or a.name] = Ref("philtorch._C")
                continue
            if full == "philtorch._helion":
                if not self.world["helion"]:
                    raise AbsError("ImportError", "no helion", "import")
                env.vars[a.asname or a.name] = Builtin("helion." + a.name, self.tm.helion_kernel(a.name))
                continue
            m = self.module(full)
            if a.name == "*":
                env.vars.update({k: v for k, v in m.ns.items() if not k.startswith("_")})
                continue
            if a.name in m.ns:
                env.vars[a.asname or a.name] = m.ns[a.name]
            else:
                try:
                    env.vars[a.asname or a.name] = self.module(full + "." + a.name)
                except AbsError:
                    raise AbsError("ImportError", f"cannot import {a.name} from {full}", "import")

    # ---- statements -------------------------------------------------------
    def exec_block(self, stmts, env, fn):
        for s in stmts:
            self.exec(s, env, fn)

    def exec(self, s, env, fn):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        self.stack[-1] = (fn, s)
        self.visited.add((fn.module.path, s.lineno))
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env, fn)

    def x_Expr(self, s, env, fn):
        v = self.ev(s.value, env, fn)
        if isinstance(v, Unknown) and v.why in ("no_grad", "grad_mode") and isinstance(s.value, ast.Call):
            # torch.set_grad_enabled(...) as a statement: holds until the next one
            self.tm.nograd += (v.why == "no_grad") - self.tm.nograd_stmt
            self.tm.nograd_stmt = int(v.why == "no_grad")

    def x_Pass(self, s, env, fn):
        pass

    def x_Import(self, s, env, fn):
        for a in s.names:
            if a.name.split(".")[0] == "pararnn" and not self.world.get("pararnn"):
                raise AbsError("ImportError", a.name, "import")
            if a.asname:
                env.vars[a.asname] = Ref(a.name)
            else:
                env.vars[a.name.split(".")[0]] = Ref(a.name.split(".")[0])

    def x_ImportFrom(self, s, env, fn):
        self.do_import_from(s, env, fn)

    def x_FunctionDef(self, s, env, fn):
        f = self.make_func(s, env, fn)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env, fn)
            f = self.call(dv, [f], {})
        env.vars[s.name] = f

    def make_func(self, s, env, fn, name=None):
        a = s.args
        defaults = [self.ev(d, env, fn) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env, fn) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        nm = name or getattr(s, "name", "<lambda>")
        qual = nm
        if fn is not None and fn.name != "<module>":
            qual = f"{fn.qual}.{nm}"
        return Func(s, env, fn.module, nm, defaults, kwd, qual)

    def x_ClassDef(self, s, env, fn):
        bases = [self.ev(b, env, fn) for b in s.bases]
        ns = {}
        cenv = Env(env, ns)
        cf = Func(s, cenv, fn.module, s.name, [], {}, s.name)
        self.stack.append((cf, s))
        try:
            self.exec_block(s.body, cenv, cf)
        finally:
            self.stack.pop()
        for v in ns.values():
            if isinstance(v, Func):
                v.env = env
                v.qual = f"{s.name}.{v.name}"
        c = env.vars[s.name] = ClassVal(s.name, bases, ns, fn.module)
        c.decorated = bool(s.decorator_list or s.keywords)

    def x_Return(self, s, env, fn):
        raise ReturnEx(None if s.value is None else self.ev(s.value, env, fn))

    def x_Assign(self, s, env, fn):
        v = self.ev(s.value, env, fn)
        for t in s.targets:
            self.assign(t, v, env, fn)

    def x_AnnAssign(self, s, env, fn):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, fn), env, fn)

    def x_AugAssign(self, s, env, fn):
        if isinstance(s.target, ast.Subscript):
            obj = self.ev(s.target.value, env, fn)
            idx = self.index(s.target.slice, env, fn)
            cur = self.getitem(obj, idx)
            v = self.binop(type(s.op).__name__, cur, self.ev(s.value, env, fn))
            self.setitem(obj, idx, v, aug=True)
            return
        cur = self.ev(ast.copy_location(_load(s.target), s.target), env, fn)
        v = self.binop(type(s.op).__name__, cur, self.ev(s.value, env, fn))
        if isinstance(cur, T) and isinstance(v, T):
            self.tm.inplace(cur, v, "augmented assignment")
            v = cur
        elif isinstance(cur, list) and isinstance(v, list):
            cur[:] = v
            v = cur
        self.assign(s.target, v, env, fn)

    def assign(self, t, v, env, fn):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env, fn)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, fn)
            self.setitem(obj, self.index(t.slice, env, fn), v)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env, fn)
            if isinstance(obj, Obj):
                self.tm.stored(obj, v)
                obj.attrs[t.attr] = v
            elif isinstance(obj, T):
                if t.attr == "data":
                    self.tm.inplace(obj, v if isinstance(v, T) else None, "assignment to .data")
                else:
                    self.tm.mutated(obj, f"assignment to .{t.attr}")
            elif isinstance(obj, Func):
                obj.attrs[t.attr] = v
                self.tm.state_write(f"attribute {t.attr} of a function")
            elif isinstance(obj, (ClassVal,)):
                obj.ns[t.attr] = v
                self.tm.state_write(f"attribute {t.attr} of class {obj.name}")
            elif isinstance(obj, Module):
                self.tm.state_write(f"module attribute {t.attr}")
            elif isinstance(obj, Ref):
                self.tm.state_write(f"global {obj.path}.{t.attr}")
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, elts, v, env, fn):
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, FactorList):
            if star == [1] and len(elts) == 2:
                head, rest = self.tm.pop_factor(v)
                self.assign(elts[0], head, env, fn)
                self.assign(elts[1].value, rest, env, fn)
                return
            raise Unsupported("unpacking of a factor list")
        if isinstance(v, Unknown):
            for e in elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, v, env, fn)
            return
        if isinstance(v, T):
            n = v.size(0).as_int() if v.ndim else None
            if n is None:
                raise Unsupported("unpacking of a tensor")
            v = [self.ops.index_axis(v, 0, P(k)) for k in range(n)]
        if isinstance(v, SeqVal):
            n = v.length.as_int()
            if n is None:
                raise Unsupported("unpacking of a symbolic sequence")
            v = [v.elem(P(k)) for k in range(n)]
        v = list(v)
        if star:
            k = star[0]
            tail = len(elts) - k - 1
            if len(v) < len(elts) - 1:
                raise AbsError("ValueError", "not enough values to unpack", "raise")
            parts = v[:k] + [v[k:len(v) - tail]] + v[len(v) - tail:]
            for e, x in zip(elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, fn)
            return
        if len(v) != len(elts):
            raise AbsError("ValueError", f"unpacking {len(v)} values into {len(elts)} names", "raise")
        for e, x in zip(elts, v):
            self.assign(e, x, env, fn)

    def x_If(self, s, env, fn):
        if self.truth(self.ev(s.test, env, fn)):
            self.exec_block(s.body, env, fn)
        else:
            self.exec_block(s.orelse, env, fn)

    def x_Assert(self, s, env, fn):
        v = self.ev(s.test, env, fn)
        if isinstance(v, T):
            self.truth(v) if False else None
            return
        if isinstance(v, (Unknown, OpaqueNum)):
            return
        if not self.truth(v):
            raise AbsError("AssertionError", "assertion fails: " + ast.unparse(s.test), "raise")

    def x_Raise(self, s, env, fn):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        msg = ast.unparse(s.exc) if s.exc else ""
        raise AbsError(name, msg, "raise")

    def x_Try(self, s, env, fn):
        try:
            self.exec_block(s.body, env, fn)
        except AbsError as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = [e.kind]
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                if e.kind in names or "Exception" in names:
                    if h.name:
                        env.vars[h.name] = Unknown(why="exception")
                    self.exec_block(h.body, env, fn)
                    break
            else:
                self.exec_block(s.finalbody, env, fn)
                raise
        else:
            self.exec_block(s.orelse, env, fn)
        self.exec_block(s.finalbody, env, fn)

    def x_With(self, s, env, fn):
        exits = 0
        for it in s.items:
            v = self.ev(it.context_expr, env, fn)
            if isinstance(v, Unknown) and v.why == "no_grad":
                self.tm.nograd += 1
                exits += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, fn)
        try:
            self.exec_block(s.body, env, fn)
        finally:
            self.tm.nograd -= exits

    def x_Global(self, s, env, fn):
        for n in s.names:
            self.tm.state_write(f"global variable {n}")

    def x_Nonlocal(self, s, env, fn):
        raise Unsupported("nonlocal")

    def x_Delete(self, s, env, fn):
        pass

    def x_Break(self, s, env, fn):
        raise BreakEx()

    def x_Continue(self, s, env, fn):
        raise ContinueEx()

    def x_While(self, s, env, fn):
        for n in range(64):
            if n == 5 and self.open_test(s.test, env, fn):
                raise Unsupported("loop with a symbolic number of iterations")
            c = self.ev(s.test, env, fn)
            if isinstance(c, (T, Unknown, OpaqueNum)):
                raise Unsupported("loop with an unknown number of iterations")
            if not self.truth(c):
                self.exec_block(s.orelse, env, fn)
                return
            try:
                self.exec_block(s.body, env, fn)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Unsupported("long while loop")

    def open_test(self, test, env, fn):
        """The bounds of a loop are not numbers on this path."""
        for e in ast.walk(test):
            for o in ([e.left] + e.comparators if isinstance(e, ast.Compare) else [e] if isinstance(e, ast.Name) else []):
                v = self.ev(o, env, fn)
                if isinstance(v, SInt) and self.facts.norm(v.p).as_int() is None:
                    return True
        return False

    def x_Match(self, s, env, fn):
        v = self.ev(s.subject, env, fn)
        for c in s.cases:
            binds = {}
            if not self.pmatch(c.pattern, v, binds, env, fn):
                continue
            env.vars.update(binds)
            if c.guard is not None:
                self.stack[-1] = (fn, c.pattern)
                if not self.truth(self.ev(c.guard, env, fn)):
                    continue
            self.exec_block(c.body, env, fn)
            return

    def pmatch(self, p, v, binds, env, fn):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pmatch(p.pattern, v, binds, env, fn):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchStar):
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value, env, fn)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.pmatch(q, v, binds, env, fn) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list)):
                if isinstance(v, Unknown):
                    raise Unsupported("match on unknown")
                return False
            stars = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if stars:
                k = stars[0]
                tail = len(p.patterns) - k - 1
                if len(v) < len(p.patterns) - 1:
                    return False
                vs = list(v[:k]) + [list(v[k:len(v) - tail])] + list(v[len(v) - tail:])
            else:
                if len(v) != len(p.patterns):
                    return False
                vs = v
            return all(self.pmatch(q, x, binds, env, fn) for q, x in zip(p.patterns, vs))
        if isinstance(p, ast.MatchClass):
            raise Unsupported("class pattern")
        raise Unsupported("pattern")

    # ---- loops -------------------------------------------------------------
    def x_For(self, s, env, fn):
        it = self.ev(s.iter, env, fn)
        seq = self.iterate(it)
        if isinstance(seq, list):
            for v in seq:
                self.assign(s.target, v, env, fn)
                try:
                    self.exec_block(s.body, env, fn)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(s.orelse, env, fn)
            return
        self.symbolic_loop(s, seq, env, fn)
        self.exec_block(s.orelse, env, fn)

    def iterate(self, it):
        """list for concrete sequences, SeqVal otherwise."""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, SeqVal):
            n = self.facts.norm(it.length).as_int()
            if n is not None and n <= 16:
                return [it.elem(P(k)) for k in range(n)]
            return it
        if isinstance(it, T):
            return self.iterate(self.tm.unbind(it, 0))
        if isinstance(it, Unknown):
            raise Unsupported("iteration over unknown value")
        if isinstance(it, FactorList):
            raise Unsupported("iteration over factors")
        raise Unsupported(f"iteration over {type(it).__name__}")

    def symbolic_loop(self, s, seq, env, fn):
        """Summarise `for target in seq: body` for a symbolic number of steps."""
        names = assigned_names(s.body) | assigned_names([s.target])
        appended = appended_lists(s.body)
        lists = {}
        for n in appended:
            try:
                l = env.get(n)
            except KeyError:
                continue
            if isinstance(l, list):
                if l:
                    raise Unsupported("loop appending to a non-empty list")
                lists[n] = l
        pre = {n: env.vars[n] for n in names if n in env.vars}
        for n in appended:
            if n not in lists and n in pre and isinstance(pre[n], SeqVal):
                raise Unsupported("append to a symbolic list")
        mutated = [n for n in stored_tensors(s.body) if n not in names]
        carried = [n for n in pre if isinstance(pre[n], (T, SInt, int, OpaqueNum)) and not isinstance(pre[n], bool)]

        def run(index, state):
            for n, v in state.items():
                env.vars[n] = v
            for l in lists.values():
                l.clear()
            self.assign(s.target, seq.elem(index), env, fn)
            self.in_loop += 1
            try:
                self.exec_block(s.body, env, fn)
            except (BreakEx, ContinueEx):
                raise Unsupported("break/continue in a symbolic loop")
            finally:
                self.in_loop -= 1
            out = {n: env.vars.get(n) for n in carried}
            apps = {n: list(l) for n, l in lists.items()}
            return out, apps
        tens = [n for n in carried if isinstance(pre[n], T)]
        ints = [n for n in carried if n not in tens]
        state0 = {n: pre[n] for n in carried}
        k, generic, apps = self.fit(state0, tens, ints, run, seq.length)
        # results: element lists
        for n, l in lists.items():
            vals = apps[n]
            if len(vals) == 0:
                continue
            if len(vals) != 1:
                raise Unsupported("loop appending several elements")
            val = vals[0]
            l.clear()
            sv = SeqVal(seq.length, lambda p, val=val, k=k: self.subst_val(val, {k: p}))
            self.rebind_list(l, sv, env)
        # final state: before-iteration value at index = length
        last = self.facts.norm(seq.length)
        for n in carried:
            g = generic.get(n)
            env.vars[n] = self.subst_val(g, {k: last}) if g is not None else Unknown(why="loop variable")

    def rebind_list(self, l, sv, env):
        e = env
        while e is not None:
            for n, v in list(e.vars.items()):
                if v is l:
                    e.vars[n] = sv
            e = e.parent

    def subst_val(self, v, sub):
        if isinstance(v, T):
            r = T(v.axes, {key: self.ops._check_support(b.subst(sub)) for key, b in v.blocks.items()},
                  v.cplx, v.dtype, v.dev, v.stor, v.layout)
            return r
        if isinstance(v, SInt):
            return num(self.facts.norm(v.p.subst(sub)))
        if isinstance(v, tuple):
            return type(v)(self.subst_val(x, sub) for x in v)
        if isinstance(v, list):
            return [self.subst_val(x, sub) for x in v]
        return v

    def fit(self, state0, tens, ints, run, length):
        """Find an inductive description of the state before iteration n.
        Returns (index atom, generic state, appended values at iteration n)."""
        def one(st, i):
            out, apps = run(P(i), dict(st))
            return out, apps
        s0 = state0
        s1, _ = one(s0, 0)
        s2, _ = one(s1, 1)
        s3, _ = one(s2, 2)
        s4 = None
        k = tz.fresh("n")
        kp = Poly.atom(k)
        saved_nn = list(self.facts.nn)
        self.facts.lb[k] = 0
        self.facts.nn.append(P(length) - 1 - kp)
        fails = set()
        try:
            G = {}
            for n in tens:
                vs = [s0[n], s1[n], s2[n], s3[n]]
                if not all(isinstance(v, T) for v in vs):
                    raise Unsupported("loop variable changes type")
                g = self.fit_tensor(vs, kp)
                if any(b.unk and ALL in b.unk for b in g.blocks.values()) and not any(
                        b.unk and ALL in b.unk for v in vs for b in v.blocks.values()):
                    fails.add(n)
                    # sparse first step: start one step later
                    if s4 is None:
                        s4, _ = one(s3, 3)
                    g1 = self.fit_tensor(vs[1:] + [s4[n]], kp, 1)
                    if not any(b.unk and ALL in b.unk for b in g1.blocks.values()):
                        g = g1
                elif any(b.unk for b in g.blocks.values()) and not any(b.unk for v in vs for b in v.blocks.values()):
                    fails.add(n)
                G[n] = g
            if fails:
                G.update(self.solve_fit(G, fails, k, run, {n: [s0[n], s1[n], s2[n], s3[n]] for n in tens}))
            for n in ints:
                vs = [as_poly(x) for x in (s0[n], s1[n], s2[n])]
                if any(v is None for v in vs):
                    G[n] = OpaqueNum("loop")
                    continue
                d = self.facts.norm(vs[1] - vs[0])
                if self.facts.norm(vs[2] - vs[1] - d).is_zero():
                    G[n] = num(self.facts.norm(vs[0] + kp * d))
                else:
                    G[n] = OpaqueNum("loop")
            out, apps = run(kp, dict(G))
            # inductive check
            for n in tens:
                want = self.subst_val(G[n], {k: kp + 1})
                got = out[n]
                if not isinstance(got, T):
                    raise Unsupported("loop variable changes type")
                bad = self.ops.same_type(want, got)
                wa, ga = self.ops.broadcast(want, got, "comparison")
                if any(wa.blocks[q].zero and not ga.blocks[q].zero for q in wa.blocks):
                    bad = set(bad) | {ALL}
                loose = any(not wa.blocks[q].zero and wa.blocks[q].coef != ga.blocks[q].coef
                            and not ga.blocks[q].zero for q in wa.blocks)
                extra = got.taint()
                deps = got.deps()
                G[n] = self.ops.map_blocks(G[n], lambda b: b if b.zero and not bad else b.with_(
                    zero=False,
                    unk=b.unk | frozenset(bad), taint=b.taint | extra, deps=b.deps | deps,
                    coef=None if loose else b.coef))
                if bad:
                    # re-run with the weakened state so that everything derived is weakened too
                    out, apps = run(kp, dict(G))
            return k, G, apps
        finally:
            self.facts.nn = saved_nn

    def solve_fit(self, G, fails, k, run, samples):
        """Infer the grades of the state components that the first steps leave
        empty from the coefficients that read them: if component i (known) gets
        c_ij * h_j, then grade(h_j at n) = grade(h_i at n+1) - grade(c_ij)."""
        o, kp = self.ops, Poly.atom(k)
        known, todo, base = {}, {}, {}
        for n in samples:
            for key, b in G[n].blocks.items():
                if b.zero or not b.unk:
                    known[n, key] = b
                else:
                    todo[n, key] = b
        for n, key in list(known):
            if known[n, key].zero:
                todo[n, key] = known.pop((n, key))
        if not known or not todo:
            return {}
        saved = dict(self.events), dict(self.unknown_ops), list(self.mutations)
        found = True
        try:
            while todo and found:
                found = False
                for n, key in list(todo):
                    t = G[n]
                    js, sup = {}, []
                    for ax, q in enumerate(key):
                        for a, _ in t.axes[ax][q].factors:
                            j = tz.fresh("j")
                            js[a] = j
                            sup.append(Poly.atom(a) - Poly.atom(j))
                    probe = Block(False, tuple(sup), Poly.atom("w:probe"), frozenset(), 1)
                    state = {m: T(G[m].axes, {kk: (probe if (m, kk) == (n, key) else ZERO) for kk in G[m].blocks},
                                  G[m].cplx, G[m].dtype, G[m].dev) for m in samples}
                    for m in G:
                        if m not in samples:
                            state[m] = G[m]
                    self.probe = "w:probe"
                    try:
                        out, _ = run(kp, state)
                    finally:
                        self.probe = None
                    for (m, kk), kb in known.items():
                        r = out.get(m)
                        if not isinstance(r, T) or r.ndim != G[m].ndim:
                            continue
                        wa, ra = o.broadcast(G[m], r, "comparison")
                        hit = None
                        for q, rb in ra.blocks.items():
                            wb = wa.blocks[q]
                            if rb.zero or wb.zero or "w:probe" not in rb.grade.atoms() or wb.unk:
                                continue
                            d = wb.grade.subst({k: kp + 1}) - (rb.grade - Poly.atom("w:probe"))
                            for s in rb.support:
                                for a in sorted(s.atoms()):
                                    if a in js.values() or "w:" in a:
                                        continue
                                    if s.degree_in(a) == 1 and s.coeff_of(a).is_const() and abs(s.coeff_of(a).const_value()) == 1:
                                        c = s.coeff_of(a).const_value()
                                        d = d.subst({a: (s - Poly.atom(a) * c) * (-1 / c)})
                                        break
                            d = self.facts.norm(d.subst({j: Poly.atom(a) for a, j in js.items()}))
                            own = set(js) | {k}
                            d = d.subst({a: P(0) for a in d.atoms() if "#" in a and a not in own})
                            hit = d
                            break
                        if hit is not None:
                            deps = todo[n, key].deps
                            known[n, key] = Block(False, (), hit, frozenset(), kb.coef, kb.deps | deps,
                                                  kb.taint | todo[n, key].taint)
                            G = dict(G)
                            nb = dict(G[n].blocks)
                            nb[key] = known[n, key]
                            G[n] = T(G[n].axes, nb, G[n].cplx, G[n].dtype, G[n].dev)
                            del todo[n, key]
                            found = True
                            break
        finally:
            self.events.clear(); self.events.update(saved[0])
            self.unknown_ops.clear(); self.unknown_ops.update(saved[1])
            self.mutations[:] = saved[2]
        # the inferred grades must describe the first states
        res = {}
        for n in fails:
            ok = not any((n, key) in todo and not G[n].blocks[key].zero for key in G[n].blocks)
            for step, v in enumerate(samples[n][:3]):
                if not ok:
                    break
                w = self.subst_val(G[n], {k: P(step)})
                ok = not self.ops.same_type(w, v)
            if ok:
                res[n] = G[n]
        return res

    def fit_tensor(self, vs, kp, base=0):
        """Quadratic interpolation in the iteration index through v1,v2,v3;
        v0 must be compatible."""
        o = self.ops
        v0, v1, v2, v3 = vs
        for v in vs[1:]:
            if v.ndim != v0.ndim:
                raise Unsupported("loop variable changes rank")
        b1, b2 = o.broadcast(v1, v2)
        _, b3 = o.broadcast(b1, v3)
        b1b, b3 = o.broadcast(b1, b3)
        _, b2 = o.broadcast(b1b, b2)
        b1c, b0 = o.broadcast(b1b, v0)
        _, b2 = o.broadcast(b1c, b2)
        _, b3 = o.broadcast(b1c, b3)
        blocks = {}
        for key in b1c.blocks:
            x1, x2, x3, x0 = (b.blocks[key] for b in (b1c, b2, b3, b0))
            deps = x0.deps | x1.deps | x2.deps | x3.deps
            taint = x0.taint | x1.taint | x2.taint | x3.taint
            unk = x0.unk | x1.unk | x2.unk | x3.unk
            xs = [x for x in (x1, x2, x3) if not x.zero]
            if not xs:
                if x0.zero:
                    blocks[key] = ZERO
                else:
                    blocks[key] = x0.with_(unk=x0.unk | frozenset([ALL]))
                continue
            if len(xs) < 3:
                blocks[key] = xs[-1].with_(unk=unk | frozenset([ALL]), coef=None, deps=deps, taint=taint)
                continue
            sup = x1.support
            s1, s2, s3 = (set(map(self.facts.norm, x.support)) for x in (x1, x2, x3))
            if not (s1 == s2 == s3):
                # the component fills up gradually: no conclusion from samples
                blocks[key] = x3.with_(unk=unk | frozenset([ALL]), coef=None, deps=deps, taint=taint, support=())
                continue
            d1 = x2.grade - x1.grade
            d2 = x3.grade - x2.grade * 2 + x1.grade
            kk = kp - base
            g = x1.grade + (kk - 1) * d1 + (kk - 1) * (kk - 2) * Fraction(1, 2) * d2
            g = self.facts.norm(g)
            coefs = {x.coef for x in xs} | (set() if x0.zero else {x0.coef})
            coef = coefs.pop() if len(coefs) == 1 else None
            if not x0.zero:
                g0 = g.subst({next(iter(kp.atoms())): P(base)})
                w = o.weights(o.reduce(g0 - x0.grade, x0.support), unk)
                if w:
                    unk = unk | frozenset(w)
            blocks[key] = Block(False, sup, g, unk, coef, deps, taint)
        return T(b1c.axes, blocks, v1.cplx or v0.cplx, v1.dtype, v1.dev)

    def accumulate(self, seq, f, what):
        """itertools.accumulate over a symbolic sequence."""
        first = seq.elem(P(0))
        if not isinstance(first, T):
            raise Unsupported("accumulate over non-tensors")

        def run(i, st):
            v = f(st["acc"], seq.elem(self.facts.norm(i + 1)))
            return {"acc": v}, {}
        k, G, _ = self.fit({"acc": first}, ["acc"], [], run, P(seq.length) - 1)
        g = G["acc"]
        return SeqVal(seq.length, lambda p: self.subst_val(g, {k: p}))

    # ---- expressions -------------------------------------------------------
    def ev(self, e, env, fn):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env, fn)

    def e_Constant(self, e, env, fn):
        return e.value

    def e_Name(self, e, env, fn):
        try:
            return env.get(e.id)
        except KeyError:
            pass
        if e.id in BUILTIN_NAMES:
            return Ref("builtins." + e.id)
        if e.id in EXC_NAMES:
            return Ref("builtins." + e.id)
        if e.id in ("staticmethod", "classmethod", "property"):
            return Builtin(e.id, lambda a, k: a[0])
        if e.id == "Ellipsis":
            return Ellipsis
        if hasattr(builtins, e.id) or e.id.startswith("__"):
            return Ref("builtins." + e.id)
        raise AbsError("NameError", f"name {e.id} is not defined", "raise")

    def e_Tuple(self, e, env, fn):
        return tuple(self.elts(e.elts, env, fn))

    def e_List(self, e, env, fn):
        return self.elts(e.elts, env, fn)

    def e_Set(self, e, env, fn):
        return self.elts(e.elts, env, fn)

    def e_Dict(self, e, env, fn):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env, fn))
            else:
                d[self.ev(k, env, fn)] = self.ev(v, env, fn)
        return d

    def elts(self, es, env, fn):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.ev(x.value, env, fn))
                if not isinstance(v, list):
                    raise Unsupported("star of a symbolic sequence")
                out.extend(v)
            else:
                out.append(self.ev(x, env, fn))
        return out

    def e_JoinedStr(self, e, env, fn):
        return "<fstring>"

    def e_Lambda(self, e, env, fn):
        return self.make_func(e, env, fn, "<lambda>")

    def e_IfExp(self, e, env, fn):
        return self.ev(e.body if self.truth(self.ev(e.test, env, fn)) else e.orelse, env, fn)

    def e_BoolOp(self, e, env, fn):
        v = None
        for x in e.values:
            v = self.ev(x, env, fn)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, (Unknown, OpaqueNum, T)) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, (Unknown, OpaqueNum, T)) else True
        return v if not isinstance(v, (Unknown, OpaqueNum, T)) else self.truth_last(v, e)

    def truth_last(self, v, e):
        # truth() was already decided for the last operand
        return isinstance(e.op, ast.And)

    def e_UnaryOp(self, e, env, fn):
        v = self.ev(e.operand, env, fn)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v)
        if op == "USub":
            if isinstance(v, (int, float, complex)):
                return -v
            if isinstance(v, SInt):
                return num(-v.p)
            if isinstance(v, T):
                return self.ops.neg(v)
            return v
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, T):
                return self.tm.opaque_like("~", v)
            if isinstance(v, int):
                return ~v
            return v
        raise Unsupported(op)

    def e_BinOp(self, e, env, fn):
        a = self.ev(e.left, env, fn)
        b = self.ev(e.right, env, fn)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, T) or isinstance(b, T):
            return self.tm.tbinop(op, a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.merge_unknown(a, b)
        if isinstance(a, Shape) or isinstance(b, Shape) or isinstance(a, tuple) and isinstance(b, tuple):
            if op == "Add":
                return Shape(tuple(a) + tuple(b)) if isinstance(a, Shape) or isinstance(b, Shape) else a + b
        if op == "Mult" and isinstance(a, (list, tuple)) or op == "Mult" and isinstance(b, (list, tuple)):
            s, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            if isinstance(n, int):
                return s * n
            if isinstance(n, SInt):
                if len(s) == 1:
                    return SeqVal(n.p, lambda p, x=s[0]: x)
                raise Unsupported("symbolic repetition")
            if isinstance(n, Unknown) or isinstance(n, OpaqueNum):
                return Unknown(why="repeat")
        if isinstance(a, SInt) or isinstance(b, SInt):
            pa, pb = as_poly(a), as_poly(b)
            if pa is None or pb is None:
                r = OpaqueNum(op)
                if op == "Pow" and b == 0.5 and pa is not None:
                    r.arg = pa
                return r
            N = self.facts.norm
            if op == "Add":
                return num(N(pa + pb))
            if op == "Sub":
                return num(N(pa - pb))
            if op == "Mult":
                return num(N(pa * pb))
            if op == "FloorDiv":
                return num(self.divmod(pa, pb)[0])
            if op == "Mod":
                return num(self.divmod(pa, pb)[1])
            if op == "Pow" and isinstance(b, int) and b >= 0:
                return num(N(pa ** b))
            if op == "Div":
                r = OpaqueNum("quotient")
                r.arg = (pa, pb)
                return r
            return OpaqueNum(op)
        if isinstance(a, OpaqueNum) or isinstance(b, OpaqueNum):
            return OpaqueNum(op)
        if isinstance(a, list) and isinstance(b, list) and op == "Add":
            return a + b
        try:
            return PYOPS[op](a, b)
        except ZeroDivisionError:
            raise AbsError("ZeroDivisionError", "division by zero", "raise")
        except TypeError:
            if all(x is None or isinstance(x, (bool, int, float, str, tuple, list, Shape, SInt)) for x in (a, b)):
                raise AbsError("TypeError", f"{op} of {pyname(a)} and {pyname(b)}", "raise")
            raise Unsupported(f"{op} on {type(a).__name__} and {type(b).__name__}")
        except Exception:
            raise Unsupported(f"{op} on {type(a).__name__} and {type(b).__name__}")

    def merge_unknown(self, *vs):
        d, t = frozenset(), frozenset()
        for v in vs:
            x, y = self.prov(v)
            d |= x
            t |= y
        return Unknown(d, t, "derived")

    def prov(self, v):
        """(deps, taint) of any value."""
        if isinstance(v, T):
            return v.deps(), v.taint()
        if isinstance(v, Unknown):
            return v.deps, v.taint
        if isinstance(v, (list, tuple)):
            d, t = frozenset(), frozenset()
            for x in v:
                a, b = self.prov(x)
                d |= a
                t |= b
            return d, t
        if isinstance(v, SeqVal):
            try:
                return self.prov(v.elem(P(0)))
            except (Unsupported, AbsError):
                return frozenset(), frozenset()
        return frozenset(), frozenset()

    def e_Compare(self, e, env, fn):
        left = self.ev(e.left, env, fn)
        result = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env, fn)
            r = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return result

    def compare(self, op, a, b):
        if op == "Is":
            if a is None or b is None:
                if isinstance(a, Unknown) or isinstance(b, Unknown):
                    return False
                return a is b
            return a is b or (isinstance(a, (bool,)) and a == b)
        if op == "IsNot":
            return not self.compare("Is", a, b)
        if op in ("In", "NotIn"):
            if isinstance(b, dict):
                b = list(b.keys())
            if not isinstance(b, (list, tuple)):
                if isinstance(b, str) and isinstance(a, str):
                    return (a in b) == (op == "In")
                return Unknown(why="in")
            r = any((x is None and a is None) or (x is not None and a is not None
                    and self.truth(self.compare("Eq", a, x))) for x in b)
            return r == (op == "In")
        if isinstance(a, T) or isinstance(b, T):
            return self.tm.tcompare(op, a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown) or isinstance(a, OpaqueNum) or isinstance(b, OpaqueNum):
            return self.merge_unknown(a, b)
        if isinstance(a, (DType, Device)) and isinstance(b, (DType, Device)):
            if a.name == b.name:
                return op == "Eq"
            if "?" in (a.name, b.name) or (op in ("Eq", "NotEq") and {a.name, b.name} & {"X", "CX", "D"}):
                return Unknown(why="dtype comparison")
            return op != "Eq"
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ("Eq", "NotEq"):
            r = len(a) == len(b) and all(self.truth(self.compare("Eq", x, y)) for x, y in zip(a, b))
            return r == (op == "Eq")
        pa, pb = as_poly(a), as_poly(b)
        if pa is not None and pb is not None and (isinstance(a, SInt) or isinstance(b, SInt)):
            F = self.facts
            if op in ("Eq", "NotEq"):
                r = F.eq(pa, pb)
                if r is None:
                    d = F.norm(pa - pb)
                    if isinstance(a, SInt) and isinstance(b, SInt) and not any(x.startswith("?") for x in d.atoms()) and not self._local(d) and not self.world.get("exact"):
                        # generic sizes: coincidences are separate configurations
                        self.assumed.add(repr(d))
                        r = False
                    else:
                        r = self.decide_eq(pa, pb)
                return r == (op == "Eq")
            if op == "GtE":
                return self.decide_ge(pa, pb)
            if op == "LtE":
                return self.decide_ge(pb, pa)
            if op == "Gt":
                return not self.decide_ge(pb, pa)
            if op == "Lt":
                return not self.decide_ge(pa, pb)
        if isinstance(a, (Ref, Func, ClassVal, Builtin)) or isinstance(b, (Ref, Func, ClassVal, Builtin)):
            return (a is b) == (op == "Eq")
        try:
            return PYCMP[op](a, b)
        except Exception:
            if op == "Eq":
                return False
            if op == "NotEq":
                return True
            raise Unsupported(f"comparison {op} on {type(a).__name__}, {type(b).__name__}")

    def comp(self, e, env, fn):
        """Comprehensions: concrete, or a single symbolic generator."""
        def rec(gens, env):
            if not gens:
                yield self.ev(e.elt, env, fn)
                return
            g = gens[0]
            seq = self.iterate(self.ev(g.iter, env, fn))
            if not isinstance(seq, list):
                raise _Sym(seq, g)
            for v in seq:
                e2 = Env(env)
                self.assign(g.target, v, e2, fn)
                if all(self.truth(self.ev(c, e2, fn)) for c in g.ifs):
                    yield from rec(gens[1:], e2)
        try:
            return list(rec(e.generators, env))
        except _Sym as s:
            if len(e.generators) != 1 or s.gen.ifs:
                raise Unsupported("symbolic comprehension")

            def elem(p):
                e2 = Env(env)
                self.assign(s.gen.target, s.seq.elem(p), e2, fn)
                return self.ev(e.elt, e2, fn)
            return SeqVal(s.seq.length, elem)

    def e_ListComp(self, e, env, fn):
        return self.comp(e, env, fn)

    def e_GeneratorExp(self, e, env, fn):
        return self.comp(e, env, fn)

    def e_SetComp(self, e, env, fn):
        return self.comp(e, env, fn)

    def e_Slice(self, e, env, fn):
        def g(x):
            return None if x is None else self.ev(x, env, fn)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def index(self, e, env, fn):
        return self.ev(e, env, fn)

    def e_Subscript(self, e, env, fn):
        obj = self.ev(e.value, env, fn)
        if isinstance(obj, Ref):
            return Unknown(why="type expression")
        return self.getitem(obj, self.index(e.slice, env, fn))

    def e_Starred(self, e, env, fn):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, env, fn):
        v = self.ev(e.value, env, fn)
        env.vars[e.target.id] = v
        return v

    def getitem(self, obj, idx):
        if isinstance(obj, T):
            return self.tm.getitem(obj, idx)
        if isinstance(obj, Unknown):
            return obj
        if isinstance(obj, (Shape, tuple, list)):
            if isinstance(idx, slice):
                lo, hi, st = idx.start, idx.stop, idx.step
                if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    r = list(obj)[lo:hi:st]
                    return Shape(r) if isinstance(obj, Shape) else type(obj)(r)
                raise Unsupported("symbolic list slice")
            if isinstance(idx, int):
                try:
                    return obj[idx]
                except IndexError:
                    raise AbsError("IndexError", f"index {idx} out of range", "raise")
            raise Unsupported("symbolic list index")
        if isinstance(obj, dict):
            try:
                return obj[idx]
            except (KeyError, TypeError):
                raise AbsError("KeyError", str(idx), "raise")
        if isinstance(obj, SeqVal):
            if isinstance(idx, slice):
                if idx.start is None and idx.stop is None and idx.step == -1:
                    L = obj.length
                    return SeqVal(L, lambda p: obj.elem(L - 1 - P(p)), obj.kind)
                raise Unsupported("slice of symbolic sequence")
            p = as_poly(idx)
            if p is None:
                raise Unsupported("sequence index")
            if isinstance(idx, int) and idx < 0:
                p = self.facts.norm(obj.length + idx)
            return obj.elem(p)
        if isinstance(obj, FactorList):
            if isinstance(idx, slice) and idx.start is None and idx.stop is None and idx.step == -1:
                return obj
            raise Unsupported("factor list index")
        raise Unsupported(f"subscript of {type(obj).__name__}")

    def setitem(self, obj, idx, v, aug=False):
        if isinstance(obj, T):
            return self.tm.setitem(obj, idx, v)
        if isinstance(obj, (list, dict)):
            if isinstance(obj, dict) or isinstance(idx, int):
                self.tm.stored(obj, v)
                obj[idx] = v
                return
        if isinstance(obj, Unknown):
            return
        raise Unsupported("item assignment")

    def e_Attribute(self, e, env, fn):
        obj = self.ev(e.value, env, fn)
        return self.getattr(obj, e.attr)

    def getattr(self, obj, a):
        if isinstance(obj, T):
            return self.tm.tattr(obj, a)
        if isinstance(obj, Finfo):
            return Finfo.V.get(a, OpaqueNum(a))
        if isinstance(obj, Ref):
            path = f"{obj.path}.{a}"
            return self.tm.refattr(path)
        if isinstance(obj, Module):
            if a in obj.ns:
                return obj.ns[a]
            return self.module(obj.name + "." + a)
        if isinstance(obj, ClassVal):
            v = obj.lookup(a)
            if v is not None:
                return v
            return Method(obj, a)
        if isinstance(obj, Obj):
            if a in obj.attrs:
                return obj.attrs[a]
            cls = getattr(obj, "cls", None)
            if cls is not None:
                v = cls.lookup(a)
                if isinstance(v, Func):
                    deco = [getattr(d, "id", "?") for d in v.node.decorator_list]
                    if deco == ["staticmethod"]:
                        return v
                    if deco == ["property"]:
                        return self.call_func(v, [obj], {})
                    if deco:
                        return Unknown(why=f"{cls.name}.{a}")
                    return Partial(v, [cls if deco == ["classmethod"] else obj], {})
                if v is not None:
                    return v
                raise Unsupported(f"{cls.name}.{a}")
            return Method(obj, a)
        if isinstance(obj, (Func, Builtin)):
            if isinstance(obj, Func) and a in obj.attrs:
                return obj.attrs[a]
            return Method(obj, a)
        if isinstance(obj, Unknown):
            return Unknown(obj.deps, obj.taint, obj.why + "." + a)
        if isinstance(obj, (list, dict, str, SeqVal, tuple, FactorList)):
            return Method(obj, a)
        if isinstance(obj, (Device,)):
            if a == "type":
                return "cuda" if self.world["device"] == "cuda" and obj.name == "X" else "cpu"
            return Unknown(why="device attr")
        if isinstance(obj, DType):
            if a in ("is_complex", "is_floating_point"):
                self.asked_cplx = True
            if a == "is_complex":
                return bool(getattr(obj, "cplx", False))
            if a == "is_floating_point":
                return obj.name in ("X", "F") and not getattr(obj, "cplx", False)
            return Unknown(why="dtype attr")
        if isinstance(obj, (SInt, int, float, OpaqueNum)):
            return Method(obj, a)
        if obj is None and not a.startswith("__"):
            raise AbsError("AttributeError", f"None has no attribute {a}", "raise")
        raise Unsupported(f"attribute {a} of {type(obj).__name__}")

    # ---- calls -------------------------------------------------------------
    def e_Call(self, e, env, fn):
        f = self.ev(e.func, env, fn)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, fn)
                v = self.tm.star(v)
                args.extend(v)
            else:
                args.append(self.ev(a, env, fn))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, fn)
                if isinstance(d, Unknown):
                    continue
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value, env, fn)
        saved = self.stack[-1]
        try:
            r = self.call(f, args, kwargs)
        finally:
            self.stack[-1] = saved
        return r

    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(args, kwargs)
        if isinstance(f, Ref):
            return self.tm.call_ref(f.path, args, kwargs)
        if isinstance(f, Method):
            return self.tm.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassVal):
            if not f.plain():
                return Unknown(why=f"instance of {f.name}")
            o = Obj()
            o.cls = f
            init = f.lookup("__init__")
            if isinstance(init, Func):
                self.call_func(init, [o] + list(args), kwargs)
            elif args or kwargs:
                return Unknown(why=f"instance of {f.name}")
            return o
        if isinstance(f, Obj) and getattr(f, "cls", None) is not None and isinstance(f.cls.lookup("__call__"), Func):
            return self.call_func(f.cls.lookup("__call__"), [f] + list(args), kwargs)
        if isinstance(f, Unknown):
            return self.merge_unknown(f, *args, *kwargs.values())
        raise Unsupported(f"call of {type(f).__name__}")

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        for k, n in enumerate(names):
            if k < len(args):
                env[n] = args[k]
                if n in kwargs:
                    raise AbsError("TypeError", f"{f.qual}() got multiple values for {n}", "raise")
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                j = k - (len(names) - len(f.defaults))
                if j < 0:
                    raise AbsError("TypeError", f"{f.qual}() missing argument {n}", "raise")
                env[n] = f.defaults[j]
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise AbsError("TypeError", f"{f.qual}() takes {len(names)} positional arguments but {len(args)} were given", "raise")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                raise AbsError("TypeError", f"{f.qual}() missing keyword argument {x.arg}", "raise")
        if a.kwarg:
            env[a.kwarg.arg] = kwargs
        elif kwargs:
            raise AbsError("TypeError", f"{f.qual}() got an unexpected keyword argument {sorted(kwargs)[0]}", "raise")
        return env

    def call_func(self, f, args, kwargs):
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("call depth")
        hook = self.tm.contract(f, args, kwargs)
        if hook is not None:
            return hook
        env = Env(f.env, self.bind(f, args, kwargs))
        self.stack.append((f, f.node))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f)
            try:
                self.exec_block(f.node.body, env, f)
            except ReturnEx as r:
                return r.v
            return None
        except AbsError as e:
            if e.loc is None:
                e.loc = self.where()
                e.chain = [f"{x.module.name}.{x.qual}" for x, _ in self.stack if x is not None]
            raise
        except Unsupported as e:
            return self.tm.unknown_result(f"{f.module.name}.{f.qual}", list(args) + list(kwargs.values()), e)
        finally:
            self.stack.pop()


class _Sym(Exception):
    def __init__(self, seq, gen):
        self.seq, self.gen = seq, gen


def as_poly(v):
    if isinstance(v, bool):
        return P(int(v))
    if isinstance(v, int):
        return P(v)
    if isinstance(v, SInt):
        return v.p
    return None


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    return t


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
    return out


def stored_tensors(stmts):
    return set()


def appended_lists(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                    and n.func.attr in ("append", "extend", "insert") and isinstance(n.func.value, ast.Name)):
                out.add(n.func.value.id)
    return out


import operator as _o
PYOPS = {"Add": _o.add, "Sub": _o.sub, "Mult": _o.mul, "Div": _o.truediv, "FloorDiv": _o.floordiv,
         "Mod": _o.mod, "Pow": _o.pow, "BitAnd": _o.and_, "BitOr": _o.or_, "BitXor": _o.xor,
         "LShift": _o.lshift, "RShift": _o.rshift}
PYCMP = {"Eq": _o.eq, "NotEq": _o.ne, "Lt": _o.lt, "LtE": _o.le, "Gt": _o.gt, "GtE": _o.ge}

_ast_cache = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _ast_cache:
        with open(path) as f:
            _ast_cache[key] = ast.parse(f.read(), path)
    return _ast_cache[key]
