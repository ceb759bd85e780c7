"""Entry points of the native extension: registrations, one analysis per
operator, device and rank combination, and the rules for C01, C02, C03, C05."""
import glob
import os

from . import cpp
from .poly import Poly
from .cppbase import Infeasible, Loop, Reject, Ret, Tensor, Und, evaluate, nonneg, split, witnesses
from .cppcore import Forker
from .cppsem import Interp

CSRC = "philtorch/csrc"


class Finding:
    def __init__(self, prop, rule, msg, file, line, func, case, witness=None):
        self.prop, self.rule, self.msg, self.file, self.line, self.func, self.case, self.witness = prop, rule, msg, file, line, func, case, witness


class Registry:
    """Operators declared and implemented by the sources under csrc."""

    def __init__(self, repo):
        self.repo = repo
        self.units = {}
        self.defs = {}            # op -> [(schema, file, line)]
        self.impls = {}           # (op, device) -> [(func name, unit, file, line)]
        self.opaque = []
        self.failed = []
        for p in sorted(glob.glob(os.path.join(repo, CSRC, "*.c*"))):
            if p.endswith((".cpp", ".cu", ".cc", ".cxx")):
                try:
                    self.units[p] = cpp.parse_file(p)
                except Exception as e:
                    self.failed.append((p, f"{type(e).__name__}: {e}"[:200]))
        for p, u in self.units.items():
            for lib in u.libs:
                if lib.path != p:
                    continue
                self.library(lib, u, p)

    def library(self, lib, u, p):
        if lib.args[0] != "philtorch":
            return
        dev = lib.args[1] if lib.macro == "TORCH_LIBRARY_IMPL" else None
        for s in self.flat(lib.body):
            if s.k != "expr" or s.e.k != "call" or s.e.f.k != "member":
                if s.k not in ("empty",):
                    self.opaque.append((p, s.line))
                continue
            m, args = s.e.f.name, s.e.args
            if m == "def" and args[0].k == "str":
                schema = args[0].v
                op = schema.split("(")[0].split("::")[-1].strip()
                self.defs.setdefault(op, []).append((schema, p, s.line))
                if len(args) > 1 and args[1].k in ("un", "name"):
                    f = args[1].a if args[1].k == "un" else args[1]
                    self.impls.setdefault((op, "ALL"), []).append((f.name, u, p, s.line))
            elif m == "impl" and args[0].k == "str":
                f = args[1]
                while f.k in ("un", "call", "cast"):
                    f = f.a if f.k in ("un", "cast") else (f.args[0] if f.args else f.f)
                op = args[0].v.split("::")[-1]
                self.impls.setdefault((op, dev), []).append((getattr(f, "name", "?"), u, p, s.line))
            elif m not in ("set_python_module", "impl_abstract_pystub"):
                self.opaque.append((p, s.line))

    def flat(self, b):
        for s in b.body:
            if s.k == "block":
                yield from self.flat(s)
            else:
                yield s


class Case:
    def __init__(self, op, dev, fn, unit, path, ranks):
        self.op, self.dev, self.fn, self.unit, self.path, self.ranks = op, dev, fn, unit, path, ranks

    @property
    def id(self):
        return f"{self.op}/{self.dev}/A{self.ranks[0]}z{self.ranks[1]}x{self.ranks[2]}"


class Path:
    """One accepted path of an entry point."""

    def __init__(self, it, ret, args):
        self.it, self.ret, self.args = it, ret, args
        self.facts = it.facts
        self.log = it.log


def sizes(name, r):
    out = [Poly.atom(f"{name}{d}") for d in range(r)]
    return out


def run_case(case, report, dtypes=("dtype",) * 3):
    """Analyse one entry point for one rank combination.  Returns a list of
    accepted paths; paths without a rule are (None, reason)."""
    fs = case.unit.funcs.get(case.fn)
    if not fs:
        return [], [f"{case.fn} not found"], None
    f = next((x for x in fs if x.body is not None), fs[0])
    paths, und, partial = [], [], []
    todo = [[]]
    rejected = 0
    n = 0
    last = None
    bare = []
    while todo:
        pre = todo.pop()
        n += 1
        if n > 40:
            und.append("too many paths")
            break
        it, fk, args = prepare(case, f, pre, report, dtypes)
        last = it
        q = None
        try:
            q = execute(it, f, args)
            paths.append(q)
        except (Reject, Infeasible):
            rejected += 1
        except Und as e:
            und.append(str(e))
            # what was accessed before the analysis gave up is still accessed
            partial.append(upto(it, args))
            # once more, following addresses only
            def addresses(prop, *a):
                if prop != "C03":
                    report(prop, *a)
            jt, _, args2 = prepare(case, f, list(fk.taken), addresses, dtypes)
            jt.novalue = True
            try:
                bare.append(execute(jt, f, args2))
            except (Reject, Infeasible):
                pass
            except Und:
                partial.append(upto(jt, args2))
            except RecursionError:
                pass
        except RecursionError:
            und.append("expression too deep")
        for i in range(len(pre), len(fk.taken)):
            todo.append(fk.taken[:i] + [not fk.taken[i]])
    if last is not None:
        last.partial = partial
        last.bare = bare
    return paths, und, last


def prepare(case, f, pre, report, dtypes):
    it = Interp(case.unit, report)
    it.checks = []
    fk = Forker(pre, 0)
    it.forks = [fk]
    args = []
    for nm, r, dt in zip("Azx", case.ranks, dtypes):
        sh = sizes(nm, r)
        for s in sh:
            for a in s.atoms():
                it.facts.lb[a] = 0
        if nm == "x" and r >= 2:
            it.facts.lb["Tn"] = 1
            sh[1] = Poly.atom("Tn") - 1
            it.expect_T = Poly.atom("Tn")
        t = Tensor(sh, (lambda nm: lambda idx, it: ("src", nm, tuple(idx)))(nm), True if r == 0 else None, dt, nm, arg=nm)
        t.bound = True
        args.append(t)
    it.uses_strides = strided(f, case.unit)
    return it, fk, args


def execute(it, f, args):
    try:
        ret = it.call_func(f, args, f.line)
    except Ret as e:
        ret = e.v
    q = Path(it, ret, args)
    q.where = (f.line, f.path, f.name)
    return q


def upto(it, args):
    q = Path(it, None, args)
    q.log = [a for a in it.log if getattr(a, "final", False)]
    q.facts = it.facts
    return q


def strided(f, unit):
    """The code handles strides itself somewhere."""
    names = {"stride", "strides", "accessor", "packed_accessor64", "packed_accessor32", "packed_accessor", "TensorIterator", "sym_stride"}

    def walk(n):
        if isinstance(n, cpp.N):
            if n.k == "member" and n.name in names:
                return True
            return any(walk(v) for v in n.__dict__.values())
        if isinstance(n, (list, tuple)):
            return any(walk(v) for v in n)
        return False
    return any(walk(g) for fs in unit.funcs.values() for g in fs)


# ---------------------------------------------------------------- C01

def fmt(env, names=None):
    return ", ".join(f"{k}={v}" for k, v in sorted(env.items()) if not k.startswith(("q", "m")) or True)


def names_of(env):
    """Readable witness: sizes of the arguments only."""
    keep = {"Tn": "time steps+1"}
    return ", ".join(f"{keep.get(k, k[0] + '.size(' + k[1:] + ')' if k[0] in 'Azx' and k[1:].isdigit() else k)}={v}" for k, v in sorted(env.items())
                     if k in keep or (k[0] in "Azx" and k[1:].isdigit()))


def bounds(path, case, report, stats):
    """Every access lies inside its block."""
    it = path.it
    for a in path.log:
        stats["accesses"] += 1
        off, ext = a.facts.norm(a.off), a.facts.norm(a.st.extent)
        loops = list(a.loops)
        low = nonneg(a.facts, loops, off)
        high = nonneg(a.facts, loops, ext - 1 - off)
        if a.nar:
            line, what, q = a.nar
            if not small(a.facts.norm(q), a, path):
                report("C01", "narrow", f"offset of {a.st.label} is computed with a {what} integer and wraps around for large tensors", line, a.file, a.func)
        if low and high:
            stats["proved"] += 1
            continue
        w = None
        for env in witnesses(a.facts, [off, ext], loops):
            o, e = evaluate(off, env), evaluate(ext, env)
            if o < 0 or o >= e:
                w = (env, o, e)
                break
        if w is None:
            stats["undetermined"].append(f"{case.id}: bound of {a.st.label} at line {a.line}")
            continue
        env, o, e = w
        report("C01", "bounds", f"{'reads' if a.kind == 'R' else 'writes'} element {o} of {a.st.label}, which has {e} elements ({names_of(full(a.facts, env))})",
               a.line, a.file, a.func)


def full(f, env):
    """Add the atoms that were substituted away."""
    out = dict(env)
    for a, v in f.sub.items():
        q = f.norm(v)
        if q.atoms() <= set(env):
            out[a] = evaluate(q, env)
    return out


def small(q, a, path):
    """The narrow quantity stays below 2^31 whenever the tensors fit into memory: an argument
    has at least as many elements as its square (a counter of state components)."""
    loops = list(a.loops)
    return any(nonneg(a.facts, loops, a.facts.norm(t.numel()) - q * q) for t in path.args)


# ---------------------------------------------------------------- C02

def races(path, case, report, stats):
    """Parallel iterations touch disjoint elements."""
    log = path.log
    pars = []
    for a in log:
        for l in a.loops:
            if l.par is True and l not in pars and not hasattr(l, "parts"):
                pars.append(l)
    for l in pars:
        inside = [a for a in log if l in a.loops]
        writes = [a for a in inside if a.kind in ("W", "w") and not (a.st.local and within(a, l))]
        seen = set()
        for w in writes:
            for x in inside:
                if x.st is not w.st:
                    continue
                key = (w.off, x.off, x.kind == "R")
                if key in seen:
                    continue
                seen.add(key)
                stats["pairs"] += 1
                r = overlap(path.it, w, x, l)
                if r is None:
                    stats["proved"] += 1
                elif r == "?":
                    stats["undetermined"].append(f"{case.id}: independence of lines {w.line} and {x.line}")
                else:
                    act = "written" if x.kind != "R" else "read"
                    report("C02", "race", f"element of {w.st.label} written by one parallel iteration is {act} by another ({names_of(full(w.facts, r))})",
                           w.line, w.file, w.func)


def within(a, l):
    return getattr(a.st, "home", None) is not None and l in a.st.home


def overlap(it, w, x, l):
    """None: disjoint for different iterations of l; "?": unknown; else a witness."""
    f = w.facts.copy()
    for k, v in x.facts.lb.items():
        f.lb.setdefault(k, v)
    i = w.loops.index(l)
    j = x.loops.index(l)
    env = {}
    fresh = []
    # outer loops are common; l and inner loops get their own copies for x
    for y in x.loops[j:]:
        z = Loop(y.n.subst(env), y.line)
        env[y.atom] = z.p
        f.lb[z.atom] = x.facts.low(y.atom) if y is not l else 0
        fresh.append(z)
    g = x.facts
    xo = g.norm(x.off).subst(env)
    wo = w.facts.norm(w.off)
    outer = list(w.loops[:i])
    mine = list(w.loops[i:])
    loops = outer + mine + fresh
    la, lb = l, fresh[0]
    # iteration of w later than that of x, then the other way round
    ok = True
    for first, second in ((la, lb), (lb, la)):
        d = f"dd{l.atom}"
        h = f.copy()
        h.lb[d] = 1
        # second = first + d
        sub = {second.atom: first.p + Poly.atom(d)}
        p = (wo - xo).subst(sub)
        dl = Loop(h.norm(l.n) - first.p, 0)
        dl.atom = d
        ls = outer + [first] + [dl] + [q for q in mine + fresh if q is not la and q is not lb]
        for q in ls:
            q_n = q.n
            if second.atom in h.norm(q_n).atoms():
                return "?"
        if not (nonneg(h, ls, p - 1) or nonneg(h, ls, -p - 1)):
            ok = False
    if ok:
        return None
    if w.facts.nn or x.facts.nn or w.facts.ne or x.facts.ne:
        # iteration constraints of the second access are renamed
        for q in x.facts.nn:
            f.nn.append(x.facts.norm(q).subst(env))
        for q in x.facts.ne:
            f.ne.append(x.facts.norm(q).subst(env))
    for e in witnesses(f, [wo, xo], loops, limit=3):
        if e[la.atom] != e[lb.atom] and evaluate(wo, e) == evaluate(xo, e):
            return e
    return "?"


