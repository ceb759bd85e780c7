"""C04: operator declarations, kernels, shape functions and gradient rules agree.

Tables come from the sources: TORCH_LIBRARY / TORCH_LIBRARY_IMPL blocks (kernels.Registry) and the Python registrations (abstract
interpretation of philtorch/__init__.py).  Shape functions and kernels are evaluated symbolically for every rank combination; the
conditions under which each accepts its arguments are polynomial facts about the sizes and are compared with each other."""
import itertools
import os
import time
from multiprocessing import get_context

from . import helion as H
from . import kernels as K
from . import run, strides
from . import specs as S
from .cppbase import Tensor, Und, evaluate
from .cppaten import rowmajor
from .native import RANKS, add
from .poly import Poly
from .tensor import T

WORLD = dict(ext=True, helion=True, device="cuda", cplx=False, exact=True)
VALUES = (1, 2, 3)


def kind(op):
    b = op[3:] if op.startswith("hl_") else op
    if b not in ("lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"):
        return None
    return ("lti" if b.startswith("lti") else "lpv", "scalar" if b == "lti_recur" else "matrix")


def documented(op):
    """(ranks, sizes as functions of B, T, N) the callers rely on."""
    b = op[3:] if op.startswith("hl_") else op
    n2 = b.endswith("2")
    if b == "lti_recur":
        return [((0, 1, 2), lambda B, T, N: ((), (B,), (B, T)), False), ((1, 1, 2), lambda B, T, N: ((B,), (B,), (B, T)), False)]
    if b.startswith("lti"):
        return [((2, 2, 3), lambda B, T, N: ((N, N), (B, N), (B, T, N)), n2), ((3, 2, 3), lambda B, T, N: ((B, N, N), (B, N), (B, T, N)), n2)]
    return [((3, 2, 3), lambda B, T, N: ((T, N, N), (B, N), (B, T, N)), n2), ((4, 2, 3), lambda B, T, N: ((B, T, N, N), (B, N), (B, T, N)), n2)]


# ------------------------------------------------------------ shape functions

def fake_setup(op, ranks, dts):
    def setup(it):
        it.module("philtorch")
        f = it.registry["fake"][op]
        args = []
        for n, r, dt in zip("Azx", ranks, dts):
            args.append(run.tin(it, n, [Poly.atom(f"s{n}{d}") for d in range(r)], dtype=dt))
        it.fk_args = args
        return f, args, {}
    return setup


def fakes(repo, op, ranks, dts=("X", "X", "X")):
    return run.explore(repo, WORLD, fake_setup(op, ranks, dts), max_paths=200)


def sizes_of(ranks, env):
    return tuple(tuple(env[f"s{n}{d}"] for d in range(r)) for n, r in zip("Azx", ranks))


def solutions(f, ranks, limit=400):
    """Small sizes that satisfy the facts of a path of a shape function."""
    names = [f"s{n}{d}" for n, r in zip("Azx", ranks) for d in range(r)]
    sub = {a: f.norm(Poly.atom(a)) for a in names}
    free = [a for a in names if sub[a] == Poly.atom(a)]
    rest = [a for a in names if a not in free]
    cons = [f.norm(q) for q in f.nn]
    nes = [f.norm(q) for q in f.ne]
    n = 0
    # slack of inequalities the path assumed
    aux = sorted(set().union(*[q.atoms() for q in list(sub.values()) + cons + nes]) - set(names))[:3]
    choice = [VALUES] * len(free) + [[f.lb.get(a, 0) + i for i in range(3)] for a in aux]
    seen = set()
    for vals in itertools.product(*choice):
        env = dict(zip(free + aux, vals))
        try:
            for a in rest:
                env[a] = evaluate(sub[a], env)
            if any(env[a] < max(1, f.lb.get(a, 1)) or env[a] != int(env[a]) for a in names):
                continue
            if any(evaluate(q, env) < 0 for q in cons) or any(evaluate(q, env) == 0 for q in nes):
                continue
        except KeyError:
            continue        # an auxiliary unknown
        key = tuple(int(env[a]) for a in names)
        if key in seen:
            continue
        seen.add(key)
        yield dict(zip(names, key))
        n += 1
        if n >= limit:
            return


# ------------------------------------------------------------ kernels

def kenv(ranks, env):
    """Sizes under the names of the kernel analysis."""
    out = {}
    for n, r in zip("Azx", ranks):
        for d in range(r):
            if n == "x" and d == 1 and r >= 2:
                out["Tn"] = env[f"sx{d}"] + 1
            else:
                out[f"{n}{d}"] = env[f"s{n}{d}"]
    return out


def satisfied(f, env):
    """True / False / None (depends on something else)."""
    maybe = False
    for a, v in f.lb.items():
        if a in env and env[a] < v:
            return False
    for a, v in f.sub.items():
        q = f.norm(v)
        if a not in env:
            continue
        if not q.atoms() <= set(env):
            maybe = True
        elif evaluate(q, env) != env[a]:
            return False
    for q in f.nn:
        q = f.norm(q)
        if not q.atoms() <= set(env):
            maybe = True
        elif evaluate(q, env) < 0:
            return False
    for q in f.ne:
        q = f.norm(q)
        if not q.atoms() <= set(env):
            maybe = True
        elif evaluate(q, env) == 0:
            return False
    return None if maybe else True


def accepting(paths, env):
    """The path a kernel takes for these sizes; False: rejected; None: unknown."""
    unknown = False
    for p in paths:
        v = satisfied(p.facts, env)
        if v is True:
            return p
        if v is None:
            unknown = True
    return None if unknown else False


def kernel_strides(p, env):
    """Numeric strides of a result, or None."""
    t = p.ret
    if not isinstance(t, Tensor):
        return None
    f = p.facts
    v = getattr(t, "view", None)
    if t.contig is True or getattr(t, "store", None) is not None:
        st = rowmajor(t.shape)
    elif v is not None and v[0].contig is True:
        st = v[2]
    else:
        return None
    out = []
    for q in st:
        q = f.norm(q)
        if not q.atoms() <= set(env):
            return None
        out.append(evaluate(q, env))
    return out


def shape_at(sh, f, env):
    out = []
    for q in sh:
        q = f.norm(q)
        if not q.atoms() <= set(env):
            return None
        out.append(int(evaluate(q, env)))
    return out


def fmt(s):
    return ", ".join(f"{n}{tuple(q)}".replace(",)", ",)") for n, q in zip(("A", "zi", "x"), s))


# ------------------------------------------------------------ one operator

_CTX = {}


def one(op):
    repo, reg, hl = _CTX["repo"], _CTX["reg"], _CTX["hl"]
    st = dict(combos=0, fake_paths=0, sizes=0, layouts=0, dtype_cases=0, undetermined=[])
    found = []
    try:
        judge(repo, reg, hl, op, st, found)
    except Exception as e:      # an analysis failure is never a verdict
        st["undetermined"].append(f"{op}: {type(e).__name__}: {e}"[:200])
    return op, st, found


def fake_place(op, repo):
    it = _CTX["it"]
    f = it.registry["fake"].get(op)
    node = getattr(f, "node", None)
    m = getattr(getattr(f, "module", None), "name", "philtorch")
    return (os.path.join(repo, "philtorch", "__init__.py") if not hasattr(f, "file") else f.file), getattr(node, "lineno", 0), f"shape function of {op}", m


def judge(repo, reg, hl, op, st, found):
    file, line, func, _ = fake_place(op, repo)
    seen = set()

    def rep(rule, msg, case, where=None):
        w = where or (file, line, func)
        k = (rule, w[2], msg.split(" (")[0])
        if k not in seen:
            seen.add(k)
            found.append(dict(rule=rule, msg=msg, file=w[0], line=w[1], func=w[2], case=case))
    native = op in reg.defs
    devs = [d for (o, d), im in reg.impls.items() if o == op and len(im) == 1]
    docs = documented(op)
    combos = RANKS if native else [r for r, _, _ in docs]
    for ranks in combos:
        st["combos"] += 1
        fps = fakes(repo, op, ranks)
        st["fake_paths"] += len(fps)
        unclear = [p for p in fps if p.kind in ("unknown", "budget")]
        rets = [p for p in fps if p.kind == "return"]
        if unclear:
            st["undetermined"].append(f"{op} {ranks}: shape function: {unclear[0].err}")
        kern = {}
        for d in devs:
            fn, u, path, ln = reg.impls[(op, d)][0]
            c = K.Case(op, d, fn, u, path, ranks)
            ps, und, it = K.run_case(c, lambda *a: None)
            kern[d] = (ps, und, (path, ln, fn))
        if not native and hl.get((op, ranks)) is not None:
            kern["helion"] = hl[(op, ranks)]
        name = f"{op}/A{ranks[0]}z{ranks[1]}x{ranks[2]}"
        for p in rets:
            envs = list(solutions(p.facts, ranks))
            if not envs:
                continue
            st["sizes"] += len(envs)
            r = p.value
            if not isinstance(r, T):
                if type(r).__name__ == "Unknown":
                    st["undetermined"].append(f"{op} {ranks}: value of the shape function")
                else:
                    rep("result", f"the shape function of {op} does not return a tensor", name)
                continue
            if r.dtype != "X":
                rep("dtype", f"the shape function of {op} returns another dtype than the kernel, which returns the dtype of x", name)
            if r.dev not in ("X", None):
                rep("device", f"the shape function of {op} returns a tensor on another device than x", name)
            if any(s.root in ("A", "z", "x") for s in r.stor if getattr(s, "root", None)):
                rep("alias", f"the shape function of {op} returns memory of an argument, which the kernel does not", name)
            for d, (ps, und, where) in kern.items():
                if und:
                    st["undetermined"].append(f"{name}/{d}: kernel: {und[0]}")
                    continue
                for env in envs:
                    ke = kenv(ranks, env)
                    k = accepting(ps, ke)
                    if k is False:
                        if native:
                            rep("accepts", f"the shape function of {op} accepts sizes that the {d} kernel rejects ({fmt(sizes_of(ranks, env))})", name)
                        break
                    if k is None:
                        continue
                    compare(op, d, p, k, env, ke, ranks, rep, name, st)
        doc = next((q for q in docs if q[0] == ranks), None)
        if doc is None:
            continue
        for B, Tn, N in itertools.product(VALUES, repeat=3):
            if doc[2] and N != 2:
                continue
            sz = doc[1](B, Tn, N)
            env = {f"s{n}{d}": v for n, s in zip("Azx", sz) for d, v in enumerate(s)}
            if not unclear:
                vs = [satisfied(p.facts, env) for p in rets]
                if not any(v is not False for v in vs):
                    rep("rejects", f"the shape function of {op} rejects sizes the operator is called with ({fmt(sz)})", name)
            for d, (ps, und, where) in kern.items():
                if not und and accepting(ps, kenv(ranks, env)) is False:
                    rep("kernel-rejects", f"the {d} kernel of {op} rejects sizes the operator is called with ({fmt(sz)})", name, (where[0], where[1], where[2]))
        if native:
            dtypes(repo, reg, op, ranks, devs, rep, name, st)


def compare(op, d, p, k, env, ke, ranks, rep, name, st):
    r = p.value
    fs = shape_at(r.shape(), p.facts, env)
    ks = shape_at(k.ret.shape, k.facts, ke) if isinstance(k.ret, Tensor) else None
    if fs is None or ks is None:
        return
    at = f"({fmt(sizes_of(ranks, env))})"
    if fs != ks:
        rep("shape", f"the shape function of {op} returns shape {tuple(fs)}, the {d} kernel {tuple(ks)} {at}", name)
        return
    kst = kernel_strides(k, ke)
    s = strides.of(r)
    if kst is None or s is None:
        return
    if isinstance(s, tuple):
        rep("strides", f"the shape function of {op} follows the strides of its argument, the {d} kernel returns a dense tensor {at}", name)
        return
    fst = shape_at(s, p.facts, env)
    if fst is None:
        return
    st["layouts"] += 1
    bad = [q for q in range(len(fs)) if fs[q] > 1 and fst[q] != kst[q]]
    if bad and all(fs):
        rep("strides", f"the shape function of {op} returns strides {tuple(fst)}, the {d} kernel {tuple(int(q) for q in kst)} {at}", name)


def dtypes(repo, reg, op, ranks, devs, rep, name, st):
    """Arguments of different dtypes: rejected by the shape function when the kernel rejects them."""
    for who, fd, kd in (("A", ("K1", "K2", "K2"), ("A", "x", "x")), ("zi", ("K2", "K1", "K2"), ("x", "z", "x")), ("x", ("K1", "K1", "K2"), ("z", "z", "x"))):
        rejected = []
        for d in devs:
            fn, u, path, ln = reg.impls[(op, d)][0]
            ps, und, it = K.run_case(K.Case(op, d, fn, u, path, ranks), lambda *a: None, kd)
            if not ps and not und:
                rejected.append(d)
        if not rejected:
            continue
        st["dtype_cases"] += 1
        fps = fakes(repo, op, ranks, fd)
        if any(p.kind in ("unknown", "budget") for p in fps):
            continue
        if any(p.kind == "return" for p in fps):
            rep("dtype-accepts", f"the shape function of {op} accepts {who} of another dtype, which the {', '.join(rejected)} kernel rejects", name)


# ------------------------------------------------------------ tables

def tables(repo, reg, it, found, cov):
    init = os.path.join(repo, "philtorch", "__init__.py")

    def rep(rule, msg, file=init, line=0, func="registrations", case="tables"):
        found.append(dict(rule=rule, msg=msg, file=file, line=line, func=func, case=case))
    n = 0
    fake, auto, cust = it.registry["fake"], it.registry["autograd"], it.registry["custom_op"]
    opaque = bool(reg.opaque or reg.failed)
    for op, ds in sorted(reg.defs.items()):
        n += 1
        if len(ds) > 1:
            rep("declared-twice", f"operator {op} is declared {len(ds)} times", ds[1][1], ds[1][2], "TORCH_LIBRARY")
        here = {d: im for (o, d), im in reg.impls.items() if o == op}
        for d, im in here.items():
            if len(im) > 1:
                rep("two-kernels", f"operator {op} has {len(im)} {d} kernels", im[1][2], im[1][3], "TORCH_LIBRARY_IMPL")
            for fn, u, p, ln in im:
                fs = [f for f in u.funcs.get(fn, []) if f.params is not None]
                if fs and not any(len(f.params) == args_of(ds[0][0]) for f in fs) and args_of(ds[0][0]) is not None:
                    rep("signature", f"kernel {fn} takes {len(fs[0].params)} arguments, operator {op} has {args_of(ds[0][0])}", p, ln, "TORCH_LIBRARY_IMPL")
        if not opaque and not any(d in here for d in ("CPU", "ALL", "CompositeExplicitAutograd", "CompositeImplicitAutograd", "CatchAll")):
            rep("no-kernel", f"operator {op} has no CPU kernel", ds[0][1], ds[0][2], "TORCH_LIBRARY")
        if op not in fake:
            rep("no-fake", f"operator {op} has no shape function")
        if op not in auto:
            rep("no-gradient", f"operator {op} has no gradient rule")
    for op, d in sorted(reg.impls):
        if op not in reg.defs and not reg.failed:
            im = reg.impls[(op, d)][0]
            rep("undeclared", f"a {d} kernel is registered for {op}, which is not declared", im[2], im[3], "TORCH_LIBRARY_IMPL")
    for op in cust:
        n += 1
        if op.endswith("#dup"):
            rep("declared-twice", f"operator {op[:-4]} is declared twice")
            continue
        if op in reg.defs:
            rep("declared-twice", f"operator {op} is declared in C++ and in Python")
        if op not in fake:
            rep("no-fake", f"operator {op} has no shape function")
        if op not in auto:
            rep("no-gradient", f"operator {op} has no gradient rule")
    for what, tab in (("shape function", fake), ("gradient rule", auto)):
        for op in tab:
            n += 1
            b = op[:-4] if op.endswith("#dup") else op
            if op.endswith("#dup"):
                rep("registered-twice", f"operator {b} has two {what}s")
            elif b not in reg.defs and b not in cust and not reg.failed and not b.startswith("<"):
                rep("undeclared", f"a {what} is registered for {b}, which is not declared")
    cov["registrations"] = n


def args_of(schema):
    try:
        inner = schema[schema.index("(") + 1:schema.rindex("->")].strip().rstrip(")").strip()
        return len([a for a in inner.split(",") if a.strip() and a.strip() != "*"]) if inner else 0
    except ValueError:
        return None


def gradient_kinds(repo, it0, found, cov, und):
    """Each gradient rule solves the adjoint recurrence with an operator of its own kind."""
    n = 0
    done = set()
    for c in S.gradients():
        if c.owner[0] == "class" or c.rule != "backward":
            continue
        op = c.owner[1]
        k = kind(op)
        if k is None or (op, c.id) in done:
            continue
        done.add((op, c.id))
        try:
            paths = run.explore(repo, c.world(), c.setup, facts=c.facts, max_paths=60)
        except Exception as e:
            und.append(f"gradient rule of {op}: {type(e).__name__}: {e}"[:160])
            continue
        for p in paths:
            if p.kind not in ("return", "raise"):
                continue
            called = [q for q in p.it.calls if kind(q) is not None]
            n += 1
            bad = [q for q in called if kind(q)[0] == "lti" and k[0] == "lpv"]
            if bad and not any(kind(q)[0] == "lpv" for q in called):
                found.append(dict(rule="gradient-kind", msg=f"the gradient rule of the time-varying operator {op} solves its recurrence with {bad[0]}",
                                  file=os.path.join(repo, "philtorch", "__init__.py"), line=getattr(getattr((it0.registry["autograd"].get(op) or (None,))[0], "node", None), "lineno", 0), func=f"gradient rule of {op}", case=c.id))
    cov["gradient_paths"] = n


def check(res, prop, tier, repo, jobs=8):
    from .driver import Missing
    t0 = time.time()
    reg = K.Registry(repo)
    if not reg.defs and not reg.failed:
        raise Missing("philtorch/csrc: no operator registration found")
    from . import interp as I
    from .poly import Facts
    found, cov, und = [], {}, []
    it = None
    try:
        it = I.Interp(repo, WORLD, Facts(), {}, [], 60000)
        it.stack = [(None, None)]
        it.module("philtorch")
    except Exception as e:
        und.append(f"philtorch/__init__.py: {type(e).__name__}: {e}"[:200])
        it = None
    hl = {}
    ops = []
    if it is not None:
        tables(repo, reg, it, found, cov)
        hl = helion_results(repo, it, und)
        ops = [op for op in list(reg.defs) + list(it.registry["custom_op"]) if kind(op) and op in it.registry["fake"]]
        _CTX.update(repo=repo, reg=reg, hl=hl, it=it)
        with get_context("fork").Pool(min(jobs, len(ops) or 1)) as pool:
            out = pool.map(one, ops, chunksize=1)
        for op, st, fs in out:
            found += fs
            und += st.pop("undetermined")
            cov.setdefault("operators", {})[op] = st
        try:
            gradient_kinds(repo, it, found, cov, und)
        except Exception as e:
            und.append(f"gradient rules: {type(e).__name__}: {e}"[:200])
    und += [f"{p}: not parsed: {e}" for p, e in reg.failed]
    for f in found:
        add(res, "C04", f["rule"], f["file"], f["line"], f["func"], f["msg"], f["case"], repo)
    # shapes proved together with the recurrences
    from .native import analyse
    _, stats, nf = analyse(repo, jobs)
    for f in nf:
        if f["prop"] == "C04":
            add(res, "C04", f["rule"], f["file"], f["line"], f["func"], f["msg"], f["case"], repo)
    cov["undetermined"] = und[:40]
    cov["rule"] = ("every declared operator has one CPU kernel, one shape function and one gradient rule, and nothing is registered for an undeclared one; "
                   "for every rank combination the conditions under which a shape function accepts its arguments imply those of every kernel, "
                   "and shape, dtype, device and strides of the results are equal")
    cov["explanation"] = ("Registration tables are read from the C++ and Python sources; shape functions and kernels are evaluated symbolically for every "
                          "combination of argument ranks, and their acceptance conditions (polynomial facts about sizes) and result descriptors are compared at "
                          "all sizes up to 3 that satisfy them. Nothing is compiled or executed.")
    res.coverage.update(cov)
    res.undetermined += und
    tot = cov.get("operators", {}).values()
    res.summary += (f"{len(ops)} operators, {cov.get('registrations', 0)} registrations, {sum(s['fake_paths'] for s in tot)} shape-function paths, "
                    f"{sum(s['sizes'] for s in tot)} size assignments, {sum(s['layouts'] for s in tot)} layouts, {len(und)} undetermined")
    res.assumptions += ["Shape functions are compared with kernels at all sizes from 1 to 3 that satisfy their conditions; the conditions are linear "
                        "equalities between sizes, so a difference shows at such sizes."]


def helion_results(repo, it, und):
    """(operator, ranks) -> accepted paths of the Helion kernel its body selects."""
    out = {}
    fs, tree, path = H.kernels(repo)
    for f in fs:
        if f.name not in H.SPEC:
            continue
        k, rank = H.SPEC[f.name]
        op = "hl_lti_recurN" if k == "lti" else "hl_recurN"
        try:
            ps, u = H.paths(f, tree, path, k, rank, lambda *a: None)
        except Exception as e:
            ps, u = [], [str(e)]
        # argument sizes under the names of the kernel analysis
        for p in ps:
            p.facts = renamed(p.facts, k, rank)
        out[(op, (rank, 2, 3))] = (ps, u, (path, f.lineno, f.name))
    return out


def renamed(f, k, rank):
    g = f.copy()
    B, N, Tt = Poly.atom("x0"), Poly.atom("x2"), Poly.atom("Tn") - 1
    dims = {("lti", 2): [N, N], ("lti", 3): [B, N, N], ("lpv", 3): [Tt, N, N], ("lpv", 4): [B, Tt, N, N]}[(k, rank)]
    for d, p in enumerate(dims):
        g.sub[f"A{d}"] = p
    g.sub["z0"], g.sub["z1"] = B, N
    return g
