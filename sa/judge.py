"""Compares what the analysis derived for a case with what the case specifies."""
import itertools
import time
from .poly import Poly, P
from .tensor import T, Block, AbsError, Unsupported, ALL, mk
from . import tensor as tz
from . import interp as I
from .run import explore
from .specs import Arg

GROUP_PROP = {"lin": "C06", "batch": "C07", "time": "C08", "basis": "C09"}
GROUP_OF_LETTER = {"t": "C08", "b": "C07"}
GROUP_NAME = {"lin": "amplitude", "batch": "batch index", "time": "time index", "basis": "state/channel coordinate"}


class Finding:
    def __init__(self, props, rule, file, line, func, msg, case, cond="", chain=()):
        self.props = sorted(set(props))
        self.rule, self.file, self.line, self.func = rule, file, line, func
        self.msg, self.case, self.cond, self.chain = msg, case, cond, chain

    def key(self):
        """Rule and construct, independent of line numbers."""
        return f"{self.rule}|{self.file}|{self.func}|{self.msg}"

    def to_json(self):
        return dict(props=self.props, rule=self.rule, file=self.file, line=self.line,
                    func=self.func, msg=self.msg, case=self.case, cond=self.cond, chain=list(self.chain))


def wgroups(weights):
    out = set()
    for w in weights:
        if w.startswith("w:") and w[2:-1] in GROUP_PROP:
            out.add(w[2:-1])
        elif w.startswith("w:"):
            n = w[2:].rstrip("0123456789")
            out.add(n if n in GROUP_PROP else "time")
        else:
            out.add("time")
    return out


class Judge:
    def __init__(self, repo, case):
        self.repo, self.case = repo, case
        self.findings = {}
        self.stats = dict(paths=0, returned=0, rejected=0, unknown=0, budget=0, infeasible=0,
                          ambiguous=0, blocks=0, undetermined=0, compared=0, ops=0, args=0)
        self.visited = set()
        self.applied = set()
        self.unknown_ops = {}
        self.undetermined = []

    def add(self, props, rule, file, line, func, msg, path, chain=()):
        f = Finding(props, rule, file, line, func, msg, self.case.describe(), path.cond() if path else "", chain)
        k = f.key()
        if k in self.findings:
            self.findings[k].props = sorted(set(self.findings[k].props) | set(f.props))
        else:
            self.findings[k] = f

    # -- running ----------------------------------------------------------
    def run(self):
        c = self.case
        t0 = time.time()
        if c.contrast:
            self.compare_options()
            self.stats["time"] = time.time() - t0
            return self
        asked = self.explored()
        if asked and c.cplx is True:
            # the program tells real from complex inputs: both are looked at
            c.cplx = False
            try:
                self.explored()
            finally:
                c.cplx = True
        self.stats["time"] = time.time() - t0
        return self

    def explored(self):
        c = self.case
        asked = False
        w = c.world()
        if c.rejects:
            # a mismatch stated for generic sizes need not be one when sizes coincide
            w["exact"] = False
        paths = explore(self.repo, w, c.setup, facts=c.facts, max_paths=c.max_paths)
        for p in paths:
            asked |= p.it.asked_cplx
            self.stats["paths"] += 1
            self.visited |= p.it.visited
            self.applied |= set(getattr(p.it.tm, 'applied', ()))
            for k, v in p.it.unknown_ops.items():
                self.unknown_ops[k] = v
            if p.kind == "unknown":
                self.stats["unknown"] += 1
                self.undetermined.append(f"{p.err}")
                continue
            if p.kind == "budget":
                self.stats["budget"] += 1
                self.undetermined.append("path budget")
                continue
            if c.ambiguous(p.facts):
                self.stats["ambiguous"] += 1
                continue
            self.global_events(p)
            if p.kind == "raise":
                self.raised(p)
                continue
            self.stats["returned"] += 1
            self.returned(p)
        return asked

    def compare_options(self):
        """Two values of a documented option must not lead to the same computation."""
        c = self.case
        name, other = c.contrast

        def traced(value):
            def setup(it):
                it.tm.trace = []
                fn, args, kwargs = c.setup(it)
                kwargs = dict(kwargs, **{name: value})
                for v in list(args) + list(kwargs.values()):
                    it.tm.show(v)
                return fn, args, kwargs
            seen, where = set(), None
            for p in explore(self.repo, c.world(), setup, facts=c.facts, max_paths=c.max_paths):
                self.stats["paths"] += 1
                self.visited |= p.it.visited
                for k, v in p.it.unknown_ops.items():
                    self.unknown_ops[k] = v
                if p.kind in ("unknown", "budget") or p.it.unknown_ops:
                    self.stats["unknown"] += 1
                    self.undetermined.append(f"{p.err or list(p.it.unknown_ops)[:1]}")
                    return None, None
                out = p.it.tm.show(p.value) if p.kind == "return" else f"raises {p.err.kind}: {p.err.msg}"
                if p.kind == "return":
                    self.stats["returned"] += 1
                    where = p
                seen.add((p.cond(), tuple(p.it.tm.trace), out))
            return seen, where
        first, wa = traced(c.args["=" + name])
        second, _ = traced(other)
        if first is None or second is None or wa is None:
            return
        self.stats["compared"] += 1
        if first == second:
            self.add(["C17"], "option-without-effect", *self.where(wa), f"{name}={c.args['=' + name]!r} and {name}={other!r} compute the same thing", wa)

    # -- rules that need no result -----------------------------------------
    def global_events(self, p):
        for e in p.it.events.values():
            pr = {"mutate": ["C05"], "state": ["C05"], "inplace-saved": ["C15"], "once": ["C15"],
                  "dtype": ["C16"], "device": ["C16"], "float-count": ["C13"]}.get(e.cls)
            if e.cls == "branch" and not self.case.value_branches_ok:
                # an element-wise selection keeps batch items apart, a branch of the program does not
                pr = ["C06"] if e.what.startswith("where") else ["C06", "C07"]
            if pr:
                self.add(pr + self.case.extra(e.cls), e.cls, e.file, e.line, e.func, f"{e.what}: {e.detail}", p, e.chain)

    def raised(self, p):
        e = p.err
        if self.case.rejects:
            self.stats["rejected"] += 1
            return
        if p.it.guessed and e.cls not in ("unavailable", "import"):
            self.stats["undetermined"] += 1
            self.undetermined.append(f"raises behind a condition that is not known: {e.msg}")
            return
        loc = e.loc or ("?", 0, "?")
        cls = {"unavailable": ["C14"], "import": ["C14"]}.get(e.cls, ["C13"])
        if self.case.wname != "ext" and "C14" not in cls:
            cls = cls + ["C14"]
        cls = cls + self.case.extra("raise")
        rule = {"unavailable": "missing-backend", "import": "missing-backend"}.get(e.cls, "rejects-documented-input")
        self.add(cls, rule, loc[0], loc[1], loc[2], f"{e.kind}: {e.msg}", p, e.chain if hasattr(e, "chain") and e.chain else ())

    def returned(self, p):
        c = self.case
        if c.rejects and p.it.unknown_ops:
            self.undetermined.append(f"accepted: {c.rejects}")
            self.stats["undetermined"] += 1
            return
        if c.rejects:
            self.add(["C17"], "accepts-invalid-input", *self.where(p), c.rejects, p)
            return
        v = p.value
        outs = c.outs
        if not isinstance(v, (tuple, list)):
            vals = [v]
        else:
            vals = list(v)
        if len(vals) != len(outs):
            self.add(["C12"] if len(outs) in (1, 2) and not c.grad else ["C13"], "result-arity", *self.where(p),
                     f"returns {len(vals)} value(s), expected {len(outs)}", p)
            return
        for o, t in zip(outs, vals):
            if o is not None:
                self.output(p, o, t)

    def where(self, p):
        f = self.case.target(p.it)
        node = getattr(f, "node", None)
        return (getattr(getattr(f, "module", None), "path", self.case.module),
                getattr(node, "lineno", 0), getattr(f, "qual", self.case.fn))

    def prop_of(self, base, o):
        pr = list(base)
        if o.name == "zf":
            pr.append("C12")
        return pr + self.case.extra("type")

    def graded(self, g, o):
        pr = self.prop_of([GROUP_PROP[g]], o) + self.case.extra("grade")
        if g != "batch" and "C12" not in pr and ("zi" in self.case.args or "=zi" in self.case.args):
            pr.append("C12")      # a stream continued from this state goes wrong too
        return pr

    def output(self, p, o, t):
        c, it = self.case, p.it
        if o is None or o.name == "none" or (o.optional and t is None):
            return
        if not isinstance(t, T):
            if isinstance(t, I.Unknown) if hasattr(I, "Unknown") else False:
                self.stats["undetermined"] += 1
                return
            if t is None or isinstance(t, (int, float)):
                opt = ["C17"] if {"out_idx", "=out_idx"} & set(c.args) else []     # choosing an output changes what else is returned
                self.add(self.prop_of(["C13"], o) + opt, "result-shape", *self.where(p), f"{o.name} is {t!r}, expected a tensor", p)
                return
            self.stats["undetermined"] += 1
            self.undetermined.append(f"result {o.name} not tracked")
            return
        it.stack = [(None, None)]
        tz._counter = itertools.count(1000000)    # names not used by any path
        # shape
        exp = o.shape()
        got = t.shape()
        ok = len(exp) == len(got)
        if ok:
            for a, b in zip(exp, got):
                if any(x.startswith("?") for x in p.facts.norm(P(b) - a).atoms()):
                    self.stats["undetermined"] += 1
                    self.undetermined.append(f"shape of {o.name}: {got}")
                    return
                if p.facts.eq(a, b) is not True:
                    ok = False
        if not ok:
            # samples or batch items are missing or in excess
            pr = ["C13"]
            if len(exp) == len(got):
                for l, a, b in zip(o.letters, exp, got):
                    if l in GROUP_OF_LETTER and p.facts.eq(a, b) is not True and GROUP_OF_LETTER[l] not in pr:
                        pr.append(GROUP_OF_LETTER[l])
            self.add(self.prop_of(pr, o), "result-shape", *self.where(p),
                     f"{o.name} has shape {tuple(map(repr, (p.facts.norm(x) for x in got)))}, documented {tuple(map(repr, exp))}".replace("'", ""), p)
            return
        # conflicts that flowed into the result
        taint = t.taint()
        for e in taint:
            if e.cls == "grade":
                for g in wgroups(e.weights):
                    if g == "time" and c.needs_contract and c.needs_contract not in p.it.contracts:
                        continue
                    self.add(self.graded(g, o), "scaling-" + g, e.file, e.line, e.func,
                             f"{e.what} mixes terms of different {GROUP_NAME[g]} homogeneity", p, e.chain)
            elif e.cls == "coef":
                self.add(self.prop_of(self.case.coef_props, o), "coefficient", e.file, e.line, e.func, f"{e.what}: {e.detail}", p, e.chain)
            elif e.cls == "cut":
                if not c.cut_ok:
                    self.add(["C15"], "gradient-cut", e.file, e.line, e.func, f"{e.what}: {e.detail}", p, e.chain)
            elif e.cls == "complex":
                self.add(["C10"] + self.case.extra("type"), "drops-imaginary", e.file, e.line, e.func, f"{e.what}: {e.detail}", p, e.chain)
        if not any(e.cls == "grade" or e.cls == "coef" and c.coef_props for e in taint):
            self.compare(p, o, t)
        self.dependencies(p, o, t)
        # number kind
        cin = any((a.cplx if a.cplx is not None else c.cplx) for a in c.args.values() if isinstance(a, Arg))
        want = cin if o.cplx is None else o.cplx
        if t.cplx and not want:
            self.add(self.prop_of(["C16"], o), "complex-result", *self.where(p), f"{o.name} is complex although every input is real", p)
        if want and not t.cplx and o.cplx is None and not t.is_zero():
            self.add(["C10"] + self.case.extra("type"), "real-result", *self.where(p), f"{o.name} is real although the inputs are complex", p)

    @staticmethod
    def pointwise(it, axes, key, x, y, w):
        """Two polynomials may agree on all positions of a short axis."""
        short = [(q, n.as_int()) for ax, seg in zip(axes, key) for q, n in ((q, it.facts.norm(n)) for q, n in ax[seg].factors)
                 if n.is_const() and n.as_int() is not None and n.as_int() <= 4]
        if not short or len(short) > 3:
            return w
        out = set()
        for vals in itertools.product(*[range(n) for _, n in short]):
            env = {q: P(v) for (q, _), v in zip(short, vals)}
            out |= it.ops.gdiff(x.subst(env), y.subst(env))
        return out

    def compare(self, p, o, t):
        it, c = p.it, self.case
        g = c.grade(o)
        exp = mk(o.shape(), lambda idx: Block(grade=g(*idx), coef=o.coef), cplx=t.cplx)
        try:
            exp = it.ops.simp(exp)
            t = it.ops.simp(t)
            bad = set()
            a, b = it.ops.broadcast(t, exp, "comparison")
            coefbad = False
            for k in a.blocks:
                x, y = a.blocks[k], b.blocks[k]
                self.stats["blocks"] += 1
                if x.zero:
                    continue
                if x.unk:
                    self.stats["undetermined"] += 1
                    self.undetermined.append(f"{o.name} block {k}: {sorted(x.unk)}")
                self.stats["compared"] += 1
                w = it.ops.gdiff(x, y, tuple(x.support))
                if w and not x.support:
                    w = self.pointwise(it, a.axes, k, x, y, w)
                bad |= w
                if x.coef is None:
                    pass
                elif x.coef != o.coef and not w and o.coef is not None:
                    coefbad = x.coef
        except Unsupported as e:
            self.stats["undetermined"] += 1
            self.undetermined.append(f"comparison of {o.name}: {e}")
            return
        except I.Fork:
            self.stats["undetermined"] += 1
            self.undetermined.append(f"comparison of {o.name} needs a case split")
            return
        for gname in sorted(wgroups(bad)):
            if gname == "time" and c.needs_contract and c.needs_contract not in p.it.contracts:
                continue
            self.add(self.graded(gname, o), "result-scaling-" + gname, *self.where(p),
                     f"{o.name} does not have the specified {GROUP_NAME[gname]} homogeneity", p)
        if coefbad is not False:
            self.add(self.prop_of(self.case.coef_props, o), "result-coefficient", *self.where(p),
                     f"{o.name} carries coefficient {coefbad}, specified {o.coef}", p)

    def dependencies(self, p, o, t):
        c = self.case
        deps = t.deps()
        roots = {r for r, _, _ in deps}
        conn = {r for r, _, g in deps if g}
        unk = any(b.unk and "*" in b.unk for b in t.blocks.values())
        for r in o.need:
            if r not in roots:
                if self.small(p):
                    continue
                self.add(["C17"] + self.case.extra("dep"), "argument-ignored", *self.where(p), f"{o.name} does not depend on {r}", p)
            elif r not in conn and not c.cut_ok:
                self.add(["C15"] + self.case.extra("dep"), "gradient-cut", *self.where(p), f"{o.name} depends on {r} only through values outside the autograd graph", p)
        for r, pol, _ in deps:
            if r in c.conj_roots:
                want = "c"
            elif r in c.any_polarity:
                continue
            else:
                want = "p"
            if pol != want and p.it.tm.root_cplx.get(r):
                self.add(["C10"] + self.case.extra("type"), "conjugation", *self.where(p),
                         f"{o.name} depends on {r}{'*' if pol == 'c' else ''} instead of {r}{'' if pol == 'c' else '*'}", p)

    def small(self, p):
        """Lengths at which some argument legitimately has no effect."""
        f = p.facts
        if self.case.no_effect is not None and f.nonneg(f.norm(self.case.no_effect)):
            return True
        for a in ("N",):
            v = f.norm(Poly.atom(a))
            if v.is_const() and v.const_value() <= 2:
                return True
        for a in ("K", "Ka", "Kb", "M"):
            v = f.norm(Poly.atom(a))
            if v.is_const() and v.const_value() <= 1:
                return True
        return False
