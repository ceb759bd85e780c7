"""What each public function is supposed to compute, as scaling types.

A case names an entry function, gives the shape (index letters) and the
homogeneity of every argument, and the shape and homogeneity of every result.
The letters are  b batch, t time, i/j state, f input channel, o output channel,
k filter tap.  The homogeneities are generated
from the model equations (see
gauge.py), not written down one by one.
"""
import itertools
from .poly import Poly, P
from .gauge import Gauge
from . import interp as I
from .run import tin

SIZE = {"b": "B", "t": "N", "i": "M", "j": "M", "f": "F", "o": "O", "k": "K"}


def sz(name):
    return Poly.atom(name)


B, N, M, F, O, L = map(sz, ["B", "N", "M", "F", "O", "L"])
ix = {a: Poly.atom(a) for a in "btijfok"}
b_, t_, i_, j_, f_, o_, k_ = (ix[a] for a in "btijfok")


class Arg:
    """A tensor argument."""

    def __init__(self, letters, fn, coef=1, sizes=None, cplx=None, signal=False):
        self.letters, self.fn, self.coef = letters, fn, coef
        self.sizes = dict(sizes or {})
        self.cplx = cplx
        self.signal = signal

    def shape(self):
        out = []
        for a in self.letters:
            if a == "1":
                out.append(P(1))
            else:
                s = self.sizes.get(a, SIZE[a])
                out.append(sz(s) if isinstance(s, str) else P(s))
        return out


class Callback:
    """A function supplied by the caller: fn(case, interpreter, *arguments)."""

    def __init__(self, fn, **uses):
        self.fn = fn
        self.uses = uses             # tensors behind the function: name -> Arg


class Out(Arg):
    def __init__(self, name, letters, fn, need=(), coef=1, sizes=None, cplx=None, zero_ok=False):
        super().__init__(letters, fn, coef, sizes, cplx)
        self.name = name
        self.optional = False
        self.need = tuple(need)
        self.zero_ok = zero_ok


WORLDS = {
    "ext": dict(ext=True, helion=False, device="cpu"),
    "py": dict(ext=False, helion=False, device="cpu"),
    "cuda": dict(ext=True, helion=False, device="cuda"),
    "hl": dict(ext=False, helion=True, device="cuda"),
    "hlcpu": dict(ext=False, helion=True, device="cpu"),
    "pycuda": dict(ext=False, helion=False, device="cuda"),
    "exthl": dict(ext=True, helion=True, device="cuda"),
}


def world(name, cplx=True):
    w = dict(WORLDS[name])
    w.update(cplx=cplx, pararnn=False, mixed=False, exact=True)
    return w


class Case:
    def __init__(self, id, module, fn, signals, args, outs, params=None, wname="ext", cplx=True,
                 facts=(), props=None, call=None, max_paths=600, fixed=None, tags=()):
        """args: ordered dict name -> Arg | python value | ("int", Poly)."""
        self.id, self.module, self.fn = id, module, fn
        self.args, self.outs = args, outs
        self.wname, self.cplx = wname, cplx
        self.facts = list(facts)
        self.tags = set(tags)
        self.contrast = None         # (option, other value): the option must change what is computed
        self.rejects = None          # reason why the call must be refused
        self.value_branches_ok = False
        self.cut_ok = False
        self.grad = False
        self.conj_roots = set()
        self.any_polarity = set()
        self.coef_props = ["C10"]
        self.extra_props = {}
        self.no_effect = None        # polynomial >= 0: arguments may have no effect
        self.needs_contract = None   # time scaling only holds through this summarised function
        self.free_dims = False       # a shape with a free dimension yields to any other reading
        self.alternatives = []       # other documented readings of an argument
        self.max_paths = max_paths
        g = Gauge()
        for s, letters in signals.items():
            g.signal(s, letters)
        sub = self.index_facts()
        for n, a in args.items():
            if isinstance(a, Arg) and a.fn is not None:
                g.param(n, a.fn, a.letters)
            for m, u in getattr(a, "uses", {}).items():
                g.param(m, u.fn, u.letters)
        for n, (letters, fn) in (params or {}).items():
            g.require_zero(fn)
        g.solve()
        self.gauge = g
        self.signals, self.params = signals, dict(params or {})

    def index_facts(self):
        return {}

    def extra(self, kind):
        return list(self.extra_props.get(kind, ()))

    def ambiguous(self, facts):
        """Another documented reading of the arguments fits the same sizes: some
        arguments are read differently and the terms still add up (the output of
        C and the feed-through of D have the same rank)."""
        if not self.alternatives:
            return False
        opts = []
        for rank, shape, alts in self.alternatives:
            o = [(rank, False)]
            for r, a in alts:
                if len(a) == len(shape) and all(q is None or facts.eq(p, q) is True for p, q in zip(shape, a)):
                    o.append((r, True))
            opts.append(o)
        for combo in itertools.product(*opts):
            ranks = {r for r, _ in combo if r is not None}
            if any(f for _, f in combo) and (self.free_dims or len(ranks) <= 1):
                return True
        return False

    def world(self):
        return world(self.wname, self.cplx)

    def grade(self, arg):
        g = self.gauge
        e = arg.fn(lambda sig, **k: g.at(sig, **k)) if arg.fn else Poly()
        letters = [a for a in arg.letters if a != "1"]

        def f(*vals):
            env, n = {}, 0
            for a, v in zip(arg.letters, vals):
                if a != "1":
                    env[a] = v
            return e.subst(env)
        return f

    def target(self, it):
        """The function this case is about."""
        f = it.module(self.module).ns[self.fn]
        return getattr(f, "func", f)

    def setup(self, it):
        m = it.module(self.module)
        fn = m.ns[self.fn]
        args, kwargs = [], {}
        for n, a in self.args.items():
            if isinstance(a, Arg):
                v = tin(it, n.lstrip("="), a.shape(), self.grade(a), coef=a.coef, cplx=a.cplx)
            elif isinstance(a, Callback):
                v = I.Builtin(n.lstrip("="), lambda ar, kw, a=a: a.fn(self, it, *ar, **kw))
            elif isinstance(a, Poly):
                v = I.num(a)
            else:
                v = a
            if n.startswith("="):
                kwargs[n[1:]] = v
            else:
                args.append(v)
        return fn, args, kwargs

    def describe(self):
        def d(a):
            if isinstance(a, Arg):
                return "(" + ",".join(map(repr, a.shape())) + ")"
            return repr(a)
        s = ", ".join(f"{n.lstrip('=')}={d(a)}" for n, a in self.args.items() if a is not None)
        f = "; ".join(f"{t[0]} {t[1]}" for t in self.facts) if self.facts else ""
        return f"{self.module}.{self.fn}({s}) [{self.wname}{', ' + f if f else ''}]"


# --------------------------------------------------------------------------
# state-space models
SS_SIG = {"S": "bti", "U": "btf", "V": "bto"}


def g_A(at):
    return at("S", b=b_, t=t_ + 1, i=i_) - at("S", b=b_, t=t_, i=j_)


def g_h(at):            # h[n] holds the state after step n
    return at("S", b=b_, t=t_ + 1, i=i_)


def g_zi(at):
    return at("S", b=b_, t=P(0), i=i_)


def g_zf(at):
    return at("S", b=b_, t=N, i=i_)


def ss_signals(xl, yl):
    return {"S": "bti", "U": xl, "V": yl}


def U(at, **k):
    return at("U", **k)


def recursion_case(mod, A, x, fn="state_space_recursion", unroll=None, out_idx=None, zi="bi", **kw):
    """h[n+1] = A h[n] + x[n]; x 2-D feeds the first state component."""
    sig = {"S": "bti"}
    args = {"A": Arg(A, g_A), "zi": Arg(zi, g_zi)}
    if x == "bt":
        args["x"] = Arg("bt", lambda at: at("S", b=b_, t=t_ + 1, i=P(0)), signal=True)
    else:
        args["x"] = Arg("bti", g_h, signal=True)
    if unroll is not None:
        args["=unroll_factor"] = unroll
    if out_idx is not None or fn == "_recursion_loop":
        args["=out_idx"] = out_idx
    if out_idx is None:
        outs = [Out("h", "bti", g_h, need=("A", "zi", "x"))]
    else:
        outs = [Out("h", "bt", lambda at: at("S", b=b_, t=t_ + 1, i=P(out_idx)), need=("A", "zi", "x"))]
    wn = kw.get("wname", "ext")
    idd = f"{mod.split('.')[1]}.{fn}:A={A},x={x},L={unroll},out={out_idx},zi={zi}"
    return Case(idd, mod, fn, sig, args, outs, **kw)


def ss_case(mod, A="ij", x="btf", Bm=None, C=None, D=None, zi=None, unroll=1, out_idx=None,
            fn="state_space", osize=None, fsize=None, **kw):
    """State-space model with optional B, C, D."""
    xl = x
    if C is not None:
        yl = "bto" if "o" in C else "bt"
    elif out_idx is not None:
        yl = "bt"
    else:
        yl = "bti"
    sizes = {}
    if fsize:
        sizes["f"] = fsize
    if osize:
        sizes["o"] = osize
    sig = {"S": "bti", "U": xl, "V": yl.replace("i", "o") if yl == "bti" else yl}
    par = {}
    has_f, has_o = "f" in xl, "o" in sig["V"]

    def u(at, f=f_, t=t_):
        return at("U", b=b_, t=t, f=f) if has_f else at("U", b=b_, t=t)

    def v(at, o=o_, t=t_):
        return at("V", b=b_, t=t, o=o) if has_o else at("V", b=b_, t=t)
    args = {"A": Arg(A, g_A), "x": Arg(xl, u, sizes=sizes, signal=True)}
    need = ["A", "x"]
    if Bm is not None:
        args["=B"] = Arg(Bm, lambda at: at("S", b=b_, t=t_ + 1, i=i_) - u(at), sizes=sizes)
        need.append("B")
    elif has_f:
        par["idB"] = ("", lambda at: at("S", b=b_, t=t_ + 1, i=i_) - at("U", b=b_, t=t_, f=i_))
    else:
        par["idB"] = ("", lambda at: at("S", b=b_, t=t_ + 1, i=P(0)) - u(at))
    yneed = list(need)
    if C is not None:
        args["=C"] = Arg(C, lambda at: v(at) - at("S", b=b_, t=t_, i=i_), sizes=sizes)
        yneed.append("C")
    elif out_idx is not None:
        par["idC"] = ("", lambda at: v(at) - at("S", b=b_, t=t_, i=P(out_idx)))
    else:
        par["idC"] = ("", lambda at: v(at, o=i_) - at("S", b=b_, t=t_, i=i_))
    if D is not None:
        if D in ("", "1", "b", "t", "bt") and has_f:
            # scalar feed-through of every channel
            args["=D"] = Arg(D, lambda at: v(at, o=f_) - u(at, f=f_), sizes=sizes)
        else:
            args["=D"] = Arg(D, lambda at: v(at) - u(at), sizes=sizes)
        yneed.append("D")
    if zi is not None:
        args["=zi"] = Arg(zi, g_zi)
        yneed.append("zi")
    if unroll is not None:
        args["=unroll_factor"] = unroll
    if out_idx is not None:
        args["=out_idx"] = out_idx
    osz = dict(sizes)
    if yl == "bti":
        ylet = "bto"
        osz["o"] = "M"
    else:
        ylet = yl
    if D == "o" and yl == "bti":
        args["=D"].sizes["o"] = "M"
    outs = [Out("y", ylet, v, need=yneed, sizes=osz)]
    if zi is not None:
        outs.append(Out("zf", "bi", g_zf, need=need + ["zi"]))
    idd = f"{mod.split('.')[1]}.{fn}:A={A},x={x},B={Bm},C={C},D={D},zi={zi},L={unroll},out={out_idx}"
    if kw.get("facts"):
        idd += "," + "&".join(f"{k}({p})" for k, p in kw["facts"])
    idd += "@" + kw.get("wname", "ext")
    c = Case(idd, mod, fn, sig, args, outs, params=par, **kw)
    c.free_dims = any("o" in (q or "") for q in (C, D)) or D in ("1", "")
    c.alternatives = readings(mod, xl, dict(B=Bm, C=C, D=D), sizes, yl)
    return c


READINGS = {
    "philtorch.lti.ssm": {
        ("B", "bt"): ["i", "bi"], ("B", "btf"): ["if", "bif"],
        ("C", "bt"): ["i", "bi", "oi", "boi"], ("C", "btf"): ["i", "bi", "oi", "boi"],
        ("D", "bt"): ["b", "1", "o", "bo"], ("D", "btf"): ["f", "1", "bf", "of", "bof"]},
    "philtorch.lpv.ssm": {
        ("B", "bt"): ["i", "ti", "bi", "bti"], ("B", "btf"): ["if", "tif", "bif", "btif"],
        ("C", "bt"): ["i", "ti", "bi", "oi", "toi", "bti", "boi", "btoi"],
        ("C", "btf"): ["i", "ti", "bi", "oi", "toi", "bti", "boi", "btoi"],
        ("D", "bt"): ["t", "b", "1", "o", "to", "bt", "bo", "bto"],
        ("D", "btf"): ["f", "1", "tf", "bf", "of", "btf", "tof", "bof", "btof"]},
}


def readings(mod, xl, used, sizes, yl):
    """Documented shapes that can coincide with the one a case uses.  A shape
    without a free dimension always wins over one with a free dimension."""
    out = []

    def shp(letters, free):
        r = []
        for a in letters:
            if a == "1":
                r.append(P(1))
            elif a == "o" and free:
                r.append(None)
            else:
                r.append(sz(sizes.get(a, SIZE[a])))
        return r

    def rank(n, letters):
        if n == "B":
            return None
        if n == "C":
            return 3 if "o" in letters else 2
        if "f" in xl and "f" not in letters or "o" in letters:
            return 3
        return 2
    if used.get("C") is None:       # the rank of the output is given
        out.append((len(yl), [], []))
    for n, letters in used.items():
        if letters is None:
            continue
        eff = dict(sizes)
        if n == "D" and "o" in letters and yl == "bti":
            eff["o"] = "M"
        mine = []
        for a in letters:
            mine.append(P(1) if a == "1" else sz(eff.get(a, SIZE[a])))
        alts = []
        for alt in READINGS[mod][(n, xl)]:
            if alt == letters or ("o" in alt and "o" not in letters):
                continue
            # (1,) is only ever a scalar where no documented vector fits
            alts.append((rank(n, letters) if letters == "1" else rank(n, alt), shp(alt, True)))
        out.append((rank(n, letters), mine, alts))
    return out


def state_space_dispatch(tv):
    """All documented shapes of B, C and D."""
    mod = "philtorch.lpv.ssm" if tv else "philtorch.lti.ssm"
    A1 = "tij" if tv else "ij"
    A2 = "btij" if tv else "bij"
    out = []
    Bs = {"bt": ["i", "bi"], "btf": ["if", "bif"]}
    if tv:
        Bs = {"bt": ["i", "ti", "bi", "bti"], "btf": ["if", "tif", "bif", "btif"]}
    Cs = ["i", "bi", "oi", "boi"]
    if tv:
        Cs = ["i", "ti", "bi", "oi", "toi", "bti", "boi", "btoi"]
    Ds = {("bt", "bt"): ["b", "1", ""], ("bt", "bto"): ["o", "bo"],
          ("btf", "bt"): ["f", "bf"], ("btf", "bto"): ["of", "bof"]}
    if tv:
        Ds = {("bt", "bt"): ["t", "b", "1", "", "bt"], ("bt", "bto"): ["o", "to", "bo", "bto"],
              ("btf", "bt"): ["f", "tf", "bf", "btf"], ("btf", "bto"): ["of", "tof", "bof", "btof"]}
    for x in ("bt", "btf"):
        for bm in Bs[x]:
            out.append(ss_case(mod, A1, x, bm, zi="bi"))
            out.append(ss_case(mod, A2, x, bm, C="i"))
        for c in Cs:
            y = "bto" if "o" in c else "bt"
            out.append(ss_case(mod, A1, x, Bs[x][0], C=c))
            for d in Ds[(x, y)]:
                if c in ("i", "oi") or (d, c) in (("bf", "bi"), ("bof", "boi"), ("bo", "boi")):
                    out.append(ss_case(mod, A1, x, Bs[x][-1], C=c, D=d, zi="bi"))
        # no C
        out.append(ss_case(mod, A1, x, Bs[x][0], D="of" if x == "btf" else "o", osize="M"))
        out.append(ss_case(mod, A1, x, Bs[x][0], D="f" if x == "btf" else "b", out_idx=0))
        out.append(ss_case(mod, A1, x, Bs[x][0], out_idx=0, zi="bi"))
        out.append(ss_case(mod, A2, x, None, zi="bi", fsize="M"))
        out.append(ss_case(mod, A1, x, None, fsize="M", C="oi"))
        out.append(ss_case(mod, A1, x, None, fsize="M", C="i", zi="i"))
    out.append(ss_case(mod, A1, "btf", "if", C="oi", D="", osize="F"))
    out.append(ss_case(mod, A1, "btf", "if", C="oi", D="1", osize="F"))
    return out


# --------------------------------------------------------------------------
# recursions
def recursions(tv, wname="ext", tail=False):
    mod = "philtorch.lpv.ssm" if tv else "philtorch.lti.ssm"
    A1, A2 = ("tij", "btij") if tv else ("ij", "bij")
    out = []
    for A in (A1, A2):
        for x in ("bt", "bti"):
            for oi in (None, 0):
                out.append(recursion_case(mod, A, x, fn="_recursion_loop", out_idx=oi, wname=wname))
                out.append(recursion_case(mod, A, x, unroll=L, out_idx=oi, wname=wname))
                out.append(recursion_case(mod, A, x, fn="_ext_ss_recur", out_idx=oi, wname=wname))
    for c in out:
        c.coef_props = ["C03"]
        c.extra_props = {"type": ["C03"], "raise": ["C03"], "dep": ["C03"]}
    return out


def scalar_recursions(tv, wname="ext"):
    """h[t] = a[t] h[t-1] + x[t]."""
    mod = "philtorch.lpv.recur" if tv else "philtorch.lti.recur"
    out = []
    sig = {"S": "bt"}
    fa = lambda at: at("S", b=b_, t=t_) - at("S", b=b_, t=t_ - 1)
    fh = lambda at: at("S", b=b_, t=t_)
    fi = lambda at: at("S", b=b_, t=P(-1))
    for a in (["t", "bt"] if tv else ["", "1", "b"]):
        for init in ("b", "", "1"):
            for fn, kw in [("_scalar_recursion_loop", {}), ("linear_recurrence", {"=unroll_factor": L}),
                           ("linear_recurrence", {})]:
                if fn == "_scalar_recursion_loop" and init != "b":
                    continue
                args = {"a": Arg(a, fa), "init": Arg(init, fi), "x": Arg("bt", fh, signal=True)}
                args.update(kw)
                c = Case(f"{mod.split('.')[1]}.{fn}:a={a},init={init},{'L' if kw else '1'}@{wname}", mod, fn, sig, args,
                         [Out("h", "bt", fh, need=("a", "init", "x"))], wname=wname)
                c.coef_props = ["C03"]
                c.extra_props = {"type": ["C03"], "raise": ["C03"], "dep": ["C03"]}
                out.append(c)
    return out


# --------------------------------------------------------------------------
# filters
def K(p=0, base="K"):
    return sz(base) + p


def lti_filters():
    mod = "philtorch.lti.filtering"
    out = []
    sig = {"U": "bt", "V": "bt"}
    u = lambda at, t=t_: at("U", b=b_, t=t)
    v = lambda at, t=t_: at("V", b=b_, t=t)
    bk = lambda at: v(at) - u(at, t_ - k_)
    # order 0 is K = 1
    for tr in (False, True):
        for zi in (False, True):
            args = {"b": Arg("bk", bk), "x": Arg("bt", u, signal=True)}
            outs = [Out("y", "bt", v, need=("b", "x") + (("zi",) if zi else ()))]
            if zi:
                fz = (lambda at: v(at, k_)) if tr else (lambda at: u(at, -1 - k_))
                fe = (lambda at: v(at, N + k_)) if tr else (lambda at: u(at, N - 1 - k_))
                args["=zi"] = Arg("bk", fz, sizes={"k": sz("K") - 1})
                outs.append(Out("zf", "bk", fe, need=("x",), sizes={"k": sz("K") - 1}))
            args["=transpose"] = tr
            out.append(Case(f"lti.fir:tr={tr},zi={zi}", mod, "fir", sig, args, outs))
    return out


def lti_lfilters(wname="ext"):
    mod = "philtorch.lti.filtering"
    out = []
    for form in ("df2", "tdf2", "df1", "tdf1"):
        for bl, al, xl in (("bk", "bk", "bt"), ("k", "k", "bt"), ("k", "k", "t"), ("bk", "k", "bt"), ("k", "bk", "bt")):
            for zl in (None, xl.replace("t", "") + "k"):
                if zl and form in ("df1", "tdf1"):
                    continue
                for rel in ("eq", "short", "long"):
                    out.append(lfilter_case(mod, form, bl, al, xl, zl, rel=rel, wname=wname))
    return out


def lfilter_case(mod, form, bl, al, xl, zl, backend="ssm", wname="ext", unroll=1, rel="any", extra=None, cplx=True):
    """y = b/a x; Ka, Kb are the tap counts."""
    batched = "b" in xl
    sig = {"U": xl, "V": xl}

    def u(at, t=t_):
        return at("U", b=b_, t=t) if batched else at("U", t=t)

    def v(at, t=t_):
        return at("V", b=b_, t=t) if batched else at("V", t=t)
    args = {"b": Arg(bl, lambda at: v(at) - u(at, t_ - k_), sizes={"k": "Kb"}),
            "a": Arg(al, lambda at: v(at) - v(at, t_ - 1 - k_), coef=-1, sizes={"k": "Ka"}),
            "x": Arg(xl, u, signal=True)}
    facts = []
    if rel == "any":
        Kz = None
    rels = {"eq": [("eq", sz("Kb") - sz("Ka") - 1)],
            "short": [("ge", sz("Ka") - sz("Kb"), "dk")],
            "long": [("ge", sz("Kb") - sz("Ka") - 2, "dk")],
            "long2": [("eq", sz("Kb") - sz("Ka") - 2)], "long3": [("eq", sz("Kb") - sz("Ka") - 3)]}
    n = sz("Ka")
    if rel == "long":
        n = sz("Kb") - 1
    if rel in rels:
        facts += rels[rel]
    outs = [Out("y", xl, v, need=("b", "a", "x") + (("zi",) if zl else ()))]
    if zl:
        if form == "tdf2":
            fz, fe = (lambda at: v(at, k_)), (lambda at: v(at, N + k_))
        else:
            fz, fe = (lambda at: u(at, -1 - k_)), (lambda at: u(at, N - 1 - k_))
        args["=zi"] = Arg(zl, fz, sizes={"k": n})
        outs.append(Out("zf", (xl.replace("t", "")) + "k", fe, need=("x", "a", "zi"), sizes={"k": n}))
    args["=form"] = form
    args["=backend"] = backend
    if unroll is not None and backend != "torchlpc":
        args["=unroll_factor"] = unroll
    for k, val in (extra or {}).items():
        args["=" + k] = val
    return Case(f"{mod.split('.')[1]}.lfilter:{form},{backend},b={bl},a={al},x={xl},zi={zl},L={unroll},{rel}@{wname}" + ("" if cplx else ",real"),
                mod, "lfilter", sig, args, outs, facts=facts, wname=wname, cplx=cplx)


def lpv_filters(wname="ext"):
    """lpv.fir and lpv.allpole, direct and transposed."""
    mod = "philtorch.lpv.filtering"
    out = []
    sig = {"U": "bt", "V": "bt"}
    u = lambda at, t=t_: at("U", b=b_, t=t)
    v = lambda at, t=t_: at("V", b=b_, t=t)
    for tr in (False, True):
        for zi in (False, True):
            bk = (lambda at: v(at, t_ + k_) - u(at)) if tr else (lambda at: v(at) - u(at, t_ - k_))
            args = {"b": Arg("btk", bk), "x": Arg("bt", u, signal=True)}
            outs = [Out("y", "bt", v, need=("b", "x") + (("zi",) if zi else ()))]
            if zi:
                fz = (lambda at: v(at, k_)) if tr else (lambda at: u(at, -1 - k_))
                fe = (lambda at: v(at, N + k_)) if tr else (lambda at: u(at, N - 1 - k_))
                args["=zi"] = Arg("bk", fz, sizes={"k": sz("K") - 1})
                outs.append(Out("zf", "bk", fe, need=("x",), sizes={"k": sz("K") - 1}))
            args["=transpose"] = tr
            out.append(Case(f"lpv.fir:tr={tr},zi={zi}@{wname}", mod, "fir", sig, args, outs, wname=wname))
            ak = (lambda at: v(at, t_ + 1 + k_) - v(at)) if tr else (lambda at: v(at) - v(at, t_ - 1 - k_))
            args = {"a": Arg("btk", ak, coef=-1), "x": Arg("bt", v, signal=True)}
            outs = [Out("y", "bt", v, need=("a", "x") + (("zi",) if zi else ()))]
            if zi:
                fz = (lambda at: v(at, k_)) if tr else (lambda at: v(at, -1 - k_))
                fe = (lambda at: v(at, N + k_)) if tr else (lambda at: v(at, N - 1 - k_))
                args["=zi"] = Arg("bk", fz)
                outs.append(Out("zf", "bk", fe, need=("x",)))
            args["=transpose"] = tr
            out.append(Case(f"lpv.allpole:tr={tr},zi={zi}@{wname}", mod, "allpole", sig, args, outs, wname=wname))
    return out


def lpv_lfilter_case(form, bl, al, xl, zl, backend="ssm", wname="ext", unroll=1, rel="eq", cplx=True):
    mod = "philtorch.lpv.filtering"
    sig = {"W": xl, "Y": xl}
    has = "b" in xl

    def s(n):
        def f(at, t=t_):
            return at(n, b=b_, t=t) if has else at(n, t=t)
        return f
    w, y = s("W"), s("Y")
    if form == "df2":        # W the all-pole signal, excited by x
        x, fa, fb = w, lambda at: w(at) - w(at, t_ - 1 - k_), lambda at: y(at) - w(at, t_ - k_)
        fz, fe = lambda at: w(at, -1 - k_), lambda at: w(at, N - 1 - k_)
    elif form == "df1":      # W the input
        x, fa, fb = w, lambda at: y(at) - y(at, t_ - 1 - k_), lambda at: y(at) - w(at, t_ - k_)
    elif form == "tdf2":
        x, fa, fb = w, lambda at: y(at, t_ + 1 + k_) - y(at), lambda at: y(at, t_ + k_) - w(at)
        fz, fe = lambda at: y(at, k_), lambda at: y(at, N + k_)
    else:                    # W the transposed all-pole signal, excited by x
        x, fa, fb = w, lambda at: w(at, t_ + 1 + k_) - w(at), lambda at: y(at, t_ + k_) - w(at)
    args = {"b": Arg(bl, fb, sizes={"k": "Kb"}), "a": Arg(al, fa, coef=-1, sizes={"k": "Ka"}), "x": Arg(xl, x, signal=True)}
    rels = {"eq": [("eq", sz("Kb") - sz("Ka") - 1)], "short": [("ge", sz("Ka") - sz("Kb"), "dk")],
            "long": [("ge", sz("Kb") - sz("Ka") - 2, "dk")]}
    n = sz("Kb") - 1 if rel == "long" else sz("Ka")
    outs = [Out("y", xl, y, need=("b", "a", "x") + (("zi",) if zl else ()))]
    if zl:
        args["=zi"] = Arg(zl, fz, sizes={"k": n})
        outs.append(Out("zf", xl.replace("t", "") + "k", fe, need=("x", "a", "zi"), sizes={"k": n}))
    args["=form"] = form
    args["=backend"] = backend
    if unroll is not None and backend == "ssm":
        args["=unroll_factor"] = unroll
    return Case(f"lpv.lfilter:{form},{backend},b={bl},a={al},x={xl},zi={zl},L={unroll},{rel}@{wname}" + ("" if cplx else ",real"),
                mod, "lfilter", sig, args, outs, facts=rels[rel], wname=wname, cplx=cplx)


def lpv_lfilters(backend="ssm", wname="ext"):
    out = []
    for form in ("df2", "tdf2", "df1", "tdf1"):
        for bl, al, xl in (("btk", "btk", "bt"), ("tk", "tk", "bt"), ("tk", "tk", "t"), ("btk", "tk", "bt"), ("tk", "btk", "bt")):
            for zl in (None, xl.replace("t", "") + "k", "k"):
                if zl and form in ("df1", "tdf1"):
                    continue
                if zl == "k" and xl == "t":
                    continue
                for rel in ("eq", "short", "long"):
                    c = lpv_lfilter_case(form, bl, al, xl, zl, backend, rel=rel, wname=wname)
                    if backend == "torchlpc" and form == "tdf2":
                        c.rejects = "unsupported form"
                    out.append(c)
    return out


def world_state_space(tv, wname):
    """Back-end availability: every way into the recursion."""
    mod = "philtorch.lpv.ssm" if tv else "philtorch.lti.ssm"
    A1, A2 = ("tij", "btij") if tv else ("ij", "bij")
    out = []
    for cplx in (False, True):
        if not cplx and wname not in ("hl", "exthl"):
            continue
        for A in (A1, A2):
            for unroll in (1, L, None):
                if unroll is not None or (A == A1 and cplx):
                    out.append(ss_case(mod, A, "btf", None, fsize="M", unroll=unroll, wname=wname, cplx=cplx, zi="bi"))
            out.append(ss_case(mod, A, "bt", None, unroll=1, wname=wname, cplx=cplx, zi="bi"))
            out.append(ss_case(mod, A, "bt", None, unroll=L, wname=wname, cplx=cplx, out_idx=0))
            for x in ("bt", "bti"):
                for oi in (None, 0):
                    for un in (1, L):
                        out.append(recursion_case(mod, A, x, unroll=un, out_idx=oi, wname=wname, cplx=cplx))
    return out


# --------------------------------------------------------------------------
# functions built on the filters
def comb_filters(wname="ext"):
    mod = "philtorch.lti.filtering"
    out = []
    sig = {"V": "bt"}
    v = lambda at, t=t_: at("V", b=b_, t=t)
    for al in ("b", "1", ""):
        for zl in (None, "bk", "k"):
            for delay in (sz("K"), 1, 3):
                for un in (None, L):
                    if un is L and (al == "1" or zl == "k" or delay == 3):
                        continue
                    args = {"a": Arg(al, lambda at, delay=delay: v(at) - v(at, t_ - P(delay)), coef=-1), "delay": delay if not isinstance(delay, int) else I.num(P(delay)),
                            "x": Arg("bt", v, signal=True)}
                    outs = [Out("y", "bt", v, need=("a", "x"))]
                    if zl:
                        args["=zi"] = Arg(zl, lambda at: v(at, -1 - k_), sizes={"k": P(delay)})
                        outs.append(Out("zf", "bk", lambda at: v(at, N - 1 - k_), need=("x",), sizes={"k": P(delay)}))
                    if un is not None:
                        args["=unroll_factor"] = un
                    facts = [("ge", sz("K") - 1, "kk")] if not isinstance(delay, int) else []
                    out.append(Case(f"lti.comb_filter:a={al},zi={zl},d={delay!r},L={un}@{wname}", mod, "comb_filter", sig, args, outs, facts=facts, wname=wname))
                    out[-1].no_effect = P(delay) - N      # shorter than one delay
    return out


def lfiltics():
    mod = "philtorch.lti.filtering"
    out = []
    for bat in ("", "b"):
        sig = {"U": bat + "t", "V": bat + "t"}

        def s(n, bat=bat):
            return (lambda at, t=t_: at(n, b=b_, t=t)) if bat else (lambda at, t=t_: at(n, t=t))
        u, v = s("U"), s("V")
        for xin in (True, False):
            for rel in ("eq", "short", "long"):
                rels = {"eq": [("eq", sz("Kb") - sz("Ka") - 1)], "short": [("ge", sz("Ka") - sz("Kb"), "dk")],
                        "long": [("ge", sz("Kb") - sz("Ka") - 2, "dk")]}
                n = sz("Kb") - 1 if rel == "long" else sz("Ka")
                args = {"b": Arg(bat + "k", lambda at, u=u, v=v: v(at, t_) - u(at, t_ - k_), sizes={"k": "Kb"}),
                        "a": Arg(bat + "k", lambda at, v=v: v(at, t_) - v(at, t_ - 1 - k_), coef=-1, sizes={"k": "Ka"}),
                        "y": Arg(bat + "k", lambda at, v=v: v(at, -1 - k_), sizes={"k": "Ka"}, signal=True)}
                if xin:
                    args["x"] = Arg(bat + "k", lambda at, u=u: u(at, -1 - k_), sizes={"k": sz("Kb") - 1}, signal=True)
                out.append(Case(f"lti.lfiltic:{bat or '-'},x={xin},{rel}", mod, "lfiltic", sig, args,
                                [Out("zi", bat + "k", lambda at, v=v: v(at, k_), need=("a", "y"), sizes={"k": n})], facts=rels[rel]))
    return out


def lfilter_zis():
    """Steady state for a constant input: no time scaling exists."""
    mod = "philtorch.lti.filtering"
    out = []
    for bat in ("", "b"):
        sig = {"U": bat, "V": bat}

        def s(n, bat=bat):
            return (lambda at: at(n, b=b_)) if bat else (lambda at: at(n))
        u, v = s("U"), s("V")
        for tr in (True, False):
            for rel in ("none", "eq", "short", "long"):
                if tr and rel == "none":
                    continue
                rels = {"none": [], "eq": [("eq", sz("Kb") - sz("Ka") - 1)], "short": [("ge", sz("Ka") - sz("Kb"), "dk")],
                        "long": [("ge", sz("Kb") - sz("Ka") - 2, "dk")]}
                n = sz("Kb") - 1 if rel == "long" else sz("Ka")
                args = {"a": Arg(bat + "k", lambda at: P(0), coef=None, sizes={"k": "Ka"})}
                if rel != "none":
                    args["b"] = Arg(bat + "k", lambda at, u=u, v=v: v(at) - u(at), sizes={"k": "Kb"})
                args["=transpose"] = tr
                fz = (lambda at, u=u, v=v: v(at) - u(at)) if tr else (lambda at: P(0))
                out.append(Case(f"lti.lfilter_zi:{bat or '-'},tr={tr},{rel}", mod, "lfilter_zi", sig, args,
                                [Out("zi", bat + "k", fz, need=("a",) + (("b",) if tr else ()), sizes={"k": n})], facts=rels[rel]))
                out[-1].coef_props = []      # the inverse of I - A has no single sign
    return out


def filtfilts():
    """Both directions: only the input scale, the gain and the batch item survive a reversal."""
    mod = "philtorch.lti.filtering"
    out = []
    for bl, al, xl in (("bk", "bk", "bt"), ("k", "k", "bt"), ("k", "k", "t")):
        has = "b" in xl
        cb = "b" in bl

        def s(n, has=has):
            return (lambda at, t=t_: at(n, b=b_)) if has else (lambda at, t=t_: at(n))
        bx = "b" if has else ""
        sig = {"U": bx, "V": bx, "Y": bx}
        u, v, y = s("U"), s("V"), s("Y")
        for form in ("tdf2", "df2", "df1", "tdf1"):
            for pad in ("default", "none", "len"):
                args = {"b": Arg(bl, lambda at, u=u, v=v: v(at) - u(at), sizes={"k": "Kb"}),
                        "a": Arg(al, lambda at: P(0), coef=-1, sizes={"k": "Ka"}),
                        "x": Arg(xl, u, signal=True)}
                par = {"second": ("", lambda at, u=u, v=v, y=y: (y(at) - v(at)) - (v(at) - u(at)))}
                facts = [("eq", sz("Kb") - sz("Ka") - 1)]
                if pad == "none":
                    args["=padmode"] = None
                elif pad == "len":
                    args["=padlen"] = sz("L")
                    facts.append(("ge", N - sz("L") - 1, "np"))
                else:
                    facts.append(("ge", N - sz("Kb") * 3 - 1, "np"))
                args["=form"] = form
                args["=unroll_factor"] = 1
                out.append(Case(f"lti.filtfilt:b={bl},x={xl},{form},{pad}", mod, "filtfilt", sig, args,
                                [Out("y", xl, y, need=("b", "a", "x"))], params=par, facts=facts))
                out[-1].coef_props = []
                out[-1].extra_props = {"grade": ["C17"]}     # both passes must use the requested form
    return out


def diag_case(given, x="bt", Bm=None, C=None, D=None, zi=None, out_idx=None, unroll=1, bat=False, wname="ext", cplx=True):
    """diag_state_space: S is the state, H the state in eigen-coordinates (index j)."""
    mod = "philtorch.lti.ssm"
    c0 = ss_case(mod, "bij" if bat else "ij", x, Bm, C, D, zi, unroll, out_idx, fn="diag_state_space",
                 fsize="M" if (Bm is None and "f" in x) else None, wname=wname, cplx=cplx)
    args = dict(c0.args)
    A = args.pop("A")
    xa = args.pop("x")
    new = {"x": xa}
    bl = "b" if bat else ""

    def h(at, t=t_, j=j_):
        return at("H", b=b_, t=t, j=j)
    if given == "L":      # the state is already in eigen-coordinates: one scale for all of it
        new["=L"] = Arg(bl + "j", lambda at: at("S", b=b_, t=t_ + 1, i=P(0)) - at("S", b=b_, t=t_, i=P(0)))
    elif "L" in given:
        new["=L"] = Arg(bl + "j", lambda at: h(at, t_ + 1) - h(at))
    if "V" in given:
        new["=V"] = Arg(bl + "ij", lambda at: at("S", b=b_, t=t_, i=i_) - h(at))
    if "I" in given:
        new["=Vinv"] = Arg(bl + "ji", lambda at: h(at) - at("S", b=b_, t=t_, i=i_))
    if "A" in given:
        A.fn = g_A if "L" in given else (lambda at: at("S", b=b_, t=t_ + 1, i=P(0)) - at("S", b=b_, t=t_, i=P(0)))
        new["=A"] = A
    new.update(args)
    sig = dict(c0.signals, H="btj") if "L" in given and given != "L" else dict(c0.signals, S="bt")
    idd = c0.id.replace("A=bij" if bat else "A=ij", f"given={given},bat={int(bat)}")
    c = Case(idd, mod, "diag_state_space", sig, new, c0.outs, params=c0.params, wname=wname, cplx=cplx)
    for o in c.outs:
        o.need = tuple(n for n in o.need if n != "A") + (("A",) if given == "A" else ("=L",) if False else ())
    c.free_dims, c.alternatives = c0.free_dims, c0.alternatives
    c.any_polarity = {"A"} if given == "A" else set()
    return c


def diag_models(wname="ext"):
    out = []
    for given in ("A", "LV", "LI", "LVI"):
        for bat in (False, True):
            for un in (1, L):
                if un is L and (bat or given in ("LI", "LVI")):
                    continue
                k = dict(bat=bat, wname=wname, unroll=un)
                out.append(diag_case(given, "bt", "i", "i", "b", zi="bi", **k))
                out.append(diag_case(given, "bt", "bi", "boi", "bo", **k))
                out.append(diag_case(given, "bt", None, None, None, zi="bi", out_idx=0, **k))
                out.append(diag_case(given, "bt", None, "oi", None, **k))
                out.append(diag_case(given, "btf", "if", "oi", "of", zi="i", **k))
                out.append(diag_case(given, "btf", "bif", "bi", "bf", **k))
                out.append(diag_case(given, "btf", None, None, None, zi="bi", **k))
                out.append(diag_case(given, "btf", "if", None, None, out_idx=0, **k))
    for un in (1, L):
        out.append(diag_case("L", "bt", "i", "i", "b", zi="bi", wname=wname, unroll=un))
        out.append(diag_case("L", "bt", "bi", "boi", "bo", wname=wname, unroll=un))
        out.append(diag_case("L", "btf", "if", None, None, out_idx=0, wname=wname, unroll=un))
        out.append(diag_case("L", "bt", None, "oi", None, zi="i", wname=wname, unroll=un))
    out.append(diag_case("L", "bt", "i", "i", "b", zi="bi", wname=wname, cplx=False))
    for cplx in (False,):
        out.append(diag_case("A", "bt", "i", "i", "b", zi="bi", cplx=False, wname=wname))
        out.append(diag_case("A", "bt", None, None, None, zi="bi", out_idx=0, cplx=False, wname=wname))
        out.append(diag_case("A", "btf", "if", "oi", "of", zi="i", cplx=False, wname=wname, bat=True))
        out.append(diag_case("A", "bt", "i", None, None, cplx=False, wname=wname))
    return out


def world_diag(wname):
    """A few of the diagonalised models in another world."""
    if wname.startswith(("hl", "exthl")):
        return [diag_case("A", "bt", "i", "i", "b", zi="bi", cplx=False, wname=wname), diag_case("L", "bt", None, None, None, zi="bi", out_idx=0, cplx=False, wname=wname)]
    out = []
    for un in (1, L):
        out.append(diag_case("A", "bt", "i", "i", "b", zi="bi", wname=wname, unroll=un))
        out.append(diag_case("LV", "bt", None, None, None, zi="bi", out_idx=0, wname=wname, unroll=un))
    out.append(diag_case("LV", "btf", "bif", "bi", "bf", wname=wname, bat=True))
    out.append(diag_case("L", "bt", "bi", None, None, out_idx=0, wname=wname))
    return out


def diag_lfilters(wname="ext"):
    mod = "philtorch.lti.filtering"
    out = []
    for form in ("df2", "tdf2"):
        for bl, al, xl in (("bk", "bk", "bt"), ("k", "k", "bt"), ("k", "k", "t")):
            for zl in (None, xl.replace("t", "") + "k"):
                for rel in ("eq", "short"):
                    for un in (1, L):
                        if un is L and (zl is None or xl == "t"):
                            continue
                        c = lfilter_case(mod, form, bl, al, xl, zl, backend="diag_ssm", unroll=un, rel=rel, wname=wname)
                        c.any_polarity = {"a"}
                        c.needs_contract = "find_eigenvectors"
                        out.append(c)
                # a numerator longer than the denominator: polynomial part and remainder
                for rel in ("long2", "long3"):
                    for delayed in (False, True):
                        c = lfilter_case(mod, form, bl, al, xl, zl, backend="diag_ssm", unroll=1, rel=rel, wname=wname, extra={"delayed_form": delayed})
                        c.id += f",delayed={delayed}"
                        c.any_polarity = {"a"}
                        c.coef_props = []      # quotient and remainder have no single sign
                        c.needs_contract = "find_eigenvectors"
                        if zl:
                            c.rejects = "zi with a numerator longer than the denominator"
                        out.append(c)
    return out


# --------------------------------------------------------------------------
# gradient rules
class GradCase(Case):
    """One differentiation rule of h = recurrence(A, zi, x).

    rule "backward" or "jvp"; owner is ("class", module, name) of an autograd
    Function or ("op", name) of a registered operator.  The rule receives what
    the owner's own set-up code stored in the context.
    """

    def __init__(self, id, owner, rule, coefs, given, needs, outs, **kw):
        module = owner[1] if owner[0] == "class" else "philtorch"
        super().__init__(id, module, owner[-1] + "." + rule, {"S": coefs["sig"]}, dict(coefs["primal"], **given), outs, **kw)
        self.owner, self.rule, self.flags = owner, rule, needs
        self.primal = coefs["primal"]
        self.grad = True
        self.coef_props = ["C11"]
        self.extra_props = {k: ["C11"] for k in ("type", "raise", "dep", "grade", "cut", "mutate", "branch")}
        self.conj_roots = {"A", "zi", "y", "x"} if rule == "backward" else set()

    def grade(self, arg):
        """Every term of a derivative contains exactly one derivative."""
        g = super().grade(arg)
        if any(arg is a for a in self.primal.values()):
            return g
        return lambda *v: g(*v) + Poly.atom("w:lin9")

    def rules(self, it):
        """(rule, set-up function, forward)"""
        if self.owner[0] == "class":
            cls = it.module(self.module).ns[self.owner[2]]
            return cls.lookup(self.rule), cls.lookup("setup_context"), cls.lookup("forward")
        it.module("philtorch")
        r = it.registry["autograd"].get(self.owner[1])
        if r is None:
            raise I.Unsupported(f"no gradient rule of {self.owner[1]}")
        return r[0], r[1], None

    def target(self, it):
        f = self.rules(it)[0]
        return getattr(f, "func", f)

    def setup(self, it):
        ins = {}
        for n, a in list(self.primal.items()) + [(n, a) for n, a in self.args.items() if n not in self.primal]:
            ins[n] = None if a is None else tin(it, n.lstrip("="), a.shape(), self.grade(a), coef=a.coef, cplx=a.cplx)

        def run(args, kwargs):
            rule, sc, fwd = self.rules(it)
            ctx = I.Obj(needs_input_grad=tuple(self.flags))
            ctx.attrs["mode"] = self.rule
            if sc is not None:
                it.call(sc, [ctx, (ins["A"], ins["zi"], ins["x"]), ins["y"]], {})
            else:
                raise I.Unsupported("no set-up function")
            sv = ctx.attrs.get("saved", {})
            pick = sv.get("save_for_forward") if self.rule == "jvp" else None
            ctx.attrs["saved_tensors"] = pick or sv.get("save_for_backward", ())
            extra = [ins[n] for n in self.args if n not in self.primal]
            return it.call(rule, [ctx] + extra, {})
        return I.Builtin(self.id, run), [], {}

    def describe(self):
        return f"gradient rule {self.rule} of {'.'.join(self.owner[1:])}, A{tuple(map(repr, self.primal['A'].shape()))}".replace("'", "") + f" [{self.wname}]"


def gradients(wname="ext"):
    out = []
    L3 = "bti"

    def add(owner, scalar, letters, rules, wn):
        sig = "bt" if scalar else "bti"
        ia = "" if scalar else "i"

        def s(at, t, i=i_):
            return at("S", b=b_, t=t) if scalar else at("S", b=b_, t=t, i=i)
        fA = lambda at: s(at, t_ + 1) - (s(at, t_) if scalar else s(at, t_, j_))
        fz = lambda at: s(at, P(0))
        fh = lambda at: s(at, t_ + 1)
        m2 = owner[-1].endswith("recur2")
        facts = [("eq", M - 2)] if m2 else []
        for A in letters:
            primal = {"A": Arg(A, fA), "zi": Arg("b" + ia, fz), "x": Arg(sig, fh), "y": Arg(sig, fh)}
            neg = lambda f: (lambda at: -f(at))
            base = dict(sig=sig, primal=primal)
            nm = f"grad:{owner[-1]}:A={A or 'scalar'}@{wn}"
            if "backward" in rules:
                for fl in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):
                    outs = []
                    for n, k in (("A", 0), ("zi", 1), ("x", 2)):
                        a = primal[n]
                        o = Out("grad_" + n, a.letters, neg(a.fn), need={"A": ("A", "zi", "y", "gy"), "zi": ("A", "gy"), "x": ("A", "gy")}[n])
                        o.optional = not fl[k]
                        outs.append(o)
                    if A == "1":
                        outs[0] = None       # summed over the batch by autograd itself
                    cx = not wn.endswith("hl")      # Helion only runs on real tensors
                    c = GradCase(nm + ",backward," + "".join("01"[f] for f in fl), owner, "backward", base,
                                 {"gy": Arg(sig, neg(fh))}, fl, [o for o in outs], wname=wn, cplx=cx, facts=facts)
                    out.append(c)
            if "jvp" in rules:
                for fl in ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
                    tan = {"d" + n: (Arg(primal[n].letters, primal[n].fn) if fl[k] else None) for k, n in enumerate(("A", "zi", "x"))}
                    need = [n for k, n in enumerate(("dA", "dzi", "dx")) if fl[k]] + ["A"] + (["y", "zi"] if fl[0] else [])
                    c = GradCase(nm + ",jvp," + "".join(map(str, fl)), owner, "jvp", base, tan, (True,) * 3,
                                 [Out("tangent", sig, fh, need=need)], wname=wn, cplx=not wn.endswith("hl"), facts=facts)
                    out.append(c)
    for wn, owners in (("ext", ["lti_recur", "lti_recurN", "lti_recur2", "recurN", "recur2"]), ("hl", ["hl_lti_recurN", "hl_recurN"]),
                       ("cuda", ["lti_recur", "lti_recur2", "recur2"])):
        for op in owners:
            scalar = op == "lti_recur"
            lti = "lti" in op
            add(("op", op), scalar, ["", "b"] if scalar else (["ij", "bij"] if lti else ["tij", "btij"]), ("backward",), wn)
    for wn in ("ext", "hl", "exthl", "cuda"):
        if wn in ("ext", "cuda"):
            add(("class", "philtorch.lti.recur", "LTIRecurrence"), True, ["", "b"], ("backward", "jvp"), wn)
        add(("class", "philtorch.lti.ssm", "LTIMatrixRecurrence"), False, ["ij", "bij"], ("backward", "jvp"), wn)
        add(("class", "philtorch.lpv.ssm", "MatrixRecurrence"), False, ["tij", "btij"], ("backward", "jvp"), wn)
    for c in out:
        if c.wname == "cuda" and "Matrix" in c.id:
            c.facts.append(("eq", M - 2))
    return out
