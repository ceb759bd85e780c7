"""Calls that must be refused: unknown names, unsupported combinations, mismatched shapes."""
from . import interp as I
from .poly import Poly, P
from .specs import Arg, Case, sz


class Shaped(Arg):
    """A tensor argument of which only the shape matters."""

    def __init__(self, dims):
        super().__init__("", None)
        self.dims = dims

    def shape(self):
        return list(self.dims)


def arr(spec):
    """"B,N" -> tensor of shape (B, N); a digit is a constant size, "K+1" a sum."""
    dims = []
    for w in spec.split(","):
        w = w.strip()
        if not w:
            continue
        p = Poly()
        for x in w.split("+"):
            p = p + (P(int(x)) if x.lstrip("-").isdigit() else sz(x))
        dims.append(p)
    return Shaped(dims)


def bad(out, id, module, fn, why, wname="ext", ne=(), ge=None, **args):
    """`ne` lists pairs of size names that differ; every size is at least 2 unless `ge` says otherwise."""
    names = set()
    for v in args.values():
        if isinstance(v, Shaped):
            for p in v.dims:
                names |= set(p.atoms())
    ge = dict(ge or {})
    facts = [("ge", sz(n) - ge.get(n, 2), n.lower() + "_") for n in sorted(names)]
    for a, b in ne:
        facts.append(("ne", sz(a) - sz(b)))
    a = {}
    for k, v in args.items():
        a["=" + k if not k.startswith("_") else k[1:]] = v
    c = Case(f"reject:{module.split('.', 1)[1]}.{fn}:{id}@{wname}", module, fn, {}, a, [], wname=wname, cplx=False, facts=facts)
    c.rejects = why
    out.append(c)


def rejections(wname="ext"):
    out = []

    def R(*a, **k):
        bad(out, *a, wname=wname, **k)
    bad_B = dict(ne=[("B2", "B")])
    bad_M = dict(ne=[("M2", "M")])
    # ------------------------------------------------------------ recurrences
    m = "philtorch.lti.recur"
    for id, a, i, x, kw in (
            ("a batch", "B2", "B", "B,N", bad_B), ("a 2D", "B,N", "B", "B,N", {}), ("x 1D", "B", "B", "N", {}), ("x 3D", "B", "B", "B,N,F", {}),
            ("init batch", "B", "B2", "B,N", bad_B), ("init 2D", "B", "B,M", "B,N", {})):
        R(id, m, "linear_recurrence", f"the shapes a ({a}), init ({i}), x ({x}) do not fit", a=arr(a), init=arr(i), x=arr(x), **kw)
    m = "philtorch.lpv.recur"
    for id, a, i, x, kw in (
            ("a batch", "B2,N", "B", "B,N", bad_B), ("a length", "B,N2", "B", "B,N", dict(ne=[("N2", "N")])), ("shared a length", "N2", "B", "B,N", dict(ne=[("N2", "N")])),
            ("a 3D", "B,N,M", "B", "B,N", {}), ("x 1D", "N", "B", "N", {}), ("x 3D", "B,N", "B", "B,N,F", {}),
            ("init batch", "B,N", "B2", "B,N", bad_B), ("init 2D", "B,N", "B,M", "B,N", {})):
        R(id, m, "linear_recurrence", f"the shapes a ({a}), init ({i}), x ({x}) do not fit", a=arr(a), init=arr(i), x=arr(x), **kw)
    for tv, mod in ((False, "lti"), (True, "lpv")):
        A1 = "N,M,M" if tv else "M,M"
        AB = "B," + A1
        for u in (0, -1):
            R(f"unroll {u}", f"philtorch.{mod}.recur", "linear_recurrence", "the unroll factor must be at least 1",
              a=arr("B,N" if tv else "B"), init=arr("B"), x=arr("B,N"), unroll_factor=u)
            R(f"unroll {u}", f"philtorch.{mod}.ssm", "state_space_recursion", "the unroll factor must be at least 1",
              A=arr(AB), zi=arr("B,M"), x=arr("B,N,M"), unroll_factor=u)
        # -------------------------------------------------------- matrix recursion
        rows = [("A batch", AB.replace("B", "B2"), "B,M", "B,N,M", bad_B), ("A not square", AB[:-1] + "M2", "B,M", "B,N,M", bad_M),
                ("x features", AB, "B,M", "B,N,M2", bad_M), ("zi batch", AB, "B2,M", "B,N,M", bad_B), ("zi size", AB, "B,M2", "B,N,M", bad_M),
                ("shared A, zi size", A1, "B,M2", "B,N,M", bad_M), ("shared A, x features", A1, "B,M", "B,N,M2", bad_M),
                ("shared A not square", A1[:-1] + "M2", "B,M", "B,N,M", bad_M),
                ("x 1D", A1, "B,M", "N", {}), ("x 4D", A1, "B,M", "B,N,M,F", {}), ("zi 3D", A1, "B,M,M", "B,N,M", {}), ("A rank low", A1.split(",", 1)[1], "B,M", "B,N,M", {}),
                ("A rank high", "F," + AB, "B,M", "B,N,M", {})]
        if tv:
            n2 = dict(ne=[("N2", "N")])
            rows += [("A length", "B,N2,M,M", "B,M", "B,N,M", n2), ("shared A length", "N2,M,M", "B,M", "B,N,M", n2), ("A length, x 2D", "B,N2,M,M", "B,M", "B,N", n2)]
        for id, a, z, x, kw in rows:
            for u in (1, 3):
                R(f"{id},u={u}", f"philtorch.{mod}.ssm", "state_space_recursion", f"the shapes A ({a}), zi ({z}), x ({x}) do not fit",
                  A=arr(a), zi=arr(z), x=arr(x), unroll_factor=u, **kw)
        # ------------------------------------------------------------- state space
        ok = dict(A=AB, x="B,N,F", B="M,F", C="O,M", D="O,F")
        for id, ch, kw in (
                ("A batch", dict(A=AB.replace("B", "B2")), bad_B), ("A not square", dict(A=AB[:-1] + "M2"), bad_M),
                ("x 1D", dict(x="N"), {}), ("B states", dict(B="M2,F"), dict(ne=[("M2", "M"), ("M2", "B")])),
                ("B inputs", dict(B="M,F2"), dict(ne=[("F2", "F")])),
                ("C states", dict(C="O,M2"), bad_M), ("zi size", dict(zi="B,M2"), bad_M), ("zi batch", dict(zi="B2,M"), bad_B),
                ("shared zi size", dict(zi="M2"), bad_M),
                ("D inputs", dict(D="O,F2"), dict(ne=[("F2", "F")])),
                ("B batch", dict(B="B2,M,F"), dict(ne=[("B2", "B"), ("B2", "N")]) if not tv else dict(ne=[("B2", "B"), ("B2", "N")])),
                ("C batch", dict(C="B2,O,M"), dict(ne=[("B2", "B"), ("B2", "N")])), ("D batch", dict(D="B2,O,F"), dict(ne=[("B2", "B"), ("B2", "N")])),
                ("C outputs", dict(C="O,M", D="O2,F"), dict(ne=[("O2", "O")]))):
            sh = {**ok, **ch}
            args = {k: arr(v) for k, v in sh.items()}
            R(id, f"philtorch.{mod}.ssm", "state_space", "the shapes " + ", ".join(f"{k} ({v})" for k, v in sh.items()) + " do not fit", **args, **kw)
        if tv:
            for u in (1, 3):
                R(f"A length,u={u}", "philtorch.lpv.ssm", "state_space", "A has another length than x", A=arr("B,N2,M,M"), x=arr("B,N,F"), B=arr("M,F"), unroll_factor=u, ne=[("N2", "N")])
                R(f"shared A length,u={u}", "philtorch.lpv.ssm", "state_space", "A has another length than x", A=arr("N2,M,M"), x=arr("B,N"), zi=arr("B,M"), unroll_factor=u, ne=[("N2", "N"), ("N2", "B")])
        R("C and out_idx", f"philtorch.{mod}.ssm", "state_space", "C and out_idx exclude each other", A=arr(AB), x=arr("B,N,F"), B=arr("M,F"), C=arr("O,M"), out_idx=0)
    # -------------------------------------------------------------------- filters
    m = "philtorch.lti.filtering"
    for id, sh, kw in (("b batch", dict(b="B2,K", x="B,N"), bad_B), ("b 1D", dict(b="K", x="B,N"), {}), ("b 3D", dict(b="B,N,K", x="B,N"), {}), ("x 1D", dict(b="B,K", x="N"), {}),
                       ("zi size", dict(b="B,K+1", x="B,N", zi="B,K2"), dict(ne=[("K2", "K")])), ("zi batch", dict(b="B,K+1", x="B,N", zi="B2,K"), bad_B),
                       ("zi 1D", dict(b="B,K+1", x="B,N", zi="K"), {})):
        R(id, m, "fir", "the shapes " + ", ".join(f"{k} ({v})" for k, v in sh.items()) + " do not fit", **{k: arr(v) for k, v in sh.items()}, **kw)
    for back in ("ssm", "diag_ssm"):
        for form in ("df2", "tdf2", "df1", "tdf1"):
            if back == "diag_ssm" and form in ("df1", "tdf1"):
                continue
            rows = [("b batch", dict(b="B2,K+1", a="B,K", x="B,N"), bad_B), ("a batch", dict(b="B,K+1", a="B2,K", x="B,N"), bad_B), ("x 3D", dict(b="K+1", a="K", x="B,N,F"), {}),
                    ("b 3D", dict(b="B,N,K", a="K", x="B,N"), {}), ("a 3D", dict(b="K", a="B,N,K", x="B,N"), {})]
            if form in ("df2", "tdf2"):
                rows += [("zi size", dict(b="K+1", a="K", x="B,N", zi="B,K2"), dict(ne=[("K2", "K")])), ("zi batch", dict(b="K+1", a="K", x="B,N", zi="B2,K"), bad_B),
                         ("shared zi size", dict(b="K+1", a="K", x="B,N", zi="K2"), dict(ne=[("K2", "K")]))]
            for id, sh, kw in rows:
                R(f"{back},{form},{id}", m, "lfilter", "the shapes " + ", ".join(f"{k} ({v})" for k, v in sh.items()) + " do not fit",
                  **{k: arr(v) for k, v in sh.items()}, form=form, backend=back, **kw)
    base = dict(b=arr("B,K+1"), a=arr("B,K"), x=arr("B,N"))
    for form in ("df3", "TDF2", "", None):
        for back in ("ssm", "diag_ssm"):
            R(f"form {form!r},{back}", m, "lfilter", f"unknown form {form!r}", **base, form=form, backend=back)
            R(f"form {form!r},{back},zi", m, "lfilter", f"unknown form {form!r}", **base, zi=arr("B,K"), form=form, backend=back)
    for back in ("torchlpc", "fft", "", None):
        R(f"backend {back!r}", m, "lfilter", f"unknown back end {back!r}", **base, backend=back)
    R("unknown keyword", m, "lfilter", "unknown keyword argument", **base, filter_order=2)
    for meth in ("gust", "fft", None):
        R(f"method {meth!r}", m, "filtfilt", f"unsupported method {meth!r}", **base, padlen=0, method=meth)
    R("padlen too large", m, "filtfilt", "the padding is longer than the signal", b=arr("B,2"), a=arr("B,1"), x=arr("B,5"), padlen=5)
    R("default padlen too large", m, "filtfilt", "the padding is longer than the signal", b=arr("B,2"), a=arr("B,1"), x=arr("B,6"))
    R("form", m, "filtfilt", "unknown form", b=arr("B,2"), a=arr("B,1"), x=arr("B,N"), padlen=0, form="df3")
    R("padmode", m, "filtfilt", "unknown padding mode", b=arr("B,2"), a=arr("B,1"), x=arr("B,N+3"), padlen=2, padmode="mirror")
    R("transpose without b", m, "lfilter_zi", "the transposed form needs the numerator", a=arr("B,K"))
    for d in (0, -1):
        R(f"delay {d}", m, "comb_filter", "the delay must be positive", a=arr("B"), delay=d, x=arr("B,N"))
    for id, sh, kw in (("a batch", dict(a="B2", x="B,N"), bad_B), ("a 2D", dict(a="B,N", x="B,N"), {}), ("x 1D", dict(a="1", x="N"), {}), ("x 3D", dict(a="B", x="B,N,F"), {}),
                       ("zi batch", dict(a="B", x="B,N", zi="B2,2"), bad_B), ("zi size", dict(a="B", x="B,N", zi="B,3"), {})):
        R(id, m, "comb_filter", "the shapes " + ", ".join(f"{k} ({v})" for k, v in sh.items()) + " do not fit", **{k: arr(v) for k, v in sh.items()}, delay=2, **kw)
    # ------------------------------------------------- time-varying filters
    m = "philtorch.lpv.filtering"
    n2, k2 = dict(ne=[("N2", "N")]), dict(ne=[("K2", "K")])
    for fn, w in (("fir", "b"), ("allpole", "a")):
        z = "K+1" if fn == "fir" else "K"
        for id, c, x, zi, kw in (("batch", f"B2,N,{z}", "B,N", None, bad_B), ("length", f"B,N2,{z}", "B,N", None, n2), ("rank", f"N,{z}", "B,N", None, {}), ("x 1D", f"B,N,{z}", "N", None, {}),
                                 ("zi size", f"B,N,{z}", "B,N", "B,K2", k2), ("zi batch", f"B,N,{z}", "B,N", "B2,K", bad_B), ("zi 1D", f"B,N,{z}", "B,N", "K", {})):
            args = {w: arr(c), "x": arr(x)}
            if zi:
                args["zi"] = arr(zi)
            R(id, m, fn, f"the shapes {w} ({c}), x ({x})" + (f", zi ({zi})" if zi else "") + " do not fit", **args, **kw)
    for back in ("ssm", "torchlpc"):
        for form in ("df2", "tdf2", "df1", "tdf1"):
            rows = [("b batch", dict(b="B2,N,K+1", a="B,N,K", x="B,N"), bad_B), ("a batch", dict(b="B,N,K+1", a="B2,N,K", x="B,N"), bad_B), ("x 3D", dict(b="N,K+1", a="N,K", x="B,N,F"), {}),
                    ("b 4D", dict(b="F,B,N,K", a="N,K", x="B,N"), {}), ("a 4D", dict(b="N,K", a="F,B,N,K", x="B,N"), {}),
                    ("b length", dict(b="B,N2,K+1", a="B,N,K", x="B,N"), n2), ("a length", dict(b="B,N,K+1", a="B,N2,K", x="B,N"), n2)]
            if form in ("df2", "tdf2"):
                rows += [("zi size", dict(b="N,K+1", a="N,K", x="B,N", zi="B,K2"), k2), ("zi batch", dict(b="N,K+1", a="N,K", x="B,N", zi="B2,K"), bad_B)]
            for id, sh, kw in rows:
                R(f"{back},{form},{id}", m, "lfilter", "the shapes " + ", ".join(f"{k} ({v})" for k, v in sh.items()) + " do not fit",
                  **{k: arr(v) for k, v in sh.items()}, form=form, backend=back, **kw)
    base = dict(b=arr("B,N,K+1"), a=arr("B,N,K"), x=arr("B,N"))
    for form in ("df3", "TDF2", "", None):
        for back in ("ssm", "torchlpc"):
            R(f"form {form!r},{back}", m, "lfilter", f"unknown form {form!r}", **base, form=form, backend=back)
            R(f"form {form!r},{back},zi", m, "lfilter", f"unknown form {form!r}", **base, zi=arr("B,K"), form=form, backend=back)
    for back in ("diag_ssm", "fft", "", None):
        R(f"backend {back!r}", m, "lfilter", f"unknown back end {back!r}", **base, backend=back)
    R("unknown keyword", m, "lfilter", "unknown keyword argument", **base, filter_order=2)
    # --------------------------------------------------------- diagonalised model
    m = "philtorch.lti.ssm"
    for id, sh, kw in (
            ("x 1D", dict(x="N", L="M"), {}), ("neither L nor A", dict(x="B,N"), {}), ("A not square", dict(x="B,N", A="M,M2"), bad_M), ("A batch", dict(x="B,N", A="B2,M,M"), bad_B),
            ("V size", dict(x="B,N", L="M", V="M2,M2"), bad_M), ("V not square", dict(x="B,N", L="M", V="M,M2"), bad_M), ("Vinv size", dict(x="B,N", L="M", Vinv="M2,M2"), bad_M),
            ("V rank", dict(x="B,N", L="M", V="B,M,M"), {}), ("L batch", dict(x="B,N", L="B2,M", V="B2,M,M"), bad_B), ("L 3D", dict(x="B,N", L="B,M,M", V="M,M"), {}),
            ("batched V rank", dict(x="B,N", L="B,M", V="M,M"), {}), ("batched V size", dict(x="B,N", L="B,M", V="B,M2,M2"), bad_M), ("batched V batch", dict(x="B,N", L="B,M", V="B2,M,M"), bad_B),
            ("batched L alone", dict(x="B,N", L="B,M"), {}),
            ("A and L size", dict(x="B,N", L="M", A="M2,M2"), bad_M), ("zi size", dict(x="B,N", L="M", V="M,M", zi="B,M2"), bad_M), ("zi batch", dict(x="B,N", L="M", V="M,M", zi="B2,M"), bad_B),
            ("B size", dict(x="B,N", L="M", V="M,M", B="M2"), bad_M), ("B inputs", dict(x="B,N,F", L="M", V="M,M", B="M,F2"), dict(ne=[("F2", "F")])),
            ("C size", dict(x="B,N", L="M", V="M,M", C="O,M2"), bad_M)):
        R(id, m, "diag_state_space", "the shapes " + ", ".join(f"{k} ({v})" for k, v in sh.items()) + " do not fit", **{k: arr(v) for k, v in sh.items()}, **kw)
    R("C and out_idx", m, "diag_state_space", "C and out_idx exclude each other", x=arr("B,N"), L=arr("M"), V=arr("M,M"), C=arr("O,M"), out_idx=0)
    # ------------------------------------------------------------ prototypes
    for rt in ("median", "", None):
        R(f"reduction {rt!r}", "philtorch.prototype.signal", "unique_roots", f"unknown reduction {rt!r}", p=arr("K"), rtype=rt)
    R("derivative order", "philtorch.prototype.poly", "polyder", "the order of a derivative is not negative", p=arr("K"), m=-1)
    for id, b_, a_ in (("b 2D", "B,K", "K"), ("a 2D", "K", "B,K")):
        for fn in ("residue", "residuez"):
            R(id, "philtorch.prototype.signal", fn, "the coefficients are rank-1", b=arr(b_), a=arr(a_))
    R("sections 1D", "philtorch.prototype.signal", "sos2pfe", "the sections are a matrix of six columns", sos=arr("6"))
    R("section columns", "philtorch.prototype.signal", "sos2pfe", "the sections are a matrix of six columns", sos=arr("K,5"))
    R("iterations", "philtorch.prototype.nl", "newton_solve", "fewer iterations than time steps", func=None, x=arr("B,3,M"), y0=arr("B,3,M"), init=arr("B,M"), max_iter=3)
    # ------------------------------------------------------------------- splines
    m = "philtorch.lti.interp"
    R("smoothing", m, "cspline", "smoothing is not implemented", x=arr("B,N"), lamb=0.5)
    for k in (0, -2, 2.5):
        R(f"m={k}", m, "cubic_spline", "the factor must be an integer of at least 1", x=arr("B,N+4"), m=k)
    # ------------------------------------------------------------------ matrices
    m = "philtorch.mat"
    R("not square", m, "find_eigenvectors", "the matrix must be square", A=arr("M,M2"), eigenvalues=arr("M"), **bad_M)
    R("eigenvalues", m, "find_eigenvectors", "there must be one eigenvalue per dimension", A=arr("M,M"), eigenvalues=arr("M2"), **bad_M)
    R("not square", m, "matrix_power_accumulate", "the matrix must be square", A=arr("M,M2"), n=3, **bad_M)
    return out


def contrasts(wname="ext"):
    """Options whose values select different results."""
    out = []

    def K(module, fn, option, one, two, id="", ge=None, **args):
        names = {a for v in args.values() if isinstance(v, Shaped) for p in v.dims for a in p.atoms()}
        facts = [("ge", sz(n) - (ge or {}).get(n, 2), n.lower() + "_") for n in sorted(names)]
        a = {"=" + k: v for k, v in args.items()}
        a["=" + option] = one
        c = Case(f"option:{module.split('.', 1)[1]}.{fn}:{option}={one!r}/{two!r}{id}@{wname}", "philtorch." + module, fn, {}, a, [], wname=wname, cplx=False, facts=facts)
        c.contrast = (option, two)
        out.append(c)
    for k in (2, 3):
        K("lti.interp", "cubic_spline", "scipy_padding", False, True, f",m={k}", ge=dict(N=8), x=arr("B,N"), m=k)
    for par in (True, False):
        K("lti.interp", "cspline", "scipy_padding", False, True, f",parallel={par}", ge=dict(N=8), x=arr("B,N"), parallel_form=par)
    for sh in (dict(b="3", a="2", x="B,N"), dict(b="B,3", a="B,2", x="B,N"), dict(b="3", a="2", x="N")):
        for form in ("df2", "tdf2", "df1", "tdf1"):
            kw = dict({k: arr(v) for k, v in sh.items()}, unroll_factor=1)
            i = f",{form},{sh['b']},{sh['x']}"
            K("lti.filtering", "filtfilt", "padmode", "replicate", "reflect", i, ge=dict(N=12), form=form, padlen=4, **kw)
            K("lti.filtering", "filtfilt", "padmode", "constant", "replicate", i, ge=dict(N=12), form=form, padlen=4, **kw)
            K("lti.filtering", "filtfilt", "padlen", 4, 5, i, ge=dict(N=12), form=form, **kw)
            K("lti.filtering", "filtfilt", "padlen", 0, 5, i, ge=dict(N=12), form=form, **kw)
    for sh in (dict(a="K", b="K+1"), dict(a="B,K", b="B,K+1")):
        K("lti.filtering", "lfilter_zi", "transpose", True, False, "," + sh["a"], **{k: arr(v) for k, v in sh.items()})
    K("lti.filtering", "fir", "transpose", True, False, b=arr("B,K+1"), x=arr("B,N"), zi=arr("B,K"))
    K("lpv.filtering", "fir", "transpose", True, False, b=arr("B,N,K+1"), x=arr("B,N"), zi=arr("B,K"))
    K("lpv.filtering", "allpole", "transpose", True, False, a=arr("B,N,K"), x=arr("B,N"), zi=arr("B,K"))
    for form in (("df2", "tdf2"), ("df1", "tdf1"), ("df2", "df1")):
        K("lpv.filtering", "lfilter", "form", *form, b=arr("B,N,3"), a=arr("B,N,2"), x=arr("B,N"), backend="ssm", unroll_factor=1)
        if "tdf2" not in form:
            K("lpv.filtering", "lfilter", "form", *form, ",torchlpc", b=arr("B,N,K+1"), a=arr("B,N,K"), x=arr("B,N"), backend="torchlpc")
    return out


def short_signals(tv):
    """The default block size, for every short signal length: accepted, with
    the stated shape (no statement about terms is made here)."""
    from .specs import ss_case
    out = []
    mod = "philtorch.lpv.ssm" if tv else "philtorch.lti.ssm"
    for n in (1, 2, 3, 4, 5):
        def add(c):
            c.facts = list(c.facts or []) + [("eq", sz("N") - n)]
            c.id += f",N={n}"
            out.append(c)
        A1, A2 = ("tij", "btij") if tv else ("ij", "bij")
        for wn in ("ext", "py"):
            add(ss_case(mod, A2, "bt", "i", "oi", None, zi="bi", unroll=None, wname=wn))
            add(ss_case(mod, A1, "btf", "if", None, None, zi="bi", unroll=None, wname=wn))
    return out
