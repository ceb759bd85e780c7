"""Specifications of the helper mathematics: matrix functions, polynomials, splines."""
from . import interp as I
from .poly import P
from .specs import Arg, Case, F, L, M, N, Out, b_, i_, j_, k_, sz, t_, K
from . import specs as S

MAT = "philtorch.mat"


def accumulations():
    """[A, A^2, ..., A^n] and running products of a matrix sequence."""
    out = []
    n_ = sz("nn")
    grade = ["C03", "C08", "C09"]
    for bat in ("", "b"):
        sig = {"S": bat + "ti"}
        at_ = (lambda at, t, i: at("S", b=b_, t=t, i=i)) if bat else (lambda at, t, i: at("S", t=t, i=i))
        fA = lambda at, at_=at_: at_(at, t_ + 1, i_) - at_(at, t_, j_)
        step = lambda at, at_=at_: at_(at, P(1), i_) - at_(at, P(0), j_)
        for n in (1, 2, 3, 4, 6, 8, 12, 27, "sym"):
            if n == "sym":
                num, size, facts = I.num(n_), n_, [("ge", n_ - 2, "n2")]
            else:
                num, size, facts = n, P(n), []
            args = {"A": Arg(bat + "ij", fA), "n": num}
            o = Out("powers", bat + "kij", lambda at, at_=at_: at_(at, k_ + 1, i_) - at_(at, P(0), j_), need=("A",), sizes={"k": size})
            out.append(Case(f"mat.matrix_power_accumulate:{bat or '-'},n={n}", MAT, "matrix_power_accumulate", sig, args, [o], facts=facts))
        for n in (-1, -2, -6):
            args = {"A": Arg(bat + "ij", fA), "n": n}
            o = Out("powers", bat + "kij", lambda at, at_=at_: at_(at, P(0), i_) - at_(at, k_ + 1, j_), need=("A",), sizes={"k": P(-n)})
            c = Case(f"mat.matrix_power_accumulate:{bat or '-'},n={n}", MAT, "matrix_power_accumulate", sig, args, [o])
            c.coef_props = []
            out.append(c)
        o = Out("powers", bat + "kij", lambda at, at_=at_: at_(at, P(0), i_) - at_(at, P(0), j_), sizes={"k": P(1)})
        out.append(Case(f"mat.matrix_power_accumulate:{bat or '-'},n=0", MAT, "matrix_power_accumulate", sig, {"A": Arg(bat + "ij", fA), "n": 0}, [o]))
        # P[m] = A[0] A[1] ... A[m]: A[m] maps coordinates of m + 1 to those of m
        fB = lambda at, at_=at_: at_(at, k_, i_) - at_(at, k_ + 1, j_)
        for n in (1, 2, 3, 4, 6, 8, 12, "sym"):
            size, facts = (n_, [("ge", n_ - 2, "n2")]) if n == "sym" else (P(n), [])
            args = {"A": Arg(bat + "kij", fB, sizes={"k": size})}
            o = Out("products", bat + "kij", lambda at, at_=at_: at_(at, P(0), i_) - at_(at, k_ + 1, j_), need=("A",), sizes={"k": size})
            out.append(Case(f"mat.matrices_cumdot:{bat or '-'},n={n}", MAT, "matrices_cumdot", sig, args, [o], facts=facts))
    for c in out:
        c.extra_props = {"grade": grade}
    return out


def companions():
    out = []
    for bat in ("", "b"):
        sig = {"V": bat + "t"}
        v = (lambda at, t: at("V", b=b_, t=t)) if bat else (lambda at, t: at("V", t=t))
        a = Arg(bat + "k", lambda at, v=v: v(at, t_) - v(at, t_ - 1 - k_), coef=-1, sizes={"k": "K"})
        o = Out("companion", bat + "ij", lambda at, v=v: v(at, t_ - i_) - v(at, t_ - 1 - j_), need=("a",), sizes={"i": "K", "j": "K"})
        out.append(Case(f"mat.companion:{bat or '-'}", MAT, "companion", sig, {"a": a}, [o], facts=[("ge", sz("K") - 1, "k1")]))
        # pole j to the power M-1-i; every pole has the same scale
        p = Arg(bat + "j", lambda at, v=v: v(at, t_ + 1) - v(at, t_))
        o = Out("powers", bat + "ij", lambda at, v=v: v(at, t_ + M - 1 - i_) - v(at, t_), need=("poles",))
        out.append(Case(f"mat.vandermonde:{bat or '-'}", MAT, "vandermonde", sig, {"poles": p}, [o], facts=[("ge", M - 1, "m1")]))
        out[-1].no_effect = 1 - M
    return out


def divisions():
    """u = q v + r; coefficient k of a polynomial scales with r^k."""
    out = []
    for ub, vb in (("", ""), ("b", "b"), ("b", "")):
        q = (lambda at, t: at("Q", b=b_, t=t)) if ub else (lambda at, t: at("Q", t=t))
        # the time gauge of the divisor is the one of the dividend, its amplitude is its own
        g = (lambda at: at("G", b=b_)) if vb else (lambda at: at("G"))
        v_ = lambda at, q=q, g=g: q(at, t_ + k_) - q(at, t_) + g(at)
        for d in (-2, -1, 0, 1, 2, 3):
            Kv = sz("K")
            facts = [("ge", Kv - 1, "k1")] + ([("ge", Kv + d - 1, "k2")] if d < 0 else [])
            u = Arg(ub + "k", lambda at, q=q: q(at, k_), sizes={"k": Kv + d})
            v = Arg(vb + "k", v_, sizes={"k": Kv})
            nq = max(d + 1, 0)
            need = ("u", "v") if nq else ()
            outs = [Out("quotient", ub + "k", lambda at, q=q, g=g: q(at, k_) - g(at), need=need, sizes={"k": P(nq)}),
                    Out("remainder", ub + "k", lambda at, q=q, nq=nq: q(at, k_ + nq), need=need or ("u",), sizes={"k": Kv + d - nq})]
            c = Case(f"poly.polydiv:u={ub or '-'},v={vb or '-'},d={d}", "philtorch.poly", "polydiv", {"Q": ub + "t", "G": vb}, {"u": u, "v": v}, outs, facts=facts)
            c.coef_props = []
            c.extra_props = {"grade": ["C08", "C10"], "dep": ["C10"]}
            out.append(c)
    return out


def splines(wname="ext"):
    """Mirrored boundaries: only the amplitude and the batch item survive."""
    mod = "philtorch.lti.interp"
    out = []
    sig = {"U": "b"}
    u = lambda at: at("U", b=b_)
    for sp in (False, True):
        for m in (1, 2, 3, 5):
            args = {"x": Arg("bt", u, signal=True), "m": m, "=scipy_padding": sp}
            y = Out("y", "bt", u, need=("x",), sizes={"t": (N - 1) * m + 1})
            out.append(Case(f"lti.cubic_spline:m={m},scipy={sp}@{wname}", mod, "cubic_spline", sig, args, [y], wname=wname, cplx=False, facts=[("ge", N - 4, "n4")]))
        for par in (True, False):
            args = {"x": Arg("bt", u, signal=True), "=parallel_form": par, "=scipy_padding": sp}
            y = Out("c", "bt", u, need=("x",))
            out.append(Case(f"lti.cspline:parallel={par},scipy={sp}@{wname}", mod, "cspline", sig, args, [y], wname=wname, cplx=False, facts=[("ge", N - 2, "n2")]))
    for c in out:
        c.coef_props = []
    return out


def eigenvectors():
    out = []
    for bat in ("", "b"):
        sig = {"S": bat + "t"}
        s = (lambda at, t: at("S", b=b_, t=t)) if bat else (lambda at, t: at("S", t=t))
        lam = lambda at, s=s: s(at, t_ + 1) - s(at, t_)
        args = {"A": Arg(bat + "ij", lam), "eigenvalues": Arg(bat + "j", lam)}
        c = Case(f"mat.find_eigenvectors:{bat or '-'}", MAT, "find_eigenvectors", sig, args,
                 [Out("V", bat + "ij", lambda at: P(0), need=("A", "eigenvalues"), coef=None)], facts=[("ge", M - 2, "m2")])
        c.coef_props = []
        c.any_polarity = {"A", "eigenvalues"}
        out.append(c)
    return out
