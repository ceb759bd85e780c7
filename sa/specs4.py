"""Specifications of the prototype modules: polynomial arithmetic and the Newton solver."""
from . import interp as I
from .poly import P
from .run import tin
from .specs import Arg, Callback, Case, M, N, Out, b_, g_A, g_h, g_zi, k_, sz, t_

PP = "philtorch.prototype.poly"
Q = lambda at, t: at("Q", t=t)
G = lambda at: at("G")


def polynomials():
    """Coefficient k (highest power first) scales with r^k, the variable with r."""
    out = []
    K = sz("K")

    def add(id, fn, args, outs, facts=(), grade=("C08", "C10"), **kw):
        c = Case(f"prototype.{fn}:{id}", PP, fn, {"Q": "t", "G": ""}, args, outs, facts=list(facts))
        c.coef_props = []
        c.extra_props = {"grade": list(grade), "dep": ["C10"]}
        c.value_branches_ok = True
        for k, v in kw.items():
            setattr(c, k, v)
        out.append(c)

    for fn in ("polyadd", "polysub"):
        for d in (-2, -1, 0, 1, 2):
            u = Arg("k", lambda at, d=d: Q(at, k_ + max(-d, 0)), sizes={"k": K + d})
            v = Arg("k", lambda at, d=d: Q(at, k_ + max(d, 0)), sizes={"k": K}, coef=-1 if fn == "polysub" else 1)
            o = Out("result", "k", lambda at: Q(at, k_), need=("a1", "a2"), sizes={"k": K + max(d, 0)})
            add(f"d={d}", fn, {"a1": u, "a2": v}, [o], [("ge", K + min(d, 0) - 1, "k1")])
    for d in (-2, -1, 0, 1, 2):
        u = Arg("k", lambda at: Q(at, k_), sizes={"k": K + d})
        v = Arg("k", lambda at: Q(at, t_ + k_) - Q(at, t_) + G(at), sizes={"k": K})
        o = Out("product", "k", lambda at: Q(at, k_) + G(at), need=("a1", "a2"), sizes={"k": K + K + d - 1})
        add(f"d={d}", "polymul", {"a1": u, "a2": v}, [o], [("ge", K + min(d, 0) - 1, "k1")])
    for n in (1, 2, 3, 4):
        for xs in ("", "b"):
            p = Arg("k", lambda at: Q(at, k_), sizes={"k": P(n)})
            x = Arg(xs, lambda at: Q(at, t_ + 1) - Q(at, t_))
            o = Out("values", xs, lambda at, n=n: Q(at, P(n - 1)), need=("p",) + (("x",) if n > 1 else ()))
            add(f"K={n},x={xs or '-'}", "polyval", {"p": p, "x": x}, [o], no_effect=P(0) if n == 1 else None)
    for m in (0, 1, 2):
        for n in (1, 2, 3, 5, "sym"):
            size = K if n == "sym" else P(n)
            p = Arg("k", lambda at: Q(at, k_), sizes={"k": size})
            left = None if n == "sym" else max(n - m, 1)
            o = Out("derivative", "k", lambda at: Q(at, k_), need=("p",) if left is None or n > m else (), sizes={"k": size - m if left is None else P(left)})
            add(f"K={n},m={m}", "polyder", {"p": p, "m": m}, [o], [("ge", K - 4, "k4")] if n == "sym" else [], no_effect=P(0) if left is not None and n <= m else None)
    return out


def newton(wname="ext"):
    """Newton iterations for h[t+1] = f(h[t], x[t]), here with f(h, x) = A h + x
    and the Jacobian A: every quantity is aligned in time and in basis."""
    def mat(case, it):
        m = getattr(it, "newton_matrix", None)
        if m is None:
            a = Arg("ij", g_A)
            m = it.newton_matrix = tin(it, "A", a.shape(), case.grade(a))
        return m

    def func(case, it, h, x):
        call = it.tm.call_method
        y = it.tm.call_ref("torch.matmul", [mat(case, it), call(h, "unsqueeze", [-1], {})], {})
        return it.tm.call_ref("torch.add", [call(y, "squeeze", [-1], {}), x], {})

    def fprime(case, it, h, x):
        m = mat(case, it)
        return it.tm.call_method(m, "expand", [I.num(h.size(0)), I.num(h.size(1)), -1, -1], {})
    out = []
    for it_ in (1, 2, 3):
        for u in (1, 2):
            args = {"func": Callback(func, A=Arg("ij", g_A)), "x": Arg("bti", g_h), "y0": Arg("bti", g_h), "init": Arg("bi", g_zi),
                    "=max_iter": it_, "=fprime": Callback(fprime), "=unroll_factor": u}
            o = Out("states", "bti", g_h, need=("x", "y0", "init"))
            c = Case(f"prototype.newton_solve:n={it_},L={u}@{wname}", "philtorch.prototype.nl", "newton_solve", {"S": "bti"}, args, [o, None],
                     facts=[("ge", N - it_ - 3, "n")], wname=wname)
            c.value_branches_ok = True
            c.coef_props = []
            out.append(c)
    return out
