"""Path exploration: replays an entry function once per set of decisions."""
import itertools
import time

from . import tensor as tz
from . import interp as I
from .poly import Poly, P, Facts
from .tensor import T, Block, AbsError, Unsupported, Storage
from .torchmodel import Infeasible

W = {}


def w(name):
    return Poly.atom("w:" + name)


class Path:
    def __init__(self, kind, value, it, err=None):
        self.kind = kind      # return | raise | unknown | budget
        self.value = value
        self.it = it
        self.err = err
        self.facts = it.facts

    def cond(self):
        f = self.facts
        parts = [f"{a}={p}" for a, p in sorted(f.sub.items())]
        parts += [f"{p}!=0" for p in f.ne]
        return ", ".join(parts)


def tin(it, name, shape, grade=None, coef=1, cplx=None, track=True, dtype="X", dev="X", perm=None):
    """A caller's tensor.  grade: function of the index atoms."""
    if cplx is None:
        cplx = bool(it.world.get("cplx"))
    it.tm.root_cplx[name] = cplx
    deps = frozenset([(name, "p", True)])

    def f(ix):
        return Block(grade=grade(*ix) if grade else Poly(), coef=coef, deps=deps)
    t = tz.mk(shape, f, cplx=cplx, dtype="CX" if dtype == "X" and cplx and it.world.get("mixed") else dtype, dev=dev)
    t.stor = frozenset([Storage(root=name)])
    t = it.ops.simp(t)
    return t


def explore(repo, world, setup, max_paths=400, max_steps=60000, facts=(), deadline=None):
    """setup(it) -> (callable value, args, kwargs).  Returns the list of paths."""
    todo = [(list(facts), {})]
    done = []
    n = 0
    while todo:
        learned, decisions = todo.pop()
        n += 1
        if n > max_paths or (deadline and time.time() > deadline):
            done.append(Path("budget", None, it))
            break
        it = I.Interp(repo, world, Facts(), decisions, learned, max_steps)
        if not feasible(it.facts):
            continue
        try:
            fn, args, kwargs = setup(it)
            it.stack = [(None, None)]
            it.counts = {}
            it.steps = 0
            v = it.call(fn, args, kwargs)
            done.append(Path("return", v, it))
        except I.Fork as f:
            for more, dec in f.alts:
                d = dict(decisions)
                d.update(dec)
                todo.append((learned + list(more), d))
        except AbsError as e:
            done.append(Path("raise", None, it, e))
        except Unsupported as e:
            done.append(Path("unknown", None, it, e))
        except Infeasible:
            pass
        except I.Budget as e:
            done.append(Path("budget", None, it, e))
            if I.EXPIRED:
                break
    return done


def feasible(F):
    for p in F.ne:
        if F.norm(p).is_zero():
            return False
    for a in list(F.sub):
        v = F.norm(Poly.atom(a))
        if v.is_const() and v.const_value() < F.low(a):
            return False
        if F.nonneg(F.low(a) - 1 - v):
            return False
        if v.is_const() and v.const_value().denominator != 1:
            return False
    for p in F.nn:
        q = F.norm(p)
        if q.is_const() and q.const_value() < 0:
            return False
        if F._nn0(-q - 1):
            return False
    return True


def summarise(paths):
    out = []
    for p in paths:
        ln = f"{p.kind:7s} [{p.cond()}] "
        if p.kind == "return":
            def sh(v):
                if isinstance(v, T):
                    return f"T{tuple(p.facts.norm(s) for s in v.shape())} taint={len(v.taint())} " + " ".join(
                        repr(b) for b in list(v.blocks.values())[:4])
                if isinstance(v, (tuple, list)):
                    return "(" + "; ".join(sh(x) for x in v) + ")"
                return repr(v)
            ln += sh(p.value)
        elif p.err is not None:
            ln += f"{type(p.err).__name__}: {p.err} {getattr(p.err, 'loc', '')}"
        if p.it.unknown_ops:
            ln += f"\n      unknown_ops={list(p.it.unknown_ops)[:6]}"
        if p.it.events:
            ln += "\n      events=" + "\n             ".join(map(repr, list(p.it.events.values())[:6]))
        out.append(ln)
    return "\n".join(out)
