"""Decides C01, C02, C03 and C05 on the native operators registered under csrc."""
import os
import signal
import time
from multiprocessing import get_context

from . import helion as H
from . import kernels as K
from .cppbase import Tensor
from .recur import recurrence

RANKS = [(a, z, x) for a in range(6) for z in range(4) for x in range(5)]
_REG = None


SECONDS = 400


class Expired(Exception):
    pass


def expire(*_):
    raise Expired("time limit")


def _one(job):
    op, dev, n = job
    fn, unit, path, _ = _REG.impls[(op, dev)][n]
    st = dict(accesses=0, proved=0, pairs=0, undetermined=[], ok=0, combos=0, accepted=0, rejected=0, parallel=0, stores=0, funcs=set())
    found = {}
    shapes = []
    t0 = time.time()
    for ranks in RANKS:
        c = K.Case(op, dev, fn, unit, path, ranks)

        def rep(prop, rule, msg, line, file, func, c=c):
            k = (prop, rule, os.path.basename(file or "?"), func, line, msg if rule not in ("bounds", "race") else "")
            if k not in found:
                found[k] = dict(prop=prop, rule=rule, msg=msg, line=line, file=file, func=func, case=c.id)
        st["combos"] += 1
        if time.time() - t0 > SECONDS:
            st["undetermined"].append(f"{c.id}: time limit")
            continue
        try:
            signal.signal(signal.SIGALRM, expire)
            signal.setitimer(signal.ITIMER_REAL, 60, 5)
            try:
                paths, und, it = K.run_case(c, rep)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Exception as e:      # an analysis failure is never a verdict
            st["undetermined"].append(f"{c.id}: {type(e).__name__}: {e}"[:200])
            continue
        st["undetermined"] += [f"{c.id}: {u}" for u in und]
        if paths:
            st["accepted"] += 1
        else:
            st["rejected"] += 1
        for q in getattr(it, "partial", ()):
            try:
                K.bounds(q, c, rep, st)
            except Exception as e:
                st["undetermined"].append(f"{c.id}: bounds: {type(e).__name__}: {e}"[:200])
        for q in getattr(it, "bare", ()):
            for name, f in (("bounds", K.bounds), ("races", K.races), ("effects", effects)):
                try:
                    f(q, c, rep, st)
                except Exception as e:
                    st["undetermined"].append(f"{c.id}: {name}: {type(e).__name__}: {e}"[:200])
        for q in paths:
            st["funcs"] |= {f"{os.path.basename(a.file or '?')}:{a.func}" for a in q.log}
            for name, f in (("bounds", K.bounds), ("races", K.races), ("recurrence", recurrence), ("effects", effects)):
                try:
                    f(q, c, rep, st)
                except Exception as e:
                    st["undetermined"].append(f"{c.id}: {name}: {type(e).__name__}: {e}"[:200])
    st["funcs"] = sorted(st["funcs"])
    st["seconds"] = round(time.time() - t0, 2)
    return job, st, list(found.values())


def effects(q, c, rep, st):
    """No store into memory that may belong to the caller."""
    for a in q.log:
        if a.kind == "R":
            continue
        st["stores"] += 1
        if a.st.arg:
            rep("C05", "mutate", f"stores to memory of the caller's argument {a.st.arg}", a.line, a.file, a.func)
    if isinstance(q.ret, Tensor) and q.ret.arg and getattr(q.ret, "store", None) is None:
        rep("C05", "alias", f"returns memory of the caller's argument {q.ret.arg}", *q.where)


def analyse(repo, jobs=8):
    """registry, statistics per (op, device), findings"""
    global _REG
    reg = _REG = K.Registry(repo)
    work = [(op, dev, n) for (op, dev), im in sorted(reg.impls.items(), key=str) for n in range(len(im))]
    if not work:
        return reg, {}, []
    stats, found = {}, []
    with get_context("fork").Pool(min(jobs, len(work))) as p:
        for job, st, fs in p.imap_unordered(_one, work, chunksize=1):
            stats["/".join(map(str, job[:2])) + ("" if job[2] == 0 else f"#{job[2]}")] = st
            found += fs
    try:
        hs, hf = H.check(repo)
    except SyntaxError as e:
        reg.failed.append(("_helion.py", str(e)))
        hs, hf = {}, []
    for name, st in hs.items():
        stats[f"helion/{name}"] = dict(dict(combos=1, accepted=1, rejected=0, parallel=0, funcs=[f"_helion.py:{name}"]), **st)
    found += hf
    return reg, dict(sorted(stats.items())), found


RULE = {
    "C01": "every element offset of every kernel lies in [0, extent) of its block under the guards that dominate it, and is computed in 64 bits",
    "C02": "for every parallel loop, the elements stored by two different iterations are disjoint, and no iteration reads what another stores",
    "C03": "each kernel's stores, read as equations over the arguments, are h[b,t,i] = x[b,t,i] + sum_j A[b,t,i,j] h[b,t-1,j] with h[b,-1] = z[b], cover every element once and run in time order",
    "C05": "no kernel stores into memory that may belong to an argument, or returns it",
}


def extra(prop):
    def run(res, prop_, tier, repo):
        from .driver import Missing
        reg, stats, found = analyse(repo)
        if (not reg.impls or not reg.defs) and not reg.failed:
            raise Missing("philtorch/csrc: no operator registration found")
        res.undetermined += [f"{p}: not parsed: {e}" for p, e in reg.failed]
        cov = res.coverage
        for f in found:
            if f["prop"] != prop:
                continue
            add(res, prop, f["rule"], f["file"], f["line"], f["func"], f["msg"], f["case"], repo)
        und = [u for s in stats.values() for u in s["undetermined"]]
        keep = dict(operators=len(stats), rank_combinations=sum(s["combos"] for s in stats.values()),
                    accepted_combinations=sum(s["accepted"] for s in stats.values()),
                    rejected_combinations=sum(s["rejected"] for s in stats.values()),
                    kernel_functions=sorted({f for s in stats.values() for f in s["funcs"]}))
        acc, pairs = sum(s["accesses"] for s in stats.values()), sum(s["pairs"] for s in stats.values())
        ok, stores = sum(s["ok"] for s in stats.values()), sum(s["stores"] for s in stats.values())
        if prop == "C01":
            keep["accesses_bounded"] = acc
        if prop == "C02":
            keep["access_pairs_of_parallel_iterations"] = pairs
        if prop == "C03":
            keep["recurrences_proved"] = ok
        if prop == "C05":
            keep["stores_examined"] = stores
        keep["undetermined"] = und[:40]
        keep["rule"] = RULE[prop]
        cov["native"] = keep
        cov.setdefault("rule", RULE[prop])
        cov.setdefault("explanation",
                       "Symbolic evaluation of the C++ and CUDA sources from every registered operator entry point, for every combination of "
                       "argument ranks, with all sizes symbolic: loops are summarised by their induction variables, every element access becomes a "
                       "polynomial offset into a block of polynomial extent, and the obligations are discharged by polynomial reasoning over the "
                       "guards (TORCH_CHECK, branches, loop ranges). Nothing is compiled or executed.")
        res.undetermined += und
        res.summary += f"{'; ' if res.summary else ''}native: {len(stats)} kernels, {keep['accepted_combinations']} accepted rank combinations, " + {
            "C01": f"{acc} accesses", "C02": f"{pairs} access pairs", "C03": f"{ok} recurrences proved", "C05": f"{stores} stores"}[prop] + \
            f", {len(und)} undetermined"
        res.assumptions += ["ATen calls used by the kernels behave as modelled in sa/cppaten.py; thrust::inclusive_scan_by_key combines each run of equal keys in an unspecified association order."]
    return run


def add(res, prop, rule, file, line, func, msg, case, repo):
    from .driver import relkey
    file = relkey(file or "?", repo)
    res.findings.append(dict(props=[prop], file=file, line=line, func=func, rule=rule, message=msg, msg=msg,
                             key=f"{rule}|{file}|{func}|{strip(msg)}", chain=[f"{file}:{line} in {func}"], case_id=case, case=case, also=[]))


def strip(m):
    return m.split(" (")[0]
