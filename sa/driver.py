"""Runs the analyses that decide one property and collects the evidence."""
import ast
import os
import signal
import time
from multiprocessing import get_context

from . import interp as I
from . import native, registry, suite
from .judge import Judge
from .torchmodel import registered

CASES = []
REPO = "/repo"


class Missing(Exception):
    """An anchor of the specification is gone from the source."""


class Result:
    def __init__(self):
        self.findings, self.coverage, self.assumptions = [], {}, []
        self.summary, self.undetermined = "", []


# seconds for one case, and for all of them
LIMITS = {"quick": (150, 720), "thorough": (900, 5400)}
END = LIMIT = None


def _expire(*_):
    I.EXPIRED = True
    raise I.Budget("time limit")


def _work(n):
    c = CASES[n]
    j = Judge(REPO, c)
    left = min(LIMIT, END - time.time())
    if left < 1:
        return dict(id=c.id, crash="no time left")
    I.EXPIRED = False
    signal.signal(signal.SIGALRM, _expire)
    signal.setitimer(signal.ITIMER_REAL, left, 1)
    try:
        try:
            j.run()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except I.Budget:
        j.undetermined.append("time limit")
    except Missing as e:
        return dict(missing=str(e))
    except RecursionError:
        return dict(id=c.id, crash="recursion")
    except Exception as e:      # an analysis failure is never a verdict
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return dict(id=c.id, crash=f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"[:300])
    return dict(id=c.id, stats=j.stats, findings=[dict(f.to_json(), key=f.key(), case_id=c.id) for f in j.findings.values()],
                und=j.undetermined, unk=[str(k) for k in j.unknown_ops], visited=sorted(j.visited), applied=sorted(map(str, j.applied)))


def run_cases(cs, jobs):
    global CASES
    CASES = cs
    with get_context("fork").Pool(min(jobs, max(1, len(cs)))) as p:
        yield from p.imap(_work, range(len(cs)), chunksize=1)


def relkey(s, repo):
    return s.replace(repo.rstrip("/") + "/", "")


def decide(prop, tier, repo, only, jobs):
    global REPO, END, LIMIT
    REPO = repo
    LIMIT, total = LIMITS.get(tier, LIMITS["quick"])
    END = time.time() + total
    res = Result()
    anchors(repo)
    cs = [c for c in suite.cases(prop, tier) if only in c.id]
    tot, fam, seen = {}, {}, {}
    if cs:
        registered(repo)        # before the worker processes start
    crashes, unk, visited, samples = [], {}, set(), []
    lost = 0
    for c, r in zip(cs, run_cases(cs, jobs)):
        if "missing" in r:
            raise Missing(r["missing"])
        f = fam.setdefault(c.family, dict(cases=0, paths=0, undetermined=0))
        f["cases"] += 1
        if "crash" in r:
            crashes.append(f"{r['id']}: {r['crash']}")
            f["undetermined"] += 1
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        f["paths"] += r["stats"]["paths"]
        hazy = bool(r["und"] or r["unk"] or r["stats"]["undetermined"] or r["stats"]["unknown"] or r["stats"]["budget"])
        f["undetermined"] += hazy
        lost += hazy and not r["und"]
        visited |= {tuple(v) for v in r["visited"]}
        for k in r["unk"]:
            unk[k] = unk.get(k, 0) + 1
        for u in r["und"]:
            res.undetermined.append(f"{r['id']}: {u}")
        if len(samples) < 6 and r["stats"]["returned"]:
            samples.append(dict(case=c.describe(), paths=r["stats"]["paths"], blocks_compared=r["stats"]["compared"]))
        for x in r["findings"]:
            if prop not in x["props"]:
                continue
            x["file"] = relkey(x["file"], repo)
            x["key"] = relkey(x["key"], repo)
            x["chain"] = [relkey(str(q), repo) for q in x["chain"]]
            if x["key"] in seen:
                seen[x["key"]]["also"].append(x["case_id"])
            else:
                x["also"] = []
                seen[x["key"]] = x
    res.findings += list(seen.values())
    for extra in EXTRA.get(prop, ()):
        extra(res, prop, tier, repo)
    und = len(res.undetermined) + len(crashes) + lost
    cov = res.coverage
    funcs = functions_of(visited, repo)
    if cs:
        cov["explanation"] = (
            "Abstract interpretation of the Python source from each public entry point: every tensor is represented by "
            "symbolic index expressions, sizes and homogeneity degrees, every size- or option-dependent branch of the source is "
            "followed on its own path, and the type of each result is compared with the type the model equations prescribe. "
            "Nothing of the repository is executed. "
            f"This run: {len(cs)} entry-point typings, {tot.get('paths', 0)} paths, {tot.get('compared', 0)} result regions compared.")
        cov.update(rule=RULES.get(prop, ""), typings=len(cs), paths=tot.get("paths", 0), returning_paths=tot.get("returned", 0),
                   rejected_paths=tot.get("rejected", 0), infeasible_or_ambiguous=tot.get("ambiguous", 0),
                   result_regions_compared=tot.get("compared", 0), families=fam,
                   functions_analysed=len(funcs), functions=funcs, statements_analysed=len(visited), samples=samples)
        cov["undetermined"] = dict(count=und, items=res.undetermined[:40], analysis_failures=crashes[:20], untracked_operations=unk)
        res.summary = (f"{len(cs)} typings, {tot.get('paths', 0)} paths, {tot.get('compared', 0)} regions, "
                       f"{len(funcs)} functions, {len(visited)} statements, {und} undetermined") + res.summary
        res.assumptions = ASSUME + res.assumptions
    res.undetermined += crashes
    return res


def functions_of(visited, repo):
    """Enclosing functions of the visited statements."""
    out = set()
    for f in {f for f, _ in visited}:
        try:
            tree = ast.parse(open(os.path.join(repo, f)).read())
        except OSError:
            continue
        spans = []

        def walk(n, q):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    if isinstance(ch, ast.FunctionDef):
                        spans.append((ch.body[0].lineno, ch.end_lineno, q + ch.name))
                    walk(ch, q + ch.name + ".")
                else:
                    walk(ch, q)
        walk(tree, "")
        lines = sorted(ln for g, ln in visited if g == f)
        out |= {relkey(f, repo) + ":" + q for a, b, q in spans if any(a <= ln <= b for ln in lines)}
    return sorted(out)


ASSUME = [
    "The models of torch operations (shape, broadcasting, linearity, storage sharing, autograd connection) in sa/torchmodel.py are right.",
    "Inputs of one call share one floating-point or complex dtype and one device.",
    "Paths the analysis cannot finish are listed as undetermined and raise no alarm.",
]

RULES = {
    "C05": "no store into a tensor reachable from an argument; no write to module-level state",
    "C06": "every term of a result has the same degree in (input, initial state); no constant offset, no value-dependent branch",
    "C07": "batch-index weights of all combined terms agree",
    "C08": "time-index weights of all combined terms agree",
    "C09": "state-, input-channel- and output-channel weights of all combined terms agree",
    "C10": "coefficient phases agree and no conjugate dependence reaches a result",
    "C11": "each gradient rule, run on what its own set-up code saved, has the typing of the adjoint (covector, conjugated, time-reversed) or the tangent",
    "C12": "number, shape and typing of the final state",
    "C13": "result shape equals the documented shape on every feasible size coincidence; no exception on documented input",
    "C15": "every dependence of a result on an argument stays inside the autograd graph",
    "C16": "no default-dtype or default-device tensor meets a caller's tensor; result kind equals input kind",
    "C17": "every argument influences the result; invalid options raise",
    "C03": "the typing of every recursion implementation is that of h[t] = A[t] h[t-1] + x[t]",
    "C14": "no path calls an operator of an absent back end, and results keep their typing",
}

EXTRA = {p: [native.extra(p)] for p in ("C01", "C02", "C03", "C05")}
EXTRA["C04"] = [registry.check]


def anchors(repo):
    for rel, names in suite.ANCHORS.items():
        p = os.path.join(repo, rel)
        if not os.path.exists(p):
            raise Missing(f"{rel} not found")
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError as e:
            raise Missing(f"{rel} does not parse: {e}")
        have = set()
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                have.add(n.name)
            elif isinstance(n, ast.Assign):
                have |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                have |= {(x.asname or x.name).split(".")[0] for x in n.names}
        for n in names:
            if n not in have:
                raise Missing(f"{rel}: {n} not found")
