"""Which cases each property is decided on."""
from . import specs as S
from . import specs2 as S2
from . import specs3 as S3, specs4 as S4

ALLP = ("C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C15", "C16", "C17")


def groups():
    """Lazily built case families: name -> (builder, properties, thorough only)."""
    g = {}

    def add(name, fn, props, thorough=False):
        g[name] = (fn, frozenset(props), thorough)
    for tv in (False, True):
        n = "lpv" if tv else "lti"
        add(n + ".dispatch", lambda tv=tv: S.state_space_dispatch(tv), ALLP)
        add(n + ".recursions", lambda tv=tv: S.recursions(tv), ALLP + ("C03",))
        add(n + ".scalar", lambda tv=tv: S.scalar_recursions(tv), set(ALLP) - {"C09"} | {"C03"})
        for wn in ("py", "cuda", "hl", "hlcpu", "pycuda", "exthl"):
            add(f"{n}.dispatch@{wn}", lambda tv=tv, wn=wn: S.world_state_space(tv, wn), ("C14",))
    add("lti.fir", S.lti_filters, set(ALLP) - {"C09"})
    add("lti.lfilter", S.lti_lfilters, set(ALLP) - {"C09"})
    add("lpv.filters", lambda: S.lpv_filters("ext"), set(ALLP) - {"C09"})
    add("lpv.lfilter.ssm", lambda: S.lpv_lfilters("ssm", "ext"), set(ALLP) - {"C09"})
    add("lpv.lfilter.torchlpc", lambda: S.lpv_lfilters("torchlpc", "ext"), set(ALLP) - {"C09"})
    add("comb", lambda: S.comb_filters("ext"), set(ALLP) - {"C09"})
    add("lti.lfiltic", S.lfiltics, set(ALLP) - {"C09"})
    add("lti.lfilter_zi", S.lfilter_zis, set(ALLP) - {"C09"})
    add("lti.filtfilt", S.filtfilts, set(ALLP) - {"C09"})
    add("lti.diag", lambda: S.diag_models("ext"), ALLP)
    for wn in ("py", "cuda", "hl", "pycuda"):
        add(f"lti.diag@{wn}", lambda wn=wn: S.world_diag(wn), ("C14",))
    add("lti.lfilter.diag", lambda: S.diag_lfilters("ext"), set(ALLP) - {"C09"})
    add("gradients", S.gradients, set(ALLP) | {"C11"})
    nb = set(ALLP) - {"C09"}
    add("mat.sequences", S2.accumulations, ALLP + ("C03",))
    add("mat.companion", S2.companions, nb)
    add("mat.eigenvectors", S2.eigenvectors, nb)
    add("poly.polydiv", S2.divisions, nb)
    add("lti.splines", lambda: S2.splines("ext"), nb)
    for wn in ("py", "hlcpu"):
        add(f"lti.splines@{wn}", lambda wn=wn: S2.splines(wn), ("C14",))
    for wn in ("ext", "py", "hl", "cuda", "pycuda"):
        add(f"rejections@{wn}", lambda wn=wn: S3.rejections(wn), ("C17",), thorough=wn not in ("ext", "py"))
    for tv in (False, True):
        add(("lpv" if tv else "lti") + ".short", lambda tv=tv: S3.short_signals(tv), {"C13"})
    add("prototype.poly", S4.polynomials, nb)
    add("prototype.newton", S4.newton, ALLP)
    for wn in ("py", "hl", "hlcpu", "pycuda"):
        add(f"prototype.newton@{wn}", lambda wn=wn: S4.newton(wn), ("C14",))
    add("options", S3.contrasts, ("C17",))
    for wn in ("py", "cuda", "hl", "hlcpu", "pycuda", "exthl"):
        add(f"worlds@{wn}", lambda wn=wn: S.world_state_space(False, wn) + S.world_state_space(True, wn), ALLP, thorough=True)
    return g


def cases(prop, tier):
    out = []
    for name, (fn, props, thorough) in groups().items():
        if prop in props and (tier == "thorough" or not thorough):
            for c in fn():
                c.family = name
                out.append(c)
    return out


# modules that must exist, with the public names the specification talks about
ANCHORS = {
    "philtorch/__init__.py": [],
    "philtorch/lti/filtering.py": [],
    "philtorch/lti/ssm.py": [],
    "philtorch/lti/recur.py": [],
    "philtorch/lpv/filtering.py": [],
    "philtorch/lpv/ssm.py": [],
    "philtorch/lpv/recur.py": [],
}
