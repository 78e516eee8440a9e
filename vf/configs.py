"""Analysis entry scenarios: every public separation class under every algorithm/option row.

A scenario constructs the class with symbolic inputs in the abstract interpreter and
calls it, once or twice.  Nothing of ssspy is imported: see interp.py.
"""
from __future__ import annotations

import sys

from .interp import Interp, Frame, Raised, Budget
from .values import *  # noqa
from .values import State

sys.setrecursionlimit(50000)

B = "ssspy.bss."


# ---------------------------------------------------------------- user callables
def _shape_of(interp, st, args, i=0):
    n = interp.node(args[i], st) if len(args) > i else None
    return None if n is None else n.shape


def same_shape(interp, st, args, kw, nodes):
    return nodes[0].shape if nodes else None


def drop_axis1(interp, st, args, kw, nodes):
    s = nodes[0].shape if nodes else None
    if s is None:
        return None
    if len(s) == 3:
        return (s[0], s[2])
    return s


def scalar(interp, st, args, kw, nodes):
    return ()


def real_same(interp, st, args, kw, nodes):
    return nodes[0].shape if nodes else None


def no_value(interp, st, args, kw, nodes):
    return NONE


def ufn(name, contract, dt):
    """user callable; `dt`: 'f' (real), 'c', or 'arg' (dtype of its first argument)"""
    f = UserFn(name, contract)
    USER_DT[name] = dt
    return f


USER_DT = {}

CONTRAST_TF = lambda: ufn("contrast_fn", drop_axis1, "f")          # (n,i,j) -> (n,j)
CONTRAST_EW = lambda: ufn("contrast_fn", same_shape, "f")
SCORE = lambda: ufn("score_fn", same_shape, "arg")
DCONTRAST = lambda: ufn("d_contrast_fn", same_shape, "f")
DDCONTRAST = lambda: ufn("dd_contrast_fn", same_shape, "f")
DSCORE = lambda: ufn("d_score_fn", same_shape, "f")
PENALTY = lambda: ufn("penalty_fn", scalar, "f")
PROX = lambda: ufn("prox_penalty", same_shape, "arg")
MASK = lambda: ufn("mask_fn", same_shape, "f")
CALLBACK = lambda: ufn("callback", no_value, "f")


class Scenario:
    def __init__(self, cls, tag, kwargs, domain="tf", calls=None, blocks=None):
        self.cls = cls
        self.tag = tag
        self.kwargs = kwargs      # name -> factory(interp, st) | V
        self.domain = domain      # 't' (channels, samples) real; 'tf' (channels, bins, frames) complex
        self.calls = calls or [{}]
        self.blocks = blocks

    @property
    def name(self):
        return "%s[%s]" % (self.cls.rsplit(".", 1)[1], self.tag)


def D(name):
    return lambda I, st: Num(I.g.sym(name))


def nblocks(I, st):
    """number of blocks: B, or Q + R when R blocks are one bin longer"""
    g = I.g
    return Num(g.padd(g.sym("Q"), g.sym("R")) if I.blocks == "ragged" else g.sym("B"))


def bins(I):
    g = I.g
    if I.blocks == "ragged":
        return g.padd(g.pmul(g.padd(g.sym("Q"), g.sym("R")), g.sym("L")), g.sym("R"))
    if I.blocks == "even":
        return g.pmul(g.sym("B"), g.sym("L"))
    return g.sym("F")


def atom(name):
    """symbolic real hyper-parameter"""
    def f(I, st):
        n = I.g.mk("atom", (), name, ())
        n.meta = {"dt": "f"}
        return Num(n)
    return f


def rng_given(I, st):
    return RngObj("caller")


SPATIAL_AUX = ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]

# class -> (module, required kwargs, dimension, option axes)
def table():
    t = {}

    def add(mod, name, req, dom="tf", **axes):
        t[name] = (B + mod + "." + name, req, dom, axes)

    for n in ("GradICA", "NaturalGradICA"):
        add("ica", n, dict(contrast_fn=CONTRAST_EW, score_fn=SCORE), "t", is_holonomic=[False, True])
    add("ica", "FastICA", dict(contrast_fn=CONTRAST_EW, score_fn=SCORE, d_score_fn=DSCORE), "t")
    for n in ("GradLaplaceICA", "NaturalGradLaplaceICA"):
        add("ica", n, {}, "t", is_holonomic=[False, True])
    for n in ("GradFDICA", "NaturalGradFDICA"):
        add("fdica", n, dict(contrast_fn=CONTRAST_EW, score_fn=SCORE), is_holonomic=[False, True],
            permutation_alignment=[True, False], scale_restoration=[True, False, "minimal_distortion_principle"])
    add("fdica", "AuxFDICA", dict(contrast_fn=CONTRAST_EW, d_contrast_fn=DCONTRAST),
        spatial_algorithm=["IP", "IP1", "IP2"], permutation_alignment=[True, False],
        scale_restoration=[True, False, "minimal_distortion_principle"])
    for n in ("GradLaplaceFDICA", "NaturalGradLaplaceFDICA"):
        add("fdica", n, {}, is_holonomic=[False, True], permutation_alignment=[True, False],
            scale_restoration=[True, False, "minimal_distortion_principle"])
    add("fdica", "AuxLaplaceFDICA", {}, spatial_algorithm=["IP", "IP1", "IP2"], permutation_alignment=[True, False],
        scale_restoration=[True, False, "minimal_distortion_principle"])
    for n in ("GradIVA", "NaturalGradIVA"):
        add("iva", n, dict(contrast_fn=CONTRAST_TF, score_fn=SCORE), is_holonomic=[True, False],
            scale_restoration=[True, False, "minimal_distortion_principle"])
    for n in ("GradLaplaceIVA", "NaturalGradLaplaceIVA", "GradGaussIVA", "NaturalGradGaussIVA"):
        add("iva", n, {}, is_holonomic=[True, False], scale_restoration=[True, False, "minimal_distortion_principle"])
    add("iva", "FastIVA", dict(contrast_fn=CONTRAST_TF, d_contrast_fn=DCONTRAST, dd_contrast_fn=DDCONTRAST),
        scale_restoration=[True, False, "minimal_distortion_principle"])
    add("iva", "FasterIVA", dict(contrast_fn=CONTRAST_TF, d_contrast_fn=DCONTRAST),
        scale_restoration=[True, False, "minimal_distortion_principle"])
    add("iva", "AuxIVA", dict(contrast_fn=CONTRAST_TF, d_contrast_fn=DCONTRAST), spatial_algorithm=SPATIAL_AUX,
        scale_restoration=[True, False, "minimal_distortion_principle"])
    for n in ("AuxLaplaceIVA", "AuxGaussIVA"):
        add("iva", n, {}, spatial_algorithm=SPATIAL_AUX,
            scale_restoration=[True, False, "minimal_distortion_principle"])
    add("iva", "PDSIVA", dict(contrast_fn=CONTRAST_TF, prox_penalty=PROX),
        scale_restoration=[True, False, "minimal_distortion_principle"])
    add("iva", "ADMMIVA", dict(contrast_fn=CONTRAST_TF, prox_penalty=PROX),
        scale_restoration=[True, False, "minimal_distortion_principle"])
    for n in ("PDSBSS", "ADMMBSS"):
        add(n.lower(), n, dict(penalty_fn=PENALTY, prox_penalty=PROX),
            scale_restoration=[True, False, "minimal_distortion_principle"])
    add("pdsbss", "MaskingPDSBSS", dict(mask_fn=MASK), scale_restoration=[True, False, "minimal_distortion_principle"])
    add("admmbss", "MaskingADMMBSS", dict(mask_fn=MASK), scale_restoration=[True, False, "minimal_distortion_principle"])
    for n in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA"):
        add("hva", n, {}, scale_restoration=[True, False, "minimal_distortion_principle"])
    il = dict(source_algorithm=["MM", "ME"], partitioning=[False, True],
              normalization=[True, "projection_back", False],
              scale_restoration=[True, False, "minimal_distortion_principle"])
    add("ilrma", "GaussILRMA", dict(n_basis=D("K")),
        spatial_algorithm=["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"], **il)
    add("ilrma", "TILRMA", dict(n_basis=D("K"), dof=atom("dof")),
        spatial_algorithm=["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"], **il)
    il2 = dict(il)
    il2["source_algorithm"] = ["MM"]
    add("ilrma", "GGDILRMA", dict(n_basis=D("K"), beta=atom("beta")),
        spatial_algorithm=["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"], **il2)
    add("ipsdta", "GaussIPSDTA", dict(n_basis=D("K"), n_blocks=nblocks), source_algorithm=["MM"],
        spatial_algorithm=["VCD"], blocks=["even", "ragged"], source_normalization=[True, False],
        scale_restoration=[True, False, "minimal_distortion_principle"])
    add("ipsdta", "TIPSDTA", dict(n_basis=D("K"), n_blocks=nblocks, dof=atom("dof")), source_algorithm=["MM"],
        spatial_algorithm=["VCD"], blocks=["even", "ragged"], source_normalization=[True, False],
        scale_restoration=[True, False, "minimal_distortion_principle"])
    add("mnmf", "GaussMNMF", dict(n_basis=D("K"), n_sources=D("N")), partitioning=[False, True],
        normalization=[True, False])
    add("mnmf", "FastGaussMNMF", dict(n_basis=D("K"), n_sources=D("N")), diagonalizer_algorithm=["IP", "IP1", "IP2"],
        normalization=[True, False])
    add("cacgmm", "CACGMM", dict(n_sources=D("N")), permutation_alignment=[True, False, "posterior_score"],
        normalization=[True, False])
    return t


def cv(v):
    return Const(v)


def rows(cls, axes=None):
    """default row, then each option axis varied alone, then the product of the algorithm axes"""
    path, req, dom, ax = table()[cls]
    seen = []
    base = {k: v[0] for k, v in ax.items()}
    out = [dict(base)]
    for k, vs in ax.items():
        for v in vs[1:]:
            r = dict(base)
            r[k] = v
            out.append(r)
    alg = [k for k in ax if k in ("spatial_algorithm", "source_algorithm", "partitioning", "diagonalizer_algorithm")]
    prod = [dict(base)]
    for k in alg:
        prod = [dict(r, **{k: v}) for r in prod for v in ax[k]]
    for r in out + prod:
        if r not in seen:
            seen.append(r)
    return seen


class Run:
    pass


def scenario(cls, row, extra=None, calls=None, tag=None):
    path, req, dom, ax = table()[cls]
    kw = {}
    for k, v in req.items():
        kw[k] = v
    row = dict(row)
    blocks = row.pop("blocks", None)
    for k, v in row.items():
        kw[k] = v if isinstance(v, V) or callable(v) else Const(v)
    for k, v in (extra or {}).items():
        kw[k] = v
    t = ",".join("%s=%s" % (k, v) for k, v in sorted(row.items()))
    if tag:
        t += ("," if t else "") + tag
    if blocks:
        t += ",blocks=" + blocks
    return Scenario(path, t, kw, dom, calls, blocks)


def resolve_kw(kw, I, st):
    out = {}
    for k, v in kw.items():
        if not isinstance(v, V):
            try:
                v = v(I, st)
            except TypeError:
                v = v()
        out[k] = v
    return out


def entry_frame(I, st, mod):
    env = I.new_env(st)
    I.frames.append(Frame(env, mod, "<entry>", None, None))
    return env


def run(project, sc, budget=6_000_000, before_call=None):
    """Interpret a scenario.  Returns a Run with one record per call."""
    I = Interp(project, budget)
    st = State()
    g = I.g
    R = Run()
    I.blocks = sc.blocks
    R.sc, R.I, R.g = sc, I, g
    R.error = None
    R.calls = []
    ci = project.get_class(sc.cls)
    if ci is None:
        R.error = ("missing", sc.cls)
        return R
    R.ci = ci
    entry_frame(I, st, ci.mod)
    R.st = st
    try:
        kw = resolve_kw(sc.kwargs, I, st)
        R.ctor_kw = kw
        R.obj = I.construct(ci, [], dict(kw), st)
        R.ctor_events = list(st.events)
        R.ctor_attrs = dict(st.objs[R.obj.id])
        for k, call in enumerate(sc.calls):
            c = Run()
            shp = ("C", "T") if sc.domain == "t" else ("C", "F", "T")
            sfx = "" if not call.get("__input__") else call["__input__"]
            dims = tuple(bins(I) if s == "F" else g.sym(s) for s in shp)
            X = I.input_array(st, "X" + sfx, dims, "f" if sc.domain == "t" else "c")
            c.X = I.node(X, st)
            c.Xbuf = X.buf
            n_iter = Num(g.sym("n_iter"))
            ckw = resolve_kw({a: b for a, b in call.items() if not a.startswith("__")}, I, st)
            ckw.setdefault("n_iter", n_iter)
            c.kw = ckw
            c.kwnodes = {a: I.node(b, st) for a, b in ckw.items()}
            if before_call:
                before_call(R, c, st, k)
            st.events = []
            c.attrs_before = dict(st.objs[R.obj.id])
            c.ret = I.call(R.obj, [X], ckw, st)
            c.retnode = I.node(c.ret, st)
            c.events = list(st.events)
            c.attrs = dict(st.objs[R.obj.id])
            c.attrnodes = {a: (None if isinstance(v, (Fn, UserFn, Partial, Cls)) else I.node(v, st))
                           for a, v in c.attrs.items()}
            c.Xafter = st.bufs[c.Xbuf]
            R.calls.append(c)
    except Raised as r:
        R.error = ("raised", r.exc, r.msg, r.loc, r.explicit)
    except Budget:
        R.error = ("budget",)
    R.events = st.events
    return R
