"""P08 silent frames.  P09 non-negativity."""
from __future__ import annotations

from .. import configs as C
from .. import gauge as G
from .. import signs as S
from ..framework import Check, locstr
from ..signs import Val
from ..values import *  # noqa
from .common import ALL, algo_rows, axes_of, run_all, shortfn, state_attrs
from .p_gauge import GENERIC, reach, roots, supplied


def u_nonneg(sg, n, T):
    return Val("N")


def u_score(sg, n, T):
    return Val("R", "Z" if T and T[0].sil == "Z" else "R")


USER = {"flooring_fn": lambda sg, n, T: Val("P"), "d_contrast_fn": u_nonneg, "dd_contrast_fn": lambda sg, n, T: Val("R"),
        "mask_fn": u_nonneg, "contrast_fn": lambda sg, n, T: Val("R"), "penalty_fn": lambda sg, n, T: Val("R")}
PARAMS = ("basis", "activation", "latent", "mixing")


def inputs(cls, row):
    d = {"X": Val("R", "Z")}
    for k, (dims, dt) in state_attrs(cls, row).items():
        d[k] = Val("P") if dt == "f" and k not in ("demix_filter",) else Val("R")
    if cls == "GaussMNMF":
        d["spatial"] = Val("R", "R", "pd")
    if cls == "CACGMM":
        d["covariance"] = Val("R", "R", "pd")
    if cls.endswith("IPSDTA"):
        d["basis"] = Val("R", "R", "pd")
    for k in ("dof", "beta", "domain", "step_size", "relaxation"):
        d[k] = Val("P")
    return d


def scenarios():
    out = []
    for cls in ALL:
        for row in algo_rows(cls):
            out.append(supplied(cls, row))
            if cls == "CACGMM":
                out[-1].sup = set()
            sc = C.scenario(cls, row, None, [{}], "initial")
            sc.short, sc.row, sc.sup = cls, row, set()
            out.append(sc)
    return out


def engine(R):
    ga = G.Gauge(R.g, {}, {})
    dims = {}

    def dim(d):
        if d.id not in dims:
            dims[d.id] = ga.dimname(d)
        return dims[d.id]

    sg = S.Signs(R.g, inputs(R.sc.short, R.sc.row), USER, dimname=dim)
    sg.values = dict(GENERIC)

    def topo(rs):
        order = sorted(reach(rs), key=lambda n: n.id)
        return ga.topo(order)

    return sg, topo


def p08():
    chk = Check("P08", "Sign analysis with a silent frame: with one frame of the mixture exactly zero, no division, negative power, logarithm, "
                "inverse or linear solve receives a value that the analysis shows to be exactly zero there.", "other", 100)
    for R in run_all(chk, scenarios()):
        sg, topo = engine(R)
        if not sg.run(roots(R), topo):
            chk.skip(R.sc.name, "no fixpoint")
        for (fn, loc, m), n in sg.issues.items():
            chk.fail("%s|%s|%s" % (R.sc.short, shortfn(fn or "?"), m), "%s (%s) %s [%s]" % (shortfn(fn or "?"), locstr(loc), m, R.sc.name))
        chk.ok(sg.checked)
    from .. import funcs as F
    # the permutation solvers judge every bin by itself: they also have to survive a bin (DC, say) without any energy
    for e in F.table():
        if ".permutation_alignment." not in e[0]:
            continue
        R = F.run(chk.project, e)
        if R.error is not None:
            chk.skip(R.name, str(R.error))
            continue
        chk.tried += 1
        for dim, what in (("T", "silent frame"), ("F", "silent bin")):
            ga = G.Gauge(R.g, {}, {})
            sg = S.Signs(R.g, {"Y": Val("N" if e[0].endswith("score_based_permutation_solver") else "R", "Z")}, USER, frame=dim,
                         dimname=ga.dimname)
            sg.run([R.retnode], lambda rs: ga.topo(sorted(reach(rs), key=lambda n: n.id)))
            for (fn, loc, m), n in sg.issues.items():
                m = m.replace("silent frame", what)
                chk.fail("%s|%s" % (shortfn(fn or "?"), m), "%s (%s) %s [%s]" % (shortfn(fn or "?"), locstr(loc), m, R.name))
            chk.ok(sg.checked)
    return chk


def positive(cls, row):
    """source model parameters that every update must leave strictly positive"""
    sa = state_attrs(cls, row)
    if cls.endswith(("ILRMA", "MNMF")):
        if row.get("partitioning") and row.get("normalization") and cls.endswith("ILRMA"):
            return ["activation"]       # the basis absorbs the latent variables, which are sums of non-negative numbers
        return ["basis", "activation"]
    if cls.endswith("GaussIVA"):
        return ["variance"]
    return []


def p09():
    chk = Check("P09", "Sign analysis: whatever the data, every basis, activation and variance at the end of an iteration is the outcome of "
                "flooring, up to products and quotients with strictly positive factors; a factor that is only known to be non-negative there "
                "has escaped flooring.", "other", 100)
    scs = []
    for cls in ALL:
        for row in algo_rows(cls):
            for r in [row] + ([dict(row, normalization=False)] if row.get("normalization") else []):
                if positive(cls, r):
                    scs.append(supplied(cls, r))
                    sc = C.scenario(cls, r, None, [{}], "initial")
                    sc.short, sc.row, sc.sup = cls, r, set()
                    scs.append(sc)
    for R in run_all(chk, scs):
        sg, topo = engine(R)
        if not sg.run(roots(R), topo):
            chk.skip(R.sc.name, "no fixpoint")
            continue
        c = R.calls[0]
        for a in positive(R.sc.short, R.sc.row):
            n = c.attrnodes.get(a)
            if n is None:
                continue
            v = sg.t(n)
            if v.gen == "R":
                chk.count("factors of unknown sign", 1)
                continue
            who = culprit(sg, n)
            chk.oblige(v.gen == "P", "%s|%s|%s" % (R.sc.short, a, shortfn(who.fn or "?")),
                       "%s of %s may become exactly zero: %s (%s) is not floored [%s]" % (a, R.sc.short, shortfn(who.fn or "?"), locstr(who.loc), R.sc.name))
    return chk


def culprit(sg, n):
    """the last arithmetic step that may deliver zero"""
    seen = set()
    while n.id not in seen:
        seen.add(n.id)
        if n.op not in ("loopphi", "phi", "cast", "copy", "expand", "transpose", "store"):
            return n
        nx = [a for a in n.args if sg.t(a).gen != "P" and a.id not in seen]
        if not nx:
            return n
        n = nx[-1]
    return n


CHECKS = {"P08": p08, "P09": p09}
