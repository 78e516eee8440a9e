"""P06: option values select what they name.  P07: every constructor option takes effect."""
from __future__ import annotations

from .. import configs as C
from ..configs import ufn, same_shape
from ..framework import Check, sliced, locstr
from ..values import *  # noqa
from .common import ALL, algo_rows, default_row, axes_of, run_all, shortfn, fingerprint, depends, walk
from .p_protocol import one_callback


def fp(R):
    c = R.calls[0]
    ns = [c.retnode]
    for a in sorted(c.attrnodes):
        if a in ("input", "output", "loss") or c.attrnodes[a] is None or not isinstance(c.attrs[a], (Arr, Num)):
            continue
        if a in OPTS:
            continue
        ns.append(c.attrnodes[a])
    return fingerprint(ns)


OPTS = {"reference_id"}
# option -> groups of values that must behave identically (documented synonyms)
ALIASES = {
    "spatial_algorithm": [("IP", "IP1"), ("ISS", "ISS1")],
    "diagonalizer_algorithm": [("IP", "IP1")],
    "scale_restoration": [(True, "projection_back")],
    "permutation_alignment": [],
    "normalization": [],
}
PERM = {"CACGMM": (True, "posterior_score")}
UNKNOWN = ("spatial_algorithm", "source_algorithm", "diagonalizer_algorithm", "scale_restoration", "permutation_alignment",
           "normalization")


def aliases(cls, opt):
    g = list(ALIASES.get(opt, []))
    if opt == "permutation_alignment":
        g = [(True, "posterior_score")] if cls == "CACGMM" else [(True, "spectrogram_correlation")]
    if opt == "normalization" and (cls.endswith("ILRMA") or cls == "FastGaussMNMF"):
        g = [(True, "power")]
    return g


def canon(cls, row):
    r = dict(row)
    for o, v in row.items():
        for grp in aliases(cls, o):
            if any(type(v) is type(x) and v == x for x in grp):
                r[o] = grp[0]
    return r


def p06():
    chk = Check("P06", "Value-graph fingerprints across option rows: documented synonyms must give the same canonical value graph "
                "(returned estimate and model state), different settings must give different ones, and a value outside the "
                "documented set must reach an explicit raise.", "other", 400)
    scs = []
    for cls in ALL:
        ax = axes_of(cls)
        rows = []
        for r in C.rows(cls) + algo_rows(cls):
            for rr in [r] + [dict(r, **{o: g[1]}) for o in ax for g in aliases(cls, o) if r[o] is g[0]]:
                if rr not in rows:
                    rows.append(rr)
        for row in rows:
            if row.get("partitioning") and row.get("normalization") == "projection_back":
                continue
            sc = C.scenario(cls, row)
            sc.row = row
            sc.short = cls
            scs.append(sc)
    for R in run_all(chk, scs):
        cls, row = R.sc.short, R.sc.row
        chk.facts[(cls, repr(sorted(canon(cls, row).items(), key=str)), repr(sorted(row.items(), key=str)))] = fp(R)
    # unknown values
    neg = []
    for cls in ALL:
        for o in UNKNOWN:
            if o not in axes_of(cls):
                continue
            if o == "normalization" and not (cls.endswith("ILRMA") or cls == "FastGaussMNMF"):
                continue
            for bad in ("unknown", "ip3"):
                row = dict(default_row(cls))
                row[o] = bad
                sc = C.scenario(cls, row)
                sc.meta, sc.short = o, cls
                neg.append(sc)
    for sc in sliced(neg):
        chk.tried += 1
        try:
            R = C.run(chk.project, sc)
        except Exception as e:
            chk.skip(sc.name, "%s: %s" % (type(e).__name__, e))
            chk.bad += 1
            continue
        chk.ran(R)
        if R.error is not None:
            good = R.error[0] == "raised" and R.error[4]
        else:
            good = any(x[-1] if isinstance(x, tuple) and isinstance(x[-1], bool) else True for x in R.I.raises)
        chk.oblige(good, "%s|unknown|%s" % (sc.short, sc.meta),
                   "%s accepts an unknown value of %s without raising [%s]" % (sc.short, sc.meta, sc.name))
    chk.finalize = finalize06
    return chk


def finalize06(chk):
    groups, byfp = {}, {}
    for (cls, can, row), f in chk.facts.items():
        groups.setdefault((cls, can), {})[row] = f
    for (cls, can), d in sorted(groups.items()):
        fs = set(d.values())
        if len(d) > 1:
            chk.oblige(len(fs) == 1, "%s|synonym|%s" % (cls, can),
                       "%s: synonymous option rows compute different things: %s" % (cls, sorted(d)))
        for f in fs:
            byfp.setdefault((cls, f), []).append(can)
    for (cls, f), cans in sorted(byfp.items()):
        chk.oblige(len(cans) == 1, "%s|distinct|%s" % (cls, sorted(cans)[0]),
                   "%s: different option rows compute the same thing: %s" % (cls, sorted(cans)))


NUM = {"step_size": "f", "mu1": "f", "mu2": "f", "relaxation": "f", "rho": "f", "attenuation": "f", "mask_iter": "i",
       "domain": "f", "dof": "f", "beta": "f", "reference_id": "i", "newton_iter": "i"}
FUN = {"contrast_fn": "loss", "penalty_fn": "loss", "score_fn": "out", "d_score_fn": "out", "d_contrast_fn": "out",
       "dd_contrast_fn": "out", "prox_penalty": "out", "mask_fn": "out", "flooring_fn": "out"}


def params(project, cls):
    ci = project.get_class(C.table()[cls][0])
    f, owner = ci.find("__init__")
    a = f.args
    return [x.arg for x in a.args[1:] + a.kwonlyargs]


def p07():
    chk = Check("P07", "Reachability in the value graph: the symbol standing for each constructor option (number or callable) must be "
                "reachable from the returned estimate (or, for contrast/penalty functions, from the recorded loss) in every algorithm "
                "row; for an iteration-count option it must be the trip count of a loop the estimate passes through.", "other", 250)
    scs = []
    for cls in ALL:
        ps = params(chk.project, cls)
        for row in algo_rows(cls):
            for p in ps:
                if p in NUM:
                    v = C.D("opt:" + p) if NUM[p] == "i" else C.atom("opt:" + p)
                elif p == "flooring_fn":
                    v = lambda I, st: ufn("flooring_fn", same_shape, "arg")
                elif p == "penalty_fn":
                    v = C.PENALTY()
                elif p in FUN:
                    v = None
                else:
                    continue
                sc = C.scenario(cls, row, {p: v} if v is not None else {}, tag="opt " + p)
                sc.meta, sc.short, sc.row = p, cls, row
                scs.append(sc)
    for R in run_all(chk, scs):
        p, cls = R.sc.meta, R.sc.short
        c = R.calls[0]
        if p in NUM:
            def pred(n):
                return n.op in ("atom", "sym") and n.attr == "opt:" + p
        else:
            def pred(n):
                return n.op == "user" and n.attr == p
        roots = [c.retnode]
        if FUN.get(p) == "loss":
            roots = loss_nodes(R, c)
        good = any(depends(r, pred) for r in roots)
        if not good and NUM.get(p) == "i":
            good = loop_count(R, c, pred)
        if not good and p == "flooring_fn":
            good = EXEMPT_FLOOR(cls, R.sc.row)
            if good:
                continue
        chk.oblige(good, "%s|%s" % (cls, p), "%s: the option %s has no effect on the %s [%s]" % (
            cls, p, "loss" if FUN.get(p) == "loss" else "estimate", R.sc.name))
    return chk


def EXEMPT_FLOOR(cls, row):
    # gradient IVA with user-supplied contrast and score divides by nothing of its own
    return cls in ("GradIVA", "NaturalGradIVA")


def loss_nodes(R, c):
    v = c.attrs.get("loss")
    if isinstance(v, LstRef):
        out = []
        for e in walk(c.events):
            if e.kind == "append" and e.data and e.data[0] == v.id:
                out.append(e.data[1])
        return out
    return []


def loop_count(R, c, pred):
    lids = set()
    for e in walk(c.events):
        if e.kind == "loop":
            lid, n = e.data[0], e.data[1]
            n = n.node if isinstance(n, Num) else n
            if n is not None and hasattr(n, "op") and depends(n, pred):
                lids.add(lid)

    def has(a):
        if isinstance(a, tuple):
            return any(has(x) for x in a)
        return isinstance(a, (str, int)) and a in lids

    def inloop(n):
        return n.op.startswith("loop") and has(n.attr)
    return bool(lids) and depends(c.retnode, inloop)


CHECKS = {"P06": p06, "P07": p07}
