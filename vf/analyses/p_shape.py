"""P10 real/complex discipline.  P11 dimensional consistency."""
from __future__ import annotations

from .. import configs as C
from .. import funcs as F
from .. import npmodel as M
from ..framework import Check, sliced, locstr, Broken
from ..graph import shapestr, dimstr
from ..values import *  # noqa
from .common import ALL, algo_rows, default_row, axes_of, run_all, shortfn, depends, walk, state_attrs
from .p_misc import run_fn
from .p_ownership import NOSECOND
from .p_options import loss_nodes

ORDER = {"maximum", "minimum", "argmax", "argmin", "argsort", "max", "min", "rmax", "rmin", "clip", "floor", "floordiv", "mod"}
ORDCMP = ("Lt", "LtE", "Gt", "GtE")


def realvalued(n, depth=0):
    """provably real although its dtype may be complex"""
    if M.dt(n) in ("f", "i", "b", "s"):
        return True
    if depth > 60:
        return False
    if n.op in ("cast", "transpose", "expand", "squeeze", "index", "reshape", "bcast", "sum", "mean", "neg", "conj", "gather", "mask",
                "diagonal", "trace"):
        return realvalued(n.args[0], depth + 1)
    if n.op in ("add", "sub", "mul", "div"):
        return all(realvalued(a, depth + 1) for a in n.args)
    return False


def scenarios11(full=True):
    scs = []
    for cls in ALL:
        for row in (C.rows(cls) if full else algo_rows(cls)):
            sc = C.scenario(cls, row)
            sc.short, sc.row, sc.sup = cls, row, {}
            scs.append(sc)
        req = C.table()[cls][1]
        if "n_sources" in req:
            for row in algo_rows(cls):
                sc = C.scenario(cls, row, {"n_sources": NONE}, tag="n_sources=None")
                sc.short, sc.row, sc.sup = cls, row, {}
                sc.square = True
                scs.append(sc)
    return scs


RETURNS = {"GaussMNMF": ("N", "F", "T"), "FastGaussMNMF": ("N", "F", "T"), "CACGMM": ("N", "F", "T")}


def p11():
    chk = Check("P11", "Symbolic shape inference with pairwise distinct dimension symbols (channels, sources, bases, bins, frames, blocks): no operation "
                "may combine two different dimensions, no configuration may end in an implicit error, and the returned estimate, the model "
                "parameters and every public function's result must have the documented shape.", "other", 700)
    from .p_protocol import one_callback

    def err(R):
        if R.error[0] == "raised":
            if R.error[4] and R.sc.row.get("partitioning") and R.sc.row.get("normalization") == "projection_back":
                chk.ok()        # documented as not available
                return True
            if R.error[1] in ("NotImplementedError",) and R.error[4]:
                return False
            chk.fail("%s|error|%s" % (R.sc.short, where_fn(R)),
                     "%s fails with %s (%s) at %s [%s]" % (R.sc.short, R.error[1], R.error[2], locstr(R.error[3]), R.sc.name))
            return True
        return False
    for R in run_all(chk, scenarios11(), on_error=err):
        issues(chk, R, R.sc.short, R.sc.name)
        cls, c, g = R.sc.short, R.calls[0], R.g
        dom = C.table()[cls][2]
        want = RETURNS.get(cls, ("C", "T") if dom == "t" else ("C", "F", "T"))
        sq = getattr(R.sc, "square", False)

        def dims(spec):
            out = []
            for d in spec:
                if isinstance(d, int):
                    out.append(g.const(d))
                elif d == "F":
                    out.append(C.bins(R.I))
                else:
                    out.append(g.sym("C" if (sq and d == "N") else d))
            return tuple(out)
        chk.oblige(c.retnode.shape == dims(want), cls + "|returned", "%s returns an array of shape %s instead of %s [%s]" % (
            cls, shapestr(c.retnode.shape), shapestr(dims(want)), R.sc.name))
        sa = state_attrs(cls, R.sc.row)
        for a, (d, dt) in sorted(sa.items()):
            n = c.attrnodes.get(a)
            if n is None or c.attrs[a] == NONE and str(R.sc.row.get("spatial_algorithm")) in NOSECOND:
                continue
            chk.oblige(n.shape == dims(d), "%s|%s" % (cls, a), "%s leaves %s with shape %s instead of %s [%s]" % (
                cls, a, shapestr(n.shape), shapestr(dims(d)), R.sc.name))
        for n in loss_nodes(R, c):
            chk.oblige(n.shape == (), cls + "|loss", "%s records a loss of shape %s [%s]" % (cls, shapestr(n.shape), R.sc.name))
    for ent in sliced(F.table()):
        R = run_fn_err(chk, ent)
        if R is None:
            continue
        issues(chk, R, ent[0], R.name)
        for n, want in F.out_shapes(R) or []:
            got = n.shape if hasattr(n, "shape") else n
            chk.oblige(got == want, ent[0] + "|returned", "%s returns shape %s instead of %s" % (
                R.name, shapestr(got) if got is not None else "?", want if n is None else shapestr(want)))
    return chk


def where_fn(R):
    return "%s" % (R.error[3][0] if R.error[3] else "?")


def run_fn_err(chk, ent):
    chk.tried += 1
    try:
        R = F.run(chk.project, ent)
    except Exception as e:
        chk.skip(ent[0], "%s: %s" % (type(e).__name__, e))
        chk.bad += 1
        return None
    if R.error is not None:
        if R.error[0] == "missing":
            raise Broken("public function %s is gone" % R.error[1])
        if R.error[0] == "raised":
            chk.fail(ent[0] + "|error", "%s fails with %s (%s) at %s" % (R.name, R.error[1], R.error[2], locstr(R.error[3])))
        else:
            chk.skip(R.name, R.error)
            chk.bad += 1
        return None
    chk.ran(R)
    return R


def issues(chk, R, key, where):
    bad = [i for i in R.I.issues if i[0] in ("shape", "truth-of-array", "zerodiv")]
    for i in bad:
        loc, fn = i[-2], i[-1]
        det = ""
        if i[0] == "shape":
            det = " (%s: %s against %s)" % (i[1], dimstr(i[2][0]), dimstr(i[2][1]))
        chk.fail("%s|%s|%s" % (key, i[0], shortfn(fn)), "%s combines arrays of different dimensions at %s%s [%s]" % (
            shortfn(fn), locstr(loc), det, where))
    n = sum(1 for x in R.g.nodes if x.shape is not None and x.args)
    chk.count("operations_with_shape", n)
    chk.ok()


def p10():
    chk = Check("P10", "Real/complex type inference over the value graph: no complex value may be stored into a real array, ordered, floored or used as "
                "a loss; returned spectrograms and filters stay complex; variances, weights, activations and losses stay real; "
                "time-domain methods stay real.", "other", 500)
    for R in run_all(chk, scenarios11(), on_error=lambda R: True if R.error[0] == "raised" and R.error[4] else None):
        if R.error is not None:
            continue
        cls, c = R.sc.short, R.calls[0]
        scan(chk, R, cls, R.sc.name)
        want = "f" if C.table()[cls][2] == "t" else "c"
        chk.oblige(M.dt(c.retnode) in (want, None), cls + "|returned", "%s returns %s data [%s]" % (
            cls, NAMES.get(M.dt(c.retnode)), R.sc.name))
        for a, (d, dt) in sorted(state_attrs(cls, R.sc.row).items()):
            n = c.attrnodes.get(a)
            if n is not None and M.dt(n) is not None:
                chk.oblige(M.dt(n) == dt, "%s|%s" % (cls, a), "%s leaves a %s %s [%s]" % (cls, NAMES.get(M.dt(n)), a, R.sc.name))
        for a in ("variance", "posterior"):
            n = c.attrnodes.get(a)
            if n is not None:
                chk.oblige(M.dt(n) in ("f", None), "%s|%s" % (cls, a), "%s leaves a complex %s [%s]" % (cls, a, R.sc.name))
        for n in loss_nodes(R, c):
            chk.oblige(M.dt(n) in ("f", "i", None) or realvalued(n), cls + "|loss", "%s records a complex loss (%s) [%s]" % (
                cls, locstr(n.loc), R.sc.name))
    for ent in sliced(F.table()):
        R = run_fn(chk, ent)
        if R is not None:
            scan(chk, R, ent[0], R.name)
    return chk


NAMES = {"f": "real", "c": "complex", "i": "integer", "b": "boolean", None: "unknown"}


def scan(chk, R, key, where):
    k = 0
    for n in R.g.nodes:
        if n.op in ORDER or (n.op == "cmp" and n.attr in ORDCMP):
            k += 1
            for a in n.args:
                if M.dt(a) == "c" and not realvalued(a):
                    chk.fail("%s|order|%s" % (key, shortfn(n.fn)), "%s orders complex values (%s) at %s [%s]" % (
                        shortfn(n.fn), n.op, locstr(n.loc), where))
                    break
            else:
                chk.ok()
    for i in R.I.issues:
        if i[0] == "complex-into-real":
            chk.fail("%s|%s|%s" % (key, i[1], shortfn(i[-1])), "%s discards an imaginary part (%s) at %s [%s]" % (
                shortfn(i[-1]), i[1], locstr(i[-2]), where))
    chk.ok()
    chk.count("order_operations", k)


CHECKS = {"P10": p10, "P11": p11}
