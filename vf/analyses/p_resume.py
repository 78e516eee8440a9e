"""P05: supplied starting values are the ones iterated on; a second call continues where the first stopped."""
from __future__ import annotations

from .. import configs as C
from ..framework import Check, locstr
from ..values import *  # noqa
from .common import ALL, algo_rows, default_row, axes_of, run_all, state_attrs, shortfn
from .p_ownership import arr_input, NOSECOND
from .p_protocol import one_callback



def snapshots(R, c, st, k):
    """attribute values at the first observation point (before the first iteration)"""
    I = R.I
    c.start = None

    def watch(I2, kind, data, st2):
        if kind == "usercall" and data[0] == "cb1" and c.start is None:
            c.start = {a: I.node(v, st2) for a, v in st2.objs[R.obj.id].items() if isinstance(v, (Arr, Num))}
    I.watch = watch


def p05():
    chk = Check("P05", "Value-graph comparison across calls: the values held at the first observation point of a call must be "
                "the supplied starting values, or, without supplied values, the very values (same graph nodes) the "
                "previous call ended with; no random draw may happen for a parameter that is already there.",
                "other", 250)
    scs = []
    for cls in ALL:
        for row in algo_rows(cls):
            rr = dict(row)
            if "scale_restoration" in rr:
                rr["scale_restoration"] = False
            if "permutation_alignment" in rr:
                rr["permutation_alignment"] = False
            iss = str(row.get("spatial_algorithm", "")) in NOSECOND
            sa = state_attrs(cls, row)
            if cls == "CACGMM":
                continue        # documented: custom initialisation is not supported
            kw = {k: arr_input(k, d, dt) for k, (d, dt) in sa.items()}
            for x in (rr, row):
                sc = C.scenario(cls, x, {"callbacks": one_callback}, [kw] if iss else [kw, {}], "supplied")
                sc.meta = set(sa)
                scs.append(sc)
                if not iss:
                    sc = C.scenario(cls, x, {"callbacks": one_callback}, [{}, {}], "continued")
                    sc.meta = set()
                    scs.append(sc)
            # one attribute alone
            for k in sa:
                sc = C.scenario(cls, rr, {"callbacks": one_callback}, [{k: kw[k]}], "only " + k)
                sc.meta = {k}
                scs.append(sc)

    for cls in ALL:
        for row in algo_rows(cls):
            if str(row.get("spatial_algorithm", "")) in NOSECOND and not row.get("partitioning") and \
                    row.get("source_algorithm") != "ME":
                sc = C.scenario(cls, row, {"callbacks": one_callback}, [{}, {}], "second call")
                sc.meta = set()
                sc.second = row["spatial_algorithm"]
                scs.append(sc)

    def crashed(R):
        if getattr(R.sc, "second", None) and R.error[0] == "raised" and len(R.calls) == 1:
            chk.fail("%s|second call|%s" % (R.ci.name, R.sc.second),
                     "%s with spatial_algorithm=%s: a second call on the same object raises %s (%s) at %s" % (
                         R.ci.name, R.sc.second, R.error[1], R.error[2], locstr(R.error[3])))
            return True
        return False

    for R in run_all(chk, scs, before_call=snapshots, on_error=crashed):
        cls, where = R.ci.name, R.sc.name
        for k, c in enumerate(R.calls):
            if c.start is None:
                chk.skip(where, "no observation point before the iterations")
                continue
            if k == 0:
                for a in sorted(R.sc.meta):
                    want = c.kwnodes[a]
                    got = c.start.get(a)
                    if a == "demix_filter" and got is None:
                        # filter-free updates: the supplied filter must have produced the initial estimate
                        from .common import depends
                        o = c.start.get("output")
                        chk.oblige(o is not None and depends(o, lambda n: n is want), "%s|supplied|%s" % (cls, a),
                                   "%s ignores the supplied %s [%s]" % (cls, a, where))
                        continue
                    chk.oblige(same_start(R, got, want), "%s|supplied|%s" % (cls, a),
                               "%s does not start from the supplied %s (it starts from %s) [%s]" % (
                                   cls, a, R.g.show(got, 3), where))
            else:
                prev = R.calls[k - 1]
                for a, n in sorted(c.start.items()):
                    if a in ("input", "output", "loss", "n_sources", "n_channels", "n_bins", "n_frames"):
                        continue
                    p = prev.attrnodes.get(a)
                    if a not in prev.attrs or not is_state(R, a, prev):
                        continue
                    chk.oblige(same_start(R, n, p), "%s|continued|%s" % (cls, a),
                               "%s: a second call does not continue from the %s the first one ended with (it starts from "
                               "%s) [%s]" % (cls, a, R.g.show(n, 3), where))
    return chk


def same_start(R, got, want):
    """the same value; with a source normalisation that runs before the iterations, that value rescaled"""
    if got is want:
        return True
    if R.sc.kwargs.get("source_normalization") is None:
        return False
    for _ in range(4):
        if got is None or got.op not in ("mul", "div"):
            return False
        if any(a is want for a in got.args):
            return True
        got = got.args[0]
    return False


def is_state(R, a, prev):
    """parameters the iterations update: the ones a caller may supply, and carried dual variables"""
    sa = state_attrs(R.ci.name, {k: (v.v if isinstance(v, Const) else v) for k, v in R.sc.kwargs.items()})
    return a in sa or a in ("dual", "dual1", "dual2", "auxiliary1", "auxiliary2", "basis", "activation", "latent",
                            "demix_filter", "spatial", "diagonalizer")


CHECKS = {"P05": p05}
