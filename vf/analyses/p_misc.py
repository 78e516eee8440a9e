"""P16 reproducible randomness, P18 deprecated names, P20 repr."""
from __future__ import annotations

import re

from .. import configs as C
from .. import funcs as F
from ..configs import ufn, same_shape
from ..framework import Check, sliced, locstr, Broken
from ..values import *  # noqa
from .common import ALL, algo_rows, default_row, axes_of, run_all, shortfn, fingerprint, depends, walk
from .p_options import params, fp

NONDET = ("time.", "random.", "secrets.", "uuid.", "os.urandom", "datetime.", "hash", "id")


def p16():
    chk = Check("P16", "Effect analysis of randomness: every random draw of every scenario is attributed to the generator object it uses; "
                "draws must come from the caller's generator (or, without one, one created unseeded in the constructor or "
                "initialisation), never from global state, and never inside the iterations.", "other", 150)
    scs = []
    for cls in ALL:
        has = "rng" in params(chk.project, cls)
        for row in algo_rows(cls):
            for given in ((True, False) if has else (False,)):
                for calls in ([{}], [{}, {}]):
                    if len(calls) == 2 and str(row.get("spatial_algorithm", "")) in ("ISS", "ISS1", "ISS2", "IPA"):
                        continue
                    sc = C.scenario(cls, row, {"rng": C.rng_given} if given else {}, calls, "rng given" if given else "no rng")
                    sc.has, sc.given, sc.short = has, given, cls
                    scs.append(sc)
    for R in run_all(chk, scs):
        cls = R.sc.short
        evs = list(walk(R.ctor_events))
        for c in R.calls:
            evs += list(walk(c.events))
        loops = []
        for c in R.calls:
            for e in c.events:
                collect(e, False, loops)
        draws = 0
        for e in evs:
            if e.kind == "rng_global":
                chk.fail("%s|global|%s" % (cls, shortfn(e.fn)), "%s draws from the global random state (%s) at %s, so a given generator "
                         "does not determine the result [%s]" % (cls, e.data[0], locstr(e.loc), R.sc.name))
            elif e.kind == "rng_new":
                chk.oblige(not R.sc.given, "%s|new|%s" % (cls, shortfn(e.fn)),
                           "%s creates its own generator at %s although the caller gave one [%s]" % (cls, locstr(e.loc), R.sc.name))
                if not R.sc.given:
                    chk.oblige(not e.data[1], "%s|seeded|%s" % (cls, shortfn(e.fn)),
                               "%s seeds its default generator at %s: every run draws the same values [%s]" % (
                                   cls, locstr(e.loc), R.sc.name))
                    chk.oblige(R.sc.has, "%s|hidden|%s" % (cls, shortfn(e.fn)), "%s creates a random generator at %s but takes none" % (
                        cls, locstr(e.loc)))
            elif e.kind == "rng_draw":
                draws += 1
                o = e.data[0]
                if R.sc.given:
                    chk.oblige(o == RngObj("caller"), "%s|draw|%s" % (cls, shortfn(e.fn)),
                               "%s draws from %s instead of the caller's generator at %s [%s]" % (cls, o, locstr(e.loc), R.sc.name))
                else:
                    chk.oblige(R.sc.has, "%s|hidden|%s" % (cls, shortfn(e.fn)), "%s draws random numbers at %s but takes no generator" % (
                        cls, locstr(e.loc)))
            elif e.kind == "extcall" and str(e.data[0]).startswith(NONDET):
                chk.fail("%s|nondet|%s" % (cls, e.data[0]), "%s depends on %s at %s [%s]" % (cls, e.data[0], locstr(e.loc), R.sc.name))
        chk.ok()
        if R.sc.has:
            chk.oblige(draws > 0 or cls == "CACGMM" and False, "%s|nodraw" % cls, "%s takes a generator but never draws from it [%s]" % (
                cls, R.sc.name))
        for e in loops:
            chk.fail("%s|loop|%s" % (cls, shortfn(e.fn)), "%s draws random numbers inside its iterations at %s [%s]" % (
                cls, locstr(e.loc), R.sc.name))
        chk.count("draws", draws)
    for ent in sliced(F.table()):
        R = run_fn(chk, ent)
        if R is None:
            continue
        for e in walk(R.events):
            chk.oblige(not e.kind.startswith("rng_"), "%s|random" % ent[0], "%s uses randomness at %s" % (ent[0], locstr(e.loc)))
        chk.ok()
    return chk


def collect(e, inside, out):
    """draws inside a loop that runs the per-iteration callbacks / updates (symbolic trip count n_iter)"""
    if e.kind == "loop":
        n = e.data[1]
        n = n.node if isinstance(n, Num) else n
        it = n is not None and hasattr(n, "op") and depends(n, lambda x: x.op == "sym" and x.attr == "n_iter")
        for k in e.data[2]:
            collect(k, inside or it, out)
    elif e.kind == "branch":
        for k in list(e.data[1]) + list(e.data[2]):
            collect(k, inside, out)
    elif e.kind == "rng_draw" and inside:
        out.append(e)


def run_fn(chk, ent):
    chk.tried += 1
    try:
        R = F.run(chk.project, ent)
    except Exception as e:
        chk.skip(ent[0], "%s: %s" % (type(e).__name__, e))
        chk.bad += 1
        return None
    if R.error is not None:
        if R.error[0] == "missing":
            raise Broken("public function %s is gone" % R.error[1])
        chk.skip(R.name, R.error)
        chk.bad += 1
        return None
    chk.ran(R)
    return R


# ------------------------------------------------------------------ P18
def _pairs():
    A, FL = F.A, F.FLOOR
    C_, N, Fq, T = "C", "N", "F", "T"
    out = []
    for nm, args, kws in (
            ("identity", [A("X", ["B", "M"], "f")], [{}]),
            ("max_flooring", [A("X", ["B", "M"], "f")], [{}, {"eps": F.S("eps")}]),
            ("add_flooring", [A("X", ["B", "M"], "f")], [{}, {"eps": F.S("eps")}])):
        for kw in kws:
            out.append(("ssspy.bss._flooring." + nm, "ssspy.special.flooring." + nm, args, kw))
    Y = [A("X", [Fq, C_, C_], "c")]
    out.append(("ssspy.bss._psd.to_psd", "ssspy.special.psd.to_psd", Y, {}))
    out.append(("ssspy.bss._psd.to_psd", "ssspy.special.psd.to_psd", Y, {"flooring_fn": FL}))
    S_ = [A("Y", [Fq, N, T], "c"), A("W", [Fq, N, C_], "c")]
    for ov in (None, TRUE, FALSE):
        for fl in (None, FL):
            kw = {}
            if ov is not None:
                kw["overwrite"] = ov
            if fl is not None:
                kw["flooring_fn"] = fl
            out.append(("ssspy.bss._solve_permutation.correlation_based_permutation_solver",
                        "ssspy.algorithm.permutation_alignment.correlation_based_permutation_solver", S_, kw))
    for n in (2, 3, 4, 5):
        for srt in (None, TRUE, FALSE):
            kw = {} if srt is None else {"sort": srt}
            out.append(("ssspy.bss._select_pair.combination_pair_selector",
                        "ssspy.utils.select_pair.combination_pair_selector", [lambda I, st, n=n: Const(n)], dict(kw)))
            for stop, step in ((None, None), (2, None), (None, 2), (3, 2)):
                k2 = dict(kw)
                if stop:
                    k2["stop"] = Const(stop)
                if step:
                    k2["step"] = Const(step)
                out.append(("ssspy.bss._select_pair.sequential_pair_selector",
                            "ssspy.utils.select_pair.sequential_pair_selector", [lambda I, st, n=n: Const(n)], k2))
    return out


def retval(R):
    """canonical description of what a function returned"""
    v = R.I.resolve(R.ret, R.st)
    if isinstance(v, (Tup, LstRef)):
        items = R.I.iter_items(v, R.st)
        return tuple(one(R, x) for x in items)
    return one(R, v)


def one(R, v):
    if isinstance(v, Tup):
        return tuple(one(R, x) for x in v.items)
    if isinstance(v, Const):
        return repr(v.v)
    bufs = fingerprint([R.I.node(v, R.st)])
    return bufs


def p18():
    chk = Check("P18", "Value-graph equality between a deprecated name and its replacement, plus the presence of a warning event on the "
                "deprecated path.", "other", 60)
    for old, new, args, kw in sliced(_pairs()):
        a = run_fn(chk, (old, "", args, kw, None))
        b = run_fn(chk, (new, "", args, kw, None))
        if a is None or b is None:
            continue
        where = "%s(%s)" % (shortfn(old), ", ".join(sorted(kw)))
        chk.oblige(retval(a) == retval(b), old + "|value", "%s does not return what %s returns" % (where, shortfn(new)))
        ina = [fingerprint([x]) for x in after(a)]
        inb = [fingerprint([x]) for x in after(b)]
        chk.oblige(ina == inb, old + "|effect", "%s treats its arguments differently from %s" % (where, shortfn(new)))
        chk.oblige(warned(a.events), old + "|warn", "%s is deprecated but does not warn" % where)
        chk.oblige(not warned(b.events), new + "|nowarn", "%s warns although it is not deprecated" % shortfn(new))
    scs = []
    for cls in ALL:
        if "alpha" not in params(chk.project, cls):
            continue
        for sp in ("alpha", "relaxation"):
            sc = C.scenario(cls, default_row(cls), {sp: C.atom("opt")}, tag=sp)
            sc.meta = (cls, "alpha", sp)
            sc.dep = sp == "alpha"
            scs.append(sc)
        sc = C.scenario(cls, default_row(cls), {"alpha": C.atom("opt"), "relaxation": Const(0.5)}, tag="both")
        sc.meta, sc.dep = (cls, "alpha", "both"), None
        scs.append(sc)
    from .p_ownership import arr_input
    for cls in ALL:
        if not cls.startswith(("ADMM", "MaskingADMM")) and cls != "HVA":
            continue
        for i in (1, 2):
            dims = aux_dims(chk, cls, i)
            if dims is None:
                continue
            for sp in ("aux", "auxiliary"):
                sc = C.scenario(cls, default_row(cls), {}, [{"%s%d" % (sp, i): arr_input("opt", dims, "c")}], "%s%d" % (sp, i))
                sc.meta = (cls, "aux%d" % i, sp)
                sc.dep = sp == "aux"
                scs.append(sc)

    def rejected(R):
        if R.sc.dep is None and R.error[0] == "raised":
            chk.ok()
            return True
        return False
    for R in run_all(chk, scs, on_error=rejected):
        cls = R.sc.meta[0]
        if R.sc.dep is None:
            if not R.I.raises and R.error is None:
                chk.fail("%s|both" % cls, "%s accepts alpha together with relaxation [%s]" % (cls, R.sc.name))
            elif R.error is None:
                chk.ok()
            continue
        if R.error is None:
            chk.facts[R.sc.meta] = fp(R)
            chk.oblige(depends(R.calls[0].retnode, lambda n: n.attr == "opt"), "%s|%s|used" % R.sc.meta[:2],
                       "%s ignores %s [%s]" % (cls, R.sc.meta[2], R.sc.name))
            evs = R.ctor_events + R.calls[0].events
            if R.sc.dep:
                chk.oblige(warned(evs), "%s|%s|warn" % R.sc.meta[:2], "%s accepts the deprecated %s without a warning" % (
                    cls, R.sc.meta[1]))
            else:
                chk.oblige(not warned(evs), "%s|%s|nowarn" % R.sc.meta[:2], "%s warns about %s" % (cls, R.sc.meta[2]))
    chk.finalize = fin18
    return chk


def aux_dims(chk, cls, i):
    """shape of the auxiliary variables, read off an ordinary run"""
    R = C.run(chk.project, C.scenario(cls, default_row(cls)))
    if R.error is not None:
        return None
    n = R.calls[0].attrnodes.get("auxiliary%d" % i)
    if n is None or n.shape is None:
        return None
    out = []
    for d in n.shape:
        v = R.g.int_value(d)
        if v is not None:
            out.append(v)
        else:
            from ..graph import dimstr
            out.append(dimstr(d))
    return tuple(out) if all(isinstance(d, int) or d in ("C", "F", "T") for d in out) else None


def fin18(chk):
    by = {}
    for (cls, what, sp), f in chk.facts.items():
        by.setdefault((cls, what), {})[sp] = f
    for (cls, what), d in sorted(by.items()):
        if len(d) == 2:
            chk.oblige(len(set(d.values())) == 1, "%s|%s|same" % (cls, what),
                       "%s: the deprecated %s does not mean the same as its replacement" % (cls, what))


def after(R):
    out = []
    for a in R.args:
        if isinstance(a, Arr):
            out.append(R.st.bufs[a.buf])
    return out


def warned(events):
    return any(e.kind == "warn" for e in walk(events))


# ------------------------------------------------------------------ P20
def p20():
    chk = Check("P20", "The string template each class formats for repr is followed symbolically: every placeholder must be an attribute that "
                "exists at that moment (on every path), and must stand behind its own name.", "other", 300)
    scs = []
    for cls in ALL:
        for row in C.rows(cls):
            extra = {}
            for p in params(chk.project, cls):
                if p in ("attenuation",):
                    extra[p] = C.atom("opt:" + p)
            for ex in ([{}, extra] if extra else [{}]):
                sc = C.scenario(cls, row, ex)
                sc.short = cls
                scs.append(sc)

    def hook(R, c, st, k):
        c.repr0 = do(R, st)
    for R in run_all(chk, scs, before_call=hook):
        cls = R.sc.short
        for when, res in (("before the first call", R.calls[0].repr0), ("after a call", do(R, R.st))):
            err, fmts = res
            chk.oblige(err is None, "%s|raise" % cls, "repr(%s) raises %s %s [%s]" % (cls, err, when, R.sc.name))
            for t, fields in fmts:
                for lab, f in re.findall(r"(\w+)=\{(\w*)", t):
                    chk.oblige(lab == f, "%s|label|%s" % (cls, lab), "repr(%s) shows %s under the name %s [%s]" % (cls, f, lab, R.sc.name))
    return chk


def do(R, st):
    m, ci = R.ci.find("__repr__")
    from ..interp import Raised
    if m is None:
        return ("nothing: no __repr__", [])
    keep, st.events = st.events, []
    n0 = len(R.I.raises)
    try:
        v = R.I.call_fn(Fn(m, ci.mod, None, R.obj, ci), [], {}, st)
        fm = [e.data for e in walk(st.events) if e.kind == "format"]
        more = R.I.raises[n0:]
        if more:
            return ("%s (%s)" % (more[0][0], more[0][1]), fm)
        return (None, fm) if fm else (None if isinstance(v, Const) and isinstance(v.v, str) or not isinstance(v, Const) else "a non-string", [])
    except Raised as r:
        return ("%s (%s)" % (r.exc, r.msg), [])
    finally:
        st.events = keep


CHECKS = {"P16": p16, "P18": p18, "P20": p20}
