"""Normalisation between iterations against the model, on tensor normal forms: P23."""
from __future__ import annotations

from .. import configs as C
from ..framework import Check, locstr
from ..interp import Budget, Raised
from ..tnf import ONE, Term, Unsup, casewise
from ..values import *  # noqa
from .common import ALL, algo_rows, axes_of, run_all, state_attrs
from .p_grad import attr, fresh_state, invoke, normal_form, prepared

STEPS = ("normalize", "normalize_psdtf", "normalize_block_decomposition_psdtf", "normalize_covariance")


def norm_rows(cls):
    ax = axes_of(cls)
    for opt in ("normalization", "source_normalization"):
        for v in ax.get(opt, ()):
            if v is False:
                continue
            seen = set()
            for row in algo_rows(cls):
                alg = row.get("spatial_algorithm")
                if row.get("partitioning") and (v == "projection_back" or not cls.endswith("ILRMA")):
                    continue        # rejected; documented to change the loss (GaussMNMF)
                k = (row.get("partitioning"), row.get("blocks"), alg in ("ISS", "ISS1", "ISS2", "IPA"))
                if k not in seen:
                    seen.add(k)
                    yield dict(row, **{opt: v})


def p23():
    chk = Check("P23", "Tensor normal forms of the reported loss before and after the normalisation step at arbitrary parameters must be identical.", "other", 10)
    scs = []
    for cls in ALL:
        for row in norm_rows(cls):
            extra = {"domain": C.atom("domain")} if cls.endswith("ILRMA") and row.get("source_algorithm") == "MM" else {}
            scs.append(prepared(chk, cls, row, "normalisation", extra))
    for R in run_all(chk, scs):
        try:
            casewise(chk, lambda c: step(c, R))
        except Unsup as x:
            chk.skip(R.sc.name, str(x))
    return chk


def factors(t, leaf, v, ex):
    """templates of the sums by which `leaf` was multiplied or divided"""
    out = {a[2] for u in ex for a, e in u.f.items() if a[0] == "f" and a[1] == "S" and e < 0}
    rho = t.mul(ex, [Term(ONE, {("x", leaf, False, v): -ONE}, frozenset())])
    if len(rho) == 1 and rho[0].d:
        body = t.primitive(rho)[2]
        for b in (body, t.conj(body)):
            out.add(t.template(b, t.free(b))[0])
    return out


def ragged(chk, R, st, s1, name):
    """blocks of two sizes: the loss depends on the source model through the covariance of each block only"""
    d0, d1 = st.objs[R.obj.id], s1.objs[R.obj.id]
    ch = [a for a in d1 if d1[a] != d0.get(a)]
    if not set(ch) <= {"basis", "activation"}:
        chk.skip(R.sc.name, "%s changes %s" % (name, ", ".join(ch)))
        return
    try:
        out = []
        for d, s in ((d0, st), (d1, s1)):
            r, q = invoke(R, s, "reconstruct_block_decomposition_psdtf", d["basis"], d["activation"])
            out.append([R.I.node(x, q) for x in r.items])
        for i, (a, b) in enumerate(zip(*out)):
            t = normal_form(R, identity={"to_psd"})
            v0, e0 = t.ev(a)
            v1, e1 = t.ev(b)
            diff = t.sub(e1, t.subst(e0, dict(zip(v0, v1))))
            ok = t.zero(diff)
            if not ok and t.opaques([diff]):
                chk.skip(R.sc.name, "%s: block size %d: %s" % (name, i, ", ".join(sorted({t.deps[o][1] for o in t.opaques([diff])}))))
                continue
            chk.oblige(ok, "%s|%s|block%d" % (R.sc.short, name, i), "%s.%s(): the covariance of the %s blocks is not the one before the normalisation, at %s [%s]" % (
                R.sc.short, name, ("narrow", "wide")[i], locstr(R.I.node(d1["basis"].items[i], s1).loc), R.sc.name))
    except (Unsup, Raised, Budget) as x:
        chk.skip(R.sc.name, "%s: covariance: %s" % (name, x))


def step(chk, R):
    for name in STEPS:
        if R.ci.find(name)[0] is None or name == "normalize_psdtf" and R.ci.find(STEPS[2])[0] is not None:
            continue
        try:
            st = fresh_state(R)
            _, s1 = invoke(R, st, name)
        except (Raised, Budget) as x:
            chk.skip(R.sc.name, "%s: %s" % (name, x))
            continue
        if R.sc.row.get("blocks") == "ragged":
            ragged(chk, R, st, s1, name)
            continue
        ch = [a for a in s1.objs[R.obj.id] if attr(R, s1, a) is not None and attr(R, s1, a) is not attr(R, st, a)]
        if not ch:
            continue
        what = "%s|%s" % (R.sc.short, name)
        try:
            r0, q0 = invoke(R, st, "compute_loss")
            r1, q1 = invoke(R, s1, "compute_loss")
            keep = set()
            for _ in range(4):
                t = normal_form(R)
                t.keep = set(keep)
                new = set()
                for k in ch:
                    new |= factors(t, k, *t.ev(attr(R, s1, k)))
                if new <= keep:
                    break
                keep |= new
            v0, l0 = t.ev(R.I.node(r0, q0))
            v1, l1 = t.ev(R.I.node(r1, q1))
            d = t.sub(l1, t.subst(l0, dict(zip(v0, v1))))
            same = t.zero(d)
            if not same and t.opaques([d]):
                chk.skip(R.sc.name, "%s: %s" % (name, ", ".join(sorted({t.deps[o][1] for o in t.opaques([d])}))))
                continue
        except (Unsup, Raised, Budget) as x:
            chk.skip(R.sc.name, "%s: loss: %s" % (name, x))
            continue
        chk.oblige(same, what + "|loss", "%s.%s(): the reported loss of the normalised parameters (%s) is not the loss of the parameters before, at %s [%s]" % (
            R.sc.short, name, ", ".join(ch), locstr(attr(R, s1, ch[0]).loc), R.sc.name))
        try:
            _, s2 = invoke(R, s1, name)
            for a in ch:
                v1, e1 = t.ev(attr(R, s1, a))
                v2, e2 = t.ev(attr(R, s2, a))
                d = t.sub(e2, t.subst(e1, {x: y for x, y in zip(v1, v2) if x is not None}))
                chk.oblige(t.zero(d), what + "|again|" + a, "%s.%s(): normalising normalised parameters changes %s again, at %s [%s]" % (
                    R.sc.short, name, a, locstr(attr(R, s1, a).loc), R.sc.name))
        except (Unsup, Raised, Budget) as x:
            chk.skip(R.sc.name, "%s twice: %s" % (name, x))



CHECKS = {"P23": p23}
