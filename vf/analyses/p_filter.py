"""Filter updates against the reported loss, on tensor normal forms: P22."""
from __future__ import annotations

import copy

from .. import configs as C
from .. import npmodel
from ..framework import Check, locstr
from ..interp import Budget, Raised
from ..tnf import ONE, Term, Unsup, casewise
from ..values import *  # noqa
from .common import ALL, algo_rows, run_all, state_attrs
from .p_grad import attr, called, fresh_state, invoke, normal_form, prepared

IP = ("update_by_ip1", "update_by_ip2", "update_by_ip2_one_pair")
ISS = ("update_by_iss1", "update_by_iss2", "update_by_ipa")


def captured(R, st, root):
    """calls of the library's filter update functions made inside `root`: (function, first array, second array, own state at the call)"""
    out, I, orig = [], R.I, R.I.call_fn

    def hook(f, args, kw, s):
        n = getattr(f.fdef, "name", None)
        if f.self is None and n in IP + ISS:
            a = f.fdef.args
            names = [x.arg for x in a.posonlyargs + a.args]
            d = dict(zip(names, args))
            d.update(kw)
            x, y = d.get(names[0]), d.get(names[1])
            if isinstance(x, Arr) and isinstance(y, Arr):
                own = arrays(R, s)
                out.append((n, I.node(x, s), I.node(y, s), own))
        return orig(f, args, kw, s)
    I.call_fn = hook
    try:
        r, s = invoke(R, st, root)
    finally:
        I.call_fn = orig
    return out


def arrays(R, st):
    return {k: R.I.node(v, st) for k, v in st.objs[R.obj.id].items() if isinstance(v, (Arr, Num))}


def p22():
    chk = Check("P22", "Tensor normal forms of the reported loss and of what each filter update is made from: IP1/IP2 covariances U must satisfy "
                "dLoss/dW = k (w^H U - W^-1), ISS/IPA weights phi dData/dY = k phi conj(Y) with log-determinant -2k, and gradient methods move the "
                "filter by a negative multiple of the (natural, non-holonomic) gradient of the loss.", "other", 80)
    scs, seen = [], set()
    for cls in ALL:
        for row in algo_rows(cls):
            key = (cls, row.get("spatial_algorithm"), row.get("diagonalizer_algorithm"), row.get("partitioning"), row.get("is_holonomic"))
            if key in seen:
                continue
            seen.add(key)
            extra = {"domain": C.atom("domain")} if cls.endswith("ILRMA") and row.get("source_algorithm") == "MM" else {}
            scs.append(prepared(chk, cls, row, "filter step", extra))
    for R in run_all(chk, scs):
        try:
            casewise(chk, lambda c: filter_step(c, R))
        except Unsup as x:
            chk.skip(R.sc.name, str(x))
    return chk


def split_loss(t, loss, leaf):
    """(terms with a log-determinant that depends on the leaf, the other terms)"""
    ld, rest = [], []
    for u in loss:
        (ld if any(a[0] == "f" and a[1] == "logdet" and t.depends(t.templ[a[2]][0], leaf) for a in u.f) else rest).append(u)
    return ld, rest


def filter_step(chk, R):
    try:
        st = fresh_state(R)
        t = normal_form(R)
        r, s = invoke(R, st, "compute_loss")
        lv, loss = t.ev(R.I.node(r, s))
        names = called(R, st, "update_once")
    except (Unsup, Raised, Budget) as x:
        chk.skip(R.sc.name, "loss: %s" % (x,))
        return
    start = arrays(R, st)
    if "is_holonomic" in R.sc.row:
        try:
            gradient_step(chk, R, t, st, loss)
        except Unsup as x:
            chk.skip(R.sc.name, "update_once: %s" % x)
        return
    for name in names:
        try:
            calls = captured(R, st, name)
        except (Raised, Budget):
            continue
        for fn, a, b, own in calls:
            if any(own.get(k) is not v for k, v in start.items()) or a.op != "input":
                continue
            leaf = a.attr
            if leaf not in start or start[leaf] is not a:
                continue
            try:
                (quadratic if fn in IP else weights)(chk, R, t, loss, leaf, a, b, name, fn)
            except Unsup as x:
                chk.skip(R.sc.name, "%s: %s" % (name, x))


def gradient_step(chk, R, t, st, loss):
    """W_new - W is a negative multiple of the gradient G of the loss (W-G: G; natural: G W^H W; non-holonomic: without the diagonal of G W^H)"""
    I, leaf, ran = R.I, "demix_filter", False
    for k in R.ci.mro():
        m = k.methods.get("update_once")
        if m is None:
            continue
        s = st.copy()
        s.events = []
        f = copy.copy(I.getattr(R.obj, "update_once", s))
        f.fdef, f.owner, f.mod = m, k, k.mod
        try:
            I.call(f, [], {}, s)
        except (Raised, Budget):
            continue
        old, new = arrays(R, st), arrays(R, s)
        if {a for a in new if new[a] is not old.get(a)} - {"output", "loss"} == {leaf}:
            ran = True
            break
    if not ran:
        chk.skip(R.sc.name, "no step that changes the filter only")
        return
    natural = R.sc.short.startswith("Natural")
    hol = R.sc.row["is_holonomic"]
    W = old[leaf]
    v, e = t.ev(new[leaf])
    real = npmodel.dt(W) == "f"
    b, (i, j) = v[:-2], v[-2:]
    p = t.new(t.size[j])
    lf = lambda x, y, cj: [Term(ONE, {("x", leaf, cj and not real, b + (x, y)): ONE}, frozenset())]
    delta = t.sub(t.subst(e, {j: p}), lf(i, p, False))
    if natural:
        right = t.ev(I.g.mk("inv", (W,), None, W.shape), b + (p, j))
    else:
        right = lf(j, p, True)
    step = t.summed(t.mul(delta, right), p)
    grad = t.diff(loss, leaf, b + (i, p), not real)
    want = t.summed(t.mul(grad, lf(j, p, True)), p)
    if not hol:
        off = t.sub(t.const(1), [Term(ONE, {("delta", (i, j) if repr(i) <= repr(j) else (j, i)): ONE}, frozenset())])
        want = t.mul(want, off)
    k = t.ratio(step, want)
    good = k is not None and k.c < 0
    if not good and undecided(chk, R, t, "update_once", step, want):
        return
    chk.oblige(good, "%s|update_once|gradient" % R.sc.short, "%s.update_once(): the filter does not move along the negative %s%sgradient of the "
               "reported loss at %s [%s]" % (R.sc.short, "" if hol else "non-holonomic ", "natural " if natural else "", locstr(new[leaf].loc), R.sc.name))


def quadratic(chk, R, t, loss, leaf, wn, un, name, fn):
    """IP: gradient of the loss with respect to the filter == k (w^H U - W^-1): the quadratic form touches the loss from above or not at all"""
    if fn == "update_by_ip2_one_pair":
        t.alias = {t.dim(un.shape[1]): t.dim(wn.shape[1])}
        t.pairs, t.pair_list, t.mixed = True, None, []
    try:
        u, U = t.ev(un)
    finally:
        t.alias, t.pairs = {}, False
    f, n, c, d = u
    grad = t.diff(loss, leaf, (f, n, c))
    wu = t.summed(t.mul(U, [Term(ONE, {("x", leaf, True, (f, n, d)): ONE}, frozenset())]), d)
    wi = t.ev(R.I.g.mk("inv", (wn,), None, wn.shape), (f, c, n))
    if t.mixed:
        chk.fail("%s|%s|%s|order" % (R.sc.short, name, fn), "%s.%s(): the members of the pair are selected in different orders for one update, at %s [%s]" % (
            R.sc.short, name, ", ".join(sorted({locstr(l) for l in t.mixed})), R.sc.name))
        return
    k = t.combination(grad, wu, wi)
    good = k is not None and k[0].c > 0 and not t.merge(t.add([k[0]], [k[1]]))
    if not good and undecided(chk, R, t, name, grad, wu):
        return
    chk.oblige(good, "%s|%s|%s" % (R.sc.short, name, fn), "%s.%s(): the weighted covariance given to %s at %s is not the one the reported loss "
               "calls for (derivative of the loss with respect to the filter differs from w^H U - W^-1) [%s]" % (
                   R.sc.short, name, fn, locstr(un.loc), R.sc.name))


def undecided(chk, R, t, name, *exs):
    """the two sides look into different opaque constructs: no verdict"""
    o = [t.opaques([x]) for x in exs]
    if any(x != o[0] for x in o):
        chk.skip(R.sc.name, "%s: %s" % (name, ", ".join(sorted({t.deps[a][1] for x in o for a in x}))))
        return True
    return False


def weights(chk, R, t, loss, leaf, yn, wn, name, fn):
    """ISS: gradient of the data part with respect to the estimate == k weight * conj(estimate), log-determinant weighted -2k"""
    w, U = t.ev(wn)
    y = t.axes(yn.shape)
    U = t.subst(U, {a: b for a, b in zip(w, y) if a is not None})
    ld, rest = split_loss(t, loss, leaf)
    grad = t.diff(rest, leaf, y)
    wy = t.mul(U, [Term(ONE, {("x", leaf, True, y): ONE}, frozenset()), ])
    wy = t.mul(wy, [Term(ONE, {("dim", t.size[y[-1]]): -ONE}, frozenset())])
    k = t.ratio(grad, wy)
    good = k is not None and k.c > 0 and len(ld) == 1
    if good:
        (a, e), = [(a, e) for a, e in ld[0].f.items() if a[0] == "f"]
        c = Term(ld[0].c, {b: x for b, x in ld[0].f.items() if b != a}, frozenset())
        good = e == 1 and set(i for i in a[3] if isinstance(i, int)) == set(ld[0].d) and not t.merge(t.add([c], t.scale([k], 2)))
    if not good and undecided(chk, R, t, name, grad, wy):
        return
    chk.oblige(good, "%s|%s|%s" % (R.sc.short, name, fn), "%s.%s(): the weights given to %s at %s are not those the reported loss calls for "
               "(derivative of its data part with respect to the estimate, against its log-determinant) [%s]" % (
                   R.sc.short, name, fn, locstr(wn.loc), R.sc.name))


CHECKS = {"P22": p22}
