"""Proximal methods: one step of PDS and ADMM against the splitting scheme of the reported loss: P29."""
from __future__ import annotations

from fractions import Fraction as Fr

from .. import configs as C
from ..framework import Check, locstr
from ..interp import Budget, Raised
from ..tnf import ONE, TNF, Term, Unsup, casewise, walk_nodes
from ..values import *  # noqa
from .common import run_all
from .p_filter import arrays
from .p_grad import fresh_state, invoke, prepared
from .p_ownership import arr_input

PDS = ("PDSBSS", "MaskingPDSBSS", "PDSIVA", "MaskingPDSHVA", "HVA")
ADMM = ("ADMMBSS", "MaskingADMMBSS", "ADMMIVA", "MaskingADMMHVA")
W, EST = ("F", "C", "C"), ("C", "F", "T")
STATE = ("demix_filter", "dual", "auxiliary1", "auxiliary2", "dual1", "dual2")


class Steps:
    """calls of proximal operators and masks inside one update; their results become unknown arrays"""

    def __init__(self, R):
        self.R, self.I = R, R.I
        self.log = []       # (name, argument, step, result)

    def result(self, name, x, step, st, dt):
        v = self.I.input_array(st, "result%d" % len(self.log), x.shape, dt)
        self.log.append((name, x, step, self.I.node(v, st), self.I.g.loc))
        return v

    def __enter__(self):
        I = self.I
        self.fn, self.user = I.call_fn, I.call_user

        def call_fn(f, args, kw, s):
            n = getattr(f.fdef, "name", None)
            if f.self is None and n in ("neg_logdet", "l21") and f.mod.name.endswith("linalg.prox"):
                a = f.fdef.args
                d = dict(zip([x.arg for x in a.posonlyargs + a.args], args))
                d.update(kw)
                x = I.node(d[(a.posonlyargs + a.args)[0].arg], s)
                self.axis = d.get("axis2", Const(-1))
                return self.result(n, x, I.node(d.get("step_size", Const(1)), s), s, "c")
            return self.fn(f, args, kw, s)

        def call_user(f, args, kw, s):
            if f.name.startswith("prox") or f.name == "mask_fn":
                x = I.node(args[0], s)
                step = args[1] if len(args) > 1 else kw.get("step_size", Const(1))
                return self.result(f.name, x, I.node(step, s), s, "f" if f.name == "mask_fn" else "c")
            return self.user(f, args, kw, s)
        I.call_fn, I.call_user = call_fn, call_user
        return self

    def __exit__(self, *a):
        self.I.call_fn, self.I.call_user = self.fn, self.user


class Algebra:
    """terms over the leaves of one update"""

    def __init__(self, t):
        self.t = t

    def leaf(self, name, idx, conj=False):
        return [Term(ONE, {("x", name, conj and name not in self.t.real, tuple(idx)): ONE}, frozenset())]

    def scalar(self, node):
        return self.t.ev(node)[1]

    def lin(self, *pairs):
        out = []
        for k, e in pairs:
            out = self.t.add(out, self.t.mul(k, e) if isinstance(k, list) else self.t.scale(e, k))
        return out

    def spelled(self, ex):
        """sums over the two penalties written out"""
        t, out = self.t, []
        for u in ex:
            ds = [d for d in u.d if t.size[d] == "2"]
            for k in (0, 1) if ds else (None,):
                if k is None:
                    out = t.add(out, [u])
                else:
                    out = t.add(out, self.spelled(t.subst([Term(u.c, u.f, u.d - {ds[0]})], {ds[0]: ("c", k)})))
        return out

    def same(self, a, b):
        return self.t.zero(self.t.sub(self.spelled(a), self.spelled(b)))


def setup(R, Q):
    """unconstrained filter, auxiliaries and duals; Q: number of penalties, 0 with a mask"""
    I, st = R.I, fresh_state(R)
    d = st.objs[R.obj.id]
    est = EST if Q == 0 else (Q or 1,) + EST
    dims = {k: est if k in ("dual", "auxiliary2", "dual2") else W for k in STATE}
    for k, v in dims.items():
        if k in d:
            d[k] = arr_input("%s_%s" % (k, Q), v, "c")(I, st)
    if Q is None:
        return st
    if Q:
        d["prox_penalty"] = Tup([C.ufn("prox%d" % k, C.same_shape, "arg") for k in range(Q)])
        if "IVA" not in R.sc.short:
            d["penalty_fn"] = Tup([C.ufn("penalty%d" % k, C.scalar, "f") for k in range(Q)])
    else:
        d["mask_fn"] = C.ufn("mask_fn", C.same_shape, "f")
    return st


def named(R, st, t):
    for k, v in arrays(R, st).items():
        if k in STATE:
            t.leaf[v.id] = k


def step(chk, R, Q):
    I, name = R.I, R.sc.short
    st = setup(R, Q)
    with Steps(R) as S:
        _, s = invoke(R, st, "update_once")
    new = arrays(R, s)
    t = TNF(I)
    A = Algebra(t)
    X = I.node(st.objs[R.obj.id]["input"], st)
    t.leaf[X.id] = "X"
    named(R, st, t)
    lf = A.leaf
    f, n, c, fr = [t.new(x) for x in ("F", "C", "C", "T")]
    one = t.const(1)
    hyper = {k: A.scalar(I.node(st.objs[R.obj.id][k], st)) for k in ("mu1", "mu2", "rho", "relaxation") if k in st.objs[R.obj.id]}
    al = hyper["relaxation"]
    co = t.sub(one, al)
    ld = [x for x in S.log if x[0] == "neg_logdet"]
    px = [x for x in S.log if x[0] != "neg_logdet"]
    tag = "%s[%s]" % (name, "mask" if not Q else "%d penalties" % Q)

    def oblige(good, key, msg, node=None):
        chk.oblige(good, "%s|%s" % (name, key), "%s.update_once(): %s%s [%s]" % (name, msg, " at %s" % locstr(node.loc) if node is not None else "", tag))

    def equal(key, node, idx, want, msg):
        try:
            got = t.ev(node, idx)
        except Unsup as x:
            chk.skip(tag, "%s: %s" % (key, x))
            return
        if not A.same(got, want):
            o = t.opaques([got])
            if o != t.opaques([want]):
                chk.skip(tag, "%s: %s" % (key, ", ".join(t.deps[a][1] for a in o)))
                return
            oblige(False, key, msg, node)
        else:
            oblige(True, key, msg, node)

    if not ld:
        chk.skip(tag, "the proximal operator of the log-determinant is not called by its name")
        return
    if len(ld) != 1 or len(px) != max(Q, 1):
        oblige(False, "operators", "the proximal operator of the log-determinant is used %d times and those of the penalties %d times in one iteration, instead of once each" % (len(ld), len(px)))
        return
    P = ld[0][3]
    t.leaf[P.id] = "P"
    t.ev(P)
    k = lambda q: () if not Q else (None,) if Q == 1 else (("c", q),)
    slots = range(max(Q, 1))
    order = [0] if not Q else [int(x[0][4:]) for x in px]
    oblige(sorted(order) == list(slots), "operators", "not every penalty is used once")
    if sorted(order) != list(slots):
        return
    px = [px[order.index(q)] for q in slots]
    outs = []
    for q in slots:
        t.leaf[px[q][3].id] = "R%d" % q
        t.ev(px[q][3])
        z = lambda q=q: t.ev(px[q][1], (n, f, fr))
        outs.append(lf("R%d" % q, (n, f, fr)) if Q else t.mul(lf("R%d" % q, (n, f, fr)), z()))

    def wx(wname, idx=None):
        """filter applied to the mixture, entry (n, f, t)"""
        d = t.new("C")
        return t.summed(t.mul(lf(wname, (f, n, d)), lf("X", (d, f, fr))), d)

    def adjoint(names):
        """sum over penalties and frames of the estimate-shaped quantity times the conjugate mixture, entry (f, n, c)"""
        d, out = t.new("T"), []
        for q in slots:
            for sign, nm in names:
                out = t.add(out, t.scale(t.summed(t.mul(lf(nm, k(q) + (n, f, d)), lf("X", (c, f, d), True)), d), sign))
        return out
    if name in PDS:
        m1, m2 = hyper["mu1"], hyper["mu2"]
        equal("primal", ld[0][1], (f, n, c), A.lin((1, lf("demix_filter", (f, n, c))), (-1, t.mul(t.mul(m1, m2), adjoint([(1, "dual")])))),
              "the argument of the log-determinant step is not W - mu1 mu2 (sum of duals) X^H")
        oblige(A.same(A.scalar(ld[0][2]), m1), "primal step", "the step size of the log-determinant is not mu1", ld[0][1])
        for q in slots:
            equal("dual argument", px[q][1], (n, f, fr), A.lin((1, lf("dual", k(q) + (n, f, fr))), (2, wx("P")), (-1, wx("demix_filter"))),
                  "the argument of the %s is not its dual plus (2 P - W) X, P being the new filter before relaxation" % ("mask" if not Q else "proximal operator"))
            if Q:
                oblige(A.same(A.scalar(px[q][2]), t.pow(m2, -1)), "dual step", "the step size of the penalty is not 1 / mu2", px[q][1])
            want = A.lin((al, t.sub(t.ev(px[q][1], (n, f, fr)), outs[q])), (co, lf("dual", k(q) + (n, f, fr))))
            equal("dual", new["dual"], k(q) + (n, f, fr), want, "the new dual is not relaxation * (z - prox(z)) + (1 - relaxation) * dual")
        equal("filter", new["demix_filter"], (f, n, c), A.lin((al, lf("P", (f, n, c))), (co, lf("demix_filter", (f, n, c)))),
              "the new filter is not relaxation * P + (1 - relaxation) * W")
        return
    rho = hyper["rho"]
    # normal equations of the filter: W (Q X X^H + I) = (V - Y) + sum of (V~ - Y~) X^H
    d, u = t.new("C"), t.new("T")
    M = t.add(t.scale(t.summed(t.mul(lf("X", (c, f, u)), lf("X", (d, f, u), True)), u), max(Q, 1)), [Term(ONE, {("delta", tuple(sorted((c, d)))): ONE}, frozenset())])
    rhs = A.lin((1, lf("auxiliary1", (f, n, c))), (-1, lf("dual1", (f, n, c))), (1, adjoint([(1, "auxiliary2"), (-1, "dual2")])))
    wants = [t.subst(t.summed(t.mul(rhs, inv), c), {d: c}) for inv in (t.inv(M, c, d), t.inv(M, d, c))]      # inverse of M, and of its transpose read backwards
    got = t.ev(new["demix_filter"], (f, n, c))
    want = next((w for w in wants if A.same(got, w)), wants[0])
    equal("filter", new["demix_filter"], (f, n, c), want, "the new filter does not solve W (Q X X^H + I) = (V - Y) + sum of (V~ - Y~) X^H")
    Wn = new["demix_filter"]
    t.leaf[Wn.id] = "Wnew"
    t.memo.clear()
    t.ev(Wn)
    U = A.lin((al, lf("Wnew", (f, n, c))), (co, lf("auxiliary1", (f, n, c))))
    equal("primal", ld[0][1], (f, n, c), t.add(U, lf("dual1", (f, n, c))), "the argument of the log-determinant step is not relaxation * W + (1 - relaxation) * V + Y")
    oblige(A.same(A.scalar(ld[0][2]), t.pow(rho, -1)), "primal step", "the step size of the log-determinant is not 1 / rho", ld[0][1])
    equal("auxiliary1", new["auxiliary1"], (f, n, c), lf("P", (f, n, c)), "the new auxiliary filter is not the result of the log-determinant step")
    equal("dual1", new["dual1"], (f, n, c), A.lin((1, lf("dual1", (f, n, c))), (1, U), (-1, lf("P", (f, n, c)))), "the new dual of the filter is not Y + U - V")
    for q in slots:
        e = k(q) + (n, f, fr)
        Ut = A.lin((al, wx("Wnew")), (co, lf("auxiliary2", e)))
        equal("penalty argument", px[q][1], (n, f, fr), t.add(Ut, lf("dual2", e)), "the argument of the %s is not relaxation * W X + (1 - relaxation) * V~ + Y~ with the new filter" % (
            "mask" if not Q else "proximal operator"))
        if Q:
            oblige(A.same(A.scalar(px[q][2]), t.pow(rho, -1)), "penalty step", "the step size of the penalty is not 1 / rho", px[q][1])
        out = lf("R%d" % q, (n, f, fr)) if Q else t.mul(lf("R%d" % q, (n, f, fr)), t.ev(px[q][1], (n, f, fr)))
        equal("auxiliary2", new["auxiliary2"], e, out, "the new auxiliary estimate is not the result of the proximal step")
        equal("dual2", new["dual2"], e, A.lin((1, lf("dual2", e)), (1, Ut), (-1, out)), "the new dual of the estimate is not Y~ + U~ - V~")


def default(chk, R):
    """PDSIVA, ADMMIVA without contrast function: the norm over the bins, in the loss and in its proximal operator"""
    I, name = R.I, R.sc.short
    st = setup(R, None)
    with Steps(R) as S:
        invoke(R, st, "update_once")
    px = [x for x in S.log if x[0] == "l21"]
    ax = getattr(S, "axis", None)
    if len(px) != 1 or not isinstance(ax, Const):
        chk.skip(R.sc.name, "proximal operator of the default penalty")
        return
    t = TNF(I)
    A = Algebra(t)
    h = {k: A.scalar(I.node(st.objs[R.obj.id][k], st)) for k in ("mu2", "rho") if k in st.objs[R.obj.id]}
    chk.oblige(A.same(A.scalar(px[0][2]), t.pow(list(h.values())[0], -1)), "%s|default|step" % name, "%s: the step size does not reach the default proximal operator, at %s" % (name, locstr(px[0][4])))
    y = px[0][1]
    node = I.node(invoke(R, st, "compute_loss")[0], st)
    X = I.node(st.objs[R.obj.id]["input"], st)
    t.leaf[X.id] = "X"
    named(R, st, t)
    n, f, c, fr = [t.new(x) for x in ("C", "F", "C", "T")]
    est = t.summed(t.mul(A.leaf("demix_filter", (f, n, c)), A.leaf("X", (c, f, fr))), c)
    axes = (n, f, fr)
    ax = axes[ax.v] if -3 <= ax.v < 3 else None
    want = t.pow(t.summed(t.mul(est, t.conj(est)), ax), Fr(1, 2))
    for j in axes:
        if j is not ax:
            want = t.summed(want, j)
    w = I.node(st.objs[R.obj.id]["demix_filter"], st)
    v, e = t.ev(I.g.mk("logdet", (w,), None, w.shape[:-2]))
    chk.oblige(ax == f, "%s|default|axis" % name, "%s: the default proximal operator is not that of the norm over the bins, at %s" % (name, locstr(px[0][4])))
    chk.oblige(A.same(t.ev(node)[1], t.sub(want, t.summed(e, v[0]))), "%s|default|loss" % name, "%s.compute_loss(): not the sum of the norms whose proximal operator is used minus the log-determinants, at %s" % (name, locstr(node.loc)))


def loss(chk, R, Q):
    """compute_loss = sum of penalties of W X - sum over bins of log |det W|"""
    I, name = R.I, R.sc.short
    st = setup(R, Q)
    if not Q:
        st.objs[R.obj.id]["penalty_fn"] = Tup([C.ufn("penalty0", C.scalar, "f")])
    r, s = invoke(R, st, "compute_loss")
    node = I.node(r, s)
    t = TNF(I)
    A = Algebra(t)
    X = I.node(st.objs[R.obj.id]["input"], st)
    t.leaf[X.id] = "X"
    named(R, st, t)
    users = [x for x in walk_nodes(node) if x.op == "user" and x.attr.startswith(("penalty", "contrast"))]
    n, f, c, fr = [t.new(x) for x in ("C", "F", "C", "T")]
    est = t.summed(t.mul(A.leaf("demix_filter", (f, n, c)), A.leaf("X", (c, f, fr))), c)
    want = []
    for i, x in enumerate(users):
        t.leaf[x.id] = "U%d" % i
        v, e = t.ev(x)
        if x.shape:
            for j in v:
                e = t.summed(e, j)
        want = t.add(want, e)
        y = t.ev(x.args[0], (n, f, fr))
        chk.oblige(A.same(y, est), "%s|loss|estimate" % name, "%s.compute_loss(): the penalty is not taken of the estimate of the current filter at %s" % (name, locstr(x.loc)))
    chk.oblige(len(users) == max(Q, 1), "%s|loss|penalties" % name, "%s.compute_loss(): %d penalties enter the loss instead of %d" % (name, len(users), max(Q, 1)))
    w = I.node(st.objs[R.obj.id]["demix_filter"], st)
    v, e = t.ev(I.g.mk("logdet", (w,), None, w.shape[:-2]))
    want = t.sub(want, t.summed(e, v[0]))
    got = t.ev(node)[1]
    chk.oblige(A.same(got, want), "%s|loss" % name, "%s.compute_loss(): not the sum of the penalties minus the log-determinants of the filter of all bins at %s" % (name, locstr(node.loc)))


def p29():
    chk = Check("P29", "Tensor normal forms of one iteration of PDS and ADMM over unconstrained filters and duals, proximal operators taken as unknown functions: every argument, "
                "step size, new filter, auxiliary and dual must be that of the splitting scheme of the reported loss.", "other", 60)
    scs = []
    for cls in PDS + ADMM:
        hyper = {k: C.atom(k) for k in (("mu1", "mu2") if cls in PDS else ("rho",)) + ("relaxation",)}
        for Q in (0,) if "Masking" in cls or cls == "HVA" else (1,) if "IVA" in cls else (1, 2):
            sc = prepared(chk, cls, {}, "step,%d" % Q, hyper)
            sc.Q = Q
            scs.append(sc)
        if "IVA" in cls:
            sc = prepared(chk, cls, {}, "default penalty", dict(hyper, contrast_fn=NONE, prox_penalty=NONE))
            sc.Q = None
            scs.append(sc)
    for R in run_all(chk, scs):
        if R.sc.Q is None:
            try:
                casewise(chk, lambda c: default(c, R))
            except (Unsup, Raised, Budget) as x:
                chk.skip(R.sc.name, "%s" % (x,))
            continue
        try:
            casewise(chk, lambda c: step(c, R, R.sc.Q))
        except (Unsup, Raised, Budget) as x:
            chk.skip(R.sc.name, "%s" % (x,))
        if "HVA" in R.sc.short:
            continue
        try:
            casewise(chk, lambda c: loss(c, R, R.sc.Q))
        except (Unsup, Raised, Budget) as x:
            chk.skip(R.sc.name, "loss: %s" % (x,))
    return chk


CHECKS = {"P29": p29}
