"""Matrix-valued parameters, mixture models and estimates against the model, on tensor normal forms: P27."""
from __future__ import annotations

from .. import configs as C
from .. import npmodel
from ..framework import Check, locstr
from ..interp import Budget, Raised
from ..tnf import ONE, TNF, Term, Unsup, casewise
from ..values import *  # noqa
from .common import ALL, algo_rows, run_all, state_attrs
from .p_defeq import Mat
from .p_filter import split_loss, undecided
from .p_gauge import GENERIC
from .p_grad import attr, called, fresh_state, invoke, prepared

ROOTS = {"sqrtmh": "half", "invsqrtmh": "ihalf"}


def equations(I, log):
    """PSD repairs are read as the identity, geometric means and matrix roots as new Hermitian matrices; P26 has their equations"""
    orig = I.call_fn

    def hook(f, args, kw, s):
        n = getattr(f.fdef, "name", None)
        if f.self is None and args and n == "to_psd" and isinstance(args[0], Arr):
            return args[0]
        if f.self is None and n in ("gmeanmh", "sqrtmh", "invsqrtmh"):
            v = I.bind(f, args, kw, s, I.new_env(s, f.env))
            v = {k: I.node(x, s) if isinstance(x, (Arr, Num)) else x for k, x in v.items()}
            ab = [v.get(k) for k in ("A", "B")] if n == "gmeanmh" else [v.get("X")]
            ty = v.get("type")
            if all(hasattr(x, "shape") and x.shape is not None for x in ab) and (n != "gmeanmh" or isinstance(ty, Const)):
                leaf = "%s%d" % (n, len(log))
                r = I.input_array(s, leaf, ab[0].shape, npmodel.dt(ab[0]))
                log.append((leaf, n, ab, ty.v if n == "gmeanmh" else None))
                return r
        return orig(f, args, kw, s)
    I.call_fn = hook
    return orig


class Model:
    def __init__(self, chk, R):
        self.chk, self.R, self.log = chk, R, []
        self.st = fresh_state(R)
        d = self.st.objs[R.obj.id]
        if isinstance(d.get("unit_input"), Arr):
            d["unit_input"] = R.I.input_array(self.st, "unit_input", R.I.node(d["unit_input"], self.st).shape, "c")

    def __enter__(self):
        self.orig = equations(self.R.I, self.log)
        return self

    def __exit__(self, *a):
        self.R.I.call_fn = self.orig

    def nf(self):
        herm = {"spatial"} if self.R.sc.short == "GaussMNMF" else {"basis", "basis0", "basis1", "covariance"}
        t = Mat(self.R.I, values=GENERIC, herm=herm | {x[0] for x in self.log})
        t.real |= {"spatial"} if self.R.sc.short.startswith("Fast") else {"mixing", "activation", "latent"}
        return t

    def oblige(self, t, ok, name, what, node, *exs):
        if not ok and undecided(self.chk, self.R, t, name, *exs):
            return
        self.chk.oblige(ok, "%s|%s|%s" % (self.R.sc.short, name, what), "%s.%s(): %s, at %s [%s]" % (
            self.R.sc.short, name, what, locstr(node.loc if node is not None else None), self.R.sc.name))


# ------------------------------------------------------------------ covariances: G P G = H Q H
def riccati(m, name, leaf, new):
    R = m.R
    r, s = invoke(R, m.st, "compute_loss")
    t = m.nf()
    lv, loss = t.ev(R.I.node(r, s))
    v = t.axes(new.shape)
    b, (i, j) = v[:-2], v[-2:]
    ld, rest = split_loss(t, loss, leaf)
    if not ld or not rest:
        raise Unsup("the loss as a function of %s" % leaf)
    # derivatives, as matrices: P - Q
    P = t.diff(ld, leaf, b + (j, i))
    Q = t.scale(t.diff(rest, leaf, b + (j, i)), -1)
    H = lambda x, y: [Term(ONE, {("x", leaf, False, b + (x, y)): ONE}, frozenset())]
    X = lambda l, x, y: [Term(ONE, {("x", l, False, b + (x, y)): ONE}, frozenset())]

    def prod(x, y, *fs):
        """matrix product of functions of (row, column), at (x, y)"""
        ks = [x] + [t.new(t.size[i]) for _ in fs[1:]] + [y]
        out = t.const(1)
        for f, p, q in zip(fs, ks, ks[1:]):
            out = t.mul(out, f(p, q))
        for k in ks[1:-1]:
            out = t.summed(out, k)
        return out

    def fn(ex):
        return lambda x, y: t.subst(t.subst(t.subst(t.subst(ex, {i: -1}), {j: -2}), {-1: x}), {-2: y})
    P, Q = fn(P), fn(Q)
    used = [x for x in m.log if any(y.op == "input" and y.attr == x[0] for y in nodes_of(new))]
    what = "the new %s does not solve G P G = %s Q %s with P - Q the derivative of the reported loss" % (leaf, leaf, leaf)
    N = t.ev(new, list(v))
    if not t.zero(t.sub(N, t.conj(fn(N)(j, i)))):
        m.oblige(t, False, name, "the new %s is not Hermitian" % leaf, new)
        return
    if len(used) == 1 and used[0][1] == "gmeanmh":
        l, _, (A, B), ty = used[0]
        if not t.zero(t.sub(N, X(l, i, j))):
            raise Unsup("the result is not the geometric mean itself")
        a, c = t.ev(A, list(v)), t.ev(B, list(v))
        if ty == 1:
            raise Unsup("geometric mean of an inverse")
        if ty != 2:
            m.oblige(t, False, name, what, new)
            return
        k1, k2 = t.ratio(a, P(i, j)), t.ratio(c, prod(i, j, H, Q, H))
        ok = k1 is not None and k2 is not None and k1.c > 0 and t.zero(t.sub([k1], [k2]))
        m.oblige(t, ok, name, what, new, a + c, P(i, j) + prod(i, j, H, Q, H))
        return
    if sorted(x[1] for x in used) == ["invsqrtmh", "sqrtmh"]:
        (s, _, (A,), _), (q, _, (B,), _) = sorted(used, key=lambda x: x[1], reverse=True)
        S, J = (lambda x, y: X(s, x, y)), (lambda x, y: X(q, x, y))
        a, c = t.ev(A, list(v)), t.ev(B, list(v))
        if t.zero(t.sub(N, prod(i, j, H, S, J, S, H))):        # S S = k Q, J S H k P H S J = 1
            k1, k2 = t.ratio(a, Q(i, j)), t.ratio(c, prod(i, j, S, H, P, H, S))
        else:
            raise Unsup("another arrangement of the matrix roots")
        ok = k1 is not None and k2 is not None and k1.c > 0 and t.zero(t.sub([k1], [k2]))
        m.oblige(t, ok, name, what, new, a + c, Q(i, j) + prod(i, j, S, H, P, H, S))
        return
    raise Unsup("the way %s is computed" % leaf)


def nodes_of(n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo += [a for a in x.args if hasattr(a, "args")]


def covariance_steps(m):
    R, chk = m.R, m.chk
    leaf = "spatial" if R.sc.short == "GaussMNMF" else "basis"
    old = m.st.objs[R.obj.id][leaf]
    found = False
    for name in called(R, m.st, "update_once"):
        f, owner = R.ci.find(name)
        if f is None or name == "update_once" or len(f.args.args) - 1 - len(f.args.defaults) > 0:
            continue
        del m.log[:]
        try:
            _, s = invoke(R, m.st, name)
        except (Raised, Budget):
            continue
        d0, d1 = m.st.objs[R.obj.id], s.objs[R.obj.id]
        ch = [a for a in d1 if isinstance(d1[a], (Arr, Tup)) and d1[a] != d0.get(a) and not same(R, m.st, s, d0.get(a), d1[a])]
        if ch != [leaf]:
            continue
        found = True
        new = d1[leaf]
        for l, x in [(leaf, new)] if isinstance(new, Arr) else [("%s%d" % (leaf, i), x) for i, x in enumerate(new.items)]:
            try:
                riccati(m, name, l, R.I.node(x, s))
            except Unsup as u:
                chk.skip(R.sc.name, "%s: %s: %s" % (name, l, u))
        break
    if not found:
        chk.skip(R.sc.name, "no single step of %s" % leaf)


def same(R, s0, s1, a, b):
    return isinstance(a, Arr) and isinstance(b, Arr) and R.I.node(a, s0) is R.I.node(b, s1)


# ------------------------------------------------------------------ mixture model
def mixture(m):
    """complex angular central Gaussian mixture: posterior, weights and covariances"""
    R, chk, st = m.R, m.chk, m.st
    r, s = invoke(R, st, "compute_loss")
    t = m.nf()
    lv, loss = t.ev(R.I.node(r, s))
    _, s1 = invoke(R, st, "update_posterior")
    g = attr(R, s1, "posterior")
    n, f, u = v = t.axes(g.shape)
    G = t.ev(g, list(v))
    # the posterior: p_n = alpha_n det(B_n)^-1 (z^H B_n^-1 z)^-C, normalised over n
    B = attr(R, st, "covariance")
    Z = attr(R, st, "unit_input")
    c = t.dim(Z.shape[0])

    def logp(n):
        ba, bb = t.axes(B.shape)[-2:]
        inv = t.ev(R.I.g.mk("inv", (B,), None, B.shape), [n, f, ba, bb])
        z = lambda k, cj: [Term(ONE, {("x", "unit_input", cj, (k, f, u)): ONE}, frozenset())]
        quad = t.summed(t.summed(t.mul(t.mul(z(ba, True), inv), z(bb, False)), ba), bb)
        x, y = t.new(c), t.new(c)
        det = t.logdet(t.ev(B, [n, f, x, y]), x, y)
        alpha = [Term(ONE, {("x", "mixing", False, (n, f)): ONE}, frozenset())]
        return t.sub(t.sub(t.log(alpha), det), t.mul([Term(ONE, {("dim", c): ONE}, frozenset())], t.log(quad)))
    k = t.new(t.size[n])
    p = t.exp(logp(n))
    tot = t.summed(t.exp(logp(k)), k)
    m.oblige(t, t.zero(t.sub(t.mul(G, tot), p)), "update_posterior", "the posterior is not alpha_n det(B_n)^-1 (z^H B_n^-1 z)^-C normalised over the sources", g, G, p)
    # the reported loss is the negative log-likelihood
    want = t.scale(t.summed(t.summed(t.mul(t.log(tot), [Term(ONE, {("dim", t.size[u]): -ONE}, frozenset())]), u), f), -1)
    m.oblige(t, t.zero(t.sub(loss, want)), "compute_loss", "the value is not the negative log-likelihood of the mixture", R.I.node(r, s), loss, want)
    _, s2 = invoke(R, s1, "update_parameters")
    a = attr(R, s2, "mixing")
    ax = t.axes(a.shape)
    A = t.ev(a, list(ax))
    alpha = [Term(ONE, {("x", "mixing", False, ax): ONE}, frozenset())]
    want = t.scale(t.mul(alpha, t.diff(loss, "mixing", ax)), -1)
    m.oblige(t, t.zero(t.sub(A, want)), "update_parameters", "the new mixing weights are not the mean posteriors (- alpha dLoss/dalpha)", a, A, want)
    # sum_t gamma (B - B_new) = T B dLoss/dB^T B
    b = attr(R, s2, "covariance")
    bx = t.axes(b.shape)
    Bn = t.ev(b, list(bx))
    n2, f2, i, j = bx
    T = [Term(ONE, {("dim", t.size[u]): ONE}, frozenset())]
    sg = t.summed(t.subst(G, {n: n2, f: f2}), u)
    x, y = t.new(c), t.new(c)
    cov = lambda p, q: [Term(ONE, {("x", "covariance", False, (n2, f2, p, q)): ONE}, frozenset())]
    grad = t.diff(loss, "covariance", (n2, f2, y, x))
    rhs = t.mul(T, t.summed(t.summed(t.mul(t.mul(cov(i, x), grad), cov(y, j)), x), y))
    lhs = t.mul(sg, t.sub(cov(i, j), Bn))
    m.oblige(t, t.zero(t.sub(lhs, rhs)), "update_parameters", "the new covariances are not the posterior-weighted fixed point of the reported loss", b, lhs, rhs)


# ------------------------------------------------------------------ filters of the block decomposition
def atoms_of(t, ex, acc=None, seen=None):
    """leaf occurrences of an expression, those inside functions included: name -> sizes of the axes"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    for u in ex:
        for a in u.f:
            if a[0] == "x":
                acc.setdefault(a[1], [t.size.get(i) for i in a[3]])
            elif a[0] == "f" and a[2] not in seen:
                seen.add(a[2])
                atoms_of(t, t.templ[a[2]][0], acc, seen)
    return acc


def block_weights(m):
    """the weighted covariances: sum_jd RXX_{ij,cd} w*_{jd} is the derivative of the data part, with y = W x, against -2 log|det W|"""
    R, chk, I = m.R, m.chk, m.R.I
    calls, orig = [], I.call_fn

    def hook(f, args, kw, s):
        if f.self is None and getattr(f.fdef, "name", None) == "update_by_block_decomposition_vcd":
            v = I.bind(f, args, kw, s, I.new_env(s, f.env))
            a = [v.get(x.arg) for x in f.fdef.args.args[:2]]
            if all(isinstance(x, Arr) for x in a):
                calls.append([I.node(x, s) for x in a])
        return orig(f, args, kw, s)
    r, s = invoke(R, m.st, "compute_loss")
    t = m.nf()
    lv, loss = t.ev(I.node(r, s))
    for name in called(R, m.st, "update_once"):
        del calls[:]
        I.call_fn = hook
        try:
            _, s = invoke(R, m.st, name)
        except (Raised, Budget):
            continue
        finally:
            I.call_fn = orig
        d0, d1 = m.st.objs[R.obj.id], s.objs[R.obj.id]
        if calls and [a for a in d1 if isinstance(d1[a], (Arr, Tup)) and d1[a] != d0.get(a)] == ["demix_filter"]:
            break
    else:
        chk.skip(R.sc.name, "no step of the filters")
        return
    for wn, un in calls:
        try:
            if wn.shape is None or un.shape is None:
                raise Unsup("the size of the weighted covariances")
            covariance_of(m, t, loss, name, wn, un)
        except Unsup as u:
            chk.skip(R.sc.name, "%s: %s" % (name, u))


def covariance_of(m, t, loss, name, wn, un):
    b, l, n, c = w = t.axes(wn.shape)
    ld = [u for u in loss if any(a[0] == "f" and a[1] == "logdet" and t.depends(t.templ[a[2]][0], "demix_filter")
                                 and sorted(str(t.size[i]) for i in a[3]) == sorted([str(t.size[b]), str(t.size[l])]) for a in u.f)]
    if len(ld) != 1:
        raise Unsup("the log-determinant of the filters")
    (a, e), = [(a, e) for a, e in ld[0].f.items() if a[0] == "f"]
    rest = [u for u in loss if not any(a[0] == "f" and a[1] == "logdet" and t.depends(t.templ[a[2]][0], "demix_filter") for a in u.f)]
    mine = [k for k, z in atoms_of(t, rest).items() if k in t.deps and t.deps[k][0] == {"demix_filter"} and z == [t.size[i] for i in w]]
    if len(mine) != 1:
        raise Unsup("the blocks of the filters")
    G = t.diff(rest, mine[0], w)
    u = ub, ui, uj, uk, uc, ud = t.axes(un.shape)
    U = t.ev(un, list(u))
    want = t.subst(U, {ub: b, ui: l, uk: n, uc: c})
    want = t.mul(want, [Term(ONE, {("x", mine[0], True, (b, uj, n, ud)): ONE}, frozenset())])
    want = t.summed(t.summed(want, uj), ud)
    k = t.ratio(G, want)
    rest_of = Term(ld[0].c, {p: q for p, q in ld[0].f.items() if p != a}, frozenset())
    ok = k is not None and k.c > 0 and e == 1 and t.zero(t.add([rest_of], t.scale([k], 2)))
    m.oblige(t, ok, name, "the weighted covariances of the block decomposition are not the ones the reported loss calls for", un, G, want)


# ------------------------------------------------------------------ estimates
def estimates(m):
    """the estimates are the images the model gives: R_n R^-1 x at the reference microphone, posterior times the reference microphone"""
    R, st = m.R, m.st
    d = st.objs[R.obj.id]
    t = m.nf()
    X = d["input"]
    xn = R.I.node(X, st)
    ref = d["reference_id"].v
    x = lambda c, f, u: [Term(ONE, {("x", xn.attr, False, (c, f, u)): ONE}, frozenset())]
    if R.sc.short == "CACGMM":
        for post in (True, False):
            s = st.copy()
            g = attr(R, st, "posterior")
            y = R.I.call(R.I.getattr(R.obj, "separate", s), [X], {"posterior": d["posterior"]} if post else {}, s)
            y = R.I.node(y, s)
            v = n, f, u = t.axes(y.shape)
            if post:
                gam = t.ev(g, list(v))
            else:
                _, s1 = invoke(R, st, "update_posterior")
                gam = t.ev(attr(R, s1, "posterior"), list(v))
            got = t.ev(y, list(v))
            want = t.mul(gam, x(("c", ref), f, u))
            m.oblige(t, t.zero(t.sub(got, want)), "separate", "the estimates are not the posteriors times the reference microphone", y, got, want)
        return
    s = st.copy()
    y = R.I.call(R.I.getattr(R.obj, "separate", s), [X], {}, s)
    y = R.I.node(y, s)
    args = [d["basis"], d["activation"]]
    kw = {"latent": d["latent"]} if R.sc.row.get("partitioning") else {}
    lam = R.I.node(R.I.call(R.I.getattr(R.obj, "reconstruct_nmf", s), args, kw, s), s)
    n, f, u = v = t.axes(y.shape)
    L = lambda k: t.ev(lam, [k, f, u])
    c = t.dim(xn.shape[0])
    k = t.new(t.size[n])
    a, b = t.new(c), t.new(c)
    if R.sc.short == "GaussMNMF":
        H = lambda k, i, j: [Term(ONE, {("x", "spatial", False, (k, f, i, j)): ONE}, frozenset())]
    else:
        Qn = attr(R, st, "diagonalizer")
        Qi = R.I.g.mk("inv", (Qn,), None, Qn.shape)

        def H(k, i, j):
            e = t.new(c)
            q = t.ev(Qi, [f, i, e])
            p = t.conj(t.ev(Qi, [f, j, e]))
            D = [Term(ONE, {("x", "spatial", False, (f, k, e)): ONE}, frozenset())]
            return t.summed(t.mul(t.mul(q, p), D), e)
    total = t.summed(t.mul(L(k), H(k, a, b)), k)
    inv = t.inv(total, a, b)
    e = t.new(c)
    mine = t.mul(L(n), H(n, e, a))
    want = t.summed(t.summed(t.mul(t.mul(mine, inv), x(b, f, u)), a), b)
    want = t.subst(want, {e: ("c", ref)})
    got = t.ev(y, list(v))
    m.oblige(t, t.zero(t.sub(got, want)), "separate", "the estimates are not the multichannel Wiener filter of the model at the reference microphone (R_n R^-1 x)", y, got, want)


# ------------------------------------------------------------------ driver
def p27():
    chk = Check("P27", "Matrix-valued parameters must satisfy the matrix equation, and mixture parameters the expectation-maximisation step, that the derivative of the reported loss gives; "
                "estimates must be those of the model.", "other", 10)
    scs, seen = [], set()
    for cls in ALL:
        if not (cls.endswith("IPSDTA") or cls in ("GaussMNMF", "FastGaussMNMF", "CACGMM")):
            continue
        for row in algo_rows(cls):
            key = (cls, row.get("source_algorithm"), row.get("partitioning"), row.get("blocks"))
            if key not in seen:
                seen.add(key)
                extra = {} if cls.endswith("IPSDTA") else {"reference_id": Const(1)}
                scs.append(prepared(chk, cls, row, "model", extra))
    for R in run_all(chk, scs):
        short = R.sc.short
        with Model(chk, R) as m:
            for f in [block_weights] * short.endswith("IPSDTA") + [covariance_steps] * (short.endswith("IPSDTA") or short == "GaussMNMF") + [mixture] * (short == "CACGMM") + [estimates] * (not short.endswith("IPSDTA")):
                try:
                    def case(c):
                        m.chk = c
                        f(m)
                    casewise(chk, case)
                except (Unsup, Raised, Budget) as x:
                    chk.skip(R.sc.name, "%s: %s" % (f.__name__, x))
    return chk


CHECKS = {"P27": p27}
