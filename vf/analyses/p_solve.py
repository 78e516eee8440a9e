"""The spatial update functions solve their sub-problem: P24, on tensor normal forms of one step of their loops."""
from __future__ import annotations

from fractions import Fraction as Fr

from .. import funcs, npmodel
from ..framework import Check, locstr, sliced
from ..graph import dimstr
from ..interp import Budget, Raised
from ..tnf import ONE, TNF, Term, Unsup, casewise, walk_nodes
from ..values import *  # noqa
from .p_defeq import Eqs, Mat, at, mm, trusted, watch

US = "ssspy.bss._update_spatial_model."


class Upd(Mat):
    """normal forms with stores at symbolic positions, pairs of positions and constant positions of short axes"""

    def __init__(self, I, **kw):
        super().__init__(I, **kw)
        self.distinct = set()       # labels of different sources
        self.herm4 = {"RXX"}

    def conj_atom(self, a):
        if a[0] == "x" and a[1] in self.herm4:      # R(b, i, j, n, c, d)* = R(b, j, i, n, d, c)
            b, i, j, n, c, d = a[3]
            return ("x", a[1], False, (b, j, i, n, d, c))
        return super().conj_atom(a)

    def norm(self, c, fac, dum):
        for a in fac:
            if a[0] == "delta" and a[1][0] != a[1][1] and a[1][0] in self.distinct and a[1][1] in self.distinct:
                return []
        return super().norm(c, fac, dum)

    def mark(self, k):
        iv = self.g.int_value(k)
        return ("c", iv) if iv is not None else ("l", dimstr(k))

    def at1(self, v, j):
        return [Term(ONE, {("delta", (v, j) if repr(v) <= repr(j) else (j, v)): ONE}, frozenset())]

    def place(self, ax, marks, base, val, out):
        """base with the entries `marks` of axis ax replaced by those of val (a function of the index list)"""
        ex = base
        for j, m in enumerate(marks):
            i = list(out)
            i[ax] = m
            old = self.subst([self._fresh_dummies(t) for t in base], {out[ax]: m})
            ex = self.add(ex, self.mul(self.at1(out[ax], m), self.sub(val(j, i), old)))
        return ex

    def op_store(self, n):
        return self.stored(n, n.args[0], n.args[1], n.attr, n.args[2:])

    def stored(self, n, base, val, spec, where):
        """base with the value of val at one position of some of its axes"""
        out, b = self._ev(base)
        out = tuple(out)
        spec = tuple(spec) + ("f",) * (len(out) - len(spec))
        if any(s != "f" and s[0] != "i" for s in spec):
            raise Unsup("store at %s" % (n.loc,))
        m, at, idx = {}, self.const(1), []
        for ax, s in enumerate(spec):
            if s == "f":
                idx.append(out[ax])
            elif out[ax] is not None:
                k = self.mark(where[s[1]])
                m[out[ax]] = k
                at = self.mul(at, self.at1(out[ax], k))
        nd = len(val.shape) if val.shape is not None else 0
        idx = idx[len(idx) - nd:]
        v = self.ev(val, [None if self.isone(d) else x for x, d in zip(idx, val.shape or ())])
        if not m:
            return out, v
        old = self.subst([self._fresh_dummies(t) for t in b], m)
        return out, self.add(b, self.mul(at, self.sub(v, old)))

    def op_viewstore(self, n):
        base, val = n.args[:2]
        if len(n.attr) != 1 or n.attr[0][0] != "index":
            raise Unsup("store through a view at %s" % (n.loc,))
        return self.stored(n, base, val, n.attr[0][1], n.args[2:])

    def op_maskstore(self, n):
        b = self.choose(n.args[1]) if self.choose else None
        if b is None:
            raise Unsup("masked store at %s" % (n.loc,))
        v, (x, y) = self.elem([n.args[0], n.args[2]], n.shape)
        return v, y if b else x

    def op_advstore(self, n):
        base, val, lst = n.args[:3]
        axes = n.attr
        if not isinstance(axes, tuple) or len(axes) != 1 or lst.op != "list" or len(n.args) != 3:
            raise Unsup("store at %s" % (n.loc,))
        ax = axes[0]
        out, b = self._ev(base)
        marks = [self.mark(a) for a in lst.args]

        def v(j, i):
            i = i[:ax] + [("c", j)] + i[ax + 1:]
            i = i[len(i) - len(val.shape):]
            return self.ev(val, [None if self.isone(d) else x for x, d in zip(i, val.shape)])
        return tuple(out), self.place(ax, marks, b, v, tuple(out))

    def op_gather(self, n):
        lst = n.args[1]
        if lst.op != "list" or len(n.args) != 2:
            raise Unsup("gather at %s" % (n.loc,))
        ax = n.attr
        v, e = self._ev(n.args[0])
        out = list(v)
        out[ax] = self.new(self.dim(n.shape[ax]))
        ex = []
        for j, a in enumerate(lst.args):
            p = self.subst([self._fresh_dummies(t) for t in e], {v[ax]: self.mark(a)})
            ex = self.add(ex, self.mul(self.at1(out[ax], ("c", j)), p))
        return tuple(out), ex

    def op_index(self, n):
        ks = [k for k, s in enumerate(n.attr) if s != "f" and s[0] == "s"]
        if not ks:
            return super().op_index(n)
        src = n.args[0]
        v, e = self._ev(src)
        m, out, ex = {}, [], e
        for ax in range(len(v)):
            s = n.attr[ax] if ax < len(n.attr) else "f"
            if s == "f":
                out.append(v[ax])
            elif s[0] == "i":
                if v[ax] is not None:
                    ex = self.subst([self._fresh_dummies(t) for t in ex], {v[ax]: self.mark(n.args[1 + s[1]])})
            else:
                if self.isone(n.shape[len(out)]) and s[1] is not None and s[3] is None and v[ax] is not None:
                    ex = self.subst([self._fresh_dummies(t) for t in ex], {v[ax]: self.mark(n.args[1 + s[1]])})
                    out.append(None)
                    continue
                size = self.g.int_value(src.shape[ax])
                b = [None if k is None else self.g.int_value(n.args[1 + k]) for k in s[1:4]]
                if size is None or size > 8 or any(k is not None and x is None for k, x in zip(s[1:4], b)):
                    raise Unsup("slice at %s" % (n.loc,))
                pos = list(range(size))[slice(*b)]
                if v[ax] is None:
                    if pos != [0]:
                        raise Unsup("slice at %s" % (n.loc,))
                    out.append(None)
                    continue
                if len(pos) == 1:
                    ex = self.subst([self._fresh_dummies(t) for t in ex], {v[ax]: ("c", pos[0])})
                    out.append(None)
                    continue
                w = self.new(self.dim(n.shape[len(out)]))
                acc = []
                for j, p in enumerate(pos):
                    acc = self.add(acc, self.mul(self.at1(w, ("c", j)), self.subst([self._fresh_dummies(t) for t in ex], {v[ax]: ("c", p)})))
                ex = acc
                out.append(w)
        return tuple(out), ex

    def op_inv(self, n):
        if [self.g.int_value(d) for d in n.shape[-2:]] != [2, 2] or not self.small:
            return super().op_inv(n)
        v = self.axes(n.shape)
        e = {(i, j): self.ev(n.args[0], list(v[:-2]) + [("c", i), ("c", j)]) for i in (0, 1) for j in (0, 1)}
        det = self.pow(self.sub(self.mul(e[0, 0], e[1, 1]), self.mul(e[0, 1], e[1, 0])), -1)
        out = []
        for i in (0, 1):
            for j in (0, 1):
                x = self.scale(e[1 - j, 1 - i], 1 if i == j else -1)
                out = self.add(out, self.mul(self.mul(x, det), self.mul(self.at1(v[-2], ("c", i)), self.at1(v[-1], ("c", j)))))
        return v, out

    small = False       # 2 x 2 inverses are written out

    def op_concat(self, n):
        ax = n.attr
        out = self.axes(n.shape)
        ex, off = [], 0
        for a in n.args:
            size = self.g.int_value(a.shape[ax])
            if size is None or size > 8:
                raise Unsup("concatenation at %s" % (n.loc,))
            for j in range(size):
                i = [None if self.isone(d) else x for x, d in zip(out, a.shape)]
                i[ax] = None if self.isone(a.shape[ax]) else ("c", j)
                p = self.ev(a, i)
                ex = self.add(ex, p if out[ax] is None else self.mul(self.at1(out[ax], ("c", off + j)), p))
            off += size
        return out, ex


class Step(Eqs):
    """one step of a sweep: the array under update is a leaf, its new value is read at an index list"""

    def __init__(self, chk, R, phi, leaf):
        super().__init__(chk, R)
        self.t = Upd(R.I, identity={"flooring_fn"}, herm={"U"})
        if phi is not None:
            self.t.leaf[phi.id] = leaf
            self.phi, self.back = phi, phi.args[1]

    def apart(self, ex, *marks):
        """the terms at positions different from the marks"""
        return [t for t in self.t.merge(ex) if not any(a[0] == "delta" and (a[1][0] in marks or a[1][1] in marks) for a in t.f)]

    def multiple(self, A, B, what, node):
        """obligation: A is a multiple of B"""
        self.multiple_of_any(A, [B], what, node)

    def multiple_of_any(self, A, Bs, what, node, free=None):
        """obligation: A is a multiple of one of Bs, by a factor that does not depend on the leaf `free`"""
        t = self.t
        A = t.merge(A)
        ok = not A
        for a, b, B in [(a, b, B) for B in map(t.merge, Bs) for a in A for b in B]:
            if not ok:
                f = t.mul([a], t.pow([b], -1))
                ok = (free is None or not t.depends(f, free)) and t.zero(t.sub(A, t.mul(B, f)))
        self.equal([] if ok else A, [], what, node)


def sweeps(R):
    """the loop-carried arrays the result consists of, outermost first"""
    out = []
    n = R.retnode
    while n is not None and n.op == "loopphi":
        out.append(n)
        n = n.args[1]
    return out


def position(phi, depth=6):
    """the position an update step stores to"""
    for x in walk_nodes(phi.args[1]):
        if x.op == "store" and x.args[0] is phi:
            return [x.args[2 + s[1]] for s in x.attr if s != "f" and s[0] == "i"]
    return []


def loop_indices(phi):
    lid = phi.attr[0][0]
    return [x for x in walk_nodes(phi.args[1]) if x.op == "loopidx" and x.attr == lid]


def covers(q, phi, size, what):
    """obligation: the loop visits every position of an axis"""
    ix = loop_indices(phi)
    if len(ix) != 1 or not ix[0].meta or "range" not in ix[0].meta:
        q.chk.skip(q.R.name, "positions the loop visits")
        return
    lo, hi, step = ix[0].meta["range"]
    g = q.R.g
    if g.int_value(step) is None or g.int_value(lo) is None:
        q.chk.skip(q.R.name, "positions the loop visits")
        return
    ok = g.int_value(lo) == 0 and g.int_value(step) == 1 and q.t.dim(hi) == size
    q.chk.oblige(ok, "%s|covers %s" % (q.R.name, what), "%s: one sweep does not visit every %s: range(%s, %s, %s) at %s [%s]" % (
        q.R.name.split("[")[0].split(".")[-1], what, dimstr(lo), dimstr(hi), dimstr(step), locstr(ix[0].loc), q.R.name))


def pairs(chk, R):
    """the default pairs are two different sources each and together all of them"""
    phi = sweeps(R)
    if len(phi) != 1:
        raise Unsup("the loop over the pairs")
    g, lid = R.g, phi[0].attr[0][0]
    ix = loop_indices(phi[0])
    if len(ix) != 1 or not ix[0].meta or "range" not in ix[0].meta:
        raise Unsup("the pairs of sources")
    lo, hi, step = ix[0].meta["range"]
    C = [d for d in (R.argnodes[0].shape or ()) if dimstr(d) == "C"][0]
    at = set()
    for x in walk_nodes(phi[0].args[1]):
        if x.op == "atom" and x.attr == "mod" and len(x.args) == 2:
            if x.args[1] is not C and dimstr(x.args[1]) != "C":
                raise Unsup("the pairs of sources")
            c = g.int_value(g.padd(x.args[0], g.pmul(g.const(-1), g.pmul(step, g.poly({(ix[0],): 1})))))
            if c is not None:
                at.add(c)
    s, h = g.int_value(step), g.int_value(lo)
    if s is None or h is None or s < 1 or len(at) != 2:
        raise Unsup("the pairs of sources")
    # positions c + s i modulo C for 0 <= i < ceil((hi - lo) / s): all of them when the offsets fill the step
    short = R.name.split("[")[0].split(".")[-1]
    a, b = sorted(at)
    where = locstr(ix[0].loc)
    chk.oblige(b - a == 1, "%s|pair" % R.name, "%s: a default pair is (i + %d, i + %d), which need not be two different sources, or leaves out some, at %s [%s]" % (short, a, b, where, R.name))
    rest = g.int_value(g.padd(hi, g.pmul(g.const(-1), C)))
    if rest is None:
        raise Unsup("the number of default pairs")
    chk.oblige(h <= 0 and rest >= 0 and s <= 2, "%s|all pairs" % R.name, "%s: the default pairs leave out sources: range(%s, %s, %s) at %s [%s]" % (
        short, dimstr(lo), dimstr(hi), dimstr(step), where, R.name))


def label_of(t, phi):
    ix = loop_indices(phi)
    if len(ix) != 1:
        raise Unsup("the index of the loop")
    return t.mark(t.g.poly({(ix[0],): 1}))


def bilinear(q, x, U, y):
    """x^H U y at functions of one index"""
    t = q.t
    a, b = q.new(q.chan), q.new(q.chan)
    return t.summed(t.summed(t.mul(t.mul(x(a), U(a, b)), t.conj(y(b))), b), a)


def ip1(chk, R):
    s = sweeps(R)
    if len(s) != 1:
        raise Unsup("the loop over the sources")
    q = Step(chk, R, s[0], "W")
    t = q.t
    n = label_of(t, s[0])
    f, k, c = t.axes(s[0].shape)
    q.chan = c
    W = lambda k: (lambda c: q.x("W", f, k, c))
    new = lambda k: (lambda c: t.ev(q.back, [f, k, c]))
    U = lambda a, b: q.x("U", f, n, a, b)
    covers(q, s[0], t.size[k], "source")
    q.equal(q.apart(t.sub(new(k)(c), W(k)(c)), n), [], "the rows of the other sources are kept", q.back)
    q.equal(q.apart(bilinear(q, W(k), U, new(n)), n), [], "W U_n w_n is zero but at the n-th entry", q.back)
    q.equal(bilinear(q, new(n), U, new(n)), t.const(1), "w_n^H U_n w_n = 1", q.back)


def iss1(chk, R):
    s = sweeps(R)
    if len(s) != 1:
        raise Unsup("the loop over the sources")
    q = Step(chk, R, s[0], "Y")
    t = q.t
    t.real.add("phi")
    n = label_of(t, s[0])
    k, f, u = t.axes(s[0].shape)
    y = lambda k, u, conj=False: q.x("Y", k, f, u, conj=conj)
    new = lambda k, u: t.ev(q.back, [k, f, u])
    w = lambda k: q.x("phi", k, f, u, real=True)
    covers(q, s[0], t.size[k], "source")
    r = t.new(t.size[u])
    d = lambda u: t.sub(new(k, u), y(k, u))
    q.equal(t.mul(d(u), y(n, r)), t.mul(d(r), y(n, u)), "the change of every source is a multiple of the n-th source", q.back)
    q.equal(q.apart(t.summed(t.mul(w(k), t.mul(new(k, u), y(n, u, True))), u), n), [], "weighted correlation of the other sources with the n-th one is zero", q.back)
    nn = t.summed(t.mul(w(n), t.mul(new(n, u), t.conj(new(n, u)))), u)
    q.equal(t.mul(nn, [Term(ONE, {("dim", t.size[u]): -ONE}, frozenset())]), t.const(1), "the weighted power of the n-th source is one", q.back)


def vcd(chk, R):
    s = sweeps(R)
    if len(s) != 2:
        raise Unsup("the loops over neighbours and sources")
    pos = position(s[1])
    if len(pos) != 2:
        raise Unsup("the row that is updated")
    for singular in (False, True):
        q = Step(chk, R, s[1], "W")
        t = q.t
        tested = []

        def choose(c):
            if c not in tested:
                tested.append(c)
            return singular
        t.choose = choose
        b, l, k, c = t.axes(s[1].shape)
        q.chan = c
        i, n = (t.mark(x) for x in pos)
        if not singular:
            covers(q, s[0], t.size[l], "neighbour")
            covers(q, s[1], t.size[k], "source")
        W = lambda l, k, c: q.x("W", b, l, k, c)
        new = lambda l, k, c: t.ev(q.back, [b, l, k, c])
        q.equal(q.apart(t.sub(new(l, k, c), W(l, k, c)), n), [], "the rows of the other sources are kept", q.back)
        q.equal(q.apart(t.sub(new(l, n, c), W(l, n, c)), i), [], "the rows at the other neighbours are kept", q.back)
        # g = sum_j R_ij w_jn with the new w_in
        p, e = q.new(l), q.new(c)
        cross = lambda c: t.summed(t.summed(t.mul(q.x("RXX", b, i, p, n, c, e), t.sub(q.x("W", b, p, n, e, conj=True), t.mul(q.delta(p, i), q.x("W", b, i, n, e, conj=True)))), p), e)
        own = lambda c: t.summed(t.mul(q.x("RXX", b, i, i, n, c, e), t.conj(new(i, n, e))), e)
        grad = lambda c: t.add(cross(c), own(c))
        q.equal(q.apart(t.summed(t.mul(W(i, k, c), grad(c)), c), n), [], "the gradient is orthogonal to the rows of the other sources", q.back)
        one = t.summed(t.mul(new(i, n, c), grad(c)), c)
        if not singular:
            q.equal(one, t.const(1), "w_n^H (sum_j R_ij w_jn) = 1", q.back)
            continue
        zero = [a for x in tested if x.op in ("cmp", "user") for a in x.args if a.shape is not None and len(a.shape) >= 1]
        if len(zero) != 1:
            chk.skip(R.name, "the quantity that vanishes in the singular case")
            continue
        m = [b] + [None] * (len(zero[0].shape) - 1)
        q.multiple(t.sub(one, t.const(1)), t.conj(t.ev(zero[0], m)), "w_n^H (sum_j R_ij w_jn) = 1 when the coupling to the other neighbours vanishes", q.back)


def eigensolver(I, log):
    """calls of the generalised eigensolver, answered by leaves; its own equations are P26"""
    orig = I.call_fn

    def hook(f, args, kw, s):
        if getattr(f.fdef, "name", None) in ("eigh", "eigh2") and I.depth > 0:
            vals = I.bind(f, args, kw, s, I.new_env(s, f.env))
            ab = [I.node(vals[k], s) for k in ("A", "B") if isinstance(vals.get(k), Arr)]
            ty = vals.get("type")
            if len(ab) == 2 and ab[0].shape is not None and isinstance(ty, Const) and ty.v == 1:
                k = len(log)
                dt = "c" if "c" in (npmodel.dt(ab[0]), npmodel.dt(ab[1])) else "f"
                val = I.input_array(s, "lam%d" % k, ab[0].shape[:-1], "f")
                vec = I.input_array(s, "h%d" % k, ab[0].shape, dt)
                log.append((ab[0], ab[1], "h%d" % k))
                return Tup((val, vec))
        return orig(f, args, kw, s)
    I.call_fn = hook


def covariances(I, log):
    """the flooring of the weighted covariances, taken as the identity; P26 has its own equation for it"""
    orig = I.call_fn

    def hook(f, args, kw, s):
        if getattr(f.fdef, "name", None) == "to_psd" and I.depth > 0 and args:
            n = I.node(args[0], s)
            if n.shape is not None and len(n.shape) == 4:
                log.append((n, "Ut%d" % len(log)))
                return I.input_array(s, log[-1][1], n.shape, "c")
        return orig(f, args, kw, s)
    I.call_fn = hook


def minimiser(I, lq):
    """the minimiser of the penalised quadratic as a free vector, where its size is known"""
    def new(name, v, s):
        if "v" in v and v["v"].shape is not None:
            return I.input_array(s, "q%d" % len(lq), v["v"].shape, "c")
    return new


def columns(t, ex, leaf):
    """columns of the eigenvector leaf an expression is made of"""
    out = set()
    for x in ex:
        for a in x.f:
            if a[0] == "x" and a[1] == leaf:
                out.add(a[3][-1])
    return out


def paired(q, f, call, cols, quad, block, node):
    """obligations of a pair (m, n) solved by one generalised eigenproblem

    cols[k]: column of the eigenvectors source k is made of; quad(k, l, j): w_k^H U_j w_l of the new filters;
    block(k): the matrix (functions of two positions) whose quadratic form the norm of source k is"""
    t = q.t
    A, B, h = call
    if None in cols or cols[0] == cols[1]:
        q.equal(t.const(1), [], "the two sources use different eigenvectors", node)
        return
    hh = lambda a, k, conj=False: q.x(h, f, ("c", a), k, conj=conj)

    def form(M, x, y):
        out = []
        for a in (0, 1):
            for b in (0, 1):
                out = t.add(out, q.prod(hh(a, x, True), t.ev(M, [f, ("c", a), ("c", b)]), hh(b, y)))
        return out
    for k in (0, 1):
        q.equal(quad(k, k, k), t.const(1), "the weighted power of source %d of the pair is one" % (k + 1), node)
        off = quad(1 - k, k, k)
        D = [form(M, x, y) for M in (A, B) for x, y in ((cols[0], cols[1]), (cols[1], cols[0]))]
        q.multiple_of_any(off, D, "source %d of the pair is uncorrelated with the other in its own metric" % (k + 1), node)


def ip2(chk, R):
    s = sweeps(R)
    if len(s) != 1:
        raise Unsup("the loop over the pairs")
    q = Step(chk, R, s[0], "W")
    call = solver_of(R, q.back)
    t = q.t
    adv = [x for x in walk_nodes(q.back) if x.op == "advstore" and x.args[0] is s[0]]
    if len(adv) != 1 or adv[0].args[2].op != "list" or len(adv[0].args[2].args) != 2:
        raise Unsup("the rows that are updated")
    mn = [t.mark(a) for a in adv[0].args[2].args]
    t.distinct |= set(mn)
    f, k, c = t.axes(s[0].shape)
    q.chan = c
    t.herm.add("G")

    def U(f, j, a, b):       # (W U_j W^H)^-1 = G_j
        p, r = q.new(c), q.new(c)
        iw = lambda a, p: inverse(q, lambda x, y: q.x("W", f, x, y), a, p)
        ig = lambda p, r: inverse(q, lambda x, y: q.x("G", f, j, x, y), p, r)
        return q.prod(iw(a, p), ig(p, r), t.conj(iw(b, r)), over=[p, r])
    q.put(R.argnodes[1], U)
    W = lambda k: (lambda c: q.x("W", f, k, c))
    new = lambda k: (lambda c: t.ev(q.back, [f, k, c]))
    q.equal(q.apart(t.sub(new(k)(c), W(k)(c)), *mn), [], "the rows of the other sources are kept", q.back)
    for i, m in enumerate(mn):
        q.equal(q.apart(bilinear(q, W(k), lambda a, b: U(f, m, a, b), new(m)), *mn), [], "W U_%s w_%s is zero but at the entries of the pair" % ("mn"[i], "mn"[i]), q.back)
    cols = [one(columns(t, new(m)(c), call[2])) for m in mn]
    quad = lambda k, l, j: bilinear(q, new(mn[k]), lambda a, b: U(f, mn[j], a, b), new(mn[l]))
    paired(q, f, call, cols, quad, None, q.back)
    # the filter of a source uses the eigenvector with the larger value of its own metric
    i, j = t.axes(call[0].shape)[1:]
    first = [k for k, m in enumerate(mn) if t.zero(t.sub(t.ev(call[0], [f, ("c", 0), ("c", 1)]), q.x("G", f, m, mn[0], mn[1])))]
    if len(first) != 1 or None in cols:
        chk.skip(R.name, "the order of the eigenvectors")
        return
    q.chk.oblige(cols[first[0]] == ("c", 1), "%s|larger" % R.name, "update_by_ip2: a source of the pair uses the eigenvector of the smaller eigenvalue at %s [%s]" % (
        locstr(call[0].loc), R.name))


def iss2(chk, R):
    n, pair = int(R.name.split("[")[1].split(",")[1].split()[0]), R.name.split("pair (")[1].split(")")[0]
    m = [int(x) % n for x in pair.split(",")]
    q = Step(chk, R, None, None)
    t = q.t
    t.small = True
    G = R.retnode
    t.real.add("phi")
    _, f, u = t.axes(G.shape)
    c = [("c", k) for k in range(n)]
    y = lambda k, u, conj=False: q.x("Y", c[k], f, u, conj=conj)
    new = lambda k, u: t.ev(G, [c[k], f, u])
    mean = lambda j, a, b: t.mul(t.summed(q.prod(q.x("phi", c[j], f, u, real=True), a, t.conj(b)), u), [Term(ONE, {("dim", t.size[u]): -ONE}, frozenset())])
    for k in range(n):
        d = t.merge(new(k, u) if k in m else t.sub(new(k, u), y(k, u)))
        rest = [x for x in d if not any(a[0] == "x" and a[1] == "Y" and a[3][2] == u and a[3][0][1] in m for a in x.f)]
        q.equal(rest, [], "source %d changes by a combination of the sources of the pair" % k, G)
        if k not in m:
            for l in m:
                q.equal(mean(k, new(k, u), y(l, u)), [], "weighted correlation of source %d with source %d is zero" % (k, l), G)
    call = solver_of(R, G)
    cols = [one(columns(t, new(k, u), call[2])) for k in m]
    quad = lambda k, l, j: mean(m[j], new(m[k], u), new(m[l], u))
    paired(q, f, call, cols, quad, None, G)
    off = lambda M: t.ev(M, [f, ("c", 0), ("c", 1)])
    first = [k for k in (0, 1) for a, b in ((0, 1), (1, 0)) if t.zero(t.sub(off(call[0]), mean(m[k], y(m[a], u), y(m[b], u))))]
    if len(first) != 1 or None in cols:
        chk.skip(R.name, "the order of the eigenvectors")
        return
    q.chk.oblige(cols[first[0]] == ("c", 0), "%s|smaller" % R.name, "update_by_iss2: a source of the pair uses the eigenvector of the larger eigenvalue at %s [%s]" % (
        locstr(call[0].loc), R.name))


def solver_of(R, node):
    """the call of the eigensolver a value is made of"""
    names = {x.attr for x in walk_nodes(node) if x.op == "input"}
    calls = [c for c in R.pencils if c[2] in names]
    if len(calls) != 1:
        raise Unsup("the generalised eigenproblem")
    return calls[0]


def one(s):
    return next(iter(s)) if len(s) == 1 else None


def inverse(q, M, i, j):
    """entry (i, j) of the inverse of a matrix given as a function of two indices"""
    x, y = q.new(q.chan), q.new(q.chan)
    return q.t.subst(TNF.inv(q.t, M(x, y), x, y), {x: i, y: j})


class Ipa(Upd):
    """normal forms over the sources other than one, which have an index of their own: E(c, k) selects the k-th of them"""

    def __init__(self, I, n, red, **kw):
        super().__init__(I, **kw)
        self.src, self.red = n, red
        self.real |= {"E", "m"}
        self.block = None           # the inverse of the weighted covariance of source n, by blocks

    def other(self, i):
        return isinstance(i, int) and self.size[i] == self.red

    def norm(self, c, fac, dum):
        for a, e in fac.items():
            if a[0] == "delta" and self.src in a[1] and any(self.other(i) for i in a[1]) or a[0] == "x" and a[1] == "E" and a[3][0] == self.src:
                return []
        return super().norm(c, fac, dum)

    def _cancel(self, c, fac, dum):
        for a, e in fac.items():
            if a[0] == "f" and a[1] == "inv" and e == 1 and self.block:
                ex, vs = self.templ[a[2]][:2]
                leaf = next(iter(ex[0].f)) if len(ex) == 1 and len(ex[0].f) == 1 and ex[0].c == 1 else None
                if leaf and leaf[0] == "x" and leaf[1] == "Ut" and ex[0].f[leaf] == 1:
                    m = dict(zip(vs, a[3]))
                    i = [m.get(x, x) for x in leaf[3]]
                    if i[1] == self.src:
                        r, k = self.rc(a[2])        # the positions of row and column of the template
                        flip = leaf[3][2] == vs[k]
                        x, y = (a[3][k], a[3][r]) if flip else (a[3][r], a[3][k])
                        rest = {b: z for b, z in fac.items() if b is not a}
                        out = self.mul([Term(c, rest, frozenset())], self.block(i[0], x, y))
                        for d in dum:
                            out = self.summed(out, d)
                        return out
            if a[0] != "x" or a[1] != "E" or e != 1:
                continue
            i, k = a[3]
            rest = {x: y for x, y in fac.items() if x is not a}
            if self.other(i):
                d = ("delta", (i, k) if repr(i) <= repr(k) else (k, i))
                rest[d] = rest.get(d, 0) + 1
                return c, rest, dum
            if i in dum:
                return c, self._subst_fac(rest, {i: k}), dum - {i}
            if k in dum:
                both = [x for x in rest if k in self.idx(x)]
                if len(both) == 1 and both[0][0] == "x" and both[0][1] == "E" and rest[both[0]] == 1:
                    j = both[0][3][0]
                    del rest[both[0]]
                    d = ("delta", (i, j) if repr(i) <= repr(j) else (j, i))
                    out = self.norm(c, {**rest, d: ONE}, dum - {k})
                    for p in (i, j):
                        z = ("delta", (p, self.src) if repr(p) <= repr(self.src) else (self.src, p))
                        rest = {**rest, z: ONE}
                    return self.merge(out + self.norm(-c, rest, dum - {k}))
        return super()._cancel(c, fac, dum)

    def inv(self, ex, r, c):
        if self.block and len(ex) == 1 and ex[0].c == 1 and not ex[0].d and len(ex[0].f) == 1:
            (a, e), = ex[0].f.items()
            if a[0] == "x" and a[1] == "Ut" and e == 1 and a[3][1] == self.src and set(a[3][2:]) == {r, c}:
                return self.block(a[3][0], a[3][2], a[3][3])
        return super().inv(ex, r, c)

    def op_concat(self, n):
        ax = n.attr
        if len(n.args) == 2 and all(a.op == "index" and a.args[0] is n.args[0].args[0] for a in n.args):
            base = n.args[0].args[0]
            cut = []
            for a in n.args:
                spec = tuple(a.attr) + ("f",) * (len(base.shape) - len(a.attr))
                if any(s != "f" for k, s in enumerate(spec) if k != ax) or spec[ax] == "f" or spec[ax][0] != "s" or spec[ax][3] is not None:
                    raise Unsup("concatenation at %s" % (n.loc,))
                cut.append([None if k is None else a.args[1 + k] for k in spec[ax][1:3]])
            (lo, p), (r, hi) = cut
            g = self.g
            if (lo is None or g.int_value(lo) == 0) and hi is None and p is not None and r is not None:
                if self.mark(p) == self.src and g.int_value(g.padd(r, g.pmul(g.const(-1), p))) == 1:
                    v, e = self._ev(base)
                    k = self.new(self.dim(n.shape[ax]))
                    out = list(v)
                    out[ax] = k
                    e = self.mul([self._fresh_dummies(t) for t in e], [Term(ONE, {("x", "E", False, (v[ax], k)): ONE}, frozenset())])
                    return tuple(out), self.summed(e, v[ax])
        return super().op_concat(n)


def ipa(chk, R):
    s = sweeps(R)
    if len(s) != 1:
        raise Unsup("the loop over the sources")
    names = {x.attr for x in walk_nodes(s[0].args[1]) if x.op == "input"}
    calls = [c for c in R.lq if c[2] in names]
    psd = [c for c in R.psd if c[1] in names]
    if len(calls) != 1 or len(psd) != 1:
        raise Unsup("the penalised quadratic minimisation")
    vals, _, leaf = calls[0]
    if not all(k in vals and vals[k].shape is not None for k in ("H", "v", "z")):
        raise Unsup("the operands of the penalised quadratic minimisation")
    H, v, z = (vals[k] for k in ("H", "v", "z"))
    q = Step(chk, R, s[0], "Y")
    base = q.t
    n = label_of(base, s[0])
    t = q.t = Ipa(R.I, n, base.dim(v.shape[-1]), identity={"flooring_fn"}, herm={"Ut", "C"})
    t.leaf.update(base.leaf)
    t.leaf.update({x.id: "Ut" for x in walk_nodes(q.back) if x.op == "input" and x.attr == psd[0][1]})
    t.real.add("phi")
    k, f, u = t.axes(s[0].shape)
    covers(q, s[0], t.size[k], "source")
    # the weighted covariances
    b, i, j, l = t.axes(psd[0][0].shape)
    y = lambda i, conj=False: q.x("Y", i, b, u, conj=conj)
    cov = t.mul(t.summed(q.prod(q.x("phi", i, b, u, real=True), y(j), y(l, True)), u), [Term(ONE, {("dim", t.size[u]): -ONE}, frozenset())])
    q.equal(t.ev(psd[0][0], [b, i, j, l]), cov, "the weighted covariances are those of the current sources", psd[0][0])
    K = lambda: t.new(t.red)

    def block(f, i, j):
        a, c = K(), K()
        E = lambda i, a: q.x("E", i, a, real=True)
        at = lambda i: q.delta(i, n)
        out = q.prod(E(i, a), q.x("C", f, c, a), E(j, c), over=[a, c])
        out = t.add(out, q.prod(at(i), q.x("d", f, a), E(j, a), over=[a]))
        out = t.add(out, q.prod(E(i, a), q.x("d", f, a, conj=True), at(j), over=[a]))
        return t.add(out, q.prod(at(i), at(j), q.x("m", f, real=True)))
    t.block = block
    # the step as a matrix
    c, f2, u2 = t.new(t.size[k]), t.new(t.size[f]), t.new(t.size[u])

    def T(row, col):
        d = t.diff(t.ev(q.back, [row, f, u]), "Y", (col, f2, u2))
        return t.summed(t.summed(d, f2), u2)
    a, a2 = K(), K()
    r = lambda a: T(a, n)
    q.equal(T(a, a2), q.delta(a, a2), "the other sources change by multiples of source n", q.back)

    def co(c):       # det T = T(n, .) co
        x = K()
        return t.sub(q.delta(c, n), t.summed(t.mul(q.x("E", c, x, real=True), r(x)), x))
    M = lambda i, j: block(f, i, j)
    quad = t.new(t.size[k]), t.new(t.size[k])
    full = t.summed(t.summed(q.prod(t.conj(co(quad[0])), M(*quad), co(quad[1])), quad[0]), quad[1])
    j2 = t.new(t.size[k])
    for row, what in ((n, "n"), (a, "others")):
        p = t.conj(T(n, row))
        Mq = t.summed(t.mul(M(row, j2), co(j2)), j2)
        q.equal(t.mul(t.mul(p, p), full), t.mul(Mq, Mq), "the filter of source n is optimal given the other rows (%s)" % what, q.back)
    # the objective in terms of the solution of the minimisation
    qv = lambda k, conj=False: q.x(leaf, f, k, conj=conj)
    x = K()
    ut = lambda i, j, l: q.x("Ut", f, i, j, l)
    pen = t.mul(t.mul(ut(x, n, n), r(x)), t.conj(r(x)))
    cross = t.mul(r(x), ut(x, n, x))
    pen = t.summed(t.add(pen, t.add(cross, t.conj(cross))), x)
    diff = t.diff(pen, leaf, (f2, a))
    diff = t.summed(diff, f2)
    q.equal(diff, qv(a, True), "the weighted power of the other sources is the squared norm of the solution", q.back)
    e1, e2 = K(), K()
    s1 = lambda e: t.add(qv(e), t.ev(v, [f, e]))
    inner = t.summed(t.summed(q.prod(t.conj(s1(e1)), t.ev(H, [f, e1, e2]), s1(e2)), e1), e2)
    inner = t.add(inner, t.ev(z, [f]))
    q.multiple_of_any(full, [inner], "the determinant is that of the penalty", v, leaf)


TABLE = {"update_by_ip1": ip1, "update_by_iss1": iss1, "update_by_ip2": ip2, "update_by_ipa": ipa, "update_by_iss2": iss2, "update_by_block_decomposition_vcd": vcd}


def PAIRS(*pair):
    """a pair selector that yields one given pair"""
    return lambda: UserFn("pair_selector", lambda I, st, args, kw, nodes: Tup((Tup(tuple(Const(k) for k in pair)),)))


def entries():
    A = funcs.A
    C, F, T = "C", "F", "T"
    out = []
    fl = {"flooring_fn": funcs.FLOOR}
    for ov in (True, False):
        for k, kw in (("", fl), (",default", {})):
            out.append((US + "update_by_ip1", "c,overwrite=%s%s" % (ov, k), [A("W0", [F, C, C], "c"), A("U", [F, C, C, C], "c")], {"overwrite": Const(ov), **kw}, None))
    for k, kw in (("", fl), ("default", {})):
        out.append((US + "update_by_iss1", "c" + k, [A("Y0", [C, F, T], "c"), A("phi", [C, F, T], "f")], dict(kw), None))
    for ov in (True, False):
        out.append((US + "update_by_ip2", "c,overwrite=%s" % ov, [A("W0", [F, C, C], "c"), A("U", [F, C, C, C], "c")],
                    {"overwrite": Const(ov), **fl}, None))
    out.append((US + "update_by_ip2", "c,pairs", [A("W0", [F, C, C], "c"), A("U", [F, C, C, C], "c")], dict(fl), None))
    out.append((US + "update_by_iss2", "c,pairs", [A("Y0", [C, F, T], "c"), A("phi", [C, F, T], "f")], dict(fl), None))
    for n, a, b in ((4, 1, 3), (4, 2, 0), (3, 0, -1), (2, 0, 1)):
        out.append((US + "update_by_iss2", "c,%d sources,pair (%d, %d)" % (n, a, b), [A("Y", [n, F, T], "c"), A("phi", [n, F, T], "f")],
                    {"pair_selector": PAIRS(a, b), **fl}, None))
    for norm in (True, False):
        out.append((US + "update_by_ipa", "c,normalization=%s" % norm, [A("Y0", [C, F, T], "c"), A("phi", [C, F, T], "f")],
                    {"normalization": Const(norm), **fl}, None))
    for ov in (True, False):
        out.append((US + "update_by_block_decomposition_vcd", "c,overwrite=%s" % ov,
                    [A("W0", ["B", "L", C, C], "c"), A("RXX", ["B", "L", "L", C, C, C], "c")], {"overwrite": Const(ov)}, None))
    return out


def prepare(project, entry):
    log = []

    def before(I):
        trusted(I)
        eigensolver(I, log)
        if entry[0].endswith("ipa"):
            watch(I, ("lqpqm2",), lq, minimiser(I, lq))
            covariances(I, psd)
    lq, psd = [], []
    R = funcs.run(project, entry, before=before)
    R.pencils, R.lq, R.psd = log, [(v, r, r.attr) for _, v, r in lq], psd
    return R


def p24():
    chk = Check("P24", "Every step of a spatial update function must satisfy the stationarity equations of its sub-problem, as identities of tensor normal forms.", "other", 4)
    for entry in sliced(entries()):
        chk.tried += 1
        R = prepare(chk.project, entry)
        if R.error:
            chk.skip(R.name, str(R.error))
            continue
        chk.ran(R)
        try:
            fn = pairs if ",pairs" in entry[1] else TABLE[entry[0][len(US):]]
            casewise(chk, lambda c: fn(c, R))
        except (Unsup, Raised, Budget) as x:
            chk.skip(R.name, "%s" % x)
    return chk


CHECKS = {"P24": p24}
