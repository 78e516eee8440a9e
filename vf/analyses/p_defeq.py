"""Defining equations of the numerical building blocks, on tensor normal forms: P26."""
from __future__ import annotations

from fractions import Fraction as Fr

from .. import funcs
from ..framework import Check, locstr, sliced
from ..graph import dimstr
from ..interp import Budget, Raised
from ..tnf import ONE, TNF, Term, Unsup, casewise, walk_nodes
from ..values import *  # noqa

IM = ("i",)


class Mat(TNF):
    """normal forms with matrix inverses taken factor by factor, unitary and semi-unitary leaves, Cholesky factors and
    spectral decompositions of arguments whose decomposition is known, and the imaginary unit"""

    def __init__(self, I, unitary=(), semi=(), chol=(), eig=(), **kw):
        super().__init__(I, **kw)
        self.unitary, self.semi = set(unitary), set(semi)
        self.chol, self.eig, self.svds = list(chol), list(eig), []
        self.unmatched = []         # arguments of decompositions that are none of the known ones
        self.flips = []             # axes read backwards
        self.zeros = set()          # leaves that are zero

    # ---------------------------------------------------------------- imaginary unit
    def norm(self, c, fac, dum):
        if IM in fac and fac[IM] != 1:
            e = fac[IM]
            if e.denominator != 1:
                raise Unsup("root of the imaginary unit")
            fac = dict(fac)
            k = int(e) % 4
            del fac[IM]
            if k >= 2:
                c = -c
            if k % 2:
                fac[IM] = ONE
        for a in [a for a in fac if a[0] == "q" and not 0 <= fac[a] < 1]:
            fac = dict(fac)
            k = fac[a].numerator // fac[a].denominator
            c = c * a[1] ** k
            fac[a] -= k
            if not fac[a]:
                del fac[a]
        if self.zeros and any(a[0] == "x" and a[1] in self.zeros and e > 0 for a, e in fac.items()):
            return []
        return super().norm(c, fac, dum)

    def _cpow(self, c, e, fac):
        if c == 1 or e.denominator == 1:
            return super()._cpow(c, e, fac)
        sign = ONE
        if c < 0:
            if e.denominator % 2 == 0:
                raise Unsup("even root of a negative")
            sign = -ONE if e.numerator % 2 else ONE
        fac = dict(fac)
        for n, sg in ((abs(c.numerator), 1), (c.denominator, -1)):
            p = 2
            while n > 1:
                if p * p > n:
                    p = n
                k = 0
                while n % p == 0:
                    n, k = n // p, k + 1
                if k:
                    q = ("q", Fr(p))
                    fac[q] = fac.get(q, Fr(0)) + sg * k * e
                p += 1
        return sign, fac

    def conj(self, ex):
        return super().conj([Term(-t.c if IM in t.f else t.c, t.f, t.d) for t in ex])

    def op_const(self, n):
        v = n.attr[1]
        if isinstance(v, complex):
            from ..tnf import rat
            out = self.const(rat(v.real)) if v.real else []
            if v.imag:
                out = self.add(out, [Term(rat(v.imag), {IM: ONE}, frozenset())])
            return (), out
        return None

    def _ev2(self, n):
        if n.op == "const" and isinstance(n.attr[1], complex):
            return self.op_const(n)
        return super()._ev2(n)

    # ---------------------------------------------------------------- inverses
    def inv(self, ex, r, c):
        ch = self.chain(self.merge(ex), r, c)
        return ch if ch is not None else super().inv(ex, r, c)

    def chain(self, ex, r, c):
        """the inverse of a product of square matrices, factor by factor; None when `ex` is not one"""
        if len(ex) != 1:
            return None
        t = ex[0]
        live = set(t.d) | {r, c}
        left, diag, rest = {}, [], {}
        for a, e in t.f.items():
            i = [x for x in self.idx(a) if x in live]
            if len(i) > 2 or len(i) == 2 and (e != 1 or i[0] == i[1]):
                return None
            if len(i) == 2:
                left[a] = i
            elif i:
                diag.append((a, e, i[0]))
            else:
                rest[a] = e
        seq, p = [], r
        while p != c:
            nxt = [a for a, i in left.items() if p in i]
            if len(nxt) != 1:
                return None
            i = left.pop(nxt[0])
            q = i[1] if i[0] == p else i[0]
            seq.append((nxt[0], p, q))
            p = q
        on = {x for _, a, b in seq for x in (a, b)}
        if left or not {d[2] for d in diag} <= on or len({self.size[x] for x in on}) != 1:
            return None
        if len(seq) == 1 and not diag and not rest and t.c == 1 and self.inv1(*seq[0], 0, 0, probe=True):
            return None
        m = {r: c, c: r}
        out = self.mul(self.const(1 / t.c), self.norm(ONE, {a: -e for a, e in rest.items()}, frozenset()))
        for a, e, i in diag:
            out = self.mul(out, self.norm(ONE, {self._reidx(a, m): -e}, frozenset()))
        for a, p, q in seq:
            out = self.mul(out, self.inv1(a, p, q, m.get(q, q), m.get(p, p)))
        for d in t.d:
            out = self.summed(out, d)
        return out

    def inv1(self, a, p, q, row, col, probe=False):
        """entry (row, col) of the inverse of the matrix whose entry (p, q) is the atom a; probe: whether it is a plain inverse"""
        uni = a[0] == "x" and a[1] in self.unitary or a[0] == "f" and a[1] in ("eigvec", "eigvec*")
        plain = not uni and a[0] == "x" and a[3].index(p) < a[3].index(q) or a[0] == "f" and a[1] not in ("inv", "eigvec", "eigvec*")
        if probe:
            return plain
        if a[0] == "delta":
            return self.norm(ONE, {("delta", (row, col)): ONE}, frozenset())
        if uni:
            return [Term(ONE, {self._reidx(self.conj_atom(a), {p: col, q: row}): ONE}, frozenset())]
        if a[0] == "f" and a[1] == "inv":
            return self.inst(a[2], tuple({p: row, q: col}.get(x, x) for x in a[3]))
        x, y = self.new(self.size[p]), self.new(self.size[p])
        if a[0] == "x" and not plain:       # a transposed leaf: the transposed inverse of the leaf
            e = super().inv([Term(ONE, {self._reidx(a, {p: y, q: x}): ONE}, frozenset())], x, y)
            return self.subst(e, {x: col, y: row})
        e = super().inv([Term(ONE, {self._reidx(a, {p: x, q: y}): ONE}, frozenset())], x, y)
        return self.subst(e, {x: row, y: col})

    # ---------------------------------------------------------------- cancellation
    def _cancel(self, c, fac, dum):
        r = super()._cancel(c, fac, dum)
        if r is not None or not (self.unitary or self.semi):
            return r
        for a, e in fac.items():
            if a[0] != "x" or a[1] not in self.unitary and a[1] not in self.semi or e != 1:
                continue
            for b, e2 in fac.items():
                if b is a or b[0] != "x" or b[1] != a[1] or e2 != 1 or len(a[3]) != len(b[3]) or a[3][:-2] != b[3][:-2]:
                    continue
                if b[2] == a[2] and a[1] not in self.real:
                    continue
                for k in ((-1, -2) if a[1] in self.unitary else (-1,)):
                    j = a[3][k]
                    if j not in dum or b[3][k] != j:
                        continue
                    if any(j in self.idx(x) for x in fac if x is not a and x is not b):
                        continue
                    u, v = a[3][-3 - k], b[3][-3 - k]
                    f = {x: y for x, y in fac.items() if x is not a and x is not b}
                    d = ("delta", (u, v) if repr(u) <= repr(v) else (v, u))
                    f[d] = f.get(d, 0) + 1
                    if a[1] in self.semi:
                        z = ("dim", self.size[j])
                        f[z] = f.get(z, 0) + 1
                    return c, f, dum - {j}
        return None

    # ---------------------------------------------------------------- decompositions
    def match(self, n, table, kind):
        v, e = self._ev(n)
        for m in table:
            w, b = m["form"]
            if len(v) != len(w) or any((x is None) != (y is None) or x is not None and self.size[x] != self.size[y] for x, y in zip(v, w)):
                continue
            want = self.subst([self._fresh_dummies(t) for t in b], {y: x for x, y in zip(v, w) if x is not None})
            if self.zero(self.sub(e, want)):
                return v, m
        self.unmatched.append((kind, n, v, e))
        return v, None

    def op_cholesky(self, n):
        v, m = self.match(n.args[0], self.chol, "Cholesky")
        if m is None:
            raise Unsup("Cholesky factor of another matrix")
        return v, m["L"](*v)

    def op_eigval(self, n):
        v, m = self.match(n.args[0], self.eig, "eigenvalues")
        if m is None:
            return super().op_eigval(n)
        return v[:-1], m["val"](*v[:-1])

    def op_eigvec(self, n):
        v, m = self.match(n.args[0], self.eig, "eigenvectors")
        if m is None:
            return super().op_eigvec(n)
        return v, m["vec"](*v)

    def svd(self, n, what):
        v, m = self.match(n.args[0], self.svds, "singular values")
        if m is None:
            raise Unsup("singular value decomposition of another matrix")
        w = v[:-1] if what == "s" else v
        return w, m[what](*w)

    def op_svdu(self, n):
        return self.svd(n, "u")

    def op_svals(self, n):
        return self.svd(n, "s")

    def op_svdv(self, n):
        return self.svd(n, "v")

    # ---------------------------------------------------------------- more operations
    def op_cbrt(self, n):
        v, e = self._ev(n.args[0])
        return v, self.pow(e, Fr(1, 3))

    def op_angle(self, n):
        v, e = self._ev(n.args[0])
        return v, self.func("angle", e)

    def exp(self, ex):
        out = self.const(1)
        rest = []
        for t in ex:
            a = [x for x, e in t.f.items() if x[0] == "f" and x[1] == "angle" and e == 1]
            if len(a) == 1 and not t.d and len(t.f) == 2 and IM in t.f:       # exp(i c angle(z)) = (z / |z|)^c
                z = self.inst(a[0][2], a[0][3])
                out = self.mul(out, self.mul(self.pow(z, t.c / 2), self.pow(self.conj(z), -t.c / 2)))
            else:
                rest.append(t)
        return self.mul(out, super().exp(rest)) if rest else out

    def op_list(self, n):
        return self.stacked(n, 0)

    def op_stack(self, n):
        return self.stacked(n, n.attr)

    def stacked(self, n, ax):
        v, ex = self.axes(n.shape), []
        ax %= len(v)
        rest = v[:ax] + v[ax + 1:]
        for k, a in enumerate(n.args):
            e = self.ev(a, list(rest))
            if v[ax] is not None:
                e = self.mul(e, [Term(ONE, {("delta", (v[ax], ("c", k))): ONE}, frozenset())])
            ex = self.add(ex, e)
        return v, ex

    def op_reshape(self, n):
        src, dst = n.args[0], n.shape
        sv = [self.g.int_value(d) for d in src.shape[-1:]]
        if dst is not None and len(dst) == len(src.shape) + 1 and sv[0] is not None and sv[0] > 1:
            a, b = (self.g.int_value(d) for d in dst[-2:])
            if a and b and a * b == sv[0] and all(self.dim(x) == self.dim(y) for x, y in zip(src.shape[:-1], dst[:-2])):
                v = self.axes(dst)
                ex = []
                for k in range(a * b):
                    e = self.ev(src, list(v[:-2]) + [("c", k)])
                    if v[-2] is not None:
                        e = self.mul(e, [Term(ONE, {("delta", (v[-2], ("c", k // b))): ONE}, frozenset())])
                    if v[-1] is not None:
                        e = self.mul(e, [Term(ONE, {("delta", (v[-1], ("c", k % b))): ONE}, frozenset())])
                    ex = self.add(ex, e)
                return v, ex
        return super().op_reshape(n)

    def op_mask(self, n):
        """x[m]: the entries where m holds, read as all of them"""
        v, e = self._ev(n.args[0])
        return v, e

    def op_cmp(self, n):
        b = self.choose(n) if self.choose else None
        if b is None:
            raise Unsup("comparison at %s" % (n.loc,))
        return self.axes(n.shape), self.const(int(b))

    def op_index(self, n):
        rev = [k for k, s in enumerate(n.attr) if s != "f" and s[0] == "s"]
        if rev and len(n.attr) == len(n.shape) and all(self.reversal(n, s) for s in n.attr if s != "f"):
            self.flips.append((n, rev))      # the entries of the axis under other names
            return self._ev(n.args[0])
        return super().op_index(n)

    def reversal(self, n, s):
        return s[0] == "s" and s[1] is None and s[2] is None and s[3] is not None and self.g.int_value(n.args[1 + s[3]]) == -1


# ------------------------------------------------------------------ equations
class Eqs:
    """one function at symbolic arguments: leaves, substituted arguments, and the obligations on its result"""

    def __init__(self, chk, R):
        self.chk, self.R, self.I = chk, R, R.I
        self.t = Mat(R.I, identity={"flooring_fn"})
        self.real = R.name.split("[")[1].startswith("f")
        self.bad = []

    def new(self, like):
        return self.t.new(self.t.size[like])

    def x(self, name, *idx, conj=False, e=1, real=None):
        if self.real if real is None else real:
            self.t.real.add(name)
            conj = False
        return [Term(ONE, {("x", name, conj, tuple(idx)): Fr(e)}, frozenset())]

    def prod(self, *exs, over=()):
        out = exs[0]
        for e in exs[1:]:
            out = self.t.mul(out, e)
        for d in over:
            out = self.t.summed(out, d)
        return out

    def put(self, node, build):
        """`node` is read as build(*indices)"""
        v = self.t.axes(node.shape)
        form = (v, build(*v))
        self.t.memo[("n", node.id)] = form
        return form

    def delta(self, i, j):
        return self.t.norm(ONE, {("delta", (i, j) if repr(i) <= repr(j) else (j, i)): ONE}, frozenset())

    def items(self):
        if not hasattr(self, "_items"):
            self._items = [self.I.node(x, self.R.st) for x in self.I.iter_items(self.R.ret, self.R.st)]
        return self._items

    def equal(self, a, b, what, node):
        """obligation: a and b are the same normal form"""
        t, R = self.t, self.R
        d = t.sub(a, b)
        ok = t.zero(d)
        if not ok:
            op = t.opaques([d])
            known = [u for u in t.unmatched if self.plain(u)]
            if op and not (t.unmatched and not known) or known:
                self.chk.skip(R.name, "%s: %s" % (what, ", ".join(sorted({t.deps[o][1] for o in op})) or known[0][0]))
                return
        why = ""
        if not ok and t.unmatched:
            why = "; the %s taken at %s are of another matrix" % (t.unmatched[0][0], locstr(t.unmatched[0][1].loc))
        short = R.name.split("[")[0].split(".")[-1]
        self.chk.oblige(ok, "%s|%s" % (R.name, what), "%s: %s does not hold of the result at %s%s [%s]" % (
            short, what, locstr(node.loc if node is not None else None), why, R.name))

    def plain(self, u):
        """a decomposition of an argument itself belongs to another method of computation"""
        _, n, v, e = u
        for a in self.R.argnodes:
            if a is not None and a.shape is not None and len(a.shape) == len(v):
                w, b = self.t._ev(a)
                if all(x is None or y is None or self.t.size[x] == self.t.size[y] for x, y in zip(v, w)) and self.t.zero(
                        self.t.sub(e, self.t.subst(b, {y: x for x, y in zip(v, w) if x is not None}))):
                    return True
        return False


def pencil(q, A, B, kind):
    """A and B in terms of the Cholesky factor L of B, a unitary y and eigenvalues l of the reduced problem"""
    t = q.t
    t.unitary.add("y")
    t.real.add("l")
    iL = lambda b, i, j, conj=False: t.conj(inner(b, i, j)) if conj else inner(b, i, j)

    def inner(b, i, j):
        p, r = q.new(i), q.new(i)
        return t.subst(TNF.inv(t, q.x("L", b, p, r), p, r), {p: i, r: j})
    L = lambda b, i, j: q.x("L", b, i, j)
    core = lambda b, i, j: (lambda a: q.prod(q.x("y", b, i, a), q.x("l", b, a, real=True), q.x("y", b, j, a, conj=True), over=[a]))(q.new(i))

    def bm(b, i, j):
        a = q.new(i)
        return q.prod(L(b, i, a), q.x("L", b, j, a, conj=True), over=[a])

    def am(b, i, j):
        p, r = q.new(i), q.new(i)
        if kind == 1:
            return q.prod(L(b, i, p), core(b, p, r), q.x("L", b, j, r, conj=True), over=[p, r])
        return q.prod(iL(b, p, i, conj=True), core(b, p, r), iL(b, r, j), over=[p, r])
    q.put(A, am)
    w, e = q.put(B, bm)
    t.chol.append({"form": (w, e), "L": L})
    v = t.axes(A.shape)
    t.eig.append({"form": (v, core(*v)), "val": lambda b, a: q.x("l", b, a, real=True), "vec": lambda b, i, a: q.x("y", b, i, a)})
    return am, bm


def spectral(q, X, power=1):
    """X = y l^power y^H"""
    t = q.t
    t.unitary.add("y")

    def xm(*idx):
        *b, i, j = idx
        a = q.new(i)
        return q.prod(q.x("y", *b, i, a), q.x("l", *b, a, real=True, e=power), q.x("y", *b, j, a, conj=True), over=[a])
    form = q.put(X, xm)
    t.eig.append({"form": form, "val": lambda *v: q.x("l", *v, real=True, e=power), "vec": lambda *v: q.x("y", *v)})
    return xm


def mm(q, n, f, g):
    """(f g)(b, i, j) of two matrices given by functions of their indices"""
    def h(*idx):
        *b, i, j = idx
        a = q.new(i)
        return q.prod(f(*b, i, a), g(*b, a, j), over=[a])
    return h


def at(q, node):
    return lambda *idx: q.t.ev(node, list(idx))


def eq_eigh(q):
    A = q.R.argnodes[0]
    t = q.t
    lam, z = q.items()
    if len(q.R.argnodes) == 1:
        X = spectral(q, A)
        b, i, a = t._ev(z)[0]
        q.equal(mm(q, 0, X, at(q, z))(b, i, a), q.prod(at(q, lam)(b, a), at(q, z)(b, i, a)), "A z = z lambda", z)
        return
    B = q.R.argnodes[1]
    kind = int(q.R.name.split("type=")[1].rstrip("]"))
    am, bm = pencil(q, A, B, kind)
    b, i, a = t.axes(z.shape)
    Z = at(q, z)
    if kind == 1:
        lhs, rhs, txt = mm(q, 0, am, Z), mm(q, 0, bm, Z), "A z = lambda B z"
    elif kind == 2:
        lhs, rhs, txt = mm(q, 0, am, mm(q, 0, bm, Z)), Z, "A B z = lambda z"
    else:
        lhs, rhs, txt = mm(q, 0, bm, mm(q, 0, am, Z)), Z, "B A z = lambda z"
    q.equal(lhs(b, i, a), q.prod(at(q, lam)(b, a), rhs(b, i, a)), txt, z)
    zh = lambda b, k, i: t.conj(Z(b, i, k))
    k = q.new(a)
    if kind in (1, 2):
        q.equal(mm(q, 0, zh, mm(q, 0, bm, Z))(b, k, a), q.delta(k, a), "z^H B z = I", z)
    else:
        q.equal(mm(q, 0, zh, Z2(q, bm, Z))(b, k, a), q.delta(k, a), "z^H B^-1 z = I", z)


def minv(q, f):
    def h(*idx):
        *b, i, j = idx
        r, c = q.new(i), q.new(i)
        return q.t.subst(q.t.inv(f(*b, r, c), r, c), {r: i, c: j})
    return h


def Z2(q, bm, Z):
    """B^-1 Z with B = L L^H"""
    def ib(b, i, j):
        p = q.new(i)
        L = lambda b, i, j: q.x("L", b, i, j)
        iL = minv(q, L)
        return q.prod(q.t.conj(iL(b, p, i)), iL(b, p, j), over=[p])
    return mm(q, 0, ib, Z)


def eq_gmean(q):
    A, B = q.R.argnodes[:2]
    t = q.t
    kind = int(q.R.name.split("type=")[1].rstrip("]"))
    am, bm = pencil(q, A, B, kind)
    G = q.R.retnode
    g = at(q, G)
    b, i, j = t.axes(G.shape)
    if kind == 2:
        lhs, rhs, txt = mm(q, 0, g, mm(q, 0, am, g)), bm, "G A G = B"
    else:
        ai = minv(q, am)
        lhs = mm(q, 0, g, mm(q, 0, ai, g))
        rhs, txt = (bm, "G A^-1 G = B") if kind == 1 else (None, "G A^-1 G = B^-1")
    if rhs is None:
        L = lambda b, i, j: q.x("L", b, i, j)
        iL = minv(q, L)
        rhs = lambda b, i, j: (lambda p: q.prod(t.conj(iL(b, p, i)), iL(b, p, j), over=[p]))(q.new(i))
    q.equal(lhs(b, i, j), rhs(b, i, j), txt, G)
    q.equal(g(b, i, j), t.conj(g(b, j, i)), "G = G^H", G)


def eq_sqrt(q):
    X = q.R.argnodes[0]
    G = q.R.retnode
    xm = spectral(q, X)
    g = at(q, G)
    v = q.t.axes(G.shape)
    if "invsqrtmh" in q.R.name:
        q.equal(mm(q, 0, g, mm(q, 0, xm, g))(*v), q.delta(v[-2], v[-1]), "S X S = I", G)
    else:
        q.equal(mm(q, 0, g, g)(*v), xm(*v), "S S = X", G)
    w = v[:-2] + (v[-1], v[-2])
    q.equal(g(*v), q.t.conj(g(*w)), "S = S^H", G)


def eq_inv2(q):
    X, G = q.R.argnodes[0], q.R.retnode
    x, g = at(q, X), at(q, G)
    b = q.t.axes(G.shape)[0]
    for i in range(2):
        for j in range(2):
            e = []
            for k in range(2):
                e = q.t.add(e, q.prod(x(b, ("c", i), ("c", k)), g(b, ("c", k), ("c", j))))
            q.equal(e, q.t.const(int(i == j)), "X inv2(X) = I (entry %d, %d)" % (i, j), G)


def eq_quadratic(q):
    X, A = q.R.argnodes[:2]
    G = q.R.retnode
    b, = q.t.axes(G.shape)
    i, j = q.t.new("C"), q.t.new("C")
    x = at(q, X)
    q.equal(at(q, G)(b), q.prod(q.t.conj(x(b, i)), at(q, A)(b, i, j), x(b, j), over=[i, j]), "y = x^H A x", G)


def eq_cbrt(q):
    X, G = q.R.argnodes[0], q.R.retnode
    v = q.t.axes(G.shape)
    q.equal(q.t.pow(at(q, G)(*v), 3), at(q, X)(*v), "y^3 = x", G)


def eq_cubic(q):
    *cs, = q.R.argnodes
    t, G = q.t, q.R.retnode
    for singular in (False, True):
        p = Eqs(q.chk, q.R)
        t = p.t
        t.choose = lambda c, s=singular: {"Eq": s, "NotEq": not s}.get(c.attr) if c.op == "cmp" else None
        b = t.axes(G.shape)[-1]
        c = [at(p, n)(b) for n in cs]
        if len(c) == 3:
            c = [t.const(1)] + c
        if singular:        # the depressed cubic has no linear term: c2 = c1^2 / (3 c0)
            k = 1 if len(cs) == 3 else 2
            p.put(cs[k], lambda b: p.t.scale(p.t.mul(p.t.pow(at(p, cs[k - 1])(b), 2), p.t.pow(at(p, cs[0])(b), -1) if len(cs) == 4 else p.t.const(1)), Fr(1, 3)))
            c[-2] = at(p, cs[k])(b)
        total = []
        for k in range(3):
            x = at(p, G)(("c", k), b)
            total = t.add(total, x)
            val, e = [], t.const(1)
            for a in reversed(c):
                val = t.add(val, t.mul(a, e))
                e = t.mul(e, x)
            p.equal(val, [], "root %d satisfies the equation%s" % (k, " (no linear term)" if singular else ""), G)
        p.equal(t.mul(c[0], total), t.scale(c[1], -ONE), "the roots are three different ones: their sum%s" % (" (no linear term)" if singular else ""), G)


def eq_neg_log(q):
    x, G = q.R.argnodes[0], q.R.retnode
    t = q.t
    v = t.axes(G.shape)
    y = at(q, G)(*v)
    mu = step_size(q)
    q.equal(t.sub(t.mul(y, y), t.mul(at(q, x)(*v), y)), mu, "y - x - mu / y = 0", G)


def step_size(q):
    return [Term(ONE, {("dim", "step_size"): ONE}, frozenset())]


def eq_neg_logdet(q):
    X, G = q.R.argnodes[0], q.R.retnode
    t = q.t
    t.unitary |= {"u", "v"}

    def xm(b, i, j):
        a = q.new(i)
        return q.prod(q.x("u", b, i, a), q.x("l", b, a, real=True), q.x("v", b, a, j), over=[a])
    form = q.put(X, xm)
    t.svds.append({"form": form, "u": lambda *v: q.x("u", *v), "s": lambda *v: q.x("l", *v, real=True), "v": lambda *v: q.x("v", *v)})
    b, i, j = t.axes(G.shape)
    g = at(q, G)
    # Y^H Y - Y^H X = mu I
    gh = lambda b, i, j: t.conj(g(b, j, i))
    q.equal(t.sub(mm(q, 0, gh, g)(b, i, j), mm(q, 0, gh, xm)(b, i, j)), t.mul(step_size(q), q.delta(i, j)), "Y - X - mu Y^-H = 0", G)


def below(c, small):
    """value of a comparison of a norm with the step size when the norm is the smaller (larger) of the two"""
    if c.op != "cmp" or c.attr not in ("Lt", "LtE", "Gt", "GtE"):
        return None
    a, b = c.args
    if (a.op == "atom") == (b.op == "atom"):
        return None
    less = c.attr in ("Lt", "LtE")
    return (small if b.op == "atom" else not small) == less


def eq_shrink(q):
    x, G = q.R.argnodes[0], q.R.retnode
    for inner in (False, True):
        p = Eqs(q.chk, q.R)
        t = p.t
        t.choose = lambda c, s=inner: below(c, s)
        v = t.axes(G.shape)
        e = at(p, x)(*v)
        m2 = t.mul(e, t.conj(e))
        if q.R.name.split("[")[0].endswith("l21"):
            s = p.new(v[1])
            m2 = t.summed(t.subst(m2, {v[1]: s}), s)
        want = [] if inner else t.sub(e, t.mul(t.mul(step_size(p), t.pow(m2, Fr(-1, 2))), e))
        p.equal(at(p, G)(*v), want, "y = 0 where |x| < mu" if inner else "y = x - mu x / |x| where |x| > mu", G)


def axis_of(q):
    v = q.R.kw.get("axis")
    return v.v if isinstance(v, Const) else None


def eq_softmax(q):
    x, G = q.R.argnodes[0], q.R.retnode
    t, ax = q.t, axis_of(q)
    v = t.axes(G.shape)
    full = t.axes(x.shape)
    axes = range(len(full)) if ax is None else [k % len(full) for k in ([ax] if isinstance(ax, int) else ax)]
    lse = "logsumexp" in q.R.name
    m = {}
    if lse:
        keep = "keepdims" in q.R.name
        rest = [k for k in range(len(full)) if k not in axes]
        use = [v[k] if keep else v[rest.index(k)] for k in rest]
        for k, u in zip(rest, use):
            m[full[k]] = u
    else:
        for k in range(len(full)):
            if k not in axes:
                m[full[k]] = v[k]
    den = t.subst(t.exp(at(q, x)(*full)), m)
    for k in axes:
        den = t.summed(den, full[k])
    if lse:
        q.equal(at(q, G)(*v), t.log(den), "y = log sum exp x", G)
    else:
        q.equal(at(q, G)(*v), t.mul(t.exp(at(q, x)(*v)), t.pow(den, -1)), "y = exp x / sum exp x", G)


def orthogonal(q, X, dims):
    """the observation in terms of its principal axes: X = y l^1/2 u with orthonormal y and u u^H = T"""
    t = q.t
    t.unitary.add("y")
    t.semi.add("u")
    ch, tm = dims
    t.real.add("l")

    def xm(*idx):
        b = tuple(x for k, x in enumerate(idx) if k not in dims)
        a = q.new(idx[ch])
        return q.prod(q.x("y", *b, idx[ch], a), q.x("l", *b, a, real=True, e=Fr(1, 2)), q.x("u", *b, a, idx[tm]), over=[a])
    w, _ = q.put(X, xm)
    b = tuple(x for k, x in enumerate(w) if k not in dims)
    v = tuple(t.new(t.size[x]) for x in b) + (t.new(t.size[w[ch]]), t.new(t.size[w[ch]]))
    a = t.new(t.size[w[ch]])
    core = q.prod(q.x("y", *v[:-1], a), q.x("l", *v[:-2], a, real=True), q.x("y", *v[:-2], v[-1], a, conj=True), over=[a])
    t.eig.append({"form": (v, core), "val": lambda *v: q.x("l", *v, real=True), "vec": lambda *v: q.x("y", *v)})


def eq_principal(q):
    X, G = q.R.argnodes[0], q.R.retnode
    name = q.R.name
    q.real = "complex" not in name and "4d" not in name
    dims = (0, 1) if "2d" in name else (0, 2) if "3d complex" in name else (1, 2) if "3d" in name else (1, 3)
    orthogonal(q, X, dims)
    t = q.t
    t.choose = lambda c: True
    v = t.axes(G.shape)
    ch, tm = dims
    k = t.new(t.size[v[ch]])
    w = tuple(k if i == ch else x for i, x in enumerate(v))
    y = at(q, G)
    cov = t.summed(t.mul(y(*v), t.conj(y(*w))), v[tm])
    cov = t.mul(cov, [Term(ONE, {("dim", t.size[v[tm]]): -ONE}, frozenset())])
    b = tuple(x for i, x in enumerate(v) if i not in dims)
    if "whiten" in name:
        q.equal(cov, q.delta(v[ch], k), "the covariance of the output is the identity", G)
        return
    q.equal(cov, q.prod(q.x("l", *b, v[ch], real=True), q.delta(v[ch], k)), "the components of the output are uncorrelated, with the eigenvalues as variances", G)
    flips = {n.id for n, rev in t.flips if any(r == len(n.shape) - 1 for r in rev)}
    if t.opaques([cov]):
        return
    asc = "ascend=True" in name
    if len(t.flips) == len(flips) and len(flips) < 2:
        q.chk.oblige(bool(flips) == asc, "%s|order" % name, "pca: the %s channel of the output is not the first principal component, at %s [%s]" % (
            "first" if asc else "last", locstr(G.loc), name))
    else:
        q.chk.skip(name, "order of the components")


def eq_solve(q):
    A, B = q.R.argnodes[:2]
    G = q.R.retnode
    v = q.t.axes(G.shape)
    b, i, rest = v[0], v[1], v[2:]
    k = q.new(i)
    q.equal(q.prod(at(q, A)(b, i, k), at(q, G)(b, k, *rest), over=[k]), at(q, B)(*v), "a x = b", G)


def eq_psd(q):
    X, G = q.R.argnodes[0], q.R.retnode
    v = q.t.axes(G.shape)
    x = at(q, X)
    h = q.t.scale(q.t.add(x(*v), q.t.conj(x(*v[:-2], v[-1], v[-2]))), Fr(1, 2))
    q.equal(at(q, G)(*v), h, "the Hermitian part, when its eigenvalues need no flooring", G)


TABLE = {
    "transform.whiten.whiten": eq_principal, "transform.pca.pca": eq_principal, "linalg._solve.solve": eq_solve, "special.psd.to_psd": eq_psd,
    "linalg.eigh.eigh": eq_eigh, "linalg.eigh.eigh2": eq_eigh, "linalg.mean.gmeanmh": eq_gmean, "linalg.sqrtm.sqrtmh": eq_sqrt,
    "linalg.sqrtm.invsqrtmh": eq_sqrt, "linalg.inv.inv2": eq_inv2, "linalg.quadratic.quadratic": eq_quadratic, "linalg.cubic.cbrt": eq_cbrt,
    "linalg.polynomial.solve_cubic": eq_cubic, "linalg.prox.neg_log": eq_neg_log, "linalg.prox.neg_logdet": eq_neg_logdet,
    "linalg.prox.l1": eq_shrink, "linalg.prox.l21": eq_shrink, "special.softmax.softmax": eq_softmax, "special.logsumexp.logsumexp": eq_softmax,
}


def trusted(I):
    """inv2 and cbrt are checked on their own: elsewhere they are read as the matrix inverse and the cube root"""
    orig = I.call_fn

    def hook(f, args, kw, s):
        if getattr(f.fdef, "name", None) == "inv2" and len(args) == 1 and I.depth > 0:
            n = I.node(args[0], s)
            return I.arr(s, I.g.mk("inv", (n,), None, n.shape))
        if getattr(f.fdef, "name", None) == "cbrt" and len(args) == 1 and I.depth > 0:
            n = I.node(args[0], s)
            return I.arr(s, I.g.mk("cbrt", (n,), None, n.shape))
        return orig(f, args, kw, s)
    I.call_fn = hook


# ------------------------------------------------------------------ the quadratically penalised quadratic minimisation
LQ = "ssspy.linalg.lqpqm."


def roots_equation(q, lam, phi, v, z, b):
    """lambda^2 sum phi |v|^2 / (lambda - phi)^2 - lambda + z, at functions of the indices"""
    t = q.t
    k = t.new("M")
    L = lam(b)
    num = t.mul(phi(b, k), t.mul(v(b, k), t.conj(v(b, k))))
    s = t.summed(t.mul(num, t.pow(t.sub(L, phi(b, k)), -2)), k)
    return t.add(t.sub(t.mul(t.mul(L, L), s), L), z(b))


def watch(I, names, log, replace=None):
    orig = I.call_fn

    def hook(f, args, kw, s):
        n = getattr(f.fdef, "name", None)
        if n in names and I.depth > 0:
            vals = I.bind(f, args, kw, s, I.new_env(s, f.env))
            vals = {k: I.node(x, s) for k, x in vals.items() if isinstance(x, (Arr, Num))}
            r = replace(n, vals, s) if replace else None
            if r is None:
                r = orig(f, args, kw, s)
            log.append((n, vals, I.node(r, s)))
            return r
        return orig(f, args, kw, s)
    I.call_fn = hook


def lq_entry(fn, norm=None):
    A = funcs.A
    if fn == "lqpqm2":
        return (LQ + fn, "solution", [A("H", ["F", "M", "M"], "c"), A("v", ["F", "M"], "c"), A("z", ["F"], "f")], {"max_iter": Const(1)}, None)
    return (LQ + fn, "normalization=%s" % norm, [A("phi", ["F", "M"], "f"), A("v", ["F", "M"], "c"), A("z", ["F"], "f")],
            {"max_iter": Const(1), "normalization": Const(norm)}, None)


def lq_solution(chk):
    """lqpqm2: with lambda the solution of the scalar equation it asks for, lambda y = H (y + v)"""
    log = []

    def before(I):
        trusted(I)

        def leaf(n, vals, s):
            z = vals.get("z")
            return I.input_array(s, "lam", z.shape, "f") if z is not None and z.shape is not None else None
        watch(I, ("solve_equation",), log, leaf)
    R = funcs.run(chk.project, lq_entry("lqpqm2"), before=before)
    if R.error or len(log) != 1:
        chk.skip(R.name, str(R.error or "the scalar equation is not solved by one call of solve_equation"))
        return
    chk.ran(R)
    q = Eqs(chk, R)
    t = q.t
    t.alias.update({dimstr(d): "F" for _, vals, _ in log for d in (vals["z"].shape[0],)})
    for x in walk_nodes(R.retnode):
        if x.op == "mask" and x.shape:
            t.alias[dimstr(x.shape[0])] = "F"
    xm = spectral(q, R.argnodes[0])
    v = at(q, R.argnodes[1])
    zz = at(q, R.argnodes[2])
    vals = log[0][1]
    b, k = t.new("F"), t.new("M")
    i = t.new("M")
    vt = lambda b, k: t.summed(t.mul(q.x("y", b, i, k, conj=True), v(b, i)), i)
    q.equal(at(q, vals["phi"])(b, k), q.x("l", b, k, real=True), "the scalar equation is over the eigenvalues of H", vals["phi"])
    w = at(q, vals["v"])(b, k)
    q.equal(t.mul(w, t.conj(w)), t.mul(vt(b, k), t.conj(vt(b, k))), "its coefficients are those of v in the eigenvectors of H", vals["v"])
    q.equal(at(q, vals["z"])(b), zz(b), "its constant is z", vals["z"])
    n = R.retnode
    parts = []
    while n.op == "maskstore":
        parts.append(n.args[2])
        n = n.args[0]
    if len(parts) != 2 or n.op != "zeros":
        chk.skip(R.name, "the parts of the result")
        return
    for node in parts:
        singular = "lam" not in {x.attr for x in walk_nodes(node) if x.op == "input"}
        p = Eqs(chk, R)
        t = p.t
        t.alias = q.t.alias
        xm = spectral(p, R.argnodes[0])
        y = at(p, node)
        b, i, j = t.new("F"), t.new("M"), t.new("M")
        if singular:
            mx = [x for x in walk_nodes(node) if x.op == "maximum" and len(x.args) == 2 and all(a.shape and len(a.shape) == 1 for a in x.args)]
            if len(mx) != 1:
                chk.skip(R.name, "the larger of z and the largest eigenvalue")
                continue
            p.put(mx[0], lambda b: p.x("l", b, ("c", -1), real=True))
            hy = t.summed(t.mul(xm(b, i, j), y(b, j)), j)
            p.equal(hy, t.mul(p.x("l", b, ("c", -1), real=True), y(b, i)), "v = 0: y is a multiple of the last eigenvector", node)
            e = t.summed(t.mul(t.conj(y(b, i)), hy), i)
            p.equal(t.add(e, at(p, R.argnodes[2])(b)), p.x("l", b, ("c", -1), real=True), "v = 0: y^H H y + z = lambda", node)
        else:
            lam = p.x("lam", b, real=True)
            hy = t.summed(t.mul(xm(b, i, j), y(b, j)), j)
            hv = t.summed(t.mul(xm(b, i, j), at(p, R.argnodes[1])(b, j)), j)
            k = t.new("M")      # in the coordinates of the eigenvectors of H
            co = lambda e: t.summed(t.mul(p.x("y", b, i, k, conj=True), e), i)
            p.equal(co(t.mul(lam, y(b, i))), co(t.add(hy, hv)), "lambda y = H (y + v)", node)


def lq_newton(chk, norm):
    """solve_equation: what is driven to zero is the scalar equation at the value that is returned, by Newton's method"""
    log = []

    def before(I):
        trusted(I)
        watch(I, ("_fn", "_d_fn"), log)
    R = funcs.run(chk.project, lq_entry("solve_equation", norm), before=before)
    fs, ds = [x for x in log if x[0] == "_fn"], [x for x in log if x[0] == "_d_fn"]
    if R.error or not fs or not ds or any("lamb" not in x[1] for x in log):
        chk.skip(R.name, str(R.error or "the function and its derivative"))
        return
    chk.ran(R)
    q = Eqs(chk, R)
    t = q.t
    t.choose = lambda c: True if c.op == "cmp" and c.attr in ("GtE", "LtE", "Gt", "Lt") or c.op == "all" else None
    for x in walk_nodes(R.retnode):
        if x.op == "mask" and x.shape:
            t.alias[dimstr(x.shape[0])] = "F"
        if x.op in ("fancy", "takealong", "gather", "rmax") and x.shape and len(x.shape) == 1:
            t.leaf[x.id] = "m%d" % x.id         # the entry the equation is normalised by: any scalar per bin
    _, vals, f = fs[0]
    q.put(vals["lamb"], lambda b: q.x("lam", b, real=True))
    b = t.new("F")
    args = [at(q, n) for n in R.argnodes]
    want = roots_equation(q, at(q, R.retnode), args[0], args[1], args[2], b)
    got = at(q, f)(b)
    ratio = t.mul(want, t.pow(got, -1)) if len(got) == 1 else None
    s = [n for n in (R.retnode,)]
    # the returned value is scale * lambda: the equation at it is scale * what is driven to zero
    scale = t.mul(at(q, R.retnode)(b), q.x("lam", b, real=True, e=-1))
    q.equal(want, t.mul(scale, got), "the equation solved is the one of the arguments at the returned value", f)
    for _, dv, d in ds:
        fa = [x for x in fs if x[1]["lamb"] is dv["lamb"]]
        if len(fa) != 1 or dv["lamb"] is not vals["lamb"]:
            continue
        k = t.new("F")
        q.equal(t.diff(at(q, fa[0][2])(b), "lam", (k,)), t.mul(at(q, d)(b), q.delta(b, k)), "Newton's method uses the derivative of the equation", d)


def p26():
    chk = Check("P26", "The result of every numerical building block must satisfy its defining equation, as an identity of tensor normal forms in the arguments.", "other", 20)
    for entry in sliced(list(funcs.table())):
        fn = entry[0][len("ssspy."):]
        f = TABLE.get(fn)
        if f is None:
            continue
        chk.tried += 1
        R = funcs.run(chk.project, entry, before=trusted)
        if R.error:
            chk.skip(R.name, str(R.error))
            continue
        chk.ran(R)
        try:
            casewise(chk, lambda c: f(Eqs(c, R)))
        except (Unsup, Raised, Budget) as x:
            chk.skip(R.name, "%s" % x)
    for f, a in sliced([(lq_solution, ()), (lq_newton, (True,)), (lq_newton, (False,))]):
        chk.tried += 1
        try:
            casewise(chk, lambda c: f(c, *a))
        except (Unsup, Raised, Budget) as x:
            chk.skip("%s%s" % (f.__name__, a), "%s" % x)
    return chk


CHECKS = {"P26": p26}
