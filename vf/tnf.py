"""Tensor normal form: value-graph nodes as sums of monomials over indexed atoms.

A term is coefficient x product of atom^exponent, summed over its dummy indices.  Atoms are array leaves, compound functions (fractional
power of a sum, log, inverse, ...) of a canonical template, Kronecker deltas and dimension symbols.  Two nodes with the same normal form are
the same function of their leaves whatever sequence of transposes, broadcasts, matrix products or sums built them; derivatives with respect
to a leaf are taken on the normal form.  Floorings, max(x, 0) and PSD repairs are read as the identity (the interior of the domain).
"""
from __future__ import annotations

import itertools
from fractions import Fraction as Fr

from . import npmodel
from .graph import dimstr


class Unsup(Exception):
    pass


ONE = Fr(1)


def rat(v):
    f = Fr(v)
    if 0 < abs(f.numerator) < 1 << 16 and f.denominator < 1 << 40:
        return f
    f = f.limit_denominator(100000)
    if abs(float(f) - v) > 1e-12 * max(1, abs(v)):
        raise Unsup("irrational constant %r" % v)
    return f


def logq(c):
    """logarithm of a positive rational over the logarithms of primes"""
    if c <= 0:
        return [Term(ONE, {("lq", c): ONE}, frozenset())]
    out = []
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while n > 1 and p < 2000:
            e = 0
            while n % p == 0:
                n, e = n // p, e + 1
            if e:
                out.append(Term(Fr(sgn * e), {("lq", Fr(p)): ONE}, frozenset()))
            p += 1
        if n > 1:
            out.append(Term(Fr(sgn), {("lq", Fr(n)): ONE}, frozenset()))
    return out


class Term:
    __slots__ = ("c", "f", "d")

    def __init__(self, c, f, d):
        self.c, self.f, self.d = c, f, d        # coefficient, {atom: exponent}, frozenset of dummies


class TNF:
    def __init__(self, I, values=None, herm=(), real=(), identity=(), positive=(), atoms=None):
        self.I, self.g = I, I.g
        self.size = {}
        self.n = 0
        self.values = dict(values or {})
        self.herm, self.real = set(herm), set(real)
        self.identity = set(identity)           # user functions read as the identity
        self.leaf = dict(atoms or {})           # node id -> leaf name
        self.templ = {}
        self.memo = {}
        self.powers = {}
        self.deps = {}
        self.allow_opaque = True
        self.pairs = False                      # read x[pair] as x (the pair stands for all of the axis)
        self.pair_list = None
        self.alias = {}
        self.keep = set()                       # templates whose positive powers are not multiplied out
        self.mixed = []                         # selections of the same members in another order
        self.budget = 4_000_000

    # ------------------------------------------------------------ indices
    def new(self, dim):
        self.n += 1
        self.size[self.n] = dim
        return self.n

    def dim(self, d):
        d = dimstr(d) if not isinstance(d, str) else d
        return self.alias.get(d, d)

    def isone(self, d):
        return self.g.int_value(d) == 1 if not isinstance(d, str) else d == "1"

    # ------------------------------------------------------------ terms
    def const(self, c):
        return [Term(Fr(c), {}, frozenset())] if c else []

    def atom(self, a, e=ONE, dum=()):
        return self.norm(ONE, {a: Fr(e)}, frozenset(dum))

    def norm(self, c, fac, dum):
        """normalise one product; returns a list of terms"""
        if c == 0:
            return []
        fac = {a: e for a, e in fac.items() if e != 0}
        while True:
            self.budget -= 1
            if self.budget < 0:
                raise Unsup("budget")
            step = None
            for a, e in fac.items():
                if a[0] == "delta":
                    i, j = a[1]
                    if i == j:
                        step = (a, None)
                        break
                    if i in dum or j in dum:
                        step = (a, (i, j) if i in dum else (j, i))
                        break
                    if isinstance(i, tuple) and isinstance(j, tuple) and i[0] == j[0] == "c":
                        return []
            if step is not None:
                a, s = step
                del fac[a]
                if s is not None:
                    fac = self._subst_fac(fac, {s[0]: s[1]})
                    dum = dum - {s[0]}
                continue
            for a in fac:       # a delta of free indices: the other factors use the first of them
                if a[0] == "delta" and any(a[1][1] in self.idx(b) for b in fac if b is not a):
                    step = a
                    break
            if step is not None:
                e = fac.pop(step)
                fac = self._subst_fac(fac, {step[1][1]: step[1][0]})
                fac[step] = e
                continue
            r = self._cancel(c, fac, dum)
            if r is not None:
                if isinstance(r, list):
                    return r
                c, fac, dum = r
                continue
            break
        # positive integer powers of compound sums are multiplied out
        for a, e in fac.items():
            if a[0] == "f" and a[1] == "S" and e.denominator == 1 and 0 < e <= 3 and a[2] not in self.keep:
                rest = {b: x for b, x in fac.items() if b is not a}
                inner = self.inst(a[2], a[3])
                out = [Term(c, rest, frozenset())]
                for _ in range(int(e)):
                    out = self._mul_raw(out, inner)
                res = []
                for t in out:
                    res += self.norm(t.c, t.f, t.d | dum)
                return self.merge(res)
        used = set()
        for a in fac:
            for i in self.idx(a):
                if isinstance(i, int):
                    used.add(i)
        for d in list(dum):
            if d not in used:
                k = ("dim", self.size[d])
                fac = dict(fac)
                fac[k] = fac.get(k, 0) + 1
                if fac[k] == 0:
                    del fac[k]
                dum = dum - {d}
        # rational constants
        for a in [a for a in fac if a[0] == "q"]:
            if fac[a].denominator == 1:
                c *= a[1] ** int(fac[a])
                fac = {b: x for b, x in fac.items() if b != a}
        return [Term(c, fac, dum)]

    @staticmethod
    def idx(a):
        k = a[0]
        if k == "x":
            return a[3]
        if k == "f":
            return a[3]
        if k == "delta":
            return a[1]
        return ()

    def _reidx(self, a, m):
        k = a[0]
        if k == "x":
            idx = tuple(m.get(i, i) for i in a[3])
            return ("x", a[1], a[2], idx)
        if k == "f":
            return ("f", a[1], a[2], tuple(m.get(i, i) for i in a[3]))
        if k == "delta":
            i, j = (m.get(x, x) for x in a[1])
            return ("delta", (i, j) if repr(i) <= repr(j) else (j, i))
        return a

    def _subst_fac(self, fac, m):
        out = {}
        for a, e in fac.items():
            b = self._reidx(a, m)
            out[b] = out.get(b, 0) + e
            if out[b] == 0:
                del out[b]
        return out

    def subst(self, ex, m):
        """replace free indices"""
        out = []
        for t in ex:
            clash = {v for v in m.values() if isinstance(v, int)} & t.d
            mm = dict(m)
            d = t.d
            if clash:
                ren = {x: self.new(self.size[x]) for x in clash}
                t = Term(t.c, self._subst_fac(t.f, ren), frozenset(ren.get(x, x) for x in t.d))
                d = t.d
            out += self.norm(t.c, self._subst_fac(t.f, mm), d)
        return self.merge(out)

    def _fresh_dummies(self, t):
        if not t.d:
            return t
        ren = {x: self.new(self.size[x]) for x in t.d}
        return Term(t.c, self._subst_fac(t.f, ren), frozenset(ren.values()))

    def _mul_raw(self, A, B):
        out = []
        for a in A:
            for b in B:
                b = self._fresh_dummies(b)
                f = dict(a.f)
                for k, e in b.f.items():
                    f[k] = f.get(k, 0) + e
                    if f[k] == 0:
                        del f[k]
                out.append(Term(a.c * b.c, f, a.d | b.d))
        return out

    def mul(self, A, B):
        if len(A) * len(B) > 4000:
            raise Unsup("product of %d and %d terms" % (len(A), len(B)))
        out = []
        for t in self._mul_raw(A, B):
            out += self.norm(t.c, t.f, t.d)
        return self.merge(out)

    def scale(self, A, c):
        return [Term(t.c * c, t.f, t.d) for t in A] if c else []

    def add(self, A, B):
        return self.merge(list(A) + list(B))

    def sub(self, A, B):
        return self.add(A, self.scale(B, -1))

    def summed(self, A, v):
        out = []
        for t in A:
            out += self.norm(t.c, t.f, t.d | {v})
        return self.merge(out)

    def merge(self, terms):
        acc = {}
        for t in terms:
            k = self.tkey(t, {})
            if k in acc:
                acc[k] = Term(acc[k].c + t.c, acc[k].f, acc[k].d)
            else:
                acc[k] = t
        return [t for t in acc.values() if t.c != 0]

    # ------------------------------------------------------------ canonical text
    def _skel(self, a, e):
        if a[0] == "x":
            return "x:%s%s^%s" % (a[1], "*" if a[2] else "", e)
        if a[0] == "f":
            return "f:%s:%s^%s" % (a[1], a[2], e)
        if a[0] == "delta":
            return "delta"
        return "%r^%s" % (a, e)

    def auts(self, a):
        if a[0] == "f":
            return self.templ[a[2]][2]
        if a[0] == "delta":
            return [(0, 1), (1, 0)]
        return None

    def tkey(self, t, names):
        """canonical text of a term (without its coefficient); free indices are named by `names` or by number"""
        self.budget -= 1
        if self.budget < 0:
            raise Unsup("budget")
        items = [(self._skel(a, e), self.idx(a), self.auts(a)) for a, e in t.f.items()]

        def nm(i):
            if isinstance(i, int):
                return names.get(i) or "v%d" % i
            return repr(i)
        dl = sorted(t.d)
        if not dl:
            return self._render(items, {}, nm)
        col = {d: str(self.size[d]) for d in dl}
        for _ in range(3):
            sig = {d: [col[d]] for d in dl}
            for sk, idx, au in items:
                lab = [col[i] if i in t.d else nm(i) for i in idx]
                for p, i in enumerate(idx):
                    if i in t.d:
                        if au and len(au) > 1:
                            sig[i].append((sk, "*", tuple(sorted(lab))))
                        else:
                            sig[i].append((sk, p, tuple(lab)))
            raw = {d: repr((sig[d][0], sorted(map(repr, sig[d][1:])))) for d in dl}
            order = {s: k for k, s in enumerate(sorted(set(raw.values())))}
            new = {d: "%s.%d" % (str(self.size[d]), order[raw[d]]) for d in dl}
            if len(set(new.values())) == len(set(col.values())):
                col = new
                break
            col = new
        classes = {}
        for d in dl:
            classes.setdefault(col[d], []).append(d)
        groups = [classes[k] for k in sorted(classes)]
        n = 1
        for g in groups:
            for k in range(2, len(g) + 1):
                n *= k
        if n > 6000:
            raise Unsup("too many symmetric indices")
        best = None
        for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
            m, k = {}, 0
            for g in perm:
                for d in g:
                    m[d] = "d%d:%s" % (k, self.size[d])
                    k += 1
            s = self._render(items, m, nm)
            if best is None or s < best:
                best = s
        return best

    def _render(self, items, m, nm):
        out = []
        for sk, idx, au in items:
            lab = [m.get(i) or nm(i) for i in idx]
            if au and len(au) > 1:
                lab = min([lab[k] for k in p] for p in au)
            out.append(sk + "[" + ",".join(lab) + "]")
        out.sort()
        return "&".join(out)

    def key(self, ex, names):
        return " + ".join(sorted("%s %s" % (t.c, self.tkey(t, names)) for t in ex))

    def template(self, ex, free, colour=None):
        """register ex as a function of its free indices; returns (key, order of the free indices)"""
        colour = colour or {}
        present = set()
        for t in ex:
            for a in t.f:
                for i in self.idx(a):
                    if isinstance(i, int) and i not in t.d:
                        present.add(i)
        free = [v for v in free if v in present or v in colour]
        cl = {}
        for v in free:
            cl.setdefault(colour.get(v, "") + str(self.size[v]), []).append(v)
        groups = [cl[k] for k in sorted(cl)]
        n = 1
        for g in groups:
            for k in range(2, len(g) + 1):
                n *= k
        if n > 800:
            raise Unsup("too many free indices")
        best, orders = None, []
        for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
            order = [v for g in perm for v in g]
            names = {v: "f%d:%s%s" % (k, colour.get(v, ""), self.size[v]) for k, v in enumerate(order)}
            s = self.key(ex, names)
            if best is None or s < best:
                best, orders = s, [order]
            elif s == best:
                orders.append(order)
        o = orders[0]
        pos = {v: k for k, v in enumerate(o)}
        au = [tuple(pos[v] for v in x) for x in orders]
        if best not in self.templ:
            self.templ[best] = (ex, o, au, "T%d" % len(self.templ))
        return best, o

    def inst(self, key, idx):
        ex, vars, _, _ = self.templ[key]
        ex = [self._fresh_dummies(t) for t in ex]
        tmp = {v: i for v, i in zip(vars, idx)}
        return self.subst(ex, tmp)

    def free(self, ex):
        out = []
        for t in ex:
            for a in t.f:
                for i in self.idx(a):
                    if isinstance(i, int) and i not in t.d and i not in out:
                        out.append(i)
        return out

    # ------------------------------------------------------------ powers and functions
    def pow(self, ex, e):
        e = Fr(e)
        if e == 0:
            return self.const(1)
        if e == 1:
            return ex
        if not ex:
            if e > 0:
                return []
            raise Unsup("power of zero")
        if e.denominator == 1 and 1 < e <= 3:
            out = ex
            for _ in range(int(e) - 1):
                out = self.mul(out, ex)
            self.perfect(ex, int(e))
            return out
        if len(ex) == 1 and not ex[0].d:
            t = ex[0]
            return self.norm(*self._cpow(t.c, e, {a: x * e for a, x in t.f.items()}), frozenset())
        c0, common, body = self.primitive(ex)
        c, fac = self._cpow(c0, e, {a: x * e for a, x in common.items()})
        if len(body) == 1 and not body[0].d:
            r = self.pow(body, e)
        else:
            k, order = self.template(body, self.free(body))
            if k in self.powers:            # a known perfect power
                base, vars, n = self.powers[k]
                m = dict(zip(vars, order))
                r = self.pow(self.subst([self._fresh_dummies(t) for t in base], m), e * n)
            else:
                r = [Term(ONE, {("f", "S", k, tuple(order)): e}, frozenset())]
        return self.mul(r, self.norm(c, fac, frozenset()))

    def perfect(self, ex, n):
        """remember that the n-th power of ex is one, so that its roots and inverse can be recognised"""
        if len(ex) == 1 and not ex[0].d:
            return
        body = self.primitive(ex)[2]
        if len(body) == 1 and not body[0].d:
            return
        pw = body
        for _ in range(n - 1):
            pw = self.mul(pw, body)
        pw = self.primitive(pw)[2]
        k, order = self.template(pw, self.free(pw))
        self.powers.setdefault(k, (body, order, n))

    def content(self, ex):
        """the monomial (with the least exponent of every factor) and the rational pulled out of a sum"""
        ms = [{a: x for a, x in t.f.items() if not any(i in t.d for i in self.idx(a))} for t in ex]
        common = {}
        for a in {a for m in ms for a in m}:
            x = min(m.get(a, Fr(0)) for m in ms)
            if x != 0:
                common[a] = x
        # a coefficient that does not depend on how the free indices are named
        c0 = min(abs(t.c) for t in ex)
        if all(t.c < 0 for t in ex):
            c0 = -c0
        return common, c0

    def primitive(self, ex):
        """(c0, common, body) with ex == c0 * common * body"""
        common, c0 = self.content(ex)
        body = []
        for t in ex:
            f = dict(t.f)
            for a, x in common.items():
                f[a] = f.get(a, Fr(0)) - x
                if f[a] == 0:
                    del f[a]
            body += self.norm(t.c / c0, f, t.d)
        return c0, common, self.merge(body)

    def _cpow(self, c, e, fac):
        if c == 1:
            return ONE, fac
        if e.denominator == 1:
            return c ** int(e), fac
        if c < 0:
            raise Unsup("fractional power of a negative")
        fac = dict(fac)
        fac[("q", c)] = fac.get(("q", c), 0) + e
        return ONE, fac

    def func(self, name, ex):
        """opaque elementwise function"""
        if name == "log":
            return self.log(ex)
        if not self.free(ex) and all(not t.f for t in ex):
            name = name
        k, o = self.template(ex, self.free(ex))
        return [Term(ONE, {("f", name, k, tuple(o)): ONE}, frozenset())]

    def log(self, ex):
        if not ex:
            raise Unsup("log of zero")
        c0, common, body = self.primitive(ex)
        out = []
        out += logq(c0)
        for a, e in common.items():
            if a[0] == "f" and a[1] == "S":
                out.append(Term(e, {("f", "log", a[2], a[3]): ONE}, frozenset()))
            elif a[0] == "f" and a[1] == "exp":
                out += self.scale(self.inst(a[2], a[3]), e)
            else:
                one = [Term(ONE, {a: ONE}, frozenset())]
                k, o = self.template(one, self.free(one))
                out.append(Term(e, {("f", "log", k, tuple(o)): ONE}, frozenset()))
        if not (len(body) == 1 and not body[0].d and not body[0].f):
            k, o = self.template(body, self.free(body))
            if k in self.powers:
                base, vars, n = self.powers[k]
                m = dict(zip(vars, o))
                out += self.scale(self.log(self.subst([self._fresh_dummies(t) for t in base], m)), n)
            else:
                out.append(Term(ONE, {("f", "log", k, tuple(o)): ONE}, frozenset()))
        return self.merge(out)

    def matfunc(self, name, ex, r, c):
        """matrix function with row index r and column index c"""
        rest = [v for v in self.free(ex) if v not in (r, c)]
        k, o = self.template(ex, rest + [r, c], {r: "|r", c: "|s"})
        return k, o

    def exp(self, ex):
        """exponential of a sum as the product of the exponentials of its terms"""
        f = {}
        for t in ex:
            logs = [a for a, e in t.f.items() if a[0] == "f" and a[1] == "log" and e == 1]
            if len(t.f) == 1 and logs and not t.d:
                out = self.pow(self.inst(logs[0][2], logs[0][3]), t.c)
                if len(out) != 1 or out[0].d or out[0].c != 1:
                    raise Unsup("exp of a logarithm")
                new = out[0].f
            else:
                if not t.f:
                    raise Unsup("exp of a constant")
                one = [Term(ONE, t.f, t.d)]
                k, o = self.template(one, self.free(one))
                new = {("f", "exp", k, tuple(o)): t.c}
            for a, e in new.items():
                f[a] = f.get(a, 0) + e
        return self.norm(ONE, f, frozenset())

    def split_scales(self, ex, r, c):
        """(rational, factors of the row, of the column, of neither, rest) of a matrix: the scalings of its rows and columns taken out"""
        if len(ex) == 1 and not ex[0].d and not any(r in self.idx(a) and c in self.idx(a) for a in ex[0].f):
            return ONE, {}, {}, {}, ex
        common, c0 = self.content(ex)
        fr, fc, f0 = {}, {}, {}
        for a, e in common.items():
            i = self.idx(a)
            if a[0] == "delta" or (r in i and c in i):
                continue
            (fr if r in i else fc if c in i else f0)[a] = e
        if c0 < 0:
            c0 = -c0
        if not (fr or fc or f0 or c0 != 1):
            return ONE, fr, fc, f0, ex
        out = {**fr, **fc, **f0}
        body = []
        for t in ex:
            f = dict(t.f)
            for a, x in out.items():
                f[a] = f.get(a, Fr(0)) - x
                if f[a] == 0:
                    del f[a]
            body += self.norm(t.c / c0, f, t.d)
        return c0, fr, fc, f0, self.merge(body)

    def inv(self, ex, r, c):
        """inverse of the matrix ex[r, c]; its entry is given for the same two indices"""
        c0, fr, fc, f0, body = self.split_scales(ex, r, c)
        k, o = self.matfunc("inv", body, r, c)
        out = [Term(ONE, {("f", "inv", k, tuple(o)): ONE}, frozenset())]
        if c0 != 1 or fr or fc or f0:
            m = {r: c, c: r}        # inv(diag(s) M) = inv(M) diag(1 / s)
            f = {}
            for a, e in list(fr.items()) + list(fc.items()):
                f[self._reidx(a, m)] = -e
            for a, e in f0.items():
                f[a] = -e
            out = self.mul(out, self.norm(1 / c0, f, frozenset()))
        return out

    def logabs(self, fac):
        """logarithm of the modulus of a product of atoms"""
        out = []
        for a, e in fac.items():
            b = self.conj_atom(a)
            for x in ((a, b) if b != a else (a,)):
                out += self.scale(self.log([Term(ONE, {x: ONE}, frozenset())]), e / (2 if b != a else 1))
        return out

    def logdet(self, ex, r, c):
        """logarithm of the modulus of the determinant of ex[r, c]"""
        c0, fr, fc, f0, body = self.split_scales(ex, r, c)
        k, o = self.matfunc("logdet", body, r, c)
        out = [Term(ONE, {("f", "logdet", k, tuple(o[:-2])): ONE}, frozenset())]
        for i, f in ((r, fr), (c, fc)):
            for t in self.logabs(f):
                out += self.summed([t], i)
        if c0 != 1 or f0:
            n = self.norm(ONE, {("dim", self.size[r]): ONE}, frozenset())
            one = self.logabs(f0) + logq(c0)
            out += self.mul(one, n)
        return self.merge(out)

    # ------------------------------------------------------------ conjugation
    def conj(self, ex):
        out = []
        for t in ex:
            f = {}
            for a, e in t.f.items():
                b = self.conj_atom(a)
                f[b] = f.get(b, 0) + e
            out += self.norm(t.c, f, t.d)
        return self.merge(out)

    def conj_atom(self, a):
        if a[0] == "x":
            if a[1] in self.real:
                return a
            if a[1] in self.herm:
                return ("x", a[1], False, a[3][:-2] + (a[3][-1], a[3][-2]))
            return ("x", a[1], not a[2], a[3])
        if a[0] == "f":
            name, k, idx = a[1:]
            if name == "eigvec":
                return ("f", "eigvec*", k, idx)
            if name == "eigvec*":
                return ("f", "eigvec", k, idx)
            if name in ("eigval", "logdet"):
                return a
            cj = self.conj_templ(k, name)
            if name == "inv" or name.startswith("mpow"):
                kind, k2, perm = cj
                idx = tuple(idx[p] for p in perm)
                if kind == "herm":
                    # inv(M)(i, j)* = inv(M)(j, i)
                    i, j = self.rc(k)
                    l = list(idx)
                    l[i], l[j] = l[j], l[i]
                    return ("f", name, k, tuple(l))
                return ("f", name, k2, idx)
            kind, k2, perm = cj
            return ("f", name, k2, tuple(idx[p] for p in perm))
        return a

    def rc(self, k):
        """positions of row and column in the arguments of a matrix template"""
        n = len(self.templ[k][1])
        return n - 2, n - 1

    def conj_templ(self, k, name):
        ck = (k, name in ("inv", "logdet", "eigvec") or name.startswith("mpow"))
        if ck in self.memo:
            return self.memo[ck]
        ex, vars = self.templ[k][:2]
        cex = self.conj(ex)
        if ck[1]:
            r, c = vars[-2], vars[-1]
            sw = self.subst(self.subst(self.subst(cex, {r: -1}), {c: r}), {-1: c}) if True else None
            names = {v: "f%d" % i for i, v in enumerate(vars)}
            if self.key(sw, names) == self.key(ex, names):
                res = ("herm", k, tuple(range(len(vars))))
                self.memo[ck] = res
                return res
            k2, o = self.template(cex, list(vars), {r: "|r", c: "|s"})
        else:
            k2, o = self.template(cex, list(vars))
        pos = {v: i for i, v in enumerate(vars)}
        res = ("plain", k2, tuple(pos[v] for v in o))
        self.memo[ck] = res
        return res

    def is_real(self, k):
        ck = (k, "real")
        if ck not in self.memo:
            ex, vars = self.templ[k][:2]
            names = {v: "f%d" % i for i, v in enumerate(vars)}
            self.memo[ck] = self.key(self.conj(ex), names) == self.key(ex, names)
        return self.memo[ck]

    def is_herm(self, k):
        return self.conj_templ(k, "inv")[0] == "herm"

    # ------------------------------------------------------------ cancellation rules
    def _cancel(self, c, fac, dum):
        occ = None
        for a, e in fac.items():
            if a[0] == "f" and a[1] in ("inv", "eigvec") and e == 1:
                if occ is None:
                    occ = {}
                    for b in fac:
                        for i in self.idx(b):
                            if isinstance(i, int):
                                occ.setdefault(i, []).append(b)
                if a[1] == "inv":
                    r = self._cancel_inv(a, c, fac, dum, occ)
                else:
                    r = self._cancel_eig(a, c, fac, dum, occ)
                if r is not None:
                    return r
        return None

    def _cancel_inv(self, a, c, fac, dum, occ):
        k = a[2]
        ex, vars = self.templ[k][:2]
        if len(ex) != 1 or ex[0].d or len(ex[0].f) != 1 or ex[0].c != 1:
            return None
        (leaf, le), = ex[0].f.items()
        if leaf[0] != "x" or le != 1:
            return None
        ri, ci = self.rc(k)
        for left in (False, True):       # inv(i, j) M(j, l) or M(l, i) inv(i, j)
            j = a[3][ci] if not left else a[3][ri]
            if j not in dum or len(occ.get(j, ())) != 2:
                continue
            b = [x for x in occ[j] if x is not a]
            if len(b) != 1 or b[0][0] != "x" or b[0][1] != leaf[1] or fac[b[0]] != 1:
                continue
            b = b[0]
            # what M would look like
            m = {v: i for v, i in zip(vars, a[3])}
            free = object()
            want_r, want_c = (j, free) if not left else (free, j)
            m[vars[ri]], m[vars[ci]] = want_r, want_c
            want = tuple(m.get(i, i) if isinstance(i, int) else i for i in leaf[3])
            cands = [b]
            if leaf[1] in self.herm:
                pass
            if b[2] != leaf[2] or len(want) != len(b[3]):
                continue
            other = None
            ok = True
            for w, g in zip(want, b[3]):
                if w is free:
                    other = g
                elif w != g:
                    ok = False
            if not ok or other is None:
                continue
            end = a[3][ri] if not left else a[3][ci]
            f = {x: e for x, e in fac.items() if x is not a and x is not b}
            d = ("delta", (end, other) if repr(end) <= repr(other) else (other, end))
            f[d] = ONE
            return c, f, dum - {j}
        return None

    def _cancel_eig(self, a, c, fac, dum, occ):
        """sum_a vec(i, a) val(a)^e conj vec(j, a) is the e-th matrix power; sum_a without values is the identity"""
        k = a[2]
        al = a[3][-1]
        if al not in dum:
            return None
        users = occ[al]
        star = ("eigvec*", "eigvec") if self.is_real(k) else ("eigvec*",)
        vecs = [b for b in users if b is not a and b[0] == "f" and b[1] in star and b[2] == k and b[3][:-2] == a[3][:-2]]
        vals = [b for b in users if b[0] == "f" and b[1] == "eigval" and b[2] == k and b[3][:-1] == a[3][:-2]]
        if len(vecs) != 1 or fac[vecs[0]] != 1 or len(vals) > 1 or len(users) != 2 + len(vals):
            return None
        e = fac[vals[0]] if vals else Fr(0)
        i, j = a[3][-2], vecs[0][3][-2]
        drop = {id(a), id(vecs[0])} | {id(v) for v in vals}
        f = {x: y for x, y in fac.items() if id(x) not in drop}
        d = dum - {al}
        if e == 0:
            b = ("delta", (i, j) if repr(i) <= repr(j) else (j, i))
            f[b] = f.get(b, 0) + 1
            return c, f, d
        idx = a[3][:-2] + (i, j)
        if e == 1:
            out = []
            for t in self._mul_raw([Term(c, f, frozenset())], self.inst(k, idx)):
                out += self.norm(t.c, t.f, t.d | d)
            return self.merge(out)
        b = ("f", "inv" if e == -1 else "mpow%s" % e, k, idx)
        f[b] = f.get(b, 0) + 1
        return c, f, d

    # ------------------------------------------------------------ derivatives
    def diff(self, ex, leaf, J, conj=False):
        """partial derivative with respect to leaf[J] (holding its conjugate fixed for complex leaves)"""
        out = []
        for t in ex:
            for a, e in t.f.items():
                da = self.diff_atom(a, leaf, J, conj)
                if not da:
                    continue
                f = dict(t.f)
                f[a] = e - 1
                if f[a] == 0:
                    del f[a]
                for u in self._mul_raw([Term(t.c * e, f, t.d)], da):
                    out += self.norm(u.c, u.f, u.d)
        return self.merge(out)

    def depends(self, ex, leaf):
        for t in ex:
            for a in t.f:
                if a[0] == "x" and (a[1] == leaf or a[1] in self.deps and leaf in self.deps[a[1]][0]):
                    return True
                if a[0] == "f" and self.depends(self.templ[a[2]][0], leaf):
                    return True
        return False

    def diff_atom(self, a, leaf, J, conj):
        if a[0] == "x":
            if a[1] in self.deps and leaf in self.deps[a[1]][0]:
                raise Unsup(self.deps[a[1]][1])
            if a[1] != leaf or (a[2] != conj and leaf not in self.real):
                if a[1] == leaf and leaf in self.herm:
                    raise Unsup("derivative of a Hermitian leaf")
                return []
            if len(a[3]) != len(J):
                raise Unsup("rank")
            f = {}
            for i, j in zip(a[3], J):
                if i is None and j is None:
                    continue
                b = ("delta", (i, j) if repr(i) <= repr(j) else (j, i))
                f[b] = f.get(b, 0) + 1
            return [Term(ONE, f, frozenset())]
        if a[0] != "f":
            return []
        name, k, idx = a[1:]
        ex, vars = self.templ[k][:2]
        if not self.depends(ex, leaf):
            return []
        if name in ("S", "log"):
            d = self.diff(self.inst(k, idx), leaf, J, conj)
            if name == "log":
                d = self.mul(d, self.pow(self.inst(k, idx), -1))
            return d
        if name == "inv":
            p, q = self.new(self.size[vars[-2]]), self.new(self.size[vars[-1]])
            b = idx[:-2]
            d = self.diff(self.inst(k, b + (p, q)), leaf, J, conj)
            l = [Term(-ONE, {("f", "inv", k, b + (idx[-2], p)): ONE}, frozenset())]
            r = [Term(ONE, {("f", "inv", k, b + (q, idx[-1])): ONE}, frozenset())]
            return self.summed(self.summed(self.mul(self.mul(l, d), r), p), q)
        if name == "logdet":
            p, q = self.new(self.size[vars[-2]]), self.new(self.size[vars[-1]])
            out = []
            herm = self.is_herm(k)
            for cj in (False, True):
                if herm and cj:
                    continue
                M = self.inst(k, idx + (p, q))
                iv = [Term(ONE, {("f", "inv", k, idx + (q, p)): ONE}, frozenset())]
                if cj:
                    M, iv = self.conj(M), self.conj(iv)
                d = self.mul(self.diff(M, leaf, J, conj), iv)
                out = self.add(out, self.scale(self.summed(self.summed(d, p), q), Fr(1) if herm else Fr(1, 2)))
            return out
        if name in ("lse",):
            # template vars: free indices, then the reduced one last is inside `softmax`
            red = vars[-1]
            v = self.new(self.size[red])
            d = self.diff(self.inst(k, idx + (v,)), leaf, J, conj)
            s = [Term(ONE, {("f", "softmax", k, idx + (v,)): ONE}, frozenset())]
            return self.summed(self.mul(d, s), v)
        if name == "exp":
            return self.mul(self.diff(self.inst(k, idx), leaf, J, conj), [Term(ONE, {a: ONE}, frozenset())])
        raise Unsup("derivative of " + name)

    # ------------------------------------------------------------ nodes
    def ev(self, n, idx=None):
        vars, ex = self._ev(n)
        if idx is None:
            return vars, ex
        m = {v: i for v, i in zip(vars, idx) if v is not None}
        ex = [self._fresh_dummies(t) for t in ex]
        return self.subst(ex, m)

    def axes(self, shape):
        if shape is None:
            raise Unsup("shape")
        return tuple(None if self.isone(d) else self.new(self.dim(d)) for d in shape)

    def _ev(self, n):
        r = self.memo.get(("n", n.id))
        if r is None:
            self.budget -= 50
            if self.budget < 0:
                raise Unsup("budget")
            r = self._ev1(n)
            if self.keep and (len(r[1]) > 1 or r[1] and r[1][0].d):
                r = r[0], self.folded(r[1])
            self.memo[("n", n.id)] = r
            if len(r[1]) > 400:
                raise Unsup("too many terms")
        return r

    def folded(self, ex):
        """a sum that is to stay closed becomes one factor"""
        c0, common, body = self.primitive(ex)
        if len(body) == 1 and not body[0].d:
            return ex
        try:
            k, order = self.template(body, self.free(body))
        except Unsup:
            return ex
        if k not in self.keep:
            return ex
        a = ("f", "S", k, tuple(order))
        return self.norm(c0, {**common, a: common.get(a, 0) + 1}, frozenset())

    def leaf_of(self, n, name):
        v = self.axes(n.shape)
        if npmodel.dt(n) in ("f", "i", "b"):
            self.real.add(name)
        return v, [Term(ONE, {("x", name, False, v): ONE}, frozenset())]

    def scalar_poly(self, n):
        by = {a.id: a for a in n.args}
        ex = []
        for mono, c in n.attr:
            f = {}
            for i in mono:
                a = by[i]
                k = ("dim", a.attr) if a.op == "sym" else ("dim", "%s#%d" % (a.op, a.id))
                f[k] = f.get(k, 0) + 1
            ex.append(Term(Fr(c), f, frozenset()))
        return ex

    def elem(self, args, shape):
        """evaluate broadcast operands at common indices"""
        out = self.axes(shape)
        res = []
        for a in args:
            if a.op == "const" or a.op in ("poly", "atom", "sym"):
                res.append(self._ev(a)[1])
                continue
            if a.shape is None:
                raise Unsup("shape of %s" % a.op)
            k = len(out) - len(a.shape)
            res.append(self.ev(a, [None if self.isone(d) else out[k + i] for i, d in enumerate(a.shape)]))
        return out, res

    def _ev1(self, n):
        try:
            return self._ev2(n)
        except Unsup as x:
            if str(x) == "budget" or n.shape is None or not self.allow_opaque:
                raise
            return self.opaque(n, str(x))

    def opaque(self, n, why):
        """an array the normal form does not look into: a leaf that knows which inputs it was made from"""
        name = "#%d" % n.id
        deps, todo, seen = set(), [n], set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "input":
                deps.add(x.attr)
            if x.id in self.leaf:
                deps.add(self.leaf[x.id])
            todo.extend(x.args)
        self.deps[name] = (deps, why)
        return self.leaf_of(n, name)

    def opaques(self, exs, acc=None, seen=None):
        acc = set() if acc is None else acc
        seen = set() if seen is None else seen
        for ex in exs:
            for t in ex:
                for a in t.f:
                    if a[0] == "x" and a[1] in self.deps:
                        acc.add(a[1])
                    elif a[0] == "f" and a[2] not in seen:
                        seen.add(a[2])
                        self.opaques([self.templ[a[2]][0]], acc, seen)
        return acc

    def _ev2(self, n):
        op = n.op
        if n.id in self.leaf:
            return self.leaf_of(n, self.leaf[n.id])
        if op == "const":
            if not isinstance(n.attr[1], (int, float)) or isinstance(n.attr[1], bool):
                raise Unsup("constant %r" % (n.attr[1],))
            return (), self.const(rat(n.attr[1]))
        if op == "poly":
            return (), self.scalar_poly(n)
        if op == "sym":
            return (), [Term(ONE, {("dim", n.attr): ONE}, frozenset())]
        if op == "atom":
            if n.attr in self.values:
                return (), self.const(self.values[n.attr])
            return (), [Term(ONE, {("dim", n.attr): ONE}, frozenset())]
        if op == "input":
            return self.leaf_of(n, n.attr)
        m = getattr(self, "op_" + op, None)
        if m is None:
            raise Unsup("%s at %s" % (op, n.loc))
        return m(n)

    def op_add(self, n):
        v, (a, b) = self.elem(n.args, n.shape)
        return v, self.add(a, b)

    def op_sub(self, n):
        v, (a, b) = self.elem(n.args, n.shape)
        return v, self.sub(a, b)

    def op_mul(self, n):
        v, (a, b) = self.elem(n.args, n.shape)
        if n.args[0] is n.args[1]:
            return v, self.pow(a, 2)
        return v, self.mul(a, b)

    def op_div(self, n):
        v, (a, b) = self.elem(n.args, n.shape)
        return v, self.mul(a, self.pow(b, -1))

    def op_reciprocal(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.pow(a, -1)

    def op_pow(self, n):
        v, (a, b) = self.elem(n.args, n.shape)
        if len(b) > 1 or b and (b[0].f or b[0].d):
            raise Unsup("symbolic exponent")
        return v, self.pow(a, b[0].c if b else 0)

    def op_square(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.pow(a, 2)

    def op_neg(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.scale(a, -1)

    def op_sqrt(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.pow(a, Fr(1, 2))

    def op_abs(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.pow(self.mul(a, self.conj(a)), Fr(1, 2))

    def op_sign(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.mul(a, self.pow(self.mul(a, self.conj(a)), Fr(-1, 2)))

    def op_conj(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.conj(a)

    def op_real(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.scale(self.add(a, self.conj(a)), Fr(1, 2))

    def op_log(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.log(a)

    def op_exp(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.exp(a)

    def op_rmax(self, n):
        """the maximum over one axis, as a function the normal form does not look into"""
        out, sv, e = self._reduce(n)
        if len(sv) != 1:
            raise Unsup("maximum")
        k, o = self.template(e, self.free(e), {sv[0]: "|m"})
        if sv[0] not in o:
            return out, e
        p = o.index(sv[0])
        return out, [Term(ONE, {("f", "rmax%d" % p, k, tuple(x for x in o if x != sv[0])): ONE}, frozenset())]

    def op_log1p(self, n):
        v, (a,) = self.elem(n.args, n.shape)
        return v, self.log(self.add(self.const(1), a))

    def op_cast(self, n):
        if n.attr in ("i", "b"):
            raise Unsup("cast")
        v, (a,) = self.elem(n.args, n.shape)
        return v, a

    # ---------------------------------------------------------------- thresholds
    choose = None       # condition node -> side, or None
    cases = None        # the case being looked at: node of a threshold -> side

    def tiny(self, a):
        """a constant that only guards against rounding"""
        return (a.op == "const" and type(a.attr[1]) in (int, float) and a.attr[1] <= 1e-3) or a.op == "poly" and self.g.int_value(a) == 0

    def case(self, n):
        if self.cases is None:
            raise Unsup("%s at %s" % (n.op, n.loc))
        if n.id not in self.cases:
            raise Split(n.id)
        return self.cases[n.id]

    def data(self, n):
        return any(y.op == "input" and (y.shape or n is y) or y.op == "atom" and not y.args and (y.meta or {}).get("dt") == "f" for y in walk_nodes(n))

    def floored(self, n):
        """where(x > c, x, c) with a small constant c: x"""
        c, x, y = n.args
        if c.op != "cmp" or c.attr not in ("Lt", "LtE", "Gt", "GtE"):
            return None
        same = lambda a, b: a is b or self.tiny(a) and self.tiny(b)
        if {same(x, a) and same(y, b) for a, b in (c.args, c.args[::-1])} == {False} or self.tiny(x) == self.tiny(y):
            return None
        return y if self.tiny(x) else x

    def side(self, c):
        """the side of a condition to look at; None: not known"""
        b = self.choose(c) if self.choose else None
        if b is not None:
            return b
        if c.op == "invert":
            b = self.side(c.args[0])
            return None if b is None else not b
        if self.cases is None or c.op != "cmp" or not any(self.data(a) for a in c.args) or any(a.op in ("argmax", "argsort") or a.op == "loopidx" and not any(npmodel.dt(x) == "f" for x in c.args) for a in walk_nodes(c)):
            return None
        if c.attr in ("Eq", "NotEq"):
            if any(npmodel.dt(a) in ("f", "c") for a in c.args):    # equal by accident only
                return c.attr == "NotEq"
            return None
        if c.attr not in ("Lt", "LtE", "Gt", "GtE") or any(self.tiny(a) for a in c.args):
            return None
        return self.case(c)

    def op_where(self, n):
        x = self.floored(n)
        if x is None:
            b = self.side(n.args[0])
            if b is None:
                raise Unsup("where at %s" % (n.loc,))
            x = n.args[1 if b else 2]
        v, (e,) = self.elem([x], n.shape)
        return v, e

    def op_phi(self, n):
        b = self.choose(n.args[0]) if self.choose else None
        if b is None:
            v, (x, y) = self.elem(n.args[1:3], n.shape)
            if self.zero(self.sub(x, y)):
                return v, x
            b = self.side(n.args[0])
        if b is None:
            raise Unsup("phi at %s" % (n.loc,))
        v, (e,) = self.elem([n.args[1 if b else 2]], n.shape)
        return v, e

    def extremum(self, n):
        """max(x, tiny) is x; any other can be either of the two"""
        small = [a for a in n.args if self.tiny(a)]
        if len(small) == 1 and n.op == "maximum":
            x = n.args[0] if n.args[1] is small[0] else n.args[1]
        elif len(small) == 0 and any(self.data(a) for a in n.args):
            x = n.args[0 if self.case(n) else 1]
        else:
            raise Unsup("%s at %s" % (n.op, n.loc))
        v, (a,) = self.elem([x], n.shape)
        return v, a

    op_maximum = op_minimum = extremum

    def op_user(self, n):
        if n.attr in self.identity:
            v, (a,) = self.elem(n.args[:1], n.shape)
            return v, a
        raise Unsup("user function " + str(n.attr))

    def op_transpose(self, n):
        v, e = self._ev(n.args[0])
        perm = n.attr if n.attr is not None else tuple(reversed(range(len(v))))
        return tuple(v[p] for p in perm), e

    def op_expand(self, n):
        v, e = self._ev(n.args[0])
        v = list(v)
        nd = len(v) + len(n.attr)
        for ax in sorted(a % nd for a in n.attr):
            v.insert(ax, None)
        return tuple(v), e

    def op_squeeze(self, n):
        v, e = self._ev(n.args[0])
        if n.shape is None:
            raise Unsup("squeeze")
        axes = n.attr
        if axes is None:
            return tuple(x for x in v if x is not None), e
        axes = (axes,) if isinstance(axes, int) else axes
        axes = {a % len(v) for a in axes}
        if any(v[a] is not None for a in axes):
            raise Unsup("squeeze")
        return tuple(x for i, x in enumerate(v) if i not in axes), e

    def op_bcast(self, n):
        v, (a,) = self.elem(n.args[:1], n.shape)
        return v, a

    def beneath(self, n):
        """(x, perm) with n the transpose of x by perm and x no transpose; slices are taken before the transpose"""
        if n.op == "transpose":
            p = n.attr if n.attr is not None else tuple(reversed(range(len(n.shape))))
            x, q = self.beneath(n.args[0])
            return x, [q[i] for i in p]
        if n.op == "index" and n.args[0].shape is not None and all(s == "f" or s[0] == "s" for s in n.attr) and len(n.shape) == len(n.args[0].shape):
            x, q = self.beneath(n.args[0])
            if q != list(range(len(q))):
                spec, shape = ["f"] * len(q), [None] * len(q)
                full = list(n.attr) + ["f"] * (len(q) - len(n.attr))
                for i, a in enumerate(q):
                    spec[a], shape[a] = full[i], n.shape[i]
                return self.g.mk("index", (x,) + tuple(n.args[1:]), tuple(spec), tuple(shape)), q
        return n, list(range(len(n.shape)))

    def batched(self, x):
        """a stack of matrix products, or a slice of one: the two operands, sliced alike"""
        spec = None
        if x.op == "index" and x.args[0].op == "matmul":
            if any(s != "f" for s in x.attr[-2:]) and len(x.attr) > len(x.shape) - 2:
                return None
            spec, n = x, x.args[0]
        else:
            n = x
        if n.op != "matmul" or any(a.shape is None or len(a.shape) != len(n.shape) for a in n.args) or len(n.shape) < 3:
            return None
        for i in range(len(n.shape) - 2):
            if self.dim(n.args[0].shape[i]) != self.dim(n.args[1].shape[i]):
                return None
        if spec is None:
            return list(n.args)
        k = len(n.shape) - 2
        at = tuple(spec.attr[:k]) + ("f",) * (k - len(spec.attr[:k])) + ("f", "f")
        return [self.g.mk("index", (a,) + tuple(spec.args[1:]), at, tuple(spec.shape[:k]) + tuple(a.shape[k:])) for a in n.args]

    def split_base(self, x, at, parts):
        ab = self.batched(x)
        if ab and at < len(x.shape) - 2:
            ab = [self.split_base(a, at, parts) for a in ab]
            shape = tuple(x.shape[:at]) + tuple(parts) + tuple(x.shape[at + 1:])
            return self.g.mk("matmul", tuple(ab), None, shape)
        shape = tuple(x.shape[:at]) + tuple(parts) + tuple(x.shape[at + 1:])
        return self.g.mk("reshape", (x,), tuple(d.id for d in shape), shape)

    def split_axis(self, n):
        """an axis split in two commutes with transpositions: the split is made on the array underneath"""
        src, dst = n.args[0].shape, n.shape
        if src is None or len(dst) != len(src) + 1 or n.args[0].op not in ("transpose", "index", "matmul"):
            return None
        x, perm = self.beneath(n.args[0])
        if perm == list(range(len(src))) and not self.batched(x):
            return None
        for k in range(len(src)):
            if all(self.dim(a) == self.dim(b) for a, b in zip(src[:k] + src[k + 1:], dst[:k] + dst[k + 2:])):
                break
        else:
            return None
        at = perm[k]
        base = self.split_base(x, at, list(dst[k:k + 2]))
        v, e = self._ev(base)
        out = []
        for i, p in enumerate(perm):
            q = p if p < at else p + 1
            out.extend([v[at], v[at + 1]] if p == at else [v[q]])
        return tuple(out), e

    def op_reshape(self, n):
        v, e = self._ev(n.args[0])
        real = [x for x in v if x is not None]
        tgt = [d for d in n.shape if not self.isone(d)]
        if len(real) != len(tgt) or any(self.size[x] != self.dim(d) for x, d in zip(real, tgt)):
            r = self.split_axis(n)
            if r is None:
                raise Unsup("reshape at %s %s" % (n.loc, [dimstr(d) for d in n.shape]))
            return r
        it = iter(real)
        return tuple(None if self.isone(d) else next(it) for d in n.shape), e

    def op_index(self, n):
        v, e = self._ev(n.args[0])
        m, out = {}, []
        for ax, s in enumerate(n.attr):
            if s == "f":
                out.append(v[ax])
            elif s[0] == "i":
                k = n.args[1 + s[1]]
                iv = self.g.int_value(k)
                if v[ax] is not None:
                    m[v[ax]] = ("c", iv) if iv is not None else ("l", dimstr(k))
            else:
                raise Unsup("slice")
        out += v[len(n.attr):]
        return tuple(out), self.subst([self._fresh_dummies(t) for t in e], m)

    def op_gather(self, n):
        if not self.pairs or n.args[1].op != "list" or len(n.args) != 2:
            raise Unsup("gather at %s" % (n.loc,))
        ids = tuple(a.id for a in n.args[1].args)
        if self.pair_list not in (None, ids):
            if set(ids) <= set(self.pair_list):
                self.mixed.append((n.loc, n.fn))
            raise Unsup("another selection at %s" % (n.loc,))
        self.pair_list = ids
        return self._ev(n.args[0])

    def op_matmul(self, n):
        a, b = n.args
        na, nb = len(a.shape), len(b.shape)
        if na < 2 or nb < 2:
            if na == 1 and nb == 1:
                s = self.new(self.dim(a.shape[0]))
                return (), self.summed(self.mul(self.ev(a, [s]), self.ev(b, [s])), s)
            if nb == 1:
                out = self.axes(n.shape)
                s = self.new(self.dim(b.shape[0]))
                return out, self.summed(self.mul(self.ev(a, list(out) + [s]), self.ev(b, [s])), s)
            out = self.axes(n.shape)
            s = self.new(self.dim(a.shape[0]))
            return out, self.summed(self.mul(self.ev(a, [s]), self.ev(b, list(out[:-1]) + [s] + [out[-1]])), s)
        out = self.axes(n.shape)
        s = None if self.isone(a.shape[-1]) else self.new(self.dim(a.shape[-1]))

        def bt(x):
            k = len(out) - len(x.shape)
            return [None if self.isone(d) else out[k + i] for i, d in enumerate(x.shape[:-2])]
        A = self.ev(a, bt(a) + [None if self.isone(a.shape[-2]) else out[-2], s])
        B = self.ev(b, bt(b) + [s, None if self.isone(b.shape[-1]) else out[-1]])
        P = self.mul(A, B)
        return out, P if s is None else self.summed(P, s)

    def op_einsum(self, n):
        lhs, rhs = n.attr.split("->")
        ix = {}
        P = self.const(1)
        for t, a in zip(lhs.split(","), n.args):
            for ch, d in zip(t, a.shape):
                if ch not in ix or ix[ch] is None:
                    ix[ch] = None if self.isone(d) else self.new(self.dim(d))
        for t, a in zip(lhs.split(","), n.args):
            P = self.mul(P, self.ev(a, [None if self.isone(d) else ix[ch] for ch, d in zip(t, a.shape)]))
        for ch in set(lhs) - set(rhs) - {","}:
            if ix[ch] is not None:
                P = self.summed(P, ix[ch])
        return tuple(ix[ch] for ch in rhs), P

    def _reduce(self, n):
        v, e = self._ev(n.args[0])
        axes = n.attr[0]
        nd = len(v)
        axes = range(nd) if axes is None else [a % nd for a in axes]
        sv = [v[a] for a in axes if v[a] is not None]
        out = tuple(x for i, x in enumerate(v) if i not in axes)
        if len(n.attr) > 1:
            raise Unsup("reduction option")
        return out, sv, e

    def op_sum(self, n):
        out, sv, e = self._reduce(n)
        for s in sv:
            e = self.summed(e, s)
        return out, e

    def op_mean(self, n):
        out, sv, e = self._reduce(n)
        for s in sv:
            e = self.mul(self.summed(e, s), [Term(ONE, {("dim", self.size[s]): Fr(-1)}, frozenset())])
        return out, e

    def op_norm(self, n):
        out, sv, e = self._reduce(n)
        e = self.mul(e, self.conj(e))
        for s in sv:
            e = self.summed(e, s)
        return out, self.pow(e, Fr(1, 2))

    def op_stack(self, n):
        ax = n.attr if isinstance(n.attr, int) else 0
        out = self.axes(n.shape)
        if any(a.shape is None or len(a.shape) != len(n.shape) - 1 for a in n.args) or (out[ax] is None) != (len(n.args) == 1):
            raise Unsup("stack")
        if out[ax] is None:
            return out, self.ev(n.args[0], [v for i, v in enumerate(out) if i != ax])
        rest, ex = [v for i, v in enumerate(out) if i != ax], []
        for k, a in enumerate(n.args):
            e = self.ev(a, rest)
            ex = self.add(ex, self.mul(e, [Term(ONE, {("delta", (("c", k), out[ax])): ONE}, frozenset())]))
        return out, ex

    op_list = op_stack

    def op_trace(self, n):
        v, e = self._ev(n.args[0])
        a1, a2 = (a % len(v) for a in n.attr)
        out = tuple(x for i, x in enumerate(v) if i not in (a1, a2))
        if v[a1] is None:
            return out, e
        s = self.new(self.size[v[a1]])
        return out, self.summed(self.subst([self._fresh_dummies(t) for t in e], {v[a1]: s, v[a2]: s}), s)

    def op_diagonal(self, n):
        v, e = self._ev(n.args[0])
        a1, a2 = (a % len(v) for a in n.attr[:2])
        out = tuple(x for i, x in enumerate(v) if i not in (a1, a2))
        if v[a1] is None:
            return out + (None,), e
        s = self.new(self.size[v[a1]])
        return out + (s,), self.subst([self._fresh_dummies(t) for t in e], {v[a1]: s, v[a2]: s})

    def op_diagm(self, n):
        v, e = self._ev(n.args[0])
        i, j = self.new(self.size[v[0]]), self.new(self.size[v[0]])
        d = [Term(ONE, {("delta", (i, j)): ONE}, frozenset())]
        return (i, j), self.mul(self.ev(n.args[0], [i]), d)

    def op_eye(self, n):
        if n.attr and len(n.attr) > 1:
            raise Unsup("eye")
        i, j = self.axes(n.shape)
        return (i, j), [Term(ONE, {("delta", (i, j)): ONE}, frozenset())]

    def op_zeros(self, n):
        return self.axes(n.shape), []

    def op_ones(self, n):
        return self.axes(n.shape), self.const(1)

    def op_inv(self, n):
        v, e = self._ev(n.args[0])
        if v[-1] is None:
            return v, self.pow(e, -1)
        return v, self.inv(e, v[-2], v[-1])

    def op_solve(self, n):
        a, b = n.args
        va, ea = self._ev(a)
        if va[-1] is None or len(b.shape) != len(n.shape):
            raise Unsup("solve")
        out = self.axes(n.shape)
        s = self.new(self.size[va[-1]])
        off = len(out) - len(va)
        m = {v: (out[off + i] if i < len(va) - 1 else s) for i, v in enumerate(va) if v is not None}
        A = self.subst(self.inv(ea, va[-2], va[-1]), m)
        kb = len(out) - len(b.shape)
        B = self.ev(b, [None if self.isone(d) else out[kb + i] for i, d in enumerate(b.shape[:-2])]
                    + [s, None if self.isone(b.shape[-1]) else out[-1]])
        return out, self.summed(self.mul(A, B), s)

    def op_logdet(self, n):
        v, e = self._ev(n.args[0])
        return v[:-2], self.logdet(e, v[-2], v[-1])

    def op_eigval(self, n):
        v, e = self._ev(n.args[0])
        k, o = self.matfunc("eig", e, v[-2], v[-1])
        s = self.new(self.size[v[-1]])
        return v[:-2] + (s,), [Term(ONE, {("f", "eigval", k, tuple(o[:-2]) + (s,)): ONE}, frozenset())]

    def op_eigvec(self, n):
        v, e = self._ev(n.args[0])
        k, o = self.matfunc("eig", e, v[-2], v[-1])
        s = self.new(self.size[v[-1]])
        return v[:-1] + (s,), [Term(ONE, {("f", "eigvec", k, tuple(o[:-1]) + (s,)): ONE}, frozenset())]

    # ------------------------------------------------------------ questions
    def zero(self, ex, depth=3):
        ex = self.merge(ex)
        if not ex:
            return True
        if depth:
            for a in self.denominators(ex)[:4]:
                try:
                    c = self.clear([ex], a)
                except Unsup:
                    continue
                if c is not None and self.zero(c[0], depth - 1):
                    return True
        return False

    def denominators(self, ex):
        """compound sums that occur in denominators, the most deeply nested expressions first, one per template"""
        out = {}
        for t in ex:
            for a, e in t.f.items():
                if a[0] == "f" and a[1] == "S" and e < 0 and a[2] not in out:
                    out[a[2]] = (a, t)
        return [a for a, t in sorted(out.values(), key=lambda x: -len(x[0][2]))]

    def clear(self, exs, a):
        """multiply the summands of all expressions by the compound `a`; a dummy index of `a` becomes a free one in every term"""
        k = a[2]
        low = Fr(0)
        for ex in exs:
            for t in ex:
                for b, e in t.f.items():
                    if b[0] == "f" and b[1] == "S" and b[2] == k:
                        low = min(low, e)
        n = -low
        n = int(n) if n.denominator == 1 else int(n) + 1
        if n > 3:
            return None
        frees = set()
        for ex in exs:
            frees |= set(self.free(ex))
        # indices of `a` that are summed over become free: `place`
        place, dims = [], []
        for i in a[3]:
            if isinstance(i, int) and i not in frees:
                place.append(self.new(self.size[i]))
                dims.append(self.size[i])
            else:
                place.append(i)
                dims.append(None)
        if len({d for d in dims if d}) != len([d for d in dims if d]):
            return None
        S = self.inst(k, tuple(place))
        Sn = S
        for _ in range(n - 1):
            Sn = self.mul(Sn, S)
        outs = []
        for ex in exs:
            res = []
            for t in ex:
                mine = [b for b, e in t.f.items() if b[0] == "f" and b[1] == "S" and b[2] == k and e < 0]
                ren, extra = {}, {}
                for d, v in zip(dims, place):
                    if d is None:
                        continue
                    c = [x for x in t.d if self.size[x] == d]
                    if mine:
                        w = [x for x in c if any(x in self.idx(b) for b in mine)]
                        c = w or c
                    if len(c) > 1:
                        return None
                    if c:
                        ren[c[0]] = v
                    else:
                        extra[("dim", d)] = Fr(-1)
                f = self._subst_fac(t.f, ren)
                for b, e in extra.items():
                    f[b] = f.get(b, 0) + e
                    if f[b] == 0:
                        del f[b]
                dd = frozenset(x for x in t.d if x not in ren)
                key = ("f", "S", k, tuple(place))
                au = self.templ[k][2]
                have = [b for b in f if b[0] == "f" and b[1] == "S" and b[2] == k and any(tuple(b[3][p] for p in q) == key[3] for q in au)]
                e = sum((f.pop(b) for b in have), Fr(0))
                e += n
                if e.denominator == 1 and e >= 0:
                    u = [Term(t.c, f, dd)]
                    for _ in range(int(e)):
                        u = self._mul_raw(u, S)
                else:
                    f[key] = f.get(key, 0) + e
                    u = [Term(t.c, f, dd)]
                for x in u:
                    res += self.norm(x.c, x.f, x.d)
            outs.append(self.merge(res))
        return outs

    def coefficients(self, A, B):
        """constants c such that some term of A is c times a term of B"""
        dims = lambda t: {a: e for a, e in t.f.items() if a[0] in ("dim", "q")}

        def strip(t):
            return Term(ONE, {a: e for a, e in t.f.items() if a[0] not in ("dim", "q")}, t.d)
        kb = {}
        for t in B:
            kb.setdefault(self.tkey(strip(t), {}), []).append(t)
        out, seen = [], set()
        for ta in A:
            for tb in kb.get(self.tkey(strip(ta), {}), []):
                f = dict(dims(ta))
                for a, e in dims(tb).items():
                    f[a] = f.get(a, 0) - e
                f = {a: e for a, e in f.items() if e}
                c = self.norm(ta.c / tb.c, f, frozenset())
                if len(c) == 1 and (c[0].c, tuple(sorted(map(repr, c[0].f.items())))) not in seen:
                    seen.add((c[0].c, tuple(sorted(map(repr, c[0].f.items())))))
                    out.append(c[0])
        return out

    def ratio(self, A, B, depth=3):
        """rational c (times dimension symbols) with A == c * B, or None"""
        A, B = self.merge(A), self.merge(B)
        if not A or not B:
            return None
        if len(A) == len(B):
            for c in self.coefficients(A, B):
                if self.zero(self.sub(A, self.mul(B, [c])), 0):
                    return c
        A2, B2 = self.expanded(A), self.expanded(B)
        if (len(A2), len(B2)) != (len(A), len(B)):
            return self.ratio(A2, B2, depth)
        if depth:
            for a in self.denominators(A + B)[:4]:
                try:
                    r = self.clear([A, B], a)
                except Unsup:
                    continue
                if r is not None:
                    c = self.ratio(r[0], r[1], depth - 1)
                    if c is not None:
                        return c
        return None

    def expanded(self, ex, limit=400):
        """compound sums that occur with a small positive integer power are multiplied out"""
        out = []
        for t in ex:
            k = next((a for a, e in t.f.items() if a[0] == "f" and a[1] == "S" and e > 0 and e.denominator == 1 and e <= 2), None)
            if k is None or len(out) > limit:
                out.append(t)
                continue
            e = int(t.f[k])
            r = [Term(t.c, {a: x for a, x in t.f.items() if a != k}, t.d)]
            for _ in range(e):
                r = self.mul(r, self.inst(k[2], k[3]))
            out.extend(self.expanded(r, limit))
        return self.merge(out)

    def combination(self, A, B, D, depth=3):
        """(b, d) with A == b*B + d*D, or None"""
        A, B, D = self.merge(A), self.merge(B), self.merge(D)
        for b in self.coefficients(A, B)[:6]:
            r = self.sub(A, self.mul(B, [b]))
            d = self.ratio(r, D, 0)
            if d is not None:
                return b, d
        if depth:
            for a in self.denominators(A + B + D)[:4]:
                try:
                    r = self.clear([A, B, D], a)
                except Unsup:
                    continue
                if r is not None:
                    c = self.combination(*r, depth=depth - 1)
                    if c is not None:
                        return c
        return None

    def show(self, ex, names=None):
        names = names or {}
        out = []
        for t in ex[:6]:
            fs = []
            for a, e in t.f.items():
                ix = ",".join(names.get(i, "i%d" % i) if isinstance(i, int) else str(i[1]) if i else "" for i in self.idx(a))
                nm = a[1] + ("*" if a[2] else "") if a[0] == "x" else (a[1] + "<" + self.templ[a[2]][3] + ">") if a[0] == "f" else a[0] if a[0] == "delta" else str(a[1])
                fs.append("%s[%s]%s" % (nm, ix, "" if e == 1 else "^%s" % e))
            out.append("%s·%s%s" % (t.c, "".join("Σi%d " % d for d in sorted(t.d)), " ".join(fs)))
        return "  +  ".join(out) + (" + ..%d" % len(ex) if len(ex) > 6 else "")


# ---------------------------------------------------------------------- thresholds
class Split(Exception):
    """a threshold that can go either way"""


class Deferred:
    """the obligations of one case, entered when it is through"""

    def __init__(self, chk):
        self.chk, self.log = chk, []

    def __getattr__(self, name):
        if name in ("oblige", "skip"):
            return lambda *a, **k: self.log.append((name, a, k))
        return getattr(self.chk, name)


def casewise(chk, fn, limit=16):
    """fn(chk) in every case of the thresholds it meets"""
    todo, n = [{}], 0
    while todo:
        case = todo.pop()
        d = Deferred(chk)
        TNF.cases = case
        try:
            fn(d)
        except Split as x:
            n += 1
            if n > limit:
                raise Unsup("too many thresholds")
            todo += [{**case, x.args[0]: False}, {**case, x.args[0]: True}]
            d.log = []
        finally:
            TNF.cases = None
            for name, a, k in d.log:
                getattr(chk, name)(*a, **k)


def walk_nodes(root):
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n.id not in seen:
            seen.add(n.id)
            todo.extend(n.args)
            yield n
