"""Sign analysis of the value graph.

Every value is described at an arbitrary point ('gen') and at one distinguished slice of the frame axis ('sil'), for
example a silent frame.  Elements:  Z (exactly zero)  P (positive)  N (non-negative)  R (nothing known).
Matrices additionally carry 'psd' / 'pd' when their last two axes are Hermitian positive (semi)definite.
"""
from __future__ import annotations

from .graph import Node
from .npmodel import dt as npm_dt

Z, P, N, R = "Z", "P", "N", "R"
ORDER = {Z: 0, P: 0, N: 1, R: 2}


def join1(a, b):
    if a == b:
        return a
    if R in (a, b):
        return R
    return N


def add1(a, b):
    if a == Z:
        return b
    if b == Z:
        return a
    if R in (a, b):
        return R
    return P if P in (a, b) else N


def mul1(a, b):
    if Z in (a, b):
        return Z
    if R in (a, b):
        return R
    return P if a == b == P else N


class Val:
    __slots__ = ("gen", "sil", "mat")

    def __init__(self, gen, sil=None, mat=None):
        self.gen = gen
        self.sil = gen if sil is None else sil
        self.mat = mat              # None | 'psd' | 'pd'

    def key(self):
        return (self.gen, self.sil, self.mat)

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __repr__(self):
        return "%s/%s%s" % (self.gen, self.sil, "/" + self.mat if self.mat else "")


TOP = Val(R)


def lift(f, *vs):
    return Val(f(*[v.gen for v in vs]), f(*[v.sil for v in vs]))


class Signs:
    def __init__(self, g, inputs, user=None, frame="T", dimname=None):
        self.g, self.inputs, self.user, self.frame = g, inputs, user or {}, frame
        self._dim = dimname
        self.v, self.lp, self.issues, self.checked = {}, {}, {}, 0
        self.unproved = {}
        self.ndiv = 0
        self.values = {}            # model parameters: name -> a generic admissible value
        self.only_sil = True        # report only what goes wrong in the distinguished slice

    # ---------------------------------------------------------------- helpers
    def issue(self, n, msg):
        if self.only_sil and "silent" not in msg:
            return
        self.issues.setdefault((n.fn, n.loc, msg), n)

    def t(self, n):
        return self.v.get(n.id, TOP)

    def framed(self, n):
        """axes of the value that are frame axes"""
        return [i for i, d in enumerate(n.shape or ()) if self._dim(d) == self.frame]

    def num(self, n):
        if n.op == "const" and isinstance(n.attr[1], (int, float)) and not isinstance(n.attr[1], bool):
            return n.attr[1]
        if n.op == "poly":
            if not n.attr:
                return 0
            if len(n.attr) == 1 and n.attr[0][0] == ():
                return n.attr[0][1]
        return None

    def value(self, n, depth=0):
        """scalar evaluated at a generic point of the model parameters"""
        if depth > 30:
            return None
        k = self.num(n)
        if k is not None:
            return k
        if n.op == "atom":
            return self.values.get(n.attr)
        if n.op in ("cast", "copy", "neg", "add", "sub", "mul", "div"):
            a = [self.value(x, depth + 1) for x in n.args]
            if None in a:
                return None
            try:
                return {"cast": lambda x: x, "copy": lambda x: x, "neg": lambda x: -x, "add": lambda x, y: x + y, "sub": lambda x, y: x - y,
                        "mul": lambda x, y: x * y, "div": lambda x, y: x / y}[n.op](*a)
            except ZeroDivisionError:
                return None
        if n.op == "poly":
            ids = {a.id: a for a in n.args}
            s = 0
            for m, c in n.attr:
                v = c
                for i in m:
                    x = self.value(ids[i], depth + 1) if i in ids else None
                    if x is None:
                        return None
                    v = v * x
                s = s + v
            return s
        return None

    def is_real(self, n):
        from . import npmodel
        return npmodel.dt(n) in ("f", "i", "b")

    def join(self, a, b):
        m = a.mat if a.mat == b.mat else ("psd" if a.mat and b.mat else None)
        if a.gen == Z and not a.mat:
            m = b.mat and "psd"
        if b.gen == Z and not b.mat:
            m = a.mat and "psd"
        return Val(join1(a.gen, b.gen), join1(a.sil, b.sil), m)

    # ---------------------------------------------------------------- fixpoint
    def run(self, roots, topo, passes=8, unroll=3):
        """'unroll' passes follow single iterations of the loops (what the back edge delivers replaces the old value), so that a
        value that a loop drives to zero is seen; the remaining passes join over all iterations."""
        order = topo(roots)
        for p in range(unroll + passes):
            if p == unroll:
                self.lp = {}
            self.v, self.checked = {}, 0
            for n in order:
                try:
                    x = self.op(n)
                except (IndexError, TypeError, AttributeError, KeyError):
                    x = TOP
                self.v[n.id] = x if isinstance(x, Val) else TOP
            again = False
            for n in order:
                if n.op == "loopphi" and len(n.args) > 1:
                    if p < unroll - 1:
                        self.lp[n.id] = self.t(n.args[1])
                        continue
                    a = self.lp.get(n.id, self.t(n.args[0]))
                    j = self.join(a, self.t(n.args[1]))
                    if j != a:
                        again = True
                    self.lp[n.id] = j
            if p >= unroll and not again:
                return True
        return False

    # ---------------------------------------------------------------- transfer
    def op(self, n):
        o, A = n.op, n.args
        T = [self.t(a) for a in A]
        if o == "input":
            return self.inputs.get(n.attr, TOP)
        if o == "const":
            v = n.attr[1]
            if isinstance(v, bool):
                return TOP
            if isinstance(v, (int, float)):
                return Val(Z if v == 0 else P if v > 0 else R)
            return Val(Z) if v == 0j else TOP
        if o == "poly":
            if not n.attr:
                return Val(Z)
            k = self.num(n)
            if k is not None:
                return Val(P if k > 0 else R)
            # dimensions and counters are non-negative
            if all(c > 0 for _, c in n.attr):
                s = {a.id: self.t(a).gen for a in A}
                r = Z
                for m, _ in n.attr:
                    q = P
                    for i in m:
                        q = mul1(q, s.get(i, R))
                    r = add1(r, q)
                return Val(r)
            return TOP
        if o in ("sym", "len"):
            return Val(P)
        if o in ("loopidx", "argmax", "argmin", "argsort", "arange"):
            return Val(N)
        if o == "atom":
            return Val(self.inputs.get(n.attr, TOP).gen)
        if o in ("zeros",):
            return Val(Z)
        if o in ("ones",):
            return Val(P)
        if o == "eye":
            return Val(N, N, "pd")
        if o == "rng":
            return Val(N) if self.is_real(n) and "normal" not in str(n.attr) else TOP
        if o in ("transpose", "expand", "squeeze", "reshape", "bcast", "cast", "copy", "repeatn", "tile", "flip"):
            t = T[0]
            return Val(t.gen, self.keep(A[0], n, t), self.keepmat(n, A[0], t))
        if o in ("index", "gather", "mask", "select", "iterelem", "fancy", "takealong"):
            t = T[0]
            sil = t.sil if len(self.framed(A[0])) == len(self.framed(n)) else t.gen
            if o == "fancy" or o == "takealong":
                sil = t.gen if t.sil != t.gen else t.sil
            mat = t.mat
            if mat and o == "index":
                spec = n.attr
                k = len(A[0].shape)
                if spec[k - 2] != "f" or spec[k - 1] != "f":
                    mat = None
                    if spec[k - 2][0] == "i" and spec[k - 1] == spec[k - 2]:
                        # a diagonal entry of a positive (semi)definite matrix
                        s = P if t.mat == "pd" else N
                        return Val(s)
            elif o != "index":
                mat = None
            return Val(t.gen, sil, mat)
        if o == "loopphi":
            return self.lp.get(n.id, T[0])
        if o == "phi":
            return self.join(T[1], T[2])
        if o == "where":
            return self.join(T[1], T[2])
        if o in ("store", "advstore", "maskstore", "viewstore"):
            new = T[2] if o == "maskstore" else T[1] if len(T) > 1 else TOP
            if o == "viewstore":
                return self.join(T[0], Val(R))
            j = self.join(T[0], new)
            # entries overwritten one after another: the old content remains in general
            return Val(j.gen, j.sil, j.mat if o == "store" else None)
        if o == "fill":
            return T[1] if len(T) > 1 else TOP
        if o in ("list", "stack", "concat", "stackrep"):
            parts = T[1:] if o == "stackrep" else T
            if not parts:
                return TOP
            r = parts[0]
            for x in parts[1:]:
                r = self.join(r, x)
            return Val(r.gen, r.sil, None if o == "concat" else self.stackmat(n, A, r))
        if o == "add":
            r = lift(add1, *T)
            if (T[0].mat or T[1].mat) and self.hermitian_of(A[0], A[1]):
                r.mat = T[0].mat or T[1].mat
            elif T[0].mat and T[1].mat:
                r.mat = "pd" if "pd" in (T[0].mat, T[1].mat) else "psd"
            elif T[0].mat and T[1].gen == Z:
                r.mat = T[0].mat
            elif T[1].mat and T[0].gen == Z:
                r.mat = T[1].mat
            return r
        if o == "sub":
            if T[1].gen == Z and T[1].sil == Z:
                return T[0]
            if A[0] is A[1]:
                return Val(Z)
            k = self.value(n) if n.shape == () else None
            if k is not None:
                return Val(Z if k == 0 else P if k > 0 else R)
            return Val(R, Z if T[0].sil == Z and T[1].sil == Z else R)
        if o == "neg":
            return Val(Z if T[0].gen == Z else R, Z if T[0].sil == Z else R)
        if o == "mul":
            a, b = T
            if self.same_square(A[0], A[1]):
                return Val(*[Z if s == Z else P if s == P else N for s in (a.gen, a.sil)])
            r = lift(mul1, a, b)
            for x, y, m, w in ((a, b, A[0], A[1]), (b, a, A[1], A[0])):
                if x.mat and y.gen in (P, N) and self.batchlike(w, n):
                    r.mat = x.mat if x.mat == "psd" or y.gen == P else "psd"
                elif self.strip(m).op == "eye" and y.gen in (P, N) and (w.shape == () or self.g.int_value(w.shape[-1]) == 1):
                    r.mat = "pd" if y.gen == P else "psd"       # a diagonal matrix
            o1 = self.outer(A[0], A[1], n)
            if o1:
                r.mat = "psd"
            return r
        if o == "div":
            self.ndiv += 1
            self.checked += 1
            a, b = T
            if b.gen == Z:
                self.issue(n, "divides by a value that is always zero")
            elif b.sil == Z:
                self.issue(n, "divides by a value that is zero in a silent frame")
            f = lambda x, y: x if y == P else (Z if x == Z and y != Z else R if R in (x, y) else x if y == N else R)
            r = Val(f(a.gen, b.gen), f(a.sil, b.sil))
            if a.mat and b.gen == P and self.batchlike(A[1], n):
                r.mat = a.mat
            elif a.mat and b.gen == N and self.batchlike(A[1], n):
                r.mat = a.mat
            return r
        if o in ("maximum", "fmax"):
            def mx(a, b):
                if P in (a, b):
                    return P
                if a in (Z, N) or b in (Z, N):
                    return Z if a == b == Z else N
                return R
            return lift(mx, *T)
        if o in ("minimum", "fmin"):
            def mn(a, b):
                if a == b:
                    return a
                if R in (a, b):
                    return R
                return N if Z not in (a, b) else Z
            return lift(mn, *T)
        if o == "abs":
            return lift(lambda x: x if x in (Z, P) else N, T[0])
        if o in ("conj", "real"):
            return Val(T[0].gen, T[0].sil, T[0].mat)
        if o in ("imag", "angle", "sign"):
            return lift(lambda x: x if x == Z or o == "sign" and x in (P,) else R, T[0])
        if o == "exp":
            return Val(P) if self.is_real(n) else TOP
        if o == "sqrt":
            return lift(lambda x: x, T[0])
        if o == "cbrt":
            return lift(lambda x: x, T[0])
        if o == "pow":
            return self.power(n, A, T)
        if o == "log":
            self.checked += 1
            if T[0].gen == Z or T[0].sil == Z:
                self.issue(n, "takes the logarithm of a value that is zero%s" % ("" if T[0].gen == Z else " in a silent frame"))
            return TOP
        if o in ("sum", "mean", "rmax", "rmin", "norm", "std", "prod", "var", "median"):
            t, a = T[0], A[0]
            axes = self.axes(n, a)
            fr = any(i in axes for i in self.framed(a)) if axes is not None else bool(self.framed(a))
            sil = t.gen if fr else t.sil
            f = {"norm": lambda x: x if x in (Z, P) else N, "std": lambda x: Z if x == Z else N, "var": lambda x: Z if x == Z else N}.get(
                o, lambda x: x)
            k = len(a.shape or ())
            mat = t.mat if axes is not None and t.mat and not any(i >= k - 2 for i in axes) and o in ("sum", "mean") else None
            r = Val(f(t.gen), f(sil), mat)
            return r
        if o in ("matmul", "einsum"):
            a, b = T[0], T[1] if len(T) > 1 else TOP
            if o == "einsum" and len(T) != 2:
                return TOP
            fa, fb = bool(self.framed(A[0])), bool(self.framed(A[1]))
            fo = bool(self.framed(n))
            gen = mul1(a.gen, b.gen)
            sil = mul1(a.sil, b.sil) if fo else gen
            r = Val(gen, sil)
            if o == "matmul" and gen == P and False:
                pass
            if o == "matmul":
                r.mat = self.congruence(n, A[0], A[1])
            return r
        if o == "inv":
            self.checked += 1
            if T[0].gen == Z or T[0].sil == Z:
                self.issue(n, "inverts a matrix that is zero%s" % ("" if T[0].gen == Z else " in a silent frame"))
            return Val(R, R, "pd" if T[0].mat else None)
        if o == "solve":
            self.checked += 1
            if T[0].gen == Z or T[0].sil == Z:
                self.issue(n, "solves a system whose matrix is zero%s" % ("" if T[0].gen == Z else " in a silent frame"))
            return Val(Z if T[1].gen == Z else R, Z if T[1].sil == Z else R)
        if o == "eigval":
            t = T[0]
            return Val({"pd": P, "psd": N}.get(t.mat, R))
        if o == "svals":
            return Val(N)
        if o in ("trace", "diagonal"):
            t = T[0]
            k = len(A[0].shape)
            if t.mat and {i % k for i in n.attr[:2]} == {k - 2, k - 1}:
                s = P if t.mat == "pd" else N
                return Val(s, Z if t.sil == Z else s)
            if o == "trace" and t.gen == R and {i % k for i in n.attr[:2]} == {k - 2, k - 1} and self.trace_product(A[0]):
                return Val(N, Z if t.sil == Z else N)
            return Val(t.gen, t.sil)
        if o == "user":
            f = self.user.get(n.attr)
            return f(self, n, T) if f else TOP
        return TOP

    # ---------------------------------------------------------------- details
    def axes(self, n, a):
        if isinstance(n.attr, tuple) and n.attr and isinstance(n.attr[0], tuple):
            return tuple(n.attr[0])
        return None

    def keep(self, a, n, t):
        return t.sil if t.sil == t.gen or len(self.framed(a)) == len(self.framed(n)) else t.gen

    def keepmat(self, n, a, t):
        if not t.mat:
            return None
        k, m = len(a.shape), len(n.shape)
        if n.op == "transpose":
            p = tuple(n.attr)
            return t.mat if set(p[-2:]) == {k - 2, k - 1} else None
        if n.op == "expand":
            return t.mat if not any(x >= m - 2 for x in n.attr) else None
        if n.op in ("cast", "copy"):
            return t.mat
        if n.op in ("bcast", "reshape", "repeatn", "tile", "squeeze"):
            return t.mat if k >= 2 and m >= 2 and [d.id for d in a.shape[-2:]] == [d.id for d in n.shape[-2:]] else None
        return None

    def stackmat(self, n, A, r):
        return r.mat if r.mat and (n.op == "list" or isinstance(n.attr, int) and n.attr < len(n.shape) - 2) else None

    def batchlike(self, w, n):
        """w is constant along the last two axes of the product"""
        sh = w.shape or ()
        return all(self.g.int_value(d) == 1 for d in sh[-2:]) or len(sh) == 0

    def strip(self, n):
        while n.op in ("cast", "bcast", "copy"):
            n = n.args[0]
        return n

    def same_square(self, a, b):
        """x * conj(x) entry by entry, or x * x for real x"""
        a, b = self.strip(a), self.strip(b)
        if a is b:
            return self.is_real(a)
        if a.op == "conj":
            a, b = b, a
        return b.op == "conj" and self.strip(b.args[0]) is a

    def outer(self, a, b, n):
        """v[..., :, None] * conj(v)[..., None, :] in the last two axes"""
        a, b = self.strip(a), self.strip(b)
        if b.op != "expand" or a.op != "expand":
            return False
        m = len(n.shape)
        if {a.attr[-1], b.attr[-1]} != {m - 2, m - 1} and {x for x in a.attr + b.attr if x >= m - 2} != {m - 2, m - 1}:
            return False
        x, y = a.args[0], b.args[0]
        if y.op == "conj":
            return self.strip(y.args[0]) is self.strip(x)
        if x.op == "conj":
            return self.strip(x.args[0]) is self.strip(y)
        return x is y and self.is_real(x)

    def hermitian_of(self, a, b):
        """b is the conjugate transpose (last two axes) of a"""
        def peel(n):
            c, t = 0, 0
            while True:
                if n.op in ("cast", "copy", "bcast"):
                    n = n.args[0]
                elif n.op == "conj":
                    c ^= 1
                    n = n.args[0]
                elif n.op == "transpose" and tuple(n.attr[:-2]) == tuple(range(len(n.attr) - 2)) and tuple(n.attr[-2:]) == (
                        len(n.attr) - 1, len(n.attr) - 2):
                    t ^= 1
                    n = n.args[0]
                else:
                    return n, c, t
        x, cx, tx = peel(a)
        y, cy, ty = peel(b)
        return x is y and tx != ty and (cx != cy or self.is_real(x))

    def congruence(self, n, a, b):
        """A @ A^H, A @ M @ A^H, U diag(positive) U^H"""
        if self.hermitian_of(a, b):
            return "psd"
        q = a
        while q.op in ("cast", "copy"):
            q = q.args[0]
        if q.op == "matmul" and self.hermitian_of(q.args[0], b) and self.t(q.args[1]).mat:
            return "pd" if self.strip(q.args[0]).op == "eigvec" and self.t(q.args[1]).mat == "pd" else "psd"
        if q.op == "mul":
            for x, y in ((q.args[0], q.args[1]), (q.args[1], q.args[0])):
                s = self.t(y)
                if self.hermitian_of(x, b) and s.gen in (P, N) and self.is_real(y):
                    return "pd" if s.gen == P and self.strip(x).op == "eigvec" else "psd"
        return None

    def chain(self, n, inv=False, depth=0):
        """factors of a product of matrices: (node without broadcasting, inverted)"""
        q = n
        while q.op in ("cast", "copy", "bcast", "tile"):
            q = q.args[0]
        if depth < 6 and not inv:
            if q.op == "matmul":
                return self.chain(q.args[0], False, depth + 1) + self.chain(q.args[1], False, depth + 1)
            if q.op == "solve" and len(q.args[1].shape) == len(q.args[0].shape):
                return [(self.core(q.args[0]), True, self.t(q.args[0]).mat)] + self.chain(q.args[1], False, depth + 1)
            if q.op == "inv":
                return [(self.core(q.args[0]), True, self.t(q.args[0]).mat)]
        return [(self.core(q), False, self.t(q).mat)]

    def core(self, q):
        while q.op in ("cast", "copy", "bcast", "tile", "expand"):
            q = q.args[0]
        return q.id

    def trace_product(self, n):
        """the trace of a product that splits, up to rotation, into two positive semidefinite palindromes"""
        f = self.chain(n)
        if len(f) > 8 or not all(m for _, _, m in f):
            return False
        pal = lambda w: len(w) % 2 == 1 and all(w[i][:2] == w[-1 - i][:2] for i in range(len(w) // 2))
        for r in range(len(f)):
            w = f[r:] + f[:r]
            if any(pal(w[:i]) and pal(w[i:]) for i in range(1, len(w))) or pal(w):
                return True
        return False

    def power(self, n, A, T):
        k = self.num(A[1]) if A[1].shape == () else None
        if k is None and A[1].shape == ():
            k = self.value(A[1])
        t = T[0]
        if k is None:
            s = self.t(A[1]).gen
            if s in (P, N):
                return lift(lambda x: P if x == P else N if x in (Z, N) else R, t)
            if t.gen == P:
                return Val(P)
            return TOP
        if k < 0:
            self.checked += 1
            if t.gen == Z or t.sil == Z:
                self.issue(n, "raises a value that is zero%s to a negative power" % ("" if t.gen == Z else " in a silent frame"))
            return lift(lambda x: x if x in (P, N) else R, t)
        if k == 0:
            return Val(P)
        if float(k) == int(k) and int(k) % 2 == 0 and self.is_real(A[0]):
            return lift(lambda x: x if x in (Z, P) else N, t)
        return lift(lambda x: x, t)
