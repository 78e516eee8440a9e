"""Transformation typing of the value graph.

Every array axis is given the way it transforms under a group of reparametrisations of the problem:

  'C+','C-'  a microphone axis, which mixes under an arbitrary unitary change of the microphone basis
             (contravariant / covariant); 'C0' for real (self-dual) data
  'L'        a label axis whose entries are multiplied one by one: charges {group: degree}
  'B'        a broadcast axis of length one
  'D'        product of a C+ and a C- axis entry by entry: meaningful only once summed
  'A1','A2'  modulus of a C axis / its square: the square is meaningful only once summed
  'E','Ed'   the two axes of an identity / diagonal matrix; 'E1','EG' its single / selected columns
  '?'        not known (never reported)

and every array carries residual charges {(group, index): degree} left by indexing.  Charges are of kind 'phase'
(conjugation negates them, a modulus removes them), 'phase2' (signs, modulo two) or 'gain' (positive scale factors).
A value is typed by the rules of its operation; a definite conflict between known types is reported.
"""
from __future__ import annotations

import os
from fractions import Fraction as Fr

from .graph import Node

BOT = "BOT"      # identically zero: any type
DEBUG = bool(os.environ.get("VF_DEBUG"))


def L(**c):
    return ("L", tuple(sorted(((k, Fr(v)) for k, v in c.items() if v), key=repr)))


def LC(d):
    return ("L", tuple(sorted(((k, v) for k, v in d.items() if v), key=repr)))


NEUTRAL = ("L", ())
BC = ("B", ())
UNK = ("?", ())


class Ty:
    __slots__ = ("axes", "res")

    def __init__(self, axes, res=None):
        self.axes = tuple(axes)
        self.res = res if res is not None else {}

    def key(self):
        return (self.axes, None if self.res == "?" else tuple(sorted(self.res.items(), key=repr)))

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Gauge:
    def __init__(self, g, kinds, inputs, user=None, real=False, values=None, sumcharge=None, tol_const=1e-9, perbin=None):
        self.g = g
        self.kinds = kinds              # group -> phase | phase2 | gain
        self.inputs = inputs            # input name -> Ty
        self.user = user or {}
        self.real = real
        self.values = values or {}      # atom name -> Fraction (generic point for symbolic exponents)
        self.sumcharge = sumcharge or {}   # dimension name -> gain group gained by a sum over it
        self.perbin = perbin            # dimension name whose entries are transformed independently
        self.tol = tol_const
        self.lp = {}
        self.ty = {}
        self.issues = {}
        self.checked = 0
        self.diag_ok = False            # a diagonal matrix may be an instance of a general one
        self.nophase = False            # phases are not tracked
        self.scalar = False             # only residual charges occur: label axes are all neutral
        self.fixed = ()                 # axes (dim names) which may not be indexed

    # ---------------------------------------------------------------- charges
    def kind(self, g):
        while isinstance(g, tuple):
            g = g[0]
        if g.startswith("E#"):
            return "phase2" if self.real else "phase"
        return self.kinds.get(g, "phase2" if self.real and g == "C" else "phase")

    def norm(self, d):
        out = {}
        for k, v in d.items():
            if self.kind(k[0] if isinstance(k, tuple) and len(k) == 2 and k[0] != "@" else k) == "phase2":
                v = v % 2
            if v:
                out[k] = v
        return out

    def cadd(self, a, b, s=1):
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + s * v
        return d

    def lab(self, d):
        if self.nophase:
            d = {k: v for k, v in d.items() if self.kind(k) == "gain"}
        return LC({k: v for k, v in ((k, (v % 2 if self.kind(k) == "phase2" else v)) for k, v in d.items()) if v})

    def resn(self, d):
        if d == "?":
            return d
        if self.nophase:
            d = {k: v for k, v in d.items() if self.kind(k[0]) == "gain"}
        return {k: v for k, v in ((k, (v % 2 if self.kind(k[0]) == "phase2" else v)) for k, v in d.items()) if v}

    def radd(self, a, b, s=1):
        if a == "?" or b == "?":
            return "?"
        return self.resn(self.cadd(a, b, s))

    # ---------------------------------------------------------------- axis algebra
    def inv_ax(self, x):
        r, c = x
        if r == "L":
            return self.lab({k: -v for k, v in c})
        return ({"C+": "C-", "C-": "C+"}.get(r, r), c)

    def conj_ax(self, x):
        r, c = x
        if r == "L":
            return self.lab({k: (v if self.kind(k) == "gain" else -v) for k, v in c})
        if r in ("C+", "C-"):
            return ({"C+": "C-", "C-": "C+"}[r], c)
        return x

    def is_c(self, x):
        return x[0] in ("C+", "C-", "C0")

    def dualp(self, x, y):
        return (x[0] == "C0" and y[0] == "C0") or {x[0], y[0]} == {"C+", "C-"}

    def mul_ax(self, x, y, n):
        if x[0] == "B":
            return y
        if y[0] == "B":
            return x
        if x[0] == "?" or y[0] == "?":
            return UNK
        if x[0] == "L" and y[0] == "L":
            return self.lab(self.cadd(dict(x[1]), dict(y[1])))
        if self.is_c(x) and self.is_c(y):
            if self.dualp(x, y):
                return ("D", ())
            self.issue(n, "multiplies two microphone axes of the same variance entry by entry (a conjugation is missing or misplaced)")
            return UNK
        if x[0] == "A1" and y[0] == "A1":
            return ("A2", ())
        if x[0] in ("E", "Ed", "E1", "EG") or y[0] in ("E", "Ed", "E1", "EG"):
            return UNK
        if "L" in (x[0], y[0]):
            self.issue(n, "multiplies a microphone axis entry by entry with values that do not depend on the microphone basis")
        return UNK

    def add_ax(self, x, y, n, what="adds"):
        if x[0] == "?" or y[0] == "?":
            return UNK
        if x == y:
            return x
        if x[0] in ("E", "Ed", "E1", "EG") or y[0] in ("E", "Ed", "E1", "EG"):
            return UNK
        if x[0] == "B":
            x, y = y, x
        if y[0] == "B":
            if x == NEUTRAL or x[0] in ("?",):
                return x
            self.issue(n, "%s values that transform differently: %s against a constant along that axis" % (what, self.axs(x)))
            return UNK
        self.issue(n, "%s values that transform differently: %s against %s" % (what, self.axs(x), self.axs(y)))
        return UNK

    def contract(self, x, y, n):
        if "?" in (x[0], y[0]):
            return
        if x[0] == "B" and y[0] == "B":
            return
        if x[0] == "B" or y[0] == "B":
            z = y if x[0] == "B" else x
            if z[0] == "L" and any(True for _ in z[1]):
                self.issue(n, "sums over %s without compensation" % self.axs(z))
            return
        if x[0] == "L" and y[0] == "L":
            s = self.lab(self.cadd(dict(x[1]), dict(y[1])))
            if s != NEUTRAL:
                self.issue(n, "contracts %s with %s" % (self.axs(x), self.axs(y)))
            return
        if self.is_c(x) and self.is_c(y):
            if not self.dualp(x, y):
                self.issue(n, "contracts two microphone axes of the same variance (a conjugation is missing or misplaced)")
            return
        if "L" in (x[0], y[0]) and (self.is_c(x) or self.is_c(y)):
            self.issue(n, "contracts a microphone axis with an axis that is not one (%s with %s)" % (self.axs(x), self.axs(y)))

    def axs(self, x):
        r, c = x
        if r == "L":
            return "an axis with charge %s" % (", ".join("%s:%s" % (self.gname(k), v) for k, v in c)) if c else "a neutral axis"
        return {"C+": "a microphone axis", "C-": "a conjugated microphone axis", "C0": "a microphone axis",
                "D": "an unsummed product of microphone axes", "A1": "moduli along a microphone axis",
                "A2": "squared moduli along a microphone axis"}.get(r, r)

    def gname(self, k):
        while isinstance(k, tuple):
            k = k[0]
        return "eigenvector phase" if k.startswith("E#") else k

    def res_s(self, r):
        return ", ".join("%s:%s" % (self.gname(k[0]), v) for k, v in r.items()) or "none"

    def issue(self, n, msg):
        self.issues.setdefault((n.fn, n.loc, msg.split(":")[0][:60]), (n, msg))

    # ---------------------------------------------------------------- driver
    def run(self, roots, passes=6):
        seen, todo = set(), [r for r in roots if r is not None]
        order = []
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            order.append(n)
            todo.extend(n.args)
        order.sort(key=lambda n: n.id)
        order = self.topo(order)
        # every pass types a real execution (the first starts all loops from their initial types), so issues accumulate
        self.lp, self.issues = {}, {}
        for p in range(passes):
            self.ty, self.checked = {}, 0
            for n in order:
                self.ty[n.id] = self.fit(n, self.typeof(n))
            again = False
            for n in order:
                if n.op == "loopphi" and len(n.args) > 1:
                    a, b = self.lp.get(n.id, self.t(n.args[0])), self.t(n.args[1])
                    j = self.join(a, b, n, "carries over from one iteration to the next")
                    if not self.eq(j, a):
                        again = True
                    self.lp[n.id] = j
            if not again:
                return True
        return False

    def topo(self, order):
        """arguments first; loop back edges ignored"""
        ids = {n.id for n in order}
        out, done = [], set()
        for r in order:
            stack = [(r, 0)]
            while stack:
                n, i = stack.pop()
                if n.id in done:
                    continue
                deps = n.args[:1] if n.op == "loopphi" else n.args
                miss = [a for a in deps if a.id not in done and a.id in ids]
                if miss and i < 2:
                    stack.append((n, i + 1))
                    stack.extend((a, 0) for a in miss)
                else:
                    done.add(n.id)
                    out.append(n)
        return out

    def eq(self, a, b):
        if isinstance(a, Ty) and isinstance(b, Ty):
            return a == b
        return a is b or a == b

    def t(self, n):
        return self.ty.get(n.id)

    def fit(self, n, t):
        """a type must have the rank of its value; unit axes are broadcast axes"""
        if not isinstance(t, Ty):
            return t
        if n.shape is not None and len(n.shape) != len(t.axes):
            return None
        if n.shape is not None:
            ax = []
            for x, d in zip(t.axes, n.shape):
                if self.g.int_value(d) == 1 and (x == NEUTRAL):
                    ax.append(BC)
                else:
                    ax.append(x)
            t = Ty(ax, self.resn(t.res))
        return t

    def neutral(self, n):
        if n.shape is None:
            return None
        return Ty([BC if self.g.int_value(d) == 1 else NEUTRAL for d in n.shape], {})

    def is_neutral(self, t, phases_only=False):
        if not isinstance(t, Ty):
            return True
        return not self.charged(t, phases_only)

    def charged(self, t, phases_only=False):
        """definitely transforms"""
        for r, c in t.axes:
            if r in ("C+", "C-", "C0", "D", "A1", "A2"):
                return True
            if r == "L" and any(not phases_only or self.kind(k) != "gain" for k, _ in c):
                return True
        if t.res != "?" and any(not phases_only or self.kind(k[0]) != "gain" for k in t.res):
            return True
        return False

    def unknown(self, t):
        return not isinstance(t, Ty) or t.res == "?" or any(r == "?" for r, _ in t.axes)

    # ---------------------------------------------------------------- joins and arithmetic
    def pad(self, t, k):
        return (BC,) * (k - len(t.axes)) + t.axes

    def join(self, a, b, n, what):
        if a == BOT:
            return b
        if b == BOT:
            return a
        if a is None or b is None:
            return None
        return self.addlike(a, b, n, "%s" % what)

    def small(self, n):
        return n.op == "const" and isinstance(n.attr[1], (int, float)) and abs(n.attr[1]) <= self.tol

    def addlike(self, a, b, n, what="adds"):
        k = max(len(a.axes), len(b.axes))
        xa, xb = self.pad(a, k), self.pad(b, k)
        ea = [i for i in range(k) if xa[i][0] in ("E", "Ed")]
        eb = [i for i in range(k) if xb[i][0] in ("E", "Ed")]
        res = a.res
        if ea and eb and ea == eb:
            ax = [xa[i] if i in ea else self.add_ax(xa[i], xb[i], n, what) for i in range(k)]
            return Ty(ax, res)
        if len(ea) == 2 or len(eb) == 2:
            e, (xe, xo, other) = (ea, (xa, xb, b)) if len(ea) == 2 else (eb, (xb, xa, a))
            i, j = e
            u, v = xo[i], xo[j]
            diag = xe[i][0] == "Ed"
            if "?" not in (u[0], v[0]) and "B" not in (u[0], v[0]) and v != self.inv_ax(u):
                self.issue(n, "%s a multiple of the identity to a matrix whose two axes do not transform inversely (%s, %s)" % (
                    what, self.axs(u), self.axs(v)))
            elif diag and self.is_c(u) and not self.diag_ok:
                self.issue(n, "%s a diagonal matrix to one over microphone axes" % what)
            self.checked += 1
            ax = [xo[m] if m in e else self.add_ax(xa[m], xb[m], n, what) for m in range(k)]
            return Ty(ax, other.res)
        self.checked += 1
        if a.res != "?" and b.res != "?" and a.res != b.res:
            self.issue(n, "%s values that transform differently: factors %s against %s" % (what, self.res_s(a.res), self.res_s(b.res)))
            res = "?"
        elif b.res == "?":
            res = "?"
        return Ty([self.add_ax(x, y, n, what) for x, y in zip(xa, xb)], res)

    def mul(self, a, b, n):
        if a == BOT or b == BOT:
            return BOT
        if a is None or b is None:
            return None
        self.checked += 1
        k = max(len(a.axes), len(b.axes))
        xa, xb = self.pad(a, k), self.pad(b, k)
        ea = [i for i in range(k) if xa[i][0] in ("E", "Ed")]
        eb = [i for i in range(k) if xb[i][0] in ("E", "Ed")]
        if (len(ea) == 2) != (len(eb) == 2):
            e, xe, xo = (ea, xa, xb) if len(ea) == 2 else (eb, xb, xa)
            o = [xo[i] for i in e]
            ax = [self.mul_ax(xa[m], xb[m], n) if m not in e else None for m in range(k)]
            if all(x[0] == "B" for x in o):
                new = xe[e[0]]
            elif all(x[0] in ("B", "L") for x in o) and sum(x[0] == "L" for x in o) == 1:
                new = ("Ed", ()) if all(not x[1] for x in o) else UNK
            else:
                new = UNK
            for m in e:
                ax[m] = new
            return Ty(ax, self.radd(a.res, b.res))
        return Ty([self.mul_ax(x, y, n) for x, y in zip(xa, xb)], self.radd(a.res, b.res))

    def inverse(self, t, n):
        """1 / t, entry by entry"""
        if t == BOT or t is None:
            return None
        ax = []
        for x in t.axes:
            if x[0] == "L":
                ax.append(self.inv_ax(x))
            elif x[0] in ("B", "?"):
                ax.append(x)
            else:
                if x[0] in ("C+", "C-", "C0", "D", "A1", "A2"):
                    self.issue(n, "divides entry by entry by values along a microphone axis")
                ax.append(UNK)
        return Ty(ax, "?" if t.res == "?" else {k: -v for k, v in t.res.items()})

    def power(self, t, e, n):
        if t == BOT or t is None:
            return t
        if e is None:
            if self.charged(t):
                return None
            return t
        self.checked += 1
        integer = e.denominator == 1
        ax = []
        for x in t.axes:
            if x[0] == "L":
                if not integer and any(self.kind(k) == "phase" or (self.kind(k) == "phase2") for k, _ in x[1]):
                    self.issue(n, "takes a fractional power of %s" % self.axs(x))
                    ax.append(UNK)
                else:
                    ax.append(self.lab({k: v * e for k, v in x[1]}))
            elif x[0] in ("B", "?"):
                ax.append(x)
            elif x[0] == "A1" and e == 2 or x[0] == "C0" and e == 2:
                ax.append(("A2", ()))
            elif x[0] == "E" and e > 0:
                ax.append(x)
            else:
                if x[0] in ("C+", "C-", "C0", "D", "A1", "A2"):
                    self.issue(n, "takes a power of %s" % self.axs(x))
                ax.append(UNK)
        if t.res == "?":
            return Ty(ax, "?")
        if not integer and any(self.kind(k[0]) != "gain" for k in t.res):
            self.issue(n, "takes a fractional power of a value with factors %s" % self.res_s(t.res))
            return Ty(ax, "?")
        return Ty(ax, {k: v * e for k, v in t.res.items()})

    def modulus(self, t, n):
        if t == BOT or t is None:
            return t
        ax = []
        for x in t.axes:
            if x[0] == "L":
                ax.append(self.lab({k: v for k, v in x[1] if self.kind(k) == "gain"}))
            elif self.is_c(x):
                ax.append(("A1", ()))
            elif x[0] in ("B", "?", "E"):
                ax.append(x)
            else:
                if x[0] == "D":
                    self.issue(n, "takes the modulus of an unsummed product of microphone axes")
                ax.append(UNK)
        return Ty(ax, "?" if t.res == "?" else {k: v for k, v in t.res.items() if self.kind(k[0]) == "gain"})

    def need_neutral(self, t, n, what, keep=False, gains=True):
        """operation defined only on values without phases (and, if gains, without scale)"""
        if t is None or t == BOT:
            return t
        self.checked += 1
        if self.charged(t, phases_only=not gains):
            self.issue(n, "%s a value that depends on the choice of phase or microphone basis: %s" % (what, self.tys(t)) if self.charged(t, True)
                       else "%s a value that carries a scale: %s" % (what, self.tys(t)))
            return None
        return t

    def tys(self, t):
        return "(%s) with factors %s" % ("; ".join(self.axs(x) for x in t.axes), "?" if t.res == "?" else self.res_s(t.res))

    def ext(self, dim):
        """gain group collected by summing over this dimension, with multiplicity"""
        out = {}
        if not self.sumcharge or dim is None:
            return out
        for mono in list(self.g.as_poly(dim)):
            for a in mono:
                if a.op == "sym" and a.attr in self.sumcharge:
                    gk = (self.sumcharge[a.attr], None)
                    out[gk] = out.get(gk, 0) + 1
            break
        return out

    def drop(self, t, axes, n, shape, mean=False, half=None):
        """sum over axes"""
        res = t.res
        axes = {a % len(t.axes) for a in axes}
        for a in sorted(axes):
            x = t.axes[a]
            self.checked += 1
            if x[0] == "L" and x[1]:
                self.issue(n, "sums over %s" % self.axs(x))
            elif self.is_c(x) or x[0] == "A1":
                self.issue(n, "sums over %s" % self.axs(x))
            if not mean and shape is not None and res != "?":
                res = self.radd(res, self.ext(shape[a]))
        if shape is not None and self.perbin:
            for a in axes:
                if self.dimname(shape[a]) == self.perbin and self.local(t, a):
                    self.issue(n, "sums over frequency bins values that depend on the phase or microphone basis of each bin: %s" % self.tys(t))
        return Ty([x for i, x in enumerate(t.axes) if i not in axes], res)

    def dimname(self, d):
        p = self.g.as_poly(d)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0].op == "sym":
                return m[0].attr
        return None

    def local(self, t, a):
        for i, (r, c) in enumerate(t.axes):
            if i != a and (r in ("C+", "C-") or r == "L" and any(self.kind(k) == "phase" for k, _ in c)):
                return True
        return t.res != "?" and any(self.kind(k[0]) == "phase" for k in t.res)

    # ---------------------------------------------------------------- numbers
    def number(self, n, depth=0):
        """value of a scalar expression at the generic point, or None"""
        if depth > 30:
            return None
        if n.op == "const" and isinstance(n.attr[1], (int, float)) and not isinstance(n.attr[1], bool):
            return Fr(n.attr[1]).limit_denominator(10 ** 9)
        if n.op == "poly":
            if not n.attr:
                return Fr(0)
            tot = Fr(0)
            by = {a.id: a for a in n.args}
            for mono, c in n.attr:
                v = Fr(c)
                for i in mono:
                    x = self.number(by[i], depth + 1)
                    if x is None:
                        return None
                    v *= x
                tot += v
            return tot
        if n.op in ("atom", "sym") and isinstance(n.attr, str):
            return self.values.get(n.attr)
        if n.op in ("add", "sub", "mul", "div") and n.shape == ():
            a, b = self.number(n.args[0], depth + 1), self.number(n.args[1], depth + 1)
            if a is None or b is None:
                return None
            if n.op == "add":
                return a + b
            if n.op == "sub":
                return a - b
            if n.op == "mul":
                return a * b
            return a / b if b else None
        if n.op == "neg":
            a = self.number(n.args[0], depth + 1)
            return None if a is None else -a
        return None

    # ---------------------------------------------------------------- indexing
    def grp(self, base, ix):
        """group of a selection of another label axis"""
        if ix.op == "list":
            return (base, "@", tuple(a.id for a in ix.args))
        return (base, "@", ix.id)

    def at(self, x, ix):
        """residual charges left by fixing one entry of axis x"""
        r, c = x
        if r == "L":
            out = {}
            for k, v in c:
                kk, key = k, ix.id
                if isinstance(k, tuple) and k[1] == "@" and isinstance(k[2], tuple) and not (k[2] and k[2][0] == "s"):
                    i = self.g.int_value(ix)
                    if i is not None and -len(k[2]) <= i < len(k[2]):
                        kk, key = k[0], k[2][i]
                out[(kk, key)] = out.get((kk, key), 0) + v
            return out
        if r == "C+":
            return {("C", ix.id): Fr(1)}
        if r == "C-":
            return {("C", ix.id): Fr(-1)}
        if r == "C0":
            return {("C", ix.id): Fr(1)}
        return {}

    def select(self, x, ix):
        """axis after gathering entries ix"""
        r, c = x
        if r == "L":
            return self.lab({self.grp(k, ix): v for k, v in c})
        if r == "E":
            return ("EG", (ix.id if ix.op != "list" else tuple(a.id for a in ix.args),))
        if r == "B":
            return BC
        return UNK

    def index(self, t, spec, idx, n, shape):
        if t == BOT or t is None:
            return t
        ax, res = [], t.res
        e = [i for i, x in enumerate(t.axes) if x[0] in ("E", "Ed")]
        einfo = None
        for i, (x, s) in enumerate(zip(t.axes, spec)):
            if s == "f":
                ax.append((i, x))
            elif s[0] == "i":
                k = idx[s[1]]
                if k.op == "poly" or k.op in ("loopidx", "iterelem", "index", "atom", "select", "const", "phi", "loopphi"):
                    if x[0] in ("E", "Ed"):
                        einfo = (i, k)
                    elif x[0] in ("D", "A1", "A2", "E1", "EG", "?"):
                        res = "?"
                    elif res != "?":
                        res = self.radd(res, self.at(x, k))
                    if self.fixed and shape is not None and self.dimname(shape[i]) in self.fixed:
                        self.issue(n, "singles out one entry of the %s axis" % self.dimname(shape[i]))
                else:
                    return None
            else:
                if self.fixed and shape is not None and self.dimname(shape[i]) in self.fixed:
                    self.issue(n, "singles out part of the %s axis" % self.dimname(shape[i]))
                if x[0] == "L" and not x[1] or x[0] == "B":
                    ax.append((i, x))
                elif x[0] == "L":
                    ident = ("s",) + tuple(None if (q is None) else idx[q].id if isinstance(q, int) else q for q in s[1:])
                    ax.append((i, self.lab({(k, "@", ident): v for k, v in x[1]})))
                else:
                    ax.append((i, UNK))
        if einfo is not None:
            if len(e) != 2:
                return None
            other = e[0] if einfo[0] == e[1] else e[1]
            ax = [(i, ("E1", (einfo[1].id,)) if i == other else x) for i, x in ax]
            if spec[other] != "f":
                return None
        elif any(x[0] in ("E", "Ed") for _, x in ax) and any(s != "f" for i, s in enumerate(spec) if i in e):
            return None
        return Ty([x for _, x in ax], res)

    # ---------------------------------------------------------------- transfer
    def typeof(self, n):
        try:
            return self.op(n)
        except (IndexError, TypeError, AttributeError, KeyError):
            if DEBUG:
                import traceback
                traceback.print_exc()
                print(n, [self.t(a) and self.t(a) != BOT and self.tys(self.t(a)) for a in n.args])
            return None

    def op(self, n):
        o = n.op
        A = n.args
        ts = [self.t(a) for a in A]
        if o == "input":
            return self.inputs.get(n.attr)
        if o == "const":
            v = n.attr[1]
            if v == 0 or v == 0j or v == "nan":
                return BOT
            return Ty((), {})
        if o == "poly":
            if not n.attr:
                return BOT
            return Ty((), self.ext(n))
        if o in ("sym", "atom", "loopidx", "len", "floordiv", "mod", "ceildiv"):
            return Ty((), {})
        if o == "rng":
            return self.neutral(n)
        if o in ("zeros", "empty"):
            return BOT
        if o in ("ones", "arange", "argmax", "argmin", "argsort", "cmp", "not", "isnan", "invert", "bitand", "bitor", "all", "any", "and", "or"):
            if o == "cmp" and len(ts) == 2:
                for t, a in zip(ts, A):
                    if isinstance(t, Ty):
                        self.need_neutral(t, n, "compares", gains=False)
            if o in ("argmax", "argmin", "argsort") and isinstance(ts[0], Ty):
                self.need_neutral(ts[0], n, "orders", gains=False)
            return self.neutral(n)
        if o == "eye" and self.scalar:
            return self.neutral(n)
        if o == "eye":
            return Ty([("E", ()), ("E", ())], {})
        if o == "loopphi":
            return self.lp.get(n.id, ts[0])
        if o == "phi":
            return self.join(ts[1], ts[2], n, "joins")
        if o == "where":
            a, b = ts[1], ts[2]
            if a == BOT:
                return b
            if b == BOT:
                return a
            if a is None or b is None:
                return None
            if A[1].op == "const" or A[2].op == "const":
                a, b = (b, a) if A[1].op == "const" else (a, b)
                self.need_neutral(a, n, "replaces by a constant", gains=False)
                return self.rebroadcast(a, n)
            return self.rebroadcast(self.addlike(a, b, n, "chooses between"), n)
        if o in ("add", "sub"):
            a, b = ts
            if a == BOT:
                return self.rebroadcast(b, n)
            if b == BOT:
                return self.rebroadcast(a, n)
            if a is None or b is None:
                return None
            for x, y, m in ((a, b, A[0]), (b, a, A[1])):
                if self.small(m):
                    if self.charged(y, True):
                        self.issue(n, "adds a constant to a value that transforms: %s" % self.tys(y))
                        return None
                    return self.rebroadcast(y, n)
            return self.addlike(a, b, n)
        if o in ("maximum", "minimum", "fmax", "fmin"):
            a, b = ts
            for m, y in ((A[0], b), (A[1], a)):
                if m.op in ("const", "poly", "atom"):
                    self.need_neutral(y, n, "floors", gains=m.op == "const" and not self.small(m))
                    return self.rebroadcast(y, n)
            if a in (None, BOT) or b in (None, BOT):
                return None
            self.need_neutral(a, n, "orders", gains=False)
            return self.addlike(a, b, n, "compares")
        if o == "mul":
            return self.mul(ts[0], ts[1], n)
        if o == "div":
            if ts[0] == BOT:
                return BOT
            return self.mul(ts[0], self.inverse(ts[1], n), n)
        if o in ("neg", "cast", "copy", "real"):
            t = ts[0]
            if o == "real" and isinstance(t, Ty):
                self.checked += 1
                bad = t.res != "?" and any(self.kind(k[0]) == "phase" for k in t.res) or any(
                    r in ("C+", "C-") or r == "L" and any(self.kind(k) == "phase" for k, _ in c) for r, c in t.axes)
                if bad:
                    self.issue(n, "takes the real part of a value that depends on the choice of phase or microphone basis: %s" % self.tys(t))
                    return None
            return t
        if o in ("imag", "angle"):
            self.need_neutral(ts[0], n, "takes the %s of" % o, gains=False)
            return ts[0] if o == "imag" and self.nophase else self.neutral(n) if self.nophase else None
        if o == "conj":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            return Ty([self.conj_ax(x) for x in t.axes], "?" if t.res == "?" else
                      {k: (v if self.kind(k[0]) == "gain" else -v) for k, v in t.res.items()})
        if o == "abs":
            return self.modulus(ts[0], n)
        if o == "sqrt":
            return self.power(ts[0], Fr(1, 2), n)
        if o == "cbrt":
            return self.power(ts[0], Fr(1, 3), n)
        if o == "pow":
            if A[1].op == "const" or A[1].shape == ():
                return self.power(ts[0], self.number(A[1]), n)
            return None
        if o == "sign":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            return Ty([self.lab({k: v for k, v in x[1] if self.kind(k) != "gain"}) if x[0] == "L" else x if x[0] in "B" else UNK
                       for x in t.axes], "?" if t.res == "?" else {k: v for k, v in t.res.items() if self.kind(k[0]) != "gain"})
        if o == "log":
            if isinstance(ts[0], Ty):
                self.need_neutral(ts[0], n, "takes the logarithm of", gains=False)
            return self.neutral(n)
        if o in ("exp", "tanh", "cos", "sin", "arctan", "cosh", "sinh", "floor", "irfft", "rfft", "mod"):
            if isinstance(ts[0], Ty):
                if self.need_neutral(ts[0], n, "takes the %s of" % o) is None:
                    return None
                return self.neutral(n)
            return None
        if o == "transpose":
            t = ts[0]
            return t if not isinstance(t, Ty) else Ty([t.axes[i] for i in n.attr], t.res)
        if o == "expand":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            ax = list(t.axes)
            for i in sorted(n.attr):
                ax.insert(i, BC)
            return Ty(ax, t.res)
        if o == "squeeze":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            return Ty([x for i, x in enumerate(t.axes) if i not in n.attr], t.res)
        if o == "bcast":
            return self.rebroadcast(ts[0], n)
        if o == "tile":
            return None
        if o == "reshape":
            return self.reshape(ts[0], A[0], n)
        if o == "index":
            return self.index(ts[0], n.attr, A[1:], n, A[0].shape)
        if o == "gather":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            ax = n.attr % len(t.axes)
            x = self.select(t.axes[ax], A[1])
            k = len(A[1].shape)
            if k != 1:
                x = None if x[0] != "L" or x[1] else x
                if x is None:
                    return None
            if self.fixed and self.dimname(A[0].shape[ax]) in self.fixed:
                self.issue(n, "reorders or selects along the %s axis" % self.dimname(A[0].shape[ax]))
            new = list(t.axes)
            new[ax:ax + 1] = [x] * k
            if x[0] == "EG":
                pass
            return Ty(new, t.res)
        if o == "mask":
            t = ts[0]
            if not isinstance(t, Ty) or len(A[1].shape or ()) != 1:
                return None
            x = t.axes[n.attr]
            return t if x[0] in ("L", "B") and not x[1] else None
        if o in ("store", "viewstore", "maskstore", "advstore", "fill"):
            return self.store(n, ts)
        if o in ("inplace", "maywrite"):
            return None
        if o == "matmul":
            return self.matmul(ts[0], ts[1], A[0], A[1], n)
        if o == "einsum":
            return self.einsum(n, ts)
        if o in ("sum", "mean"):
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            axes, keep = self.axes_of(n, A[0])
            if axes is None:
                return None
            return self.drop(t, axes, n, A[0].shape, mean=(o == "mean"))
        if o in ("rmax", "rmin", "prod", "std", "var", "median"):
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            axes, keep = self.axes_of(n, A[0])
            self.need_neutral(t, n, "reduces (%s)" % o, gains=False)
            if axes is None:
                return None
            bad = [t.axes[a % len(t.axes)] for a in axes]
            if any(x[1] for x in bad) or o == "prod" and self.charged(t):
                return None
            return Ty([x for i, x in enumerate(t.axes) if i not in {a % len(t.axes) for a in axes}], t.res)
        if o == "norm":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            if len(n.attr) > 1 and n.attr[1] not in (None, (), []):
                return None
            axes, keep = self.axes_of(n, A[0])
            if axes is None:
                return None
            m = self.modulus(t, n)
            m = self.power(m, Fr(2), n)
            m = self.drop(m, axes, n, A[0].shape)
            return self.power(m, Fr(1, 2), n)
        if o == "inv":
            t = ts[0]
            if not isinstance(t, Ty) or len(t.axes) < 2:
                return None
            a, b = t.axes[-2:]
            if a[0] in ("E", "Ed"):
                return t
            res = "?" if t.res == "?" else {k: -v for k, v in t.res.items()}
            lead = self.batch_inv(t.axes[:-2])
            return Ty(lead + [self.inv_ax(b), self.inv_ax(a)], res)
        if o == "solve":
            return self.solve(ts[0], ts[1], A[1], n)
        if o in ("eigval", "eigvec", "svals", "svdu", "svdv", "cholesky", "logdet", "slogsign", "det"):
            return self.spectral(n, ts[0], A[0])
        if o == "trace":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            i, j = n.attr[0] % len(t.axes), n.attr[1] % len(t.axes)
            self.checked += 1
            if t.axes[i][0] not in ("E", "Ed"):
                self.contract(t.axes[i], t.axes[j], n)
            return Ty([x for k, x in enumerate(t.axes) if k not in (i, j)], t.res)
        if o == "diagonal":
            t = ts[0]
            if not isinstance(t, Ty):
                return t
            i, j = n.attr[0] % len(t.axes), n.attr[1] % len(t.axes)
            x, y = t.axes[i], t.axes[j]
            d = self.mul_ax(x, y, n) if x[0] in ("L", "B", "?") and y[0] in ("L", "B", "?") or self.dualp(x, y) else UNK
            return Ty([z for k, z in enumerate(t.axes) if k not in (i, j)] + [d], t.res)
        if o == "diagm":
            t = ts[0]
            if isinstance(t, Ty) and len(t.axes) == 1 and t.axes[0][0] in ("L", "B") and not t.axes[0][1]:
                return Ty([("Ed", ()), ("Ed", ())], t.res)
            return None
        if o in ("list", "stack", "concat"):
            return self.stack(n, ts)
        if o == "stackrep":
            t = ts[1]
            if not isinstance(t, Ty) or t.res == "?":
                return None
            loop, ax = n.attr
            ch, res = {}, {}
            for (g, key), v in t.res.items():
                k = self.g.nodes[key] if isinstance(key, int) and key < len(self.g.nodes) else None
                if k is not None and self.is_loopidx(k, loop):
                    ch[g] = ch.get(g, 0) + v
                else:
                    res[(g, key)] = v
            if ch and "C" in ch:
                x = UNK
            else:
                x = self.lab(ch)
            axs = list(t.axes)
            axs.insert(ax, x)
            return Ty(axs, res)
        if o == "user":
            f = self.user.get(n.attr)
            if f is None:
                return None
            return f(self, n, ts)
        return None

    def is_loopidx(self, k, loop):
        if k.op == "loopidx":
            return k.attr == loop
        if k.op == "poly" and len(k.args) == 1 and k.args[0].op == "loopidx":
            return k.args[0].attr == loop and len(k.attr) == 1 and k.attr[0][1] == 1
        return False

    def axes_of(self, n, a):
        at = n.attr
        axes = at[0] if isinstance(at, tuple) and at and isinstance(at[0], (tuple, list)) or at and at[0] is None else at
        if axes is None:
            axes = tuple(range(len(a.shape)))
        if isinstance(axes, int):
            axes = (axes,)
        if not all(isinstance(x, int) for x in axes):
            return None, None
        return axes, False

    def rebroadcast(self, t, n):
        if not isinstance(t, Ty) or n.shape is None:
            return t
        k = len(n.shape)
        if k < len(t.axes):
            return None
        ax = []
        for x, d in zip(self.pad(t, k), n.shape):
            if x[0] == "B" and self.g.int_value(d) != 1:
                x = NEUTRAL
            ax.append(x)
        return Ty(ax, t.res)

    def reshape(self, t, a, n):
        if not isinstance(t, Ty):
            return t
        s, d = list(a.shape), list(n.shape)
        i = 0
        while i < len(s) and i < len(d) and s[i] is d[i]:
            i += 1
        j = 0
        while j < len(s) - i and j < len(d) - i and s[-1 - j] is d[-1 - j]:
            j += 1
        mid = t.axes[i:len(s) - j]
        left, right = list(t.axes[:i]), list(t.axes[len(s) - j:])
        if i == len(s) == len(d):
            return t
        if all(x[0] in ("L", "B") and not x[1] for x in mid):
            return Ty(left + [NEUTRAL] * (len(d) - i - j) + right, t.res)
        if a.op in ("stack", "list") and len(mid) == 1 and mid[0][0] == "?" and len(d) - i - j == 2:
            m = self.matrix(a, [self.g.int_value(q) for q in d[i:i + 2]])
            if m is not None:
                return Ty(left + list(m) + right, t.res if t.res != "?" else {})
        # pure insertion/removal of unit axes in the middle
        core = [x for x, q in zip(mid, s[i:len(s) - j]) if self.g.int_value(q) != 1]
        tgt = d[i:len(d) - j]
        if len(core) == sum(1 for q in tgt if self.g.int_value(q) != 1) and all(
                q is z for q, z in zip([q for q in s[i:len(s) - j] if self.g.int_value(q) != 1],
                                       [q for q in tgt if self.g.int_value(q) != 1])):
            it = iter(core)
            return Ty(left + [BC if self.g.int_value(q) == 1 else next(it) for q in tgt] + right, t.res)
        return Ty(left + [UNK] * len(tgt) + right, t.res)

    def matrix(self, a, dims):
        """axes of a k x k matrix assembled from its entries"""
        if None in dims or dims[0] != dims[1] or dims[0] * dims[1] != len(a.args):
            return None
        k = dims[0]
        ts = [self.t(x) for x in a.args]
        if any(not isinstance(t, Ty) or t.res == "?" for t in ts):
            return None
        r = [[ts[i * k + j].res for j in range(k)] for i in range(k)]
        if any(r[i][i] for i in range(k)):
            return None
        keys, grp, deg = [None] * k, None, None
        for j in range(1, k):
            e = r[0][j]
            if len(e) != 2:
                return None
            pos = [q for q, v in e.items() if v > 0]
            neg = [q for q, v in e.items() if v < 0]
            if self.real or len(pos) != 1 or len(neg) != 1 or pos[0][0] != neg[0][0] or e[pos[0]] != -e[neg[0]]:
                return None
            if keys[0] not in (None, pos[0][1]):
                # the other orientation: first row carries the negative charge
                return None
            grp, deg, keys[0], keys[j] = pos[0][0], e[pos[0]], pos[0][1], neg[0][1]
        if isinstance(grp, tuple):
            ints = [self.g.int_value(self.g.nodes[x]) if isinstance(x, int) else -1 for x in keys]
            name = grp if ints == list(range(k)) else (grp, "@", tuple(keys))
        else:
            name = (grp, "@", tuple(keys))
        x = self.lab({name: deg})
        y = self.lab({name: -deg})
        for i in range(k):
            for j in range(k):
                want = {} if i == j else {(grp, keys[i]): deg, (grp, keys[j]): -deg}
                if r[i][j] != want:
                    return None
        return x, y

    def batch_inv(self, axes):
        return [self.inv_ax(x) if x[0] == "L" else x for x in axes]

    def batch_mul(self, a, b, n):
        k = max(len(a), len(b))
        a = (BC,) * (k - len(a)) + tuple(a)
        b = (BC,) * (k - len(b)) + tuple(b)
        return [self.mul_ax(x, y, n) for x, y in zip(a, b)]

    def matmul(self, a, b, na, nb, n):
        if a == BOT or b == BOT:
            return BOT
        if a is None or b is None:
            return None
        self.checked += 1
        res = self.radd(a.res, b.res)
        A, B = a.axes, b.axes
        if na.shape is not None and res != "?":
            res = self.radd(res, self.ext(na.shape[-1]))
        if self.perbin and na.shape is not None and self.dimname(na.shape[-1]) == self.perbin:
            rest = Ty(list(A[:-1]) + list(B[:-2] + B[-1:] if len(B) > 1 else ()), res)
            if self.local(rest, -1) and self.local2(a, b):
                self.issue(n, "sums over frequency bins values that depend on the phase or microphone basis of each bin")
        if len(A) == 1 and len(B) == 1:
            if A[0][0] == "E1" and B[0][0] != "E1":
                return Ty([], self.fixres(res, B[0], A[0]))
            if B[0][0] == "E1" and A[0][0] != "E1":
                return Ty([], self.fixres(res, A[0], B[0]))
            self.contract(A[0], B[0], n)
            return Ty([], res)
        if len(B) == 1:
            if A[-1][0] in ("E", "Ed"):
                return Ty(list(A[:-2]) + [B[0]], res)
            if B[0][0] == "E1":
                return Ty(A[:-1], self.fixres(res, A[-1], B[0]))
            self.contract(A[-1], B[0], n)
            return Ty(A[:-1], res)
        if len(A) == 1:
            if B[-1][0] in ("E", "Ed"):
                return Ty(list(B[:-2]) + [A[0]], res)
            if A[0][0] == "E1":
                return Ty(list(B[:-2]) + [B[-1]], self.fixres(res, B[-2], A[0]))
            self.contract(A[0], B[-2], n)
            return Ty(list(B[:-2]) + [B[-1]], res)
        batch = self.batch_mul(A[:-2], B[:-2], n)
        ea, eb = A[-1][0] in ("E", "Ed") and A[-2][0] in ("E", "Ed"), B[-1][0] in ("E", "Ed") and B[-2][0] in ("E", "Ed")
        if ea or eb:
            x, y = (B[-2], B[-1]) if ea else (A[-2], A[-1])
            e = A[-1] if ea else B[-1]
            touched = B[-2] if ea else A[-1]
            if e[0] == "Ed" and self.is_c(touched) and self.diag_ok:
                return Ty(batch + [UNK, UNK], res)
            if e[0] == "Ed" and self.is_c(touched):
                self.issue(n, "scales a microphone axis entry by entry")
            return Ty(batch + [x, y], res)
        if B[-1][0] == "EG" and B[-2][0] == "EG":
            return None
        self.contract(A[-1], B[-2], n)
        return Ty(batch + [A[-2], B[-1]], res)

    def local2(self, a, b):
        return True

    def fixres(self, res, x, e1):
        if res == "?":
            return res
        k = e1[1][0]
        if not isinstance(k, int):
            return "?"
        node = self.g.nodes[k]
        return self.radd(res, self.at(x, node))

    def solve(self, a, b, nb, n):
        if a is None or b is None or a == BOT:
            return None
        if b == BOT:
            return BOT
        self.checked += 1
        A, B = a.axes, b.axes
        res = self.radd(b.res, a.res, -1)
        ia, ib = self.inv_ax(A[-1]), self.inv_ax(A[-2])
        if A[-1][0] in ("E", "Ed"):
            return b
        vec = len(B) == 1
        row = B[0] if vec else B[-2]
        lead = self.batch_mul(self.batch_inv(A[:-2]), () if vec else B[:-2], n)
        tail = [] if vec else [B[-1]]
        if row[0] == "E1":
            k = self.g.nodes[row[1][0]]
            return Ty(lead + [ia] + tail, self.radd(res, self.at(ib, k)))
        if row[0] in ("E",) and not vec and B[-1][0] == "E":
            return Ty(lead + [ia, ib], res)
        if row[0] == "E" and not vec and B[-1][0] == "EG":
            key = B[-1][1][0]
            if ib[0] == "L":
                col = self.lab({(g, "@", key): v for g, v in ib[1]})
                return Ty(lead + [ia, col], res)
            return Ty(lead + [ia, UNK], res)
        # contraction of inv(A)'s second axis with the right-hand side
        self.contract(ib, row, n)
        return Ty(lead + [ia] + tail, res)

    def spectral(self, n, t, a):
        o = n.op
        if not isinstance(t, Ty) or len(t.axes) < 2:
            if o in ("logdet", "slogsign"):
                return self.neutral(n)
            return None
        self.checked += 1
        x, y = t.axes[-2:]
        lead = list(t.axes[:-2])
        plain = all(q[0] in ("B", "?") or q[0] == "L" and not q[1] for q in lead)
        if o in ("logdet", "slogsign"):
            if "?" not in (x[0], y[0]) and {x[0], y[0]} <= {"L", "C+", "C-", "C0"}:
                pass
            return self.neutral(n)
        if o == "det":
            return None
        # unit-norm vectors do not carry the scale of the matrix, a Cholesky factor carries its root
        lead0 = [self.lab({k: v for k, v in z[1] if self.kind(k) != "gain"}) if z[0] == "L" else z for z in lead]
        if o in ("eigval", "eigvec"):
            herm = "?" in (x[0], y[0]) or x[0] in ("E", "Ed", "B") or y == self.inv_ax(x)
            gains = any(self.kind(k) == "gain" for z in (x, y) if z[0] == "L" for k, _ in z[1])
            if not herm and not gains:
                self.issue(n, "decomposes a matrix whose two axes do not transform inversely (%s, %s)" % (self.axs(x), self.axs(y)))
                return None
            if t.res != "?" and any(self.kind(k[0]) != "gain" for k in t.res):
                self.issue(n, "takes eigenvalues of a matrix with factors %s" % self.res_s(t.res))
                return None
            if gains:
                return None
            if o == "eigval":
                return Ty(lead + [NEUTRAL], t.res)
            return Ty(lead0 + [x, self.lab({"E#%d" % a.id: Fr(1)})], {})
        if o in ("svals", "svdu", "svdv"):
            gains = any(self.kind(k) == "gain" for z in (x, y) if z[0] == "L" for k, _ in z[1])
            if gains:
                return None
            # singular values of a matrix are unchanged by unitaries and phases on either side
            if o == "svals":
                return Ty(lead + [NEUTRAL], self.gain_only(t.res))
            if t.res != "?" and any(self.kind(k[0]) != "gain" for k in t.res):
                return None
            k = "E#%d" % a.id
            if x[0] not in ("L", "C+", "C-", "C0") or y[0] not in ("L", "C+", "C-", "C0"):
                return None
            if o == "svdu":
                return Ty(lead0 + [x, self.lab({k: Fr(1)})], {})
            return Ty(lead0 + [self.lab({k: Fr(-1)}), y], {})
        if o == "cholesky":
            if x[0] == "L" and y[0] == "L" and y == self.inv_ax(x) and not any(self.kind(k) == "gain" for k, _ in x[1]):
                half = [self.lab({k: (v / 2 if self.kind(k) == "gain" else v) for k, v in z[1]}) if z[0] == "L" else z for z in lead]
                return Ty(half + [x, y], "?" if t.res == "?" else {k: v / 2 for k, v in t.res.items()})
            return None
        return None

    def gain_only(self, r):
        return "?" if r == "?" else {k: v for k, v in r.items() if self.kind(k[0]) == "gain"}

    def stack(self, n, ts):
        """pieces with residual charges at different entries of one label axis become that axis"""
        A = n.args
        if any(t is None for t in ts):
            return None
        live = [(i, t) for i, t in enumerate(ts) if t != BOT]
        if not live:
            return BOT
        if n.op == "concat":
            ax = n.attr
            pieces = []
            for t, a in zip(ts, A):
                if t == BOT:
                    pieces.append(BOT)
                    continue
                if self.g.int_value(a.shape[ax]) != 1:
                    known = [q for q in ts if isinstance(q, Ty)]
                    if len(known) == len([q for q in ts if q != BOT]) and all(
                            q.axes[ax] in (NEUTRAL, BC) and q.res == known[0].res and q.res != "?"
                            and q.axes[:ax] == known[0].axes[:ax] and q.axes[ax + 1:] == known[0].axes[ax + 1:] for q in known):
                        return Ty([NEUTRAL if i == ax else z for i, z in enumerate(known[0].axes)], known[0].res)
                    if all(isinstance(q, Ty) and q.res == ts[0].res and q.axes == ts[0].axes for q in ts):
                        x = ts[0].axes[ax]
                        if x[0] in ("L", "B") and not x[1]:
                            return Ty([NEUTRAL if i == ax else z for i, z in enumerate(ts[0].axes)], ts[0].res)
                    return None
                z = t.axes[ax]
                if z[0] == "B" or z == NEUTRAL:
                    pieces.append(Ty(t.axes[:ax] + t.axes[ax + 1:], t.res))
                else:
                    return None
        else:
            ax = 0 if n.op == "list" else n.attr
            pieces = list(ts)
        live = [(i, t) for i, t in enumerate(pieces) if t != BOT]
        first = live[0][1]
        if any(t.axes != first.axes or t.res == "?" for _, t in live):
            base = [UNK if any(t.axes[i] != first.axes[i] for _, t in live) else first.axes[i] for i in range(len(first.axes))] \
                if all(len(t.axes) == len(first.axes) for _, t in live) else None
            if base is None:
                return None
            base.insert(ax, UNK)
            return Ty(base, "?")
        common = dict(first.res)
        for _, t in live[1:]:
            common = {k: v for k, v in common.items() if t.res.get(k) == v}
        rest = [(i, {k: v for k, v in t.res.items() if k not in common}) for i, t in live]
        axs = list(first.axes)
        if all(not r for _, r in rest):
            axs.insert(ax, NEUTRAL)
            return Ty(axs, common)
        # one charge of one group per piece, same degree
        sig = set()
        keys = {}
        for i, r in rest:
            if len(r) != 1:
                axs.insert(ax, UNK)
                return Ty(axs, "?" if len(rest) != len(pieces) else common)
            (gk, v), = r.items()
            sig.add((gk[0], v))
            keys[i] = gk[1]
        if len(sig) != 1:
            axs.insert(ax, UNK)
            return Ty(axs, common)
        (g, v), = sig
        order = tuple(keys.get(i, None) for i in range(len(pieces)))
        if isinstance(g, tuple) or g.startswith("E#"):
            # entries 0..k-1 of the group itself, or a reordering of them
            ints = [self.g.int_value(self.g.nodes[k]) if isinstance(k, int) else None if k is None else -1 for k in order]
            if all(x is None or x == i for i, x in enumerate(ints)):
                axs.insert(ax, self.lab({g: v}))
                return Ty(axs, common)
        if None in order:
            axs.insert(ax, UNK)
            return Ty(axs, common)
        axs.insert(ax, self.lab({(g, "@", order): v}))
        return Ty(axs, common)

    def store(self, n, ts):
        old, val = ts[0], ts[1] if len(ts) > 1 else None
        A = n.args
        if n.op == "fill":
            return self.rebroadcast(val, n) if isinstance(val, Ty) else val
        if n.op == "viewstore":
            return old if old != BOT else None
        if n.op == "maskstore":
            v = ts[2] if len(ts) > 2 else None
            if old == BOT:
                return self.rebroadcast(v, n) if isinstance(v, Ty) and self.is_neutral(v) else (None if v != BOT else BOT)
            return old if isinstance(old, Ty) and self.is_neutral(old) and isinstance(v, Ty) and self.is_neutral(v) else None
        if n.op == "advstore":
            spec = n.attr
            if old is None or old == BOT or not isinstance(val, Ty) or len(spec) != 1 or not isinstance(spec[0], int):
                return old if isinstance(old, Ty) else None
            want = list(old.axes)
            if len(A) < 3 or A[2].shape is None or len(A[2].shape) != 1:
                return old
            want[spec[0]] = self.select(want[spec[0]], A[2])
            self.assign(Ty(want, old.res), val, n)
            return old
        spec, idx = n.attr, A[2:]
        if old is None:
            return None
        if old == BOT:
            if not isinstance(val, Ty) or val.res == "?":
                return BOT if val == BOT else None
            out = []
            res = dict(val.res)
            va = list(self.pad(val, sum(1 for s in spec if s == "f" or s[0] == "s")))
            for s, d in zip(spec, n.shape):
                if s == "f":
                    x = va.pop(0)
                    out.append(NEUTRAL if x[0] == "B" and self.g.int_value(d) != 1 else x)
                elif s[0] == "i":
                    k = idx[s[1]]
                    ch = {}
                    for (g, key) in list(res):
                        if key == k.id:
                            ch[g] = res.pop((g, key))
                    if "C" in ch:
                        v = ch.pop("C")
                        out.append(UNK if ch else ("C0" if self.real else "C+" if v > 0 else "C-", ()))
                    else:
                        out.append(self.lab(ch))
                else:
                    x = va.pop(0)
                    out.append(x if x[0] in ("B", "L") and not x[1] else UNK)
            return Ty(out, res)
        if val == BOT:
            return old
        want = self.index(old, spec, idx, n, n.shape)
        if isinstance(want, Ty) and isinstance(val, Ty):
            self.assign(want, val, n)
        return old

    def assign(self, want, val, n):
        self.checked += 1
        k = max(len(want.axes), len(val.axes))
        if len(val.axes) > len(want.axes):
            return
        for x, y in zip(want.axes, self.pad(val, k)):
            if "?" in (x[0], y[0]) or x == y or x[0] in ("E", "Ed", "E1", "EG") or y[0] in ("E", "Ed", "E1", "EG"):
                continue
            if y[0] == "B" and x in (NEUTRAL, BC):
                continue
            if x[0] == "B" and y == NEUTRAL:
                continue
            if x[0] == "L" and y[0] == "L" and self.fresh(dict(y[1])) and not self.gains(dict(x[1])):
                continue        # new rows with arbitrary phases
            self.issue(n, "stores %s where %s belongs" % (self.axs(y), self.axs(x)))
        if want.res == "?" or val.res == "?" or want.res == val.res:
            return
        fw = {k: v for k, v in want.res.items()}
        if self.fresh({k[0]: v for k, v in val.res.items()}) and not self.gains({k[0]: v for k, v in fw.items()}):
            return
        self.issue(n, "stores a value with factors %s where factors %s belong" % (self.res_s(val.res), self.res_s(want.res)))

    def gains(self, d):
        return any(self.kind(k) == "gain" for k in d)

    def fresh(self, d):
        """a single phase that is arbitrary by construction (of an eigenvector)"""
        return len(d) == 1 and all(self.base(k).startswith("E#") and abs(v) == 1 for k, v in d.items())

    def base(self, k):
        while isinstance(k, tuple):
            k = k[0]
        return k

    def einsum(self, n, ts):
        if any(t is None for t in ts):
            return None
        if any(t == BOT for t in ts):
            return BOT
        lhs, rhs = n.attr.split("->")
        subs = lhs.split(",")
        m, res = {}, {}
        order = {}
        for s, t, a in zip(subs, ts, n.args):
            if len(s) != len(t.axes):
                return None
            res = self.radd(res, t.res)
            for c, x, d in zip(s, t.axes, a.shape):
                order[c] = d
                m[c] = self.mul_ax(m[c], x, n) if c in m else x
        for c in m:
            self.checked += 1
            if c not in rhs:
                x = m[c]
                if self.is_c(x) or x[0] == "A1" or x[0] == "L" and x[1]:
                    self.issue(n, "sums over %s" % self.axs(x))
                res = self.radd(res, self.ext(order[c]))
        return Ty([m[c] for c in rhs], res)
