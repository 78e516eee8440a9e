"""Permutation alignment: what the solvers do to their arguments, how they choose, and what the methods hand them: P30."""
from __future__ import annotations

import itertools

from .. import configs as C
from .. import funcs
from ..framework import Check, locstr, sliced
from ..funcs import A
from ..interp import Budget, Raised
from ..tnf import ONE, TNF, Term, Unsup, walk_nodes
from ..values import *  # noqa
from .common import run_all, state_attrs
from .p_filter import arrays
from .p_grad import fresh_state, invoke, prepared

MOD = "ssspy.algorithm.permutation_alignment."
NAMES = ("correlation_based_permutation_solver", "score_based_permutation_solver")
N = 3       # sources: the smallest number for which a permutation differs from its inverse
F = 4       # frequency bins
MOST = {"N": 4, "F": 8}


class Undecided(Exception):
    pass


# --------------------------------------------------------------------------- reorderings of one array
def full(spec):
    return all(s == "f" for s in spec)


def plain(n):
    """the array itself behind layout changes that cancel, copies and casts that keep everything"""
    while True:
        if n.op in ("copy", "ascontiguous") or n.op == "cast" and not n.attr:
            n = n.args[0]
        elif n.op == "transpose" and tuple(n.attr) == tuple(range(len(n.attr))):
            n = n.args[0]
        elif n.op == "transpose" and n.args[0].op == "transpose":
            a, b = n.attr, n.args[0].attr
            if tuple(b[i] for i in a) != tuple(range(len(a))):
                return n
            n = n.args[0].args[0]
        else:
            return n


def consts(I, n):
    """constant entries of a list of integers"""
    if n.op not in ("list", "stack"):
        return None
    out = [I.g.int_value(a) for a in n.args]
    return None if any(x is None for x in out) else tuple(out)


def per_bin(I, n, shape):
    """the (bins, sources) table behind the index array of take_along_axis"""
    while True:
        if n.shape is not None and len(n.shape) == 2 and n.op not in ("repeatn", "reshape"):
            return n
        if n.op in ("copy", "cast"):
            n = n.args[0]
        elif n.op == "bcast" or n.op == "expand" and min(n.attr) >= 2:
            n = n.args[0]
        elif n.op == "repeatn" and n.args[0].shape is not None and n.attr is not None:
            ax = n.attr if isinstance(n.attr, int) else None
            if ax is None or ax % len(n.args[0].shape) < 1 or len(n.args[0].shape) == 2 and ax % 2 != 1:
                raise Undecided("repeat")
            n = n.args[0]
        elif n.op == "reshape":
            # (bins, sources * rest) -> (bins, sources, rest): the sources stay the slowest axis
            m = n.args[0]
            if m.op == "repeatn" and len(m.args[0].shape or ()) == 2:
                n = m
            elif m.shape is not None and len(m.shape) == 2:
                n = m
            else:
                raise Undecided("reshape")
        else:
            raise Undecided("index array %s" % n.op)


def rows(I, v):
    """a row of a buffer with its sources reordered -> (buffer, bin, permutation)"""
    v = plain(v)
    if v.op == "gather" and v.attr == 0 and v.args[0].op == "index" and v.args[0].attr[0] == ("i", 0) and full(v.args[0].attr[1:]):
        return v.args[0].args[0], v.args[0].args[1], v.args[1]
    if v.op == "index" and v.attr[0] == ("i", 0) and full(v.attr[1:]) and v.args[0].op == "gather" and v.args[0].attr == 1:
        return v.args[0].args[0], v.args[1], v.args[0].args[1]
    raise Undecided("what is stored in a bin: %s" % v.op)


def moves(I, n):
    """base array and the reorderings applied to it, in order; rows untouched so far may be read from an older state"""
    out = []
    while True:
        n = plain(n)
        if n.op == "store" and n.attr and n.attr[0] == ("i", 0) and full(n.attr[1:]):
            buf, val, k = n.args
            src, k2, perm = rows(I, val)
            out.append((k, perm, n))
            if k2 is not k:
                raise Moved("the sources of one bin are stored in another", n)
            b = plain(buf)
            while b is not plain(src):
                if b.op == "store" and b.args[2] is not k:
                    b = plain(b.args[0])
                else:
                    raise Moved("the bin is filled from an array that is not its current state", n)
            n = buf
        elif n.op == "takealong" and n.attr == 1:
            out.append((None, per_bin(I, n.args[1], n.shape), n))
            n = n.args[0]
        elif n.op == "fancy" and n.attr[:2] == ("adv", "adv") and full(n.attr[2:]) and n.shape is None and each_bin(n.args[1]):
            out.append((None, n.args[2], n))
            n = n.args[0]
        elif n.op == "fill":
            n = n.args[1]
        else:
            return n, out[::-1]


def each_bin(n):
    """np.arange(bins)[:, None]"""
    return n.op == "expand" and n.attr == (1,) and n.args[0].op == "arange" and len(n.args[0].args) <= 1


class Moved(Exception):
    pass


def bin_id(I, k):
    """bins are the same if they stand at the same place of the same order"""
    off = 0
    if k.op != "index" or k.attr != (("i", 0),):
        return I.g.int_value(k), None
    pos, x = I.g.int_value(k.args[1]), k.args[0]
    while pos is not None and x.op == "index" and len(x.attr) == 1 and x.attr[0][0] == "s":
        lo, hi, sp = x.attr[0][1:]
        if sp is not None and I.g.int_value(x.args[1 + sp]) != 1 or hi is not None:
            raise Undecided("slice of the order")
        lo = 0 if lo is None else I.g.int_value(x.args[1 + lo])
        if lo is None or lo < 0:
            raise Undecided("slice of the order")
        pos, x = pos + lo, x.args[0]
    return pos, x


# --------------------------------------------------------------------------- the choice
def choice(I, perm):
    """{permutation: score} of a node that picks the permutation of the largest score"""
    p = perm
    ax = None
    if p.op == "gather" and p.attr == 0 and p.args[1].op == "argmax":
        table, arg = p.args
    elif p.op == "index" and p.attr[0] == ("i", 0) and full(p.attr[1:]) and p.args[1].op == "argmax":
        table, arg = p.args
    elif p.op == "list":
        return running(I, p)
    elif any(x.op in ("argmin",) for x in walk_nodes(p)):
        raise Moved("the permutation of the smallest score is taken", p)
    else:
        raise Undecided("choice %s" % p.op)
    s = arg.args[0]
    ax = arg.attr[0][0] if isinstance(arg.attr[0], tuple) else arg.attr[0]
    if s.op not in ("stack", "list") or ax is None:
        raise Undecided("scores %s" % s.op)
    if ax % len(s.shape) != (s.attr if s.op == "stack" and isinstance(s.attr, int) else 0) % len(s.shape):
        raise Moved("the maximum is not taken over the permutations", arg)
    rows_ = [consts(I, a) for a in table.args] if table.op in ("list", "stack") else None
    if rows_ is None or any(r is None for r in rows_):
        raise Undecided("candidates")
    if len(rows_) != len(s.args):
        raise Moved("%d scores are compared for %d candidates" % (len(s.args), len(rows_)), arg)
    return dict(zip(rows_, s.args))


def lowest(a):
    if a.op == "neg":
        return a.args[0].op == "const" and a.args[0].attr == ("float", float("inf"))
    return a.op == "const" and a.attr == ("float", float("-inf"))


def running(I, p):
    """a running maximum: every entry of the chosen permutation hangs on comparisons of scores"""
    if consts(I, p) is not None:
        raise Moved("always the same permutation", p)
    leaves, low = [], set()

    def look(x):
        x = phi_of(x)
        if x.op == "phi" and x.id not in looked:
            looked.add(x.id)
            c = x.args[0]
            if c.op != "cmp" or c.attr not in ("Lt", "LtE"):
                raise Undecided("condition %s" % c.op)
            for a in c.args:
                score(a)
            look(x.args[1])
            look(x.args[2])

    seen = set()

    def score(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.op == "phi":
            look(a)
            score(a.args[1])
            score(a.args[2])
        elif lowest(a):
            low.add(a.id)
        elif a not in leaves:
            leaves.append(a)

    def phi_of(x):
        if x.op == "poly" and I.g.int_value(x) is None and len(x.args) == 1:
            return x.args[0]
        return x

    def less(c, o):
        r = o.get(("c", c.id))
        if r is None:
            a, b = num(c.args[0], o), num(c.args[1], o)
            r = o[("c", c.id)] = a < b or c.attr == "LtE" and a == b
        return r

    def val(x, o):
        x = phi_of(x)
        while x.op == "phi":
            x = phi_of(x.args[1] if less(x.args[0], o) else x.args[2])
        k = I.g.int_value(x)
        if k is None:
            raise Undecided("entry %s" % x.op)
        return k

    def num(a, o):
        while a.op == "phi":
            a = a.args[1] if less(a.args[0], o) else a.args[2]
        return -1 if a.id in low else o[a.id]

    looked = set()
    for e in p.args:
        look(e)
    out = {}
    for top in leaves:
        got = set()
        rest = [x for x in leaves if x is not top]
        for order in itertools.permutations(range(len(rest))) if len(rest) <= 5 else [range(len(rest))]:
            o = {x.id: k for x, k in zip(rest, order)}
            o[top.id] = len(rest)
            got.add(tuple(val(e, o) for e in p.args))
        if len(got) != 1:
            raise Moved("the choice is not the permutation of the largest score", p)
        k = got.pop()
        if k in out:
            raise Moved("two scores stand for the same permutation", p)
        out[k] = top
    return out


# --------------------------------------------------------------------------- the criterion
class Gathered(TNF):
    """entries read through a constant permutation of an axis become entries of the permuted array"""

    def op_gather(self, n):
        k = consts(self.I, n.args[1])
        if k is None or sorted(k) != list(range(len(k))):
            raise Unsup("gather")
        v, e = self._ev(n.args[0])
        ax = n.attr
        if v[ax] is None:
            raise Unsup("gather")
        out = tuple(self.new(self.size[x]) if i == ax else x for i, x in enumerate(v))
        new = []
        for t in e:
            f = {}
            for a, p in t.f.items():
                if a[0] == "x" and v[ax] in a[3]:
                    a = ("x", a[1] + "@%s" % (k,), a[2], tuple(out[ax] if i == v[ax] else i for i in a[3]))
                    if a[1].split("@")[0] in self.real:
                        self.real.add(a[1])
                elif inside(a, v[ax]):
                    raise Unsup("gather of %s" % a[0])
                f[a] = p
            new.append(Term(t.c, f, t.d))
        return out, new


def inside(a, v):
    return isinstance(a, tuple) and any(x is v or type(x) is type(v) and x == v or inside(x, v) for x in a)


def leaf(name, idx):
    return [Term(ONE, {("x", name, False, tuple(idx)): ONE}, frozenset())]


def at(I, n):
    """row of a (bins, ...) array: (array, bin, permutation or None)"""
    n = plain(n)
    if n.op == "gather" and n.attr == 0:
        a, k, _ = at(I, n.args[0])
        return a, k, n.args[1]
    if n.op == "index" and n.attr[0] == ("i", 0) and full(n.attr[1:]):
        if n.args[0].op == "gather" and n.args[0].attr == 1:
            return n.args[0].args[0], n.args[1], n.args[0].args[1]
        return n.args[0], n.args[1], None
    raise Undecided("row")


def rowsof(I, s):
    """rows of (bins, ...) arrays that a score depends on"""
    out = []

    def go(n, top):
        try:
            r = at(I, n)
        except Undecided:
            r = None
        if r is not None and r[0].shape is not None and len(r[0].shape) == 3:
            if n not in out:
                out.append(n)
            return
        for a in n.args:
            go(a, False)
    go(s, True)
    return out


def spectrum(chk, I, P, Y, where):
    """amplitudes divided by their norm over the sources"""
    t = TNF(I)
    t.leaf[Y.id] = "Y"
    v, e = t.ev(P)
    f, n, fr = v
    k = t.new(t.size[n])
    t.real.add("A")
    sq = t.mul(leaf("Y", (f, n, fr)), t.conj(leaf("Y", (f, n, fr))))
    tot = t.summed(t.subst(sq, {n: k}), k)
    chk.oblige(t.zero(t.sub(t.mul(e, e), t.mul(sq, t.pow(tot, -1)))), "correlation|spectrum",
               "%s: what is correlated is not the amplitude divided by its norm over the sources at %s" % (where, locstr(P.loc)))


def score_correlation(chk, I, picks, base, where):
    """picks: [(bin, permutation node, {permutation: score})] in order"""
    P, order = None, None
    done = []           # rows already aligned
    for pos, (k, perm, table) in enumerate(picks):
        for p, s in sorted(table.items()):
            ident = p == tuple(range(len(p)))
            t = TNF(I)
            rs = rowsof(I, s)
            cur, old = [], []
            for x in rs:
                a, kk, q = at(I, x)
                P = P or a
                chk.oblige(a is P, "correlation|source", "%s: rows of different arrays are correlated at %s" % (where, locstr(x.loc)))
                (cur if kk is k else old).append((x, kk, q))
            if len(cur) != 1:
                chk.fail("correlation|candidate", "%s: the score of a permutation is not a function of the bin to be aligned at %s" % (where, locstr(s.loc)))
                return
            q = cur[0][2]
            got = tuple(range(len(p))) if q is None else consts(I, q)
            chk.oblige(got == p, "correlation|same", "%s: the permutation that is scored is not the one that is applied at %s" % (where, locstr(s.loc)))
            for i, (x, kk, q) in enumerate(old):
                t.leaf[x.id] = "r%d" % i
            t.leaf[cur[0][0].id] = "G"
            bad = [(kk, q) for x, kk, q in old]
            if pos == 0:
                want_rows = len(bad) == 1 and bad[0][1] is None
                anchor = bad[0][0] if want_rows else None
                if anchor is not None and not done:
                    done.append((anchor, None))
            chk.oblige(len(bad) == len(done) and all(any(x[0] is d[0] and (x[1] is d[1]) for d in done) for x in bad), "correlation|reference",
                       "%s: a bin is not compared with the sum of the bins aligned so far, each in its aligned order, at %s" % (where, locstr(s.loc)))
            v, e = t.ev(s)
            n, fr = t.axes(cur[0][0].shape)
            want = []
            for i in range(len(old)):
                want = t.add(want, t.mul(leaf("r%d" % i, (n, fr)), leaf("G", (n, fr))))
            want = t.summed(t.summed(want, n), fr)
            chk.oblige(t.zero(t.sub(e, want)), "correlation|score", "%s: the score is not the correlation with the bins aligned so far at %s" % (where, locstr(s.loc)))
        done.append((k, perm))
    if P is not None:
        spectrum(chk, I, P, base, where)
        for i, (k, _) in enumerate(done):
            pos, by = bin_id(I, k)
            ok = by is not None and by.op == "argsort" and pos == i
            if ok:
                t = TNF(I)
                t.leaf[P.id] = "P"
                v, e = t.ev(by.args[0])
                n, m, fr = t.new(t.dim(P.shape[1])), t.new(t.dim(P.shape[1])), t.new(t.dim(P.shape[2]))
                w = t.mul(leaf("P", (v[0], n, fr)), leaf("P", (v[0], m, fr)))
                for x in (n, m, fr):
                    w = t.summed(w, x)
                ok = t.zero(t.sub(e, w))
            chk.oblige(ok, "correlation|order", "%s: the bins are not visited in ascending order of the correlation between their sources at %s" % (where, locstr(k.loc)))


def score_value(chk, I, table, Z, where, local):
    """sum over equal minus sum over different sources of the normalised correlations with the centroid or the neighbours"""
    factors = set()
    for p, s in sorted(table.items()):
        t = Gathered(I)
        t.leaf[Z.id] = "Z"
        std = [x for x in walk_nodes(s) if x.op == "std" and Z in list(walk_nodes(x))]
        nb = None
        for x in walk_nodes(s):
            if x.op == "gather" and x.attr == 0 and plain(x.args[0]) is plain(Z) and len(x.shape) == 3:
                nb = x
        if local and nb is None:
            raise Undecided("neighbours")
        if nb is not None:
            t.leaf[nb.id] = "V"
            ks = consts(I, nb.args[1])
            if ks is not None:
                chk.oblige(len(set(ks)) == len(ks), "score|neighbours", "%s: a neighbouring bin counts twice at %s" % (where, locstr(nb.loc)))
        if len({x.id for x in std}) > 1:
            raise Undecided("std")
        for x in std:
            t.leaf[x.id] = "s"
        row = None
        if local:
            for x in walk_nodes(s):
                if x.op == "index" and plain(x.args[0]) is plain(Z) and x.attr[0] == ("i", 0):
                    row = x
            if row is None:
                raise Undecided("row")
            t.leaf[row.id] = "R"
        v, e = t.ev(s)
        i, k = t.new(t.dim(Z.shape[1])), t.new(t.dim(Z.shape[1]))
        b, fr = t.new(t.dim(Z.shape[0])), t.new(t.dim(Z.shape[2]))
        at_ = "@%s" % (p,)
        for nm in ("Z", "V", "R", "s", "Z" + at_, "R" + at_):
            t.real.add(nm)
        if local:
            b = t.new(t.dim(nb.shape[0]))
            w = t.mul(leaf("R" + at_, (i, fr)), leaf("V", (b, k, fr)))
        else:
            w = t.mul(leaf("Z" + at_, (v[0], i, fr)), leaf("Z", (b, k, fr)))
        w = t.summed(w, fr)
        if not local:
            w = t.summed(w, b)
        if std:
            x = std[0]
            src = plain(x.args[0])
            if local and src is nb:
                ix = (b, k)
            elif not local and src.op == "mean" and plain(src.args[0]) is plain(Z):
                ix = (k,)
            else:
                chk.fail("score|deviation", "%s: a correlation is divided by the deviation of another sequence than the one compared with at %s" % (where, locstr(x.loc)))
                return
            ix = list(ix)
            w0 = t.pow(leaf("s", tuple(None if t.isone(d) else ix.pop(0) for d in x.shape)), -1)
            if ix:
                raise Undecided("std")
            w = t.mul(w, w0)
        if local:
            w = t.summed(w, b)
        eq = t.summed(t.subst([t._fresh_dummies(x) for x in w], {k: i}), i)
        al = t.summed(t.summed(w, i), k)
        c = t.ratio(e, t.sub(t.scale(eq, 2), al))
        ok = c is not None and all(a[0] == "dim" for a in c.f) and is_positive(c.c)
        chk.oblige(ok, "score|value", "%s: the score of a permutation is not the sum of the correlations of equal sources minus those of different ones at %s" % (where, locstr(s.loc)))
        if ok:
            factors.add((c.c, frozenset(c.f.items())))
    chk.oblige(len(factors) <= 1, "score|scale", "%s: the scores of different permutations are on different scales" % where)


def is_positive(c):
    try:
        return c > 0
    except TypeError:
        return c.imag == 0 and c.real > 0


# --------------------------------------------------------------------------- the solvers
def size_decisions(chk, name, kind):
    """decisions of the solver on the number of bins, sources or frames: [(symbol, threshold, node)]"""
    conds = []

    def before(I):
        orig = I.add_pc

        def add_pc(st, cond, truth):
            conds.append((cond, I.g.loc))
            return orig(st, cond, truth)
        I.add_pc = add_pc
    R = funcs.run(chk.project, (MOD + name, "symbolic sizes", [A("Y", ["F", "N", "T"], "c" if kind == "correlation" else "f"), A("W", ["F", "N", "C"], "c")],
                                {"flooring_fn": NONE}, None), before=before)
    out, g = {}, R.I.g
    for c, loc in conds:
        todo = [c]
        while todo:
            x = todo.pop()
            if x.op in ("and", "or", "not", "truth"):
                todo += list(x.args)
            elif x.op in ("cmp", "eq", "ne", "poly") and len(x.args) <= 2:
                d = g.as_poly(x) if x.op == "poly" else None
                if d is None:
                    if not all(a.op == "poly" or a.op in ("sym", "loopidx") for a in x.args):
                        continue
                    d = dict(g.as_poly(x.args[0]))
                    for m, k in g.as_poly(x.args[1]).items():
                        d[m] = d.get(m, 0) - k
                atoms = {a for m in d for a in m}
                if not atoms or not all(a.op in ("sym", "loopidx") for a in atoms):
                    continue
                key, k = None, None
                if len(atoms) == 1 and all(len(m) <= 1 for m in d):
                    a = atoms.pop()
                    q = -d.get((), 0) / d[(a,)]
                    key, k = "F" if a.op == "loopidx" else a.attr, q
                out[x.id] = (key, k, loc)
    return R, list(out.values())


def sizes(chk, kind):
    """the sizes to run: the usual ones and those on both sides of every decision on a size"""
    name = NAMES[kind == "score"]
    R, dec = size_decisions(chk, name, kind)
    chk.tried += 1
    if R.error:
        chk.skip(R.name, "%s" % (R.error,))
        chk.bad += 1
        return [(N, F), (2, F + 1), (4, 3)]
    chk.ran(R)
    out = [(N, F), (2, F + 1), (4, 3)]      # even and odd numbers
    for key, k, loc in dec:
        most = MOST.get(key)
        ok = most is not None and k + 1 <= most
        chk.oblige(ok, "%s|sizes" % kind, "%s(): bins or sources beyond a certain number are treated by another rule at %s" % (name, locstr(loc)))
        if ok:
            for v in {int(k) - 1, int(k), int(k) + 1}:
                if v >= 1:
                    out.append((v, F) if key == "N" else (N, v))
    return list(dict.fromkeys(out))


def solver(chk, kind, overwrite, extra, N, F):
    kw = {"flooring_fn": NONE, "overwrite": Const(overwrite)}
    kw.update({k: Const(v) for k, v in extra.items()})
    name = NAMES[kind == "score"]
    args = [A("Y", [F, N, "T"], "c" if kind == "correlation" else "f"), A("W", [F, N, "C"], "c"), A("V", [F, N, "C", "C"], "c"), A("Z", [F, N], "f")]
    for k in (4, 2, 1) if N < 4 else (1,):
        def before(I):
            I.concrete_perms, I.most = True, 24
        tag = "overwrite=%s%s, %d arguments, %d sources, %d bins" % (overwrite, "".join(", %s=%s" % x for x in sorted(extra.items())), k, N, F)
        R = funcs.run(chk.project, (MOD + name, tag, args[:k], kw, None), before=before)
        R.sizes = N, F
        chk.tried += 1
        if R.error:
            chk.skip(R.name, "%s" % (R.error,))
            chk.bad += 1
            continue
        chk.ran(R)
        where = "%s(%s)" % (name, tag)
        try:
            one(chk, R, kind, where, k, overwrite, extra)
        except Moved as m:
            chk.fail("%s|moves" % kind, "%s: %s at %s" % (where, m.args[0], locstr(m.args[1].loc)))
        except (Undecided, Unsup) as x:
            chk.skip(R.name, "%s" % (x,))


def one(chk, R, kind, where, k, overwrite, extra):
    I, st = R.I, R.st
    N, F = R.sizes
    first, rest = (R.ret, []) if k == 1 else I.iter_items(R.ret, st)
    rest = [] if k == 1 else [rest] if k == 2 else list(I.iter_items(rest, st))
    outs = [I.node(x, st) for x in [first] + rest]
    chk.oblige(len(outs) == k, "%s|arity" % kind, "%s: %d arrays come back" % (where, len(outs)))
    hist = []
    for nm, n, given in zip("YWVZ", outs, R.args):
        b, m = moves(I, n)
        chk.oblige(b.op == "input" and b.attr == nm, "%s|base" % kind,
                   "%s: result %s is not a reordering of the argument in its place at %s" % (where, nm, locstr(n.loc)))
        if overwrite:
            chk.oblige(I.node(given, st) is n, "%s|in place" % kind, "%s: argument %s is not reordered in place" % (where, nm))
        hist.append((nm, m))
    ref = [(a, b) for a, b, _ in hist[0][1]]
    for nm, m in hist[1:]:
        same = len(m) == len(ref) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(m, ref))
        chk.oblige(same, "%s|together" % kind, "%s: %s is not reordered exactly as the spectrogram" % (where, nm))
    if kind == "correlation":
        bins = [bin_id(I, x) for x, _ in ref]
        chk.oblige(len(set(bins)) == len(bins) == F - 1, "correlation|every bin", "%s: %d of the %d bins other than the first are aligned" % (where, len(set(bins)), F - 1))
        if k == 1:
            picks = [(b, p, choice(I, p)) for b, p in ref]
            complete(chk, kind, picks, where, N)
            score_correlation(chk, I, picks, R.argnodes[0], where)
        return
    g, l = extra.get("global_iter", 1), extra.get("local_iter", 1)
    want = [None] * g + list(range(F)) * l
    got = [None if x is None else I.g.int_value(x) for x, _ in ref]
    chk.oblige([x for x in got if x is None] == [None] * g and got[:g] == want[:g] and all(sorted(got[g + i * F:g + (i + 1) * F]) == list(range(F)) for i in range(l)) and len(got) == len(want),
               "score|every bin", "%s: global and local passes do not align every bin once each" % where)
    if k == 1:
        picks = [(b, p, choice(I, p)) for b, p in ref]
        complete(chk, kind, picks, where, N)
        score_passes(chk, I, picks, R.argnodes[0], where)


def complete(chk, kind, picks, where, N):
    for b, p, table in picks:
        chk.oblige(set(table) == set(itertools.permutations(range(N))), "%s|candidates" % kind,
                   "%s: %d of the %d permutations are tried at %s" % (where, len(table), len(list(itertools.permutations(range(N)))), locstr(p.loc)))


def score_passes(chk, I, picks, Y, where):
    state = []          # reorderings so far
    for b, p, table in picks:
        cand = set()
        for s in table.values():
            for x in walk_nodes(s):
                if x.shape == Y.shape and x.op in ("div", "mul", "takealong", "store") and depends_std(x, Y):
                    cand.add(x)
        Z = None
        for x in sorted(cand, key=lambda x: x.id):
            try:
                base, m = moves(I, x)
            except (Undecided, Moved):
                continue
            if base.op in ("div", "mul") and base.args[0].op == "sub" and [(u, v) for u, v, _ in m] == state:
                Z = Z or x
        if Z is None:
            chk.fail("score|current", "%s: the scores are not computed from the normalised sequence in its order so far at %s" % (where, locstr(p.loc)))
            return
        if not state:
            t = TNF(I)
            t.leaf[Y.id] = "Y"
            dev = [x for x in walk_nodes(Z) if x.op == "std" and x.args[0] is Y]
            for x in dev:
                t.leaf[x.id] = "d"
            t.real |= {"Y", "d"}
            v, e = t.ev(Z)
            f, n, fr = v
            u = t.new(t.size[fr])
            mean = t.mul(t.summed(leaf("Y", (f, n, u)), u), [Term(ONE, {("dim", t.size[fr]): -ONE}, frozenset())])
            ok = len(dev) == 1 and t.zero(t.sub(t.mul(e, leaf("d", tuple(None if t.isone(d) else x for d, x in zip(dev[0].shape, v)))), t.sub(leaf("Y", v), mean)))
            chk.oblige(ok, "score|normalised", "%s: the sequence is not normalised to zero mean and unit deviation over the frames at %s" % (where, locstr(Z.loc)))
        score_value(chk, I, table, Z, where, b is not None)
        state = state + [(b, p)]


def depends_std(x, Y):
    while True:
        x = plain(x)
        if x.op in ("store", "takealong"):
            x = x.args[0]
        else:
            return x.op in ("div", "mul") and any(y.op == "std" and y.args[0] is Y for y in walk_nodes(x)) and x.args[0].op == "sub"


# --------------------------------------------------------------------------- the methods
class Solvers:
    """calls of the solvers inside a method; their effect on every argument becomes an opaque reordering"""

    def __init__(self, R):
        self.I = R.I
        self.log = []

    def __enter__(self):
        I = self.I
        self.fn = I.call_fn

        def call_fn(f, args, kw, s):
            nm = getattr(f.fdef, "name", None)
            if nm in NAMES and f.self is None and f.mod.name.endswith("algorithm.permutation_alignment"):
                ow = kw.get("overwrite", TRUE)
                if not (isinstance(ow, Const) and isinstance(ow.v, bool)) or not all(isinstance(a, Arr) for a in args) or not args:
                    raise Undecided("call of %s" % nm)
                res, tok = [], len(self.log)
                self.log.append((nm, [I.node(a, s) for a in args], I.g.loc))
                for a in args:
                    x = I.node(a, s)
                    y = I.g.mk("aligned", (x,), tok, x.shape)
                    if ow.v:
                        I.write(a, y, s, "store")
                        res.append(a)
                    else:
                        res.append(I.arr(s, y))
                return res[0] if len(res) == 1 else Tup([res[0], res[1]]) if len(res) == 2 else Tup([res[0], Tup(res[1:])])
            return self.fn(f, args, kw, s)
        I.call_fn = call_fn
        return self

    def __exit__(self, *a):
        self.I.call_fn = self.fn


def aligned(n):
    """(array before, axes order in which it was handed over, [token]) behind transposes"""
    order = None
    toks = []

    def compose(o, p):      # first p, then o
        return p if o is None else tuple(p[i] for i in o)
    while True:
        if n.op == "transpose":
            order = compose(order, tuple(n.attr) if n.attr else tuple(range(len(n.shape)))[::-1])
            n = n.args[0]
        elif n.op in ("copy", "cast"):
            n = n.args[0]
        elif n.op == "viewstore" and all(s[0] == "transpose" for s in n.attr):
            # the whole buffer is overwritten through a transposed view
            perm = tuple(range(len(n.shape)))
            for s in n.attr:
                perm = tuple(perm[i] for i in s[1]) if s[1] else perm[::-1]
            inv = tuple(perm.index(i) for i in range(len(perm)))
            order = compose(order, inv)
            n = n.args[1]
        elif n.op == "aligned":
            toks.append((n.attr, order))
            n = n.args[0]
        else:
            return n, order, toks


def method(chk, R):
    I = R.I
    st = fresh_state(R)
    cls = R.sc.short
    d = st.objs[R.obj.id]
    old = {k: v for k, v in arrays(R, st).items()}
    per = ("mixing", "covariance", "posterior") if cls == "CACGMM" else ("demix_filter",)
    if cls == "CACGMM":
        for a, dims, dt in (("posterior", ("N", "F", "T"), "f"),):
            d[a] = I.input_array(st, a, tuple(I.g.sym(x) for x in dims), dt)
        old = {k: v for k, v in arrays(R, st).items()}
    with Solvers(R) as S:
        _, s = invoke(R, st, "solve_permutation")
        new = arrays(R, s)
        where = "%s.solve_permutation() [%s]" % (cls, R.sc.tag)
        chk.oblige(len(S.log) == 1, "%s|once" % cls, "%s: %d calls of a permutation solver" % (where, len(S.log)))
        for a in per:
            base, order, toks = aligned(new[a])
            ident = order is None or tuple(order) == tuple(range(len(order)))
            chk.oblige(base is old[a] and ident, "%s|%s" % (cls, a), "%s: the new %s is not the old one reordered at %s" % (where, a, locstr(new[a].loc)))
            chk.oblige(len(toks) == 1, "%s|%s once" % (cls, a), "%s: %s is aligned %d times" % (where, a, len(toks)))
            rank = len(old[a].shape)
            want = (0, 1) if cls != "CACGMM" else (1, 0)
            for _, o in toks:
                o = o or tuple(range(rank))
                got = tuple(o.index(i) for i in range(rank))
                chk.oblige(got[:2] == want, "%s|%s layout" % (cls, a), "%s: %s is handed over with axes other than (bins, sources, ...)" % (where, a))
        ref = dict(posterior=I.node(d["posterior"], st)) if cls == "CACGMM" else {}
        call = lambda s0: I.call(I.getattr(R.obj, "separate", s0), [s0.objs[R.obj.id]["input"]],
                                 {"posterior": s0.objs[R.obj.id]["posterior"]} if cls == "CACGMM" else {"demix_filter": s0.objs[R.obj.id]["demix_filter"]}, s0)
        s0, s1 = st.copy(), s.copy()
        before, after = I.node(call(s0), s0), I.node(call(s1), s1)
        if S.log:
            reference(chk, R, S.log[0], d, before, old, cls, where)
        out = new["output"]
        base, order, toks = aligned(out)
        b0, o0, _ = aligned(before)
        o0 = o0 or tuple(range(len(out.shape)))
        ok = plain(out) is plain(after) or len(toks) == 1 and base is b0 and (order or tuple(range(len(out.shape)))) == o0
        chk.oblige(ok, "%s|output" % cls, "%s: the estimate is neither the old one reordered nor that of the reordered parameters at %s" % (where, locstr(out.loc)))


def reference(chk, R, call, d, before, old, cls, where):
    """what the named option aligns by: the posterior, or the amplitude of the estimate"""
    x = plain(call[1][0])
    b, order, _ = aligned(x)
    amp = b.op == "abs"
    if amp:
        b, o2, _ = aligned(b.args[0])
        order = o2 if order is None else order if o2 is None else tuple(o2[i] for i in order)
    e, oe, _ = aligned(before)
    oe = oe or tuple(range(len(before.shape)))
    order = order or tuple(range(len(x.shape)))
    if b is e:                  # axes of the sequence in terms of those of the estimate
        order = tuple(oe.index(i) for i in order)
    axes = tuple(order) == (1, 0, 2)
    opt = d["permutation_alignment"]
    opt = opt.v if isinstance(opt, Const) else None
    if cls != "CACGMM":
        ok = b is e
    elif opt is True or str(opt).startswith("posterior"):
        ok = b is old["posterior"] and not amp
    else:
        ok = b is e and (amp or call[0] == NAMES[0])
    chk.oblige(ok and axes, "%s|reference" % cls, "%s: the alignment does not follow the %s at %s" % (
        where, "estimate" if cls != "CACGMM" else opt, locstr(call[2])))


def p30():
    chk = Check("P30", "Reorderings of every argument of the permutation solvers as sequences of (bin, permutation) pairs, which must agree between all arguments; the choice of "
                "each permutation as a function of the scores, and the scores against the criterion; what the methods hand over and keep.", "other", 60)
    for kind in sliced(("correlation", "score")):
        for n, f in sizes(chk, kind):
            for ow in (True, False) if n < 4 else (True,):
                for extra in ({},) if kind == "correlation" or n > 3 else ({}, {"global_iter": 2, "local_iter": 2}):
                    solver(chk, kind, ow, extra, n, f)
    scs = []
    for cls in ("GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "AuxLaplaceFDICA"):
        if cls in C.table():
            scs.append(prepared(chk, cls, {}, "permutation_alignment=True", {"permutation_alignment": TRUE}))
    for p in (True, "posterior_score", "amplitude_score", "amplitude_correlation"):
        scs.append(prepared(chk, "CACGMM", {}, "permutation_alignment=%s" % p, {"permutation_alignment": Const(p)}))
    for R in run_all(chk, scs):
        R.sc.tag = R.sc.name.split("[", 1)[-1].rstrip("]")
        try:
            method(chk, R)
        except (Unsup, Undecided, Raised, Budget) as x:
            chk.skip(R.sc.name, "%s" % (x,))
    return chk


CHECKS = {"P30": p30}
