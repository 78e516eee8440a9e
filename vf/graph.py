"""Hash-consed value graph (interprocedural, gated): the IR every analysis works on.

A node is an operation applied to other nodes.  Nodes carry an inferred symbolic
shape (tuple of ints / integer polynomial nodes) and the source location that first
produced them.  Nothing here evaluates ssspy: the graph only names values.
"""
from __future__ import annotations


class Node:
    __slots__ = ("id", "op", "args", "attr", "shape", "loc", "fn", "meta")

    def __init__(self, id, op, args, attr, shape, loc, fn):
        self.id = id
        self.op = op
        self.args = args
        self.attr = attr
        self.shape = shape
        self.loc = loc
        self.fn = fn
        self.meta = None

    def __repr__(self):
        return "n%d:%s%s" % (self.id, self.op, "" if self.attr is None else "[%s]" % (self.attr,))

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)


class Graph:
    def __init__(self):
        self.nodes = []
        self.table = {}
        self.counter = 0
        self.loc = None
        self.fn = None

    def fresh(self):
        self.counter += 1
        return self.counter

    def mk(self, op, args=(), attr=None, shape=None):
        args = tuple(args)
        key = (op, tuple(a.id for a in args), attr)
        n = self.table.get(key)
        if n is not None:
            if n.shape is None and shape is not None:
                n.shape = shape
            return n
        n = Node(len(self.nodes), op, args, attr, shape, self.loc, self.fn)
        self.nodes.append(n)
        self.table[key] = n
        return n

    def mk_unique(self, op, args=(), attr=None, shape=None):
        n = Node(len(self.nodes), op, tuple(args), (attr, "#%d" % self.fresh()), shape, self.loc, self.fn)
        self.nodes.append(n)
        return n

    # -- integers --------------------------------------------------------
    def const(self, v):
        if isinstance(v, bool) or not isinstance(v, int):
            return self.mk("const", (), (type(v).__name__, v if v == v else "nan"), ())
        return self.poly({(): v} if v else {})

    def sym(self, name):
        """Integer symbol (a dimension)."""
        a = self.mk("sym", (), name, ())
        return self.poly({(a,): 1})

    def poly(self, d):
        items = []
        for mono, c in d.items():
            if c != 0:
                items.append((tuple(sorted(mono, key=lambda n: n.id)), c))
        items.sort(key=lambda t: (len(t[0]), tuple(n.id for n in t[0])))
        atoms = []
        key = []
        for mono, c in items:
            key.append((tuple(n.id for n in mono), c))
            for n in mono:
                if n not in atoms:
                    atoms.append(n)
        node = self.mk("poly", tuple(atoms), tuple(key), ())
        return node

    def as_poly(self, node):
        """dict monomial(tuple of atom nodes)->coef"""
        if node.op == "poly":
            by = {a.id: a for a in node.args}
            return {tuple(by[i] for i in mono): c for mono, c in node.attr}
        return {(node,): 1}

    def int_value(self, node):
        if isinstance(node, int):
            return node
        if node.op == "poly":
            if not node.attr:
                return 0
            if len(node.attr) == 1 and node.attr[0][0] == ():
                return node.attr[0][1]
        return None

    def padd(self, a, b, s=1):
        d = dict(self.as_poly(a))
        for m, c in self.as_poly(b).items():
            d[m] = d.get(m, 0) + s * c
        return self.poly(d)

    def pmul(self, a, b):
        d = {}
        for m1, c1 in self.as_poly(a).items():
            for m2, c2 in self.as_poly(b).items():
                m = tuple(sorted(m1 + m2, key=lambda n: n.id))
                d[m] = d.get(m, 0) + c1 * c2
        return self.poly(d)

    def pdiv(self, a, b):
        """exact division when a single-monomial divisor divides, else None"""
        pa, pb = self.as_poly(a), self.as_poly(b)
        if len(pb) != 1:
            return self.const(1) if a is b else None
        (mb, cb), = pb.items()
        out = {}
        for m, c in pa.items():
            m = list(m)
            if c % cb:
                return None
            for x in mb:
                if x in m:
                    m.remove(x)
                else:
                    return None
            out[tuple(m)] = c // cb
        return self.poly(out)

    def _positive(self, p, strict):
        """every coefficient of p is >= 0 (its symbols are dimensions, >= 1)"""
        d = self.as_poly(p)
        if not d:
            return not strict
        return all(c > 0 and all(x.op == "sym" for x in m) for m, c in d.items())

    def pdivmod(self, a, b):
        """(quotient, remainder) when 0 <= remainder < b is decidable from dimension positivity"""
        if b.op != "poly" or a.op != "poly" or not b.attr or not self._positive(b, True):
            return None
        q, r = self.const(0), a
        pb = self.as_poly(b)
        lead = max(pb, key=lambda m: (len(m), tuple(n.id for n in m)))
        for _ in range(12):
            if self._positive(r, False) and self._positive(self.padd(b, r, -1), True):
                return q, r
            t = None
            for m, c in sorted(self.as_poly(r).items(), key=lambda x: (-len(x[0]), tuple(n.id for n in x[0]))):
                mm = list(m)
                try:
                    for x in lead:
                        mm.remove(x)
                except ValueError:
                    continue
                if c % pb[lead]:
                    continue
                t = self.poly({tuple(mm): c // pb[lead]})
                break
            if t is None:
                return None
            q = self.padd(q, t)
            r = self.padd(r, self.pmul(t, b), -1)
        return None

    def show(self, n, depth=4):
        """short rendering for reports"""
        if n is None:
            return "?"
        if isinstance(n, (int, float, str)):
            return str(n)
        if n.op == "poly":
            by = {a.id: a for a in n.args}
            ts = []
            for mono, c in n.attr:
                f = [self.show(by[i], depth - 1) for i in mono]
                if c != 1 or not f:
                    f.insert(0, str(c))
                ts.append("*".join(f))
            return "+".join(ts) or "0"
        if n.op in ("sym", "input", "atom"):
            return str(n.attr)
        if n.op == "const":
            return str(n.attr[1])
        if depth <= 0:
            return "..."
        a = "" if n.attr is None else "[%s]" % (n.attr,)
        return "%s%s(%s)" % (n.op, a if len(a) < 40 else "", ", ".join(self.show(x, depth - 1) for x in n.args))

    def pow_one(self, node):
        """node is the integer constant 1"""
        return self.int_value(node) == 1


def dimstr(d):
    if isinstance(d, int):
        return str(d)
    if d.op == "poly":
        if not d.attr:
            return "0"
        by = {a.id: a for a in d.args}
        parts = []
        for mono, c in d.attr:
            names = [dimstr(by[i]) for i in mono]
            if not names:
                parts.append(str(c))
            else:
                parts.append(("" if c == 1 else "%d*" % c) + "*".join(names))
        return "+".join(parts)
    if d.op == "sym":
        return d.attr
    return "%s#%d" % (d.op, d.id)


def shapestr(s):
    return "?" if s is None else "(" + ", ".join(dimstr(d) for d in s) + ")"


def expr(n, depth=4, seen=None):
    """Readable rendering of a node for reports."""
    if n.op == "const":
        return repr(n.attr[1])
    if n.op in ("poly", "sym"):
        return dimstr(n)
    if n.op in ("input", "user"):
        return str(n.attr)
    if depth <= 0:
        return "..."
    a = [expr(x, depth - 1) for x in n.args]
    if n.op in ("add", "sub", "mul", "div", "pow", "matmul") and len(a) == 2:
        return "(%s %s %s)" % (a[0], {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "matmul": "@"}[n.op], a[1])
    return "%s(%s)" % (n.op, ", ".join(a))
