"""Abstract interpreter that builds the value-flow graph of an entry scenario.

It walks the syntax tree of /repo's sources (nothing is imported or executed), inlines
every resolved call through the class MRO, keeps an abstract heap (objects, array
buffers with views and aliases, lists, dicts), merges at joins with phi nodes and
closes loops with loop-phi nodes.  Unknown constructs become opaque nodes, never errors.
"""
from __future__ import annotations

import ast
import os

from .graph import Graph, Node
from .values import *  # noqa
from .values import State, Ev
from . import npmodel


class Raised(Exception):
    def __init__(self, exc, msg, loc, explicit):
        self.exc, self.msg, self.loc, self.explicit = exc, msg, loc, explicit


class Budget(Exception):
    pass


class Frame:
    def __init__(self, env, mod, fn, owner, selfv):
        self.env, self.mod, self.fn, self.owner, self.selfv = env, mod, fn, owner, selfv
        self.returns = []
        self.loops = []
        self.yields = None


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []


PYEXC = {"ValueError", "NotImplementedError", "AssertionError", "TypeError", "AttributeError", "KeyError",
         "IndexError", "RuntimeError", "Exception", "FileNotFoundError", "ModuleNotFoundError", "ImportError",
         "OSError", "IOError", "DeprecationWarning", "UserWarning", "FutureWarning", "Warning", "StopIteration",
         "ZeroDivisionError", "OverflowError", "FloatingPointError", "ArithmeticError", "BaseException",
         "LookupError", "NameError"}
BUILTINS = {"len", "range", "abs", "min", "max", "sum", "int", "float", "complex", "bool", "str", "list", "tuple",
            "dict", "set", "type", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "callable", "zip",
            "enumerate", "reversed", "sorted", "repr", "print", "open", "super", "property", "object", "all", "any",
            "map", "filter", "round", "id", "iter", "next", "slice", "vars", "format", "pow", "divmod", "bytes",
            "frozenset", "ord", "chr", "delattr", "staticmethod", "hash", "bytearray", "memoryview"}


class Interp:
    most = 8            # longest range or axis that is iterated element by element
    MAXDEPTH = 40

    def __init__(self, project, budget=4_000_000):
        self.p = project
        self.g = Graph()
        self.nbuf = 0
        self.nref = 0
        self.owner = {}      # buffer -> owner tag
        self.alias = {}      # phi buffer -> frozenset of buffers
        self.bufloc = {}
        self.depth = 0
        self.entered = set()
        self.raises = []     # (exc, msg, loc, fn, pc, explicit)
        self.unknown = {}    # construct -> count
        self.issues = []     # shape / usage issues
        self.stackfn = []
        self.frames = []
        self.loopstack = []
        self.nloop = 0
        self.steps = 0
        self.budget = budget
        self.modcache = {}
        self.callsites = 0
        self.entry = None
        self.loopinfo = {}
        self.quiet = 0
        self.watch = None    # optional hook(interp, kind, payload)
        self.calllog = []    # (qualname, argmap, ret, state-insensitive) of interesting calls
        self.record_calls = set()

    # ------------------------------------------------------------------ utils
    @property
    def loc(self):
        return self.g.loc

    def note_unknown(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def ev(self, st, kind, data):
        st.events.append(Ev(kind, data, self.g.loc, self.g.fn, st.pc))
        if self.watch:
            self.watch(self, kind, data, st)

    def newbuf(self, st, node, owner=None):
        self.nbuf += 1
        st.bufs[self.nbuf] = node
        if owner is not None:
            self.owner[self.nbuf] = owner
        self.bufloc[self.nbuf] = self.g.loc
        return self.nbuf

    def arr(self, st, node):
        """fresh array (or scalar) holding node"""
        if node.shape == () and node.op != "loopphi":
            return Num(node)
        return Arr(self.newbuf(st, node))

    def input_array(self, st, name, shape, dtype, owner=None):
        n = self.g.mk("input", (), name, tuple(shape))
        n.meta = {"dt": dtype}
        return Arr(self.newbuf(st, n, owner or "caller:" + name))

    def newlist(self, st, items):
        self.nref += 1
        st.lists[self.nref] = tuple(items)
        return LstRef(self.nref)

    def newdict(self, st, d):
        self.nref += 1
        st.dicts[self.nref] = dict(d)
        return DctRef(self.nref)

    def newobj(self, st, ci):
        self.nref += 1
        st.objs[self.nref] = {}
        return ObjRef(self.nref, ci)

    def roots(self, buf):
        out, todo = set(), [buf]
        while todo:
            b = todo.pop()
            if b in out:
                continue
            out.add(b)
            todo.extend(self.alias.get(b, ()))
        return out

    def top(self, st, why="unk", args=()):
        self.note_unknown(why)
        return Top(self.g.mk_unique("unk", [self.node(a, st) for a in args if a is not None], why, None))

    def fail(self, exc, msg, explicit=False):
        raise Raised(exc, msg, self.g.loc, explicit)

    def log_raise(self, st, r, fn):
        if not self.quiet:
            self.raises.append((r.exc, r.msg, r.loc, fn, st.pc, r.explicit))

    # ------------------------------------------------------------------ nodes
    def node(self, v, st):
        g = self.g
        if isinstance(v, Num) or isinstance(v, Top):
            return v.node
        if isinstance(v, Const):
            if isinstance(v.v, (int, float, complex, str, bool)) or v.v is None:
                return g.const(v.v)
            return g.mk("const", (), (type(v.v).__name__, repr(v.v)), None)
        if isinstance(v, Arr):
            n = st.bufs.get(v.buf)
            if n is None:
                return g.mk("deadbuf", (), v.buf, None)
            for step in v.path:
                n = npmodel.apply_step(self, n, step)
            return n
        if isinstance(v, Union):
            u = self.resolve(v, st)
            if u is not v:
                return self.node(u, st)
            return self.phi(v.cond, self.node(v.a, st), self.node(v.b, st))
        if isinstance(v, Tup):
            return self.listnode([x for x in v.items], st)
        if isinstance(v, LstRef):
            return self.listnode(st.lists.get(v.id, ()), st)
        if isinstance(v, Rep):
            return g.mk("rep", (v.count, self.node(v.val, st)), v.loop, None)
        if isinstance(v, RngObj):
            return g.mk("rngobj", (), v.origin, None)
        if isinstance(v, UserFn):
            return g.mk("userfn", (), v.name, None)
        if isinstance(v, Ext):
            return g.mk("ext", (), v.name, None)
        if isinstance(v, Fn):
            return g.mk("fn", (), (getattr(v.fdef, "name", "<lambda>"), v.mod.name, v.fdef.lineno), None)
        if isinstance(v, Partial):
            return g.mk("partial", [self.node(v.fn, st)] + [self.node(a, st) for a in v.args]
                        + [self.node(x, st) for _, x in v.kwargs], tuple(k for k, _ in v.kwargs), None)
        if isinstance(v, ObjRef):
            return g.mk("obj", (), v.id, None)
        if isinstance(v, Cls):
            return g.mk("cls", (), v.ci.name, None)
        if isinstance(v, DctRef):
            d = st.dicts.get(v.id, {})
            return g.mk("dict", [self.node(x, st) for x in d.values()], tuple(str(k) for k in d), None)
        return g.mk("opaque", (), type(v).__name__, None)

    def listnode(self, items, st):
        nodes = [self.node(x, st) for x in items]
        shape = None
        if all(not isinstance(x, Rep) for x in items):
            shp = [n.shape for n in nodes]
            if all(s == () for s in shp):
                shape = (self.g.const(len(nodes)),)
            elif shp and all(s is not None and s == shp[0] for s in shp):
                shape = (self.g.const(len(nodes)),) + shp[0]
        elif len(items) == 1:
            inner = self.node(items[0].val, st)
            if inner.shape is not None:
                shape = (items[0].count,) + inner.shape
        return self.g.mk("list", nodes, None, shape)

    def phi(self, cond, a, b):
        if a is b:
            return a
        if cond.op == "not":
            cond, a, b = cond.args[0], b, a
        shape = npmodel.join_shape(a.shape, b.shape)
        n = self.g.mk("phi", (cond, a, b), None, shape)
        if a.op == "poly" and b.op == "poly":
            return self.g.poly({(n,): 1})
        return n

    def is_numeric(self, v):
        return isinstance(v, (Num, Arr)) or (isinstance(v, Const) and isinstance(v.v, (int, float, complex))
                                             and not isinstance(v.v, bool))

    def resolve(self, v, st):
        while isinstance(v, Union):
            t = self.pc_truth(v.cond, st)
            if t is None:
                return v
            v = v.a if t else v.b
        return v

    def pc_truth(self, cond, st):
        neg = False
        while cond.op == "not":
            cond = cond.args[0]
            neg = not neg
        if cond.op == "const":
            return bool(cond.attr[1]) ^ neg
        if cond.op == "poly":
            iv = self.g.int_value(cond)
            if iv is not None:
                return bool(iv) ^ neg
        for c, t in st.pc:
            if c is cond:
                return t ^ neg
        if cond.op == "and":
            ts = [self.pc_truth(a, st) for a in cond.args]
            r = False if any(t is False for t in ts) else (True if all(t is True for t in ts) else None)
            return None if r is None else r ^ neg
        if cond.op == "or":
            ts = [self.pc_truth(a, st) for a in cond.args]
            r = True if any(t is True for t in ts) else (False if all(t is False for t in ts) else None)
            return None if r is None else r ^ neg
        return None

    def add_pc(self, st, cond, truth):
        while cond.op == "not":
            cond = cond.args[0]
            truth = not truth
        st.pc = st.pc + ((cond, truth),)
        if cond.op == "and" and truth or cond.op == "or" and not truth:
            for a in cond.args:
                if a.op != "const" and self.pc_truth(a, st) is None:
                    self.add_pc(st, a, truth)

    # ------------------------------------------------------------------ merge
    def merge_value(self, cond, a, b, sa, sb, m):
        if a == b:
            if isinstance(a, Arr):
                return a
            return a
        if a is None:
            a = UNDEF
        if b is None:
            b = UNDEF
        a = self.resolve(a, sa)
        b = self.resolve(b, sb)
        if a == b:
            return a
        an = isinstance(a, (Num, Arr)) or self.is_numeric(a)
        bn = isinstance(b, (Num, Arr)) or self.is_numeric(b)
        if an and bn:
            na, nb = self.node(a, sa), self.node(b, sb)
            n = self.phi(cond, na, nb)
            if isinstance(a, Arr) or isinstance(b, Arr):
                buf = self.newbuf(m, n)
                al = set()
                for x in (a, b):
                    if isinstance(x, Arr):
                        al |= self.roots(x.buf)
                self.alias[buf] = frozenset(al)
                return Arr(buf)
            return Num(n)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_value(cond, x, y, sa, sb, m) for x, y in zip(a.items, b.items)])
        if cond.op == "not":
            return Union(cond.args[0], b, a)
        return Union(cond, a, b)

    def merge(self, sa, sb):
        k = 0
        while k < len(sa.pc) and k < len(sb.pc) and sa.pc[k][0] is sb.pc[k][0] and sa.pc[k][1] == sb.pc[k][1]:
            k += 1
        if k < len(sa.pc) and k < len(sb.pc) and sa.pc[k][0] is sb.pc[k][0]:
            cond, t = sa.pc[k]
        elif k < len(sa.pc):
            cond, t = sa.pc[k]
        elif k < len(sb.pc):
            cond, t = sb.pc[k][0], not sb.pc[k][1]
        else:
            cond, t = self.g.mk_unique("unkcond", (), None, ()), True
        if not t:
            sa, sb = sb, sa
        m = State()
        m.pc = sa.pc[:k] if len(sa.pc) >= k else ()
        # buffers first
        for b in set(sa.bufs) | set(sb.bufs):
            x, y = sa.bufs.get(b), sb.bufs.get(b)
            m.bufs[b] = x if y is None or x is y else (y if x is None else self.phi(cond, x, y))
        for l in set(sa.lists) | set(sb.lists):
            x, y = sa.lists.get(l), sb.lists.get(l)
            if y is None or x == y:
                m.lists[l] = x
            elif x is None:
                m.lists[l] = y
            elif len(x) == len(y):
                m.lists[l] = tuple(self.merge_value(cond, p, q, sa, sb, m) for p, q in zip(x, y))
            else:
                m.lists[l] = (Rep("mix", self.g.mk_unique("unk", (), "len", ()),
                                  self.top(m, "listmix")),)
        for e in set(sa.envs) | set(sb.envs):
            x, y = sa.envs.get(e), sb.envs.get(e)
            m.envs[e] = self._merge_map(cond, x, y, sa, sb, m)
        for e in set(sa.objs) | set(sb.objs):
            x, y = sa.objs.get(e), sb.objs.get(e)
            m.objs[e] = self._merge_map(cond, x, y, sa, sb, m)
        for e in set(sa.dicts) | set(sb.dicts):
            x, y = sa.dicts.get(e), sb.dicts.get(e)
            m.dicts[e] = self._merge_map(cond, x, y, sa, sb, m)
        i = 0
        ea, eb = sa.events, sb.events
        while i < len(ea) and i < len(eb) and ea[i] is eb[i]:
            i += 1
        m.events = ea[:i]
        if len(ea) > i or len(eb) > i:
            m.events.append(Ev("branch", (cond, ea[i:], eb[i:]), self.g.loc, self.g.fn, m.pc))
        return m

    def _merge_map(self, cond, x, y, sa, sb, m):
        if y is None:
            return dict(x)
        if x is None:
            return dict(y)
        out = {}
        for k in list(x) + [k for k in y if k not in x]:
            a, b = x.get(k), y.get(k)
            out[k] = a if a is b else self.merge_value(cond, a, b, sa, sb, m)
        return out

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if not self.exec_stmt(s, st, fr):
                return False
        return True

    def setloc(self, node, fr):
        self.g.loc = (os.path.relpath(fr.mod.path, self.p.root), getattr(node, "lineno", 0))
        self.g.fn = fr.fn

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        self.setloc(s, fr)
        t = type(s).__name__
        m = getattr(self, "st_" + t, None)
        if m is None:
            self.note_unknown("stmt:" + t)
            return True
        r = m(s, st, fr)
        return True if r is None else r

    def st_Pass(self, s, st, fr):
        return True

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return True
        self.ev_(s.value, st, fr)
        return True

    def st_Import(self, s, st, fr):
        for a in s.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            st.envs[fr.env][a.asname or nm] = Mod(nm) if nm in self.p.modules else Ext(nm)

    def st_ImportFrom(self, s, st, fr):
        tgt = self.p._rel(fr.mod, s)
        for a in s.names:
            if tgt in self.p.modules:
                v = self.global_lookup(self.p.modules[tgt], a.name, st)
            else:
                v = Ext(tgt + "." + a.name)
            st.envs[fr.env][a.asname or a.name] = v if v is not None else self.top(st, "import")

    def st_Global(self, s, st, fr):
        return True

    st_Nonlocal = st_Global

    def st_FunctionDef(self, s, st, fr):
        defaults = [self.ev_(d, st, fr) for d in s.args.defaults]
        kwd = [None if d is None else self.ev_(d, st, fr) for d in s.args.kw_defaults]
        st.envs[fr.env][s.name] = Fn(s, fr.mod, fr.env, None, fr.owner, (tuple(defaults), tuple(kwd)))
        st.envs[fr.env]["__captured__"] = TRUE

    def st_ClassDef(self, s, st, fr):
        st.envs[fr.env][s.name] = self.top(st, "localclass")

    def st_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev_(s.value, st, fr)
        fr.returns.append((st.copy(), v))
        return False

    def st_Raise(self, s, st, fr):
        exc, msg = "Exception", ""
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                exc = ast.unparse(e.func)
                for a in e.args:
                    try:
                        v = self.ev_(a, st, fr)
                        if isinstance(v, Const):
                            msg = str(v.v)
                    except Raised:
                        pass
            else:
                exc = ast.unparse(e)
        self.setloc(s, fr)
        self.ev(st, "raise", (exc, msg))
        raise Raised(exc, msg, self.g.loc, True)

    def st_Assert(self, s, st, fr):
        c = self.truth(self.ev_(s.test, st, fr), st)
        if c is False:
            self.setloc(s, fr)
            raise Raised("AssertionError", "", self.g.loc, True)
        if c is not True:
            t = self.pc_truth(c, st)
            if t is False:
                raise Raised("AssertionError", "", self.g.loc, True)
            if t is None:
                self.raises.append(("AssertionError", "", self.g.loc, fr.fn, st.pc + ((c, False),), True))
                self.add_pc(st, c, True)
        return True

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fr.env].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev_(t.value, st, fr)
                if isinstance(o, ObjRef):
                    st.objs[o.id].pop(t.attr, None)

    def st_Assign(self, s, st, fr):
        v = self.ev_(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return True

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev_(s.value, st, fr), st, fr)
        return True

    def st_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id, st, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev_(t.value, st, fr)
            cur = self.getattr(obj, t.attr, st)
        else:
            base = self.ev_(t.value, st, fr)
            idx = self.ev_(t.slice, st, fr)
            cur = self.getitem(base, idx, st)
        cur = self.resolve(cur, st)
        val = self.ev_(s.value, st, fr)
        self.setloc(s, fr)
        if isinstance(cur, LstRef) and op == "Add":
            items = self.iter_items(val, st)
            st.lists[cur.id] = st.lists[cur.id] + tuple(items if items is not None else
                                                        [Rep("ext", self.g.mk_unique("unk", (), "len", ()), self.top(st, "ext"))])
            return True
        new = self.binop(op, cur, val, st)
        if isinstance(cur, Arr) and isinstance(new, (Arr, Num)):
            # numpy augmented assignment writes in place
            self.write(cur, self.node(new, st), st, "aug" + op)
            if isinstance(t, ast.Subscript):
                if not isinstance(cur, Arr) or not cur.path:
                    self.setitem(base, idx, new, st)
            return True
        if isinstance(t, ast.Name):
            st.envs[fr.env][t.id] = new
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new, st)
        else:
            self.setitem(base, idx, new, st)
        return True

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.envs[fr.env][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                items = self.iter_items(v, st)
                if items is None or any(isinstance(x, Rep) for x in items) or len(items) < n - 1:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.top(st, "unpack", [v]), st, fr)
                    return
                tail = n - 1 - i
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, st, fr)
                self.assign(t.elts[i].value, self.newlist(st, items[i:len(items) - tail]), st, fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:] if tail else []):
                    self.assign(e, x, st, fr)
                return
            items = self.unpack(v, n, st)
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev_(t.value, st, fr)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev_(t.value, st, fr)
            i = self.ev_(t.slice, st, fr)
            self.setloc(t, fr)
            self.setitem(b, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, v, n, st):
        v = self.resolve(v, st)
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, LstRef):
            items = list(st.lists[v.id])
            if any(isinstance(x, Rep) for x in items):
                items = None
        elif isinstance(v, Arr):
            nd = self.node(v, st)
            if nd.shape is not None and nd.shape:
                k = self.g.int_value(nd.shape[0])
                if k is not None and k != n:
                    self.fail("ValueError", "unpack %d into %d" % (k, n))
            return [self.getitem(v, Const(i), st) for i in range(n)]
        elif isinstance(v, Union):
            a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
            return [self.merge_value(v.cond, x, y, st, st, st) for x, y in zip(a, b)]
        if items is None:
            return [self.top(st, "unpack", [v]) for _ in range(n)]
        if len(items) != n:
            self.fail("ValueError", "cannot unpack %d values into %d" % (len(items), n))
        return items

    def run_branch(self, stmts, st, fr):
        try:
            return self.exec_block(stmts, st, fr)
        except Raised as r:
            self.log_raise(st, r, fr.fn)
            return False

    def st_If(self, s, st, fr):
        c = self.truth(self.ev_(s.test, st, fr), st)
        if c is not True and c is not False:
            t = self.pc_truth(c, st)
            if t is not None:
                c = t
        if c is True:
            return self.exec_block(s.body, st, fr)
        if c is False:
            return self.exec_block(s.orelse, st, fr)
        return self.fork(c, lambda x: self.exec_block(s.body, x, fr), lambda x: self.exec_block(s.orelse, x, fr), st, fr)

    def fork(self, c, fa, fb, st, fr):
        sa, sb = st.copy(), st.copy()
        self.add_pc(sa, c, True)
        self.add_pc(sb, c, False)
        loc = (self.g.loc, self.g.fn)
        ra = rb = None
        try:
            na = fa(sa)
        except Raised as r:
            ra = r
            na = False
        self.g.loc, self.g.fn = loc
        try:
            nb = fb(sb)
        except Raised as r:
            rb = r
            nb = False
        self.g.loc, self.g.fn = loc
        if ra is not None and rb is not None:
            self.log_raise(sa, ra, fr.fn)
            raise rb
        if ra is not None:
            self.log_raise(sa, ra, fr.fn)
        if rb is not None:
            self.log_raise(sb, rb, fr.fn)
        if na and nb:
            st.assign(self.merge(sa, sb))
            return True
        if na:
            st.assign(sa)
            return True
        if nb:
            st.assign(sb)
            return True
        # every path left through return/break/continue/raise
        if ra is not None:
            st.assign(sb)
        else:
            st.assign(sa)
        return False

    def st_Try(self, s, st, fr):
        pre = st.copy()
        handlers = s.handlers
        try:
            ok = self.exec_block(s.body, st, fr)
            raised = None
        except Raised as r:
            raised = r
            ok = False
        if raised is not None:
            h = None
            for x in handlers:
                names = ast.unparse(x.type) if x.type is not None else "Exception"
                if raised.exc.split(".")[-1] in names or "Exception" in names.split() or names == "Exception":
                    h = x
                    break
            if h is None:
                if s.finalbody:
                    self.exec_block(s.finalbody, st, fr)
                raise raised
            if h.name:
                st.envs[fr.env][h.name] = self.top(st, "exc")
            ok = self.exec_block(h.body, st, fr)
        elif handlers:
            # the body may raise something at run time: handler as an alternative path
            if ok and s.orelse:
                ok = self.exec_block(s.orelse, st, fr)
            cond = self.g.mk_unique("mayraise", (), ast.unparse(handlers[0].type) if handlers[0].type else None, ())
            alt = pre
            self.add_pc(alt, cond, True)
            if ok:
                self.add_pc(st, cond, False)
            res = []
            for h in handlers:
                a2 = alt.copy()
                if h.name:
                    a2.envs[fr.env][h.name] = self.top(a2, "exc")
                if self.run_branch(h.body, a2, fr):
                    res.append(a2)
            for a2 in res:
                if ok:
                    st.assign(self.merge(a2, st))
                else:
                    st.assign(a2)
                    ok = True
        elif ok and s.orelse:
            ok = self.exec_block(s.orelse, st, fr)
        if s.finalbody and ok:
            ok = self.exec_block(s.finalbody, st, fr)
        return ok

    def st_With(self, s, st, fr):
        for it in s.items:
            v = self.ev_(it.context_expr, st, fr)
            self.ev(st, "with_enter", self.node(v, st))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        ok = self.exec_block(s.body, st, fr)
        if ok:
            self.ev(st, "with_exit", None)
        return ok

    def st_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].breaks.append(st.copy())
        return False

    def st_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].conts.append(st.copy())
        return False

    # ------------------------------------------------------------------ loops
    def iter_items(self, v, st):
        """concrete list of items or None when the iterable has symbolic length"""
        v = self.resolve(v, st)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, (LstRef, SetRef)):
            return list(st.lists[v.id])
        if isinstance(v, DctRef):
            return [Const(k) if not isinstance(k, V) else k for k in st.dicts[v.id]]
        if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
            return [Const(c) for c in v.v]
        if isinstance(v, Rng):
            lo, hi, sp = (self.g.int_value(x) for x in (v.lo, v.hi, v.step))
            if None not in (lo, hi, sp) and sp != 0:
                r = range(lo, hi, sp)
                if len(r) <= self.most:
                    return [Const(i) for i in r]
            return None
        if isinstance(v, Zip):
            parts = [self.iter_items(x, st) for x in v.items]
            if any(p is None for p in parts) or any(isinstance(y, Rep) for p in parts for y in p):
                return None
            if v.kind == "zip":
                return [Tup(t) for t in zip(*parts)]
            if v.kind == "enumerate":
                start = 0
                return [Tup((Const(i + start), x)) for i, x in enumerate(parts[0])]
            if v.kind == "reversed":
                return list(reversed(parts[0]))
        if isinstance(v, Arr):
            n = self.node(v, st)
            if n.shape:
                k = self.g.int_value(n.shape[0])
                if k is not None and k <= self.most:
                    return [self.getitem(v, Const(i), st) for i in range(k)]
        return None

    def iter_symbolic(self, v, st, lid):
        """(count node, element value) for an iterable of symbolic length"""
        g = self.g
        v = self.resolve(v, st)
        if isinstance(v, Rng):
            cnt = g.padd(v.hi, v.lo, -1)
            sp = g.int_value(v.step)
            if sp != 1:
                cnt = npmodel.ceil_div(self, cnt, v.step)
            idx = g.mk("loopidx", (), lid, ())
            idx.meta = {"range": (v.lo, v.hi, v.step), "count": cnt}
            i = g.poly({(idx,): 1})
            if g.int_value(v.lo) != 0 or sp != 1:
                i = g.padd(v.lo, g.pmul(v.step, i))
            return cnt, Num(i)
        if isinstance(v, Arr):
            n = self.node(v, st)
            idx = g.mk("loopidx", (), lid, ())
            cnt = n.shape[0] if n.shape else g.mk_unique("unk", (), "len", ())
            idx.meta = {"range": (g.const(0), cnt, g.const(1)), "count": cnt}
            return cnt, self.getitem(v, Num(g.poly({(idx,): 1})), st)
        if isinstance(v, Zip):
            cnt = None
            els = []
            for x in v.items:
                items = self.iter_items(x, st)
                if items is not None and items and not any(isinstance(i, Rep) for i in items):
                    c, e = g.const(len(items)), self.select(items, g.poly({(g.mk("loopidx", (), lid, ()),): 1}), st)
                else:
                    c, e = self.iter_symbolic(x, st, lid)
                cnt = cnt or c
                els.append(e)
            idx = g.mk("loopidx", (), lid, ())
            if idx.meta is None:
                idx.meta = {"range": (g.const(0), cnt, g.const(1)), "count": cnt}
            if v.kind == "zip":
                return cnt, Tup(els)
            if v.kind == "enumerate":
                return cnt, Tup((Num(g.poly({(idx,): 1})), els[0]))
            return cnt, els[0]
        if isinstance(v, (LstRef, SetRef)):
            items = st.lists[v.id]
            if len(items) == 1 and isinstance(items[0], Rep):
                r = items[0]
                return r.count, self.rename_loop(r, lid, st)
            cnt = g.mk_unique("unk", (), "len", ())
            return cnt, self.top(st, "iter", [v])
        cnt = g.mk("itercount", (self.node(v, st),), None, ())
        n = g.mk("iterelem", (self.node(v, st), g.mk("loopidx", (), lid, ())), None, None)
        if isinstance(v, Top) and v.node.op == "pairs":
            # user-supplied pair selector: yields pairs of distinct source indices
            a = g.mk("atom", (n,), "pair0", ())
            b = g.mk("atom", (n,), "pair1", ())
            return cnt, Tup((Num(g.poly({(a,): 1})), Num(g.poly({(b,): 1}))))
        return cnt, Top(n)

    def rename_loop(self, r, lid, st):
        """element of a previously built repeated list, seen from loop `lid`"""
        def sub(v):
            if isinstance(v, Num):
                return Num(self.substitute(v.node, r.loop, lid))
            if isinstance(v, Tup):
                return Tup([sub(x) for x in v.items])
            if isinstance(v, Arr) and v.buf in st.bufs:
                n = self.substitute(self.node(v, st), r.loop, lid)
                b = self.newbuf(st, n)
                self.alias[b] = frozenset(self.roots(v.buf))
                return Arr(b)
            return v
        return sub(r.val)

    def substitute(self, n, l0, l1, memo=None):
        memo = {} if memo is None else memo
        if n.id in memo:
            return memo[n.id]
        g = self.g
        if n.op == "loopidx":
            r = g.mk("loopidx", (), l1, ()) if n.attr == l0 else n
            if r is not n and r.meta is None:
                r.meta = n.meta
        elif n.op == "poly":
            d = {}
            for mono, c in g.as_poly(n).items():
                mm = []
                for a in mono:
                    mm.append(self.substitute(a, l0, l1, memo))
                key = tuple(sorted(mm, key=lambda x: x.id))
                d[key] = d.get(key, 0) + c
            r = g.poly(d)
        elif n.op in ("input", "const", "sym", "loopphi") or not n.args:
            r = n
        else:
            memo[n.id] = n
            args = [self.substitute(a, l0, l1, memo) for a in n.args]
            if all(x is y for x, y in zip(args, n.args)):
                r = n
            else:
                sh = n.shape
                if sh is not None:
                    sh = tuple(self.substitute(d, l0, l1, memo) for d in sh)
                r = g.mk(n.op, args, n.attr, sh)
        memo[n.id] = r
        return r

    def select(self, items, idx, st):
        """items[idx] for symbolic idx over a concrete list"""
        nodes = [self.node(x, st) for x in items]
        if all(self.is_numeric(x) for x in items):
            return self.arr(st, self.g.mk("select", [idx] + nodes, None, nodes[0].shape))
        return self.top(st, "select", items)

    def st_For(self, s, st, fr):
        it = self.ev_(s.iter, st, fr)
        items = self.iter_items(it, st)
        self.setloc(s, fr)
        if items is not None and not any(isinstance(x, Rep) for x in items) and len(items) <= 64:
            brk = []
            for x in items:
                ctx = LoopCtx()
                fr.loops.append(ctx)
                self.assign(s.target, x, st, fr)
                ok = self.exec_block(s.body, st, fr)
                fr.loops.pop()
                live = ([st.copy()] if ok else []) + ctx.conts
                brk += ctx.breaks
                if not live:
                    if not brk:
                        return False
                    st.assign(self.merge_all(brk))
                    return True
                st.assign(self.merge_all(live))
            if s.orelse and not self.exec_block(s.orelse, st, fr):
                if not brk:
                    return False
                st.assign(self.merge_all(brk))
                return True
            if brk:
                st.assign(self.merge_all([st.copy()] + brk))
            return True

        def head(x, lid):
            cnt, el = self.iter_symbolic(it, x, lid)
            self.assign(s.target, el, x, fr)
            return cnt
        return self.sym_loop(head, s.body, st, fr, s, s.orelse)

    def counted_while(self, s):
        """`while i < n: ...; i += 1` as the equivalent `for i in range(i, n)`; None if it is not one"""
        r = getattr(s, "_asfor", 0)
        if r != 0:
            return r
        r = None
        t = s.test
        if (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name) and not s.orelse and len(s.body) > 1):
            var = t.left.id
            last = s.body[-1]
            inc = None
            if (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                    and last.target.id == var):
                inc = last.value
            elif (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name)
                    and last.targets[0].id == var and isinstance(last.value, ast.BinOp)
                    and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name)
                    and last.value.left.id == var):
                inc = last.value.right
            bound = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
            stored = {x.id for b in s.body[:-1] for x in ast.walk(b)
                      if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            jumps = any(isinstance(x, (ast.Continue, ast.Break)) for b in s.body for x in ast.walk(b))
            if (isinstance(inc, ast.Constant) and inc.value == 1 and var not in stored and not (bound & stored)
                    and var not in bound and not jumps):
                f = ast.For(target=ast.Name(id=var, ctx=ast.Store()),
                            iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()),
                                          args=[ast.Name(id=var, ctx=ast.Load()), t.comparators[0]], keywords=[]),
                            body=s.body[:-1], orelse=[])
                done = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=t.comparators[0])
                for x in (f, done):
                    ast.copy_location(x, s)
                    ast.fix_missing_locations(x)
                r = (f, done)
        s._asfor = r
        return r

    def st_While(self, s, st, fr):
        alt = self.counted_while(s)
        if alt is not None:
            return self.st_For(alt[0], st, fr) and self.exec_block([alt[1]], st, fr)
        # try to unroll while the condition is statically decided
        for _ in range(12):
            c = self.truth(self.ev_(s.test, st, fr), st)
            if c is not True and c is not False:
                t = self.pc_truth(c, st)
                c = t if t is not None else c
            if c is False:
                return True
            if c is not True:
                break
            ctx = LoopCtx()
            fr.loops.append(ctx)
            ok = self.exec_block(s.body, st, fr)
            fr.loops.pop()
            live = ([st.copy()] if ok else []) + ctx.conts
            if not live:
                if ctx.breaks:
                    st.assign(self.merge_all(ctx.breaks))
                    return True
                return False
            if ctx.breaks:
                break
            st.assign(self.merge_all(live))

        def head(x, lid):
            cv = self.ev_(s.test, x, fr)
            c = self.truth(cv, x)
            if c is not True and c is not False:
                self.add_pc(x, c, True)
                return self.g.mk("whilecount", (c,), lid, ())
            return self.g.mk("whilecount", (), lid, ())
        return self.sym_loop(head, s.body, st, fr, s, s.orelse)

    def merge_all(self, states):
        states = list(states)
        m = states[-1]
        for s in reversed(states[:-1]):
            m = self.merge(s, m)
        return m

    def sym_loop(self, head, body, st, fr, s, orelse=()):
        self.nloop += 1
        lid = "L%d" % self.nloop
        base = st.copy()
        base_events = list(st.events)
        phis = {}      # location -> (value at head, [loopphi nodes to patch], init info)
        nret = len(fr.returns)
        raises0 = len(self.raises)
        final = None
        for rnd in range(8):
            del fr.returns[nret:]
            del self.raises[raises0:]
            x = base.copy()
            x.events = []
            self.install(x, phis)
            headst = x.copy()
            pc0 = x.pc
            ctx = LoopCtx()
            fr.loops.append(ctx)
            self.loopstack.append(lid)
            self.setloc(s, fr)
            try:
                cnt = head(x, lid)
                ok = self.exec_block(body, x, fr) if isinstance(body, list) else body(x)
            except Raised as r:
                self.log_raise(x, r, fr.fn)
                ok = False
            finally:
                self.loopstack.pop()
                fr.loops.pop()
            live = ([x] if ok else []) + ctx.conts
            if not live:
                # the body never completes normally: at most one partial iteration
                outs = [headst] + ctx.breaks
                for o in outs:
                    o.events = base_events + o.events
                st.assign(self.merge_all(outs))
                return True
            y = self.merge_all(live)
            y.pc = pc0
            new = self.diff(headst, y, phis, lid, base)
            final = (headst, y, ctx)
            if not new:
                break
        headst, y, ctx = final
        # patch back edges
        for key, (v, node, get) in phis.items():
            if node is not None:
                back = get(y)
                if back is not None:
                    init = node.args[0]
                    node.args = (init, back)
                    if back.shape != node.shape:
                        node.shape = npmodel.join_shape(node.shape, back.shape)
        out = headst
        for e, env in y.envs.items():
            if e in out.envs:
                for k, v in env.items():
                    if k not in out.envs[e]:
                        out.envs[e][k] = v
            else:
                out.envs[e] = dict(env)
        for b, n in y.bufs.items():
            out.bufs.setdefault(b, n)
        for l, v in y.lists.items():
            old = base.lists.get(l)
            if old is None:
                out.lists[l] = v
            elif v != headst.lists.get(l):
                pass
        for o, d in y.objs.items():
            if o in out.objs:
                for k, v in d.items():
                    if k not in out.objs[o]:
                        out.objs[o][k] = v
            else:
                out.objs[o] = dict(d)
        for o, d in y.dicts.items():
            out.dicts.setdefault(o, dict(d))
        # lists appended to inside the loop
        for key, (v, node, get) in phis.items():
            if key[0] == "list":
                out.lists[key[1]] = v(cnt, y)
        out.events = base_events + [Ev("loop", (lid, cnt, y.events), self.g.loc, self.g.fn, base.pc)]
        out.pc = base.pc
        self.loopinfo[lid] = (cnt, (os.path.relpath(fr.mod.path, self.p.root), s.lineno))
        if ctx.breaks:
            for b in ctx.breaks:
                b.events = base_events + [Ev("loop", (lid, cnt, b.events), self.g.loc, self.g.fn, base.pc)]
                for e, env in out.envs.items():
                    b.envs.setdefault(e, dict(env))
            out = self.merge_all([out] + ctx.breaks)
        st.assign(out)
        if orelse:
            return self.exec_block(orelse, st, fr)
        return True

    def install(self, x, phis):
        for key, (v, node, get) in phis.items():
            if key[0] == "env":
                if key[1] in x.envs:
                    x.envs[key[1]][key[2]] = v
                    if isinstance(v, Arr) and node is not None:
                        x.bufs[v.buf] = node
            elif key[0] == "obj":
                if key[1] in x.objs:
                    x.objs[key[1]][key[2]] = v
                    if isinstance(v, Arr) and node is not None:
                        x.bufs[v.buf] = node
            elif key[0] == "dict":
                x.dicts[key[1]][key[2]] = v
                if isinstance(v, Arr) and node is not None:
                    x.bufs[v.buf] = node
            elif key[0] == "buf":
                x.bufs[key[1]] = node
            elif key[0] == "item":
                if isinstance(v, Arr):
                    x.bufs[v.buf] = node

    def diff(self, h, y, phis, lid, base):
        new = False

        def handle(kind, cid, name, v0, v1, getter):
            nonlocal new
            key = (kind, cid, name)
            if key in phis:
                # keep alias sets growing
                hv = phis[key][0]
                if isinstance(hv, Arr) and isinstance(v1, Arr):
                    r = self.roots(v1.buf) - self.roots(hv.buf)
                    if r:
                        self.alias[hv.buf] = frozenset(self.alias.get(hv.buf, frozenset()) | r)
                elif isinstance(hv, Union) or isinstance(hv, Top):
                    pass
                return
            if v0 == v1:
                return
            a0 = isinstance(v0, (Num, Arr)) or self.is_numeric(v0)
            a1 = isinstance(v1, (Num, Arr)) or self.is_numeric(v1)
            new = True
            if a0 and a1:
                n0, n1 = self.node(v0, h), self.node(v1, y)
                ph = self.g.mk_unique("loopphi", (n0, n1), (lid, kind, name if isinstance(name, str) else str(name)),
                                      npmodel.join_shape(n0.shape, n1.shape))
                if isinstance(v0, Arr) or isinstance(v1, Arr):
                    self.nbuf += 1
                    al = set()
                    for q in (v0, v1):
                        if isinstance(q, Arr):
                            al |= self.roots(q.buf)
                    self.alias[self.nbuf] = frozenset(al)
                    hv = Arr(self.nbuf)
                else:
                    hv = Num(self.g.poly({(ph,): 1}) if n0.op == "poly" and n1.op == "poly" else ph)
                phis[key] = (hv, ph, lambda s, g=getter: self.node_or_none(g(s), s))
            elif isinstance(v0, Tup) and isinstance(v1, Tup) and len(v0.items) == len(v1.items):
                hvs = []
                for i, (p0, p1) in enumerate(zip(v0.items, v1.items)):
                    if p0 == p1:
                        hvs.append(p0)
                        continue
                    if not ((isinstance(p0, (Num, Arr)) or self.is_numeric(p0))
                            and (isinstance(p1, (Num, Arr)) or self.is_numeric(p1))):
                        hvs = None
                        break
                    n0, n1 = self.node(p0, h), self.node(p1, y)
                    ph = self.g.mk_unique("loopphi", (n0, n1), (lid, kind, "%s[%d]" % (name, i)),
                                          npmodel.join_shape(n0.shape, n1.shape))
                    if isinstance(p0, Arr) or isinstance(p1, Arr):
                        self.nbuf += 1
                        al = set()
                        for q in (p0, p1):
                            if isinstance(q, Arr):
                                al |= self.roots(q.buf)
                        self.alias[self.nbuf] = frozenset(al)
                        hv = Arr(self.nbuf)
                    else:
                        hv = Num(self.g.poly({(ph,): 1}) if n0.op == "poly" and n1.op == "poly" else ph)
                    hvs.append(hv)

                    def get(s, g=getter, i=i):
                        t = g(s)
                        return self.node_or_none(t.items[i], s) if isinstance(t, Tup) and len(t.items) > i else None
                    phis[("item", key, i)] = (hv, ph, get)
                if hvs is None:
                    phis[key] = (self.top(h, "looptuple", [v0]), None, None)
                else:
                    phis[key] = (Tup(hvs), None, None)
            elif isinstance(v0, (Fn, Partial, UserFn, Ext, BM)) or isinstance(v1, (Fn, Partial, UserFn)):
                c = self.g.mk("firstiter", (), lid, ())
                phis[key] = (Union(c, v0, v1), None, None)
            else:
                c = self.g.mk("firstiter", (), lid, ())
                if isinstance(v1, (Arr, Num)):
                    # e.g. None at loop entry, array afterwards
                    n1 = self.node(v1, y)
                    ph = self.g.mk_unique("loopphi", (n1, n1), (lid, kind, str(name)), n1.shape)
                    if isinstance(v1, Arr):
                        b = self.newbuf(base, ph)
                        self.alias[b] = frozenset(self.roots(v1.buf))
                        hv = Arr(b)
                    else:
                        hv = Num(ph)
                    phis[key] = (Union(c, v0, hv), None, None)
                else:
                    phis[key] = (Union(c, v0, v1), None, None)

        for e, env in h.envs.items():
            ye = y.envs.get(e)
            if ye is None:
                continue
            for k, v0 in env.items():
                v1 = ye.get(k, UNDEF)
                handle("env", e, k, v0, v1, lambda s, e=e, k=k: s.envs.get(e, {}).get(k))
        for o, d in h.objs.items():
            for k, v0 in d.items():
                v1 = y.objs[o].get(k, UNDEF)
                handle("obj", o, k, v0, v1, lambda s, o=o, k=k: s.objs[o].get(k))
        for o, d in h.dicts.items():
            for k, v0 in d.items():
                v1 = y.dicts[o].get(k, UNDEF)
                handle("dict", o, k, v0, v1, lambda s, o=o, k=k: s.dicts[o].get(k))
        for b, n0 in h.bufs.items():
            n1 = y.bufs.get(b)
            key = ("buf", b, None)
            if n1 is None or n1 is n0 or key in phis:
                continue
            if any(isinstance(v, Arr) and v.buf == b and node is not None and k[0] != "buf"
                   for k, (v, node, get) in phis.items() if not callable(v)):
                # phi buffer itself written through: back edge already reads the variable
                continue
            ph = self.g.mk_unique("loopphi", (n0, n1), (lid, "buf", str(b)), npmodel.join_shape(n0.shape, n1.shape))
            phis[key] = (None, ph, lambda s, b=b: s.bufs.get(b))
            new = True
        for l, v0 in h.lists.items():
            v1 = y.lists.get(l)
            key = ("list", l, None)
            if v1 is None or v1 == v0 or key in phis:
                continue
            if v1[: len(v0)] == v0:
                tail = v1[len(v0):]
                phis[key] = (lambda cnt, s, v0=v0, l=l: v0 + tuple(
                    Rep(lid, cnt, t) if not isinstance(t, Rep) else t for t in s.lists[l][len(v0):]), None, None)
            else:
                phis[key] = (lambda cnt, s, l=l: (Rep(lid, cnt, self.top(s, "listloop")),), None, None)
            new = True
        return new

    def node_or_none(self, v, s):
        if v is None or isinstance(v, Undef):
            return None
        return self.node(v, s)

    # ------------------------------------------------------------------ truth
    def truth(self, v, st):
        """True / False / condition node"""
        v = self.resolve(v, st)
        g = self.g
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Num):
            n = v.node
            if n.op == "const":
                return bool(n.attr[1])
            iv = g.int_value(n) if n.op == "poly" else None
            if iv is not None:
                return bool(iv)
            t = self.pc_truth(n, st)
            return n if t is None else t
        if isinstance(v, Arr):
            n = self.node(v, st)
            if n.shape:
                self.issues.append(("truth-of-array", self.g.loc, self.g.fn))
            return n
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, LstRef):
            items = st.lists[v.id]
            if not items:
                return False
            if any(not isinstance(x, Rep) for x in items):
                return True
            return g.mk("nonempty", (self.node(v, st),), None, ())
        if isinstance(v, DctRef):
            return len(st.dicts[v.id]) > 0
        if isinstance(v, Union):
            a, b = self.truth(v.a, st), self.truth(v.b, st)
            return self.ite(v.cond, a, b)
        if isinstance(v, Top):
            return v.node if v.node.shape == () else g.mk("truth", (v.node,), None, ())
        if isinstance(v, Undef):
            return g.mk_unique("unkcond", (), None, ())
        return True

    def ite(self, c, a, b):
        g = self.g
        if a is True and b is True:
            return True
        if a is False and b is False:
            return False
        if a is True and b is False:
            return c
        if a is False and b is True:
            return self.negate(c)

        def N(x):
            return g.const(x) if isinstance(x, bool) else x
        return g.mk("ite", (c, N(a), N(b)), None, ())

    def negate(self, c):
        if c is True or c is False:
            return not c
        return c.args[0] if c.op == "not" else self.g.mk("not", (c,), None, ())

    def boolv(self, c):
        return Const(c) if isinstance(c, bool) else Num(c)

    # ------------------------------------------------------------------ expressions
    def ev_(self, e, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.note_unknown("expr:" + type(e).__name__)
            return self.top(st, "expr:" + type(e).__name__)
        v = m(e, st, fr)
        return v

    def ex_Constant(self, e, st, fr):
        return Const(e.value)

    def ex_Name(self, e, st, fr):
        return self.ev_name(e.id, st, fr)

    def ev_name(self, name, st, fr):
        env = fr.env
        while env is not None:
            d = st.envs.get(env)
            if d is None:
                break
            if name in d:
                v = d[name]
                if isinstance(v, Undef):
                    self.fail("UnboundLocalError", "local variable %s" % name)
                if isinstance(v, Union):
                    v = self.resolve(v, st)
                    v = self.drop_undef(v, name)
                return v
            env = d.get("__parent__")
        v = self.global_lookup(fr.mod, name, st)
        if v is not None:
            return v
        if name in BUILTINS or name in PYEXC:
            return Ext("builtins." + name)
        if name == "__name__":
            return Const(fr.mod.name)
        # a local assigned nowhere on this path
        self.fail("NameError", "name %s is not defined" % name)

    def drop_undef(self, v, name):
        if isinstance(v, Union):
            if isinstance(v.a, Undef):
                return v.b
            if isinstance(v.b, Undef):
                return v.a
        return v

    def global_lookup(self, mod, name, st):
        key = (mod.name, name)
        r = self.p.lookup(mod, name)
        if r is None:
            return None
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "func":
            return Fn(r[1], r[2])
        if r[0] == "module":
            return Mod(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "expr":
            exprs = r[1]
            if isinstance(exprs[-1], tuple) or len(exprs) > 1 and any(isinstance(x, tuple) for x in exprs):
                return self.top(st, "modaug")
            gk = ("mod", r[2].name, name)
            if gk in self.modcache:
                v = self.modcache[gk]
                # module-level lists are shared objects: materialise in this state on demand
                if isinstance(v, tuple):
                    kind, ref, payload = v
                    if kind == "list":
                        st.lists.setdefault(ref.id, payload)
                    else:
                        st.dicts.setdefault(ref.id, dict(payload))
                    return ref
                return v
            f = Frame(self.new_env(st), r[2], r[2].name + ".<module>", None, None)
            loc = (self.g.loc, self.g.fn)
            v = self.ev_(exprs[-1], st, f)
            self.g.loc, self.g.fn = loc
            if isinstance(v, LstRef):
                self.modcache[gk] = ("list", v, st.lists[v.id])
            elif isinstance(v, DctRef):
                self.modcache[gk] = ("dict", v, dict(st.dicts[v.id]))
            elif isinstance(v, Arr):
                pass
            else:
                self.modcache[gk] = v
            return v
        return None

    def new_env(self, st, parent=None):
        self.nref += 1
        st.envs[self.nref] = {} if parent is None else {"__parent__": parent}
        return self.nref

    def ex_Attribute(self, e, st, fr):
        o = self.ev_(e.value, st, fr)
        self.setloc(e, fr)
        return self.getattr(o, e.attr, st)

    def getattr(self, o, name, st):
        o = self.resolve(o, st)
        if isinstance(o, ObjRef):
            d = st.objs[o.id]
            if name in d:
                v = d[name]
                if isinstance(v, Union):
                    v = self.resolve(v, st)
                    v = self.drop_undef(v, name)
                if isinstance(v, Undef):
                    self.fail("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
                return v
            p, ci = o.cls.find_prop(name)
            if p is not None:
                return self.call_fn(Fn(p, ci.mod, None, o, ci), [], {}, st)
            f, ci = o.cls.find(name)
            if f is not None:
                if name in ci.statics:
                    return Fn(f, ci.mod, None, None, ci)
                return Fn(f, ci.mod, None, o, ci)
            a, ci = o.cls.find_attr(name)
            if a is not None:
                v = self.classattr(a, ci, st)
                if isinstance(v, Fn) and v.self is None and v.env is None:
                    return Fn(v.fdef, v.mod, None, o, v.owner or ci)
                return v
            if name == "__class__":
                return Cls(o.cls)
            if name == "__dict__":
                self.nref += 1
                st.dicts[self.nref] = dict(d)
                return DctRef(self.nref)
            self.fail("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
        if isinstance(o, Super):
            f, ci = o.obj.cls.find(name, after=o.after)
            if f is not None:
                return Fn(f, ci.mod, None, o.obj, ci)
            if name in ("__init__", "__setattr__", "__repr__"):
                return Ext("builtins.object." + name)
            self.fail("AttributeError", "super has no attribute %s" % name)
        if isinstance(o, Mod):
            v = self.global_lookup(self.p.modules[o.name], name, st)
            if v is not None:
                return v
            if o.name + "." + name in self.p.modules:
                return Mod(o.name + "." + name)
            self.fail("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Ext):
            return npmodel.ext_attr(self, o, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return Const(o.ci.name)
            f, ci = o.ci.find(name)
            if f is not None:
                return Fn(f, ci.mod, None, None, ci)
            a, ci = o.ci.find_attr(name)
            if a is not None:
                return self.classattr(a, ci, st)
            return self.top(st, "clsattr")
        if isinstance(o, Fn) and name in ("__name__", "__qualname__"):
            return Const(getattr(o.fdef, "name", "<lambda>"))
        if isinstance(o, Partial):
            if name == "func":
                return o.fn
            if name == "keywords":
                return self.newdict(st, dict(o.kwargs))
            if name == "args":
                return Tup(o.args)
        if isinstance(o, Slc):
            return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name) or self.top(st, "slice")
        if isinstance(o, (Arr, Num, Top, Const, Tup, LstRef, SetRef, DctRef, RngObj, Rng)):
            return npmodel.value_attr(self, o, name, st)
        if isinstance(o, Union):
            va, vb = o.a, o.b
            if isinstance(va, Const) and va.v is None or isinstance(va, Undef):
                return self.getattr(vb, name, st)
            if isinstance(vb, Const) and vb.v is None or isinstance(vb, Undef):
                return self.getattr(va, name, st)
            return self.merge_value(o.cond, self.getattr(va, name, st), self.getattr(vb, name, st), st, st, st)
        return self.top(st, "attr:" + name)

    def classattr(self, a, ci, st, depth=0):
        """evaluate a class-level assignment; names refer to earlier class-level names or globals"""
        env = self.new_env(st)
        for n in ast.walk(a):
            if isinstance(n, ast.Name) and n.id not in st.envs[env] and depth < 6:
                if n.id in ci.classattrs and ci.classattrs[n.id] is not a:
                    st.envs[env][n.id] = self.classattr(ci.classattrs[n.id], ci, st, depth + 1)
                elif n.id in ci.methods:
                    st.envs[env][n.id] = Fn(ci.methods[n.id], ci.mod, None, None, ci)
        return self.ev_(a, st, Frame(env, ci.mod, ci.mod.name + "." + ci.name, None, None))

    def setattr(self, o, name, v, st):
        o = self.resolve(o, st)
        if isinstance(o, ObjRef):
            old = st.objs[o.id].get(name)
            st.objs[o.id][name] = v
            self.ev(st, "setattr", (o.id, name, v, None if isinstance(v, (Fn, UserFn, Partial)) else self.node(v, st)))
            return
        self.note_unknown("setattr")

    def ex_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items = self.iter_items(self.ev_(x.value, st, fr), st)
                if items is None:
                    return self.top(st, "starred")
                out += items
            else:
                out.append(self.ev_(x, st, fr))
        return Tup(out)

    def ex_List(self, e, st, fr):
        v = self.ex_Tuple(e, st, fr)
        return self.newlist(st, v.items) if isinstance(v, Tup) else v

    def ex_Set(self, e, st, fr):
        v = self.ex_Tuple(e, st, fr)
        if not isinstance(v, Tup):
            return v
        l = self.newlist(st, v.items)
        return SetRef(l.id)

    def ex_Dict(self, e, st, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.resolve(self.ev_(v, st, fr), st)
                if isinstance(src, DctRef):
                    d.update(st.dicts[src.id])
                continue
            kv = self.ev_(k, st, fr)
            vv = self.ev_(v, st, fr)
            d[kv.v if isinstance(kv, Const) else kv] = vv
        return self.newdict(st, d)

    def ex_Starred(self, e, st, fr):
        return self.ev_(e.value, st, fr)

    def ex_JoinedStr(self, e, st, fr):
        parts = []
        ok = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Const(x.value))
            else:
                parts.append(self.ev_(x.value, st, fr))
                if x.format_spec is not None:
                    ok = False
        if ok and all(isinstance(p, Const) for p in parts):
            return Const("".join(str(p.v) for p in parts))
        return Num(self.g.mk("str", [self.node(p, st) for p in parts], None, ()))

    def ex_Lambda(self, e, st, fr):
        defaults = [self.ev_(d, st, fr) for d in e.args.defaults]
        kwd = [None if d is None else self.ev_(d, st, fr) for d in e.args.kw_defaults]
        st.envs[fr.env]["__captured__"] = TRUE
        return Fn(e, fr.mod, fr.env, None, fr.owner, (tuple(defaults), tuple(kwd)))

    def ex_NamedExpr(self, e, st, fr):
        v = self.ev_(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def ex_IfExp(self, e, st, fr):
        c = self.truth(self.ev_(e.test, st, fr), st)
        if not isinstance(c, bool):
            t = self.pc_truth(c, st)
            c = t if t is not None else c
        if c is True:
            return self.ev_(e.body, st, fr)
        if c is False:
            return self.ev_(e.orelse, st, fr)
        key = "__ifexp__"
        env = st.envs[fr.env]

        def go(x, branch):
            v = self.ev_(branch, x, fr)
            x.envs[fr.env][key] = v
            return True
        self.fork(c, lambda x: go(x, e.body), lambda x: go(x, e.orelse), st, fr)
        return st.envs[fr.env].pop(key, UNDEF)

    def ex_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        conds = []
        last = None
        for i, x in enumerate(e.values):
            if conds:
                # evaluate under the assumption that we got here (short circuit), without effects merging
                sx = st.copy()
                for c in conds:
                    self.add_pc(sx, c, isand)
                try:
                    v = self.ev_(x, sx, fr)
                except Raised:
                    return self.boolv(conds[0]) if len(conds) == 1 else self.top(st, "boolop")
                st.bufs.update({k: n for k, n in sx.bufs.items() if k not in st.bufs})
                for k, n in sx.lists.items():
                    st.lists.setdefault(k, n)
            else:
                v = self.ev_(x, st, fr)
            t = self.truth(v, st)
            if not isinstance(t, bool):
                q = self.pc_truth(t, st)
                t = q if q is not None else t
            if isinstance(t, bool):
                if t is not isand:
                    # short-circuits here
                    if not conds:
                        return v
                    if i == len(e.values) - 1 or True:
                        return Const(t) if not conds else self.boolv(False if isand else True)
                last = v
                continue
            conds.append(t)
            last = v
        if not conds:
            return last
        if len(conds) == 1:
            return self.boolv(conds[0]) if last is None or isinstance(last, (Const, Num)) else self.boolv(conds[0])
        return Num(self.g.mk("and" if isand else "or", conds, None, ()))

    def ex_UnaryOp(self, e, st, fr):
        v = self.resolve(self.ev_(e.operand, st, fr), st)
        self.setloc(e, fr)
        op = type(e.op).__name__
        if op == "Not":
            return self.boolv(self.negate(self.truth(v, st)))
        if isinstance(v, Const) and isinstance(v.v, (int, float, complex)):
            try:
                return Const({"USub": lambda a: -a, "UAdd": lambda a: +a, "Invert": lambda a: ~a}[op](v.v))
            except TypeError:
                self.fail("TypeError", "bad operand for unary")
        if isinstance(v, Const):
            self.fail("TypeError", "bad operand for unary %s: %r" % (op, v.v))
        if isinstance(v, Num) and v.node.op == "poly" and op == "USub":
            return Num(self.g.pmul(v.node, self.g.const(-1)))
        n = self.node(v, st)
        if op == "USub":
            return self.arr(st, npmodel.unary(self, "neg", n))
        if op == "Invert":
            return self.arr(st, npmodel.unary(self, "invert", n))
        return v

    def ex_BinOp(self, e, st, fr):
        a = self.ev_(e.left, st, fr)
        b = self.ev_(e.right, st, fr)
        self.setloc(e, fr)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        return npmodel.binop(self, op, a, b, st)

    def ex_Compare(self, e, st, fr):
        left = self.ev_(e.left, st, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev_(r, st, fr)
            self.setloc(e, fr)
            res.append(npmodel.compare(self, type(op).__name__, self.resolve(left, st), self.resolve(right, st), st))
            left = right
        if len(res) == 1:
            return res[0]
        ts = [self.truth(r, st) for r in res]
        if any(t is False for t in ts):
            return FALSE
        ts = [t for t in ts if t is not True]
        if not ts:
            return TRUE
        return Num(ts[0]) if len(ts) == 1 else Num(self.g.mk("and", ts, None, ()))

    def ex_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.ev_(x, st, fr)
        return Slc(f(e.lower), f(e.upper), f(e.step))

    def ex_Subscript(self, e, st, fr):
        b = self.ev_(e.value, st, fr)
        i = self.ev_(e.slice, st, fr)
        self.setloc(e, fr)
        return self.getitem(b, i, st)

    def getitem(self, b, i, st):
        b = self.resolve(b, st)
        i = self.resolve(i, st)
        return npmodel.getitem(self, b, i, st)

    def setitem(self, b, i, v, st):
        b = self.resolve(b, st)
        i = self.resolve(i, st)
        npmodel.setitem(self, b, i, v, st)

    def write(self, a, newnode, st, how):
        """in-place overwrite of the array view `a` with newnode"""
        for r in self.roots(a.buf):
            own = self.owner.get(r)
            self.ev(st, "write", (r, own, how))
        content = st.bufs.get(a.buf)
        if content is None:
            return
        if a.path:
            extra = []
            for s in a.path:
                if s[0] == "index":
                    extra += s[2]
                elif s[0] in ("reshape", "bcast"):
                    extra += s[1]
            new = self.g.mk("viewstore", [content, newnode] + extra, tuple(npmodel.step_key(s) for s in a.path), content.shape)
        else:
            new = newnode
            if new.shape != content.shape and content.shape is not None:
                new = self.g.mk("fill", (content, newnode), None, content.shape)
        st.bufs[a.buf] = new
        for r in self.roots(a.buf):
            if r != a.buf and r in st.bufs:
                st.bufs[r] = self.g.mk("maywrite", (st.bufs[r], newnode), None, st.bufs[r].shape)

    def comp(self, e, st, fr, kind):
        lst = self.newlist(st, ())
        env = self.new_env(st, fr.env)
        f2 = Frame(env, fr.mod, fr.fn, fr.owner, fr.selfv)
        dct = {} if kind == "dict" else None

        def rec(gi, x):
            if gi == len(e.generators):
                if kind == "dict":
                    k = self.ev_(e.key, x, f2)
                    v = self.ev_(e.value, x, f2)
                    x.lists[lst.id] = x.lists[lst.id] + (Tup((k, v)),)
                else:
                    v = self.ev_(e.elt, x, f2)
                    x.lists[lst.id] = x.lists[lst.id] + (v,)
                return True
            gen = e.generators[gi]
            it = self.ev_(gen.iter, x, f2)
            items = self.iter_items(it, x)

            def body(y):
                for c in gen.ifs:
                    t = self.truth(self.ev_(c, y, f2), y)
                    if not isinstance(t, bool):
                        q = self.pc_truth(t, y)
                        t = q if q is not None else t
                    if t is False:
                        return True
                    if t is not True:
                        return self.fork(t, lambda z: rec(gi + 1, z), lambda z: True, y, f2)
                return rec(gi + 1, y)
            if items is not None and not any(isinstance(q, Rep) for q in items) and len(items) <= 64:
                for q in items:
                    self.assign(gen.target, q, x, f2)
                    body(x)
                return True

            def head(y, lid):
                cnt, el = self.iter_symbolic(it, y, lid)
                self.assign(gen.target, el, y, f2)
                return cnt
            return self.sym_loop(head, body, x, f2, e)
        rec(0, st)
        if kind == "dict":
            d = {}
            for t in st.lists[lst.id]:
                if isinstance(t, Tup) and isinstance(t.items[0], Const):
                    d[t.items[0].v] = t.items[1]
                elif isinstance(t, Tup):
                    d[t.items[0]] = t.items[1]
            return self.newdict(st, d)
        return SetRef(lst.id) if kind == "set" else lst

    def ex_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def ex_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def ex_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def ex_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    def ex_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.ev_(e.value, st, fr)
        if fr.yields is not None:
            st.lists[fr.yields] = st.lists[fr.yields] + (v,)
        return NONE

    def ex_YieldFrom(self, e, st, fr):
        v = self.ev_(e.value, st, fr)
        if fr.yields is not None:
            items = self.iter_items(v, st)
            if items is None:
                lid = "Y%d" % self.g.fresh()
                cnt, el = self.iter_symbolic(v, st, lid)
                items = [Rep(lid, cnt, el)]
            st.lists[fr.yields] = st.lists[fr.yields] + tuple(items)
        return NONE

    # ------------------------------------------------------------------ calls
    def ex_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.envs[fr.env]:
            if not e.args:
                return Super(fr.selfv, fr.owner)
            c = self.ev_(e.args[0], st, fr)
            o = self.ev_(e.args[1], st, fr)
            return Super(o, c.ci if isinstance(c, Cls) else fr.owner)
        f = self.ev_(e.func, st, fr)
        args = []
        unknown_star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev_(a.value, st, fr)
                items = self.iter_items(v, st)
                if items is None or any(isinstance(x, Rep) for x in items):
                    unknown_star = True
                    args.append(v)
                else:
                    args += items
            else:
                args.append(self.ev_(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev_(k.value, st, fr)
            if k.arg is None:
                d = self.resolve(v, st)
                if isinstance(d, DctRef):
                    for kk, vv in st.dicts[d.id].items():
                        kw[kk] = vv
                continue
            kw[k.arg] = v
        self.setloc(e, fr)
        if unknown_star and not isinstance(self.resolve(f, st), (Ext, BM)):
            return self.top(st, "starcall", args)
        self.callsites += 1
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        f = self.resolve(f, st)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, st)
        if isinstance(f, Cls):
            return self.construct(f.ci, args, kw, st)
        if isinstance(f, UserFn):
            return self.call_user(f, args, kw, st)
        if isinstance(f, Ext):
            return npmodel.call_ext(self, f.name, args, kw, st)
        if isinstance(f, BM):
            return npmodel.call_method(self, f.obj, f.name, args, kw, st)
        if isinstance(f, ObjRef):
            m, ci = f.cls.find("__call__")
            if m is None:
                self.fail("TypeError", "%s object is not callable" % f.cls.name)
            return self.call_fn(Fn(m, ci.mod, None, f, ci), args, kw, st)
        if isinstance(f, Const):
            self.fail("TypeError", "%r is not callable" % (f.v,))
        if isinstance(f, Union):
            key = "__ucall__"
            fr = self.frames[-1] if self.frames else None
            if isinstance(f.a, Const) or isinstance(f.a, Undef):
                return self.call(f.b, args, kw, st)
            if isinstance(f.b, Const) or isinstance(f.b, Undef):
                return self.call(f.a, args, kw, st)
            if fr is None:
                return self.top(st, "unioncall", args)

            def go(x, fn):
                x.envs[fr.env][key] = self.call(fn, args, kw, x)
                return True
            self.fork(f.cond, lambda x: go(x, f.a), lambda x: go(x, f.b), st, fr)
            return st.envs[fr.env].pop(key, UNDEF)
        return self.top(st, "call", [a for a in args])

    def call_user(self, f, args, kw, st):
        nodes = [self.node(a, st) for a in args] + [self.node(kw[k], st) for k in sorted(kw)]
        shape = None
        if f.contract is not None:
            r = f.contract(self, st, args, kw, nodes)
            if isinstance(r, V):
                self.ev(st, "usercall", (f.name, tuple(nodes), tuple(args)))
                return r
            shape = r
        self.ev(st, "usercall", (f.name, tuple(nodes), tuple(args)))
        n = self.g.mk("user", nodes, f.name, shape)
        if shape is None:
            return Top(n)
        return self.arr(st, n)

    def construct(self, ci, args, kw, st):
        o = self.newobj(st, ci)
        f, owner = ci.find("__init__")
        if f is not None:
            self.call_fn(Fn(f, owner.mod, None, o, owner), args, kw, st)
        return o

    def qual(self, f):
        name = getattr(f.fdef, "name", "<lambda>")
        if f.owner is not None and (f.self is not None or f.env is None):
            return "%s.%s.%s" % (f.mod.name, f.owner.name, name)
        return "%s.%s" % (f.mod.name, name)

    def bind(self, f, args, kw, st, env):
        a = f.fdef.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if f.self is not None:
            args = [f.self] + args
        name = getattr(f.fdef, "name", "<lambda>")
        if len(args) > len(params):
            if a.vararg is None:
                self.fail("TypeError", "%s() takes %d positional arguments but %d were given" % (name, len(params), len(args)))
            vals[a.vararg.arg] = Tup(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = Tup(())
        for p, v in zip(params, args):
            vals[p] = v
        kwnames = {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in vals and k in params:
                self.fail("TypeError", "%s() got multiple values for argument %r" % (name, k))
            if k in params or k in kwnames:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.fail("TypeError", "%s() got an unexpected keyword argument %r" % (name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.newdict(st, extra)
        if f.defaults is not None:
            dvals, kdvals = f.defaults
        else:
            dvals = kdvals = None
        nd = len(a.defaults)
        fr0 = Frame(env, f.mod, f.mod.name + ".<module>", None, None)
        for i, p in enumerate(params):
            if p not in vals:
                j = i - (len(params) - nd)
                if j >= 0:
                    if dvals is not None:
                        vals[p] = dvals[j]
                    else:
                        e2 = Frame(self.new_env(st), f.mod, f.mod.name + ".<module>", None, None)
                        vals[p] = self.ev_(a.defaults[j], st, e2)
                        st.envs.pop(e2.env, None)
                else:
                    self.fail("TypeError", "%s() missing required argument %r" % (name, p))
        for i, p in enumerate(a.kwonlyargs):
            if p.arg not in vals:
                d = a.kw_defaults[i]
                if d is None:
                    self.fail("TypeError", "%s() missing required keyword argument %r" % (name, p.arg))
                if kdvals is not None:
                    vals[p.arg] = kdvals[i]
                else:
                    e2 = Frame(self.new_env(st), f.mod, f.mod.name + ".<module>", None, None)
                    vals[p.arg] = self.ev_(d, st, e2)
                    st.envs.pop(e2.env, None)
        return vals

    def call_fn(self, f, args, kw, st):
        q = self.qual(f)
        if self.depth > self.MAXDEPTH or self.stackfn.count(q) > 2:
            self.note_unknown("recursion:" + q)
            return self.top(st, "recursion", args)
        loc = (self.g.loc, self.g.fn)
        env = self.new_env(st, f.env)
        vals = self.bind(f, args, kw, st, env)
        # defaults are re-evaluated in a scratch scope; keep only parameter bindings here
        st.envs[env].update(vals)
        owner = f.owner
        fr = Frame(env, f.mod, q, owner, f.self)
        self.entered.add(q)
        self.frames.append(fr)
        self.stackfn.append(q)
        self.depth += 1
        self.g.loc, self.g.fn = (os.path.relpath(f.mod.path, self.p.root), f.fdef.lineno), q
        self.ev(st, "enter", (q, dict(vals), f.self.id if isinstance(f.self, ObjRef) else None))
        try:
            if isinstance(f.fdef, ast.Lambda):
                ret = self.ev_(f.fdef.body, st, fr)
            else:
                gen = is_generator(f.fdef)
                if gen:
                    lst = self.newlist(st, ())
                    fr.yields = lst.id
                ok = self.exec_block(f.fdef.body, st, fr)
                flows = list(fr.returns)
                if ok:
                    flows.append((st.copy(), NONE))
                if not flows:
                    # all paths raised inside nested branches
                    raise Raised("Exception", "no normal completion", self.g.loc, True)
                if len(flows) == 1:
                    s1, ret = flows[0]
                    st.assign(s1)
                else:
                    for s1, v in flows:
                        s1.envs.setdefault(env, {})["__ret__"] = v
                    m = self.merge_all([s for s, _ in flows])
                    st.assign(m)
                    ret = st.envs[env].pop("__ret__")
                    ret = self.resolve(ret, st)
                if gen:
                    ret = lst
        finally:
            self.depth -= 1
            self.stackfn.pop()
            self.frames.pop()
            self.g.loc, self.g.fn = loc
        self.ev(st, "exit", (q, ret))
        e = st.envs.get(env)
        if e is not None and "__captured__" not in e:
            del st.envs[env]
        return ret


def is_generator(fdef):
    r = getattr(fdef, "_isgen", None)
    if r is None:
        r = False
        todo = list(fdef.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(x))
        fdef._isgen = r
    return r
