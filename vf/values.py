"""Abstract Python values manipulated by the interprocedural value-flow builder."""
from __future__ import annotations


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and (o.v == self.v)

    def __hash__(self):
        return hash((type(self.v), self.v))

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Num(V):
    """immutable symbolic scalar"""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, Num) and o.node is self.node

    def __hash__(self):
        return hash(("Num", self.node.id))

    def __repr__(self):
        return "Num(%r)" % self.node


class Arr(V):
    """reference to a buffer seen through a view path"""
    __slots__ = ("buf", "path")

    def __init__(self, buf, path=()):
        self.buf = buf
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Arr) and o.buf == self.buf and o.path == self.path

    def __hash__(self):
        return hash(("Arr", self.buf, self.path))

    def __repr__(self):
        return "Arr(%d%s)" % (self.buf, self.path or "")


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("Tup", self.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Rep(V):
    """list item repeated `count` times (produced by a symbolic loop)"""
    __slots__ = ("loop", "count", "val")

    def __init__(self, loop, count, val):
        self.loop = loop
        self.count = count
        self.val = val

    def __eq__(self, o):
        return isinstance(o, Rep) and (o.loop, o.count, o.val) == (self.loop, self.count, self.val)

    def __hash__(self):
        return hash(("Rep", self.loop))


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return type(o) is type(self) and o.id == self.id

    def __hash__(self):
        return hash((type(self).__name__, self.id))

    def __repr__(self):
        return "%s(%d)" % (type(self).__name__, self.id)


class LstRef(Ref):
    __slots__ = ()


class SetRef(Ref):
    __slots__ = ()


class DctRef(Ref):
    __slots__ = ()


class ObjRef(Ref):
    __slots__ = ("cls",)

    def __init__(self, id, cls):
        self.id = id
        self.cls = cls


class Fn(V):
    __slots__ = ("fdef", "mod", "env", "self", "owner", "defaults")

    def __init__(self, fdef, mod, env=None, self_=None, owner=None, defaults=None):
        self.fdef = fdef
        self.mod = mod
        self.env = env
        self.self = self_
        self.owner = owner
        self.defaults = defaults

    def __eq__(self, o):
        return (isinstance(o, Fn) and o.fdef is self.fdef and o.env == self.env
                and o.self == self.self and o.owner is self.owner)

    def __hash__(self):
        return hash(("Fn", id(self.fdef), self.env))

    def __repr__(self):
        return "Fn(%s)" % getattr(self.fdef, "name", "<lambda>")


class Cls(V):
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(("Cls", id(self.ci)))


class Mod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("Mod", self.name))


class Ext(V):
    """external (non-ssspy) function / module / type, by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class BM(V):
    """bound builtin method"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BM) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(("BM", self.name))


class Partial(V):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = tuple(args)
        self.kwargs = tuple(sorted(kwargs.items(), key=lambda t: t[0]))

    def __eq__(self, o):
        return isinstance(o, Partial) and (o.fn, o.args, o.kwargs) == (self.fn, self.args, self.kwargs)

    def __hash__(self):
        return hash(("Partial", self.fn))


class UserFn(V):
    """user-supplied callable of unknown behaviour; `contract(interp, st, nodes)->shape`"""
    __slots__ = ("name", "contract")

    def __init__(self, name, contract=None):
        self.name = name
        self.contract = contract

    def __eq__(self, o):
        return isinstance(o, UserFn) and o.name == self.name

    def __hash__(self):
        return hash(("UserFn", self.name))

    def __repr__(self):
        return "UserFn(%s)" % self.name


class Slc(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Slc) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(("Slc", self.lo, self.hi, self.step))


class Rng(V):
    """range(lo, hi, step) with symbolic bounds"""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Rng) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(("Rng", self.lo, self.hi, self.step))


class Zip(V):
    """zip/enumerate/reversed over iterables"""
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind = kind
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Zip) and (o.kind, o.items) == (self.kind, self.items)

    def __hash__(self):
        return hash(("Zip", self.kind))


class RngObj(V):
    """a random generator (numpy.random.Generator); `origin` names where it came from"""
    __slots__ = ("origin",)

    def __init__(self, origin):
        self.origin = origin

    def __eq__(self, o):
        return isinstance(o, RngObj) and o.origin == self.origin

    def __hash__(self):
        return hash(("RngObj", self.origin))

    def __repr__(self):
        return "RngObj(%s)" % (self.origin,)


class Union(V):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Union) and o.cond is self.cond and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(("Union", self.cond.id if self.cond else 0))

    def __repr__(self):
        return "Union(%r,%r,%r)" % (self.cond, self.a, self.b)


class Undef(V):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7


UNDEF = Undef()


class Super(V):
    __slots__ = ("obj", "after")

    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class Top(V):
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, Top) and o.node is self.node

    def __hash__(self):
        return hash(("Top", self.node.id))

    def __repr__(self):
        return "Top(%r)" % self.node


class Ev:
    __slots__ = ("kind", "data", "loc", "fn", "pc")

    def __init__(self, kind, data, loc, fn, pc):
        self.kind, self.data, self.loc, self.fn, self.pc = kind, data, loc, fn, pc

    def __repr__(self):
        return "<%s %r @%s %s>" % (self.kind, self.data, self.loc, self.fn)


class State:
    __slots__ = ("envs", "objs", "bufs", "lists", "dicts", "events", "pc")

    def __init__(self):
        self.envs = {}
        self.objs = {}
        self.bufs = {}
        self.lists = {}
        self.dicts = {}
        self.events = []
        self.pc = ()

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.bufs = dict(self.bufs)
        s.lists = dict(self.lists)
        s.dicts = {k: dict(v) for k, v in self.dicts.items()}
        s.events = list(self.events)
        s.pc = self.pc
        return s

    def assign(self, o):
        self.envs, self.objs, self.bufs = o.envs, o.objs, o.bufs
        self.lists, self.dicts, self.events, self.pc = o.lists, o.dicts, o.events, o.pc
