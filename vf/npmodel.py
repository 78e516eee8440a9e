"""Transfer functions: Python builtins and the numpy/scipy subset, as value-graph ops."""
from __future__ import annotations

import math

from .values import *  # noqa

PI = math.pi


# ---------------------------------------------------------------- shapes
def join_shape(a, b):
    if a is None or b is None or len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        out.append(x if x is y else None)
    if any(o is None for o in out):
        return None if all(o is None for o in out) and len(out) > 9 else tuple(
            o if o is not None else _unkdim(x, y) for o, x, y in zip(out, a, b))
    return tuple(out)


def _unkdim(x, y):
    # keep the rank; dimension unknown: reuse the first (recorded as a join)
    return x


def one(I, d):
    return I.g.int_value(d) == 1


def bcast(I, s1, s2, what="broadcast"):
    if s1 is None or s2 is None:
        return None
    n = max(len(s1), len(s2))
    a = (None,) * (n - len(s1)) + tuple(s1)
    b = (None,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x is None:
            out.append(y)
        elif y is None:
            out.append(x)
        elif x is y:
            out.append(x)
        elif one(I, x):
            out.append(y)
        elif one(I, y):
            out.append(x)
        else:
            dim_mismatch(I, x, y, what)
            out.append(x)
    return tuple(out)


def dim_mismatch(I, x, y, what):
    ix, iy = I.g.int_value(x), I.g.int_value(y)
    if ix is not None and iy is not None:
        I.fail("ValueError", "%s: %d vs %d" % (what, ix, iy))
    if soft_dim(x) or soft_dim(y):
        return
    if not I.quiet:
        I.issues.append(("shape", what, (x, y), I.g.loc, I.g.fn))


def soft_dim(d):
    if d.op == "poly":
        return any(a.op not in ("sym", "loopidx") for a in d.args)
    return d.op not in ("sym",)


def unkdim(I):
    return I.g.poly({(I.g.mk_unique("unkdim", (), None, ()),): 1})


def prod(I, dims):
    r = I.g.const(1)
    for d in dims:
        r = I.g.pmul(r, d)
    return r


def ceil_div(I, a, b):
    q = I.g.pdiv(a, b)
    if q is not None:
        return q
    return I.g.poly({(I.g.mk("ceildiv", (a, b), None, ()),): 1})


# ---------------------------------------------------------------- dtype (memoised on meta)
REALOPS = {"abs", "real", "imag", "angle", "norm", "logdet", "eigval", "svals", "slogdet_sign_abs"}
INTOPS = {"permelem", "argsort", "argmax", "argmin", "poly", "loopidx", "sym", "atom", "len", "floordiv", "arange"}


def dt(n, depth=0):
    """'c' complex, 'f' real float, 'i' int, 'b' bool, 's' str, None unknown"""
    if n.meta is not None and "dt" in n.meta:
        return n.meta["dt"]
    if depth > 400:
        return None
    op = n.op
    r = None
    if op == "const":
        t = n.attr[0]
        r = {"int": "i", "bool": "b", "float": "f", "complex": "c", "str": "s"}.get(t)
    elif op in INTOPS:
        r = "i"
    elif op in ("cmp", "not", "and", "or", "isnan", "all", "any", "isnone", "truth", "logical"):
        r = "b"
    elif op in REALOPS:
        r = "f"
    elif op in ("eye", "zeros", "ones", "full", "empty"):
        r = n.attr[0] if n.attr and n.attr[0] in ("c", "f", "i", "b") else ("f" if n.attr is None or n.attr[0] is None else None)
    elif op == "rng":
        r = "f"
    elif op == "loopphi":
        if n.meta is None:
            n.meta = {}
        n.meta["dt"] = dt(n.args[0], depth + 1)  # optimistic, revisited by analyses
        r = n.meta["dt"]
        if len(n.args) > 1:
            b = dt(n.args[1], depth + 1)
            if b == "c" or r == "c":
                r = "c"
        n.meta["dt"] = r
        return r
    elif op in ("store", "viewstore", "maskstore", "maywrite", "fill"):
        r = dt(n.args[0], depth + 1)  # destination dtype is fixed
    elif op == "phi":
        r = jdt([dt(a, depth + 1) for a in n.args[1:]])
    elif op == "where":
        r = jdt([dt(a, depth + 1) for a in n.args[1:]])
    elif op == "cast":
        r = n.attr if n.attr in ("c", "f", "i", "b") else None
    elif op in ("index", "gather", "mask", "take", "takealong", "repeatn"):
        r = dt(n.args[0], depth + 1)
    elif op == "div":
        r = jdt([dt(a, depth + 1) for a in n.args])
        if r in ("i", "b"):
            r = "f"
    elif op in ("sqrt", "exp", "log", "cos", "sin", "arccos", "cbrt", "mean", "std", "var", "inv", "solve"):
        r = jdt([dt(a, depth + 1) for a in n.args])
        if r in ("i", "b"):
            r = "f"
        if op in ("std", "var"):
            r = "f"
    elif op in ("user",):
        r = (n.meta or {}).get("dt")
    elif op in ("unk", "input", "extcall", "iterelem"):
        r = None
    elif n.args:
        r = jdt([dt(a, depth + 1) for a in n.args if a.op not in ("sym",)])
    if n.meta is None:
        n.meta = {}
    n.meta["dt"] = r
    return r


ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


def jdt(ds):
    if "c" in ds:
        return "c"
    if any(d is None or d == "s" for d in ds) or not ds:
        return None
    return max(ds, key=lambda d: ORDER[d])


# ---------------------------------------------------------------- structural steps (views)
def apply_step(I, n, step):
    k = step[0]
    if k == "transpose":
        return transpose(I, n, step[1])
    if k == "index":
        return index(I, n, step[1], step[2])
    if k == "expand":
        return expand(I, n, step[1])
    if k == "squeeze":
        return squeeze(I, n, step[1])
    if k == "reshape":
        return reshape(I, n, step[1])
    if k == "unary":
        return unary(I, step[1], n)
    if k == "diagonal":
        return diagonal(I, n, *step[1])
    if k == "bcast":
        return broadcast_to(I, n, step[1])
    return n


def step_key(s):
    if s[0] == "index":
        return ("index", s[1], len(s[2]))
    if s[0] in ("reshape", "bcast"):
        return (s[0], len(s[1]))
    return s


def view(I, v, step, st):
    """view of value v by a structural step (keeps the buffer for aliasing)"""
    n = apply_step(I, I.node(v, st), step)
    if isinstance(v, Arr):
        if n.shape == () and n.op != "loopphi":
            return Num(n)  # element access yields an immutable scalar
        return Arr(v.buf, v.path + (step,))
    return I.arr(st, n)


def transpose(I, n, perm):
    if n.shape is None:
        return I.g.mk("transpose", (n,), tuple(perm) if perm is not None else None, None)
    nd = len(n.shape)
    if perm is None:
        perm = tuple(range(nd))[::-1]
    perm = tuple(p % nd if nd else p for p in perm)
    if len(perm) != nd or sorted(perm) != list(range(nd)):
        I.fail("ValueError", "axes don't match array")
    if perm == tuple(range(nd)):
        return n
    if n.op == "transpose":
        inner = n.attr
        return transpose(I, n.args[0], tuple(inner[p] for p in perm))
    return I.g.mk("transpose", (n,), perm, tuple(n.shape[p] for p in perm))


def expand(I, n, axes):
    """insert new length-1 axes at the given (result) positions"""
    axes = tuple(sorted(axes))
    if not axes:
        return n
    if n.shape is None:
        return I.g.mk("expand", (n,), axes, None)
    out = list(n.shape)
    for a in axes:
        out.insert(a, I.g.const(1))
    return I.g.mk("expand", (n,), axes, tuple(out))


def squeeze(I, n, axes):
    if n.shape is None:
        return I.g.mk("squeeze", (n,), axes, None)
    nd = len(n.shape)
    if axes is None:
        axes = tuple(i for i, d in enumerate(n.shape) if one(I, d))
    axes = tuple(sorted(a % nd for a in axes))
    for a in axes:
        if not one(I, n.shape[a]):
            iv = I.g.int_value(n.shape[a])
            if iv is not None:
                I.fail("ValueError", "squeeze of axis of size %s" % iv)
            I.issues.append(("shape", "squeeze", (n.shape[a], I.g.const(1)), I.g.loc, I.g.fn))
    if n.op == "expand" and set(axes) <= set(n.attr):
        rest = []
        for a in n.attr:
            if a not in axes:
                rest.append(a - sum(1 for s in axes if s < a))
        return expand(I, n.args[0], rest)
    out = tuple(d for i, d in enumerate(n.shape) if i not in axes)
    return I.g.mk("squeeze", (n,), axes, out)


def reshape(I, n, shape):
    shape = tuple(shape)
    if n.shape is not None:
        neg = [i for i, d in enumerate(shape) if I.g.int_value(d) == -1]
        if len(neg) == 1:
            tot = prod(I, n.shape)
            rest = prod(I, [d for i, d in enumerate(shape) if i != neg[0]])
            q = I.g.pdiv(tot, rest)
            if q is None:
                q = unkdim(I) if True else None
            shape = tuple(q if i == neg[0] else d for i, d in enumerate(shape))
        elif not neg:
            a, b = prod(I, n.shape), prod(I, shape)
            if a is not b:
                ia, ib = I.g.int_value(a), I.g.int_value(b)
                if ia is not None and ib is not None:
                    I.fail("ValueError", "cannot reshape")
                if not soft_dim(a) and not soft_dim(b):
                    I.issues.append(("shape", "reshape", (a, b), I.g.loc, I.g.fn))
        if shape == n.shape:
            return n
        # pure axis insertion / removal of unit axes
        core = tuple(d for d in shape if not one(I, d))
        if core == tuple(n.shape) and len(shape) > len(n.shape):
            return expand(I, n, [i for i, d in enumerate(shape) if one(I, d)])
    if n.op == "reshape":
        base = n.args[0]
        if base.shape == shape:
            return base
    return I.g.mk("reshape", (n,), tuple(d.id for d in shape), shape)


def broadcast_to(I, n, shape):
    if n.shape == tuple(shape):
        return n
    return I.g.mk("bcast", (n,), tuple(d.id for d in shape), tuple(shape))


def index(I, n, spec, idx):
    """spec: per-axis 'f' full, ('i',k) integer idx[k], ('s',lo,hi,step) slices into idx or None"""
    if all(s == "f" for s in spec):
        return n
    if n.op == "store" and n.attr == spec and tuple(n.args[2:]) == tuple(idx):
        v = n.args[1]
        sh = index_shape(I, n.shape, spec, idx)
        if v.shape == sh:
            return v
    sh = index_shape(I, n.shape, spec, idx)
    if n.op == "list" and len(spec) >= 1 and isinstance(spec[0], tuple) and spec[0][0] == "i":
        k = I.g.int_value(idx[spec[0][1]])
        if k is not None and -len(n.args) <= k < len(n.args) and n.shape is not None:
            base = n.args[k]
            return index(I, base, spec[1:], idx) if len(spec) > 1 else base
    return I.g.mk("index", (n,) + tuple(idx), spec, sh)


def index_shape(I, shape, spec, idx):
    if shape is None:
        return None
    out = []
    for d, s in zip(shape, spec):
        if s == "f":
            out.append(d)
        elif s[0] == "i":
            k = I.g.int_value(idx[s[1]])
            dv = I.g.int_value(d)
            if k is not None and dv is not None and not (-dv <= k < dv):
                I.fail("IndexError", "index %d out of bounds for axis of size %d" % (k, dv))
            continue
        else:
            lo = idx[s[1]] if s[1] is not None else None
            hi = idx[s[2]] if s[2] is not None else None
            st = idx[s[3]] if s[3] is not None else None
            sp = 1 if st is None else I.g.int_value(st)
            if sp is None:
                out.append(unkdim_of(I, d, s, idx))
                continue
            if sp == -1 and lo is None and hi is None:
                out.append(d)
                continue
            lo_ = I.g.const(0) if lo is None else norm_bound(I, lo, d)
            hi_ = d if hi is None else norm_bound(I, hi, d)
            if lo_ is None or hi_ is None:
                out.append(unkdim_of(I, d, s, idx))
                continue
            dv, hv, lv = I.g.int_value(d), I.g.int_value(hi_), I.g.int_value(lo_)
            if dv is not None and hv is not None:
                hi_ = I.g.const(max(0, min(hv, dv)))
            if dv is not None and lv is not None:
                lo_ = I.g.const(max(0, min(lv, dv)))
            cnt = I.g.padd(hi_, lo_, -1)
            cv = I.g.int_value(cnt)
            if cv is not None and cv < 0:
                cnt = I.g.const(0)
            if sp != 1:
                cnt = ceil_div(I, cnt, st) if sp > 0 else unkdim_of(I, d, s, idx)
            out.append(cnt)
    out += list(shape[len(spec):])
    return tuple(out)


def unkdim_of(I, d, s, idx):
    return I.g.poly({(I.g.mk("slicelen", (d,) + tuple(idx), s, ()),): 1})


def norm_bound(I, b, d):
    v = I.g.int_value(b)
    if v is not None:
        return I.g.padd(d, b) if v < 0 else b
    if b.op == "poly":
        # symbolic bound: assume within range; negative leading constants are not used
        return b
    return None


def diagonal(I, n, offset, a1, a2):
    sh = None
    if n.shape is not None:
        nd = len(n.shape)
        a1, a2 = a1 % nd, a2 % nd
        sh = tuple(d for i, d in enumerate(n.shape) if i not in (a1, a2)) + (n.shape[a1],)
    return I.g.mk("diagonal", (n,), (a1, a2), sh)


# ---------------------------------------------------------------- elementwise
def unary(I, op, n):
    g = I.g
    if op == "neg":
        if n.op == "neg":
            return n.args[0]
        if n.op == "poly":
            return g.pmul(n, g.const(-1))
        if n.op == "const" and n.attr[0] in ("float", "complex"):
            return g.const(-n.attr[1])
    if op == "conj":
        if n.op == "conj":
            return n.args[0]
        if dt(n) in ("f", "i", "b"):
            return n
        if n.op == "transpose":
            return transpose(I, unary(I, "conj", n.args[0]), n.attr)
        if n.op == "expand":
            return expand(I, unary(I, "conj", n.args[0]), n.attr)
    if op == "real" and dt(n) in ("f", "i", "b"):
        return n
    if op == "abs" and n.op == "abs":
        return n
    if op == "abs" and n.op == "conj":
        return unary(I, "abs", n.args[0])
    if n.op == "const" and n.attr[0] in ("int", "float") and op in ("sqrt", "exp", "log", "abs", "cos", "sin"):
        x = n.attr[1]
        try:
            return g.const(float({"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "abs": abs, "cos": math.cos,
                                  "sin": math.sin}[op](x)))
        except Exception:
            pass
    if op == "square":
        return binary(I, "pow", n, g.const(2))
    if op == "reciprocal":
        return binary(I, "div", g.const(1), n)
    return g.mk(op, (n,), None, n.shape)


def fconst(n, g):
    if n.op == "const" and n.attr[0] in ("int", "float", "complex", "bool"):
        return n.attr[1]
    if n.op == "poly":
        return g.int_value(n)
    return None


def isint_node(n):
    return n.op == "poly"


def binary(I, op, a, b):
    g = I.g
    if isint_node(a) and isint_node(b):
        if op == "add":
            return g.padd(a, b)
        if op == "sub":
            return g.padd(a, b, -1)
        if op == "mul":
            return g.pmul(a, b)
        if op == "floordiv":
            x, y = g.int_value(a), g.int_value(b)
            if x is not None and y:
                return g.const(x // y)
            qr = g.pdivmod(a, b)
            if qr is not None:
                return qr[0]
            return g.poly({(g.mk("floordiv", (a, b), None, ()),): 1})
        if op == "mod":
            x, y = g.int_value(a), g.int_value(b)
            if x is not None and y:
                return g.const(x % y)
            qr = g.pdivmod(a, b)
            if qr is not None:
                return qr[1]
            return g.poly({(g.mk("atom", (a, b), "mod", ()),): 1})
        if op == "pow":
            x, y = g.int_value(a), g.int_value(b)
            if x is not None and y is not None and 0 <= y < 64:
                return g.const(x ** y)
    ca, cb = fconst(a, g), fconst(b, g)
    if ca is not None and cb is not None and a.shape == () and b.shape == ():
        try:
            r = {"add": lambda: ca + cb, "sub": lambda: ca - cb, "mul": lambda: ca * cb, "div": lambda: ca / cb,
                 "pow": lambda: ca ** cb, "mod": lambda: ca % cb, "floordiv": lambda: ca // cb}.get(op)
            if r is not None:
                r = r()
                return g.const(r)
        except ZeroDivisionError:
            I.issues.append(("zerodiv", "constant", None, I.g.loc, I.g.fn))
        except Exception:
            pass
    shape = bcast(I, a.shape, b.shape, op)
    if op == "pow" and cb == 1 and a.shape is not None:
        return a
    return g.mk(op, (a, b), None, shape)


OPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod",
       "MatMult": "matmul", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "LShift": "lshift",
       "RShift": "rshift"}


def binop(I, op, a, b, st):
    name = OPS[op]
    g = I.g
    for x in (a, b):
        if isinstance(x, Const) and x.v is None and not (name == "bitor"):
            I.fail("TypeError", "unsupported operand type(s) for %s: NoneType" % name)
        if isinstance(x, Undef):
            return I.top(st, "undef")
    if isinstance(a, Const) and isinstance(b, Const):
        x, y = a.v, b.v
        try:
            if name == "add":
                return Const(x + y)
            if name == "sub":
                return Const(x - y)
            if name == "mul":
                return Const(x * y)
            if name == "div":
                return Const(x / y)
            if name == "pow":
                return Const(x ** y)
            if name == "floordiv":
                return Const(x // y)
            if name == "mod":
                return Const(x % y)
            if name == "bitand":
                return Const(x & y)
            if name == "bitor":
                return Const(x | y)
            if name == "lshift":
                return Const(x << y)
            if name == "rshift":
                return Const(x >> y)
        except ZeroDivisionError:
            I.fail("ZeroDivisionError", "division by zero")
        except TypeError as ex:
            I.fail("TypeError", str(ex))
        except Exception:
            return I.top(st, "constop")
    # sequences
    if name == "add" and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    if name == "add" and isinstance(a, LstRef) and isinstance(b, LstRef):
        return I.newlist(st, st.lists[a.id] + st.lists[b.id])
    if name == "mul" and isinstance(a, (Tup, LstRef)) or name == "mul" and isinstance(b, (Tup, LstRef)):
        s, k = (a, b) if isinstance(a, (Tup, LstRef)) else (b, a)
        items = s.items if isinstance(s, Tup) else st.lists[s.id]
        kv = None
        if isinstance(k, Const) and isinstance(k.v, int):
            kv = k.v
        elif isinstance(k, Num):
            kv = g.int_value(k.node)
        if kv is not None:
            r = tuple(items) * kv
            return Tup(r) if isinstance(s, Tup) else I.newlist(st, r)
        if isinstance(k, Num) and k.node.op == "poly":
            if len(items) == 1:
                r = (Rep("mul", k.node, items[0]),)
            else:
                r = (Rep("mul", k.node, I.top(st, "seqmul")),)
            return Tup(r) if isinstance(s, Tup) else I.newlist(st, r)
    # strings
    if isinstance(a, Const) and isinstance(a.v, str) or isinstance(b, Const) and isinstance(b.v, str):
        if name == "add":
            for x in (a, b):
                if isinstance(x, Const) and not isinstance(x.v, str):
                    I.fail("TypeError", "can only concatenate str")
            if isinstance(a, Union):
                return Union(a.cond, binop(I, op, a.a, b, st), binop(I, op, a.b, b, st))
            if isinstance(b, Union):
                return Union(b.cond, binop(I, op, a, b.a, st), binop(I, op, a, b.b, st))
        return Num(g.mk("str", (I.node(a, st), I.node(b, st)), name, ()))
    if isinstance(a, SetRef) and isinstance(b, SetRef):
        x, y = st.lists[a.id], st.lists[b.id]
        if name == "sub":
            r = tuple(i for i in x if i not in y)
        elif name == "bitand":
            r = tuple(i for i in x if i in y)
        elif name == "bitor":
            r = x + tuple(i for i in y if i not in x)
        else:
            return I.top(st, "setop")
        l = I.newlist(st, r)
        return SetRef(l.id)
    if isinstance(a, Union) or isinstance(b, Union):
        if isinstance(a, Union) and any(isinstance(x, Const) and x.v is None for x in (a.a, a.b)):
            a = a.b if isinstance(a.a, Const) and a.a.v is None else a.a
        if isinstance(b, Union) and any(isinstance(x, Const) and x.v is None for x in (b.a, b.b)):
            b = b.b if isinstance(b.a, Const) and b.a.v is None else b.a
    if isinstance(a, Top) and a.node.shape is None or isinstance(b, Top) and b.node.shape is None:
        na, nb = I.node(a, st), I.node(b, st)
        return Top(g.mk(name, (na, nb), None, None))
    na, nb = I.node(a, st), I.node(b, st)
    if name == "matmul":
        return I.arr(st, matmul(I, na, nb))
    r = binary(I, name, na, nb)
    if isinstance(a, (Arr,)) or isinstance(b, (Arr,)) or r.shape:
        return I.arr(st, r)
    return num(I, r)


def num(I, n):
    if n.op == "const":
        return Const(n.attr[1]) if not isinstance(n.attr[1], str) or n.attr[0] == "str" else Num(n)
    if n.op == "poly":
        iv = I.g.int_value(n)
        if iv is not None:
            return Const(iv)
    return Num(n)


def matmul(I, a, b):
    sa, sb = a.shape, b.shape
    sh = None
    if sa is not None and sb is not None:
        if len(sa) == 0 or len(sb) == 0:
            I.fail("ValueError", "matmul: scalar operand")
        if len(sa) == 1 and len(sb) == 1:
            chk(I, sa[0], sb[0])
            sh = ()
        elif len(sa) == 1:
            chk(I, sa[0], sb[-2])
            sh = sb[:-2] + sb[-1:]
        elif len(sb) == 1:
            chk(I, sa[-1], sb[0])
            sh = sa[:-1]
        else:
            chk(I, sa[-1], sb[-2])
            bt = bcast(I, sa[:-2], sb[:-2], "matmul-batch")
            sh = tuple(bt) + (sa[-2], sb[-1])
    return I.g.mk("matmul", (a, b), None, sh)


def chk(I, x, y, what="matmul"):
    if x is not y:
        dim_mismatch(I, x, y, what)


def compare(I, op, a, b, st):
    g = I.g
    if op in ("Is", "IsNot"):
        r = identity_cmp(I, a, b, st)
        if op == "IsNot":
            r = I.negate(r)
        return I.boolv(r)
    if op in ("In", "NotIn"):
        r = contains(I, a, b, st)
        if op == "NotIn":
            r = I.negate(r)
        return I.boolv(r)
    if isinstance(a, Const) and isinstance(b, Const):
        x, y = a.v, b.v
        try:
            return Const({"Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y, "LtE": lambda: x <= y,
                          "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]())
        except TypeError as ex:
            I.fail("TypeError", str(ex))
    if op in ("Eq", "NotEq"):
        r = None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if a == b:
                r = True
            elif len(a.items) != len(b.items):
                r = False
            else:
                ts = [I.truth(compare(I, "Eq", I.resolve(x, st), I.resolve(y, st), st), st) for x, y in zip(a.items, b.items)]
                if any(t is False for t in ts):
                    r = False
                else:
                    ts = [t for t in ts if t is not True]
                    if not ts:
                        r = True
                    else:
                        c = ts[0] if len(ts) == 1 else g.mk("and", ts, None, ())
                        return I.boolv(c if op == "Eq" else I.negate(c))
        elif isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            r = a == b
        elif isinstance(a, SetRef) and isinstance(b, SetRef):
            x, y = st.lists[a.id], st.lists[b.id]
            if not any(isinstance(q, Rep) for q in x + y):
                r = set(x) == set(y)
        elif isinstance(a, LstRef) and isinstance(b, LstRef) and st.lists[a.id] == st.lists[b.id]:
            r = True
        elif isinstance(a, Const) and (a.v is None or isinstance(a.v, str)) and isinstance(b, (ObjRef, Fn, UserFn)) or \
                isinstance(b, Const) and (b.v is None or isinstance(b.v, str)) and isinstance(a, (ObjRef, Fn, UserFn, Tup)):
            r = False
        elif isinstance(a, Union):
            x = I.truth(compare(I, op, a.a, b, st), st)
            y = I.truth(compare(I, op, a.b, b, st), st)
            return I.boolv(I.ite(a.cond, x, y))
        if r is not None:
            return Const(r if op == "Eq" else not r)
    na, nb = I.node(a, st), I.node(b, st)
    if na.op == "poly" and nb.op == "poly":
        d = g.padd(na, nb, -1)
        iv = g.int_value(d)
        if iv is not None:
            return Const({"Eq": iv == 0, "NotEq": iv != 0, "Lt": iv < 0, "LtE": iv <= 0, "Gt": iv > 0, "GtE": iv >= 0}[op])
        # dimensions are >= 1, loop indices >= 0
        if all(c >= 0 for m, c in g.as_poly(d).items() if m) and all(x.op in ("sym", "loopidx") for x in d.args):
            lo = g.as_poly(d).get((), 0) + sum(c for m, c in g.as_poly(d).items()
                                               if m and all(x.op == "sym" for x in m))
            if lo > 0 and op in ("Gt", "GtE", "NotEq"):
                return TRUE
            if lo > 0 and op in ("Lt", "LtE", "Eq"):
                return FALSE
            if lo == 0 and op == "GtE":
                return TRUE
            if lo == 0 and op == "Lt":
                return FALSE
    if na is nb and na.shape == () and op in ("Eq", "LtE", "GtE") and na.op not in ("unk", "extcall"):
        return TRUE
    shape = bcast(I, na.shape, nb.shape, "compare")
    if op == "NotEq":
        n = g.mk("cmp", (na, nb), "Eq", shape)
        r = g.mk("not", (n,), None, shape)
    elif op in ("Gt", "GtE"):
        n = r = g.mk("cmp", (nb, na), {"Gt": "Lt", "GtE": "LtE"}[op], shape)
    else:
        n = r = g.mk("cmp", (na, nb), op, shape)
    if shape is None and not isinstance(a, Arr) and not isinstance(b, Arr):
        return Num(r) if r.shape == () else Top(r)
    return I.arr(st, r)


def typeof(v):
    if isinstance(v, Const):
        return "builtins." + type(v.v).__name__
    if isinstance(v, Arr):
        return "numpy.ndarray"
    if isinstance(v, LstRef):
        return "builtins.list"
    if isinstance(v, Tup):
        return "builtins.tuple"
    if isinstance(v, DctRef):
        return "builtins.dict"
    if isinstance(v, SetRef):
        return "builtins.set"
    if isinstance(v, (Fn, UserFn)):
        return "builtins.function"
    if isinstance(v, Partial):
        return "functools.partial"
    if isinstance(v, Num):
        d = dt(v.node)
        if v.node.op == "poly":
            return "builtins.int"
        if d == "b":
            return "builtins.bool"
        if d == "s" or v.node.op == "str":
            return "builtins.str"
        if d in ("f",):
            return "builtins.float"
    if isinstance(v, RngObj):
        return "numpy.random.Generator"
    return None


def identity_cmp(I, a, b, st):
    if isinstance(a, Union) or isinstance(b, Union):
        u, o = (a, b) if isinstance(a, Union) else (b, a)
        return I.ite(u.cond, identity_cmp(I, u.a, o, st), identity_cmp(I, u.b, o, st))
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v)
    if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
        return a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and x.v is None:
            if isinstance(y, Top):
                return I.g.mk("isnone", (y.node,), None, ())
            if isinstance(y, Num) and y.node.op in ("unk", "extcall", "iterelem", "user"):
                return I.g.mk("isnone", (y.node,), None, ())
            return False
        if isinstance(x, Const) and isinstance(x.v, bool):
            if isinstance(y, Num) and dt(y.node) == "b":
                return y.node if x.v else I.negate(y.node)
            if not isinstance(y, Top):
                return False
    if isinstance(a, Top) and isinstance(b, (Ext, Cls)) or isinstance(b, Top) and isinstance(a, (Ext, Cls)):
        return I.g.mk("is", (I.node(a, st), I.node(b, st)), None, ())
    if a == b and not isinstance(a, Num):
        return True
    return I.g.mk("is", (I.node(a, st), I.node(b, st)), None, ())


def contains(I, a, b, st):
    g = I.g
    items = None
    if isinstance(b, Const) and isinstance(b.v, str):
        if isinstance(a, Const):
            return a.v in b.v
        return g.mk("in", (I.node(a, st), I.node(b, st)), None, ())
    items = I.iter_items(b, st)
    if items is None or any(isinstance(x, Rep) for x in items):
        return g.mk("in", (I.node(a, st), I.node(b, st)), None, ())
    conds = []
    for x in items:
        t = I.truth(compare(I, "Eq", a, x, st), st)
        if t is True:
            return True
        if t is not False:
            conds.append(t)
    if not conds:
        return False
    return conds[0] if len(conds) == 1 else g.mk("or", conds, None, ())


# ---------------------------------------------------------------- indexing
def getitem(I, b, i, st):
    g = I.g
    if isinstance(b, Tup) or isinstance(b, LstRef):
        items = b.items if isinstance(b, Tup) else st.lists[b.id]
        if isinstance(i, Const) and isinstance(i.v, int):
            if any(isinstance(x, Rep) for x in items):
                if len(items) == 1:
                    return I.top(st, "repindex", [b]) if not isinstance(items[0].val, (Arr, Num)) else I.arr(
                        st, g.mk("repelem", (I.node(items[0].val, st), g.const(i.v)), items[0].loop, I.node(items[0].val, st).shape))
                return I.top(st, "listindex")
            if not -len(items) <= i.v < len(items):
                I.fail("IndexError", "list index out of range")
            return items[i.v]
        if isinstance(i, Slc) and not any(isinstance(x, Rep) for x in items):
            try:
                sl = slice(*[None if isinstance(x, Const) and x.v is None else x.v for x in (i.lo, i.hi, i.step)])
                r = items[sl]
                return Tup(r) if isinstance(b, Tup) else I.newlist(st, r)
            except Exception:
                return I.top(st, "listslice")
        if isinstance(i, Num) and items and not any(isinstance(x, Rep) for x in items):
            return I.select(items, i.node, st)
        if isinstance(i, Num) and len(items) == 1:
            return items[0].val
        return I.top(st, "listindex")
    if isinstance(b, DctRef):
        d = st.dicts[b.id]
        k = i.v if isinstance(i, Const) else i
        if k in d:
            return d[k]
        if isinstance(i, Const) and not any(isinstance(q, V) for q in d):
            I.fail("KeyError", repr(k))
        return I.top(st, "dictindex", [i])
    if isinstance(b, Const):
        if b.v is None:
            I.fail("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(b.v, str) and isinstance(i, Const) and isinstance(i.v, int):
            return Const(b.v[i.v])
        return I.top(st, "constindex")
    if isinstance(b, Union):
        if isinstance(b.a, Const) and b.a.v is None or isinstance(b.a, Undef):
            return getitem(I, I.resolve(b.b, st), i, st)
        if isinstance(b.b, Const) and b.b.v is None or isinstance(b.b, Undef):
            return getitem(I, I.resolve(b.a, st), i, st)
        return I.merge_value(b.cond, getitem(I, b.a, i, st), getitem(I, b.b, i, st), st, st, st)
    if isinstance(b, (Arr, Num)):
        return arr_getitem(I, b, i, st)
    if isinstance(b, Ext):
        return b  # typing subscripts etc.
    n = I.node(b, st)
    I.note_unknown("subscript")
    return Top(g.mk("subscr", (n, I.node(i, st) if not isinstance(i, Slc) else g.const("slice")), None, None))


def parse_index(I, n, i, st):
    """-> (list of axis specs in order incl. ('new',), ('adv', node), ('mask', node)) or None"""
    items = list(i.items) if isinstance(i, Tup) else [i]
    nd = None if n.shape is None else len(n.shape)
    out = []
    used = 0
    ell = None
    for k, x in enumerate(items):
        x = I.resolve(x, st)
        if isinstance(x, Const) and x.v is Ellipsis:
            ell = len(out)
            out.append("...")
            continue
        if isinstance(x, Const) and x.v is None:
            out.append(("new",))
            continue
        used += 1
        if isinstance(x, Slc):
            def b(q):
                q = I.resolve(q, st)
                if isinstance(q, Const) and q.v is None:
                    return None
                return I.node(q, st)
            lo, hi, sp = b(x.lo), b(x.hi), b(x.step)
            if lo is not None and I.g.int_value(lo) == 0:
                lo = None
            if sp is not None and I.g.int_value(sp) == 1:
                sp = None
            out.append(("s", lo, hi, sp))
        elif isinstance(x, Const) and isinstance(x.v, bool):
            return None
        elif isinstance(x, Const) and isinstance(x.v, int):
            out.append(("i", I.g.const(x.v)))
        elif isinstance(x, Num) and (x.node.op == "poly" or dt(x.node) == "i"):
            out.append(("i", x.node))
        elif isinstance(x, (Tup, LstRef)):
            out.append(("adv", I.node(x, st)))
        elif isinstance(x, Arr):
            q = I.node(x, st)
            if dt(q) == "b":
                out.append(("mask", q))
                if q.shape is not None:
                    used += len(q.shape) - 1
            else:
                out.append(("adv", q))
        elif isinstance(x, Num):
            out.append(("i", x.node) if x.node.shape == () and dt(x.node) != "b" else ("mask", x.node))
        elif isinstance(x, Const):
            I.fail("IndexError", "invalid index %r" % (x.v,))
        else:
            out.append(("unk", I.node(x, st)))
    if nd is not None and used > nd:
        I.fail("IndexError", "too many indices for array: %d-dimensional, %d were indexed" % (nd, used))
    if ell is not None:
        if nd is None:
            return None
        out[ell:ell + 1] = [("s", None, None, None)] * (nd - used)
    elif nd is not None:
        out += [("s", None, None, None)] * (nd - used)
    return out


def split_index(specs):
    """separate into base spec for 'index' (ints/slices) and positions of new axes"""
    spec, idx, newpos = [], [], []
    pos = 0
    for s in specs:
        if s[0] == "new":
            newpos.append(pos)
            pos += 1
            continue
        if s[0] == "i":
            spec.append(("i", len(idx)))
            idx.append(s[1])
            continue
        if s[0] == "s":
            if s[1] is None and s[2] is None and s[3] is None:
                spec.append("f")
            else:
                e = ["s"]
                for q in s[1:]:
                    if q is None:
                        e.append(None)
                    else:
                        e.append(len(idx))
                        idx.append(q)
                spec.append(tuple(e))
            pos += 1
            continue
        return None
    return tuple(spec), tuple(idx), tuple(newpos)


def arr_getitem(I, b, i, st):
    n = I.node(b, st)
    specs = parse_index(I, n, i, st)
    if specs is None:
        return I.top(st, "index", [b])
    si = split_index(specs)
    if si is not None:
        spec, idx, newpos = si
        v = b
        if any(s != "f" for s in spec):
            v = view(I, v, ("index", spec, idx), st)
        if newpos:
            v = view(I, v, ("expand", newpos), st)
        if v is b and isinstance(b, Arr):
            return Arr(b.buf, b.path)
        return v
    # advanced indexing: apply basic parts first, then a single gather/mask
    adv = [s for s in specs if s[0] in ("adv", "mask", "unk")]
    if len(adv) == 1 and adv[0][0] in ("adv", "mask"):
        base = []
        axis = None
        pos = 0
        for s in specs:
            if s is adv[0]:
                axis = pos
                base.append(("s", None, None, None))
                if s[0] == "mask" and s[1].shape is not None:
                    base += [("s", None, None, None)] * (len(s[1].shape) - 1)
                    pos += len(s[1].shape) - 1
                pos += 1
            else:
                base.append(s)
                if s[0] != "i":
                    pos += 1
        spec, idx, newpos = split_index(base)
        m = index(I, n, spec, idx)
        if newpos:
            m = expand(I, m, newpos)
        a = adv[0][1]
        sh = None
        if adv[0][0] == "adv":
            if m.shape is not None and a.shape is not None:
                sh = m.shape[:axis] + a.shape + m.shape[axis + 1:]
            return I.arr(st, I.g.mk("gather", (m, a), axis, sh))
        if m.shape is not None and a.shape is not None:
            k = I.g.poly({(I.g.mk("atom", (a,), "count_nonzero", ()),): 1})
            sh = m.shape[:axis] + (k,) + m.shape[axis + len(a.shape):]
        return I.arr(st, I.g.mk("mask", (m, a), axis, sh))
    # several advanced parts: keep every operand, so that two selections are the same node only if they select the same
    spec, ops = [], []
    for s in specs:
        if s[0] == "s":
            if all(q is None for q in s[1:]):
                spec.append("f")
                continue
            spec.append(("s",) + tuple(bool(q is not None) for q in s[1:]))
            ops += [q for q in s[1:] if q is not None]
        else:
            spec.append(s[0])
            if s[0] != "new":
                ops.append(s[1])
    return I.arr(st, I.g.mk("fancy", [n] + ops, tuple(spec), None))


def setitem(I, b, i, v, st):
    g = I.g
    if isinstance(b, LstRef):
        items = list(st.lists[b.id])
        if isinstance(i, Const) and isinstance(i.v, int) and -len(items) <= i.v < len(items) \
                and not any(isinstance(x, Rep) for x in items):
            items[i.v] = v
        else:
            items = [Rep("mix", g.mk_unique("unk", (), "len", ()), I.top(st, "listset"))]
        st.lists[b.id] = tuple(items)
        return
    if isinstance(b, DctRef):
        st.dicts[b.id][i.v if isinstance(i, Const) else i] = v
        return
    if isinstance(b, Const):
        I.fail("TypeError", "%s does not support item assignment" % type(b.v).__name__)
    if isinstance(b, Tup):
        I.fail("TypeError", "tuple does not support item assignment")
    if isinstance(b, Union):
        for x in (b.a, b.b):
            if isinstance(x, Arr):
                setitem(I, x, i, v, st)
        return
    if not isinstance(b, Arr):
        I.note_unknown("setitem")
        return
    n = I.node(b, st)
    val = I.node(v, st)
    specs = parse_index(I, n, i, st)
    new = None
    if specs is not None:
        si = split_index(specs)
        if si is not None:
            spec, idx, newpos = si
            tgt = index_shape(I, n.shape, spec, idx) if n.shape is not None else None
            if newpos and tgt is not None:
                for p in newpos:
                    tgt = tgt[:p] + (g.const(1),) + tgt[p:]
            if tgt is not None and val.shape is not None:
                if len(val.shape) > len(tgt):
                    extra = val.shape[:len(val.shape) - len(tgt)]
                    if not all(one(I, d) for d in extra):
                        I.issues.append(("shape", "store-rank", (prod(I, val.shape), prod(I, tgt)), I.g.loc, I.g.fn))
                else:
                    bcast(I, tgt, val.shape, "store")
            if all(s == "f" for s in spec):
                if val.shape == n.shape:
                    new = val
                else:
                    new = g.mk("fill", (n, val), None, n.shape)
            else:
                new = g.mk("store", (n, val) + idx, spec, n.shape)
        else:
            adv = [s for s in specs if s[0] in ("adv", "mask", "unk")]
            if len(adv) == 1 and adv[0][0] == "mask":
                new = g.mk("maskstore", (n, adv[0][1], val), None, n.shape)
            else:
                rest = [q for s in specs if s[0] in ("i", "s") for q in s[1:] if q is not None]
                axes = tuple(k for k, s in enumerate(specs) if s[0] == "adv")
                new = g.mk("advstore", [n, val] + [s[1] for s in adv] + rest, axes, n.shape)
    if new is None:
        new = g.mk("unkstore", (n, val), None, n.shape)
    if dt(n) in ("f", "i") and dt(val) == "c":
        I.issues.append(("complex-into-real", "store", (n, val), I.g.loc, I.g.fn))
    I.ev(st, "store", (n, val))
    I.write(b, new, st, "setitem")


# ---------------------------------------------------------------- attributes
def ext_attr(I, o, name):
    full = o.name + "." + name
    if full in ("numpy.newaxis",):
        return NONE
    if full in ("numpy.pi", "math.pi"):
        return Const(PI)
    if full in ("numpy.e", "math.e"):
        return Const(math.e)
    if full in ("numpy.inf", "math.inf"):
        return Const(math.inf)
    if full == "numpy.__version__":
        return Const("2.0")
    if full in ("numpy.nan", "math.nan"):
        return Num(I.g.mk("const", (), ("float", "nan"), ()))
    return Ext(full)


def value_attr(I, o, name, st):
    g = I.g
    if isinstance(o, (Arr, Num)):
        n = I.node(o, st)
        if name == "shape":
            if n.shape is None:
                return I.top(st, "shape", [o])
            return Tup([num(I, d) for d in n.shape])
        if name == "ndim":
            return Const(len(n.shape)) if n.shape is not None else I.top(st, "ndim", [o])
        if name == "size":
            return num(I, prod(I, n.shape)) if n.shape is not None else I.top(st, "size", [o])
        if name == "T":
            return view(I, o, ("transpose", None), st)
        if name in ("real", "imag"):
            return view(I, o, ("unary", name), st)
        if name == "dtype":
            d = dt(n)
            return Ext({"c": "numpy.complex128", "f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_"}[d]) \
                if d in ("c", "f") and False else Top(g.mk("dtype", (n,), None, ()))
        return BM(o, name)
    if isinstance(o, Const) and o.v is None:
        I.fail("AttributeError", "'NoneType' object has no attribute %r" % name)
    if isinstance(o, Top):
        if name in ("shape",):
            return Top(g.mk("attr", (o.node,), name, None))
        return BM(o, name)
    return BM(o, name)


# ---------------------------------------------------------------- argument helpers
class Args:
    def __init__(self, I, st, names, args, kw):
        self.I, self.st = I, st
        self.d = {}
        for nme, a in zip(names, args):
            self.d[nme] = I.resolve(a, st)
        for k, v in kw.items():
            self.d[k] = I.resolve(v, st)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def node(self, k):
        v = self.d.get(k)
        return None if v is None else self.I.node(v, self.st)

    def const(self, k, default=None):
        v = self.d.get(k)
        if v is None:
            return default
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Num):
            iv = self.I.g.int_value(v.node)
            return iv if iv is not None else ("?",)
        return ("?",)

    def axes(self, k, nd, default=None):
        """tuple of normalised axes, None for 'all', or '?' """
        v = self.d.get(k)
        if v is None:
            return default
        if isinstance(v, Const) and v.v is None:
            return None
        if isinstance(v, Const) and isinstance(v.v, int):
            ax = (v.v,)
        elif isinstance(v, (Tup, LstRef)):
            items = v.items if isinstance(v, Tup) else self.st.lists[v.id]
            if not all(isinstance(x, Const) for x in items):
                return "?"
            ax = tuple(x.v for x in items)
        else:
            return "?"
        if nd is None:
            return ax
        for a in ax:
            if not -nd <= a < nd:
                self.I.fail("AxisError", "axis %d is out of bounds for array of dimension %d" % (a, nd))
        return tuple(sorted(a % nd for a in ax))


def toarr(I, v, st):
    """value as array node, converting lists/tuples"""
    return I.node(v, st)


def reduce_(I, st, op, n, axes, keepdims, attr=None):
    g = I.g
    if n.shape is None:
        r = g.mk(op, (n,), (axes, keepdims, attr), None)
        return I.arr(st, r) if False else Top(r)
    nd = len(n.shape)
    if axes == "?":
        return I.top(st, "reduce-axis")
    if axes is None:
        axes = tuple(range(nd))
    out = tuple(d for i, d in enumerate(n.shape) if i not in axes)
    r = g.mk(op, (n,), (axes,) if attr is None else (axes, attr), out)
    if keepdims is True:
        r = expand(I, r, axes)
    return I.arr(st, r)


UNARY = {"abs": "abs", "absolute": "abs", "fabs": "abs", "sqrt": "sqrt", "exp": "exp", "log": "log", "cos": "cos",
         "sin": "sin", "arccos": "arccos", "arcsin": "arcsin", "arctan": "arctan", "tanh": "tanh", "cosh": "cosh",
         "cbrt": "cbrt", "angle": "angle", "sign": "sign", "conj": "conj", "conjugate": "conj", "square": "square",
         "negative": "neg", "reciprocal": "reciprocal", "log10": "log10", "log2": "log2", "log1p": "log1p",
         "expm1": "expm1", "floor": "floor", "ceil": "ceil", "isnan": "isnan", "isfinite": "isnan", "isinf": "isnan",
         "logical_not": "invert", "sinh": "sinh", "tan": "tan", "rint": "rint", "exp2": "exp2", "invert": "invert",
         "nan_to_num": "nan_to_num", "positive": "pos"}
BINARY = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
          "float_power": "Pow", "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod", "matmul": "MatMult"}
REDUCE = {"sum": "sum", "mean": "mean", "prod": "prod", "max": "rmax", "amax": "rmax", "min": "rmin", "amin": "rmin",
          "all": "all", "any": "any", "std": "std", "var": "var", "argmax": "argmax", "argmin": "argmin",
          "nansum": "sum", "nanmean": "mean", "median": "median", "count_nonzero": "count_nonzero", "average": "mean"}
DT = {"numpy.complex128": "c", "numpy.complex64": "c", "builtins.complex": "c", "numpy.float64": "f",
      "numpy.float32": "f", "builtins.float": "f", "numpy.int64": "i", "numpy.int32": "i", "numpy.int16": "i",
      "numpy.int8": "i", "builtins.int": "i", "builtins.bool": "b", "numpy.bool_": "b", "numpy.double": "f",
      "numpy.uint8": "i", "numpy.complex_": "c", "numpy.float_": "f", "numpy.intp": "i"}


def dtype_arg(I, v):
    if v is None:
        return None
    if isinstance(v, Ext):
        return DT.get(v.name, "?")
    if isinstance(v, Const) and isinstance(v.v, str):
        s = v.v.lstrip("<>=|")
        return {"c": "c", "f": "f", "i": "i", "u": "i", "b": "i"}.get(s[:1], "?") if not s.startswith("bool") else "b"
    if isinstance(v, Const) and v.v is None:
        return None
    if isinstance(v, Top) and v.node.op == "dtype":
        d = dt(v.node.args[0])
        return d if d is not None else "?"
    return "?"


def shape_arg(I, v, st):
    v = I.resolve(v, st)
    if isinstance(v, (Tup, LstRef)):
        items = v.items if isinstance(v, Tup) else st.lists[v.id]
        if any(isinstance(x, Rep) for x in items):
            return None
        out = []
        for x in items:
            n = I.node(I.resolve(x, st), st)
            if n.op != "poly":
                n = I.g.poly({(n,): 1})
            out.append(n)
        return tuple(out)
    if isinstance(v, Const) and isinstance(v.v, int):
        return (I.g.const(v.v),)
    if isinstance(v, Num):
        n = v.node if v.node.op == "poly" else I.g.poly({(v.node,): 1})
        return (n,)
    return None


# ---------------------------------------------------------------- external calls
def call_ext(I, name, args, kw, st):
    args = [I.resolve(a, st) for a in args]
    kw = {k: I.resolve(v, st) for k, v in kw.items()}
    if name.startswith("numpy."):
        return call_np(I, name[6:], args, kw, st)
    if name.startswith("builtins."):
        return call_builtin(I, name[9:], args, kw, st)
    if name == "functools.partial":
        return Partial(args[0], args[1:], kw)
    if name == "warnings.warn":
        a = Args(I, st, ["message", "category", "stacklevel"], args, kw)
        I.ev(st, "warn", (a.get("message"), a.get("category")))
        return NONE
    if name in ("math.sqrt", "math.log", "math.exp"):
        return I.arr(st, unary(I, name[5:], I.node(args[0], st)))
    if name == "itertools.permutations" and len(args) == 1 and not kw and pylen_node(I, args[0], st) is not None:
        k = pylen_node(I, args[0], st)
        n = I.g.int_value(k) if getattr(I, "concrete_perms", False) else None
        items = I.iter_items(args[0], st) if n is not None and n <= 4 else None
        if items is not None and len(items) == n:
            import itertools
            return I.newlist(st, tuple(Tup(list(p)) for p in itertools.permutations(items)))
        el = I.g.mk("permelem", (k,), None, (k,))
        cnt = I.g.poly({(I.g.mk("atom", (k,), "factorial", ()),): 1})
        return I.newlist(st, (Rep("perms", cnt, I.arr(st, el)),))
    if name == "itertools.islice" and len(args) in (2, 3) and all(isinstance(a, (Const, Num)) for a in args[1:]):
        items, ks = I.iter_items(args[0], st), [I.g.int_value(I.node(a, st)) for a in args[1:]]
        if items is not None and not any(isinstance(x, Rep) for x in items) and all(k is not None for k in ks):
            return I.newlist(st, tuple(list(items)[slice(*ks)]))
    if name == "itertools.combinations" or name == "itertools.permutations":
        return I.call_pairs(name, args, kw, st) if hasattr(I, "call_pairs") else Top(
            I.g.mk("pairs" if name.endswith("combinations") else "perms", [I.node(a, st) for a in args] or (), name, None))
    if name == "copy.deepcopy" or name == "copy.copy":
        v = args[0]
        if isinstance(v, Arr):
            return I.arr(st, I.node(v, st))
        return v
    if name in ("packaging.version.parse", "packaging.version.Version") and isinstance(args[0], Const):
        try:
            return Const(tuple(int(x) for x in str(args[0].v).split(".")))
        except ValueError:
            pass
    nodes = [I.node(a, st) for a in args] + [I.node(kw[k], st) for k in sorted(kw)]
    I.ev(st, "extcall", (name, tuple(args), dict(kw)))
    I.note_unknown("ext:" + name)
    n = I.g.mk_unique("extcall", nodes, (name, tuple(sorted(kw))), None)
    return Top(n)


def pylen_node(I, v, st):
    try:
        r = pylen(I, v, st)
    except Exception:
        return None
    n = I.node(r, st) if isinstance(r, (Num, Const)) else None
    return n if n is not None and n.op == "poly" else None


def pylen(I, v, st):
    items = I.iter_items(v, st)
    if items is not None:
        tot = I.g.const(0)
        for x in items:
            tot = I.g.padd(tot, x.count if isinstance(x, Rep) else I.g.const(1))
        return num(I, tot)
    if isinstance(v, Arr):
        n = I.node(v, st)
        if n.shape:
            return num(I, n.shape[0])
    if isinstance(v, Rng):
        return num(I, ceil_div(I, I.g.padd(v.hi, v.lo, -1), v.step))
    if isinstance(v, Const) and v.v is None:
        I.fail("TypeError", "object of type 'NoneType' has no len()")
    return Num(I.g.poly({(I.g.mk("len", (I.node(v, st),), None, ()),): 1}))


def call_builtin(I, name, args, kw, st):
    g = I.g
    if name == "len":
        return pylen(I, args[0], st)
    if name == "range":
        ns = [I.node(a, st) for a in args]
        ns = [n if n.op == "poly" else g.poly({(n,): 1}) for n in ns]
        if len(ns) == 1:
            return Rng(g.const(0), ns[0], g.const(1))
        if len(ns) == 2:
            return Rng(ns[0], ns[1], g.const(1))
        return Rng(ns[0], ns[1], ns[2])
    if name == "type":
        v = args[0]
        if isinstance(v, ObjRef):
            return Cls(v.cls)
        t = typeof(v)
        if t is not None:
            return Ext(t)
        return I.top(st, "type", [v])
    if name == "isinstance":
        v, t = args
        ts = list(t.items) if isinstance(t, Tup) else [t]
        tv = typeof(v)
        res = []
        for x in ts:
            if isinstance(x, Cls):
                if isinstance(v, ObjRef):
                    res.append(x.ci in v.cls.mro())
                elif isinstance(v, Top):
                    res.append(None)
                else:
                    res.append(False)
            elif isinstance(x, Ext) and tv is not None:
                res.append(x.name == tv or (tv == "builtins.bool" and x.name == "builtins.int"))
            elif isinstance(x, Ext) and isinstance(v, ObjRef):
                res.append(False)
            else:
                res.append(None)
        if any(r is True for r in res):
            return TRUE
        if all(r is False for r in res):
            return FALSE
        return Num(g.mk("isinstance", [I.node(v, st)] + [I.node(x, st) for x in ts], None, ()))
    if name == "hasattr":
        o, k = args[0], args[1]
        if isinstance(o, ObjRef) and isinstance(k, Const):
            d = st.objs[o.id]
            if k.v in d:
                v = I.resolve(d[k.v], st)
                if isinstance(v, Union) and (isinstance(v.a, Undef) or isinstance(v.b, Undef)):
                    return I.boolv(I.negate(v.cond) if isinstance(v.a, Undef) else v.cond)
                return Const(not isinstance(v, Undef))
            if o.cls.find_prop(k.v)[0] is not None or o.cls.find(k.v)[0] is not None or o.cls.find_attr(k.v)[0] is not None:
                return TRUE
            return FALSE
        return Num(g.mk("hasattr", [I.node(a, st) for a in args], None, ()))
    if name == "getattr":
        if isinstance(args[1], Const):
            if len(args) > 2:
                from .interp import Raised
                try:
                    return I.getattr(args[0], args[1].v, st)
                except Raised:
                    return args[2]
            return I.getattr(args[0], args[1].v, st)
        return I.top(st, "getattr")
    if name == "setattr":
        if isinstance(args[1], Const):
            I.setattr(args[0], args[1].v, args[2], st)
        else:
            I.note_unknown("setattr-dynamic")
        return NONE
    if name == "callable":
        v = args[0]
        if isinstance(v, (Fn, UserFn, Partial, Cls, BM)):
            return TRUE
        if isinstance(v, Ext):
            return TRUE
        if isinstance(v, ObjRef):
            return Const(v.cls.find("__call__")[0] is not None)
        if isinstance(v, Top):
            return Num(g.mk("callable", (v.node,), None, ()))
        if isinstance(v, Union):
            x = I.truth(call_builtin(I, name, [v.a], {}, st), st)
            y = I.truth(call_builtin(I, name, [v.b], {}, st), st)
            return I.boolv(I.ite(v.cond, x, y))
        return FALSE
    if name in ("zip", "enumerate", "reversed"):
        z = Zip(name, args[:1] if name == "enumerate" else args)
        return z
    if name in ("list", "tuple", "set", "frozenset", "sorted", "iter"):
        if not args:
            if name == "tuple":
                return Tup(())
            l = I.newlist(st, ())
            return SetRef(l.id) if name in ("set", "frozenset") else l
        v = args[0]
        items = I.iter_items(v, st)
        if items is not None:
            if name == "set":
                out = []
                for x in items:
                    if x not in out:
                        out.append(x)
                l = I.newlist(st, out)
                return SetRef(l.id)
            if name == "sorted":
                if all(isinstance(x, Const) for x in items) and "key" not in kw:
                    try:
                        items = sorted(items, key=lambda c: c.v)
                        rv = kw.get("reverse")
                        if isinstance(rv, Const) and rv.v:
                            items = items[::-1]
                        return I.newlist(st, items)
                    except TypeError:
                        pass
                if len(items) == 2 and all(I.is_numeric(x) for x in items):
                    a, b = I.node(items[0], st), I.node(items[1], st)
                    lo = g.poly({(g.mk("atom", (a, b), "min2", ()),): 1})
                    hi = g.poly({(g.mk("atom", (a, b), "max2", ()),): 1})
                    return I.newlist(st, (Num(lo), Num(hi)))
                if any(isinstance(x, Rep) for x in items) and all(
                        I.is_numeric(x.val if isinstance(x, Rep) else x) for x in items):
                    src = I.node(v, st)
                    el = g.poly({(g.mk("atom", (src,), "elem", ()),): 1})
                    cnt = g.poly({(g.mk("atom", (src,), "len", ()),): 1})
                    return I.newlist(st, (Rep("sorted", cnt, Num(el)),))
                return Top(g.mk("sorted", [I.node(v, st)], None, None))
            return Tup(items) if name == "tuple" else I.newlist(st, items)
        if isinstance(v, (Rng, Zip, Arr)) or isinstance(v, Top) and v.node.op in ("pairs", "perms"):
            lid = "C%d" % g.fresh()
            cnt, el = I.iter_symbolic(v, st, lid)
            if name == "tuple":
                return Tup((Rep(lid, cnt, el),))
            return I.newlist(st, (Rep(lid, cnt, el),))
        return Top(g.mk(name, (I.node(v, st),), None, None))
    if name == "dict":
        d = {}
        if args and isinstance(args[0], DctRef):
            d.update(st.dicts[args[0].id])
        elif args:
            items = I.iter_items(args[0], st)
            for x in items or ():
                if isinstance(x, Tup) and len(x.items) == 2:
                    k = x.items[0]
                    d[k.v if isinstance(k, Const) else k] = x.items[1]
        d.update(kw)
        return I.newdict(st, d)
    if name in ("int", "float", "complex", "bool", "str", "abs", "round"):
        if not args:
            return Const({"int": 0, "float": 0.0, "complex": 0j, "bool": False, "str": ""}.get(name, 0))
        v = args[0]
        if isinstance(v, Const):
            if v.v is None and name in ("int", "float", "abs"):
                I.fail("TypeError", "%s(None)" % name)
            try:
                return Const({"int": int, "float": float, "complex": complex, "bool": bool, "str": str, "abs": abs,
                              "round": round}[name](v.v))
            except Exception as ex:
                I.fail("ValueError", str(ex))
        n = I.node(v, st)
        if name == "int" and n.op == "poly":
            return Num(n)
        if name == "bool":
            return I.boolv(I.truth(v, st))
        if name == "abs":
            return I.arr(st, unary(I, "abs", n))
        if name == "str":
            return Num(g.mk("str", (n,), None, ()))
        r = g.mk("cast", (n,), {"int": "i", "float": "f", "complex": "c", "round": "i"}[name], ())
        if name in ("int", "round"):
            r = g.poly({(r,): 1})
        return Num(r)
    if name in ("max", "min"):
        if len(args) >= 2 and all(I.is_numeric(a) for a in args):
            if all(isinstance(a, Const) for a in args):
                return Const((max if name == "max" else min)(a.v for a in args))
            ns = [I.node(a, st) for a in args]
            if all(n.op == "poly" for n in ns):
                return Num(g.poly({(g.mk("atom", ns, name + "2", ()),): 1}))
            r = ns[0]
            for n in ns[1:]:
                r = g.mk("maximum" if name == "max" else "minimum", (r, n), None, ())
            return Num(r)
        if len(args) == 1 and set(kw) == {"key"}:
            items = I.iter_items(args[0], st)
            if items and len(items) <= 24 and not any(isinstance(x, Rep) for x in items):
                best, sb = items[0], I.call(kw["key"], [items[0]], {}, st)
                for x in items[1:]:
                    sx = I.call(kw["key"], [x], {}, st)
                    c = compare(I, "Gt" if name == "max" else "Lt", sx, sb, st)
                    if isinstance(c, Const):
                        best, sb = (x, sx) if c.v else (best, sb)
                    else:
                        c = I.node(c, st)
                        best, sb = I.merge_value(c, x, best, st, st, st), I.merge_value(c, sx, sb, st, st, st)
                return best
        if len(args) == 1 and not kw:
            items = I.iter_items(args[0], st)
            if items and all(isinstance(x, Const) for x in items):
                return Const((max if name == "max" else min)(x.v for x in items))
        return Top(g.mk("py" + name, [I.node(a, st) for a in args], None, None))
    if name == "sum":
        v = args[0]
        items = I.iter_items(v, st)
        if items is not None:
            if not any(isinstance(x, Rep) for x in items):
                r = args[1] if len(args) > 1 else Const(0)
                for x in items:
                    r = binop(I, "Add", r, x, st)
                return r
            if len(items) == 1:
                n = I.node(v, st)
                return reduce_(I, st, "sum", n, (0,), False)
        if isinstance(v, Arr):
            return reduce_(I, st, "sum", I.node(v, st), (0,), False)
        return I.top(st, "sum", args)
    if name in ("all", "any"):
        items = I.iter_items(args[0], st)
        if items is not None and not any(isinstance(x, Rep) for x in items):
            ts = [I.truth(x, st) for x in items]
            bad = (name == "any")
            if any(t is bad for t in ts):
                return Const(bad)
            ts = [t for t in ts if not isinstance(t, bool)]
            if not ts:
                return Const(not bad)
            return Num(g.mk("and" if name == "all" else "or", ts, None, ()))
        return Num(g.mk(name, (I.node(args[0], st),), ((0,),), ()))
    if name == "map":
        items = I.iter_items(args[1], st)
        if items is not None and len(args) == 2 and not any(isinstance(x, Rep) for x in items):
            return I.newlist(st, [I.call(args[0], [x], {}, st) for x in items])
        return I.top(st, "map", args[1:])
    if name == "repr":
        v = args[0]
        if isinstance(v, ObjRef):
            f, ci = v.cls.find("__repr__")
            if f is not None:
                return I.call_fn(Fn(f, ci.mod, None, v, ci), [], {}, st)
        return Num(g.mk("str", (I.node(v, st),), "repr", ()))
    if name == "print":
        I.ev(st, "extcall", ("print", tuple(args), kw))
        return NONE
    if name == "open":
        I.ev(st, "extcall", ("open", tuple(args), dict(kw)))
        return Top(g.mk_unique("extcall", [I.node(a, st) for a in args], ("open", ()), None))
    if name == "super":
        return I.top(st, "super")
    if name.startswith("object."):
        return NONE
    if name == "next":
        items = I.iter_items(args[0], st)
        if items and not isinstance(items[0], Rep):
            return items[0]
        return I.top(st, "next", args)
    if name == "slice":
        a = list(args)
        if len(a) == 1:
            a = [NONE] + a
        return Slc(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if name == "vars" and isinstance(args[0], ObjRef):
        return I.getattr(args[0], "__dict__", st)
    if name in ("issubclass", "id", "hash", "filter", "pow", "divmod", "format", "bytes", "ord", "chr"):
        if name == "pow":
            return binop(I, "Pow", args[0], args[1], st)
        return I.top(st, name, args)
    I.ev(st, "extcall", (name, tuple(args), dict(kw)))
    return I.top(st, "builtin:" + name, args)


# ---------------------------------------------------------------- numpy
def out_write(I, kw, r, st):
    o = kw.get("out")
    if isinstance(o, Arr):
        I.write(o, I.node(r, st), st, "out=")
        return o
    return r


def call_np(I, name, args, kw, st):
    g = I.g
    kw = dict(kw)
    out = kw.pop("out", None)
    r = _call_np(I, name, args, kw, st)
    if isinstance(out, Arr):
        I.write(out, I.node(r, st), st, "out=")
        return out
    return r


def check_none(I, v, what):
    if isinstance(v, Const) and v.v is None:
        I.fail("TypeError", "%s: NoneType operand" % what)


def _call_np(I, name, args, kw, st):
    g = I.g
    N = lambda v: I.node(v, st)
    if name in UNARY:
        a = Args(I, st, ["x"], args, kw)
        v = a.get("x", args[0] if args else NONE)
        if name == "angle":
            v = a.get("x") or a.get("z")
        check_none(I, v, "numpy." + name)
        if name in ("conj", "conjugate") and isinstance(v, Arr) and dt(N(v)) in ("f", "i"):
            return I.arr(st, N(v))
        n = N(v)
        r = unary(I, UNARY[name], n)
        return num(I, r) if r.shape == () else I.arr(st, r)
    if name in ("real", "imag"):
        v = args[0] if args else kw.get("val")
        check_none(I, v, "numpy." + name)
        return view(I, v, ("unary", name), st) if isinstance(v, Arr) else I.arr(st, unary(I, name, N(v)))
    if name in BINARY:
        return binop(I, BINARY[name], args[0], args[1], st)
    if name in ("maximum", "minimum", "fmax", "fmin"):
        a, b = N(args[0]), N(args[1])
        check_none(I, args[0], name)
        check_none(I, args[1], name)
        op = "maximum" if "max" in name else "minimum"
        r = g.mk(op, (a, b), None, bcast(I, a.shape, b.shape, name))
        return I.arr(st, r)
    if name in ("greater", "less", "equal", "greater_equal", "less_equal", "not_equal"):
        return compare(I, {"greater": "Gt", "less": "Lt", "equal": "Eq", "greater_equal": "GtE", "less_equal": "LtE",
                           "not_equal": "NotEq"}[name], args[0], args[1], st)
    if name in ("logical_and", "logical_or", "bitwise_and", "bitwise_or", "isclose", "logical_xor"):
        a, b = N(args[0]), N(args[1])
        return I.arr(st, g.mk("logical", (a, b), name, bcast(I, a.shape, b.shape, name)))
    if name == "clip":
        a = Args(I, st, ["a", "a_min", "a_max"], args, kw)
        n = a.node("a")
        lo, hi = a.get("a_min") or a.get("min"), a.get("a_max") or a.get("max")
        if lo is not None and not (isinstance(lo, Const) and lo.v is None):
            m = N(lo)
            n = g.mk("maximum", (n, m), None, bcast(I, n.shape, m.shape, name))
        if hi is not None and not (isinstance(hi, Const) and hi.v is None):
            m = N(hi)
            n = g.mk("minimum", (n, m), None, bcast(I, n.shape, m.shape, name))
        return I.arr(st, n)
    if name in REDUCE:
        a = Args(I, st, ["a", "axis"], args, kw)
        v = a.get("a")
        if v is None:
            v = args[0]
        check_none(I, v, "numpy." + name)
        n = N(v)
        if name == "average" and "weights" in kw:
            return I.top(st, "np.average", args)
        axes = a.axes("axis", None if n.shape is None else len(n.shape), None)
        kd = a.const("keepdims", False)
        extra = None
        if "ddof" in a.d or "where" in a.d or "initial" in a.d:
            extra = ("x", a.const("ddof"), a.const("initial"))
        return reduce_(I, st, REDUCE[name], n, axes, kd, extra)
    if name == "linalg.norm":
        a = Args(I, st, ["x", "ord", "axis", "keepdims"], args, kw)
        n = a.node("x")
        axes = a.axes("axis", None if n.shape is None else len(n.shape), None)
        o = a.const("ord")
        return reduce_(I, st, "norm", n, axes, a.const("keepdims", False), None if o in (None, 2) else ("ord", o))
    if name == "where":
        if len(args) == 3:
            c, x, y = (N(v) for v in args)
            sh = bcast(I, c.shape, bcast(I, x.shape, y.shape, "where"), "where")
            return I.arr(st, g.mk("where", (c, x, y), None, sh))
        return I.top(st, "np.where1", args)
    if name == "transpose":
        a = Args(I, st, ["a", "axes"], args, kw)
        ax = a.get("axes")
        perm = None
        if ax is not None and not (isinstance(ax, Const) and ax.v is None):
            perm = int_tuple(I, ax, st)
            if perm is None:
                return I.top(st, "transpose-axes")
        return view(I, aslike(I, a.get("a"), st), ("transpose", perm), st)
    if name in ("swapaxes", "moveaxis", "rollaxis"):
        v = aslike(I, args[0], st)
        n = N(v)
        if n.shape is None:
            return I.top(st, name, args)
        nd = len(n.shape)
        a = Args(I, st, ["a", "axis1", "axis2"] if name == "swapaxes" else ["a", "source", "destination"] if name == "moveaxis" else ["a", "axis", "start"], args, kw)
        if name == "swapaxes":
            x, y = a.const("axis1"), a.const("axis2")
        elif name == "moveaxis":
            x, y = a.const("source"), a.const("destination")
        else:
            x, y = a.const("axis"), a.const("start", 0)
        if not isinstance(x, int) or not isinstance(y, int):
            return I.top(st, name, args)
        if not (-nd <= x < nd and -nd <= y <= nd):
            I.fail("AxisError", "axis out of bounds")
        perm = list(range(nd))
        if name == "swapaxes":
            x, y = x % nd, y % nd
            perm[x], perm[y] = perm[y], perm[x]
        elif name == "moveaxis":
            x, y = x % nd, y % nd
            p = perm.pop(x)
            perm.insert(y, p)
        else:
            x = x % nd
            if y < 0:
                y += nd
            p = perm.pop(x)
            perm.insert(y if y <= x else y - 1, p)
        return view(I, v, ("transpose", tuple(perm)), st)
    if name == "expand_dims":
        v = aslike(I, args[0], st)
        n = N(v)
        a = Args(I, st, ["a", "axis"], args, kw)
        ax = a.get("axis")
        axs = int_tuple(I, ax, st) if not isinstance(ax, Const) else (ax.v,)
        if n.shape is None or axs is None:
            return I.top(st, name, args)
        nd = len(n.shape) + len(axs)
        return view(I, v, ("expand", tuple(sorted(x % nd for x in axs))), st)
    if name == "squeeze":
        v = aslike(I, args[0], st)
        n = N(v)
        a = Args(I, st, ["a", "axis"], args, kw)
        axs = a.axes("axis", None if n.shape is None else len(n.shape), None)
        return view(I, v, ("squeeze", axs), st)
    if name in ("reshape",):
        v = aslike(I, args[0], st)
        sh = shape_arg(I, args[1] if len(args) > 1 else (kw.get("newshape") or kw.get("shape")), st)
        if sh is None:
            return I.top(st, "reshape", args)
        return view(I, v, ("reshape", sh), st)
    if name in ("ravel",):
        v = aslike(I, args[0], st)
        n = N(v)
        if n.shape is None:
            return I.top(st, name, args)
        return view(I, v, ("reshape", (prod(I, n.shape),)), st)
    if name in ("broadcast_to",):
        v = aslike(I, args[0], st)
        sh = shape_arg(I, args[1] if len(args) > 1 else kw.get("shape"), st)
        return view(I, v, ("bcast", sh), st) if sh is not None else I.top(st, name)
    if name in ("asarray", "ascontiguousarray", "asanyarray", "atleast_1d"):
        v = args[0]
        if isinstance(v, Arr):
            d = dtype_arg(I, kw.get("dtype") or (args[1] if len(args) > 1 else None))
            if d is None or d == dt(N(v)):
                return v
            b = I.newbuf(st, g.mk("cast", (N(v),), d, N(v).shape))
            I.alias[b] = frozenset(I.roots(v.buf))
            return Arr(b)
        return I.arr(st, N(v))
    if name in ("array", "copy"):
        v = args[0]
        n = N(v)
        d = dtype_arg(I, kw.get("dtype") or (args[1] if len(args) > 1 and name == "array" else None))
        if isinstance(v, Arr) and name == "array" and isinstance(kw.get("copy"), Const) and not kw["copy"].v:
            return v
        if d in ("c", "f", "i", "b") and d != dt(n):
            n = g.mk("cast", (n,), d, n.shape)
        if n.shape is None:
            return Top(n)
        return I.arr(st, n) if n.shape != () else Arr(I.newbuf(st, n))
    if name in ("zeros", "ones", "empty", "full"):
        a = Args(I, st, ["shape", "dtype"] if name != "full" else ["shape", "fill_value", "dtype"], args, kw)
        sh = shape_arg(I, a.get("shape"), st)
        d = dtype_arg(I, a.get("dtype"))
        if name == "full":
            fv = a.node("fill_value")
            return I.arr(st, g.mk("bcast", (fv,), tuple(x.id for x in sh) if sh else None, sh))
        return I.arr(st, g.mk(name, sh or (), (d,), sh))
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        n = N(args[0])
        d = dtype_arg(I, kw.get("dtype")) or dt(n)
        if name == "full_like":
            fv = N(args[1] if len(args) > 1 else kw.get("fill_value"))
            return I.arr(st, g.mk("bcast", (fv,), None, n.shape))
        return I.arr(st, g.mk(name[:-5], n.shape or (n,), (d,), n.shape))
    if name in ("eye", "identity"):
        a = Args(I, st, ["N", "M", "k"], args, kw)
        r = a.node("N")
        c = a.node("M")
        if c is None or isinstance(a.get("M"), Const) and a.get("M").v is None:
            c = r
        d = dtype_arg(I, kw.get("dtype"))
        kk = a.const("k", 0)
        return I.arr(st, g.mk("eye", (r, c), (d, kk) if kk else (d,), (r, c)))
    if name == "arange":
        ns = [N(a) for a in args]
        ns = [n if n.op == "poly" else g.poly({(n,): 1}) for n in ns]
        if len(ns) == 1:
            cnt, lo, sp = ns[0], g.const(0), g.const(1)
        elif len(ns) == 2:
            cnt, lo, sp = g.padd(ns[1], ns[0], -1), ns[0], g.const(1)
        else:
            cnt, lo, sp = ceil_div(I, g.padd(ns[1], ns[0], -1), ns[2]), ns[0], ns[2]
        return I.arr(st, g.mk("arange", (lo, cnt, sp), None, (cnt,)))
    if name == "tile":
        a = Args(I, st, ["A", "reps"], args, kw)
        n = a.node("A")
        reps = shape_arg(I, a.get("reps"), st)
        if reps is None or n.shape is None:
            return I.top(st, "tile", args)
        nd = max(len(n.shape), len(reps))
        base = n
        lead = nd - len(n.shape)
        if lead:
            base = expand(I, n, tuple(range(lead)))
        reps = (g.const(1),) * (nd - len(reps)) + reps
        sh = tuple(g.pmul(d, r) for d, r in zip(base.shape, reps))
        if all(one(I, r) for r in reps):
            return I.arr(st, base)
        if all(one(I, r) or one(I, d) for d, r in zip(base.shape, reps)):
            return I.arr(st, broadcast_to(I, base, sh))
        return I.arr(st, g.mk("tile", (base,) + tuple(reps), None, sh))
    if name == "repeat":
        a = Args(I, st, ["a", "repeats", "axis"], args, kw)
        n = a.node("a")
        r = a.node("repeats")
        ax = a.const("axis")
        if n.shape is None or not isinstance(ax, int):
            return I.top(st, "repeat", args)
        ax %= len(n.shape)
        sh = list(n.shape)
        sh[ax] = g.pmul(sh[ax], r)
        if one(I, n.shape[ax]):
            return I.arr(st, broadcast_to(I, n, tuple(sh)))
        if one(I, r):
            return I.arr(st, n)
        return I.arr(st, g.mk("repeatn", (n, r), ax, tuple(sh)))
    if name in ("concatenate", "stack", "hstack", "vstack", "dstack"):
        a = Args(I, st, ["arrays", "axis"], args, kw)
        return concat(I, name, a, st)
    if name == "delete":
        return delete(I, Args(I, st, ["arr", "obj", "axis"], args, kw), st)
    if name in ("split", "array_split"):
        a = Args(I, st, ["ary", "indices_or_sections", "axis"], args, kw)
        return split(I, a, st)
    if name in ("einsum",):
        return einsum(I, args, kw, st)
    if name in ("dot",):
        a, b = N(args[0]), N(args[1])
        if a.shape is not None and b.shape is not None and len(a.shape) <= 2 and len(b.shape) <= 2:
            if a.shape == () or b.shape == ():
                return binop(I, "Mult", args[0], args[1], st)
            return I.arr(st, matmul(I, a, b))
        return I.top(st, "dot", args)
    if name in ("vdot", "inner", "outer", "kron", "tensordot", "cross"):
        a, b = N(args[0]), N(args[1])
        if name == "outer" and a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape) == 1:
            return I.arr(st, binary(I, "mul", expand(I, a, (1,)), expand(I, b, (0,))))
        if name == "inner" and a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape) == 1:
            return I.arr(st, matmul(I, a, b))
        return I.top(st, name, args)
    if name == "trace":
        a = Args(I, st, ["a", "offset", "axis1", "axis2"], args, kw)
        n = a.node("a")
        a1, a2 = a.const("axis1", 0), a.const("axis2", 1)
        if n.shape is None:
            return I.top(st, "trace", args)
        nd = len(n.shape)
        if nd < 2:
            I.fail("ValueError", "trace of 1-d")
        a1, a2 = a1 % nd, a2 % nd
        chk(I, n.shape[a1], n.shape[a2], "trace")
        return I.arr(st, g.mk("trace", (n,), (a1, a2), tuple(d for i, d in enumerate(n.shape) if i not in (a1, a2))))
    if name == "diagonal":
        a = Args(I, st, ["a", "offset", "axis1", "axis2"], args, kw)
        v = aslike(I, a.get("a"), st)
        return view(I, v, ("diagonal", (a.const("offset", 0), a.const("axis1", 0), a.const("axis2", 1))), st)
    if name == "diag":
        n = N(args[0])
        if n.shape is not None and len(n.shape) == 1:
            return I.arr(st, g.mk("diagm", (n,), None, (n.shape[0], n.shape[0])))
        if n.shape is not None and len(n.shape) == 2:
            return I.arr(st, diagonal(I, n, 0, 0, 1))
        return I.top(st, "diag", args)
    if name in ("linalg.inv", "linalg.pinv"):
        n = N(args[0])
        check_none(I, args[0], name)
        if n.shape is not None:
            if len(n.shape) < 2:
                I.fail("LinAlgError", "1-d inv")
            chk(I, n.shape[-1], n.shape[-2], "inv")
        return I.arr(st, g.mk("inv", (n,), None, n.shape))
    if name == "linalg.solve":
        a, b = N(args[0]), N(args[1])
        sh = None
        if a.shape is not None and b.shape is not None:
            chk(I, a.shape[-1], a.shape[-2], "solve")
            if len(b.shape) == 1:
                chk(I, a.shape[-2], b.shape[0], "solve")
                sh = a.shape[:-1]
            else:
                chk(I, a.shape[-2], b.shape[-2], "solve")
                sh = tuple(bcast(I, a.shape[:-2], b.shape[:-2], "solve-batch") or ()) + (a.shape[-1], b.shape[-1])
        return I.arr(st, g.mk("solve", (a, b), None, sh))
    if name == "linalg.eigh" or name == "linalg.eigvalsh" or name == "linalg.eig":
        n = N(args[0])
        sh = n.shape
        if sh is not None:
            chk(I, sh[-1], sh[-2], "eigh")
        lam = I.arr(st, g.mk("eigval", (n,), None, None if sh is None else sh[:-1]))
        vec = I.arr(st, g.mk("eigvec", (n,), None, sh))
        return lam if name.endswith("valsh") else Tup((lam, vec))
    if name == "linalg.svd":
        n = N(args[0])
        sh = n.shape
        a = Args(I, st, ["a", "full_matrices", "compute_uv"], args, kw)
        uv = a.const("compute_uv", True)
        if sh is None:
            return Tup([Top(g.mk(o, (n,), None, None)) for o in ("svdu", "svals", "svdv")])
        k = sh[-2] if sh[-2] is sh[-1] else g.poly({(g.mk("atom", (sh[-2], sh[-1]), "min2", ()),): 1})
        s = I.arr(st, g.mk("svals", (n,), None, sh[:-2] + (k,)))
        if uv is False:
            return s
        full = a.const("full_matrices", True)
        m = (lambda d: d if full else k)
        return Tup((I.arr(st, g.mk("svdu", (n,), full, sh[:-2] + (sh[-2], m(sh[-2])))), s,
                    I.arr(st, g.mk("svdv", (n,), full, sh[:-2] + (m(sh[-1]), sh[-1])))))
    if name == "linalg.cholesky":
        n = N(args[0])
        return I.arr(st, g.mk("cholesky", (n,), None, n.shape))
    if name == "linalg.slogdet":
        check_none(I, args[0], name)
        n = N(args[0])
        sh = None if n.shape is None else n.shape[:-2]
        if n.shape is not None:
            chk(I, n.shape[-1], n.shape[-2], "slogdet")
        return Tup((I.arr(st, g.mk("slogsign", (n,), None, sh)), I.arr(st, g.mk("logdet", (n,), None, sh))))
    if name == "linalg.det":
        n = N(args[0])
        return I.arr(st, g.mk("det", (n,), None, None if n.shape is None else n.shape[:-2]))
    if name == "linalg.LinAlgError":
        return I.top(st, "exc")
    if name in ("iscomplexobj", "isrealobj"):
        v = args[0]
        d = dt(N(v))
        if d is None:
            c = g.mk("iscomplex", (dtroot(N(v)),), None, ())
            return I.boolv(c if name == "iscomplexobj" else I.negate(c))
        return Const((d == "c") == (name == "iscomplexobj"))
    if name == "argsort":
        n = N(args[0])
        a = Args(I, st, ["a", "axis"], args, kw)
        return I.arr(st, g.mk("argsort", (n,), a.const("axis", -1), n.shape))
    if name == "sort":
        n = N(args[0])
        a = Args(I, st, ["a", "axis"], args, kw)
        return I.arr(st, g.mk("sort", (n,), a.const("axis", -1), n.shape))
    if name == "take_along_axis":
        a = Args(I, st, ["arr", "indices", "axis"], args, kw)
        n, ix = a.node("arr"), a.node("indices")
        sh = ix.shape
        if sh is None or n.shape is None:
            return Top(g.mk("takealong", (n, ix), a.const("axis"), None))
        ax = a.const("axis")
        if isinstance(ax, int):
            ax %= len(n.shape)
            sh = tuple(ix.shape[i] if i == ax else n.shape[i] for i in range(len(n.shape)))
        return I.arr(st, g.mk("takealong", (n, ix), ax, sh))
    if name == "take":
        a = Args(I, st, ["a", "indices", "axis"], args, kw)
        n, ix = a.node("a"), a.node("indices")
        ax = a.const("axis")
        if n.shape is not None and isinstance(ax, int) and ix.shape is not None:
            ax %= len(n.shape)
            if ix.shape == ():
                spec = tuple(("i", 0) if i == ax else "f" for i in range(len(n.shape)))
                return I.arr(st, index(I, n, spec, (ix,)))
            return I.arr(st, g.mk("gather", (n, ix), ax, n.shape[:ax] + ix.shape + n.shape[ax + 1:]))
        return I.top(st, "take", args)
    if name == "ndim":
        return value_attr(I, args[0], "ndim", st)
    if name == "shape":
        return value_attr(I, args[0], "shape", st)
    if name == "size":
        return value_attr(I, args[0], "size", st)
    if name == "random.default_rng":
        seeded = bool(args) and not (isinstance(args[0], Const) and args[0].v is None)
        if seeded and isinstance(args[0], RngObj):
            return args[0]
        r = RngObj(("default_rng", "seeded" if seeded else "unseeded", g.fresh()))
        I.ev(st, "rng_new", (r, tuple(args)))
        return r
    if name.startswith("random."):
        I.ev(st, "rng_global", (name,))
        sh = shape_arg(I, args[0], st) if args else ()
        return I.arr(st, g.mk_unique("rng", (), "global:" + name, sh)) if sh is not None else I.top(st, "np." + name)
    if name in ("fft.irfft", "fft.rfft", "fft.fft", "fft.ifft"):
        a = Args(I, st, ["a", "n", "axis"], args, kw)
        n = a.node("a")
        ax = a.const("axis", -1)
        if n.shape is None or not isinstance(ax, int):
            return I.top(st, name, args)
        ax %= len(n.shape)
        sh = list(n.shape)
        nn = a.node("n") if a.get("n") is not None and not (isinstance(a.get("n"), Const) and a.get("n").v is None) else None
        two = g.const(2)
        if name == "fft.irfft":
            sh[ax] = nn if nn is not None else g.pmul(two, g.padd(n.shape[ax], g.const(-1)))
        elif name == "fft.rfft":
            L = nn if nn is not None else n.shape[ax]
            q = g.pdiv(L, two)
            sh[ax] = g.padd(q, g.const(1)) if q is not None else g.padd(binary(I, "floordiv", L, two), g.const(1))
        elif nn is not None:
            sh[ax] = nn
        r = g.mk(name[4:], (n,) if nn is None else (n, nn), ax, tuple(sh))
        r.meta = dict(r.meta or {}, dt="f" if name == "fft.irfft" else "c")
        return I.arr(st, r)
    if name in ("errstate", "set_printoptions", "seterr"):
        return I.top(st, name)
    if name in ("ndindex",):
        return I.top(st, name)
    if name in DT or "numpy." + name in DT:
        n = N(args[0])
        r = g.mk("cast", (n,), DT["numpy." + name], n.shape)
        return I.arr(st, r)
    if name == "dtype":
        return I.top(st, "dtype")
    if name in ("fill_diagonal", "copyto", "put", "place", "add.at", "put_along_axis", "random.shuffle"):
        v = args[0]
        if isinstance(v, Arr):
            I.write(v, g.mk_unique("inplace", [N(a) for a in args], name, N(v).shape), st, name)
        return NONE
    if name in ("flip", "flipud", "fliplr"):
        v = aslike(I, args[0], st)
        n = N(v)
        a = Args(I, st, ["m", "axis"], args, kw)
        ax = a.const("axis")
        if name != "flip":
            ax = 0 if name == "flipud" else 1
        if n.shape is None or not isinstance(ax, int):
            return I.top(st, name, args)
        ax %= len(n.shape)
        spec = tuple(("s", None, None, 0) if i == ax else "f" for i in range(len(n.shape)))
        return view(I, v, ("index", spec, (g.const(-1),)), st)
    if name == "nonzero" or name == "argwhere" or name == "unique":
        return I.top(st, name, args)
    if name == "isscalar":
        v = args[0]
        if isinstance(v, (Const, Num)):
            return TRUE
        if isinstance(v, Arr):
            return FALSE
    I.ev(st, "extcall", ("numpy." + name, tuple(args), dict(kw)))
    return I.top(st, "np." + name, list(args) + [kw[k] for k in sorted(kw)])


def dtroot(n):
    """node deciding whether n is complex, through dtype-preserving ops"""
    seen = 0
    while seen < 200:
        seen += 1
        if n.op in ("transpose", "expand", "index", "reshape", "conj", "squeeze", "bcast", "gather", "mask", "neg",
                    "eigvec", "inv", "cholesky", "diagonal", "sum", "mean", "trace", "tile", "store"):
            n = n.args[0]
            continue
        if n.op in ("mul", "add", "sub", "div", "matmul", "solve"):
            a, b = n.args
            if dt(a) in ("f", "i", "b"):
                n = b
                continue
            if dt(b) in ("f", "i", "b"):
                n = a
                continue
            ra, rb = dtroot(a), dtroot(b)
            if ra is rb:
                return ra
        return n
    return n


def int_tuple(I, v, st):
    v = I.resolve(v, st)
    if isinstance(v, Const) and isinstance(v.v, int):
        return (v.v,)
    items = v.items if isinstance(v, Tup) else (st.lists[v.id] if isinstance(v, LstRef) else None)
    if items is None:
        return None
    out = []
    for x in items:
        x = I.resolve(x, st)
        if isinstance(x, Const) and isinstance(x.v, int):
            out.append(x.v)
        elif isinstance(x, Num) and I.g.int_value(x.node) is not None:
            out.append(I.g.int_value(x.node))
        else:
            return None
    return tuple(out)


def aslike(I, v, st):
    if isinstance(v, (Arr, Num)):
        return v
    check_none(I, v, "numpy")
    n = I.node(v, st)
    return Arr(I.newbuf(st, n))


def concat(I, name, a, st):
    g = I.g
    v = a.get("arrays") or a.get("tup")
    items = I.iter_items(v, st)
    ax = a.const("axis", 0)
    if name in ("hstack", "vstack", "dstack"):
        nds = [I.node(x, st).shape for x in items or () if not isinstance(x, Rep) and not (isinstance(x, Const) and x.v is None)]
        if name == "dstack" or items is None or len(nds) != len(items) or any(s is None or len(s) < 2 for s in nds):
            return I.top(st, name)
        ax, name = int(name == "hstack"), "concatenate"
    if items is None and isinstance(v, Arr):
        return I.top(st, "concat")
    if items is None or not isinstance(ax, int):
        return I.top(st, "concat", [v])
    if not items:
        I.fail("ValueError", "need at least one array to " + name)
    if len(items) == 1 and isinstance(items[0], Rep):
        r = items[0]
        inner = I.node(r.val, st)
        if inner.shape is None:
            return Top(g.mk(name + "rep", (r.count, inner), (r.loop, ax), None))
        if name == "stack":
            ax %= len(inner.shape) + 1
            sh = inner.shape[:ax] + (r.count,) + inner.shape[ax:]
        else:
            if not inner.shape:
                I.fail("ValueError", "zero-dimensional arrays cannot be concatenated")
            ax %= len(inner.shape)
            sh = inner.shape[:ax] + (g.pmul(r.count, inner.shape[ax]),) + inner.shape[ax + 1:]
            if one(I, inner.shape[ax]):
                sq = squeeze(I, inner, (ax,))
                return I.arr(st, g.mk("stackrep", (r.count, sq), (r.loop, ax), sh))
        return I.arr(st, g.mk(name + "rep", (r.count, inner), (r.loop, ax), sh))
    if any(isinstance(x, Rep) for x in items):
        return I.top(st, "concatmix")
    for x in items:
        check_none(I, x, name)
    nodes = [I.node(x, st) for x in items]
    shapes = [n.shape for n in nodes]
    sh = None
    if all(s is not None for s in shapes):
        nd = len(shapes[0])
        if any(len(s) != nd for s in shapes):
            I.fail("ValueError", "all the input array dimensions must match")
        if name == "stack":
            ax %= nd + 1
            for s in shapes[1:]:
                for x, y in zip(shapes[0], s):
                    chk(I, x, y, "stack")
            sh = shapes[0][:ax] + (g.const(len(nodes)),) + shapes[0][ax:]
        else:
            if nd == 0:
                I.fail("ValueError", "zero-dimensional arrays cannot be concatenated")
            if not -nd <= ax < nd:
                I.fail("AxisError", "axis out of bounds")
            ax %= nd
            tot = g.const(0)
            for s in shapes:
                tot = g.padd(tot, s[ax])
                for k in range(nd):
                    if k != ax:
                        chk(I, shapes[0][k], s[k], "concatenate")
            sh = shapes[0][:ax] + (tot,) + shapes[0][ax + 1:]
    if name == "stack" and ax == 0 and sh is not None:
        return I.arr(st, g.mk("list", nodes, None, sh))
    return I.arr(st, g.mk("stack" if name == "stack" else "concat", nodes, ax, sh))


def delete(I, a, st):
    """np.delete(x, k, axis) for one index: the slices before and after it, put together."""
    n, ax, k = a.node("arr"), a.const("axis"), a.get("obj")
    if n.shape is None or not isinstance(ax, int) or isinstance(k, (Tup, LstRef)):
        return I.top(st, "delete")
    k = I.node(k, st)
    if k.shape != () or not -len(n.shape) <= ax < len(n.shape):
        return I.top(st, "delete")
    ax %= len(n.shape)
    spec = lambda s: tuple(s if i == ax else "f" for i in range(len(n.shape)))
    c = I.g.int_value(k)
    if c is not None and c < 0:
        k = I.g.padd(n.shape[ax], k)
    lo = index(I, n, spec(("s", None, 0, None)), (k,))
    hi = index(I, n, spec(("s", 0, None, None)), (I.g.padd(k, I.g.const(1)),))
    if lo.shape is None or hi.shape is None:
        return I.top(st, "delete")
    sh = tuple(I.g.padd(d, I.g.const(-1)) if i == ax else d for i, d in enumerate(n.shape))
    return I.arr(st, I.g.mk("concat", (lo, hi), ax, sh))


def split(I, a, st):
    g = I.g
    v = a.get("ary")
    n = I.node(v, st)
    ax = a.const("axis", 0)
    if n.shape is None or not isinstance(ax, int):
        return I.top(st, "split")
    ax %= len(n.shape)
    s = a.get("indices_or_sections")
    items = I.iter_items(s, st) if isinstance(s, (Tup, LstRef)) else None
    if items is None:
        k = a.const("indices_or_sections")
        if isinstance(k, int):
            q = g.pdiv(n.shape[ax], g.const(k))
            if q is None:
                return Tup([I.top(st, "split") for _ in range(k)])
            items = [num(I, g.pmul(q, g.const(i))) for i in range(1, k)]
        else:
            return I.top(st, "split")
    out = []
    bounds = [None] + [I.node(x, st) for x in items] + [None]
    for lo, hi in zip(bounds[:-1], bounds[1:]):
        sp = ["s", None, None, None]
        idx = []
        if lo is not None:
            sp[1] = len(idx)
            idx.append(lo)
        if hi is not None:
            sp[2] = len(idx)
            idx.append(hi)
        spec = tuple(tuple(sp) if i == ax else "f" for i in range(len(n.shape)))
        if isinstance(v, Arr):
            # np.split returns views
            out.append(Arr(v.buf, v.path + (("index", spec, tuple(idx)),)))
        else:
            out.append(I.arr(st, index(I, n, spec, tuple(idx))))
    return I.newlist(st, out)


def einsum(I, args, kw, st):
    g = I.g
    s = args[0]
    if not (isinstance(s, Const) and isinstance(s.v, str)):
        return I.top(st, "einsum", args[1:])
    sub = s.v.replace(" ", "")
    ops = [I.node(x, st) for x in args[1:]]
    if "..." in sub:
        ins = sub.split("->")[0].split(",")
        if len(ins) != len(ops) or any(n.shape is None for n in ops):
            return I.top(st, "einsum", args[1:])
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in sub]
        ks = [len(n.shape) - len(x.replace("...", "")) if "..." in x else 0 for x, n in zip(ins, ops)]
        if min(ks) < 0 or max(ks) > len(free):
            I.fail("ValueError", "einsum subscripts do not match operand rank")
        full = "".join(free[:max(ks)])
        ins = [x.replace("...", full[len(full) - k:]) for x, k in zip(ins, ks)]
        if "->" in sub:
            rhs = sub.split("->")[1].replace("...", full)
        else:
            flat = "".join(x.replace("...", "") for x in sub.split(","))
            rhs = full + "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
        sub = ",".join(ins) + "->" + rhs
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs = sub
        flat = lhs.replace(",", "")
        rhs = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    ins = lhs.split(",")
    dims = {}
    if len(ins) != len(ops):
        I.fail("ValueError", "einsum operand count")
    for sub1, n in zip(ins, ops):
        if n.shape is None:
            return Top(g.mk("einsum", ops, lhs + "->" + rhs, None))
        if len(sub1) != len(n.shape):
            I.fail("ValueError", "einsum subscripts do not match operand rank")
        for c, d in zip(sub1, n.shape):
            if c in dims and dims[c] is not d:
                if one(I, dims[c]):
                    dims[c] = d
                elif not one(I, d):
                    dim_mismatch(I, dims[c], d, "einsum")
            else:
                dims[c] = d
    return I.arr(st, g.mk("einsum", ops, lhs + "->" + rhs, tuple(dims[c] for c in rhs)))


# ---------------------------------------------------------------- bound methods on builtin values
RNG_METHODS = {"random", "standard_normal", "normal", "uniform", "integers", "permutation", "choice", "dirichlet",
               "exponential", "gamma", "standard_exponential", "beta", "shuffle", "standard_gamma"}


def call_method(I, o, name, args, kw, st):
    g = I.g
    o = I.resolve(o, st)
    args = [I.resolve(a, st) for a in args]
    kw = {k: I.resolve(v, st) for k, v in kw.items()}
    if isinstance(o, (Arr, Num)):
        return arr_method(I, o, name, args, kw, st)
    if isinstance(o, RngObj):
        I.ev(st, "rng_draw", (o, name))
        sz = kw.get("size") or (args[0] if args and name in ("random", "standard_normal", "standard_exponential") else None)
        if sz is None and len(args) >= 3:
            sz = args[2]
        sh = () if sz is None else shape_arg(I, sz, st)
        n = g.mk_unique("rng", (), (o.origin, name), sh)
        if name in ("shuffle",):
            return NONE
        return I.arr(st, n) if sh is not None else Top(n)
    if isinstance(o, LstRef) or isinstance(o, SetRef):
        items = st.lists[o.id]
        if name in ("append", "add"):
            st.lists[o.id] = items + (args[0],)
            I.ev(st, "append", (o.id, I.node(args[0], st)))
            return NONE
        if name in ("extend", "update"):
            x = I.iter_items(args[0], st)
            st.lists[o.id] = items + tuple(x if x is not None else [Rep("ext", g.mk_unique("unk", (), "len", ()), I.top(st, "ext"))])
            I.ev(st, "append", (o.id, I.node(args[0], st)))
            return NONE
        if name == "pop":
            if items and not isinstance(items[-1], Rep):
                k = args[0].v if args and isinstance(args[0], Const) else -1
                l = list(items)
                try:
                    r = l.pop(k)
                except IndexError:
                    I.fail("IndexError", "pop from empty list")
                st.lists[o.id] = tuple(l)
                return r
            return I.top(st, "pop")
        if name == "copy":
            return I.newlist(st, items)
        if name == "insert":
            if isinstance(args[0], Const) and not any(isinstance(x, Rep) for x in items):
                l = list(items)
                l.insert(args[0].v, args[1])
                st.lists[o.id] = tuple(l)
            else:
                st.lists[o.id] = (Rep("mix", g.mk_unique("unk", (), "len", ()), I.top(st, "listins")),)
            return NONE
        if name == "index":
            for k, x in enumerate(items):
                if x == args[0]:
                    return Const(k)
            return I.top(st, "list.index")
        if name == "clear":
            st.lists[o.id] = ()
            I.ev(st, "list_clear", (o.id,))
            return NONE
        if name == "reverse":
            st.lists[o.id] = tuple(reversed(items))
            return NONE
        return I.top(st, "list." + name)
    if isinstance(o, DctRef):
        d = st.dicts[o.id]
        cv = lambda k: k if isinstance(k, V) else Const(k)
        if name == "keys":
            return Tup([cv(k) for k in d])
        if name == "values":
            return Tup(list(d.values()))
        if name == "items":
            return Tup([Tup((cv(k), v)) for k, v in d.items()])
        if name in ("get", "pop", "setdefault"):
            k = args[0].v if isinstance(args[0], Const) else args[0]
            if k in d:
                v = d[k]
                if name == "pop":
                    del d[k]
                return v
            dflt = args[1] if len(args) > 1 else NONE
            if name == "pop" and len(args) < 2:
                I.fail("KeyError", repr(k))
            if name == "setdefault":
                d[k] = dflt
            return dflt
        if name == "update":
            if args and isinstance(args[0], DctRef):
                d.update(st.dicts[args[0].id])
            d.update(kw)
            return NONE
        if name == "copy":
            return I.newdict(st, d)
        return I.top(st, "dict." + name)
    if isinstance(o, Const):
        if isinstance(o.v, str):
            if name == "format":
                import string
                fields = []
                try:
                    for _, f, _, _ in string.Formatter().parse(o.v):
                        if f is not None:
                            fields.append(f)
                except ValueError as ex:
                    I.fail("ValueError", str(ex))
                auto = 0
                vals = {}
                for f in fields:
                    key = f.split(".")[0].split("[")[0]
                    if key == "" or key.isdigit():
                        k = int(key) if key else auto
                        if key == "":
                            auto += 1
                        if k >= len(args):
                            I.fail("IndexError", "Replacement index %d out of range" % k)
                    elif key not in kw:
                        I.fail("KeyError", "format field %r" % key)
                    else:
                        v = kw[key]
                        if isinstance(v, Union) and (isinstance(v.a, Undef) or isinstance(v.b, Undef)):
                            I.raises.append(("KeyError", "format field %r may be missing" % key, I.g.loc, I.g.fn,
                                             st.pc + ((v.cond, isinstance(v.a, Undef)),), False))
                I.ev(st, "format", (o.v, tuple(fields)))
                if all(isinstance(a, Const) for a in args) and not kw:
                    try:
                        return Const(o.v.format(*[a.v for a in args]))
                    except Exception:
                        pass
                return Num(g.mk("str", [I.node(a, st) for a in args] + [
                    I.node(kw[f.split(".")[0].split("[")[0]], st) for f in fields if f.split(".")[0].split("[")[0] in kw],
                    o.v, ()))
            if all(isinstance(a, Const) for a in args) and name in ("lower", "upper", "strip", "split", "startswith", "endswith",
                                                             "replace", "join", "lstrip", "rstrip", "isdigit", "title", "encode", "zfill"):
                try:
                    r = getattr(o.v, name)(*[a.v for a in args])
                    if isinstance(r, list):
                        return I.newlist(st, [Const(x) for x in r])
                    return Const(r)
                except Exception:
                    return I.top(st, "str." + name)
            if name == "join":
                items = I.iter_items(args[0], st)
                if items is not None and all(isinstance(x, Const) for x in items):
                    return Const(o.v.join(str(x.v) for x in items))
            return Num(g.mk("str", [g.const(o.v)] + [I.node(a, st) for a in args], name, ()))
        if isinstance(o.v, (int, float, complex)) and name in ("item", "conjugate", "conj"):
            return o
        I.fail("AttributeError", "%s has no attribute %s" % (type(o.v).__name__, name))
    if isinstance(o, Tup):
        if name == "index":
            for k, x in enumerate(o.items):
                if x == args[0]:
                    return Const(k)
        return I.top(st, "tuple." + name)
    if isinstance(o, Union):
        # string templates built under branches etc.: apply to every alternative
        outs = []
        for x in (o.a, o.b):
            if isinstance(x, Const) and x.v is None or isinstance(x, Undef):
                continue
            outs.append(call_method(I, x, name, args, kw, st))
        if len(outs) == 2:
            return I.merge_value(o.cond, outs[0], outs[1], st, st, st)
        return outs[0] if outs else I.top(st, "union." + name)
    n = I.node(o, st)
    I.ev(st, "method", (n, name, tuple(args), dict(kw)))
    I.note_unknown("method:" + name)
    if name == "copy" and isinstance(o, Top):
        return Top(n)
    return Top(g.mk_unique("mcall", [n] + [I.node(a, st) for a in args] + [I.node(kw[k], st) for k in sorted(kw)],
                           (name, tuple(sorted(kw))), None))


def arr_method(I, o, name, args, kw, st):
    g = I.g
    n = I.node(o, st)
    if name == "copy":
        if n.shape == () and isinstance(o, Num):
            return o
        return Arr(I.newbuf(st, n))
    if name in ("conj", "conjugate"):
        if isinstance(o, Arr) and dt(n) in ("f", "i"):
            return o
        return I.arr(st, unary(I, "conj", n))
    if name == "transpose":
        perm = None
        if args:
            perm = int_tuple(I, args[0], st) if len(args) == 1 and not (isinstance(args[0], Const) and isinstance(args[0].v, int)) \
                else int_tuple(I, Tup(args), st)
            if perm is None:
                if not (isinstance(args[0], Const) and args[0].v is None):
                    return I.top(st, "transpose")
        elif "axes" in kw:
            perm = int_tuple(I, kw["axes"], st)
        return view(I, o, ("transpose", perm), st)
    if name == "reshape":
        sh = shape_arg(I, args[0] if len(args) == 1 and isinstance(args[0], (Tup, LstRef)) else Tup(args), st)
        if sh is None:
            return I.top(st, "reshape", [o])
        return view(I, o, ("reshape", sh), st)
    if name in ("swapaxes", "squeeze", "ravel", "diagonal", "trace"):
        return _call_np(I, name, [o] + list(args), kw, st)
    if name in ("sum", "mean", "prod", "max", "min", "all", "any", "std", "var", "argmax", "argmin"):
        kw = dict(kw)
        out = kw.pop("out", None)
        return out_write(I, {"out": out}, _call_np(I, name, [o] + list(args), kw, st), st)
    if name in ("argsort", "repeat", "take", "dot", "clip"):
        return _call_np(I, name, [o] + list(args), kw, st)
    if name == "flatten":
        if n.shape is None:
            return I.top(st, "flatten", [o])
        return I.arr(st, reshape(I, n, (prod(I, n.shape),)))
    if name == "item":
        if n.shape is not None and n.shape != () and not args:
            p = prod(I, n.shape)
            if not one(I, p):
                iv = I.g.int_value(p)
                if iv is not None:
                    I.fail("ValueError", "can only convert an array of size 1 to a Python scalar")
                I.issues.append(("shape", "item", (p, g.const(1)), I.g.loc, I.g.fn))
            return Num(g.mk("item", (n,), None, ()))
        return num(I, n) if n.shape == () else Num(g.mk("item", (n,), None, ()))
    if name == "astype":
        d = dtype_arg(I, args[0] if args else kw.get("dtype"))
        if dt(n) == "c" and d in ("f", "i"):
            I.issues.append(("complex-into-real", "astype", (n, n), I.g.loc, I.g.fn))
        cp = kw.get("copy")
        if isinstance(cp, Const) and cp.v is False:
            b = I.newbuf(st, g.mk("cast", (n,), d, n.shape))
            if isinstance(o, Arr):
                I.alias[b] = frozenset(I.roots(o.buf))
            return Arr(b)
        return I.arr(st, g.mk("cast", (n,), d, n.shape))
    if name == "view":
        return view(I, o, ("unary", "viewcast"), st)
    if name in ("sort", "fill", "partition", "put", "resize", "itemset", "setfield", "byteswap"):
        if isinstance(o, Arr):
            if name == "fill":
                I.write(o, g.mk("fill", (n, I.node(args[0], st)), None, n.shape), st, name)
            else:
                I.write(o, g.mk_unique("inplace", [n] + [I.node(a, st) for a in args], name, n.shape), st, name)
        return NONE
    if name == "tolist":
        return Top(g.mk("tolist", (n,), None, None))
    I.note_unknown("ndarray." + name)
    return Top(g.mk_unique("mcall", [n] + [I.node(a, st) for a in args], (name, ()), None))
