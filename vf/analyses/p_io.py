"""WAV container and dataset cache: P28."""
from __future__ import annotations

import struct

from .. import funcs as F
from .. import npmodel
from ..framework import Check, locstr
from ..funcs import A, S
from ..interp import Budget, Raised
from ..tnf import TNF, Unsup, walk_nodes
from ..values import *  # noqa
from .common import walk

IO = "ssspy.io."
ALIASES = {"float16": "f2", "half": "f2", "float32": "f4", "single": "f4", "float64": "f8", "double": "f8", "float": "f8", "longdouble": "f16", "float128": "f16",
           "int8": "i1", "byte": "i1", "b": "i1", "int16": "i2", "short": "i2", "int32": "i4", "int64": "i8", "int": "i8", "uint8": "u1", "uint16": "u2"}


def canon(s):
    if isinstance(s, DType):
        return s.name
    if not isinstance(s, str):
        return None
    big = s[:1] == ">"
    s = s.lstrip("<=|>")
    s = ALIASES.get(s, s)
    return (">" if big and s[1:] != "1" else "") + s


class DType:
    """the exact element type of an array"""

    def __init__(self, name):
        self.name = canon(name)

    def __eq__(self, o):
        return canon(o) == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name

    @property
    def size(self):
        return int(self.name.lstrip(">")[1:])

    @property
    def kind(self):
        return self.name.lstrip(">")[0]


class Bytes(V):
    """bytes with symbolic parts: ("b", value) single bytes, ("f", format, value) fields, ("p", node, type) array data"""

    def __init__(self, cells):
        self.cells = list(cells)


def cells(v):
    if isinstance(v, Const) and isinstance(v.v, (bytes, bytearray)):
        return [("b", b) for b in v.v]
    if isinstance(v, Bytes):
        return v.cells
    raise Unsup("bytes")


class Files:
    """file operations of one run; one file"""

    def __init__(self, dtypes, header=None, hole=None):
        self.dtypes = dtypes        # input name -> exact type
        self.exact = {}             # node id -> exact type
        self.header, self.hole = header, hole      # bytes served to reads; {offset: node} four-byte fields without known value
        self.pos = 0
        self.items = []             # written: [offset, cells, size]
        self.maps = []              # arrays read: (node, type, offset, count)
        self.opened = []

    # ---------------------------------------------------------------- types
    def type_of(self, n, depth=0):
        if n.id in self.exact:
            return self.exact[n.id]
        if n.op == "input":
            return self.dtypes.get(n.attr)
        if n.op in ("transpose", "reshape", "expand", "squeeze", "index", "bcast", "viewcast", "maximum", "minimum", "neg", "clip", "mul", "add", "sub", "unary", "round", "rint") and depth < 40:
            return self.type_of(n.args[0], depth + 1)
        return None

    def install(self, I):
        self.I = I
        self.orig = npmodel.call_ext, npmodel.call_method, npmodel.value_attr, npmodel.binop
        npmodel.call_ext, npmodel.call_method, npmodel.value_attr, npmodel.binop = self.call_ext, self.call_method, self.value_attr, self.binop

    def remove(self):
        npmodel.call_ext, npmodel.call_method, npmodel.value_attr, npmodel.binop = self.orig

    def binop(self, I, op, a, b, st):
        if isinstance(a, Bytes) or isinstance(b, Bytes):
            if op != "Add":
                raise Unsup("bytes")
            return Bytes(cells(a) + cells(b))
        return self.orig[3](I, op, a, b, st)

    def arith(self, op, a, b, st):
        n = lambda x: x if isinstance(x, V) else Const(x)
        return npmodel.binop(self.I, op, n(a), n(b), st)

    def value_attr(self, I, o, name, st):
        if isinstance(o, Const) and isinstance(o.v, DType):
            d = o.v
            return {"itemsize": Const(d.size), "kind": Const(d.kind), "name": Const(d.name), "str": Const("<" + d.name), "char": Const(d.name)}.get(name) or Const(None)
        if isinstance(o, (Arr, Num)):
            n = I.node(o, st)
            if name in ("dtype", "nbytes", "itemsize", "data"):
                t = self.type_of(n)
                if name == "data":
                    return o
                if t is None:
                    raise Unsup("%s of unknown type at %s" % (name, I.g.loc))
                if name == "dtype":
                    return Const(DType(t))
                k = Const(DType(t).size)
                return k if name == "itemsize" else self.arith("Mult", npmodel.num(I, npmodel.prod(I, n.shape)), k, st)
        return self.orig[2](I, o, name, st)

    def call_method(self, I, o, name, args, kw, st):
        o = I.resolve(o, st)
        if isinstance(o, (Arr, Num)):
            n = I.node(o, st)
            if name == "astype":
                r = self.orig[1](I, o, name, args, kw, st)
                self.mark(I.node(r, st), args[0] if args else kw.get("dtype"))
                return r
            if name == "view":
                return o
            if name in ("tobytes", "ravel"):
                if name == "tobytes" and (args or kw):
                    raise Unsup("order")
                return o if name == "tobytes" else self.orig[1](I, o, "flatten", args, kw, st)
            if name == "flatten" and (args or kw):
                raise Unsup("order of flatten")
            if name == "tofile":
                return self.write(args[0], o, st)
        if isinstance(o, Const) and isinstance(o.v, DType) and name == "newbyteorder":
            return o
        return self.orig[1](I, o, name, args, kw, st)

    def mark(self, n, v):
        if isinstance(v, Const):
            v = canon(v.v)
        elif isinstance(v, Ext):
            v = canon(v.name.split(".")[-1])
        else:
            v = None
        if v is None:
            raise Unsup("element type at %s" % (self.I.g.loc,))
        self.exact[n.id] = v

    # ---------------------------------------------------------------- files
    def call_ext(self, I, name, args, kw, st):
        args = [I.resolve(a, st) for a in args]
        kw = {k: I.resolve(v, st) for k, v in kw.items()}
        if name in ("builtins.open", "io.open"):
            m = args[1] if len(args) > 1 else kw.get("mode")
            self.opened.append(m.v if isinstance(m, Const) else None)
            if len(self.opened) > 1:
                raise Unsup("more than one file")
            return Ext("@file")
        if name.startswith("@file."):
            return self.method(I, name[6:], args, kw, st)
        if name == "struct.calcsize":
            return Const(struct.calcsize(args[0].v))
        if name == "struct.pack":
            return self.pack(args[0].v, args[1:], st)
        if name in ("struct.unpack", "struct.unpack_from"):
            return self.unpack(args[0].v, args[1])
        if name in ("numpy.memmap", "numpy.fromfile", "numpy.frombuffer"):
            return self.array(I, name[6:], args, kw, st)
        if name in ("numpy.iinfo", "numpy.dtype") and args and isinstance(args[0], Const) and canon(args[0].v) is not None:
            if name == "numpy.dtype":
                return Const(DType(args[0].v))
        if name == "numpy.issubdtype" and isinstance(args[0], Const) and isinstance(args[0].v, DType) and isinstance(args[1], Ext):
            k = {"floating": "f", "inexact": "f", "integer": "iu", "signedinteger": "i", "unsignedinteger": "u"}.get(args[1].name.split(".")[-1])
            if k:
                return Const(args[0].v.kind in k)
        if name == "numpy.ascontiguousarray" and len(args) == 1 and not kw:
            return args[0]
        return self.orig[0](I, name, args, kw, st)

    def pack(self, fmt, vals, st):
        order, codes = self.codes(fmt)
        out, k = [], 0
        for c, n in codes:
            v = vals[k]
            k += 1
            if isinstance(v, Const):
                out += [("b", b) for b in struct.pack(order + c, v.v)]
            elif c[-1] == "s":
                raise Unsup("symbolic bytes")
            else:
                out.append(("f", order + c, self.I.node(v, st)))
        return Bytes(out) if any(x[0] != "b" for x in out) else Const(bytes(x[1] for x in out))

    def codes(self, fmt):
        import re
        order = fmt[0] if fmt[0] in "<>=@!" else "@"
        if order not in "<" and struct.calcsize(order + "H") and len(fmt.strip("<>=@!")) > 0 and order != "<":
            raise Unsup("byte order of format %r" % fmt)
        out = []
        for n, c in re.findall(r"(\d*)([a-zA-Z?])", fmt):
            if c in "sp":
                out.append((n + c, int(n or 1)))
            else:
                out += [(c, 1)] * int(n or 1)
        return order, out

    def unpack(self, fmt, v):
        order, codes = self.codes(fmt)
        cs, out = cells(v), []
        for c, _ in codes:
            n = struct.calcsize(order + c)
            if cs and cs[0][0] == "f":
                if struct.calcsize(cs[0][1]) != n or order + c != cs[0][1]:
                    raise Unsup("field read in another format")
                out.append(npmodel.num(self.I, cs[0][2]))
                cs = cs[1:]
            else:
                if len(cs) < n or any(x[0] != "b" for x in cs[:n]):
                    raise Unsup("field read in parts")
                out.append(Const(struct.unpack(order + c, bytes(x[1] for x in cs[:n]))[0]))
                cs = cs[n:]
        if cs:
            raise Unsup("unpack of too many bytes")
        return Tup(out)

    def size(self, cs, st):
        n, var = 0, None
        for c in cs:
            if c[0] == "b":
                n += 1
            elif c[0] == "f":
                n += struct.calcsize(c[1])
            else:
                var = self.arith("Mult", npmodel.num(self.I, npmodel.prod(self.I, c[1].shape)), DType(c[2]).size, st)
        return n if var is None else self.arith("Add", var, n, st)

    def same(self, a, b, st):
        n = lambda x: self.I.node(x if isinstance(x, V) else Const(x), st)
        return a == b or n(a) is n(b) or self.diff(n(a), n(b)) == 0

    def diff(self, a, b):
        g = self.I.g
        p = lambda n: n if n.op == "poly" else g.const(n.attr[1]) if n.op == "const" and isinstance(n.attr[1], int) else g.poly({(n,): 1})
        return g.int_value(g.padd(p(a), g.pmul(g.const(-1), p(b))))

    def write(self, f, data, st):
        if isinstance(data, (Arr, Num)):
            n = self.I.node(data, st)
            t = self.type_of(n)
            if t is None:
                raise Unsup("type of the data written")
            cs = [("p", n, t)]
        else:
            cs = cells(data)
        k = self.size(cs, st)
        end = 0
        if self.items:
            o, c, z = self.items[-1]
            end = self.arith("Add", o, z, st)
        if self.same(self.pos, end, st):
            self.items.append([self.pos, cs, k])
        else:
            hit = [i for i in self.items if self.same(i[0], self.pos, st) and self.same(i[2], k, st)]
            if len(hit) != 1:
                raise Unsup("write into the middle of other data")
            hit[0][1] = cs
        self.pos = self.arith("Add", self.pos, k, st)
        return NONE

    def method(self, I, name, args, kw, st):
        if name == "__enter__":
            return Ext("@file")
        if name == "close" or name == "__exit__" or name == "flush":
            return NONE
        if name == "tell":
            return self.pos if isinstance(self.pos, V) else Const(self.pos)
        if name == "seek":
            w = args[1] if len(args) > 1 else kw.get("whence", Const(0))
            if not isinstance(w, Const) or w.v not in (0, 1, 2):
                raise Unsup("seek")
            if w.v == 2:
                o, c, z = self.items[-1]
                self.pos = self.arith("Add", self.arith("Add", o, z, st), args[0], st)
            else:
                self.pos = args[0] if w.v == 0 else self.arith("Add", self.pos, args[0], st)
            return self.pos if isinstance(self.pos, V) else Const(self.pos)
        if name == "write":
            return self.write(None, args[0], st)
        if name == "read":
            p = self.pos.v if isinstance(self.pos, Const) else self.pos
            if not args or not isinstance(args[0], Const) or not isinstance(p, int) or self.header is None:
                b = Bytes([("p", None, None)])
                b.at, b.n = self.pos, args[0] if args else None
                return b
            out, end = [], p + args[0].v
            while p < end:
                if p in self.hole:
                    out.append(("f", "<I", self.hole[p]))
                    p += 4
                elif p < len(self.header):
                    out.append(("b", self.header[p]))
                    p += 1
                else:
                    break
            self.pos = end
            return Bytes(out) if any(x[0] != "b" for x in out) else Const(bytes(x[1] for x in out))
        raise Unsup("file method %s" % name)

    def array(self, I, name, args, kw, st):
        names = {"memmap": ["filename", "dtype", "mode", "offset", "shape", "order"], "fromfile": ["file", "dtype", "count", "sep", "offset"],
                 "frombuffer": ["buffer", "dtype", "count", "offset"]}[name]
        v = dict(zip(names, args))
        v.update(kw)
        d = v.get("dtype")
        if not isinstance(d, Const) or canon(d.v) is None:
            raise Unsup("type of the array read")
        src, t = args[0], DType(d.v)
        off = v.get("offset", Const(0))
        if name == "memmap":
            sh = v.get("shape")
            if sh is None or src != Ext("@file"):
                raise Unsup("memmap")
            sh = npmodel.shape_arg(I, sh, st)
            cnt = npmodel.prod(I, sh)
        else:
            base = self.pos
            if name == "frombuffer":
                if not hasattr(src, "at"):
                    raise Unsup("frombuffer")
                base = src.at
            off = self.arith("Add", base, off, st)
            c = v.get("count")
            if c is None or isinstance(c, Const) and c.v == -1:
                if name == "fromfile" or src.n is None:
                    raise Unsup("count")
                c = self.arith("FloorDiv", src.n, t.size, st)
            cnt = I.node(c, st)
            cnt = cnt if cnt.op == "poly" else I.g.poly({(cnt,): 1})
            sh = (cnt,)
        r = I.input_array(st, "raw%d" % len(self.maps), sh, "i")
        n = I.node(r, st)
        self.exact[n.id] = t.name
        self.maps.append((n, t.name, off, cnt))
        return r


def run(chk, fn, tag, args, files, **kw):
    """the function on the given arguments; None when something is met that is not modelled"""
    chk.tried += 1
    try:
        try:
            R = F.run(chk.project, (IO + fn, tag, args, kw, None), before=files.install)
        finally:
            files.remove()
    except Unsup as x:
        chk.skip("%s[%s]" % (fn, tag), x)
        return None
    if R.error and R.error[0] == "missing":
        from ..framework import Broken
        raise Broken("%s%s is gone" % (IO, fn))
    chk.ran(R)
    return R


# ------------------------------------------------------------------ writing
def stripped(n):
    """the value before saturation and rounding, with the interval it was cut to"""
    lo, hi = [], []
    while True:
        if n.op in ("cast", "viewcast") or n.op in ("round", "rint", "around"):
            n = n.args[0]
        elif n.op in ("maximum", "minimum") and len(n.args) == 2 and any(a.op in ("const", "poly") and num(a) is not None for a in n.args):
            c, x = (n.args[0], n.args[1]) if num(n.args[0]) is not None else (n.args[1], n.args[0])
            (lo if n.op == "maximum" else hi).append(num(c))
            n = x
        else:
            return n, lo, hi


def num(n):
    if n.op == "const" and isinstance(n.attr[1], (int, float)):
        return n.attr[1]
    if n.op == "poly":
        if not n.attr:
            return 0
        if len(n.attr) == 1 and not n.attr[0][0]:
            return n.attr[0][1]
    return None


def writer(chk):
    for dt in ("f2", "f4", "f8", "i1", "i2"):
        for dims, cf in ((("T",), None), (("T", 1), None), (("T", 2), None), (("T", 2), False), ((1, "T"), True), ((2, "T"), True)):
            for rate in (44100, 7919):
                c = 1 if len(dims) == 1 else dims[0 if cf else 1]
                tag = "%s,%s,channels_first=%s,rate=%d" % (dt, "x".join(map(str, dims)), cf, rate)
                files = Files({"x": dt})
                kw = {} if cf is None else {"channels_first": Const(cf)}
                R = run(chk, "wavwrite", tag, [Const("a.wav"), A("x", list(dims), dt[0]), Const(rate)], files, **kw)
                if R is None:
                    continue
                what = "wavwrite|%s" % dt
                if R.error:
                    chk.oblige(False, what + "|error", "wavwrite of %s fails: %s" % (tag, R.error))
                    continue
                width = {"f": 2}.get(dt[0]) or int(dt[1])
                I, st = R.I, R.st
                T = I.g.sym("T")
                nbytes = I.g.pmul(I.g.const(width * c), T)
                out = [x for i in files.items for x in i[1]]
                flat, payload = [], None
                for x in out:
                    if x[0] == "b":
                        flat.append(x[1])
                    elif x[0] == "f":
                        flat.append((x[1], x[2]))
                    else:
                        flat.append("data")
                        payload = x
                fmt = struct.pack("<IHHIIHH", 16, 1, c, rate, rate * c * width, c * width, 8 * width)
                want = list(b"RIFF") + ["size"] + list(b"WAVEfmt " + fmt + b"data") + ["nbytes"] + ["data"]

                def eq(a, w):
                    if w in ("size", "nbytes"):
                        return isinstance(a, tuple) and a[0] in ("<I", "<L") and files.diff(a[1], nbytes) == (36 if w == "size" else 0)
                    return a == w
                bad = [k for k in range(max(len(flat), len(want))) if k >= len(flat) or k >= len(want) or not eq(flat[k], want[k])]
                chk.oblige(not bad, what + "|header", "wavwrite of %s: the file does not consist of the RIFF header, the 16-byte PCM format chunk and the data chunk with the sizes, rates "
                           "and alignment of the data (first difference at field %s: %s) in ssspy/io" % (tag, bad[:1], [flat[k] if k < len(flat) else "nothing" for k in bad[:1]]))
                if payload is None:
                    continue
                n = payload[1]
                chk.oblige(payload[2] == "i%d" % width, what + "|type", "wavwrite of %s: the samples are stored as %s, the header says %d-bit PCM" % (tag, payload[2], 8 * width))
                try:
                    while n.op in ("reshape", "viewcast") or n.op == "cast" and len(n.shape) == 1:
                        if n.op == "reshape" and len(n.args[0].shape) == len(n.shape) == 2:
                            raise Unsup("reshape")
                        n = n.args[0]
                    y, lo, hi = stripped(n)
                    x = R.argnodes[1]
                    top = 2 ** (8 * width - 1)
                    if dt[0] == "f":
                        k = "%s, at %s" % (tag, locstr(y.loc))
                        chk.oblige(bool(lo) and bool(hi) and max(lo) >= -top and min(hi) <= top - 1, what + "|saturation", "wavwrite: samples beyond full scale are not limited to [%d, %d] before they become integers, so they wrap around: %s" % (-top, top - 1, k))
                        chk.oblige(bool(lo) and bool(hi) and max(lo) <= -(top - 1) and min(hi) >= top - 1, what + "|full scale", "wavwrite: samples within full scale are cut off at %s, %s: %s" % (lo, hi, k))
                    t = TNF(I)
                    v, e = t.ev(y)
                    if len(v) == 1:
                        ix = (v[0],) if len(dims) == 1 else None
                        if ix is None:
                            if c != 1:
                                raise Unsup("layout")
                            ix = (None, v[0]) if cf else (v[0], None)
                    else:
                        ix = (v[1], v[0]) if cf else v
                    ref = t.ev(x, list(ix))
                    ref = t.scale(ref, top if dt[0] == "f" else 1)
                    chk.oblige(t.zero(t.sub(e, ref)), what + "|samples", "wavwrite of %s: frame t, channel c of the file is not the sample of that frame and channel%s, at %s" % (
                        tag, " times 2^%d" % (8 * width - 1) if dt[0] == "f" else "", locstr(y.loc)))
                except Unsup as u:
                    chk.skip("wavwrite[%s]" % tag, u)
    for dims, cf, dt in ((("T", 3), None, "f8"), ((2, "T", 2), None, "f8"), (("T",), None, "i4"), ((3, "T"), True, "f8")):
        files = Files({"x": dt})
        tag = "%s,%s" % (dt, "x".join(map(str, dims)))
        R = run(chk, "wavwrite", tag, [Const("a.wav"), A("x", list(dims), dt[0]), Const(8000)], files, **({} if cf is None else {"channels_first": Const(cf)}))
        if R is not None:
            chk.oblige(bool(R.error) and R.error[0] == "raised" and R.error[4], "wavwrite|refuse", "wavwrite accepts %s, for which it has no format" % tag)


# ------------------------------------------------------------------ reading
def reader(chk):
    for c in (1, 2):
        for width in (1, 2, 4):
            for off in (None, "o"):
                for cnt in (None, "n"):
                    for two, cf in ((None, None), (True, None), (True, True)) if c == 1 else ((None, None), (None, True), (True, False)):
                        one_read(chk, c, width, off, cnt, two, cf)
    for key, hdr in (("RIFX", dict(riff=b"RIFX")), ("AIFF", dict(wave=b"AIFF")), ("format 3", dict(fmt=3))):
        R = run(chk, "wavread", key, [Const("a.wav")], header(1, 2, **hdr))
        if R is not None:
            chk.oblige(bool(R.error) and R.error[0] == "raised" and R.error[4], "wavread|refuse|" + key, "wavread accepts a file with header %s, which it would misread" % key)
    R = run(chk, "wavread", "num_frames=-1", [Const("a.wav")], header(1, 2), num_frames=Const(-1))
    if R is not None:
        chk.oblige(bool(R.error) and R.error[0] == "raised" and R.error[4], "wavread|refuse|negative", "wavread accepts num_frames=-1")


class header(Files):
    def __init__(self, c, width, riff=b"RIFF", wave=b"WAVE", fmt=1):
        super().__init__({})
        self.header = riff + b"\0\0\0\0" + wave + b"fmt " + struct.pack("<IHHIIHH", 16, fmt, c, 16000, 16000 * c * width, c * width, 8 * width) + b"data\0\0\0\0"
        self.c, self.width = c, width

    def install(self, I):
        super().install(I)
        self.S = I.g.sym("S")
        self.bytes = I.g.pmul(I.g.const(self.c * self.width), self.S)
        self.hole = {4: I.g.padd(self.bytes, I.g.const(36)), 40: self.bytes}


def one_read(chk, c, width, off, cnt, two, cf):
    files = header(c, width)
    tag = "%d channels,%d-bit,frame_offset=%s,num_frames=%s,return_2d=%s,channels_first=%s" % (c, 8 * width, off, cnt, two, cf)
    kw = {}
    if off:
        kw["frame_offset"] = F.DIM(off)
    if cnt:
        kw["num_frames"] = F.DIM(cnt)
    if two is not None:
        kw["return_2d"] = Const(two)
    if cf is not None:
        kw["channels_first"] = Const(cf)
    R = run(chk, "wavread", tag, [Const("a.wav")], files, **kw)
    if R is None:
        return
    if R.error:
        chk.oblige(False, "wavread|error", "wavread of a file with %s fails: %s" % (tag, R.error))
        return
    I, g, st = R.I, R.g, R.st
    o = g.sym("o") if off else g.const(0)
    n = g.sym("n") if cnt else g.padd(files.S, g.pmul(g.const(-1), o))
    if len(files.maps) != 1 or not isinstance(R.ret, Tup) or len(R.ret.items) != 2:
        chk.skip("wavread[%s]" % tag, "%d arrays read" % len(files.maps))
        return
    raw, ty, at, count = files.maps[0]
    k = "wavread|"
    chk.oblige(canon(ty) == "i%d" % width, k + "type", "wavread of a file with %s reads elements of type %s" % (tag, ty))
    chk.oblige(files.diff(I.node(at, st), g.padd(g.const(44), g.pmul(g.const(c * width), o))) == 0, k + "offset", "wavread of a file with %s does not start %s bytes (alignment times frame_offset) into the data chunk" % (tag, c * width))
    chk.oblige(files.diff(count, g.pmul(g.const(c), n)) == 0, k + "count", "wavread of a file with %s does not read num_frames frames of all channels (without num_frames: all that remain)" % tag)
    chk.oblige(isinstance(R.ret.items[1], Const) and R.ret.items[1].v == 16000, k + "rate", "wavread of a file with %s does not return the sampling rate in the header" % tag)
    y = I.node(R.ret.items[0], st)
    flat = c == 1 and not two
    want = (n,) if flat else (g.const(c), n) if cf else (n, g.const(c))
    ok = y.shape is not None and len(y.shape) == len(want) and all(files.diff(a, b) == 0 for a, b in zip(y.shape, want))
    chk.oblige(ok, k + "shape", "wavread of a file with %s returns an array of another shape than documented, at %s" % (tag, locstr(y.loc)))
    if not ok:
        return
    try:
        t = TNF(I)
        seen = [m for m in walk_nodes(y) if m.op == "reshape" and m.args[0] is raw]
        if c > 1 and not (len(seen) == 1 and len(seen[0].shape) == 2):
            raise Unsup("layout")
        leaf = raw if c == 1 and not seen else seen[0]
        if len(leaf.shape) == 2:
            good = files.diff(leaf.shape[1], g.const(c)) == 0
            chk.oblige(good, k + "layout", "wavread of a file with %s does not take the channels of a frame as neighbours, at %s" % (tag, locstr(leaf.loc)))
            if not good:
                return
        t.leaf[leaf.id] = "samples"
        v, e = t.ev(y)
        v = [v[1 if cf and not flat else 0]] if leaf is raw else list(v) if flat or not cf else [v[1], v[0]]
        ref = t.ev(leaf, v)
        chk.oblige(t.zero(t.sub(e, t.scale(ref, 2.0 ** (1 - 8 * width)))), k + "scale", "wavread of a file with %s: the samples are not those of the file divided by 2^%d, at %s" % (tag, 8 * width - 1, locstr(y.loc)))
    except Unsup as u:
        chk.skip("wavread[%s]" % tag, u)
    if cnt:
        past = g.padd(g.padd(o, n), g.pmul(g.const(-1), files.S))
        chk.oblige(any(refuses(files, q, truth, past, c * width) for x in I.raises if x[5] for q, truth in x[4][-1:]), k + "beyond",
                   "wavread of a file with %s does not refuse exactly the frames beyond the end of the data chunk" % tag)


def refuses(files, q, truth, past, align):
    """the comparison q, being `truth`, says past >= 1 for an integer `past`"""
    if q.op != "cmp" or q.attr not in ("Lt", "LtE", "Le") or len(q.args) != 2:
        return False
    g = files.I.g
    low = 1 if q.attr == "Lt" else 0                       # b - a >= low
    for m in {1, align}:
        p = g.pmul(g.const(m), past)
        a, b = q.args
        if truth:
            k = files.diff(g.padd(a, p), b)                 # b - a = m past - k >= low
            if k is not None:
                return -(-(low + k) // m) == 1
        else:
            k = files.diff(g.padd(b, p), a)                 # a - b = m past - k >= 1 - low
            if k is not None:
                return -(-(1 - low + k) // m) == 1
    return False


# ------------------------------------------------------------------ dataset cache
def depends(n, names):
    return {m.attr for m in walk_nodes(n) if m.op in ("atom", "input") and m.attr in names}


def text(n):
    """the constant parts of a path"""
    return tuple(sorted((str(m.attr) for m in walk_nodes(n) if m.op in ("const", "str", "poly") and not m.args), key=str))


CHOICES = (("sisec2010", "tag", ("dev1_female3", "dev1_female4")), ("mird", "reverb_duration", (0.16, 0.36, 0.61)))


def cached(chk, name, k, choice):
    """[(path, needed, event)] of the data saved, and the path returned"""
    chk.tried += 1

    def before(I):
        orig = I.call_fn

        def hook(f, args, kw, s):
            n = getattr(f.fdef, "name", None)
            if n == "wavread" or n == "resample_mird_rir":
                x = I.g.mk("file", [I.node(a, s) for a in args] + [I.node(kw[q], s) for q in sorted(kw)], n, None)
                return Tup([Top(x), Top(x)]) if n == "wavread" else Top(x)
            return orig(f, args, kw, s)
        I.call_fn = hook
    try:
        R = F.run(chk.project, (name, "%d sources" % k, [S("root"), Const(k), choice], {}, None), before=before)
    except (Unsup, Budget) as x:
        chk.skip(name, x)
        return None
    if R.error:
        if R.error[0] == "missing":
            from ..framework import Broken
            raise Broken("%s is gone" % name)
        chk.skip(name, R.error)
        return None
    chk.ran(R)
    saves = [e for e in walk(R.events) if e.kind == "extcall" and e.data[0] in ("numpy.savez", "numpy.savez_compressed", "numpy.save")]
    if not saves:
        chk.skip(name, "nothing is saved")
        return None
    I, st = R.I, R.st
    return [(I.node(e.data[1][0], st), [I.node(v, st) for v in list(e.data[1][1:]) + list(e.data[2].values())], e) for e in saves], I.node(R.ret, st)


def caches(chk):
    for mod, extra, choices in CHOICES:
        name = "ssspy.utils.dataset.%s.download" % mod
        names = {"root", extra}
        r = cached(chk, name, 3, S(extra))
        if r:
            for path, made, e in r[0]:
                need = set().union(*[depends(n, names) for n in made]) if made else set()
                have = depends(path, names)
                chk.oblige(need <= have, "%s|%s" % (name, extra), "%s: the file the data are kept in does not depend on %s, but its contents do, so another choice gets the data of the first, at %s" % (
                    name, ", ".join(sorted(need - have)), locstr(e.loc)))
                chk.oblige(need == names, "%s|contents" % name, "%s: the data kept do not depend on %s, at %s" % (name, ", ".join(sorted(names - need)), locstr(e.loc)))
                chk.oblige(r[1] is path or depends(r[1], names) == have and text(r[1]) == text(path), "%s|return" % name, "%s does not return the path of the file it keeps the data in, at %s" % (name, locstr(e.loc)))
        seen = {}
        for k in (2, 3):
            made_of = {}
            for c in choices:
                r = cached(chk, name, k, Const(c))
                if r:
                    for path, made, e in r[0]:
                        seen.setdefault(text(path), []).append(((k, c), locstr(e.loc)))
                        made_of.setdefault(tuple(t for n in made for t in text(n)), []).append((c, locstr(e.loc)))
            for v in made_of.values():
                chk.oblige(len(v) == 1, "%s|same data" % name, "%s: the data kept for %d sources are the same for %s, at %s" % (name, k, " and ".join("%s=%s" % (extra, x[0]) for x in v), v[0][1]))
        for t, v in seen.items():
            chk.oblige(len(v) == 1, "%s|same file" % name, "%s: the data for %s are kept in one file, at %s" % (name, " and for ".join("%d sources, %s=%s" % (x[0][0], extra, x[0][1]) for x in v), v[0][1]))


def p28():
    chk = Check("P28", "Files written must be well-formed PCM files of the samples given, files read must give the frames asked for, and cached data must be kept under a name that "
                "depends on everything their contents depend on.", "other", 100)
    from ..framework import sliced
    for part in sliced([writer, reader, caches]):
        part(chk)
    return chk


CHECKS = {"P28": p28}
