"""Analysis entry scenarios for the public functions (linalg, algorithm, special, transform, ...)."""
from __future__ import annotations

from .interp import Interp, Frame, Raised, Budget
from .values import *  # noqa
from .values import State
from .configs import Run, entry_frame, ufn, same_shape, resolve_kw


def A(name, dims, dt="c"):
    """array argument of symbolic shape; integer dims are concrete"""
    def f(I, st):
        g = I.g
        return I.input_array(st, name, tuple(g.const(d) if isinstance(d, int) else g.sym(d) for d in dims), dt)
    return f


def S(name, dt="f"):
    def f(I, st):
        n = I.g.mk("atom", (), name, ())
        n.meta = {"dt": dt}
        return Num(n)
    return f


def DIM(name):
    return lambda I, st: Num(I.g.sym(name))


FLOOR = lambda: ufn("flooring_fn", same_shape, "arg")


def table():
    t = []

    def add(fn, tag, args, out=None, **kw):
        """out: expected result dims (list of dims or tuple of those), None = not stated"""
        t.append(("ssspy." + fn, tag, args, kw, out))

    C, N, F, T, K = "C", "N", "F", "T", "K"
    # linear algebra
    for dt in ("f", "c"):
        add("linalg.quadratic.quadratic", dt, [A("X", ["B", C], dt), A("A", ["B", C, C], "c" if dt == "c" else "f")], ["B"])
        add("linalg.cubic.cbrt", dt, [A("x", ["B"], dt)], ["B"])
        add("linalg.inv.inv2", dt, [A("X", ["B", 2, 2], dt)], ["B", 2, 2])
        add("linalg.eigh.eigh", dt + ",std", [A("A", ["B", C, C], dt)], (["B", C], ["B", C, C]))
        for ty in (1, 2, 3):
            add("linalg.eigh.eigh", "%s,type=%d" % (dt, ty), [A("A", ["B", C, C], dt), A("B", ["B", C, C], dt)],
                (["B", C], ["B", C, C]), type=Const(ty))
            add("linalg.eigh.eigh2", "%s,type=%d" % (dt, ty), [A("A", ["B", 2, 2], dt), A("B", ["B", 2, 2], dt)],
                (["B", 2], ["B", 2, 2]), type=Const(ty))
            add("linalg.mean.gmeanmh", "%s,type=%d" % (dt, ty), [A("A", ["B", C, C], dt), A("B", ["B", C, C], dt)],
                ["B", C, C], type=Const(ty))
        add("linalg.sqrtm.sqrtmh", dt, [A("X", ["B", C, C], dt)], ["B", C, C])
        add("linalg.sqrtm.invsqrtmh", dt, [A("X", ["B", C, C], dt)], ["B", C, C])
        add("linalg.sqrtm.invsqrtmh", dt + ",floor", [A("X", ["B", C, C], dt)], ["B", C, C], flooring_fn=FLOOR)
        add("linalg._solve.solve", dt + ",vec", [A("a", ["B", C, C], dt), A("b", ["B", C], dt)], ["B", C])
        add("linalg._solve.solve", dt + ",mat", [A("a", ["B", C, C], dt), A("b", ["B", C, K], dt)], ["B", C, K])
        add("linalg.polynomial.solve_cubic", dt + ",monic", [A("A", ["B"], dt), A("B", ["B"], dt), A("C", ["B"], dt)], [3, "B"])
        add("linalg.polynomial.solve_cubic", dt + ",general",
            [A("A", ["B"], dt), A("B", ["B"], dt), A("C", ["B"], dt), A("D", ["B"], dt)], [3, "B"])
        add("linalg.prox.l1", dt, [A("x", [C, F, T], dt)], [C, F, T], step_size=S("step_size"))
        add("linalg.prox.l21", dt, [A("x", [C, F, T], dt)], [C, F, T], step_size=S("step_size"), axis2=Const(1))
        add("linalg.prox.neg_logdet", dt, [A("X", [F, C, C], dt)], [F, C, C], step_size=S("step_size"))
        add("special.psd.to_psd", dt, [A("X", [F, C, C], dt)], [F, C, C])
        add("special.psd.to_psd", dt + ",floor", [A("X", [F, C, C], dt)], [F, C, C], flooring_fn=FLOOR)
    add("linalg.prox.neg_log", "f", [A("x", [C, F], "f")], [C, F], step_size=S("step_size"))
    for mi in (1, 10):
        add("linalg.lqpqm.lqpqm2", "max_iter=%d" % mi,
            [A("H", [F, "M", "M"], "c"), A("v", [F, "M"], "c"), A("z", [F], "f")], [F, "M"], max_iter=Const(mi))
    # special functions
    for ax, tag in ((Const(0), "axis0"), (Const(-1), "axis-1"), (NONE, "all")):
        add("special.softmax.softmax", tag, [A("X", ["B", "M"], "f")], ["B", "M"], axis=ax)
        add("special.logsumexp.logsumexp", tag, [A("X", ["B", "M"], "f")],
            {"axis0": ["M"], "axis-1": ["B"], "all": []}[tag], axis=ax)
        add("special.logsumexp.logsumexp", tag + ",keepdims", [A("X", ["B", "M"], "f")],
            {"axis0": [1, "M"], "axis-1": ["B", 1], "all": [1, 1]}[tag], axis=ax, keepdims=TRUE)
    for f in ("max_flooring", "add_flooring"):
        add("special.flooring." + f, "", [A("X", ["B", "M"], "f")], ["B", "M"])
    add("special.flooring.identity", "", [A("X", ["B", "M"], "f")], ["B", "M"])
    # scale restoration and permutation
    for rid, tag in ((Const(0), "ref=0"), (NONE, "ref=None")):
        lead = [] if tag == "ref=0" else [C]
        add("algorithm.projection_back.projection_back", "filter," + tag, [A("W", [F, C, C], "c")],
            lead + [F, C, C], reference_id=rid)
        add("algorithm.projection_back.projection_back", "data," + tag, [A("Y", [C, F, T], "c")],
            lead + [C, F, T], reference=A("X", [C, F, T], "c"), reference_id=rid)
        add("algorithm.minimal_distortion_principle.minimal_distortion_principle", tag, [A("Y", [C, F, T], "c")],
            lead + [C, F, T], reference=A("X", [C, F, T], "c"), reference_id=rid)
    pa = "algorithm.permutation_alignment."
    for ov in (True, False):
        add(pa + "correlation_based_permutation_solver", "overwrite=%s" % ov, [A("Y", [F, N, T], "c")], [F, N, T],
            overwrite=Const(ov))
        add(pa + "correlation_based_permutation_solver", "overwrite=%s,args" % ov,
            [A("Y", [F, N, T], "c"), A("W", [F, N, C], "c")], ([F, N, T], [F, N, C]), overwrite=Const(ov))
        add(pa + "correlation_based_permutation_solver", "overwrite=%s,args2" % ov,
            [A("Y", [F, N, T], "c"), A("W", [F, N, C], "c"), A("Z", [F, N], "f")], None, overwrite=Const(ov))
        add(pa + "score_based_permutation_solver", "overwrite=%s" % ov, [A("Y", [F, N, T], "f")], [F, N, T],
            overwrite=Const(ov))
        add(pa + "score_based_permutation_solver", "overwrite=%s,args" % ov,
            [A("Y", [F, N, T], "f"), A("W", [F, N, C, C], "c"), A("Z", [F, N], "f")], None, overwrite=Const(ov))
    # spatial model updates
    us = "bss._update_spatial_model."
    for ov in (True, False):
        add(us + "update_by_ip1", "overwrite=%s" % ov, [A("W", [F, C, C], "c"), A("U", [F, C, C, C], "c")], [F, C, C],
            overwrite=Const(ov))
        add(us + "update_by_ip2", "overwrite=%s" % ov, [A("W", [F, C, C], "c"), A("U", [F, C, C, C], "c")], [F, C, C],
            overwrite=Const(ov))
        add(us + "update_by_block_decomposition_vcd", "overwrite=%s" % ov,
            [A("W", ["B", "L", C, C], "c"), A("RXX", ["B", "L", "L", C, C, C], "c")], ["B", "L", C, C], overwrite=Const(ov))
    for f in ("iss1", "iss2", "ipa"):
        add(us + "update_by_" + f, "", [A("Y", [C, F, T], "c"), A("phi", [C, F, T], "f")], [C, F, T])
    # transforms
    add("transform.whiten.whiten", "2d", [A("X", [C, T], "f")], [C, T])
    add("transform.whiten.whiten", "3d complex", [A("X", [C, F, T], "c")], [C, F, T])
    add("transform.whiten.whiten", "3d real", [A("X", ["B", C, T], "f")], ["B", C, T])
    add("transform.whiten.whiten", "4d", [A("X", ["B", C, F, T], "c")], ["B", C, F, T])
    for asc in (True, False):
        add("transform.pca.pca", "2d,ascend=%s" % asc, [A("X", [C, T], "f")], [C, T], ascend=Const(asc))
        add("transform.pca.pca", "3d complex,ascend=%s" % asc, [A("X", [C, F, T], "c")], [C, F, T], ascend=Const(asc))
        add("transform.pca.pca", "3d real,ascend=%s" % asc, [A("X", ["B", C, T], "f")], ["B", C, T], ascend=Const(asc))
        add("transform.pca.pca", "4d,ascend=%s" % asc, [A("X", ["B", C, F, T], "c")], ["B", C, F, T], ascend=Const(asc))
    return t


def run(project, entry, budget=3_000_000, before=None):
    fn, tag, args, kw, out = entry
    I = Interp(project, budget)
    if before:
        before(I)
    I.blocks = None
    st = State()
    R = Run()
    R.I, R.g, R.st, R.error = I, I.g, st, None
    R.name = fn + ("[%s]" % tag if tag else "")
    R.out = out
    got = project.get_func(fn)
    if got is None:
        R.error = ("missing", fn)
        return R
    fdef, mod = got
    entry_frame(I, st, mod)
    R.events = st.events
    try:
        R.args = [a if isinstance(a, V) else a(I, st) for a in args]
        R.kw = resolve_kw(kw, I, st)
        R.argnodes = [I.node(a, st) for a in R.args]
        R.ret = I.call(Fn(fdef, mod), R.args, R.kw, st)
        R.retnode = I.node(R.ret, st)
    except Raised as r:
        R.error = ("raised", r.exc, r.msg, r.loc, r.explicit)
    except Budget:
        R.error = ("budget",)
    R.events = st.events
    return R


def dims(g, spec):
    return tuple(g.const(d) if isinstance(d, int) else g.sym(d) for d in spec)


def out_shapes(R):
    """list of (actual node shape, expected) pairs, or None when the return value is not analysable"""
    I, st, v = R.I, R.st, R.ret
    if R.out is None:
        return None
    if isinstance(R.out, tuple):
        items = I.iter_items(v, st) if isinstance(v, (Tup, LstRef)) else None
        if items is None or len(items) != len(R.out):
            return [(None, R.out)]
        return [(I.node(x, st).shape, dims(R.g, s)) for x, s in zip(items, R.out)]
    return [(R.retnode.shape, dims(R.g, R.out))]
