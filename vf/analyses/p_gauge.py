"""P13 microphone-basis and phase covariance.  P12 scale covariance.  P14 frames and bins on an equal footing."""
from __future__ import annotations

from fractions import Fraction as Fr

from .. import configs as C
from .. import gauge as G
from ..framework import Check, locstr
from ..gauge import Ty, NEUTRAL, BOT, L, LC
from ..values import *  # noqa
from .common import ALL, algo_rows, axes_of, run_all, shortfn, state_attrs
from .p_ownership import arr_input, NOSECOND
from .p_options import loss_nodes

CP, CM, C0 = ("C+", ()), ("C-", ()), ("C0", ())
S = L(S=1)
N = NEUTRAL


# ------------------------------------------------------------------ user callables
def u_neutral(gauge, n, ts):
    """real-valued function of the moduli of its argument"""
    return gauge.neutral(n)


def u_same(gauge, n, ts):
    return gauge.rebroadcast(ts[0], n) if isinstance(ts[0], Ty) else ts[0]


USER = {"contrast_fn": u_neutral, "d_contrast_fn": u_neutral, "dd_contrast_fn": u_neutral, "penalty_fn": u_neutral,
        "mask_fn": u_neutral, "score_fn": u_same, "d_score_fn": u_neutral, "prox_penalty": u_same}


def off(cls, row):
    r = dict(row)
    for k in ("scale_restoration", "permutation_alignment"):
        if k in axes_of(cls):
            r[k] = False
    return r


def supplied(cls, row, tag="supplied", extra=None):
    sa = state_attrs(cls, row)
    kw = {} if cls == "CACGMM" else {k: arr_input(k, d, dt) for k, (d, dt) in sa.items()}
    sc = C.scenario(cls, row, extra, [kw], tag)
    sc.short, sc.row, sc.sup = cls, row, set(kw)
    return sc


def phase_inputs(cls, row):
    dom = C.table()[cls][2]
    if dom == "t":
        return {"X": Ty([C0, N]), "demix_filter": Ty([S, C0])}
    d = {"X": Ty([CP, N, N]), "demix_filter": Ty([N, S, CM])}
    for k, (dims, dt) in state_attrs(cls, row).items():
        d.setdefault(k, Ty([N] * len(dims)))
    if cls == "GaussMNMF":
        d["spatial"] = Ty([N, N, CP, CM])
    if cls == "FastGaussMNMF":
        d["diagonalizer"] = Ty([N, L(M=1), CM])
    if cls.startswith("PDS"):
        d["dual"] = Ty([N, S, N, N])
    elif "dual" in d:
        d["dual"] = Ty([S, N, N])
    if "auxiliary1" in d:
        d["auxiliary1"] = d["dual1"] = d["demix_filter"]
        d["auxiliary2"] = d["dual2"] = Ty(([] if cls.startswith("Masking") else [N]) + [S, N, N])
    return d


def phase_final(cls, row):
    """how the results must transform"""
    dom = C.table()[cls][2]
    d = phase_inputs(cls, row)
    d.pop("X")
    if dom == "t":
        d["output"] = Ty([S, N])
    elif cls in ("GaussMNMF", "FastGaussMNMF"):
        d.pop("demix_filter")
        d["output"] = None
    elif cls == "CACGMM":
        d = {"posterior": Ty([N, N, N]), "mixing": Ty([N, N]), "covariance": Ty([N, N, CP, CM])}
    else:
        d["output"] = Ty([S, N, N])
    return d


def report(chk, R, ga, what):
    for (fn, loc, m), (n, msg) in ga.issues.items():
        chk.fail("%s|%s|%s" % (R.sc.short, shortfn(fn or "?"), what),
                 "%s (%s) %s [%s]" % (shortfn(fn or "?"), locstr(loc), msg, R.sc.name))
    k = len(ga.issues)
    chk.ok(max(0, ga.checked - k))
    un = sum(1 for t in ga.ty.values() if t is None)
    chk.count("typed values", len(ga.ty) - un)
    chk.count("values of unknown type", un)


def compare(chk, R, ga, final, what):
    c = R.calls[0]
    for a, want in sorted(final.items()):
        n = c.attrnodes.get(a)
        if n is None or want is None:
            continue
        t = ga.t(n)
        if not isinstance(t, Ty):
            continue
        q = ga.fit(n, want)
        if not isinstance(q, Ty):
            continue
        ga.issues, keep = {}, ga.issues
        ga.addlike(q, t, n, "compares")
        bad = dict(ga.issues)
        ga.issues = keep
        chk.oblige(not bad, "%s|final|%s" % (R.sc.short, a), "%s ends with %s transforming as %s instead of %s [%s]" % (
            R.sc.short, a, ga.tys(t), ga.tys(want), R.sc.name))
    for n in loss_nodes(R, c):
        t = ga.t(n)
        if isinstance(t, Ty):
            chk.oblige(not ga.charged(t, True), "%s|loss" % R.sc.short, "%s records a loss that depends on the phase or microphone basis: %s [%s]" % (
                R.sc.short, ga.tys(t), R.sc.name))


def roots(R):
    c = R.calls[0]
    return [n for a, n in sorted(c.attrnodes.items()) if n is not None and a != "input"] + [c.retnode] + loss_nodes(R, c)


def whitening(R, ga, real):
    """filters of methods that whiten first act on the eigenvector axis of the whitened mixture"""
    if "Fast" not in R.sc.short or "MNMF" in R.sc.short:
        return False
    x = ga.inputs.pop("demix_filter", None)
    ga.run(roots(R))
    want = (C0, C0) if real else (CP, CM)
    ev = {n.args[0].id for n in R.g.nodes if n.op == "eigvec" and isinstance(ga.t(n.args[0]), Ty)
          and ga.t(n.args[0]).axes[-2:] == want}
    if len(ev) != 1:
        return False
    k = L(**{"E#%d" % ev.pop(): 1})
    ga.inputs["demix_filter"] = Ty([S, k]) if real else Ty([N, S, k])
    return True


def p13():
    chk = Check("P13", "Transformation typing: every array axis is typed by how it transforms under a unitary change of the microphone basis "
                "(contravariant, covariant) and under rephasing of each source row; sums, products, conjugates, inverses, eigenvectors have "
                "typing rules, and every contraction, addition, comparison and store must be well typed.", "other", 3000)
    scs = []
    for cls in ALL:
        for row in algo_rows(cls):
            scs.append(supplied(cls, off(cls, row)))
            for nm in ("normalization", "source_normalization"):
                for v in axes_of(cls).get(nm, [])[1:]:
                    if v != "projection_back":      # which ties every source to the reference microphone
                        scs.append(supplied(cls, off(cls, dict(row, **{nm: v}))))
    for R in run_all(chk, scs):
        cls, row = R.sc.short, R.sc.row
        real = C.table()[cls][2] == "t"
        ga = G.Gauge(R.g, {"S": "phase2" if real else "phase", "M": "phase"}, phase_inputs(cls, row), USER, real=real,
                     perbin=None if real or "IPSDTA" in cls else "F")
        ga.diag_ok = cls == "CACGMM"
        if whitening(R, ga, real):
            final = {}
        else:
            final = phase_final(cls, row)
        if not ga.run(roots(R)):
            chk.skip(R.sc.name, "no fixpoint")
        report(chk, R, ga, "phase")
        compare(chk, R, ga, final, "phase")
    return chk

# ------------------------------------------------------------------ P12: units of measurement
GRAD = ("Grad", "PDS", "ADMM", "Masking", "HVA")


GENERIC = {"domain": Fr(7, 5), "dof": Fr(11, 3), "beta": Fr(9, 7)}


def gains(cls, row, sym=False, once=False):
    """(name, kinds, inputs, final, constants) for every rescaling under which the class is covariant"""
    dom = C.table()[cls][2]
    sa = state_attrs(cls, row)
    base = {"X": Ty([N] * (2 if dom == "t" else 3))}
    base["output"] = base["X"]
    if dom == "t":
        base["demix_filter"] = Ty([N, N])
    for k, (dims, dt) in sa.items():
        base[k] = Ty([N] * len(dims))
    out = []

    def add(name, inp, values=None, sumcharge=None, final=None):
        i = dict(base)
        i.update(inp)
        f = {k: v for k, v in i.items() if k != "X"}
        if cls == "CACGMM":
            f.pop("output")
        f.update(final or {})
        out.append((name, i, f, GENERIC, sumcharge))

    res = lambda k, **r: Ty(base[k].axes, {(g, None): Fr(v) for g, v in r.items()})
    nat = cls.startswith("NaturalGrad")
    if not cls.startswith(GRAD) or "Grad" in cls:
        # frames
        add("frame count", {}, sumcharge={"T": "n"})
    if not cls.startswith(GRAD) or nat:
        if cls == "CACGMM":
            add("mixture level", {"X": res("X", a=1)})
        elif cls == "GaussMNMF":
            add("mixture level", {"X": res("X", a=1), "basis": res("basis", a=2)}, final={"output": res("output", a=1)})
        elif cls == "FastGaussMNMF":
            add("mixture level", {"X": res("X", a=1), "diagonalizer": res("diagonalizer", a=-1)}, final={"output": res("output", a=1)})
        elif cls in ("FastICA", "FastIVA", "FasterIVA"):
            add("mixture level", {"X": res("X", a=1)})
        elif "demix_filter" in base:
            fin = {}
            if once and row.get("normalization") == "projection_back":
                fin = {"demix_filter": base["demix_filter"], "basis": res("basis", a=GENERIC["domain"] if sym else 2), "output": res("output", a=1)}
            add("mixture level", {"X": res("X", a=1), "demix_filter": res("demix_filter", a=-1)}, final=fin)
    if "activation" in sa and "basis" in sa:
        kax = lambda dims, v: Ty([L(k=v) if d == "K" else N for d in dims])
        fin = None
        if row.get("source_normalization"):
            fin = {"basis": base["basis"], "activation": base["activation"]}
        add("component scale", {"basis": kax(sa["basis"][0], 1), "activation": kax(sa["activation"][0], -1)}, final=fin)
    if cls.endswith("ILRMA"):
        # every source on its own scale
        if row.get("partitioning"):
            pass
        else:
            p = GENERIC["domain"] if sym else 2
            done = {"demix_filter": base["demix_filter"], "basis": base["basis"]}
            norm = row.get("normalization")
            if not norm or once:
                add("source scale", {"demix_filter": Ty([N, L(s=1), N]), "basis": Ty([L(s=p), N, N])}, final=done if norm else {"output": Ty([L(s=1), N, N])})
            if not norm or once and norm == "projection_back":
                add("bin scale", {"demix_filter": Ty([L(s=1), N, N]), "basis": Ty([N, L(s=p), N])}, final=done if norm else {"output": Ty([N, L(s=1), N])})
    return out


def p12():
    chk = Check("P12", "Scaling-dimension typing: every array carries its degree under a change of the mixture's level, of the scale split between "
                "basis and activation, of the scale of each source (filter row with its variance model) and of the number of frames (a sum over "
                "frames gains one degree, a mean none); sums, comparisons and stores must join equal degrees and the results must have the "
                "degree they started with.", "other", 20000)
    scs = []
    for cls in ALL:
        for row in algo_rows(cls):
            scs.append(supplied(cls, off(cls, row)))
            if "source_normalization" in row:
                scs.append(supplied(cls, off(cls, dict(row, source_normalization=False))))
            if "normalization" in row and not cls.endswith("ILRMA"):
                scs.append(supplied(cls, off(cls, dict(row, normalization=False))))
            if cls.endswith("ILRMA"):
                r = off(cls, row)
                scs.append(supplied(cls, dict(r, normalization=False)))
                if row["source_algorithm"] == "MM":
                    for nm in (True, False):
                        sc = supplied(cls, dict(r, normalization=nm), "supplied,domain=p", {"domain": C.atom("domain")})
                        sc.sym = True
                        scs.append(sc)
                    if not row["partitioning"]:
                        for nm in (True, "projection_back"):
                            sc = supplied(cls, dict(r, normalization=nm), "supplied,domain=p,1 iteration", {"domain": C.atom("domain")})
                            sc.calls[0]["n_iter"] = Const(1)
                            sc.sym = sc.once = True
                            scs.append(sc)
    for R in run_all(chk, scs):
        cls, row = R.sc.short, R.sc.row
        real = C.table()[cls][2] == "t"
        for name, inp, final, values, sc in gains(cls, row, getattr(R.sc, "sym", False), getattr(R.sc, "once", False)):
            ga = G.Gauge(R.g, {"a": "gain", "n": "gain", "k": "gain", "s": "gain"}, inp, USER, real=real, values=values, sumcharge=sc)
            ga.nophase = True
            ga.scalar = name in ("frame count", "mixture level", "component scale")
            if not ga.run(roots(R)):
                chk.skip(R.sc.name, "no fixpoint")
            report(chk, R, ga, name)
            compare(chk, R, ga, final, name)
    return chk


CHECKS = {"P13": p13, "P12": p12}


# ------------------------------------------------------------------ P15: scale restoration
def charges(t):
    d = {}
    for i, (r, c) in enumerate(t.axes):
        if r == "L":
            for k, v in c:
                d[(k, "axis %d" % i)] = v
    for k, v in (t.res if t.res != "?" else {}).items():
        d[k] = v
    return d


def p15():
    from .. import funcs as F
    chk = Check("P15", "Gauge typing of scale restoration: every filter row of every bin is given an arbitrary complex scale, every microphone an "
                "arbitrary gain; after restoration the estimate and the filter must carry no source or bin scale and exactly the gain of the "
                "reference microphone.", "other", 60)
    kinds = {"s": "gain", "f": "gain", "m": "gain", "ph": "phase", "fp": "phase"}
    W = lambda ax=None: Ty([L(f=1, fp=1), L(s=1, ph=1), L(m=-1)])
    X3 = Ty([L(m=1), N, N])
    Y3 = Ty([L(s=1, ph=1), L(f=1, fp=1), N])
    scs = []
    for cls in ALL:
        ax = axes_of(cls)
        if "scale_restoration" not in ax:
            continue
        for row in algo_rows(cls):
            for sr in ax["scale_restoration"]:
                if not sr:
                    continue
                r = off(cls, row)
                r["scale_restoration"] = sr
                sc = supplied(cls, r, "supplied,0 iterations", {"reference_id": C.atom("reference_id")})
                sc.calls[0]["n_iter"] = Const(0)
                scs.append(sc)

    def judge(name, short, what, n, t, shape_axes, lead):
        """lead: reference axis in front (reference_id=None)"""
        if not isinstance(t, Ty) or any(x[0] == "?" for x in t.axes) or t.res == "?":
            chk.count("results of unknown type", 1)
            return
        ch = charges(t)
        bad = []
        for k, v in ch.items():
            g = k[0]
            while isinstance(g, tuple):
                g = g[0]
            if g in ("s", "f", "ph", "fp"):
                bad.append("the %s of the filter (power %s)" % ({"s": "scale", "f": "scale", "ph": "phase", "fp": "phase"}[g], v))
        chk.oblige(not bad, "%s|%s" % (short, what), "%s of %s still depends on %s after scale restoration [%s]" % (what, short, ", ".join(sorted(set(bad))), name))
        return ch

    for R in run_all(chk, scs):
        cls, row = R.sc.short, R.sc.row
        ga = G.Gauge(R.g, kinds, {"X": X3, "demix_filter": W(), "dual": None}, USER)
        mic = "m"
        if cls.startswith("Fast"):
            ga.inputs["X"] = Ty([CP, N, N])
            if whitening(R, ga, False):
                w = ga.inputs["demix_filter"]
                ga.inputs["demix_filter"] = Ty(W().axes[:2] + w.axes[2:])
                mic = "C"
        if not ga.run(roots(R)):
            chk.skip(R.sc.name, "no fixpoint")
        c = R.calls[0]
        ref = R.I.node(R.ctor_kw["reference_id"], R.st)
        chk.ok(max(0, ga.checked - len(ga.issues)))
        for a in ("output", "demix_filter"):
            n = c.attrnodes.get(a)
            if n is None or n.shape == ():
                continue
            t = ga.t(n)
            ch = judge(R.sc.name, cls, a, n, t, None, False)
            if ch is None:
                continue
            m = {k: v for k, v in ch.items() if k[0] == mic}
            want = {(mic, ref.id): 1}
            if a == "demix_filter" and mic == "m":
                want[("m", "axis 2")] = -1
            chk.oblige(m == want, "%s|%s|reference" % (cls, a), "%s of %s does not scale with the reference microphone alone after scale restoration [%s]: %s"
                       % (a, cls, R.sc.name, ga.tys(t)))
    for e in [e for e in F.table() if e[0].endswith(("projection_back", "minimal_distortion_principle"))]:
        R = F.run(chk.project, e)
        if R.error is not None:
            chk.skip(R.name, str(R.error))
            continue
        chk.tried += 1
        ga = G.Gauge(R.g, kinds, {"X": X3, "Y": Y3, "W": W()}, USER)
        ga.run([R.retnode])
        t = ga.t(R.retnode)
        short = e[0].rsplit(".", 1)[-1]
        ch = judge(R.name, short, "result", R.retnode, t, None, False)
        if ch is None:
            continue
        m = {k: v for k, v in ch.items() if k[0] == "m"}
        want = {("m", "axis 3"): -1} if R.args[0] is not None and e[1].startswith("filter") and "None" in e[1] else {}
        if e[1].startswith("filter") and "None" not in e[1]:
            want = {("m", "axis 2"): -1}
        if "None" in e[1]:
            want[("m", "axis 0")] = 1
            m2 = m
        else:
            m2 = {k: v for k, v in m.items() if isinstance(k[1], str)}
            z = [k for k in m if not isinstance(k[1], str)]
            chk.oblige(len(z) == 1 and m[z[0]] == 1 and R.g.int_value(R.g.nodes[z[0][1]]) == 0, "%s|reference" % short,
                       "%s does not project onto the reference microphone" % R.name)
        chk.oblige(m2 == want, "%s|result|reference" % short, "%s does not scale with the reference microphone alone: %s" % (R.name, ga.tys(t)))
    return chk


CHECKS["P15"] = p15


# ------------------------------------------------------------------ P14: frames and bins on an equal footing
ELEMENTWISE = {"add", "sub", "mul", "div", "pow", "cmp", "where", "exp", "log", "maximum", "minimum", "mod", "cos", "sin"}
ORDERED = {"argsort", "argmax", "argmin", "cumsum", "cumprod", "sort", "diff", "flip", "roll", "fft", "ifft", "rfft", "irfft"}
REDUCE = {"sum", "mean", "prod", "rmax", "rmin", "std", "var", "norm", "median", "all", "any"}


def reach(roots):
    seen, todo = {}, [r for r in roots if r is not None]
    while todo:
        n = todo.pop()
        if n.id not in seen:
            seen[n.id] = n
            todo.extend(n.args)
    return seen.values()


def p14():
    chk = Check("P14", "Axis discipline in the value graph: on every path to the filters, parameters, estimate and loss, an axis of frames (samples) or "
                "bins is only mapped over or reduced symmetrically; selecting, ordering, accumulating along it or combining it with its own "
                "positions is a violation; for bin-wise methods no reduction over bins reaches the estimate.", "other", 100)
    scs = []
    for cls in ALL:
        for row in algo_rows(cls):
            scs.append(supplied(cls, off(cls, row)))
    for R in run_all(chk, scs):
        cls = R.sc.short
        ga = G.Gauge(R.g, {}, {})
        names = {"T": "sample" if C.table()[cls][2] == "t" else "frame", "F": "bin"}
        if "HVA" in cls:
            del names["F"]      # the cepstral mask smooths along the bins
        dims = {}

        def dim(d):
            if d.id not in dims:
                dims[d.id] = ga.dimname(d)
            return dims[d.id]

        def bad(n, what):
            chk.fail("%s|%s|%s" % (cls, shortfn(n.fn or "?"), what), "%s (%s) %s [%s]" % (
                shortfn(n.fn or "?"), locstr(n.loc), what, R.sc.name))

        def each(ix):
            """index that runs over a whole loop"""
            while ix.op == "poly" and len(ix.attr) == 1 and ix.attr[0][1] == 1 and len(ix.attr[0][0]) == 1:
                ix = ix.args[0]
            return ix.op in ("loopidx", "iterelem")

        for n in reach(roots(R)):
            if not n.args:
                if n.op == "arange" or n.shape is None:
                    continue
            a = n.args[0] if n.args else None
            if n.op in ELEMENTWISE:
                for x in n.args:
                    while x.op in ("expand", "bcast", "cast", "reshape", "transpose"):
                        x = x.args[0]
                    if x.op == "arange" and x.shape and dim(x.shape[0]) in names:
                        bad(n, "uses the position along the %s axis as a value" % names[dim(x.shape[0])])
                chk.ok()
            if a is None or not a.shape:
                continue
            ax = [i for i, d in enumerate(a.shape) if dim(d) in names]
            if not ax:
                continue
            if n.op in ("index", "store") and isinstance(n.attr, tuple):
                idx = n.args[1:] if n.op == "index" else n.args[2:]
                for i in ax:
                    s = n.attr[i]
                    chk.ok()
                    if s == "f":
                        continue
                    nm = names[dim(a.shape[i])]
                    if s[0] == "i":
                        if not each(idx[s[1]]):
                            bad(n, "singles out one %s" % nm)
                    else:
                        bad(n, "takes only part of the %s axis" % nm)
            elif n.op == "gather":
                if n.attr in ax:
                    bad(n, "selects entries of the %s axis" % names[dim(a.shape[n.attr])])
            elif n.op in ORDERED:
                at = n.attr if isinstance(n.attr, int) else n.attr[0] if isinstance(n.attr, tuple) and n.attr else None
                ats = at if isinstance(at, tuple) else (at,)
                for i in ats:
                    if isinstance(i, int) and i % len(a.shape) in ax:
                        bad(n, "orders or accumulates along the %s axis" % names[dim(a.shape[i])])
            elif n.op == "concat" and n.attr in ax:
                bad(n, "joins pieces along the %s axis" % names[dim(a.shape[n.attr])])
            else:
                chk.ok()
        if "FDICA" in cls:
            c = R.calls[0]
            for n in reach([c.retnode, c.attrnodes.get("demix_filter")]):
                if n.op in REDUCE and n.args and n.args[0].shape and isinstance(n.attr, tuple):
                    for i in n.attr[0] if isinstance(n.attr[0], tuple) else ():
                        if isinstance(i, int) and dim(n.args[0].shape[i]) == "F":
                            bad(n, "reduces over bins on the way to the estimate of a bin-wise method")
                chk.ok()
    return chk


CHECKS["P14"] = p14
