"""Update rules against the reported loss, on tensor normal forms (tnf.py): P25 parameter updates, P22 filter updates."""
from __future__ import annotations

from fractions import Fraction as Fr

from .. import configs as C
from ..framework import Check, locstr
from ..interp import Budget, Raised
from ..tnf import ONE, TNF, Term, Unsup, casewise
from ..values import *  # noqa
from .common import ALL, algo_rows, run_all, state_attrs
from .p_gauge import GENERIC, supplied
from .p_ownership import arr_input

FACTORS = {"ILRMA": ("basis", "activation", "latent"), "IPSDTA": ("activation",), "FastGaussMNMF": ("basis", "activation", "spatial"),
           "GaussMNMF": ("basis", "activation", "latent")}


def factors_of(cls):
    for k, v in FACTORS.items():
        if cls.endswith(k):
            return v
    return ()


def prepared(chk, cls, row, tag, extra=None):
    ex = {"record_loss": FALSE}
    ex.update(extra or {})
    sc = supplied(cls, row, tag, ex)
    sc.calls[0]["n_iter"] = Const(0)
    return sc


def fresh_state(R):
    """the prepared object with every state array replaced by an unconstrained one"""
    I, st = R.I, R.st.copy()
    st.events = []
    d = st.objs[R.obj.id]
    for a, (dims, dt) in state_attrs(R.sc.short, R.sc.row).items():
        if a in d and not (isinstance(d[a], Const) and d[a].v is None):
            d[a] = arr_input(a, dims, dt)(I, st)
    for a, dt in (("basis", "c"), ("activation", "f")):
        if isinstance(d.get(a), Tup):       # blocks of two sizes
            d[a] = Tup([I.input_array(st, "%s%d" % (a, i), I.node(x, st).shape, dt) for i, x in enumerate(d[a].items)])
    if R.sc.row.get("blocks") == "ragged" and isinstance(d.get("activation"), Arr):
        d["activation"] = arr_input("activation", ("C", "K", "T"), "f")(I, st)
    if isinstance(d.get("demix_filter"), Const) and isinstance(d.get("output"), Arr):
        d["output"] = arr_input("output", ("C", "F", "T") if C.table()[R.sc.short][2] != "t" else ("C", "T"), "c")(I, st)
    if "variance" in d and isinstance(d["variance"], Arr):
        d["variance"] = arr_input("variance", ("C", "T"), "f")(I, st)
    return st


def normal_form(R, **kw):
    herm = {"spatial"} if R.sc.short == "GaussMNMF" else {"basis", "basis0", "basis1"} if R.sc.short.endswith("IPSDTA") else set()
    return TNF(R.I, GENERIC, herm=herm, **kw)


def invoke(R, st, name, *args):
    s = st.copy()
    s.events = []
    r = R.I.call(R.I.getattr(R.obj, name, s), list(args), {}, s)
    return r, s


def called(R, st, root):
    """names of the object's own methods that run inside `root`, outermost call first"""
    out = []
    I = R.I
    orig = I.call_fn

    def hook(f, args, kw, s):
        if isinstance(f.self, ObjRef) and f.self.id == R.obj.id:
            n = getattr(f.fdef, "name", None)
            if n and n not in out:
                out.append(n)
        return orig(f, args, kw, s)
    I.call_fn = hook
    try:
        invoke(R, st, root)
    finally:
        I.call_fn = orig
    return out


def attr(R, st, a):
    v = st.objs[R.obj.id].get(a)
    return R.I.node(v, st) if isinstance(v, (Arr, Num)) else None


def model_power(t, ex, leaf):
    """power with which the model containing `leaf` appears in the loss"""
    best = Fr(0)

    def walk(ex, mult, depth):
        nonlocal best
        for term in ex:
            for a, e in term.f.items():
                if a[0] != "f":
                    continue
                inner = t.templ[a[2]][0]
                if not t.depends(inner, leaf):
                    continue
                if a[1] == "S":
                    m = mult * e
                    if direct(inner):
                        best = max(best, abs(m))
                    else:
                        walk(inner, m, depth + 1)
                elif a[1] == "inv":
                    best = max(best, Fr(1) * mult)
                elif a[1] in ("log", "logdet"):
                    walk(inner, mult, depth + 1)

    def direct(inner):
        return any(a[0] == "x" and a[1] == leaf for term in inner for a in term.f)
    walk(ex, ONE, 0)
    return best


def p25():
    chk = Check("P25", "Tensor normal forms of the reported loss and of every multiplicative step of a parameter: with step = (numerator/denominator)^e, "
                "the derivative of the loss with respect to that parameter must be a positive multiple of denominator - numerator, and e must be "
                "1/(1+q) (majorisation-minimisation) or 1/q (majorisation-equalisation), q being the power of the model in the loss.", "other", 40)
    scs, seen = [], set()
    for cls in ALL:
        if not factors_of(cls):
            continue
        for row in algo_rows(cls):
            alg = row.get("spatial_algorithm")
            key = (cls, row.get("source_algorithm"), row.get("partitioning"), row.get("blocks"), alg in ("ISS", "ISS1", "ISS2", "IPA"))
            if key in seen:
                continue
            seen.add(key)
            extra = {}
            if cls.endswith("ILRMA") and row.get("source_algorithm") == "MM":
                extra["domain"] = C.atom("domain")
            scs.append(prepared(chk, cls, row, "parameter step", extra))
    for R in run_all(chk, scs):
        try:
            casewise(chk, lambda c: parameter_steps(c, R))
        except Unsup as x:
            chk.skip(R.sc.name, str(x))
    return chk


def parameter_steps(chk, R):
    me = R.sc.row.get("source_algorithm") == "ME"
    try:
        st = fresh_state(R)
        t = normal_form(R)
        r, s = invoke(R, st, "compute_loss")
        lv, loss = t.ev(R.I.node(r, s))
        names = called(R, st, "update_once")
    except (Unsup, Raised, Budget) as x:
        chk.skip(R.sc.name, "loss: %s" % (x,))
        return
    for leaf in factors_of(R.sc.short):
        if leaf not in st.objs[R.obj.id]:
            continue
        found = False
        for name in names:
            m, owner = R.ci.find(name)
            if m is None or len(m.args.args) - 1 - len(m.args.defaults) > 0 or name == "update_once":
                continue
            try:
                _, s = invoke(R, st, name)
            except (Raised, Budget):
                continue
            ch = [a for a in dict.fromkeys([*state_attrs(R.sc.short, R.sc.row), "basis", "activation"]) if attr(R, s, a) is not attr(R, st, a)
                  or isinstance(st.objs[R.obj.id].get(a), Tup) and s.objs[R.obj.id].get(a) != st.objs[R.obj.id][a]]
            if ch != [leaf]:
                continue
            if found:
                continue
            found = True
            multiplicative(chk, R, t, loss, attr(R, s, leaf), leaf, name, me)
        if not found:
            chk.skip(R.sc.name, "no single step of %s" % leaf)


def multiplicative(chk, R, t, loss, node, leaf, name, me):
    what = "%s|%s|%s" % (R.sc.short, name, leaf)
    try:
        J, new = t.ev(node)
        old = [Term(ONE, {("x", leaf, False, J): ONE}, frozenset())]
        rho = t.mul(new, t.pow(old, -1))
        grad = t.diff(loss, leaf, J)
        q = model_power(t, loss, leaf)
        if len(rho) != 1:
            chk.skip(R.sc.name, "%s: step of %s is not multiplicative in normal form" % (name, leaf))
            return
        r = rho[0]
        free_scale = False
        # a factor that only renormalises the result is taken out
        for a, e in list(r.f.items()):
            if a[0] == "f" and a[1] == "S" and e == -1:
                rest = [Term(r.c, {b: x for b, x in r.f.items() if b != a}, r.d)]
                tot = t.mul(rest, old)
                for k in J:
                    if isinstance(k, int) and k not in t.idx(a):
                        v = t.new(t.size[k])
                        tot = t.summed(t.subst(tot, {k: v}), v)
                if t.ratio(tot, t.inst(a[2], a[3])) is not None:
                    r, free_scale = rest[0], True
        forms = []
        if r.d:
            dens = {a: e for a, e in r.f.items() if e < 0 and not any(i in r.d for i in t.idx(a))}
            num = [Term(r.c, {a: e for a, e in r.f.items() if a not in dens}, r.d)]
            forms.append((ONE, num, t.norm(ONE, {a: -e for a, e in dens.items()}, frozenset())))
        else:
            es = sorted({abs(e) for a, e in r.f.items() if a[0] == "f" and a[1] == "S"})
            for e0 in es:
                pos = {a: e / e0 for a, e in r.f.items() if e > 0}
                neg = {a: -e / e0 for a, e in r.f.items() if e < 0}
                c, extra = t._cpow(r.c, 1 / e0, {})
                pos.update(extra)
                for a in [None] + [a for a in neg if a[0] == "f" and a[1] == "S"][:3] * (len(neg) > 1):
                    # numerator and denominator are determined up to a common factor
                    k = {} if a is None else {a: -neg[a]}
                    forms.append((e0, t.norm(c, {**pos, **k}, frozenset()),
                                  t.norm(ONE, {b: x for b, x in neg.items() if b != a}, frozenset())))
        ok = None
        for e0, num, den in forms:
            if free_scale:      # a constant in the ratio is cancelled by the normalisation
                k = t.combination(grad, den, num)
                good = k is not None and k[0].c > 0 > k[1].c
            else:
                k = t.ratio(grad, t.sub(den, num))
                good = k is not None and k.c > 0
            if good:
                ok = e0
        if ok is None and any(t.idx(a) for a in r.f) and t.opaques([grad]) != t.opaques([x for f in forms for x in f[1:]]):
            chk.skip(R.sc.name, "%s: %s" % (name, ", ".join(sorted({t.deps[o][1] for o in t.opaques([grad, new])}))))
            return
    except Unsup as x:
        chk.skip(R.sc.name, "%s: %s" % (name, x))
        return
    chk.oblige(ok is not None, what + "|gradient", "%s.%s(): the fixed points of the step of %s are not the stationary points of the loss "
               "(numerator and denominator are not the two parts of its derivative) at %s [%s]" % (
                   R.sc.short, name, leaf, locstr(node.loc), R.sc.name))
    if ok is None or q == 0:
        return
    want = 1 / q if me else 1 / (1 + q)
    chk.oblige(ok == want, what + "|exponent", "%s.%s(): step exponent of %s is %s at generic parameters, the majoriser gives %s, at %s [%s]" % (
        R.sc.short, name, leaf, ok, want, locstr(node.loc), R.sc.name))


CHECKS = {"P25": p25}
