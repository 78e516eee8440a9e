"""P17 flooring of the single update steps."""
from __future__ import annotations

import contextlib

from .. import configs as C
from ..framework import Broken, Check, locstr
from ..interp import Budget, Raised
from ..values import *  # noqa
from .common import ALL, algo_rows, fingerprint, run_all
from .p_gauge import reach, supplied

OWN, GIVEN = "own flooring_fn", "given flooring_fn"
RENAME = {OWN: "floor", GIVEN: "floor"}


def steps(ci):
    """public methods that take a flooring function and nothing else that is mandatory"""
    out = []
    for k in ci.mro():
        for name, f in k.methods.items():
            if name.startswith("_") or name in out or name == "update_once":
                continue
            a = f.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
            need = len(a.posonlyargs + a.args) - 1 - len(a.defaults)
            if "flooring_fn" in names and need <= 0:
                out.append(name)
    return out + ["update_once"]


def state_of(I, R, st):
    d = {}
    for a, v in st.objs[R.obj.id].items():
        if isinstance(v, (Arr, Num)):
            d[a] = I.node(v, st)
    return d


def p17():
    chk = Check("P17", "Value-graph comparison of every public update step called by itself on a prepared object whose flooring function is an "
                "uninterpreted symbol: (a) without an argument it leaves the state it leaves with that function passed explicitly; (b) with another "
                "uninterpreted function passed, the state is the same up to that renaming and the object's own function is not applied again, nor the library's default one; no variant fails.", "other", 300)
    own, given = C.ufn(OWN, C.same_shape, "arg"), C.ufn(GIVEN, C.same_shape, "arg")
    scs = []
    for cls in ALL:
        ci = chk.project.get_class(C.table()[cls][0])
        if ci is None:
            raise Broken("public class %s is gone" % cls)
        init = ci.find("__init__")[0]
        if init is None or "flooring_fn" not in [a.arg for a in init.args.args + init.args.kwonlyargs]:
            continue
        for row in algo_rows(cls):
            sc = supplied(cls, row, "step")
            sc.calls[0]["n_iter"] = Const(0)
            sc.kwargs["record_loss"] = FALSE
            sc.kwargs["flooring_fn"] = own
            scs.append(sc)
    for R in run_all(chk, scs):
        step_check(chk, R, own, given)
    return chk


def step_check(chk, R, own, given):
    I, base = R.I, R.st
    for name in steps(R.ci):
        m, owner = R.ci.find(name)
        if m is None or "flooring_fn" not in [x.arg for x in m.args.args + m.args.kwonlyargs]:
            continue
        res, new, exempt = {}, len(I.g.nodes), set()
        for label, kw in (("default", {}), ("own", {"flooring_fn": own}), ("given", {"flooring_fn": given})):
            st = base.copy()
            st.events = []
            try:
                with fixed_spans(R, exempt):
                    I.call(I.getattr(R.obj, name, st), [], kw, st)
                res[label] = state_of(I, R, st)
            except Raised as r:
                res[label] = (r.exc, r.msg, r.loc)
            except Budget:
                res[label] = None
        if None in res.values():
            chk.skip(R.sc.name, "%s: budget" % name)
            continue
        if all(isinstance(x, tuple) for x in res.values()):
            continue        # this step does not apply to the configuration
        for label, x in res.items():
            if isinstance(x, tuple):
                chk.fail("%s|%s|raises" % (R.sc.short, name), "%s.%s() %s raises %s (%s) at %s [%s]" % (
                    R.sc.short, name, "by itself" if label == "default" else "with a flooring function passed", x[0], x[1], locstr(x[2]), R.sc.name))
        if any(isinstance(x, tuple) for x in res.values()):
            continue
        d, o, g = res["default"], res["own"], res["given"]
        bad = differing(d, o, None)
        chk.oblige(not bad, "%s|%s|%s" % (R.sc.short, name, ",".join(bad)),
                   "%s.%s() called by itself leaves another %s than with the object's own flooring function passed explicitly [%s]" % (
                       R.sc.short, name, ", ".join(bad), R.sc.name))
        bad = differing(o, g, RENAME)
        chk.oblige(not bad, "%s|%s|given:%s" % (R.sc.short, name, ",".join(bad)),
                   "%s.%s(flooring_fn=f): %s is not what the object's own function would give with f in its place [%s]" % (
                       R.sc.short, name, ", ".join(bad), R.sc.name))
        again = [n for n in reach(list(g.values())) if n.op == "user" and n.attr == OWN and n.id >= new and n.id not in exempt]
        chk.oblige(not again, "%s|%s|own" % (R.sc.short, name),
                   "%s.%s(flooring_fn=f) applies the object's own flooring function at %s [%s]" % (
                       R.sc.short, name, ", ".join(sorted({locstr(n.loc) for n in again})), R.sc.name))
        lib = [n for n in reach(list(g.values())) if n.op == "maximum" and n.id >= new and n.id not in exempt and any(
            a.op == "const" and isinstance(a.attr[1], (int, float)) and a.attr[1] > 0 for a in n.args)]
        chk.oblige(not lib, "%s|%s|library" % (R.sc.short, name),
                   "%s.%s(flooring_fn=f): the library's default flooring is applied instead of f at %s [%s]" % (
                       R.sc.short, name, ", ".join(sorted({locstr(n.loc) for n in lib})), R.sc.name))


@contextlib.contextmanager
def fixed_spans(R, exempt):
    """Collects the nodes made inside the object's public methods whose signature offers no flooring function: what they apply is fixed
    by their own contract."""
    I, orig = R.I, R.I.call_fn

    def hook(f, args, kw, s):
        a = getattr(f.fdef, "args", None)
        lo = len(I.g.nodes)
        try:
            return orig(f, args, kw, s)
        finally:
            if isinstance(f.self, ObjRef) and f.self.id == R.obj.id and a is not None and not f.fdef.name.startswith("_") \
                    and "flooring_fn" not in [x.arg for x in a.args + a.kwonlyargs]:
                exempt.update(range(lo, len(I.g.nodes)))
    I.call_fn = hook
    try:
        yield
    finally:
        I.call_fn = orig


def differing(a, b, rename):
    return sorted(k for k in set(a) | set(b) if a.get(k) is not b.get(k) and (
        k not in a or k not in b or fingerprint([a[k]], rename=rename) != fingerprint([b[k]], rename=rename)))


CHECKS = {"P17": p17}
