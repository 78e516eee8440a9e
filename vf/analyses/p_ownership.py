"""P01: arrays handed over by the caller are never modified, retained by reference, or clobbered later."""
from __future__ import annotations

from .. import configs as C
from .. import funcs as Fs
from ..framework import Check, locstr, sliced
from ..values import *  # noqa
from .common import ALL, algo_rows, default_row, axes_of, run_all, walk, state_attrs, shortfn


NOSECOND = ("ISS", "ISS1", "ISS2", "IPA")


def arr_input(name, dims, dt):
    def f(I, st):
        g = I.g
        ds = []
        for d in dims:
            ds.append(g.const(d) if isinstance(d, int) else (C.bins(I) if d == "F" else g.sym(d)))
        return I.input_array(st, name, tuple(ds), dt)
    return f


def warm_calls(cls, row):
    sa = state_attrs(cls, row)
    kw = {k: arr_input(k, d, dt) for k, (d, dt) in sa.items()}
    return [kw, {}]


def owned(I, buf, prefixes):
    for r in I.roots(buf):
        o = I.owner.get(r)
        if o and o.startswith(prefixes):
            return o
    return None


def reach(I, st, v, seen):
    """buffers reachable from an abstract value"""
    if isinstance(v, Arr):
        yield v.buf
    elif isinstance(v, Tup):
        for x in v.items:
            yield from reach(I, st, x, seen)
    elif isinstance(v, Rep):
        yield from reach(I, st, v.val, seen)
    elif isinstance(v, LstRef):
        if ("l", v.id) not in seen:
            seen.add(("l", v.id))
            for x in st.lists.get(v.id, ()):
                yield from reach(I, st, x, seen)
    elif isinstance(v, Union):
        yield from reach(I, st, v.a, seen)
        yield from reach(I, st, v.b, seen)


def check_writes(chk, I, events, where):
    n = 0
    for e in walk(events):
        if e.kind != "write":
            continue
        n += 1
        root, tag, how = e.data[0], e.data[1], e.data[2]
        if tag and (tag.startswith("caller:") or tag.startswith("result:")):
            what = tag.split(":", 1)[1]
            kind = "an array passed in by the caller (%s)" % what if tag.startswith("caller:") else \
                "an array returned by an earlier call (%s)" % what
            chk.fail("write|%s|%s|%s" % (shortfn(e.fn), tag, where.split("[")[0]),
                     "%s: %s in %s modifies %s in place [%s]" % (locstr(e.loc), how, shortfn(e.fn), kind, where))
        else:
            chk.ok()
    chk.count("in-place writes examined", n)


def p01():
    chk = Check("P01", "Ownership/effect analysis: every in-place store (subscript assignment, augmented assignment, out=, "
                "fill ...) is resolved through views and aliases to the buffers it may hit; none may belong to the "
                "caller, and no attribute kept by a method may alias a caller's array.", "other", 1500)
    scs = []
    for cls in ALL:
        for row in algo_rows(cls):
            # the filter-free updates leave no filter to continue from (see known findings of P05)
            n = 1 if str(row.get("spatial_algorithm", "")) in NOSECOND else 2
            scs.append(C.scenario(cls, row, calls=[{}, {}][:n], tag="%d calls" % n))
            if state_attrs(cls, row):
                scs.append(C.scenario(cls, row, calls=warm_calls(cls, row)[:n], tag="resumed"))
        for k, vs in axes_of(cls).items():
            for v in vs[1:]:
                r = default_row(cls)
                r[k] = v
                if r not in algo_rows(cls):
                    scs.append(C.scenario(cls, r))

    def before(R, c, st, k):
        I = R.I
        if k == 1:
            prev = R.calls[0]
            for b in reach(I, st, prev.ret, set()):
                for r in I.roots(b):
                    if not (I.owner.get(r) or "").startswith("caller:"):
                        I.owner[r] = "result:output of the first call"

    def examine(R):
        I = R.I
        for c in R.calls:
            check_writes(chk, I, c.events, R.sc.name)
            for a, v in c.attrs.items():
                for b in reach(I, R.st, v, set()):
                    o = owned(I, b, ("caller:",))
                    chk.oblige(o is None, "retain|%s|%s|%s" % (R.ci.name, a, o),
                               "%s keeps the caller's array %s itself (not a copy) as attribute %r: later changes made "
                               "by the caller would silently alter the model [%s]" % (R.ci.name, o, a, R.sc.name))
            for b in reach(I, R.st, c.ret, set()):
                o = owned(I, b, ("caller:",))
                chk.oblige(o is None, "alias|%s|%s" % (R.ci.name, o),
                           "%s returns the caller's own array %s [%s]" % (R.ci.name, o, R.sc.name))

    for R in run_all(chk, scs, before_call=before):
        examine(R)
    # a run that stops in the second call still shows what the first one wrote
    for e in sliced(Fs.table()):
        if "overwrite=True" in e[1]:
            continue
        try:
            R = Fs.run(chk.project, e)
        except Exception as ex:
            chk.skip(e[0] + e[1], repr(ex))
            continue
        if R.error:
            chk.skip(R.name, R.error)
            continue
        chk.ran(R)
        check_writes(chk, R.I, R.events, R.name)
        chk.ok()
    chk.assumptions.append("numpy's documented view/copy behaviour; user callables do not modify their arguments")
    return chk


CHECKS = {"P01": p01}
