"""P02 loss history and callbacks, P03 post-processing order, P04 the returned estimate."""
from __future__ import annotations

from .. import configs as C
from ..framework import Check, locstr
from ..values import *  # noqa
from .common import ALL, algo_rows, default_row, axes_of, run_all, walk, shortfn

NO_PENALTY = ("MaskingPDSHVA", "MaskingADMMHVA", "HVA")


def callbacks2(I, st):
    return I.newlist(st, [C.ufn("cb1", C.no_value, "f"), C.ufn("cb2", C.no_value, "f")])


def one_callback(I, st):
    return C.ufn("cb1", C.no_value, "f")


# ------------------------------------------------------------------ token trees
def loss_list(R, st):
    v = st.objs[R.obj.id].get("loss")
    return v.id if isinstance(v, LstRef) else None


def tokens(R, events, lid, keep_updates=True):
    """reduce an event list to L (loss recorded), C (callback), U (parameters changed), loops and branches"""
    out = []
    for e in events:
        if e.kind == "append" and e.data[0] == lid:
            out.append(("L", e))
        elif e.kind == "setattr" and e.data[0] == R.obj.id:
            out.append(("L", e) if e.data[1] == "loss" else ("U", e))
        elif e.kind == "usercall" and e.data[0] in ("cb1", "cb2"):
            out.append((e.data[0], e))
        elif e.kind == "write" and not (e.data[1] or "").startswith("caller"):
            out.append(("W", e))
        elif e.kind == "branch":
            a, b = tokens(R, e.data[1], lid), tokens(R, e.data[2], lid)
            if any_obs(a) or any_obs(b):
                out.append(("branch", e, a, b))
            elif any(t[0] == "U" for t in a + b):
                out.append(("U", next(t[1] for t in a + b if t[0] == "U")))
        elif e.kind == "loop":
            a = tokens(R, e.data[2], lid)
            if any_obs(a):
                out.append(("loop", e, e.data[1], a))
            elif any(t[0] == "U" for t in a):
                out.append(("U", next(t[1] for t in a if t[0] == "U")))
    return out


def any_obs(toks):
    for t in toks:
        if t[0] in ("L", "cb1", "cb2"):
            return True
        if t[0] == "loop" and any_obs(t[3]):
            return True
        if t[0] == "branch" and (any_obs(t[2]) or any_obs(t[3])):
            return True
    return False


def names(toks):
    return [t[0] for t in toks]


def squash(toks):
    """drop in-place writes to temporaries; merge runs of updates"""
    out = []
    for t in toks:
        if t[0] == "W":
            continue
        if t[0] == "U" and out and out[-1][0] == "U":
            continue
        out.append(t)
    return out


def first_loc(toks):
    for t in toks:
        if t[0] in ("branch", "loop"):
            return locstr(t[1].loc)
        return locstr(t[1].loc)
    return "?"


def check_point(chk, key, where, toks, want, what):
    """toks: sequence without loops; must observe exactly `want` (after the updates)"""
    obs = [t for t in toks if t[0] not in ("U",)]
    for t in obs:
        if t[0] == "branch":
            chk.fail(key + "|conditional", "%s: %s happens only under a run-time condition (%s) [%s]"
                     % (locstr(t[1].loc), what, "/".join(sorted(set(names(t[2]) + names(t[3])))), where))
            return False
    got = names(obs)
    if got != want:
        chk.fail(key + "|seq", "%s: %s records %s, expected %s (L = loss appended, cbN = callback) [%s]"
                 % (first_loc(obs or toks), what, got, want, where))
        return False
    chk.ok()
    return True


def p02():
    from .p_options import fp
    chk = Check("P02", "Event-order automaton over the interprocedural event tree of every call (loss append, callback, "
                "parameter update, loops with symbolic counts), plus value comparison of each recorded loss with the "
                "loss re-evaluated abstractly in the state at the moment of recording.", "other", 700)
    scs = []

    def add(cls, row, record, cbs, ncb, initial, tag, calls=1):
        extra = {"record_loss": Const(record)}
        if cbs is not None:
            extra["callbacks"] = cbs
        if record and cls in NO_PENALTY:
            return
        if record and cls.startswith("Masking"):
            extra["penalty_fn"] = C.PENALTY
        call = {} if initial is None else {"initial_call": Const(initial)}
        if str(row.get("spatial_algorithm", "")) in ("ISS", "ISS1", "ISS2", "IPA"):
            calls = 1
        sc = C.scenario(cls, row, extra, [dict(call) for _ in range(calls)], tag)
        sc.meta = (record, ncb, True if initial is None else initial)
        sc.short, sc.rowkey = cls, repr(sorted(row.items(), key=str))
        scs.append(sc)

    for cls in ALL:
        for row in algo_rows(cls):
            add(cls, row, True, callbacks2, 2, None, "loss+2cb,2 calls", 2)
            add(cls, row, False, None, 0, None, "nothing recorded")
        row = default_row(cls)
        add(cls, row, True, one_callback, 1, False, "loss+cb,no initial")
        add(cls, row, False, callbacks2, 2, True, "no loss+2cb")
        add(cls, row, False, None, 0, True, "nothing recorded")
        add(cls, row, True, None, 0, False, "loss only,no initial")
        n = len(scs)
        add(cls, row, True, one_callback, 1, True, "loss+cb,no iterations")
        if len(scs) > n:
            scs[-1].calls[0]["n_iter"] = Const(0)
        for k in ("normalization", "permutation_alignment", "source_normalization"):
            for v in axes_of(cls).get(k, [])[1:]:
                add(cls, dict(row, **{k: v}), True, callbacks2, 2, True, "loss+2cb")

    probes = {}

    def before(R, c, st, k):
        I = R.I

        def watch(I2, kind, data, st2):
            if kind == "append" and data[0] == loss_list(R, st2):
                val = data[1]
            elif kind == "setattr" and data[0] == R.obj.id and data[1] == "loss" and isinstance(data[2], LstRef):
                it = st2.lists.get(data[2].id, ())
                if not it or isinstance(it[-1], Rep):
                    return
                val = I.node(it[-1], st2)
            else:
                return
            I.watch = None
            g = I.g
            save = (g.loc, g.fn)
            st3 = st2.copy()
            before_attrs = dict(st3.objs[R.obj.id])
            before_bufs = {a: st3.bufs.get(v.buf) for a, v in before_attrs.items() if isinstance(v, Arr)}
            nr = len(I.raises)
            try:
                m = I.getattr(R.obj, "compute_loss", st3)
                now = I.node(I.call(m, [], {}, st3), st3)
                changed = [a for a, v in st3.objs[R.obj.id].items() if a not in before_attrs or before_attrs[a] != v
                           or (isinstance(v, Arr) and st3.bufs.get(v.buf) is not before_bufs.get(a))]
            except Exception as e:      # noqa
                now, changed = None, []
                probes.setdefault(R.sc.name, []).append(("error", repr(e), save, None))
            finally:
                g.loc, g.fn = save
                del I.raises[nr:]
                I.watch = watch
            if now is not None:
                probes.setdefault(R.sc.name, []).append((now is val, I.g.show(val) if hasattr(I.g, "show") else "",
                                                         save, changed))
        I.watch = watch if R.sc.meta[0] else None

    for R in run_all(chk, scs, before_call=before):
        record, ncb, initial = R.sc.meta
        idle = R.sc.calls[0].get("n_iter") is not None
        if not idle:
            chk.facts[(R.sc.short, R.sc.rowkey, R.sc.name)] = fp(R)
        want = (["L"] if record else []) + ["cb%d" % (i + 1) for i in range(ncb)]
        for k, c in enumerate(R.calls):
            where = R.sc.name + (" call %d" % (k + 1) if len(R.calls) > 1 else "")
            key = R.ci.name
            lst = c.attrs.get("loss")
            lid = lst.id if isinstance(lst, LstRef) else None
            if record and lid is None:
                chk.fail(key + "|noloss", "%s does not keep a list of losses although recording is on [%s]" % (key, where))
                continue
            if not record:
                chk.oblige(lid is None or not any_obs([t for t in tokens(R, c.events, lid) if t[0] == "L"]),
                           key + "|loss-off", "%s records a loss although recording is off [%s]" % (key, where))
            if k and record:
                p = R.calls[k - 1].attrs.get("loss")
                chk.oblige(isinstance(p, LstRef) and p.id == lid, key + "|history",
                           "%s: a repeated call starts a new loss history instead of extending it [%s]" % (key, where))
            toks = squash(tokens(R, c.events, lid))
            loops = [i for i, t in enumerate(toks) if t[0] == "loop"]
            if not want:
                chk.oblige(not any_obs(toks), key + "|none", "%s: something is recorded or called back [%s]" % (key, where))
                continue
            if idle:
                if not check_point(chk, key + "|initial", where, toks[:loops[0]] if loops else toks, want,
                                   "in a call with no iterations"):
                    continue
                chk.oblige(not any_obs([t for i in loops for t in [toks[i]]]), key + "|idle", "%s: a call with no iterations "
                           "records or calls back more than once [%s]" % (key, where))
                continue
            if len(loops) != 1:
                chk.fail(key + "|loop", "%s: %d loops record losses or call back, expected exactly one iterating loop "
                         "[%s]" % (key, len(loops), where))
                continue
            li = loops[0]
            pre, loop, post = toks[:li], toks[li], toks[li + 1:]
            chk.oblige(not any_obs(post), key + "|post", "%s: a loss is recorded or a callback runs after the last "
                       "iteration [%s]" % (first_loc([t for t in post if t[0] != "U"] or post or [loop]), where))
            check_point(chk, key + "|initial", where, pre, want if initial else [],
                        "before the first iteration" + ("" if initial else " with the initial call disabled,"))
            n_iter = c.kwnodes.get("n_iter")
            chk.oblige(loop[2] is n_iter, key + "|count", "%s: the iteration loop runs %s times, not n_iter [%s]"
                       % (locstr(loop[1].loc), R.g.show(loop[2]) if hasattr(R.g, "show") else loop[2], where))
            body = squash(loop[3])
            if any(t[0] == "loop" for t in body):
                chk.fail(key + "|nested", "%s: losses/callbacks are nested in a further loop inside the iteration [%s]"
                         % (locstr(loop[1].loc), where))
                continue
            if check_point(chk, key + "|iter", where, body, want, "each iteration"):
                nm = names(body)
                chk.oblige(nm[0] == "U", key + "|noupdate", "%s: an iteration records before any parameter is updated "
                           "[%s]" % (locstr(loop[1].loc), where))
                first = min(nm.index(w) for w in want)
                late = [t for t in body[first:] if t[0] == "U"]
                chk.oblige(not late, key + "|late", "%s: %s changes the parameters after this iteration's loss was "
                           "recorded [%s]" % (locstr(late[0][1].loc) if late else "", shortfn(late[0][1].fn) if late else "",
                                              where))
                for t in body + pre:
                    if t[0] in ("cb1", "cb2"):
                        a = t[1].data[2]
                        chk.oblige(len(a) >= 1 and isinstance(a[0], ObjRef) and a[0].id == R.obj.id, key + "|cbarg",
                                   "%s: a callback is not given the separator object [%s]" % (locstr(t[1].loc), where))
        if record:
            for same, shown, loc, changed in probes.get(R.sc.name, []):
                if same == "error":
                    chk.skip(R.sc.name, shown)
                    continue
                chk.count("recorded losses compared")
                chk.oblige(same, R.ci.name + "|stale", "%s:%s in %s: the recorded value is not the loss of the "
                           "parameters held at that moment [%s]" % (loc[0][0], loc[0][1], shortfn(loc[1]), R.sc.name))
                chk.oblige(not changed, R.ci.name + "|impure|" + ",".join(changed), "computing the loss changes %s of "
                           "%s [%s]" % (", ".join(changed), R.ci.name, R.sc.name))
    chk.finalize = finalize02
    return chk


def finalize02(chk):
    """watching a run does not change it: same result and parameters with and without recording and callbacks"""
    by = {}
    for (cls, row, name), v in sorted(chk.facts.items()):
        by.setdefault((cls, row), []).append((name, v))
    for (cls, row), l in by.items():
        for name, v in l[1:]:
            chk.oblige(v == l[0][1], cls + "|observed", "%s computes something else when losses are recorded or callbacks run: "
                       "[%s] differs from [%s]" % (cls, name, l[0][0]))


# ------------------------------------------------------------------ P03
PB = "ssspy.algorithm.projection_back.projection_back"
MDP = "ssspy.algorithm.minimal_distortion_principle.minimal_distortion_principle"
PERM = "ssspy.algorithm.permutation_alignment."
MAIN_SCALES = {True: PB, "projection_back": PB, "minimal_distortion_principle": MDP}


def public_steps(chk):
    for q in (PB, MDP):
        if chk.project.get_func(q) is None:
            from ..framework import Broken
            raise Broken("public function %s is gone" % q)


def steps(R, events, where="pre", out=None, cond=None):
    """calls of the public post-processing functions, in order, relative to the iterating loop"""
    out = [] if out is None else out
    st = {"where": where}

    def go(evs, where, cond):
        for e in evs:
            if e.kind in ("enter", "exit"):
                q = e.data[0]
                if q in (PB, MDP) or (q.startswith(PERM) and not q[len(PERM):].startswith("_")):
                    out.append((e.kind, q, e, where, cond))
            elif e.kind == "branch":
                go(e.data[1], where, e)
                go(e.data[2], where, e)
            elif e.kind == "loop":
                if main_loop(e):
                    go(e.data[2], "in", cond)
                    where = "post"
                else:
                    go(e.data[2], where, e)
        return where
    go(events, where, cond)
    # outermost calls only
    res, depth = [], 0
    for kind, q, e, w, cnd in out:
        if kind == "enter":
            if depth == 0:
                res.append([q, e, None, w, cnd])
            depth += 1
        else:
            depth -= 1
            if depth == 0 and res:
                res[-1][2] = e.data[1]
    return res


def main_loop(e):
    """the iterating loop: runs the callbacks"""
    return any(x.kind == "usercall" and x.data[0].startswith("cb") for x in walk(e.data[2]))


def p03():
    chk = Check("P03", "Order and multiplicity of the public post-processing steps (permutation alignment, projection back, "
                "minimal distortion) in the interprocedural event tree relative to the iterating loop, with the values "
                "bound to their reference arguments and the data flow from their results to the returned estimate.",
                "other", 300)
    public_steps(chk)
    scs = []
    for cls in ALL:
        ax = axes_of(cls)
        has_scale = "scale_restoration" in ax
        for row in algo_rows(cls):
            for s in (ax["scale_restoration"] + ["projection_back"] if has_scale else [None]):
                for p in ax.get("permutation_alignment", [None]):
                    r = dict(row)
                    if s is not None:
                        r["scale_restoration"] = s
                    if p is not None:
                        r["permutation_alignment"] = p
                    extra = {"callbacks": callbacks2, "record_loss": Const(False)}
                    if has_scale:
                        extra["reference_id"] = C.D("ref")
                    sc = C.scenario(cls, r, extra)
                    sc.meta = (s, p)
                    scs.append(sc)
    for R in run_all(chk, scs):
        s, p = R.sc.meta
        c = R.calls[0]
        cls, where = R.ci.name, R.sc.name
        I = R.I
        ss = steps(R, c.events)
        post = [x for x in ss if x[3] == "post"]
        early = [x for x in ss if x[3] != "post"]
        isscale = lambda x: x[0] in (PB, MDP)
        for x in early:
            if isscale(x) and not (x[3] == "in" and R.sc.kwargs.get("normalization") is not None):
                chk.fail(cls + "|early", "%s: %s runs %s the iterations [%s]" % (
                    locstr(x[1].loc), shortfn(x[0]), "inside" if x[3] == "in" else "before", where))
            elif not isscale(x):
                chk.fail(cls + "|early", "%s: permutation alignment runs %s the iterations [%s]" % (
                    locstr(x[1].loc), "inside" if x[3] == "in" else "before", where))
        for x in post:
            chk.oblige(x[4] is None or isinstance(x[4], type(None)), cls + "|conditional",
                       "%s: %s is applied only under a run-time condition or repeatedly [%s]" % (locstr(x[1].loc), shortfn(x[0]), where))
        sc = [x for x in post if isscale(x)]
        pm = [x for x in post if not isscale(x)]
        want = MAIN_SCALES.get(s)
        got = [x[0] for x in sc]
        chk.oblige(got == ([want] if want else []), cls + "|scale",
                   "%s with scale_restoration=%r applies %s after the iterations, expected %s [%s]" % (
                       cls, s, [shortfn(q) for q in got], [shortfn(want)] if want else "nothing", where))
        chk.oblige(len(pm) == (1 if p else 0), cls + "|perm",
                   "%s with permutation_alignment=%r aligns permutations %d times after the iterations [%s]" % (
                       cls, p, len(pm), where))
        if pm and sc:
            chk.oblige(post.index(pm[0]) < post.index(sc[0]), cls + "|order",
                       "%s restores the scale before the permutation is aligned [%s]" % (cls, where))
        for x in sc:
            e = x[1]
            b = e.data[1]
            ref = b.get("reference_id")
            want_ref = R.ctor_kw.get("reference_id")
            chk.oblige(isinstance(ref, Num) and ref.node is want_ref.node, cls + "|ref",
                       "%s: %s is called with a reference channel other than the configured one [%s]" % (
                           locstr(e.loc), shortfn(x[0]), where))
            sig = b.get("reference")
            if isinstance(sig, (Arr, Num)):
                n = I.node(sig, R.st) if isinstance(sig, V) else None
                if n is not None:
                    from .common import depends
                    chk.oblige(n is c.X, cls + "|refsig", "%s: %s uses a reference signal that is not the original "
                               "mixture [%s]" % (locstr(e.loc), shortfn(x[0]), where))
        from .common import depends
        for x in sc + pm:
            res = x[2]
            if isinstance(res, Tup):
                ns = [I.node(v, R.st) for v in res.items if isinstance(v, V)]
            else:
                ns = [I.node(res, R.st)] if res is not None else []
            ids = set()
            for n in ns:
                while n is not None and n.op in ("transpose", "reshape", "expand", "getitem", "copy") and n.args:
                    ids.add(n.id)
                    n = n.args[0]
                if n is not None:
                    ids.add(n.id)
            if ids:
                chk.oblige(depends(c.retnode, lambda n: n.id in ids), cls + "|dropped|" + shortfn(x[0]),
                           "%s: the result of %s does not reach the returned estimate [%s]" % (
                               locstr(x[1].loc), shortfn(x[0]), where))
    return chk


# ------------------------------------------------------------------ P04
def p04():
    chk = Check("P04", "Value-graph comparison: the node returned by a call is compared with the abstract evaluation of the "
                "class's own separation map on the original mixture and the final filter held by the object.",
                "other", 300)
    scs = []
    for cls in ALL:
        ax = axes_of(cls)
        for row in algo_rows(cls):
            for s in ax.get("scale_restoration", [None]):
                for p in ax.get("permutation_alignment", [None]):
                    r = dict(row)
                    if s is not None:
                        r["scale_restoration"] = s
                    if p is not None:
                        r["permutation_alignment"] = p
                    scs.append(C.scenario(cls, r))
        for k in ("normalization", "source_normalization", "is_holonomic"):
            for v in ax.get(k, [])[1:]:
                scs.append(C.scenario(cls, dict(default_row(cls), **{k: v})))
    def err(R):
        if R.error[0] == "raised" and R.error[1] == "AttributeError" and not R.error[4] and "output" in str(R.error[2]):
            chk.fail(R.ci.name + "|output", "%s never sets the estimate it returns: %s at %s [%s]" % (
                R.ci.name, R.error[2], locstr(R.error[3]), R.sc.name))
            return True
        return False
    for R in run_all(chk, scs, on_error=err):
        if R.error is not None:
            continue
        c = R.calls[0]
        I, st = R.I, R.st
        cls, where = R.ci.name, R.sc.name
        out = c.attrnodes.get("output")
        chk.oblige(out is c.retnode, cls + "|output", "%s: the array kept as `output` is not the returned estimate [%s]"
                   % (cls, where))
        W = c.attrs.get("demix_filter")
        kw = {"demix_filter": W}
        if W is None and isinstance(c.attrs.get("posterior"), Arr):
            W = c.attrs["posterior"]
            kw = {"posterior": W}
        try:
            m = I.getattr(R.obj, "separate", st)
            X = Arr(c.Xbuf)
            if c.Xafter is not c.X:
                X = Arr(I.newbuf(st, c.X))
            if isinstance(W, Arr):
                s2 = st.copy()
                v = I.call(m, [X], kw, s2)
                again = I.node(v, s2)
            elif W is None:
                s2 = st.copy()
                v = I.call(m, [X], {}, s2)
                again = I.node(v, s2)
            else:
                chk.count("estimates without an explicit filter")
                chk.ok()
                continue
        except Raised_ as r:
            chk.skip(where, "separate: %s" % (r,))
            continue
        chk.oblige(again is c.retnode, cls + "|filter", "%s: the returned estimate is not the final filter applied to the "
                   "original mixture [%s]" % (cls, where))
    return chk


from ..interp import Raised as Raised_  # noqa: E402

CHECKS = {"P02": p02, "P03": p03, "P04": p04}
