"""Shared helpers: event-tree walking and scenario iteration."""
from __future__ import annotations

import re
import traceback

from .. import configs as C
from ..framework import Broken, locstr, sliced
from ..values import *  # noqa


def walk(events):
    """all events in order, descending into branches and loops"""
    for e in events:
        yield e
        if e.kind == "branch":
            yield from walk(e.data[1])
            yield from walk(e.data[2])
        elif e.kind == "loop":
            yield from walk(e.data[2])


def run_all(chk, scenarios, on_error=None, before_call=None, partial=False):
    """interpret scenarios; unanalysable ones are listed, vanished anchors are an error"""
    for sc in sliced(scenarios):
        chk.tried += 1
        try:
            R = C.run(chk.project, sc, before_call=before_call)
        except Exception as e:  # the analyser met something it does not model
            tb = traceback.extract_tb(e.__traceback__)[-1]
            chk.skip(sc.name, "%s: %s (%s:%s)" % (type(e).__name__, e, tb.name, tb.lineno))
            chk.bad += 1
            continue
        if R.error is not None:
            if R.error[0] == "missing":
                raise Broken("public class %s is gone" % R.error[1])
            if on_error is not None and on_error(R):
                chk.ran(R)
                continue
            chk.skip(sc.name, "%s" % (R.error,))
            chk.bad += 1
            if not (partial and R.calls):
                continue
        chk.ran(R)
        yield R


ALL = list(C.table())


def axes_of(cls):
    return C.table()[cls][3]


def default_row(cls):
    return {k: v[0] for k, v in axes_of(cls).items()}


def algo_rows(cls):
    """product of algorithm choices with default post-processing"""
    out = []
    base = default_row(cls)
    alg = [k for k in axes_of(cls) if k in ("spatial_algorithm", "source_algorithm", "partitioning",
                                            "diagonalizer_algorithm", "is_holonomic", "blocks")]
    prod = [dict(base)]
    for k in alg:
        prod = [dict(r, **{k: v}) for r in prod for v in axes_of(cls)[k]]
    for r in prod:
        if r not in out:
            out.append(r)
    return out


def site(e_or_loc, fn=None):
    return locstr(e_or_loc)


def shortfn(q):
    return q.split("ssspy.", 1)[-1] if q else q


STATE_TABLE = {
    # class group -> attributes a caller may supply to resume (name -> (dims, dtype))
}


def state_attrs(cls, row):
    """arrays a caller may pass to __call__ to start from: name -> (dims, dtype)"""
    W = ("F", "C", "C")
    sp = str(row.get("spatial_algorithm", ""))
    d = {}
    if cls.endswith("ICA") and C.table()[cls][2] == "t":
        return {"demix_filter": (("C", "C"), "f")}
    if cls in ("CACGMM",):
        return {"mixing": (("N", "F"), "f"), "covariance": (("N", "F", "C", "C"), "c")}
    if cls == "GaussMNMF":
        d = {"basis": (("N", "F", "K"), "f"), "activation": (("N", "K", "T"), "f"),
             "spatial": (("N", "F", "C", "C"), "c")}
        if row.get("partitioning"):
            d["latent"] = (("N", "K"), "f")
            d["basis"] = (("F", "K"), "f")
            d["activation"] = (("K", "T"), "f")
        return d
    if cls == "FastGaussMNMF":
        return {"basis": (("N", "F", "K"), "f"), "activation": (("N", "K", "T"), "f"),
                "diagonalizer": (W, "c"), "spatial": (("F", "N", "C"), "f")}
    d["demix_filter"] = (W, "c")
    if cls.endswith("ILRMA"):
        d["basis"] = (("C", "F", "K"), "f")
        d["activation"] = (("C", "K", "T"), "f")
        if row.get("partitioning"):
            d["latent"] = (("C", "K"), "f")
            d["basis"] = (("F", "K"), "f")
            d["activation"] = (("K", "T"), "f")
    if cls.endswith("IPSDTA") and row.get("blocks") == "even":
        d["basis"] = (("C", "K", "B", "L", "L"), "c")
        d["activation"] = (("C", "K", "T"), "f")
    if cls.startswith("PDS") or cls in ("MaskingPDSBSS", "MaskingPDSHVA", "HVA"):
        d["dual"] = ((1, "C", "F", "T"), "c") if not cls.startswith("Masking") and cls != "HVA" else (("C", "F", "T"), "c")
    if "ADMM" in cls:
        est = (("C", "F", "T"), "c") if cls.startswith("Masking") else ((1, "C", "F", "T"), "c")
        d["auxiliary1"], d["auxiliary2"], d["dual1"], d["dual2"] = (W, "c"), est, (W, "c"), est
    return d


# ------------------------------------------------------------------ comparison of graphs across runs
def fingerprint(roots, rounds=3, rename=None):
    """canonical text of the value graph below `roots`: colour refinement that is full-depth on forward edges and
    refined over the back edges of loops round by round; independent of node numbering and operand order of sums"""
    import hashlib
    from ..graph import shapestr

    def strip_uid(attr):
        if isinstance(attr, tuple):
            if len(attr) == 3 and attr[1] == "buf":
                return ("L", "buf")          # buffers carry a serial number
            return tuple(strip_uid(x) for x in attr if not (isinstance(x, str) and x.startswith("#")))
        if isinstance(attr, str) and attr[:1] in ("L", "C") and attr[1:].isdigit():
            return "L"
        return attr

    def at(n):
        if n.op in ("bcast", "reshape"):
            return re.sub(r"#\d+", "", shapestr(n.shape))
        if n.op == "user" and rename:
            return rename.get(n.attr, n.attr)
        return strip_uid(n.attr)
    prev, cur = {}, {}

    def colour(n):
        todo = [n]
        while todo:
            x = todo[-1]
            if x.id in cur:
                todo.pop()
                continue
            deps = x.args[:1] if x.op == "loopphi" else x.args
            miss = [a for a in deps if a.id not in cur]
            if miss:
                todo.extend(miss)
                continue
            todo.pop()
            if x.op == "poly":
                body = sorted((tuple(sorted(cur[i] for i in mono)), c) for mono, c in x.attr)
                key = ("poly", body)
            else:
                body = [cur[a.id] for a in deps]
                if x.op == "loopphi":
                    body += [prev.get(a.id) for a in x.args[1:]]
                elif x.op in ("add", "mul"):
                    body.sort()
                key = (x.op, at(x), body)
            cur[x.id] = hashlib.md5(repr(key).encode()).hexdigest()
            if x.op == "loopphi":
                later.extend(a for a in x.args[1:] if a.id not in cur)
    roots = list(roots)
    for _ in range(rounds):
        cur, later = {}, []
        for r in roots:
            if r is not None:
                colour(r)
        while later:
            colour(later.pop())
        prev = cur
    return hashlib.md5(repr([None if r is None else cur[r.id] for r in roots]).encode()).hexdigest()


def depends(root, pred, memo=None):
    """some node satisfying pred is reachable from root (through back edges too)"""
    memo = set() if memo is None else memo
    todo = [root]
    while todo:
        n = todo.pop()
        if n is None or n.id in memo:
            continue
        memo.add(n.id)
        if pred(n):
            return True
        todo.extend(n.args)
    return False
