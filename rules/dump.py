"""What a drain does with the slices it gets: which of them it formats, with which offset, and how it keeps count of what it has
taken. Terms: OFF (bytes consumed so far), LINES (slices dropped so far), SKIP (slices of the current window that were already
formatted)."""
import re
from absint import Interp, C, mk, show, last, T
import q
from rules import evalx as E

INL = lambda tg, c: not re.match(r"^<?nd::(eval|text|template|streambuf)::", tg.path)
FMT = r"TextFormatter.*::format_segments$"


class Dump:
    def __init__(self, I):
        self.I = I
        self.fmt = list(I.calls(FMT))
        self.fill = [e for e in I.calls(r"SegmentStream.*::fill_segment_buf$") if e.kind == "call"]
        self.cons = [e for e in I.calls(r"SegmentStream.*::consume$") if e.kind == "call"]
        self.slices = [e for e in I.calls(r"SegmentStream.*::as_slices$") if e.kind == "call"]

    def filled(self, t, i):
        """field i of the tuple fill_segment_buf returns"""
        return tuple_field(self.I, t, i, {e.term for e in self.fill})

    def dropped(self, t, i):
        return tuple_field(self.I, t, i, {e.term for e in self.cons})

    def window(self, t, i):
        t = q.strip(t)
        if t.k == "phi":
            o = self.I.origins(t)
            return bool(o) and all(self.window(x, i) for x in o)
        return t.k == "fld" and t.a[1] == str(i) and q.strip(t.a[0]) in {e.term for e in self.slices}


def tuple_field(I, t, i, calls):
    t = q.strip(t)
    if t.k == "fld" and t.a[1] == str(i):
        return all(x.k == "pay" and x.a[0] in calls or x.k == "agg" and len(x.a) > 3 + i and tuple_field(I, x.a[3 + i], i, calls) for x in I.origins(t.a[0])) and bool(I.origins(t.a[0]))
    if t.k == "phi":
        o = I.origins(t)
        return bool(o) and all(tuple_field(I, x, i, calls) for x in o)
    return False


def loop_inputs(I, h):
    """(entry values, values on the way back) of a loop value; None when it is not one. A way back on which it is unchanged
    shows as the value itself"""
    if h.k != "phi" or h not in I.phi_in:
        return None
    entry, back = set(), set()
    for x in I.phi_in[h]:
        seen, st, vals = set(), [x], set()
        while st:
            y = q.strip(st.pop())
            if y in seen:
                continue
            seen.add(y)
            if y.k == "phi" and y is not h and y in I.phi_in:
                st.extend(I.phi_in[y])
            else:
                vals.add(y)
        for y in vals:
            (back if y is h or h in terms(I, y) else entry).add(y)
    return entry, back


def terms(I, t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T) and x not in out:
            out.add(x)
            st.extend(y for y in x.a if isinstance(y, T))
            if x.k == "phi":
                pass
    return out


def plus(t):
    """(a, b) of a sum"""
    t = q.strip(t)
    if t.k == "fld" and t.a[1] == "0" and t.a[0].k == "op":
        t = t.a[0]
    if t.k == "op" and t.a[0].startswith("Add"):
        return q.strip(t.a[1]), q.strip(t.a[2])
    if t.k == "call" and last(t.a[0]) in ("wrapping_add", "saturating_add") and len(t.a) == 4:
        return q.strip(t.a[2]), q.strip(t.a[3])
    return None


def minus(t):
    t = q.strip(t)
    if t.k == "op" and t.a[0].startswith("Sub"):
        return q.strip(t.a[1]), q.strip(t.a[2])
    if t.k == "call" and last(t.a[0]) in ("wrapping_sub", "saturating_sub") and len(t.a) == 4:
        return q.strip(t.a[2]), q.strip(t.a[3])
    return None


def advances(D, t, i):
    """t is a running total of field i of what consume returns: 'loop', 'field' (kept in the object) or None"""
    I = D.I
    t = q.strip(t)

    def step(y, h):
        p = plus(y)
        return p is not None and (p[0] is h and D.dropped(p[1], i) or p[1] is h and D.dropped(p[0], i))
    if t.k == "phi":
        r = loop_inputs(I, t)
        if r is None or not r[1]:
            return None
        entry, back = r
        return "loop" if all(step(y, t) for y in back) and all(start(x) for x in entry) else None
    if t.k == "fld" and rooted(t):
        return "field" if stored(D, t, lambda v: step(v, t)) else None
    return None


def start(x):
    return x.k == "c" and x.a[0] == 0 or x.k == "fld" and rooted(x)


def rooted(t):
    while t.k in ("fld", "deref", "addr", "as"):
        t = t.a[1] if t.k == "as" else t.a[0]
    return t.k == "arg"


def stored(D, fld, ok):
    """on every way from a successful consume to the end the field is given a value for which ok(value)"""
    I = D.I
    last_store = {}
    for n, ws in I.stores.items():
        for root, path, v, sp in ws:
            if place_term(root, path) is fld:
                last_store[n] = (v, sp)
    good = {n for n, (v, sp) in last_store.items() if ok(q.strip(v))}
    if not good:
        return False
    succ = [e.node for e in D.cons]
    oks = {n for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None and any(not E.failure(x) for x in E.expand(I, v))}
    errs = [q.is_err_of(e.term) for e in D.cons]
    cut = lambda n, m, l: any(f(n, m, l) for f in errs)
    seen = q.reach(I, succ, cut, avoid=good)
    if any(e.node in seen for e in D.fill) or any(n in seen and not is_err(n) for n in oks):
        return False
    # nothing else is stored afterwards
    after = q.reach(I, list(good), None, avoid=[e.node for e in D.fill])
    return not any(n in after and n not in good for n in last_store)


def is_err(n):
    return isinstance(n, tuple) and len(n) > 2 and n[2] and str(n[2][0]).startswith("v:Err")


def place_term(root, path):
    if root[0] == "V":
        t = root[1]
    elif root[0] == "M":
        t = root[1]
        t = mk("deref", t) if t.k != "addr" else t.a[0]
    else:
        return None
    for p in path:
        if p == ("*",):
            continue
        if p[0] != "f":
            return None
        t = mk("fld", t, p[1])
    return t


def skips(D, t):
    """t is the number of slices of the window that were formatted before: count - dropped, or 0 at the start"""
    I = D.I
    t = q.strip(t)

    def left(y):
        m = minus(y)
        return m is not None and D.filled(m[0], 2) and D.dropped(m[1], 1)
    if t.k == "phi":
        r = loop_inputs(I, t)
        if r is None:
            return None
        vals = r[0] | r[1]
        return "loop" if t not in vals and any(left(y) for y in vals) and all(left(y) or start(y) for y in vals) else None
    if t.k == "fld" and rooted(t):
        return "field" if stored(D, t, left) else None
    return None


def formatted(D, e):
    """(skip term or None, what one iteration takes) of the slices handed to the formatter: the window's slices [skip..count],
    together or one after the other"""
    I = D.I
    t = e.vals[3]
    s = whole(D, t)
    if s is not None:
        return s, "all"
    t = q.strip(t)
    for x in I.leaves(t):
        if x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) == "next":
            src = iterated(I, x)
            if src is None:
                continue
            kind, base, enum = src
            s = whole(D, base)
            if s is not None:
                return s, x
            r = q.range_of(q.strip(base)) if base.k == "agg" else None
            if r is not None and r[0] is not None and r[1] is not None and D.filled(r[1], 2):
                return r[0], x
            if r is not None and r[0] is None and r[1] is not None and D.filled(r[1], 2):
                return C(0, "usize"), x
    return None


def whole(D, t):
    """skip when t is as_slices().1[skip..count]"""
    I = D.I
    t = q.strip(t)
    if t.k == "phi":
        o = I.origins(t)
        if len(o) == 1:
            return whole(D, o[0])
        return None
    s = q.slice_of(t)
    if s is None:
        return None
    base, lo, hi = s
    b = q.slice_of(base)
    if b is not None and hi is None and D.window(b[0], 1) and b[1] is None and b[2] is not None and D.filled(b[2], 2):
        return lo if lo is not None else C(0, "usize")
    if D.window(base, 1) and hi is not None and D.filled(hi, 2):
        return lo if lo is not None else C(0, "usize")
    return None


ONE = {"windows", "chunks", "chunks_exact"}
SAME = {"iter", "into_iter", "enumerate", "by_ref", "copied", "cloned", "peekable", "fuse"}


def iterated(I, pay):
    """(how, collection, enumerated?) of the iterator an element comes from; None if it is not simply iterated"""
    it = pay.a[0].a[2]
    enum = False
    for _ in range(12):
        it = q.strip(it)
        if it.k == "phi":
            o = [x for x in I.origins(it) if not (x.k == "eff" and last(x.a[0]) in ("next", "next_back", "nth"))]
            if len(o) != 1:
                return None
            it = o[0]
        elif it.k == "eff" and last(it.a[0]) in ("next", "by_ref"):
            it = it.a[3]
        elif it.k == "call" and last(it.a[0]) in SAME and len(it.a) > 2:
            enum = enum or last(it.a[0]) == "enumerate"
            it = it.a[2]
        elif it.k == "call" and last(it.a[0]) in ONE and len(it.a) > 3 and q.strip(it.a[3]).k == "c" and q.strip(it.a[3]).a[0] == 1:
            return "one", it.a[2], enum
        elif it.k == "call" and last(it.a[0]) == "zip" and len(it.a) > 3:
            it = it.a[2]
        else:
            return "iter", it, enum
    return None
