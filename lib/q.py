"""Queries over a finished Interp graph, shared by the rules."""
import re
from absint import T, C, S, mk, show, short, last, VARIANT_PASS


def unwrap_result(x):
    """the call (or other term) whose success a tested value stands for"""
    for _ in range(30):
        if x.k == "branch":
            x = x.a[0]
        elif x.k == "addr":
            x = x.a[0]
        elif x.k == "fld" and x.a[1] == "*":
            x = x.a[0]
        elif x.k == "errof":
            x = x.a[0]
        elif x.k == "call" and len(x.a) > 2 and last(x.a[0]) in VARIANT_PASS and \
                re.search(r"(Option|Result|Try|Context|anyhow)", x.a[0]):
            x = x.a[2]
        else:
            break
    return x


def result_label(label):
    """(term, 'ok'|'err') when a branch label fixes the success of a Result/Option, else None"""
    if label is None:
        return None
    cond, val = label
    neg = False
    while cond.k == "un" and cond.a[0] == "Not":
        cond = cond.a[1]
        neg = not neg
    if cond.k == "discr":
        for d, n in cond.a[1]:
            if val == int(d):
                if n in ("Ok", "Some", "Continue"):
                    return unwrap_result(cond.a[0]), "ok"
                if n in ("Err", "None", "Break"):
                    return unwrap_result(cond.a[0]), "err"
        return None
    if cond.k == "call" and len(cond.a) > 2 and last(cond.a[0]) in ("is_ok", "is_err", "is_some", "is_none") and val in (0, 1):
        pos = (last(cond.a[0]) in ("is_ok", "is_some")) == bool(val)
        if neg:
            pos = not pos
        return unwrap_result(cond.a[2]), "ok" if pos else "err"
    return None


def reach(I, starts, cut=None, avoid=(), include=False):
    """nodes reachable from `starts` along edges for which cut(n, m, label) is false"""
    avoid = set(avoid)
    seen = set()
    st = []
    for s in starts:
        if include:
            if s not in avoid:
                st.append(s)
        else:
            for m, l in I.succs.get(s, []):
                if not (cut and cut(s, m, l)):
                    st.append(m)
    while st:
        n = st.pop()
        if n in seen or n in avoid:
            continue
        seen.add(n)
        for m, l in I.succs.get(n, []):
            if not (cut and cut(n, m, l)):
                st.append(m)
    return seen


def from_start(I, cut=None, avoid=()):
    return reach(I, [I.start], cut, avoid, include=True)


def is_ok_of(term):
    def f(n, m, label):
        r = result_label(label)
        return r is not None and r[0] is term and r[1] == "ok"
    return f


def is_err_of(term):
    def f(n, m, label):
        r = result_label(label)
        return r is not None and r[0] is term and r[1] == "err"
    return f


def truth(cond, sub):
    """evaluate a boolean/integer condition under `sub`: {term: int}; None when it depends on anything else"""
    if callable(sub):
        v = sub(cond)
        if v is not None:
            return v
    elif cond in sub:
        return sub[cond]
    if cond.k == "c":
        return cond.a[0]
    if cond.k == "op":
        a, b = truth(cond.a[1], sub), truth(cond.a[2], sub)
        if a is None or b is None:
            if cond.a[0] == "BitAnd" and (a == 0 or b == 0):
                return 0
            return None
        return {"Add": a + b, "Sub": a - b, "Mul": a * b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b,
                "Eq": int(a == b), "Ne": int(a != b), "Lt": int(a < b), "Le": int(a <= b), "Gt": int(a > b),
                "Ge": int(a >= b)}.get(cond.a[0])
    if cond.k == "un" and cond.a[0] == "Not":
        a = truth(cond.a[1], sub)
        return None if a is None else 1 - a
    if cond.k == "cast":
        return truth(cond.a[2], sub)
    return None


def implies(label, term, points, want):
    """the branch label, as a statement about `term` alone (a term, or a predicate on terms), holds only for those
    points for which want(point)"""
    if label is None:
        return False
    cond, val = label
    isv = term if callable(term) else (lambda t: t is term)
    some = False
    for p in points:
        v = truth(cond, lambda t: p if isv(t) else None)
        if v is None:
            return False
        if val == "else":
            return False
        if v == val:
            some = True
            if not want(p):
                return False
    return some


def tuple_fields(t):
    return t.a[3:] if t.k == "agg" and t.a[0] == "tuple" else None


def slice_of(t):
    """(base, low, high) of an indexed sub-slice value; None for other terms. low/high are terms or None (open)"""
    # ((base . i range))
    if t.k == "addr":
        return slice_of(t.a[0])
    if t.k == "fld" and t.a[1] == "*":
        x = t.a[0]
        r = slice_of(x)
        if r is not None:
            return r
        return None
    if t.k == "idx":
        r = t.a[1]
        b = range_of(r)
        if b is not None:
            return (t.a[0],) + b
    if t.k == "fld" and t.a[1] == "0" and t.a[0].k == "call" and last(t.a[0].a[0]) in ("split_at", "split_at_mut"):
        c = t.a[0]
        return (c.a[2], None, c.a[3])
    if t.k == "pay" and t.a[0].k == "call" and last(t.a[0].a[0]) in ("get", "get_mut") and len(t.a[0].a) > 3:
        b = range_of(t.a[0].a[3])
        if b is not None:
            return (t.a[0].a[2],) + b
    return None


def range_of(r):
    if r.k == "agg":
        n = last(r.a[0])
        f = dict(zip(r.a[2], r.a[3:]))
        if n == "RangeTo":
            return (None, f.get("end"))
        if n == "Range":
            lo = f.get("start")
            if lo.k == "c" and lo.a[0] == 0:
                lo = None
            return (lo, f.get("end"))
        if n == "RangeFrom":
            return (f.get("start"), None)
        if n == "RangeFull":
            return (None, None)
    return None


def strip(t):
    """a value without reference/dereference/box wrappers"""
    while True:
        if t.k == "addr":
            t = t.a[0]
        elif t.k == "fld" and t.a[1] == "*":
            t = t.a[0]
        elif t.k == "deref":
            t = t.a[0]
        elif t.k == "cast" and t.a[1].startswith("*"):
            t = t.a[2]
        else:
            return t


def fmt_template(arguments):
    """literal pieces and placeholders of a core::fmt::Arguments::new(template, args) call: list of str | int (argument
    number); None if it is not one"""
    a = arguments
    if a.k == "call" and a.a[0].endswith("Arguments::from_str") or (a.k == "call" and last(a.a[0]) == "from_str" and "Arguments" in a.a[0]):
        s = strip(a.a[2])
        return [s.a[0]] if s.k == "s" else None
    if not (a.k == "call" and "Arguments" in a.a[0] and last(a.a[0]) == "new"):
        return None
    s = strip(a.a[2])
    if s.k != "s":
        return None
    raw = s.a[0]
    out = []
    i = 0
    arg = 0
    b = [ord(c) for c in raw]
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(raw[i + 1:i + 1 + c])
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(raw[i + 3:i + 3 + n])
            i += 3 + n
        else:
            # placeholder: optional flags(4) width(2) precision(2) index(2)
            i += 1
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append(arg)
            arg += 1
    return out


def fmt_args(arguments):
    """the values a format! call is given, in order"""
    out = []
    if arguments.k == "call" and len(arguments.a) > 3:
        arr = strip(arguments.a[3])
        if arr.k == "agg" and arr.a[0] == "array":
            for x in arr.a[3:]:
                x = strip(x)
                if x.k == "call" and len(x.a) > 2:
                    out.append(strip(x.a[2]))
                else:
                    out.append(x)
    return out


def among(I, terms):
    """predicate: the value is one of `terms` on every path"""
    terms = set(terms)
    memo = {}

    def f(t):
        r = memo.get(t)
        if r is None:
            o = set(I.origins(t))
            r = bool(o) and o <= terms
            memo[t] = r
        return r
    return f
