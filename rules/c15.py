"""--walk. The names the expressions may use are read off the construction of the slicer; for each the function that looks an
element up (a closure handed to the evaluator) is propagated with the name's number and a symbolic index, and its result is
normalised to a load (bytes, signedness, position). The slicer itself is analysed for where its slices start, how long they are,
what makes it stop, and what it does with a value that is not a length."""
import re
from absint import Interp, C, S, mk, show, last, T
import q
from rules import concrete as K
from rules import evalx as E

WIDTH = {"b": 1, "h": 2, "i": 4, "l": 8}
OPAQUE = lambda tg, c: not tg.path.startswith("nd::eval::")
REORDER = {"rev", "step_by", "skip", "rsplit", "skip_while", "rsplitn", "splitn"}


def run(prog, R):
    hits = [f for p, f in prog.fns.items() if re.match(r"^<.* as nd::segment::SegmentStream>::fill_segment_buf$", p) and
            any(True for _ in Interp(prog, p, inline=OPAQUE, max_steps=20000).calls(r"Rpn::evaluate$"))]
    if not R.ob("found", len(hits) == 1, "the slicer that evaluates expressions is not found", "src/segment/walk.rs"):
        return
    f = hits[0]
    R.fn(f.path)
    I = Interp(prog, f.path, inline=OPAQUE)
    R.graph(I)
    evs = list(I.calls(r"Rpn::evaluate$"))
    names = variables(prog, R, f)
    gs = getters(prog, I, evs)
    if R.ob("lookup", len(gs) > 0, "the function that looks up an element is not found", f.path):
        for g, clo in gs:
            for n, w in WIDTH.items():
                if n in names:
                    element(prog, R, g, clo, n, names[n], w)
    slices(prog, R, I, f, evs, [c for g, c in gs])
    nonpositive(prog, R, f, evs)
    errors(prog, R, f, I, evs)


def variables(prog, R, f):
    ty = re.match(r"^<(.*) as ", f.path).group(1)
    new = ty + "::new"
    if not R.ob("new", new in prog.fns, "the constructor of the slicer is not found", f.path):
        return {}
    out = {}
    for text, want in (("b[0]", ["b[0]"]), ("b[0],", ["b[0]"]), ("b[0],1", ["b[0]", "1"]), ("3,h[1],l[0]+1", ["3", "h[1]", "l[0]+1"])):
        I = Interp(prog, new, args={1: S(text)}, inline=OPAQUE)
        R.graph(I)
        evs = list(I.calls(r"Rpn::new$"))
        R.ob("parsed", bool(evs), "the expressions are not parsed", new)
        for e in evs:
            for t in I.leaves(e.vals[1]):
                if t.k == "agg" and t.a[0] == "tuple" and len(t.a) == 5:
                    k, v = [q.strip(x) for x in t.a[3:]]
                    if k.k == "s" and v.k == "agg" and "id" in v.a[2]:
                        out[k.a[0]] = (v.a[3 + v.a[2].index("id")], v.a[3 + v.a[2].index("is_array")])
            for x in I.calls(r"Map(::)?<.*>::insert$|HashMap.*insert$"):
                k = q.strip(x.vals[1]) if len(x.vals) > 2 else None
                v = q.strip(x.vals[2]) if len(x.vals) > 2 else None
                if k is not None and k.k == "s" and v.k == "agg" and "id" in v.a[2]:
                    out[k.a[0]] = (v.a[3 + v.a[2].index("id")], v.a[3 + v.a[2].index("is_array")])
        for e in I.calls():
            R.ob("order", last(e.name or "") not in REORDER, "the expressions are not taken in their order (%s)" % last(e.name or ""), e.sp)
        for e in I.calls(r"str.*::split(_terminator)?$"):
            R.ob("separator", len(e.vals) > 1 and q.strip(e.vals[1]).k in ("c", "s") and str(q.strip(e.vals[1]).a[0]) in ("44", ","), "expressions are separated by %s" % show(e.vals[-1], 3), e.sp)
    for n in WIDTH:
        if R.ob("variable:" + n, n in out, "%s[..] is not known in expressions" % n, new):
            R.ob("array:" + n, out[n][1].k == "c" and out[n][1].a[0] == 1 and out[n][0].k == "c", "%s is not an array" % n, new)
    R.ob("variables", set(out) == set(WIDTH), "the expressions know %s" % ", ".join(sorted(out)), new)
    ids = [v[0].a[0] for v in out.values() if v[0].k == "c"]
    R.ob("distinct", len(set(ids)) == len(ids), "two names stand for the same variable", new)
    return {n: v[0].a[0] for n, v in out.items() if v[0].k == "c"}


def getters(prog, I, evs):
    out = []
    for e in evs:
        for x in I.origins(e.vals[1]):
            if x.k == "agg" and x.a[0].startswith("closure:") and x.a[0][8:] in prog.fns and x not in [c for _, c in out]:
                out.append((prog.fns[x.a[0][8:]], x))
    return out


INT = {"8": 1, "16": 2, "32": 4, "64": 8}


def load(J, t):
    """(bytes, signed, start) of a value read from the stream, None when it is anything else"""
    t = q.strip(t)
    if t.k == "phi":
        ls = {load(J, x) for x in J.origins(t)}
        return ls.pop() if len(ls) == 1 else None
    if t.k == "call" and last(t.a[0]) == "from" and len(t.a) == 3:
        return load(J, t.a[2])
    if t.k == "cast" and t.a[1] in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "isize", "usize"):
        l = load(J, t.a[2])
        if l is None:
            return None
        n = INT.get(t.a[1][1:], 8)
        s = t.a[1][0] == "i"
        if n < l[0]:
            return (n, s, l[2])
        return (l[0], s if n == l[0] else l[1], l[2])
    if t.k == "op" and t.a[0] in ("Shr",) and q.strip(t.a[2]).k == "c":
        x, s = q.strip(t.a[1]), q.strip(t.a[2]).a[0]
        while x.k == "cast" and x.a[0] in ("i64", "u64") and x.a[1] in ("i64", "u64"):
            last_ty = x.a[1]
            x = q.strip(x.a[2])
        if x.k == "op" and x.a[0] == "Shl" and q.strip(x.a[2]).k == "c" and q.strip(x.a[2]).a[0] == s and s % 8 == 0 and 0 <= s < 64:
            l = load(J, x.a[1])
            signed = signedness(t)
            if l is not None and l[0] == 8:
                return (8 - s // 8, l[1], l[2])
        if s == 0:
            return load(J, t.a[1])
    if t.k == "op" and t.a[0] == "Shl" and q.strip(t.a[2]).k == "c" and q.strip(t.a[2]).a[0] == 0:
        return load(J, t.a[1])
    if t.k == "op" and t.a[0] == "BitAnd":
        for x, m in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            m = q.strip(m)
            if m.k == "c" and m.a[0] in (0xff, 0xffff, 0xffffffff):
                l = load(J, x)
                if l is not None and l[0] >= m.a[0].bit_length() // 8:
                    return (m.a[0].bit_length() // 8, False, l[2])
    if t.k == "call" and last(t.a[0]) in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        m = re.search(r"([iu])(8|16|32|64)>?::from_", t.a[0]) or re.search(r"<impl ([iu])(8|16|32|64)>", t.a[0])
        if m is None or last(t.a[0]) == "from_be_bytes":
            return None
        n = INT[m.group(2)]
        a = q.strip(t.a[2])
        if n == 1 and a.k == "agg" and a.a[0] == "array" and len(a.a) == 4:
            l = load(J, a.a[3])
            return (1, m.group(1) == "i", l[2]) if l is not None and l[0] == 1 else None
        s = window(J, t.a[2])
        return (n, m.group(1) == "i", s) if s is not None else None
    if t.k == "idx":
        r = q.range_of(q.strip(t.a[1]))
        if r is None and stream(J, t.a[0]):
            return (1, False, frozen(E.poly(value(J, t.a[1]))))
        if r is None:
            s = window(J, t.a[0])
            if s is not None and q.strip(t.a[1]).k == "c" and q.strip(t.a[1]).a[0] == 0:
                return (1, False, s)
    if t.k == "pay":
        vs = [x for x in J.origins(t.a[0]) if not E.failure(x)]
        ls = {load(J, E.some(x)) if E.some(x) is not None else None for x in vs}
        return ls.pop() if len(ls) == 1 else None
    return None


def signedness(t):
    return True


def stream(J, t):
    t = q.strip(t)
    return t.k == "call" and last(t.a[0]) == "as_slice" and "ByteStream" in t.a[0]


def window(J, t):
    """start of a sub-slice of the stream, as a polynomial"""
    for _ in range(12):
        t = q.strip(t)
        if t.k == "phi":
            o = J.origins(t)
            if len(o) != 1:
                return None
            t = o[0]
        elif t.k == "pay" and t.a[0].k == "call" and last(t.a[0].a[0]) in ("try_into", "try_from", "first_chunk"):
            t = t.a[0].a[2]
        elif t.k == "call" and last(t.a[0]) in ("unwrap", "expect", "try_into", "as_ref", "first_chunk") and len(t.a) > 2:
            t = t.a[2]
        else:
            break
    s = q.slice_of(t)
    if s is not None:
        lo = value(J, s[1]) if s[1] is not None else C(0, "usize")
        base = {} if stream(J, s[0]) else thaw(window(J, s[0]))
        if base is None:
            return None
        return frozen(E.add(base, E.poly(lo)))
    return frozen({}) if stream(J, t) else None


def value(J, t, depth=12):
    """a term with payloads and unique alternatives followed, for polynomials"""
    t = q.strip(t)
    if depth <= 0 or not isinstance(t, T):
        return t
    if t.k == "phi":
        o = [x for x in J.origins(t)]
        return value(J, o[0], depth - 1) if len(o) == 1 else t
    if t.k == "pay":
        vs = []
        for x in J.origins(t.a[0]):
            if E.failure(x):
                continue
            s = E.some(x)
            vs.append(value(J, s, depth - 1) if s is not None else checked(J, x, depth))
        if len(vs) == 1:
            return vs[0]
        return t
    if t.k == "op":
        return mk("op", t.a[0], value(J, t.a[1], depth - 1), value(J, t.a[2], depth - 1))
    if t.k == "cast" and t.a[0] in ("i64", "isize", "u64", "usize") and t.a[1] in ("i64", "isize", "u64", "usize"):
        return value(J, t.a[2], depth - 1)
    if t.k == "call" and last(t.a[0]).startswith(("wrapping_", "saturating_")) and len(t.a) == 4 and last(t.a[0]).split("_")[1] in ("add", "sub", "mul"):
        return mk("op", last(t.a[0]).split("_")[1].capitalize(), *[value(J, x, depth - 1) for x in t.a[2:]])
    return t


def checked(J, x, depth):
    if x.k == "call" and last(x.a[0]) in ("checked_add", "checked_sub", "checked_mul") and len(x.a) == 4:
        return mk("op", last(x.a[0])[8:].capitalize(), value(J, x.a[2], depth - 1), value(J, x.a[3], depth - 1))
    if x.k == "call" and last(x.a[0]) in ("try_from", "try_into") and len(x.a) == 3:
        return value(J, x.a[2], depth - 1)
    if x.k == "call" and last(x.a[0]) in ("ok", "context", "with_context", "ok_or", "ok_or_else", "map_err") and len(x.a) > 2:
        return value(J, mk("pay", x.a[2]), depth - 1)
    return mk("pay", x)


def frozen(p):
    return frozenset(p.items())


def thaw(p):
    return dict(p) if p is not None else None


def element(prog, R, g, clo, name, ident, width):
    R.count("variables")
    selfarg = mk("addr", clo) if g.locals[1]["ty"].startswith("&") else clo
    J = Interp(prog, g.path, args={0: selfarg, 1: C(ident, "usize")}, inline=lambda tg, c: True)
    R.graph(J)
    idx = mk("arg", g.path, 2)
    pos = position(clo)
    if not R.ob("position", pos is not None, "the lookup does not know the position of the chunk", g.path):
        return
    want = frozen(E.add(E.poly(pos), E.scale(E.poly(idx), width)))
    n = 0
    bad = []
    for x in K.result(J):
        vs = [x]
        if x.k == "pay":
            vs = [E.some(y) if E.some(y) is not None else y for y in J.origins(x.a[0]) if not E.failure(y)]
        for y in [z for v in vs for z in J.origins(v)]:
            if y.k == "c" and y.a[0] == 0:
                continue
            l = load(J, y)
            if l != (width, True, want):
                bad.append(y)
            n += 1
    what = ""
    if bad:
        l = load(J, bad[0])
        what = show(bad[0], 6) if l is None else "%d byte(s), %s%s" % (l[0], "signed" if l[1] else "unsigned", "" if l[2] == want else ", not at the chunk's position + %d times the index" % width)
    R.ob("element:" + name, n > 0 and not bad, "%s[i] is %s" % (name, what or "nothing"), g.path)
    # no byte behind the end
    atoms = [m for m in want]
    fills = [e for e in J.calls(r"ByteStream.*::fill_buf$") if e.kind == "call"]
    loads = [e for e in J.calls() if last(e.name or "") in ("from_le_bytes", "index", "get_unchecked", "try_into") and e.node not in {x.node for x in fills}]
    ok = False
    if fills:
        def at(t):
            # position 10, index 5: the element ends at 10 + 5 * width + width; one byte less is there
            t2 = value(J, t)
            if t2 is pos or q.strip(t2) is pos:
                return 10
            if t2 is idx:
                return 5
            if any(t is mk("fld", mk("pay", y), "1") for e in fills for y in [e.term]):
                return 10 + 6 * width - 1
            if t2 is not t and t2.k in ("op", "c"):
                return q.truth(t2, at)
            return None

        def cut(nn, m, label):
            if label is None or not isinstance(label, tuple) or len(label) != 2:
                return False
            v = q.truth(label[0], at) if isinstance(label[0], T) else None
            return v is not None and label[1] != "else" and isinstance(label[1], int) and v != label[1] or \
                v is not None and label[1] == "else" and any(l == (label[0], v) for _, l in J.succs.get(nn, []))
        seen = q.from_start(J, cut)
        ok = not any(e.node in seen for e in J.calls(r"::from_[lbn]e_bytes$")) and \
            not any(e.node in seen for e in J.calls(r"Index.*::index$"))
    R.ob("end:" + name, ok, "%s[i] behind the end of the stream is read from what lies behind it" % name, g.path)
    # a negative index
    J = Interp(prog, g.path, args={0: selfarg, 1: C(ident, "usize"), 2: C(-1, "i64")}, inline=lambda tg, c: True)
    R.ob("negative:" + name, not list(J.calls(r"::from_[lbn]e_bytes$")) and not list(J.calls(r"Index.*::index$")), "%s[-1] reads the stream" % name, g.path)
    R.ob("negative-error:" + name, records(J), "%s[-1] is not reported as an error" % name, g.path)


def records(J):
    """an Err's payload is stored through a captured reference"""
    for e in J.calls(r"Option.*::(get_or_insert|insert|replace|get_or_insert_with)$"):
        return True
    for n, ws in J.stores.items():
        for root, path, v, sp in ws:
            for x in J.origins(v):
                if x.k == "agg" and x.a[1] in ("Some", "Err"):
                    return True
    return False


def position(clo):
    """the captured usize: the position of the chunk (a phi or field term, by reference)"""
    for n, x in zip(clo.a[2], clo.a[3:]):
        y = q.strip(x)
        if y.k in ("phi", "fld") and not (y.k == "fld" and y.a[1] in ("src",)) and is_pos(n, x):
            return y
    return None


def is_pos(n, x):
    return x.k == "addr" and not n.startswith("*") or x.k in ("phi", "fld") and not n.startswith("*")


def family(I, pos):
    """(terms of the running position, terms it is advanced by)"""
    ps, steps, st, base = set(), set(), [pos], set()
    while st:
        x = q.strip(st.pop())
        if x in ps:
            continue
        ps.add(x)
        if x.k == "phi":
            for y in I.phi_in.get(x, ()):
                y = q.strip(y)
                if y.k == "op" and y.a[0] in ("Add", "AddWithOverflow", "AddUnchecked"):
                    a, b = q.strip(y.a[1]), q.strip(y.a[2])
                    st.append(a)
                    steps.add((y, a, b))
                elif y.k == "fld" and y.a[1] == "0" and y.a[0].k == "op":
                    st.append(y.a[0])
                else:
                    st.append(y)
        elif x.k not in ("fld", "arg"):
            base.add(x)
    return ps, steps, base


def slices(prog, R, I, f, evs, clos):
    poss = {position(c) for c in clos} - {None}
    if not R.ob("chunk-position", len(poss) == 1, "the position of the chunk is not found", f.path):
        return
    ps, steps, base = family(I, poss.pop())
    R.ob("advance", not base, "the position of a chunk is %s" % ", ".join(show(x, 4) for x in base), f.path)
    fields = {x for x in ps if x.k == "fld"}
    R.ob("position-kept", len(fields) == 1, "the position of the next chunk is kept in %d places" % len(fields), f.path)
    fills = {e.term for e in I.calls(r"ByteStream.*::fill_buf$") if e.kind == "call"}

    def size(t):
        t = q.strip(t)
        return t.k == "fld" and t.a[1] == "1" and t.a[0].k == "pay" and t.a[0].a[0] in fills or \
            t.k == "phi" and bool(I.origins(t)) and all(size(x) for x in I.origins(t)) or \
            t.k == "fld" and t.a[1] == "1" and t.a[0].k == "phi" and all(x.k == "pay" and x.a[0] in fills or x.k == "agg" and len(x.a) == 5 and size(x.a[4]) for x in I.origins(t.a[0]))
    n = 0
    spans = set()
    for e in I.calls(r"Vec.*::push$|extend"):
        for x in I.origins(e.vals[1]):
            if x.k == "agg" and x.a[0].endswith("::Segment") and "pos" in x.a[2]:
                n += 1
                p, l = [q.strip(x.a[3 + x.a[2].index(k)]) for k in ("pos", "len")]
                R.ob("slice-start", p in ps, "a slice starts at %s instead of the running position" % show(p, 4), e.sp)
                s = span_of(I, p, l, ps, size)
                R.ob("slice-length", s is not None, "the length of a slice is %s" % show(l, 6), e.sp)
                if s is not None:
                    spans.add(s)
    R.ob("slices", n > 0, "no slice is produced", f.path)
    for y, a, b in steps:
        R.ob("step", b in spans or a in spans, "the position advances by %s" % show(b, 4), f.path)
    R.ob("steps", bool(steps), "the position never advances", f.path)
    for e in I.calls():
        R.ob("in-order", last(e.name or "") not in REORDER, "the lengths are not taken in the order of the expressions (%s)" % last(e.name or ""), e.sp)
    # the end: the last, incomplete chunk is not given up
    eofs = {mk("fld", mk("pay", t), "0") for t in fills}

    def eof(t):
        t = q.strip(t)
        return t in eofs or t.k == "phi" and bool(I.origins(t)) and all(x in eofs for x in I.origins(t))

    def graph(p, b):
        def at(t):
            t = q.strip(t)
            if t in ps:
                return p
            if size(t):
                return b
            if eof(t):
                return 1
            return None

        def cut(nn, m, label):
            if not (isinstance(label, tuple) and len(label) == 2 and isinstance(label[0], T)):
                return False
            v = q.truth(label[0], at)
            if v is None:
                return False
            if label[1] == "else":
                return any(isinstance(l, tuple) and l[0] is label[0] and l[1] == v for _, l in I.succs.get(nn, []))
            return isinstance(label[1], int) and v != label[1]
        return q.from_start(I, cut)
    oks = [n for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None and any(E.some(x) is not None for x in E.expand(I, v))]
    R.ob("tail", not any(n in graph(5, 10) for n in oks), "at the end of the stream a chunk that is longer than what is left is dropped instead of clipped", f.path)
    R.ob("stops", any(n in graph(10, 10) for n in oks), "the slicer does not stop at the end of the stream", f.path)


def span_of(I, p, l, ps, size):
    """the span S when l = min(p + S, bytes) - p or min(S, bytes - p)"""
    def mins(t):
        t = q.strip(t)
        if t.k == "call" and last(t.a[0]) == "min" and len(t.a) == 4:
            return [q.strip(x) for x in t.a[2:]]
        if t.k == "phi":
            o = [q.strip(x) for x in I.origins(t)]
            if len(o) == 2:
                return o
        return None

    def plus(t):
        if t.k == "fld" and t.a[1] == "0":
            t = q.strip(t.a[0])
        if t.k == "call" and last(t.a[0]) in ("saturating_add", "wrapping_add") and len(t.a) == 4:
            a, b = [q.strip(x) for x in t.a[2:]]
        elif t.k == "op" and t.a[0].startswith("Add"):
            a, b = q.strip(t.a[1]), q.strip(t.a[2])
        else:
            return None
        return b if a in ps else a if b in ps else None
    if l.k == "op" and l.a[0].startswith("Sub"):
        m = mins(l.a[1])
        if m is not None and q.strip(l.a[2]) is p:
            for a, b in (m, m[::-1]):
                if size(b) and plus(a) is not None:
                    return plus(a)
    m = mins(l)
    if m is not None:
        for a, b in (m, m[::-1]):
            if b.k == "op" and b.a[0].startswith("Sub") and size(b.a[1]) and q.strip(b.a[2]) is p:
                return a
            if b.k == "call" and last(b.a[0]) in ("saturating_sub", "wrapping_sub") and len(b.a) == 4 and size(b.a[2]) and q.strip(b.a[3]) is p:
                return a
    return None


def nonpositive(prog, R, f, evs):
    for v in (-(1 << 63), -2, -1, 0, 1, 5, (1 << 63) - 1):
        def assume(what, x, v=v):
            if what == "call" and last(x.a[0]) == "evaluate" and "Rpn" in x.a[0]:
                return mk("agg", "std::result::Result", "Ok", ("0",), C(v, "i64"))
            return None
        I = Interp(prog, f.path, inline=OPAQUE, assume=assume)
        R.count("lengths tried")
        pushes = [e for e in I.calls(r"Vec.*::push$|extend") if any(x.k == "agg" and x.a[0].endswith("::Segment") for y in e.vals[1:] for x in I.leaves(y))]
        ev = [e.node for e in I.calls(r"Rpn::evaluate$")]
        after = q.reach(I, ev)
        if v <= 0:
            R.ob("refused:%d" % v, not any(e.node in after for e in pushes), "an expression that gives %d does not stop the run" % v, f.path)
        else:
            R.ob("accepted:%d" % v, any(e.node in after for e in pushes), "an expression that gives %d is refused" % v, f.path)


def errors(prog, R, f, I, evs):
    """once the lookup has recorded an error no slice is produced"""
    def assume(what, x):
        if what == "variant" and x.k == "eff" and "evaluate" in str(x.a[0]):
            return "Some"
        return None
    J = Interp(prog, f.path, inline=OPAQUE, assume=assume)
    ev = [e.node for e in J.calls(r"Rpn::evaluate$")]
    after = q.reach(J, ev)
    pushes = [e for e in J.calls(r"Vec.*::push$|extend") if any(x.k == "agg" and x.a[0].endswith("::Segment") for y in e.vals[1:] for x in J.leaves(y))]
    R.ob("lookup-error", bool(ev) and not any(e.node in after for e in pushes), "a failed lookup does not stop the run", f.path)
