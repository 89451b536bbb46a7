"""What S..E selects. The arithmetic of a range (which positions it covers once the length is known, what has to be held back until
then) is evaluated per kind of anchor and compared with its definition; the three steps that apply ranges to a stream (on bytes, as
slices, on lines) are analysed for one turn of their loop per case of the numbers involved: what is emitted, from where the next range
continues, which range is kept for the next block, when the loop stops, how far the source is advanced and what happens at the end."""
import itertools
import re
from absint import Interp, C, S, mk, show, last
import q
import cases
from rules import evalx as E
from rules.c16 import field_path, own_slices, all_terms
from rules.c17 import choices, tops, ends, base, ok_values

RM = "nd::mapper::RangeMapper"
RA = "nd::mapper::RangeMapperAnchor"
SM = "nd::mapper::SegmentMapper"
SA = "nd::mapper::SegmentMapperAnchor"
MAX = (1 << 64) - 1
CUT = re.compile(r"RangeMapper::\w+$|^<?nd::(eval|text|template|streambuf|filluninit)::| as nd::byte::ByteStream>| as nd::segment::SegmentStream>")


def inl(t, c):
    return not CUT.search(t.path)


def run(prog, R):
    need = [RM + "::" + n for n in ("from_str", "to_range", "to_left_anchored", "has_right_anchor", "sort_key", "trans_offset", "tail_margin")] + [SM + "::from_str", SA + "::from_str"]
    gone = [n for n in need if n not in prog.fns]
    if not R.ob("there", not gone, "the arithmetic of ranges is not found: %s" % gone, "src/mapper.rs"):
        return
    arithmetic(prog, R)
    anchors(prog, R)
    n = 0
    for ty, entry, kind in selectors(prog):
        n += 1
        Selector(prog, R, ty, entry, kind).run()
    R.ob("steps", n >= 3, "only %d steps that select by ranges are found" % n, "src")


# ---- the arithmetic
def anc(v, n):
    return mk("agg", RA, v, ("0",), C(n, "usize"))


def rmap(a, b):
    return mk("agg", RM, "RangeMapper", ("start", "end"), a, b)


def only(I):
    """the single value a function returns"""
    vs = {x for v in tops(I) for x in choices(I, v)}
    return vs.pop() if len(vs) == 1 else None


def num(I, t):
    c = cases.Case(lambda t: None)
    c.I = I
    return c.num(t)


def anchored(I, t):
    """((kind, n), (kind, n)) of a range value"""
    t = q.strip(t) if t is not None else None
    if t is None or t.k != "agg" or len(t.a) != 5:
        return None
    out = []
    for x in t.a[3:]:
        for y in [z for z in choices(I, x)]:
            y = q.strip(y)
            if y.k != "agg" or len(y.a) != 4:
                return None
            out.append((y.a[1][0], num(I, y.a[3])))
    return tuple(out) if len(out) == 2 else None


def arithmetic(prog, R):
    def call(name, *args):
        f = prog.fns[RM + "::" + name]
        a = [mk("addr", args[0]) if f.locals[1]["ty"].startswith("&") else args[0]] + [C(x, "usize") for x in args[1:]]
        I = Interp(prog, f.path, args=dict(enumerate(a)), inline=lambda t, c: True)
        R.count("cases")
        R.graph(I)
        return I, only(I)

    V = {"S": "StartAnchored", "E": "EndAnchored"}
    for k1, k2 in itertools.product("SE", "SE"):
        for a, b in itertools.product((0, 3, 7), (0, 4, 7)):
            f = rmap(anc(V[k1], a), anc(V[k2], b))
            txt = "%s%+d..%s%+d" % (k1.lower(), a if k1 == "S" else -a, k2.lower(), b if k2 == "S" else -b)
            ends_at = lambda T: (a if k1 == "S" else max(T - a, 0), b if k2 == "S" else max(T - b, 0))
            # needs the length?
            I, v = call("has_right_anchor", f)
            right = num(I, v) if v is not None else None
            R.ob("needs-length", right == int("E" in k1 + k2), "whether %s depends on the length is said to be %s" % (txt, right), RM + "::has_right_anchor")
            I, v = call("trans_offset", f)
            to = num(I, v) if v is not None else None
            J, v = call("tail_margin", f)
            tm = num(J, v) if v is not None else None
            if R.ob("held-back", to is not None and tm is not None, "what %s holds back cannot be told" % txt, RM + "::trans_offset") and right:
                for N in (0, 2, 3, 5, 7, 8, 11, 15):
                    u = min(max(N - tm, 0), to)
                    for T in range(N, N + 12):
                        s, e = ends_at(T)
                        lost = [p for p in range(s, min(e, T)) if p < u]
                        R.ob("held-back", not lost, "with %d bytes read, the first %d are let go, but %s of %d bytes starts at %d" % (N, u, txt, T, s), RM + "::tail_margin")
            for T in (0, 3, 5, 9, 20):
                I, v = call("to_left_anchored", f, T)
                g = anchored(I, v)
                s, e = ends_at(T)
                R.ob("resolved", g == (("S", s), ("S", e)), "%s of %d bytes becomes %s" % (txt, T, g), RM + "::to_left_anchored")
        for a, b in itertools.product((0, 3, 7), (0, 4, 7)):
            if k1 + k2 != "SS":
                continue
            f = rmap(anc(V[k1], a), anc(V[k2], b))
            for o in (0, 2, 3, 4, 5, 7, 9):
                I, v = call("to_range", f, o)
                r = q.range_of(v) if v is not None else None
                lo, hi = (num(I, q.strip(r[0])) if r[0] is not None else 0, num(I, q.strip(r[1]))) if r and r[1] is not None else (None, None)
                w = (max(a - o, 0), max(b - o, 0))
                ok = lo is not None and hi is not None and (lo, hi) == w if w[0] < w[1] else lo is not None and hi is not None and lo >= hi >= 0
                R.ob("relative", ok, "s+%d..s+%d behind the first %d positions is %s..%s" % (a, b, o, lo, hi), RM + "::to_range")
            I, v = call("sort_key", f)
            t = q.strip(v) if v is not None else None
            R.ob("order", t is not None and t.k == "agg" and [num(I, x) for x in t.a[3:]] == [a, b], "s+%d..s+%d is ordered by %s" % (a, b, show(v, 4) if v is not None else "?"), RM + "::sort_key")


# ---- the text of a range
def anchors(prog, R):
    f = prog.fns[SA + "::from_str"]
    sp = f.path
    G = Interp(prog, sp, inline=inl)
    R.graph(G)
    ids = {}
    for t in all_terms(G):
        if t.k == "agg" and len(t.a) == 5 and t.a[2] == ("0", "1"):
            n, v = q.strip(t.a[3]), q.strip(t.a[4])
            if n.k == "s" and v.k == "agg" and v.a[0].endswith("VarAttr"):
                d = dict(zip(v.a[2], v.a[3:]))
                if d.get("id") is not None and d["id"].k == "c":
                    ids[n.a[0]] = d["id"].a[0]
    R.ob("names", set(ids) == {"s", "e"} and len(set(ids.values())) == 2, "the names in a range are %s" % ids, sp)
    if set(ids) != {"s", "e"}:
        return
    TOK = next((p for p in prog.adts if p.endswith("eval::Token")), None)

    def tok(k):
        n = {"s": ("Var", C(ids["s"], "usize"), C(1, "i64")), "e": ("Var", C(ids["e"], "usize"), C(1, "i64")), "2s": ("Var", C(ids["s"], "usize"), C(2, "i64")),
             "c": ("Val", C(5, "i64")), "+": ("Op", C(43, "char")), "-": ("Op", C(45, "char")), "*": ("Op", C(42, "char"))}[k]
        return mk("agg", TOK, n[0], tuple(str(i) for i in range(len(n) - 1)), *n[1:])

    def ev(expr, toks, edef, cdef):
        arr = mk("agg", "array", "array", tuple(str(i) for i in range(len(toks))), *[tok(k) for k in toks])

        def assume(what, t):
            if what == "call" and t.k == "call" and t.a[0].endswith("Rpn::tokens"):
                return arr
            if what == "call" and t.k == "call" and last(t.a[0]) in ("index", "as_slice", "as_ref", "borrow", "deref") and any(x is arr for x in inner(None, t.a[2])) and (len(t.a) == 3 or t.a[3].k == "agg" and t.a[3].a[0].endswith("RangeFull")):
                return arr
            if what == "value":
                return k2("value", t)
            return None
        k2 = cases.Case(lambda t: len(toks) if (t.k == "un" and t.a[0] == "len" or t.k == "call" and last(t.a[0]) == "len") and any(x is arr for x in inner(None, t)) else None)
        I = Interp(prog, sp, args={0: S(expr), 1: S(edef), 2: S(cdef)}, assume=assume, inline=inl)
        R.count("cases")
        out = set()
        for v in E.results(I):
            if E.failure(v):
                continue
            p = E.some(v)
            for x in choices(I, p) if p is not None else [v]:
                x = q.strip(x)
                if x.k == "agg" and len(x.a) == 5:
                    d = dict(zip(x.a[2], x.a[3:]))
                    out.add((num(I, d.get("anchor", x)), num(I, d.get("offset", x))))
                else:
                    out.add(show(x, 4))
        return I, out

    for cd in "se":
        for toks, want in ((["c"], (ids[cd], 5)), (["s"], (ids["s"], 0)), (["e"], (ids["e"], 0)), (["s", "c", "+"], (ids["s"], 5)), (["e", "c", "+"], (ids["e"], 5)),
                           ([], None), (["2s"], None), (["2s", "c", "+"], None), (["s", "c", "-"], None), (["s", "c", "*"], None), (["s", "e", "+"], None), (["c", "s", "+"], None), (["s", "c", "+", "e", "+"], None)):
            I, out = ev("x", toks, "s", cd)
            if want is None:
                # refused, or read as what it is
                mean = {("c", "s", "+"): (ids["s"], 5), ("s", "c", "-"): (ids["s"], -5)}.get(tuple(toks))
                R.ob("refused", not out or out == {mean}, "a bound that is %s is read as %s" % (" ".join(toks), sorted(out, key=str)), sp)
            else:
                R.ob("read", out == {want}, "a bound that is %s (numbers count from %s) is read as %s (anchor, offset)" % (" ".join(toks), cd, sorted(out, key=str)), sp)
    # an empty bound stands for its default, any other one for itself
    for ex in ("", "x"):
        I, out = ev(ex, ["s"], "DEFAULT", "s")
        for e in I.calls(r"Rpn::new$"):
            R.ob("default", [x.a[0] if x.k == "s" else show(x, 3) for x in choices(I, e.vals[0])] == [ex or "DEFAULT"], "a bound given as %r is read as %s" % (ex, show(e.vals[0], 3)), e.sp)
        R.ob("default", bool(list(I.calls(r"Rpn::new$"))), "a bound given as %r is not read" % ex, sp)
    # S..E: two bounds; the empty ones are s and e, numbers count from s
    sp = SM + "::from_str"
    for i, want in ((0, ("s", "s")), (1, ("e", "s"))):
        case = cases.Case(lambda t: i if t.k == "fld" and t.a[1] == "0" and q.strip(t.a[0]).k == "pay" and q.strip(t.a[0]).a[0].k == "call" and last(q.strip(t.a[0]).a[0].a[0]) == "next" else None)
        I = Interp(prog, sp, assume=case, inline=lambda t, c: inl(t, c) and t.path != SA + "::from_str")
        case.I = I
        R.count("cases")
        es = [e for e in I.calls(re.escape(SA) + "::from_str$") if e.kind == "call"]
        if not R.ob("bounds", bool(es), "its bounds are not read", sp):
            continue
        if not any(True for e in I.calls() if e.name and last(e.name) == "enumerate"):
            # written without a loop: one call per bound
            got = {tuple(text(I, v, i) for v in e.vals[1:3]) for e in es}
            R.ob("bounds", want in got, "an empty bound %d and numbers in it stand for %s" % (i + 1, sorted(got, key=str)), sp)
            continue
        for e in es:
            got = tuple(text(I, v, i) for v in e.vals[1:3])
            R.ob("bounds", got == want, "an empty bound %d stands for %s, and numbers in it count from %s" % (i + 1, got[0], got[1]), e.sp)
    I = Interp(prog, sp, inline=lambda t, c: inl(t, c) and t.path != SA + "::from_str")
    R.graph(I)
    for v in ok_values(I):
        for x in choices(I, v):
            d = dict(zip(x.a[2], x.a[3:])) if x.k == "agg" else {}
            st, en = (q.strip(d[n]) if n in d else None for n in ("start", "end"))
            if st is not None and en is not None and st.k == en.k == "idx":
                R.ob("pair", (num(I, st.a[1]), num(I, en.a[1])) == (0, 1), "the bounds are taken as %s and %s" % (show(st, 3), show(en, 3)), sp)
    sep = [e for e in I.calls() if e.name and "str" in e.name and last(e.name) in ("split", "split_once", "splitn", "find")]
    R.ob("dots", bool(sep) and all(any(v.k == "s" and v.a[0] == ".." for v in e.vals) for e in sep), "the bounds are not separated by '..'", sp)
    # evaluate: anchor + offset
    p = SM + "::evaluate"
    if p in prog.fns:
        for i in (0, 1):
            for off in (0, 5, -5):
                fp = lambda t: field_path(t) if t.k == "fld" else None
                leaf = lambda t: {"anchor": i, "offset": off}.get((fp(t) or ("",))[-1]) if t.k == "fld" else element(t, {(1, 0): 100, (1, 1): 200, (2, 0): 300, (2, 1): 400}, lambda x: i if fp(x) and fp(x)[-1] == "anchor" else x.a[0] if x.k == "c" else None)
                I = cases.run(prog, p, leaf, inline=lambda t, c: True)
                R.count("cases")
                for v in tops(I):
                    for x in choices(I, v):
                        got = tuple(I.case.num(y) for y in x.a[3:]) if x.k == "agg" else None
                        R.ob("evaluate", got == (100 + 100 * i + off, 300 + 100 * i + off), "bounds %d%+d of 100..200 and 300..400 are %s" % (i, off, got), p)
    # RangeMapper: the anchors keep their side, offsets beyond the ends are cut
    p = RM + "::from_str"
    for k1, k2, a, b in itertools.product("se", "se", (-6, 0, 6), (-4, 0, 4)):
        vals = {("start", "anchor"): ids[k1], ("start", "offset"): a, ("end", "anchor"): ids[k2], ("end", "offset"): b}

        def leaf(t):
            if t.k == "fld":
                n, path = t, []
                while n.k == "fld":
                    path.insert(0, n.a[1])
                    n = q.strip(n.a[0])
                if n.k == "pay" and n.a[0].k == "call" and n.a[0].a[0] == SM + "::from_str":
                    return vals.get(tuple(x for x in path if x != "*"))
            return None
        I = cases.run(prog, p, leaf, inline=lambda t, c: t.path != SM + "::from_str")
        R.count("cases")
        want = tuple(("S", max(x, 0)) if k == "s" else ("E", max(-x, 0)) for k, x in ((k1, a), (k2, b)))
        got = {anchored2(I, v) for v in ok_values(I)}
        R.ob("clipped", got == {want}, "%s%+d..%s%+d becomes %s" % (k1, a, k2, b, sorted(got, key=str)), p)


def text(I, v, i):
    """the text a value is in the case of bound i"""
    out = set()
    for x in choices(I, v):
        y = resolve(I, x, i)
        out.add(y)
    return out.pop() if len(out) == 1 else str(sorted(out, key=str))


def resolve(I, x, i):
    x = q.strip(x)
    if x.k == "s":
        return x.a[0]
    if x.k == "idx":
        n = num(I, x.a[1])
        for b in rows(I, x.a[0], i):
            b = q.strip(b)
            if b.k == "agg" and n is not None and n < len(b.a) - 3:
                return resolve(I, b.a[3 + n], i)
    if x.k == "fld" and re.match(r"^(i\.)?\d+$", str(x.a[1])):
        for b in rows(I, x.a[0], i):
            b = q.strip(b)
            n = int(str(x.a[1]).replace("i.", ""))
            if b.k == "agg" and n < len(b.a) - 3:
                return resolve(I, b.a[3 + n], i)
    return show(x, 4)


def rows(I, x, i):
    """the entry of a table for bound i"""
    x = q.strip(x)
    while x.k in ("deref", "addr"):
        x = q.strip(x.a[0])
    out = []
    for y in choices(I, x):
        y = q.strip(y)
        while y.k in ("deref", "addr"):
            y = q.strip(y.a[0])
        if y.k == "pay" and y.a[0].k == "call" and last(y.a[0].a[0]) == "get":
            t = q.strip(y.a[0].a[2])
            while t.k in ("deref", "addr"):
                t = q.strip(t.a[0])
            n = I.assume_fn.num(y.a[0].a[3])
            if t.k == "agg" and n is not None and n < len(t.a) - 3:
                return [t.a[3 + n]]
        elif y.k == "idx":
            t = q.strip(y.a[0])
            n = I.assume_fn.num(y.a[1])
            if t.k == "agg" and n is not None and n < len(t.a) - 3:
                return [t.a[3 + n]]
        out.append(y)
    return out


def element(t, table, index):
    t = q.strip(t)
    if t.k == "idx":
        b = t.a[0]
        while b.k in ("deref", "addr"):
            b = b.a[0]
        n = index(q.strip(t.a[1]))
        if b.k == "arg" and n is not None:
            return table.get((b.a[1], n))
    return None


def anchored2(I, v):
    v = q.strip(v)
    if v.k != "agg" or len(v.a) != 5:
        return show(v, 4)
    out = []
    for x in v.a[3:]:
        ys = {(y.a[1][0], I.case.num(y.a[3])) for y in map(q.strip, choices(I, x)) if y.k == "agg" and len(y.a) == 4}
        if len(ys) != 1:
            return show(v, 6)
        out.append(ys.pop())
    return tuple(out)


# ---- the steps that select
FILLB = r"ByteStream(>|)::fill_buf$"
FILLS = r"SegmentStream(>|)::fill_segment_buf$"
IMPL = re.compile(r"^<(nd::.*) as nd::(byte::ByteStream|segment::SegmentStream)>::(\w+)$")


def selectors(prog):
    """(type, function that fills, kind)"""
    impls = {p for p in prog.fns if IMPL.match(p)}
    for p in sorted(impls):
        m = IMPL.match(p)
        if m.group(3) not in ("fill_buf", "fill_segment_buf") or re.search(r"::(tester|tests|mock)::", p):
            continue
        seen, st, hit = set(), [p], False
        while st:
            x = st.pop()
            if x in seen or x not in prog.fns or x in impls and x != p:
                continue
            seen.add(x)
            if x == RM + "::to_range":
                hit = True
            st.extend(prog.refs(prog.fns[x]))
        if hit:
            f = prog.fns[p]
            kind = "bytes" if m.group(3) == "fill_buf" else None
            yield m.group(1), p, kind


def mentions(I, t, want, seen=None):
    """does a value depend on a term"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is want:
            return True
        for y in x.a:
            if hasattr(y, "k"):
                st.append(y)
        if x.k == "phi":
            st.extend(I.phi_in.get(x, ()))
    return False


def inner(I, t):
    """every term a value is computed from"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if hasattr(y, "k"):
                st.append(y)
        if x.k == "phi" and I is not None:
            st.extend(I.phi_in.get(x, ()))


class Selector:
    sig = None

    def __init__(self, prog, R, ty, entry, kind):
        self.prog, self.R, self.ty, self.entry, self.kind = prog, R, ty, entry, kind
        self.name = ty.split("::")[-1]

    def ob(self, k, ok, msg, sp):
        return self.R.ob("%s:%s" % (self.name, k), ok, "%s: %s" % (self.name, msg), sp)

    def graph(self, case=None):
        """the analysed body: of the function, or of the closure that fills the buffer"""
        kw = dict(inline=inl)
        fn, args = self.body
        I = Interp(self.prog, fn, args=args, assume=case, **kw)
        if case is not None:
            case.I = I
            I.case = case
            self.R.count("cases")
        self.R.graph(I)
        return I

    def find_body(self):
        F = Interp(self.prog, self.entry, inline=inl)
        self.R.graph(F)
        if list(F.calls(re.escape(RM) + "::to_range$")):
            return self.entry, {}
        for e in F.calls(r"StreamBuf::fill_buf$"):
            for v in e.vals:
                for c in F.origins(v):
                    g = self.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                    if g is not None:
                        return g.path, {0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}
        return None

    def run(self):
        R = self.R
        self.body = self.find_body()
        if not self.ob("body", self.body is not None, "where it applies its ranges is not found", self.entry):
            return
        I = self.graph()
        tr = [e for e in I.calls(re.escape(RM) + "::to_range$") if e.kind == "call"]
        if not self.ob("ranges", len(tr) == 1, "it applies its ranges at %d places" % len(tr), self.entry):
            return
        sp = tr[0].sp
        self.off = field_path(q.strip(tr[0].vals[1]))
        if not self.ob("offset", self.off is not None, "ranges are taken relative to %s, not to what has been consumed" % show(tr[0].vals[1], 4), sp):
            return
        # the source, the end and the number of elements in the block
        fb, fs = [[e for e in I.calls(p) if e.kind == "call"] for p in (FILLB, FILLS)]
        if not self.ob("source", len(fb) + len(fs) == 1, "it reads its source at %d places" % (len(fb) + len(fs)), self.entry):
            return
        if self.kind is None:
            self.kind = "slices" if fb else "lines"
        self.fill = (fb + fs)[0].term
        self.count = "1" if fb else "2"
        # the range comes from a collection of the step
        pops = [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) in ("pop", "pop_front", "last", "next", "remove", "swap_remove") and any(x is e.term for x in inner(I, tr[0].vals[0]))]
        pops = [e for e in pops if own_slices(I, e.vals[0]) is not None and last(e.name) == "pop"]
        if not self.ob("next-range", len(pops) == 1, "where its ranges come from is not recognised", sp):
            return
        self.filters = own_slices(I, pops[0].vals[0])
        cons = [e for e in I.calls(re.escape(RM) + "::to_left_anchored$")]
        self.roles(I)
        if self.margin is None:
            return
        self.tails(I)
        self.loop()
        self.advance()
        self.intact()

    def intact(self):
        """what was selected stays selected, in the order of the source"""
        if self.kind == "bytes":
            return
        I = self.graph()
        out = {own_slices(I, e.vals[0]) for e, lo, hi in self.emissions(I)} - {None}
        for e in I.calls():
            if e.kind != "call" or not e.name or not e.vals or own_slices(I, e.vals[0]) not in out:
                continue
            l = last(e.name)
            if l in ("dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "pop", "remove", "swap_remove", "clear", "drain", "reverse", "rotate_left", "rotate_right", "swap", "split_off") or l == "dedup" and self.kind == "lines":
                if l in ("dedup_by_key", "dedup_by") and self.kind != "lines" and self.whole_key(I, e):
                    continue
                self.ob("intact", False, "of what was selected, some is dropped or moved again by %s" % l, e.sp)
            if l.startswith("sort") and self.kind == "lines":
                r = self.by_start(I, e)
                if r is None:
                    self.R.count("forms-not-followed")
                else:
                    self.ob("intact", r, "slices that begin together are put into another order than that of the source by %s" % l, e.sp)

    def whole_key(self, I, e):
        """do slices have to be alike as a whole to be taken for one?"""
        for c in choices(I, e.vals[1]):
            g = self.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
            if g is None or last(e.name) != "dedup_by_key":
                return False
            J = Interp(self.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True)
            for r in E.K.result(J):
                r = q.strip(r)
                if r.k == "agg" and r.a[0] in ("tuple", "nd::segment::Segment"):
                    parts = [q.strip(x) for x in r.a[3:]]
                    if not {"pos", "len"} <= {x.a[1] for x in parts if x.k == "fld"}:
                        return False
                elif any(t.k == "fld" and t.a[1] in ("pos", "len") for t in J.subterms(r)) or r.k != "fld":
                    return False
        return True

    def by_start(self, I, e):
        """does a sort leave those that begin together in their order?"""
        l = last(e.name)
        if "unstable" in l or len(e.vals) < 2:
            return False
        for c in choices(I, e.vals[1]):
            g = self.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
            if g is None:
                return None
            J = Interp(self.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True)
            if any(t.k == "fld" and t.a[1] == "len" for r in E.K.result(J) for t in J.subterms(r)):
                return False
        return True

    # ---- fields of the ranges
    def roles(self, I):
        """which fields hold the ranges that need the length, what is held back for them"""
        self.margin = self.trans = self.tail = None
        a = None
        pre = self.filters[:-1]
        # the type that holds the collection: its constructor
        for p, f in sorted(self.prog.fns.items()):
            if f.name != "from_str" and not p.endswith("::new") or not f.is_fn or "::tests" in p:
                continue
            if not any(c and c.endswith("RangeMapper::from_str") for i, t in f.calls() for c in (t["f"].get("fn"), t["f"].get("res"))):
                continue
            if p.rsplit("::", 2)[0] != self.ty.rsplit("::", 1)[0]:
                continue
            self.ctor(p)
        self.ob("held-back", self.margin is not None, "what it holds back for the end is not recognised", self.ty)

    def ctor(self, p):
        R = self.R
        J = Interp(self.prog, p, inline=inl)
        R.graph(J)
        fr = [e for e in J.calls(re.escape(RM) + "::from_str$") if e.kind == "call"]
        pre = self.filters[:-1]
        for has in (0, 1):
            c = cases.Case(lambda t: has if t.k == "call" and t.a[0] == RM + "::has_right_anchor" else None)
            K = Interp(self.prog, p, assume=c, inline=inl)
            c.I = K
            K.case = c
            R.count("cases")
            frk = [e for e in K.calls(re.escape(RM) + "::from_str$") if e.kind == "call"]
            for v in ok_values(K):
                for x in choices(K, v):
                    if x.k != "agg":
                        continue
                    d = dict(zip(x.a[2], x.a[3:]))
                    pushed = {e.term: e for e in K.calls() if e.name and last(e.name) == "push" and any(mentions(K, e.vals[1], y.term) for y in frk)}
                    into = set()
                    vecs = {n for t, a in self.prog.adts.items() if t == x.a[0] for var in a["vars"] for n, ty in var["f"] if "Vec<" in ty}
                    for n, w in d.items():
                        if n in vecs and any(y.k == "eff" and last(y.a[0]) == "push" and any(e.node and K.site_ids.get(e.node[:2]) == y.a[1] for e in pushed.values()) for y in inner(K, w)):
                            into.add(n)
                    nf = self.filters[-1]
                    if has:
                        ok = len(into) == 1 and nf not in into
                        self.ob("kept-apart", ok, "a range that needs the length is put into %s" % sorted(into), p)
                        if ok:
                            self.tail = pre + (into.pop(),)
                    else:
                        self.ob("kept-apart", into == {nf}, "a range that does not need the length is put into %s" % sorted(into), p)
                    if not has:
                        continue
                    for n, w in d.items():
                        for y in choices(K, w):
                            y = q.strip(y)
                            if y.k == "pay":
                                y = q.strip(y.a[0])
                            if y.k == "call" and last(y.a[0]) in ("min", "max") and len(y.a) == 3:
                                which = self.folded(K, y)
                                if which is None:
                                    continue
                                how, root = last(y.a[0]), which[1]
                                if which[0] == "trans_offset":
                                    self.ob("earliest", how == "min", "of the first positions that need the length, it keeps the %s" % how, p)
                                    self.trans = pre + (n,)
                                elif which[0] == "tail_margin":
                                    self.ob("longest", how == "max", "of what is held back for the ranges, it keeps the %s" % how, p)
                                    self.margin = pre + (n,)
                                self.ob("over-all", which[1] == (self.tail[-1] if self.tail else None) or which[1] is None, "what is held back is that of %s" % which[1], p)
        # an error of one range is reported, and every part is read
        cut = lambda a, b, l: any(q.is_err_of(e.term)(a, b, l) for e in fr)
        for e in fr:
            bad = q.reach(J, [e.node], lambda a, b, l: any(q.is_ok_of(x.term)(a, b, l) for x in fr))
            self.ob("malformed", not any(x.node in bad for x in fr), "a malformed range is skipped", e.sp)
        self.sorted(J, p, fr)
        # the list is separated by commas
        sep = [e for e in J.calls() if e.name and "str" in e.name and last(e.name) in ("split", "split_terminator")]
        self.ob("list", bool(sep) and all(any(v.k == "c" and v.a[0] == 44 or v.k == "s" and v.a[0] == "," for v in e.vals) for e in sep), "its list of ranges is not separated by commas", p)

    def folded(self, K, y):
        """(method, field) of a fold over the ranges"""
        t = q.strip(y.a[2])
        while t.k == "call" and last(t.a[0]) in ("copied", "cloned") and len(t.a) == 3:
            t = q.strip(t.a[2])
        if not (t.k == "call" and last(t.a[0]) == "map" and len(t.a) == 4):
            return None
        c = q.strip(t.a[3])
        m = None
        if c.k == "agg" and c.a[0].startswith("closure:"):
            g = self.prog.fns.get(c.a[0][8:])
            if g is not None:
                L = Interp(self.prog, g.path, inline=inl)
                for v in E.results(L):
                    v = q.strip(v)
                    if v.k == "call" and v.a[0].startswith(RM + "::"):
                        m = last(v.a[0])
        else:
            s = show(c, 3)
            m = next((n for n in ("trans_offset", "tail_margin") if n in s), None)
        return (m, None) if m else None

    def sorted(self, J, p, before):
        """the ranges are put into an order in which the last one is the first to apply"""
        ok = False
        for e in J.calls():
            if not e.name or not last(e.name).startswith("sort"):
                continue
            if own_slices(J, e.vals[0]) not in (None, self.filters) and not any(True for x in before):
                continue
            o = self.order(J, e)
            rev = [x for x in J.calls() if x.name and last(x.name) == "reverse" and x.node in q.reach(J, [e.node])]
            down = o == "down" and not rev or o == "up" and bool(rev)
            if o is None:
                continue
            self.ob("order", down, "its ranges are not applied from the first to the last", e.sp)
            ok = ok or down
        self.ob("ordered", ok, "its ranges are not put into order", p)

    def order(self, J, e):
        for v in e.vals[1:]:
            for c in choices(J, v):
                if c.k == "agg" and c.a[0].startswith("closure:"):
                    g = self.prog.fns.get(c.a[0][8:])
                    if g is None:
                        return None
                    L = Interp(self.prog, g.path, inline=inl)
                    ps = [mk("arg", g.path, i) for i in range(1, g.argc)]
                    for r in E.results(L):
                        r = q.strip(r)
                        keys = [x for x in inner(L, r) if x.k == "call" and x.a[0] == RM + "::sort_key"]
                        if last(e.name) in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key") and keys:
                            return "down" if r.k == "agg" and r.a[0].endswith("Reverse") else "up"
                        if r.k == "call" and last(r.a[0]) in ("cmp",) and len(r.a) == 4 and len(ps) == 2:
                            a, b = (any(x is ps[0] for x in inner(L, y)) for y in r.a[2:])
                            c0, c1 = (any(x is ps[1] for x in inner(L, y)) for y in r.a[2:])
                            return "up" if a and c1 and not b else "down" if b and c0 and not a else None
                        if r.k == "call" and last(r.a[0]) == "reverse" and keys:
                            return "down"
        return None

    # ---- cases
    def leaf(self, I_box, v):
        trt, fill, cnt = RM + "::to_range", self.fill, self.count

        def leaf(t):
            if t.k == "fld":
                b = q.strip(t.a[0])
                if b.k == "call" and b.a[0] == trt:
                    return v.get({"start": "rs", "end": "re"}.get(t.a[1]))
                if b.k == "pay" and b.a[0].k == "call" and re.search(FILLB + "|" + FILLS, b.a[0].a[0]):
                    return v.get({"0": "eof", cnt: "n"}.get(t.a[1])) if t.a[1] in ("0", cnt) else v.get("max") if t.a[1] == "3" else v.get("bytes") if t.a[1] == "1" else None
                p = field_path(t)
                if p is not None:
                    return {self.off: v.get("off"), self.margin: v.get("margin"), self.trans: v.get("trans")}.get(p) if p in (self.off, self.margin, self.trans) else v.get(p)
            if t.k == "phi" and "phi" in v and "I" in I_box:
                return v["phi"].get(I_box["I"].signature(t))
            if t.k == "call" and last(t.a[0]) == "is_empty" and len(t.a) == 3 and "tail" in v:
                I = I_box.get("I")
                o = self.coll(t.a[2])
                if o == self.tail:
                    return int(v["tail"] == 0)
                if o == self.filters:
                    return int(v["left"] == 0) if "left" in v else None
            return None
        return leaf

    def coll(self, t):
        I = self.box["I"]
        p = own_slices(I, t)
        return p

    def length(self, v):
        def ln(t):
            if t.k == "fld":
                b = q.strip(t.a[0])
                if b.k == "call" and re.search(r"SegmentStream(>|)::as_slices$", b.a[0]) and t.a[1] == "1":
                    return v.get("n")
            if t.k == "call" and re.search(r"ByteStream(>|)::as_slice$", t.a[0]):
                return v.get("n")
            return None
        return ln

    def case(self, v):
        self.box = {}

        class Late(cases.Case):
            def bind(me, I):
                me.I = self.box["I"] = I

            def __call__(me, what, t):
                if what == "variant" and "some" in v and t.k == "call" and last(t.a[0]) == "pop" and self.coll(t.a[2]) == self.filters:
                    return "Some"
                return cases.Case.__call__(me, what, t)
        c = Late(self.leaf(self.box, v), self.length(v))
        c.heads = set(v.get("phi", ()))
        return self.graph(c)

    def tails(self, I0):
        """at the end, the ranges that need the length become ranges from the start, and take their place in the order"""
        for off, n in ((0, 9), (5, 9), (5, 0)):
            I = self.case(dict(off=off, n=n, eof=1, margin=2, trans=4, tail=2))
            cs = list(I.calls(re.escape(RM) + "::to_left_anchored$"))
            got = [I.case.num(e.vals[1]) for e in cs]
            # also where it is passed to an adaptor
            for e in I.calls():
                for v in e.vals:
                    for c in choices(I, v):
                        if c.k == "agg" and c.a[0].startswith("closure:") and not cs:
                            g = self.prog.fns.get(c.a[0][8:])
                            if g is not None and any((t["f"].get("fn") or "").endswith("to_left_anchored") for i, t in g.calls()):
                                K = Interp(self.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=inl)
                                k2 = cases.Case(I.case.leaf_fn)
                                k2.I = K
                                got += [k2.num(x.vals[1]) for x in K.calls(re.escape(RM) + "::to_left_anchored$")]
            self.ob("length", bool(got) and set(got) == {off + n}, "with %d consumed and the last %d read, the length is taken to be %s" % (off, n, got), self.entry)
            pops = [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) == "pop" and own_slices(I, e.vals[0]) == self.filters]
            if cs:
                self.sorted_before(I, cs, pops)
                # each of them, once
                src = {own_slices(I, y.a[0].a[2]) for e in cs for y in inner(I, e.vals[0]) if y.k == "pay" and y.a[0].k == "call" and last(y.a[0].a[0]) == "next"}
                self.ob("all-tails", not src or self.tail in {own_slices_it(I, x) for e in cs for x in [e.vals[0]]} | src, "the ranges that need the length are not all taken", self.entry)
                ps = [e for e in I.calls() if e.name and last(e.name) in ("push", "extend", "insert") and own_slices(I, e.vals[0]) == self.filters and any(mentions(I, e.vals[1], c.term) for c in cs)]
                self.ob("tails-join", bool(ps), "the ranges that needed the length are dropped", self.entry)
                gone = [e for e in I.calls() if e.name and last(e.name) in ("clear", "drain", "take", "append", "truncate", "pop", "remove", "swap_remove") and own_slices(I, e.vals[0]) == self.tail]
                self.ob("tails-once", bool(gone), "the ranges that need the length are applied again in the next block", self.entry)
        I = self.case(dict(off=5, n=9, eof=0, margin=2, trans=4, tail=2))
        self.ob("too-early", not list(I.calls(re.escape(RM) + "::to_left_anchored$")), "the length is taken to be known before the end", self.entry)

    def sorted_before(self, I, cs, pops):
        so = [e for e in I.calls() if e.name and last(e.name).startswith("sort") and self.order(I, e) is not None]
        seen = q.reach(I, [e.node for e in cs], avoid=[e.node for e in so])
        self.ob("tails-ordered", not any(p.node in seen for p in pops), "the ranges that needed the length are not put into order with the others", self.entry)
        for e in so:
            o = self.order(I, e)
            rev = [x for x in I.calls() if x.name and last(x.name) == "reverse" and x.node in q.reach(I, [e.node])]
            self.ob("tails-order", o == "down" and not rev or o == "up" and bool(rev), "at the end the ranges are not applied from the first to the last", e.sp)

    # ---- one turn of the loop over the ranges
    def emissions(self, I):
        """(event, first, end) of what is emitted, as terms"""
        out = []
        for e in I.calls():
            if e.kind != "call" or not e.name or last(e.name) not in ("extend_from_slice", "extend", "push", "write_all", "append") or len(e.vals) != 2:
                continue
            if own_slices(I, e.vals[0]) in (self.filters, self.tail):
                continue
            v = q.strip(e.vals[1])
            if self.kind == "slices":
                for x in choices(I, v):
                    if x.k == "agg" and x.a[0].endswith("segment::Segment") or x.k == "agg" and x.a[0].endswith("::Segment"):
                        d = dict(zip(x.a[2], x.a[3:]))
                        out.append((e, d["pos"], mk("op", "Add", d["pos"], d["len"])))
                    elif x.k == "call" and len(x.a) == 3 and q.range_of(q.strip(x.a[2])):
                        r = q.range_of(q.strip(x.a[2]))
                        out.append((e, r[0], r[1]))
                continue
            while v.k == "call" and last(v.a[0]) in ("iter", "copied", "cloned", "into_iter", "to_vec", "deref") and len(v.a) > 2:
                v = q.strip(v.a[2])
            s = q.slice_of(v)
            if s is not None and re.search(r"as_slices?$", (lambda b: b.a[0] if b.k == "call" else (q.strip(b.a[0]).a[0] if b.k == "fld" and q.strip(b.a[0]).k == "call" else ""))(q.strip(s[0]))):
                out.append((e, s[1] if s[1] is not None else C(0, "usize"), s[2]))
        return out

    def pops(self, I):
        return [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) == "pop" and own_slices(I, e.vals[0]) == self.filters]

    def loop(self):
        I = self.graph()
        em = self.emissions(I)
        sp = self.entry
        if not self.ob("emits", bool(em) and all(h is not None for e, l, h in em), "what it emits is not recognised", sp):
            return
        sigs = set()
        if self.kind != "slices":
            pop = self.pops(I)
            for e, lo, hi in em:
                for t in list(inner(I, lo)) + list(inner(I, hi)):
                    if t.k == "phi" and any(mentions(I, x, t) for x in I.phi_in.get(t, ())) and "Add" not in show(t, 1):
                        p = I.phi_where.get(t)
                        if p is not None and pop and pop[0].node in q.reach(I, [p]) and pop[0].node not in q.from_start(I, lambda a, b, l: False, avoid=[p]) and counter(self.prog, I, t):
                            sigs.add(I.signature(t))
            if not self.ob("position", len(sigs) == 1, "the position up to which its ranges were applied is not recognised (%d)" % len(sigs), sp):
                return
        self.sig = sigs.pop() if sigs else None
        self.init = [x for p in I.phi_in if self.sig and I.signature(p) == self.sig for x in flat(I, I.phi_in[p], self.sig) if not mentions(I, x, p)]
        fs = {field_path(x) for x in self.init if x.k == "fld"} - {None}
        self.pos = fs.pop() if len(fs) == 1 else None
        self.ob("from-start", self.kind == "slices" or self.pos is not None or all(x.k == "c" and x.a[0] == 0 for x in self.init), "its ranges are applied from %s on" % [show(x, 3) for x in self.init], sp)
        seen = set()
        for U, l, rs, re_ in itertools.product(range(4), repeat=4):
            if l > U or rs > re_ or self.kind == "slices" and l:
                continue
            vs = sorted({U, l, rs, re_})
            k = tuple(vs.index(x) for x in (U, l, rs, re_))
            if k in seen:
                continue
            seen.add(k)
            for eof in (0, 1):
                if self.kind == "slices":
                    for n in sorted({U, re_ - 1, re_, re_ + 1}):
                        if n >= U and (n == U or not eof):
                            self.turn(U, 0, rs, re_, eof, n, n - U, 1000)
                else:
                    self.turn(U, l, rs, re_, eof, U if eof else U + 2, 2, 1000)
        for eof, n, m, tr in ((0, 8, 1, 11), (0, 8, 3, 11), (0, 8, 0, 30), (0, 2, 5, 30), (0, 8, 5, 14), (0, 8, 2, 9), (1, 8, 3, 11), (1, 8, 0, 30), (1, 0, 3, 30)):
            self.bound(eof, n, m, tr)

    def initial(self, x):
        return x in self.init or self.pos is not None and field_path(x) == self.pos

    def turn(self, U, l, rs, re_, eof, n, margin, trans):
        off = 10
        v = dict(rs=rs, re=re_, off=off, n=n, eof=eof, margin=margin, trans=trans + off, tail=0, left=1, bytes=n, max=n)
        if self.sig:
            v["phi"] = {self.sig: l}
        if self.pos:
            v[self.pos] = l
        I = self.case(v)
        sp = self.entry
        pops = self.pops(I)
        if not self.ob("next-range", len(pops) == 1, "where its ranges come from is not recognised", sp):
            return
        pop = pops[0]
        none = q.is_err_of(pop.term)
        live = q.reach(I, [pop.node], none)
        em = [(e, I.case.num(lo), I.case.num(hi)) for e, lo, hi in self.emissions(I) if e.node in live]
        txt = "%d..%d of a block of %d%s, applied up to %d" % (rs, re_, n, " (the last one)" if eof else ", %d of them to be taken now" % U, l)
        if not self.ob("known", all(lo is not None and hi is not None for e, lo, hi in em), "what is emitted for %s cannot be told" % txt, sp):
            return
        keep = [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) in ("push", "insert", "push_front", "push_back") and own_slices(I, e.vals[0]) == self.filters and e.node in live and any(x is pop.term for w in e.vals[1:] for x in inner(I, w))]
        again = pop.node in live
        outs = [x for x in ends(I) if x in live and not failed(I, x)]
        nokeep = q.reach(I, [pop.node], none, avoid=[e.node for e in keep])
        skip = pop.node in nokeep or any(x in nokeep for x in outs)
        kept = bool(keep)
        noemit = q.reach(I, [pop.node], none, avoid=[e.node for e, a, b in em])
        missed = pop.node in noemit or any(x in noemit for x in outs)
        if kept:
            self.ob("goes-on", pop.node not in q.reach(I, [e.node for e in keep], none), "%s is taken and put back again and again" % txt, sp)
        if self.kind == "slices":
            self.slice_turn(I, v, U, rs, re_, eof, n, txt, em, kept, skip, again, outs, missed)
            return
        a, b = max(rs, l), min(re_, U)
        full = [(lo, hi) for e, lo, hi in em if lo < hi]
        self.ob("slice-order", all(lo <= hi for e, lo, hi in em), "%s: it takes %s" % (txt, [(lo, hi) for e, lo, hi in em]), sp)
        if a < b:
            self.ob("emitted", full == [(a, b)] and not missed, "%s: it emits %s, not %d..%d" % (txt, full if full else "nothing", a, b), sp)
        else:
            self.ob("emitted", not full, "%s: it emits %s" % (txt, full), sp)
        # what is left of the range is for the next block
        if not eof and re_ > U:
            self.ob("kept", kept and not skip, "%s: what is left of the range is lost" % txt, sp)
        reached = max(l, min(re_, U))
        if outs:
            self.ob("stops", rs >= U or reached >= U, "%s: the other ranges are left out" % txt, sp)
        if again:
            back = {I.case.num(x) for p in I.phi_in if I.signature(p) == self.sig for x in flat(I, I.phi_in[p], self.sig) if not self.initial(x)} | ({l} if stays(I, self.sig) else set())
            lo = reached if a < b else l
            self.ob("continues", bool(back) and all(x is not None and lo <= x <= reached for x in back), "%s: the next range is applied from %s, not %d" % (txt, sorted(back, key=str), reached), sp)

    def slice_turn(self, I, v, U, rs, re_, eof, n, txt, em, kept, skip, again, outs, missed):
        sp = self.entry
        e_ = min(re_, n) if eof else re_
        s_ = min(rs, n) if eof else rs
        full = [(lo, hi) for e, lo, hi in em if lo != hi]
        if s_ < e_ and (eof or re_ <= n and rs < U):
            ok = full == [(s_, e_)] and not missed
            self.ob("emitted", ok, "%s: it emits %s, not %d..%d" % (txt, full if full else "nothing", s_, e_), sp)
        elif s_ < e_:
            # not complete yet: either kept for the next block, whose start is not to be consumed, or complete
            self.ob("emitted", not full or full == [(s_, e_)] and re_ <= n, "%s: it emits %s" % (txt, full), sp)
            if not full:
                self.ob("kept", kept and not skip, "%s: the range is lost" % txt, sp)
        else:
            self.ob("emitted", not full, "%s: it emits %s" % (txt, full), sp)
        if outs:
            self.ob("stops", rs >= U or kept and not eof, "%s: the other ranges are left out" % txt, sp)
            if kept and not eof and rs < re_:
                J = self.case(dict(v, some=True))
                taken = {self.max_taken(J, x) for x in ends(J) if not failed(J, x)}
                self.ob("not-consumed", bool(taken) and all(x is not None and x <= rs for x in taken), "%s is kept for the next block, but up to %s is consumed" % (txt, sorted(taken, key=str)), sp)

    def max_taken(self, I, out):
        r = I.returns.get(out)
        for v in choices(I, r):
            p = E.some(v)
            if p is None:
                continue
            for x in choices(I, p):
                if x.k == "agg" and len(x.a) == 7:
                    return case_max(I, x.a[6])
        return None

    def bound(self, eof, n, m, tr):
        off = 10 if tr != 30 else 3
        v = dict(rs=0, re=0, off=off, n=n, eof=eof, margin=m, trans=tr, tail=1, left=1, bytes=n, max=n, **{})
        if self.sig:
            v["phi"] = {self.sig: 0}
        if self.pos:
            v[self.pos] = 0
        I = self.case(v)
        sp = self.entry
        lim = n if eof else max(min(n - m, tr - off), 0)
        vals = self.upto(I)
        txt = "with %d of %d consumed before%s, %d to be held back and ranges that need the length from %d on" % (off, n, " the last block" if eof else "", m, tr)
        if eof:
            self.ob("all-at-end", vals == {n}, "%s, it takes %s of the last %d" % (txt, sorted(vals, key=str), n), sp)
        else:
            self.ob("held-back", bool(vals) and all(x is not None and 0 <= x <= lim for x in vals), "%s, it takes %s of %d, and %d is safe" % (txt, sorted(vals, key=str), n, lim), sp)

    def upto(self, I):
        """how far the source may be advanced"""
        if self.kind == "bytes":
            return {I.case.num(e.vals[1]) for e in I.calls(r"ByteStream(>|)::consume$")}
        if self.kind == "slices":
            return {self.max_taken(I, x) for x in ends(I) if not failed(I, x)}
        return {I.case.num(cases.field_at(I, st, self.pos)) for n, st in I.final_states.items() if not failed(I, n)} if self.pos else set()

    # ---- how the stream is advanced, and when it ends
    pos = None

    def advance(self):
        sp = self.entry
        # the end: of the source, or after the last range
        for eof, left, tail in itertools.product((0, 1), (0, 1), (0, 1)):
            if eof and (left or tail):
                continue            # there, no range remains
            v = dict(rs=0, re=0, off=10, n=8, eof=eof, margin=1, trans=30, tail=tail, left=left, bytes=8, max=8)
            if self.sig:
                v["phi"] = {self.sig: 0}
            if self.pos:
                v[self.pos] = 0
            I = self.case(v)
            said = set()
            for r in tops(I):
                for x in choices(I, r):
                    if E.failure(x):
                        continue
                    p = E.some(x)
                    for y in choices(I, p) if p is not None else ():
                        said.add(I.case.num(y.a[3]) if y.k == "agg" and y.a[0] == "tuple" else I.case.num(y))
            if eof:
                self.ob("end", said == {1}, "at the end of the source it announces %s" % sorted(said, key=str), sp)
            elif left or tail:
                self.ob("end", said == {0}, "with ranges left and more to come it announces the end: %s" % sorted(said, key=str), sp)
        # what is consumed counts
        for k in (0, 3, 6):
            if self.kind == "bytes":
                v = dict(rs=0, re=0, off=10, n=k + 1, eof=0, margin=1, trans=30, tail=0, left=1, bytes=k + 1, max=k + 1, phi={self.sig: 0} if self.sig else {})
                I = self.case(v)
                cs = list(I.calls(r"ByteStream(>|)::consume$"))
                got = {I.case.num(e.vals[1]) for e in cs}
                vals = self.stored(I, self.off)
                self.ob("counts", len(got) == 1 and None not in got and vals == {10 + min(got)}, "it consumes %s, and %d consumed before become %s" % (sorted(got, key=str), 10, sorted(vals, key=str)), sp)
                seen = q.from_start(I, lambda a, b, l: any(q.is_err_of(e.term)(a, b, l) for e in I.calls(FILLB)), avoid=[e.node for e in cs])
                self.ob("counts", not any(x in seen for x in ends(I) if not failed(I, x)), "what was applied is not consumed", sp)
            else:
                fn = re.sub(r"::fill_segment_buf$", "::consume", self.entry)
                arg = mk("arg", fn, 1)

                def leaf(t):
                    if t is arg:
                        return k
                    if t.k == "fld":
                        b = q.strip(t.a[0])
                        if b.k == "pay" and b.a[0].k == "call" and re.search(r"SegmentStream(>|)::consume$", b.a[0].a[0]):
                            return {"0": k, "1": 4}.get(t.a[1])
                        p = field_path(t)
                        if p is not None:
                            return 10 if p == self.off else 5 if p == self.pos else 9
                    return None
                if fn not in self.prog.fns:
                    continue
                I = cases.run(self.prog, fn, leaf, inline=inl)
                self.R.count("cases")
                self.R.graph(I)
                cs = [e for e in I.calls(r"(Byte|Segment)Stream(>|)::consume$") if e.kind == "call"]
                got = {I.case.num(e.vals[1]) for e in cs}
                vals = self.stored(I, self.off)
                if self.kind == "lines":
                    self.ob("counts", vals == {14}, "4 slices are consumed, and 10 consumed before become %s" % sorted(vals, key=str), fn)
                    if self.pos:
                        p = self.stored(I, self.pos)
                        self.ob("counts", p == {1}, "4 slices are consumed, and of 5 to which the ranges were applied %s remain" % sorted(p, key=str), fn)
                else:
                    self.ob("counts", len(got) == 1 and None not in got and vals == {10 + min(got)}, "it consumes %s, and 10 consumed before become %s" % (sorted(got, key=str), sorted(vals, key=str)), fn)

    def stored(self, I, path):
        """the values a field has in the end, where the function succeeds"""
        out = set()
        for n, st in I.final_states.items():
            if I.ctx_of_id[n[0]].parent is None and not failed(I, n):
                x = self.at_end(I, st, path)
                out |= {I.case.num(y) for y in choices(I, x)} if x is not None else {None}
        return out

    def at_end(self, I, st, path):
        # in a closure, the fields of the step are reached through what it captures
        for n, ws in I.stores.items():
            for root, p, v, sp in ws:
                pass
        if not self.body[1]:
            return cases.field_at(I, st, path)
        for n, ws in sorted(I.stores.items(), key=lambda x: x[0][1]):
            for root, p, v, sp in ws:
                t = root[1] if isinstance(root, tuple) and hasattr(root[1], "k") else None
                if t is None:
                    continue
                tp = field_path(q.strip(t)) or ()
                if tuple(tp) + tuple(x[1] for x in p if x[0] == "f" and x[1] != "*") == path:
                    return v
        return None


def case_max(I, t):
    vs = {I.case.num(x) for x in choices(I, t)}
    return max(vs, key=lambda x: (x is None, x or 0)) if vs else None


def counter(prog, I, t):
    """is it a number the function keeps"""
    names, bb, (owner, key) = I.signature(t)
    m = re.match(r"^(\d+)\|$", key)
    f = prog.fns.get(owner[-1]) if owner else None
    return bool(m) and f is not None and f.locals[int(m.group(1))]["ty"] == "usize"


def failed(I, n):
    r = I.returns.get(n)
    return r is None or all(E.failure(x) for x in choices(I, r))


def flat(I, ins, sig):
    out = []
    for x in ins:
        if x.k == "phi" and I.signature(x) != sig:
            out += flat(I, I.phi_in.get(x, ()), sig)
        else:
            out.append(x)
    return [x for x in out if not (x.k == "phi" and I.signature(x) == sig)]


def stays(I, sig, seen=None):
    """may the variable keep its value in a turn"""
    for p in I.phi_in:
        if I.signature(p) == sig:
            seen, st = set(), [x for x in I.phi_in[p]]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.k == "phi":
                    if I.signature(x) == sig:
                        return True
                    st.extend(I.phi_in.get(x, ()))
    return False


def own_slices_it(I, t):
    """the collection an element is taken from"""
    for x in inner(I, t):
        if x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) == "next":
            for y in inner(I, x.a[0]):
                p = field_path(y) if y.k == "fld" else None
                if p is not None:
                    return p
    return None
