"""--find and --regex. The stage that searches for bytes is analysed for what it searches (from where it has searched before to the
end of the block, for the given bytes), what becomes of each place that is found, and, in numbers, from where it goes on in the next
block; the one that searches by an expression for which slices it searches, once each, where it puts what is found, in which order,
and how much of it is handed out before the next block is known."""
import itertools
import re
from absint import Interp, C, mk, show, last
import q
import cases
from rules import evalx as E
from rules import dump as D
from rules.c16 import stages, field_path, own_slices, SRC_CONSUME
from rules.c17 import choices, tops
from rules.fillx import Filling, said, part, answers, left, numbers, pushes, fields_of, failed, INL, STREAM, WINDOW, SLICES

SEARCH = r"(memmem|Regex|Finder).*::(find_iter|find|find_at|rfind_iter|rfind|captures_iter|captures|match_indices|shortest_match)$|<impl \[T\]>::windows$"


def run(prog, R):
    n = {"bytes": 0, "expression": 0}
    for ty, fs in sorted(stages(prog).items()):
        calls = {e.name for e in Interp(prog, fs["fill_segment_buf"], inline=INL).calls(SEARCH) if e.kind == "call"}
        if not calls:
            # in what is handed to an adaptor
            for p, g in prog.fns.items():
                if p.startswith(fs["fill_segment_buf"] + "::{closure"):
                    calls |= {t["f"].get("fn") for i, t in g.calls() if re.search(SEARCH, t["f"].get("fn") or "")}
        f = Filling(prog, R, ty, fs)
        if any("regex" in x for x in calls):
            n["expression"] += 1
            Expression(f, calls).run()
        elif calls:
            n["bytes"] += 1
            Bytes(f, calls).run()
    R.ob("steps", n["bytes"] >= 1 and n["expression"] >= 1, "what searches is not found: %s" % n, "src/segment")


def found(I, t):
    """the place found: the payload of next of the iterator"""
    return t.k == "pay" and t.a[0].k == "call" and last(t.a[0].a[0]) == "next"


def window(I, t):
    """(what, from, to) as numbers of a part of something, also of a part of a part"""
    t = q.strip(t)
    s = q.slice_of(t)
    if s is None:
        return t, 0, None
    b, lo, hi = window(I, s[0])
    a = I.case.num(s[1]) if s[1] is not None else 0
    e = I.case.num(s[2]) if s[2] is not None else None
    return b, None if a is None or lo is None else lo + a, (None if lo is None or e is None else lo + e) if s[2] is not None else hi


def open_ended(I, t):
    """is the end not given?"""
    s = q.slice_of(q.strip(t))
    return s is None or s[2] is None and open_ended(I, s[0])


class Bytes:
    def __init__(self, f, calls):
        self.f, self.calls, self.ob = f, calls, f.ob
        self.segs = f.stage.out[0] if f.kept else None

    def run(self):
        f = self.f
        if not self.ob("bytes:slices", f.kept and f.stage.out[1] is None, "not all slices that were found are handed out"):
            return
        I = f.run({})
        f.R.graph(I)
        es = [e for e in I.calls(SEARCH) if e.kind == "call"]
        if len(es) != 1 or last(es[0].name) not in ("find_iter", "rfind_iter"):
            f.R.count("forms-not-followed")
            return
        e = es[0]
        self.ob("bytes:forward", last(e.name) == "find_iter", "it searches backwards", e.sp)
        hay, needle = e.vals[:2] if "Finder" not in e.name else (e.vals[1], e.vals[0])
        needle = q.strip(needle)
        while needle.k in ("eff", "call") and own_slices(I, needle) is None:
            if needle.k == "eff":
                needle = q.strip(needle.a[3])
            elif last(needle.a[0]) in ("new", "build_forward", "as_slice", "into_owned") and len(needle.a) > 2:
                needle = q.strip(needle.a[-1])
            else:
                break
        self.pat = own_slices(I, needle)
        if self.pat is None:
            f.R.count("forms-not-followed")
            return
        self.hay(I, e, hay)
        self.taken(I, e)
        self.onward()
        self.nothing()
        self.new()

    def vals(self, eof, n, s, l, tail, at=None):
        """tail: end of the last slice there is, None without any"""
        def variant(me, t):
            t = q.strip(t)
            if t.k == "call" and last(t.a[0]) in ("last", "last_mut", "back", "first") and own_slices(me.I, t.a[2]) == self.segs:
                return "None" if tail is None else "Some"
            return None

        def leaf(me, t):
            if found(me.I, t):
                return at
            if t.k == "fld" and t.a[1] in ("pos", "len") and tail is not None:
                b = q.strip(t.a[0])
                while b.k == "fld" and b.a[1] == "*":
                    b = q.strip(b.a[0])
                if b.k == "pay" and b.a[0].k == "call" and last(b.a[0].a[0]) in ("last", "last_mut", "back") and own_slices(me.I, b.a[0].a[2]) == self.segs:
                    return tail - l if t.a[1] == "pos" else l
            return None
        return {"eof": eof, "bytes": n, "fields": {self.scanned: s} if s is not None else {}, "lens": {self.pat: l, self.segs: 0 if tail is None else 3},
                "variant": variant, "leaf": leaf}

    def hay(self, I, e, hay):
        self.scanned = None
        b, _, _ = window(I, hay)
        self.ob("bytes:stream", b.k == "call" and bool(re.search(STREAM, b.a[0])), "what is searched is not the data: %s" % show(hay, 5), e.sp)
        t = q.strip(hay)
        while q.slice_of(t) is not None:
            s = q.slice_of(t)
            if s[1] is not None and self.scanned is None:
                self.scanned = next((field_path(x) for x in I.subterms(q.strip(s[1])) if field_path(x) and x.k == "fld" and x.a[1] != "*"), None)
            t = q.strip(s[0])
        if not self.ob("bytes:on", self.scanned is not None, "what was searched in the block before is searched again", e.sp):
            return
        for n, st in ((51, 0), (50, 20), (3 << 20, 1 << 20)):
            J = self.f.run(self.vals(0, n, st, 3, None))
            for x in J.calls(SEARCH):
                if x.kind != "call":
                    continue
                h = x.vals[0] if "Finder" not in x.name else x.vals[1]
                _, lo, hi = window(J, h)
                hi = n if open_ended(J, h) else hi
                self.ob("bytes:range", lo == st and hi == n, "with %d of %d bytes searched, it searches %s..%s" % (st, n, lo, hi), x.sp)

    def taken(self, I, e):
        """every place becomes one slice"""
        nx = [x for x in I.calls(r"Iterator>?::next$") if x.kind == "call" and any(y is e.term for y in I.subterms(x.vals[0]))] or \
             [x for x in I.calls(r"Iterator>?::next$") if x.kind == "call" and "memmem" in show(x.vals[0], 12)] or [x for x in I.calls(r"Iterator>?::next$") if x.kind == "call"]
        ps = pushes(I, self.segs)
        if not nx or not ps:
            self.ob("bytes:taken", bool(ps) or not nx, "what is found does not become a slice", e.sp)
            self.f.R.count("forms-not-followed")
            return
        for x in nx:
            seen = q.reach(I, [x.node], cut=q.is_err_of(x.term), avoid=[p.node for p in ps])
            self.ob("bytes:taken", x.node not in seen and not any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None), "some of what is found does not become a slice", x.sp)
            for p in ps:
                again = q.reach(I, [p.node], avoid=[x.node])
                self.ob("bytes:once", not any(y.node in again for y in ps), "a place that is found gives more than one slice", p.sp)
        for s, at, l in ((0, 0, 1), (0, 7, 4), (20, 5, 4)):
            J = self.f.run(self.vals(0, 90, s, l, None, at))
            for p in pushes(J, self.segs):
                for x in fields_of(J, p.vals[1]):
                    pos, ln = (numbers(J, x["pos"]), numbers(J, x["len"])) if x and "pos" in x and "len" in x else (None, None)
                    self.ob("bytes:slice", pos == {s + at} and ln == {l}, "%d bytes found at %d behind the %d that were searched give the slice %s + %s" % (l, at, s, pos, ln), p.sp)
        # nothing else adds or removes slices
        for x in I.calls():
            if x.kind == "call" and x.name and x.vals and own_slices(I, x.vals[0]) == self.segs and last(x.name) in ("clear", "pop", "truncate", "remove", "insert", "drain", "retain", "dedup", "dedup_by_key", "swap_remove", "reverse"):
                self.ob("bytes:kept", False, "slices that were found are changed by %s" % last(x.name), x.sp)

    def onward(self):
        """from where it goes on"""
        B = 2 << 20
        for eof, n, s, l, tail in ((0, B, 0, 1, None), (0, B, 0, 4, None), (0, B, 100, 64, None), (0, B, 0, 4, 10), (0, B, 0, 4, B - 3), (0, B, 0, 4, B - 2), (0, B, 0, 4, B),
                                   (0, B, 0, 4, B - 1), (0, B + 5, B - 3, 4, B - 10), (0, B, 0, 1, B), (0, B, 0, 64, B - 60), (0, B, B - 3, 4, None), (0, B, B - 3, 4, B - 3), (0, B, B, 4, B),
                                   (1, 0, 0, 4, None), (1, 3, 0, 4, None), (1, 9, 6, 4, 6), (1, 90, 0, 4, 90), (1, B, 7, 4, 40), (1, B, 0, 1, None), (1, 63, 0, 64, None)):
            I = self.f.run(self.vals(eof, n, s, l, tail))
            what = "of %d bytes, with %s found last%s: " % (l, "the ones before %d" % tail if tail is not None else "none", ", at the end," if eof else "")
            sc = left(I, self.scanned)
            t = tail or 0
            hi = max(n - l + 1, t, s if not eof and n - l + 1 < s else 0)
            if eof:
                self.ob("bytes:all", bool(sc) and all(x is not None and x >= t for x in sc) and answers(I, 3) == {n}, "%sof %d bytes %s may be consumed" % (what, n, answers(I, 3)))
            else:
                self.ob("bytes:missed", bool(sc) and all(x is not None and x <= hi for x in sc), "%swith %d bytes read, it goes on from %s, and what begins before is missed" % (what, n, show_set(sc)))
                self.ob("bytes:overlap", bool(sc) and all(x is not None and x >= t for x in sc), "%swith %d bytes read, it goes on from %s, within what was found" % (what, n, show_set(sc)))
                self.ob("bytes:again", bool(sc) and all(x is not None and x > n - 2 * l - 2 for x in sc), "%swith %d bytes read, it goes on from %s" % (what, n, show_set(sc)))
                mx = answers(I, 3)
                self.ob("bytes:consumed", bool(mx) and all(x is not None and all(y is not None and x <= y for y in sc) and x > n - 2 * l - 2 for x in mx),
                        "%swith %d bytes read and %s searched, %s may be consumed" % (what, n, show_set(sc), show_set(mx)))
            self.ob("bytes:answer", answers(I, 0) == {eof} and answers(I, 1) == {n} and answers(I, 2) == {0 if tail is None else 3},
                    "%send, bytes and slices are announced as %s, %s, %s" % (what, answers(I, 0), answers(I, 1), answers(I, 2)))

    def nothing(self):
        """nothing to search for"""
        for eof, n, s in ((0, 2 << 20, 0), (1, 5, 0), (1, 0, 0), (1, 9, 9)):
            I = self.f.run(self.vals(eof, n, s, 0, None))
            self.ob("bytes:empty", answers(I, 0) == {eof} and answers(I, 1) == {n} and answers(I, 2) == {0} and answers(I, 3) == {n} and not pushes(I, self.segs),
                    "with nothing to search for in %d bytes, %s slices are announced, and %s bytes may be consumed" % (n, answers(I, 2), answers(I, 3)))
            self.ob("bytes:empty", all(x is not None and x >= n for x in left(I, self.scanned)), "with nothing to search for, %s of %d bytes may be consumed" % (left(I, self.scanned), n))
        # what is asked for is enough to search in
        for e in self.f.run({}).calls(r"ByteStream>?::fill_buf$"):
            if e.kind == "call":
                v = e.vals[1]
                self.ob("bytes:enough", v.k == "c" and v.a[0] >= 64 or v.k != "c", "the block may be shorter than what is searched for: %s" % show(v, 3), e.sp)

    def new(self):
        """the bytes to search for are those of the text, at most 64"""
        fn = next((p for p in self.f.prog.fns if p.startswith(self.f.ty + "::") and p.endswith("::new")), None)
        if fn is None:
            self.f.R.count("forms-not-followed")
            return
        parse = r"parse_hex_body$"
        G = Interp(self.f.prog, fn, inline=INL)
        self.f.R.graph(G)
        cs = [e for e in G.calls(parse) if e.kind == "call"]
        if len(cs) != 1 or not cs[0].vals:
            self.f.R.count("forms-not-followed")
            return
        T = cs[0].term
        for used, n in ((0, 0), (3, 1), (191, 64), (2, 0), (189, 63)):
            self.built(fn, used, n, True)
        self.built(fn, 192, 64, False)

    def built(self, fn, used, n, good):
        def leaf(me, t):
            # ((_, used), filled)
            path = []
            x = t
            while x.k == "fld" or x.k == "as":
                if x.k == "fld":
                    path.insert(0, x.a[1])
                    x = q.strip(x.a[0])
                else:
                    x = q.strip(x.a[1])
            if x.k == "pay":
                c = x.a[0]
                while c.k == "call" and last(c.a[0]) in ("with_context", "context", "map_err", "ok_or_else", "ok_or", "branch") and len(c.a) > 2:
                    c = c.a[2]
                if c.k == "call" and last(c.a[0]) == "parse_hex_body":
                    return {("0", "1"): used, ("1",): n}.get(tuple(path))
            return None
        I = self.f.run({"leaf": leaf}, fn)
        ok = said(I)
        if not good:
            self.ob("bytes:long", not ok, "a text that is longer than what can be parsed at once is accepted, and cut", fn)
            return
        if not self.ob("bytes:accepted", bool(ok), "a text for %d bytes is refused" % n, fn):
            return
        for x in ok:
            v = x
            for f in self.pat:
                v = I.project(v, ("f", f))
            for y in choices(I, v):
                self.ob("bytes:text", I.case.length(y) == n, "of a text for %d bytes %s are searched for" % (n, I.case.length(y)), fn)
            z = x
            for f in self.scanned:
                z = I.project(z, ("f", f))
            self.ob("bytes:first", numbers(I, z) == {0}, "it does not begin to search at the start", fn)


def show_set(s):
    return ", ".join(str(x) for x in sorted(s, key=str)) or "nothing"


class Expression:
    def __init__(self, f, calls):
        self.f, self.calls, self.ob = f, calls, f.ob
        self.segs, self.hi = f.stage.out if f.kept else (None, None)

    def run(self):
        f = self.f
        if not self.ob("expr:slices", f.kept, "the slices that were found are not handed out"):
            return
        I = f.run({})
        f.R.graph(I)
        es = [e for e in I.calls(SEARCH) if e.kind == "call"]
        if len(es) != 1 or last(es[0].name) not in ("find_iter", "captures_iter"):
            f.R.count("forms-not-followed")
            return
        self.e = e = es[0]
        self.ob("expr:expression", field_path(q.strip(e.vals[0])) is not None, "another expression is searched for", e.sp)
        self.searched(I, e)
        self.placed(I, e)
        self.sorted(I)
        self.handed()
        self.source(I)

    # ---- which slices are searched
    def searched(self, I, e):
        b, _, _ = window(I, e.vals[1])
        ok = q.slice_of(q.strip(e.vals[1])) is not None
        ok = ok and b.k == "fld" and b.a[1] == "0" and q.strip(b.a[0]).k == "call" and bool(re.search(WINDOW, q.strip(b.a[0]).a[0]))
        if not self.ob("expr:stream", ok, "what is searched is not a slice of the data: %s" % show(e.vals[1], 5), e.sp):
            return
        self.elem = self.element(I, e.vals[1])
        if self.elem is None:
            self.f.R.count("forms-not-followed")
            return
        for pos, ln in ((0, 5), (30, 7), (30, 0)):
            J = self.f.run({"leaf": self.leaf(pos, ln, 0, 0)})
            for x in J.calls(SEARCH):
                if x.kind == "call":
                    _, lo, hi = window(J, x.vals[1])
                    self.ob("expr:slice", lo == pos and hi == pos + ln, "of the slice %d + %d it searches %s..%s" % (pos, ln, lo, hi), x.sp)
        # each new slice of the source, once
        nx = [x for x in I.calls(r"Iterator>?::next$") if x.kind == "call" and x.term is self.elem.a[0]]
        for x in nx:
            seen = q.reach(I, [x.node], cut=q.is_err_of(x.term), avoid=[e.node])
            self.ob("expr:every", x.node not in seen and not any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n)), "a slice is not searched", x.sp)
        coll = iterated(I, self.elem)
        s = q.slice_of(coll) if coll is not None else None
        if s is None and coll is not None and counting(I, coll) and self.from_ is not None:
            s = (self.from_, coll.a[3], coll.a[4])
        if s is None:
            b = q.strip(coll) if coll is not None else None
            whole = b is not None and b.k == "fld" and b.a[1] == "1" and q.strip(b.a[0]).k == "call" and re.search(WINDOW, q.strip(b.a[0]).a[0])
            self.ob("expr:once", not whole, "slices that were searched before are searched again", e.sp)
            if not whole:
                self.f.R.count("forms-not-followed")
            return
        b = window(I, s[0])[0]
        self.ob("expr:source", b.k == "fld" and b.a[1] == "1" and q.strip(b.a[0]).k == "call" and bool(re.search(WINDOW, q.strip(b.a[0]).a[0])), "what is searched are not the slices of the step before: %s" % show(b, 4), e.sp)
        lo, t = s[1], coll
        while lo is None and q.slice_of(t) is not None:
            t = q.strip(q.slice_of(t)[0])
            lo = q.slice_of(t)[1] if q.slice_of(t) is not None else None
        self.seen = next((field_path(x) for x in I.subterms(q.strip(lo)) if x.k == "fld" and field_path(x)), None) if lo is not None else None
        if not self.ob("expr:once", self.seen is not None, "slices that were searched before are searched again", e.sp):
            return
        for n, st in ((4, 0), (4, 1), (4, 4), (0, 0)):
            for eof in (0, 1):
                J = self.f.run({"fields": {self.seen: st}, "count": n, "eof": eof, "bytes": 100, "max": 50})
                c2 = None
                for x in J.calls(SEARCH):
                    if x.kind != "call":
                        continue
                    el = self.element(J, x.vals[1])
                    c2 = iterated(J, el) if el is not None else None
                    if c2 is None:
                        self.f.R.count("forms-not-followed")
                        continue
                    _, lo, hi = window(J, c2) if q.slice_of(c2) is not None else counting(J, c2)
                    self.ob("expr:new", lo == st and hi == n, "%d of %d slices were searched before, and now %s..%s are" % (st, n, lo, hi), x.sp)
                self.ob("expr:seen", left(J, self.seen) == {n}, "with %d slices searched, it takes %s as searched" % (n, show_set(left(J, self.seen))))

    def element(self, I, hay):
        """the slice (or its number) the searched part is of"""
        t = q.strip(hay)
        while q.slice_of(t) is not None:
            s = q.slice_of(t)
            for z in s[1:]:
                sub = list(I.subterms(z)) if z is not None else []
                self.from_ = next((x.a[0] for x in sub if x.k == "idx"), None)
                for x in sub:
                    if found(I, x):
                        return x
            t = q.strip(s[0])
        return None

    def leaf(self, pos, ln, a, b):
        """a slice of the source, and what is found in it"""
        def leaf(me, t):
            if t.k == "fld" and t.a[1] in ("pos", "len"):
                x = q.strip(t.a[0])
                while x.k == "fld" and x.a[1] == "*":
                    x = q.strip(x.a[0])
                if found(me.I, x) or x.k == "idx" and q.strip(x.a[0]).k == "fld" and q.strip(q.strip(x.a[0]).a[0]).k == "call" and re.search(WINDOW, q.strip(q.strip(x.a[0]).a[0]).a[0]):
                    return pos if t.a[1] == "pos" else ln
            if t.k == "call" and len(t.a) > 2:
                l = last(t.a[0])
                x = q.strip(t.a[2])
                if "Match" in t.a[0] and l in ("start", "end", "len") and found(me.I, x):
                    return {"start": a, "end": b, "len": b - a}[l]
                if l == "len" and x.k == "call" and last(x.a[0]) in ("range", "as_bytes") and "Match" in x.a[0]:
                    return b - a
                if l == "is_empty" and "Match" in t.a[0] and found(me.I, x):
                    return int(a == b)
            if t.k == "fld" and t.a[1] in ("start", "end"):
                x = q.strip(t.a[0])
                if x.k == "call" and last(x.a[0]) == "range" and "Match" in x.a[0]:
                    return a if t.a[1] == "start" else b
            return None
        return leaf

    # ---- where what is found is put
    def placed(self, I, e):
        ps = pushes(I, self.segs)
        if not ps:
            self.f.R.count("forms-not-followed")
            return
        nx = [x for x in I.calls(r"Iterator>?::next$") if x.kind == "call" and any(y is e.term for v in x.vals for y in terms_behind(I, v))]
        for x in nx:
            seen = q.reach(I, [x.node], cut=q.is_err_of(x.term), avoid=[p.node for p in ps])
            self.ob("expr:taken", x.node not in seen and not any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None), "some of what is found does not become a slice", x.sp)
            for p in ps:
                again = q.reach(I, [p.node], avoid=[x.node])
                self.ob("expr:taken-once", not any(y.node in again for y in ps), "a place that is found gives more than one slice", p.sp)
        for pos, a, b in ((0, 0, 3), (40, 0, 7), (40, 3, 4), (7, 2, 2)):
            J = self.f.run({"leaf": self.leaf(pos, 9, a, b)})
            for p in pushes(J, self.segs):
                for x in fields_of(J, p.vals[1]):
                    at, ln = (numbers(J, x["pos"]), numbers(J, x["len"])) if x and "pos" in x and "len" in x else (None, None)
                    self.ob("expr:place", at == {pos + a} and ln == {b - a}, "%d..%d of a slice at %d is taken as %s + %s" % (a, b, pos, at, ln), p.sp)
        for x in I.calls():
            if x.kind == "call" and x.name and x.vals and own_slices(I, x.vals[0]) == self.segs and last(x.name) in ("clear", "pop", "truncate", "remove", "insert", "drain", "retain", "dedup", "dedup_by_key", "dedup_by", "swap_remove", "reverse"):
                self.ob("expr:kept", False, "slices that were found are changed by %s" % last(x.name), x.sp)

    # ---- their order
    def sorted(self, I):
        so = [x for x in I.calls() if x.kind == "call" and x.name and last(x.name).startswith("sort") and own_slices(I, x.vals[0]) == self.segs]
        ps = pushes(I, self.segs)
        if not ps:
            return
        up = [x for x in so if self.ascending(I, x)]
        for x in so:
            self.ob("expr:order", x in up, "the slices that were found are not ordered by where they start", x.sp)
        seen = q.reach(I, [p.node for p in ps], avoid=[x.node for x in up])
        self.ob("expr:sorted", not any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n)), "slices found in slices that overlap are handed out in the order they are found", self.e.sp)

    def ascending(self, I, x):
        """does the comparison put what starts earlier first?"""
        if len(x.vals) < 2:
            return True             # the order of the type itself
        for v in x.vals[1:]:
            for c in choices(I, v):
                g = self.f.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                if g is None:
                    return True
                J = Interp(self.f.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True)
                for r in E.K.result(J):
                    r = q.strip(r)
                    if "by_key" in x.name or "cached" in x.name:
                        k = q.strip(r.a[3]) if r.k == "agg" and len(r.a) > 3 and r.a[0] == "tuple" else r
                        if not (k.k == "fld" and k.a[1] == "pos"):
                            return False
                    else:
                        y = r
                        while y.k == "call" and last(y.a[0]) in ("then_with", "then"):
                            y = q.strip(y.a[2])
                        if y.k == "call" and last(y.a[0]) in ("cmp", "partial_cmp") and len(y.a) == 4:
                            a, b = (q.strip(z) for z in y.a[2:4])
                            a, b = (q.strip(z.a[3]) if z.k == "agg" and z.a[0] == "tuple" and len(z.a) > 3 else z for z in (a, b))
                            who = [next((z.a[1] for z in J.subterms(w) if z.k == "arg"), None) for w in (a, b)]
                            if not (a.k == b.k == "fld" and a.a[1] == b.a[1] == "pos") or who != [1, 2]:
                                return False
        return True

    # ---- how many are handed out
    def handed(self):
        """those that start before what may be consumed; all of them at the end"""
        hi = q.strip(self.hi) if self.hi is not None else None
        path = field_path(hi) if hi is not None else None
        for eof in (0, 1):
            for n, k, mx in ((5, 3, 50), (5, 0, 50), (5, 5, 50), (0, 0, 50)):
                def variant(me, t):
                    t = q.strip(t)
                    return ("Some" if k < n else "None") if t.k == "call" and last(t.a[0]) == "position" and own_slices(me.I, t.a[2]) == self.segs else None
                I = self.f.run({"eof": eof, "bytes": 100, "max": mx, "count": 4, "lens": {self.segs: n}, "leaf": self.before(k, mx), "variant": variant})
                want = n if eof else k
                got = left(I, path) if path is not None else {n}
                a = answers(I, 2)
                self.ob("expr:early" if not eof else "expr:all", got == {want} and a == {want},
                        "with %d found, %d of them before %d,%s %s are handed out, and %s announced" % (n, k, mx, " at the end" if eof else "", show_set(got), show_set(a)))
                self.ob("expr:answer", answers(I, 0) == {eof} and answers(I, 1) == {100} and answers(I, 3) == {mx},
                        "end, bytes, and what may be consumed are announced as %s, %s, %s" % tuple(show_set(answers(I, i)) for i in (0, 1, 3)))

    def before(self, k, mx):
        def holds(me, clo, flip):
            for c in choices(me.I, clo):
                g = self.f.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                if g is None:
                    return False
                J = Interp(self.f.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True)
                for r in E.K.result(J):
                    for p in (0, mx - 1, mx, mx + 1):
                        def val(t):
                            t = q.strip(t)
                            if t.k == "fld" and t.a[1] == "pos":
                                return p
                            if t.k == "fld" and t.a[1] == "len":
                                return 3
                            return me.num(t)
                        v = q.truth(r, val)
                        if v is None or bool(v) != ((p < mx) != flip):
                            return False
            return True

        def leaf(me, t):
            if t.k == "call" and last(t.a[0]) == "partition_point" and len(t.a) > 3 and own_slices(me.I, t.a[2]) == self.segs:
                return k if holds(me, t.a[3], False) else None
            if t.k == "call" and last(t.a[0]) == "count" and len(t.a) > 2:
                x = q.strip(t.a[2])
                if x.k == "call" and last(x.a[0]) in ("take_while", "filter") and len(x.a) > 3 and own_slices(me.I, x.a[2]) == self.segs:
                    return k if holds(me, x.a[3], False) else None
            if t.k == "pay" and t.a[0].k == "call" and last(t.a[0].a[0]) == "position" and own_slices(me.I, t.a[0].a[2]) == self.segs:
                return k if holds(me, t.a[0].a[3], True) else None
            return None
        return leaf

    def source(self, I):
        """the source is asked once"""
        fs = [e for e in I.calls(SLICES) if e.kind == "call"]
        self.ob("expr:asked", len(fs) == 1, "the step before is asked %d times" % len(fs))


def terms_behind(I, v):
    """the values a place has had, back to the first"""
    out, st = set(), [v]
    while st:
        t = q.strip(st.pop())
        if t in out:
            continue
        out.add(t)
        if t.k == "eff":
            st.append(t.a[3])
        elif t.k == "upd":
            st.append(t.a[0])
        elif t.k == "phi":
            st.extend(I.phi_in.get(t, ()))
        elif t.k in ("call",) and len(t.a) > 2 and last(t.a[0]) in ("into_iter", "iter", "by_ref", "map", "enumerate"):
            st.append(t.a[2])
        elif t.k == "addr":
            st.append(t.a[0])
    return out


def counting(I, t):
    """a range of numbers"""
    t = q.strip(t)
    if t.k == "agg" and last(t.a[0]) == "Range" and len(t.a) == 5:
        return t, I.case.num(t.a[3]), I.case.num(t.a[4])
    return None


def iterated(I, pay):
    """the collection an element is taken from, one after the other"""
    for t in terms_behind(I, pay.a[0].a[2]):
        if t.k == "call" and last(t.a[0]) in ("iter", "into_iter", "iter_mut") and len(t.a) > 2:
            x = q.strip(t.a[2])
            if not (x.k == "call" and last(x.a[0]) in ("iter", "into_iter", "iter_mut")) and x.k not in ("eff", "phi"):
                return x
    return None
