"""--guide. The stage that takes its slices from the records of a file is analysed one record at a time, in numbers (offset and length of
the record, offset of the one before, what of the stream is consumed and read, whether the end is reached): which slice a record
becomes, whether it is kept back until its bytes are there, what may be consumed before that, and what becomes of it at the end."""
import re
from absint import Interp, mk, show, last
import q
import cases
from rules import evalx as E
from rules.c16 import stages, field_path, own_slices
from rules.c17 import choices
from rules.fillx import Filling, said, answers, left, numbers, pushes, fields_of, failed, INL
from rules.turn import loop_head, heads_at, turns, where

READ = r"TextParser(::<.*>)?::read_line$"
LASTS = ("last", "last_mut", "back", "back_mut")


def run(prog, R):
    n = 0
    for ty, fs in sorted(stages(prog).items()):
        I = Interp(prog, fs["fill_segment_buf"], inline=INL)
        rl = [e for e in I.calls(READ) if e.kind == "call"]
        if rl:
            n += 1
            R.graph(I)
            Guide(Filling(prog, R, ty, fs), I, rl).run()
    R.ob("steps", n >= 1, "what slices by the records of a file is not found", "src/segment")


class Guide:
    def __init__(self, f, I, rl):
        self.f, self.I, self.rl, self.ob = f, I, rl, f.ob

    def record(self, t):
        """which part of the record a value is"""
        t = q.strip(t)
        if t.k == "fld" and t.a[1] in ("0", "1"):
            b = q.strip(t.a[0])
            if b.k == "pay" and b.a[0].k == "pay" and self.line(b.a[0]):
                return t.a[1]
        return None

    def line(self, t):
        """the record, or none, that was read"""
        t = q.strip(t)
        while t.k == "call" and last(t.a[0]) in ("branch", "with_context", "context", "map_err") and len(t.a) > 2:
            t = q.strip(t.a[2])
        if t.k == "pay":
            t = q.strip(t.a[0])
            while t.k == "call" and last(t.a[0]) in ("branch", "with_context", "context", "map_err") and len(t.a) > 2:
                t = q.strip(t.a[2])
            return t.k == "call" and bool(re.search(READ, t.a[0]))
        return False

    def run(self):
        f, I = self.f, self.I
        if not self.ob("slices", f.kept and f.stage.out[1] is not None, "slices are handed out before their bytes are there") or len(self.rl) != 1:
            f.R.count("forms-not-followed")
            return
        self.segs, self.hi = f.stage.out[0], field_path(q.strip(f.stage.out[1]))
        h = loop_head(I, self.rl[0].node)
        ps = pushes(I, self.segs)
        self.ob("taken", bool(ps), "a record does not become a slice", self.rl[0].sp)
        if h is None or not ps or self.hi is None:
            f.R.count("forms-not-followed")
            return
        self.head = where(I, h)
        self.roles(I, ps)
        if self.used is None or self.prev is None:
            f.R.count("forms-not-followed")
            return
        self.beyond()
        self.within()
        self.end()
        self.none()
        self.back()
        self.request()
        self.consumed()
        self.new()
        for x in I.calls():
            if x.kind == "call" and x.name and x.vals and own_slices(I, x.vals[0]) == self.segs and last(x.name) in ("clear", "remove", "insert", "drain", "dedup", "swap_remove", "reverse", "sort", "sort_by_key", "sort_unstable_by_key"):
                self.ob("kept", False, "slices of records are changed by %s" % last(x.name), x.sp)

    def roles(self, I, ps):
        """the fields for what is consumed of the stream, and for the offset of the record before"""
        self.used = self.prev = None
        for p in ps:
            for x in fields_of(I, p.vals[1]):
                if x and "pos" in x:
                    for t in I.subterms(x["pos"]):
                        if t.k == "op" and t.a[0].startswith("Sub") and self.record(t.a[1]) == "0" and field_path(q.strip(t.a[2])):
                            self.used = field_path(q.strip(t.a[2]))
        self.sig = {}
        for s, p in heads_at(I, self.head).items():
            a, b = turns(I, p)
            b = [y for x in b for y in choices(I, x) if y is not p]
            if any(self.record(x) == "0" for x in b):
                paths = {field_path(q.strip(x)) for x in a}
                if len(paths) == 1 and None not in paths:
                    self.prev = paths.pop()
                    self.sig[s] = "prev"
            elif I.phi_key[p][0][0] == "M" and any(own_slices(I, x) == self.segs for x in a if own_slices(I, x)):
                self.sig[s] = "segs"
        if self.prev is None:
            # what is compared to the offset, but not changed
            cs = [t for n in I.succs.values() for m, l in n if l is not None and hasattr(l[0], "k") for t in I.subterms(l[0])]
            ps = set()
            for t in cs:
                x = t.a[1:3] if t.k == "op" and t.a[0] in ("Lt", "Gt", "Le", "Ge") else t.a[2:4] if t.k == "call" and last(t.a[0]) in ("lt", "gt", "le", "ge", "cmp", "partial_cmp") and len(t.a) == 4 else ()
                if any(self.record(y) == "0" for y in x):
                    for y in x:
                        ps |= {field_path(q.strip(z)) for z in choices(I, q.strip(y))} - {None, self.used}
            if len(ps) == 1:
                self.prev = ps.pop()
            else:
                self.ob("order", bool(ps), "records are taken in any order", self.rl[0].sp)

    def case(self, o=None, s=None, before=0, c=1000, eof=0, n=2 << 20, k=3, tail=None, got="Some", one=True):
        """o, s: the record, behind what is consumed; before: the offset of the one before (likewise); c: consumed; k: slices there are;
        tail: (pos, len) of the last of them; one: the turn of the loop stands alone"""
        pos, ln = tail if tail is not None else (0, 0)

        def newest(me, t):
            """is the last slice meant the one that was just added? None if neither can be told"""
            st, seen, out = [t], set(), set()
            while st:
                x = q.strip(st.pop())
                if x in seen:
                    continue
                seen.add(x)
                if x.k == "eff":
                    if last(x.a[0]) == "push":
                        out.add(True)
                    elif last(x.a[0]) == "pop":
                        out.add(None)
                    else:
                        st.append(x.a[3])
                elif x.k in ("upd", "fld", "addr"):
                    st.append(x.a[0])
                elif x.k == "call" and len(x.a) > 2:
                    st.append(x.a[2])
                elif x.k == "phi":
                    if me.I.signature(x) in self.sig:
                        out.add(False)
                    else:
                        st.extend(me.I.phi_in.get(x, ()))
                else:
                    out.add(False)
            return out.pop() if len(out) == 1 else None

        def of_last(me, t):
            """(field, is it of the one just added)"""
            if t.k == "phi" and me.I is not None:
                for x in me.I.phi_in.get(t, ()):
                    x = q.strip(x)
                    if x.k == "fld" and x.a[1] in ("pos", "len"):
                        r = of_last(me, x)
                        if r is not None and me.I.phi_key[t][1][-1:] == (("f", x.a[1]),) and me.I.phi_key[t][0][0] == "M" and "last" in show(me.I.phi_key[t][0][1], 3):
                            return r
                return None
            if t.k != "fld" or t.a[1] not in ("pos", "len"):
                return None
            b = q.strip(t.a[0])
            while b.k == "fld" and b.a[1] == "*":
                b = q.strip(b.a[0])
            if b.k == "pay" and b.a[0].k == "call" and last(b.a[0].a[0]) in LASTS and own_slices(me.I, b.a[0].a[2]) == self.segs:
                return t.a[1], newest(me, b.a[0].a[2])
            return None

        def variant(me, t):
            if self.line(t):
                return got
            t = q.strip(t)
            if t.k == "call" and last(t.a[0]) in LASTS + ("pop",) and me.I is not None and own_slices(me.I, t.a[2]) == self.segs:
                nw = newest(me, t.a[2])
                return "Some" if nw is True or (nw is False and k > 0) else "None" if nw is False else None
            return None

        def leaf(me, t):
            if t.k == "phi" and me.I is not None and one and self.sig.get(me.I.signature(t)) == "prev":
                return c + before
            r = self.record(t)
            if r is not None:
                return {"0": None if o is None else c + o, "1": s}[r]
            r = of_last(me, t)
            if r is not None and r[1] is not None:
                x, y = (o, s) if r[1] else (pos, ln)
                return x if r[0] == "pos" else y
            return None
        v = {"eof": eof, "bytes": n, "fields": {self.used: c, self.prev: c + before}, "variant": variant, "leaf": leaf}
        if one:
            v["phi"] = {s: None for s in self.sig}

        def size(me, t):
            t = q.strip(t)
            if t.k == "phi" and me.I is not None and one and self.sig.get(me.I.signature(t)) == "segs":
                return k
            return k if field_path(t) == self.segs else None
        v["size"] = size
        return self.f.run(v)

    # ---- what a turn does
    def go(self, **kw):
        J = self.case(**kw)
        rl = [e for e in J.calls(READ) if e.kind == "call"]
        after = q.reach(J, [e.node for e in rl])
        J.again = any(e.node in after for e in rl)
        J.over = any(x in after and not failed(J, x) for x in J.returns if J.ctx_of_id[x[0]].parent is None)
        return J

    def slice(self, J):
        """(pos, len) the slice of the record has in the end; None if it is dropped"""
        ps = pushes(J, self.segs)
        if not ps:
            return {None}
        out = set()
        for p in ps:
            after = q.reach(J, [p.node], avoid=[e.node for e in J.calls(READ) if e.kind == "call"])
            pops = [e for e in J.calls(r"Vec::<.*>::(pop|truncate)$") if e.kind == "call" and own_slices(J, e.vals[0]) == self.segs and e.node in after]
            if pops:
                # always, or not known
                stay = q.reach(J, [p.node], avoid=[e.node for e in pops])
                kept = any(e.node in stay for e in J.calls(READ)) or any(x in stay for x in J.returns if J.ctx_of_id[x[0]].parent is None)
                out.add(None if not kept else ("?", "?"))
                if not kept:
                    continue
            for x in fields_of(J, p.vals[1]):
                if x is None or "pos" not in x or "len" not in x:
                    out.add(("?", "?"))
                    continue
                pos, ln = numbers(J, x["pos"]), numbers(J, x["len"])
                for n in after:
                    for root, path, v, sp in J.stores.get(n, ()):
                        if root[0] == "M" and path and "last" in show(root[1], 3) and path[-1] == ("f", "len"):
                            ln = numbers(J, v)
                        elif root[0] == "M" and path and "last" in show(root[1], 3) and path[-1] == ("f", "pos"):
                            pos = numbers(J, v)
                out |= {(a, b) for a in pos for b in ln}
        return out

    def beyond(self):
        B = 2 << 20
        for eof in (0, 1):
            for o, b in ((3, 4), (0, 1), (100, B)):
                for s in (5, 0, 1 << 40):
                    J = self.go(o=o, s=s, before=b, eof=eof)
                    self.ob("order", not J.again and not J.over, "a record at %d behind one at %d is accepted" % (o, b), self.rl[0].sp)

    def within(self):
        B = 2 << 20
        for o, s, b in ((0, 0, 0), (0, B, 0), (5, 10, 5), (B - 3, 3, 7), (40, 8, 0), (B - 1, 0, B - 1), (0, 8, -1000), (10, 5, -2)):
            J = self.go(o=o, s=s, before=b)
            what = "a record of %d bytes at %d, with %d bytes there" % (s, o, B)
            self.ob("slice", self.slice(J) == {(o, s)}, "%s, becomes %s" % (what, self.shown(J)), self.rl[0].sp)
            self.ob("next", J.again and not J.over, "%s, is not followed by the next one" % what, self.rl[0].sp)
            self.ob("order-kept", self.after(J) == {1000 + o}, "%s, leaves %s as the offset before" % (what, self.after(J)), self.rl[0].sp)
        # beyond what is there
        for o, s, b, k in ((5, B, 0, 3), (B - 3, 4, 0, 0), (B + 100, 5, 9, 1), (0, B + 1, 0, 0), (B, 1, B, 2), (B + 100, 0, 9, 1), (7, (1 << 64) - 1, 0, 2)):
            J = self.go(o=o, s=s, before=b, k=k)
            what = "a record of %d bytes at %d, with %d bytes there" % (s, o, B)
            self.ob("slice", self.slice(J) == {(o, s)}, "%s, becomes %s" % (what, self.shown(J)), self.rl[0].sp)
            self.ob("wait", J.over and not J.again, "%s, does not wait for the rest" % what, self.rl[0].sp)
            if J.over and not J.again:
                self.ob("early", answers(J, 2) == {k} and left(J, self.hi) == {k}, "%s and %d slices before it, %s slices are handed out" % (what, k, answers(J, 2)), self.rl[0].sp)
                self.ob("room", answers(J, 3) == {min(o, B)}, "%s, %s bytes may be consumed" % (what, answers(J, 3)), self.rl[0].sp)
                self.ob("answer", answers(J, 0) == {0} and answers(J, 1) == {B}, "%s, end and bytes are announced as %s and %s" % (what, answers(J, 0), answers(J, 1)), self.rl[0].sp)
                self.ob("order-kept", left(J, self.prev) == {1000 + o}, "%s, leaves %s as the offset before" % (what, left(J, self.prev)), self.rl[0].sp)

    def shown(self, J):
        return ", ".join("nothing" if x is None else "%s + %s" % x for x in sorted(self.slice(J), key=str))

    def after(self, J):
        out = set()
        for s, p in heads_at(J, self.head).items():
            if self.sig.get(s) == "prev":
                for x in turns(J, p)[1]:
                    out |= numbers(J, x)
        return out

    def end(self):
        for n, o, s, want in ((90, 0, 5, (0, 5)), (90, 80, 10, (80, 10)), (90, 80, 11, (80, 10)), (90, 89, 1 << 40, (89, 1)), (90, 90, 3, None), (90, 91, 0, None), (90, 5000, 7, None),
                              (0, 0, 4, None), (2 << 20, 5, 2 << 20, (5, (2 << 20) - 5)), (90, 10, 0, (10, 0)), (90, 3, (1 << 64) - 1, (3, 87))):
            J = self.go(o=o, s=s, before=0, eof=1, n=n)
            what = "a record of %d bytes at %d, with the stream ending at %d" % (s, o, n)
            self.ob("clipped" if want else "outside", self.slice(J) == {want}, "%s, becomes %s" % (what, self.shown(J)), self.rl[0].sp)
            if want is not None or J.again:
                self.ob("next", J.again and not J.over, "%s, is not followed by the next one" % what, self.rl[0].sp)
            elif J.over:
                self.ob("all", answers(J, 2) == {3}, "%s and 3 slices before it, %s slices are handed out" % (what, answers(J, 2)), self.rl[0].sp)

    def none(self):
        """the file ends"""
        for eof in (0, 1):
            for n, k, tail in ((2 << 20, 3, (10, 20)), (2 << 20, 0, None), (100, 1, (90, 10)), (100, 2, (100, 0)) if not eof else (100, 2, (99, 0))):
                J = self.go(got="None", eof=eof, n=n, k=k, tail=tail, one=False)
                what = "with %d bytes and %d slices there, and the records ending%s, " % (n, k, " with the stream" if eof else "")
                self.ob("all", J.over and not J.again and answers(J, 2) == {k} and left(J, self.hi) == {k}, "%s%s slices are handed out" % (what, answers(J, 2)), self.rl[0].sp)
                self.ob("room", answers(J, 3) == {n}, "%s%s bytes may be consumed" % (what, answers(J, 3)), self.rl[0].sp)
                self.ob("answer", answers(J, 0) == {eof} and answers(J, 1) == {n}, "%send and bytes are announced as %s and %s" % (what, answers(J, 0), answers(J, 1)), self.rl[0].sp)

    def back(self):
        """one that was kept back, at the end"""
        for n, tail, want in ((90, (10, 20), 20), (90, (80, 10), 10), (90, (80, 20), 10), (90, (90, 5), None), (90, (400, 5), None), (0, (0, 9), None)):
            J = self.go(got="None", eof=1, n=n, k=2, tail=tail, one=False)
            what = "a slice of %d bytes at %d that was kept back, with the stream ending at %d, " % (tail[1], tail[0], n)
            pops = [e for e in J.calls(r"Vec::<.*>::(pop|truncate)$") if e.kind == "call" and own_slices(J, e.vals[0]) == self.segs]
            ends = [x for x in J.returns if J.ctx_of_id[x[0]].parent is None and not failed(J, x)]
            stay = q.from_start(J, None, avoid=[e.node for e in pops])
            gone = not any(x in stay for x in ends)
            self.ob("kept-outside" if want is None else "kept-inside", gone == (want is None) and (gone or not pops), "%sis %s" % (what, "dropped" if gone else "handed out"), self.f.entry)
            self.ob("all", answers(J, 2) == {1 if want is None else 2}, "%sleaves %s slices of 2" % (what, answers(J, 2)), self.f.entry)
            if want is not None:
                ln = {tail[1]}
                for m in J.stores:
                    for root, path, v, sp in J.stores[m]:
                        if root[0] == "M" and path and "last" in show(root[1], 3) and path[-1] == ("f", "len"):
                            ln = numbers(J, v)
                self.ob("kept-clipped", ln == {want}, "%sbecomes %s bytes" % (what, ln), self.f.entry)

    def request(self):
        """what is kept back is waited for"""
        for tail in ((10, 20), (0, 5 << 20), (3 << 20, 1 << 20), None):
            J = self.go(got="None", k=0 if tail is None else 2, tail=tail, one=False)
            for e in J.calls(r"ByteStream>?::fill_buf$"):
                if e.kind == "call":
                    v = numbers(J, e.vals[1])
                    t = sum(tail) if tail else 1
                    self.ob("request", bool(v) and all(x is not None and x >= t for x in v), "for a slice that ends at %d, %s bytes are asked for" % (t, v), e.sp)

    def consumed(self):
        fn = self.f.fs["consume"]
        took = False
        for c, b in ((0, 10), (1000, 10), (1000, 0), (1 << 40, 5)):
            def leaf(me, t):
                return b if t.k == "arg" and t.a[1] == 1 else None
            J = self.f.run({"leaf": leaf, "fields": {self.used: c, **({self.room: 64} if self.room else {})}}, fn)
            for n, st in J.final_states.items():
                if J.ctx_of_id[n[0]].parent is None and not failed(J, n):
                    r = [x for x in choices(J, J.returns[n]) if not E.failure(x)]
                    for x in r:
                        p = E.some(x)
                        d = numbers(J, J.project(x if p is None else p, ("f", "0")))
                        got = numbers(J, cases.field_at(J, st, self.used))
                        if None in d:
                            self.f.R.count("forms-not-followed")
                            continue
                        took = True
                        self.ob("consumed", got == {c + y for y in d}, "with %d consumed before and %s now, %s are taken as consumed" % (c, d, got), fn)

    @property
    def room(self):
        """the field for what may be consumed"""
        for x in said(self.I):
            for y in choices(self.I, self.I.project(x, ("f", "3"))):
                pass
        fn = self.f.fs["consume"]
        J = Interp(self.f.prog, fn, inline=INL)
        for e in J.calls(r"cmp::min$|Ord>?::min$|::min$"):
            for v in e.vals:
                p = field_path(q.strip(v))
                if p:
                    return p
        return None

    def new(self):
        fn = next((p for p in self.f.prog.fns if p.startswith(self.f.ty + "::") and p.endswith("::new")), None)
        if fn is None:
            self.f.R.count("forms-not-followed")
            return
        J = Interp(self.f.prog, fn, inline=INL)
        self.f.R.graph(J)
        ps = [e for e in J.calls(r"TextParser(::<.*>)?::new$") if e.kind == "call"]
        fm = [e for e in J.calls(r"InoutFormat(>|)::from_str$") if e.kind == "call"]
        if len(ps) == 1:
            t = q.strip(ps[0].vals[0])
            self.ob("file", t.k == "arg" and t.a[1] == 1, "the records are not read from the file: %s" % show(t, 3), ps[0].sp)
        for e in fm:
            v = q.strip(e.vals[0])
            self.ob("format", v.k == "s" and bytes(v.a[0])[:2] == b"xx" if v.k == "s" and not isinstance(v.a[0], str) else v.k == "s" and v.a[0][:2] == "xx", "offsets and lengths are not read as hexadecimal: %s" % show(v, 3), e.sp)
        I = self.f.run({}, fn)
        for x in said(I) or [y for n, r in I.returns.items() if I.ctx_of_id[n[0]].parent is None for y in choices(I, r)]:
            for path in (self.used, self.prev, self.hi):
                z = x
                for y in path:
                    z = I.project(z, ("f", y))
                self.ob("first", numbers(I, z) == {0}, "%s is not 0 at first" % path[-1], fn)
