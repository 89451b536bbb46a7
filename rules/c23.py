"""--extend, --invert and --merge. The stages that map slices by expressions, and the one that joins them, are analysed one slice at a
time, in numbers: what is mapped (each new slice of the step before, or each gap in front of one and the one at the end), by which
expressions (each), what of the outcome becomes a slice and how it is cut, in which order the slices are handed out, which of them
have to wait for the stream to go on, and what may be consumed in the meantime; and for --merge which slices are joined, and which
of the joined ones are complete."""
import re
from mir import callee
from absint import Interp, C, mk, show, last
import q
import cases
from rules import evalx as E
from rules.c16 import stages, field_path, own_slices
from rules.c17 import choices
from rules.c21 import found, window, iterated, counting, show_set, terms_behind
from rules.fillx import Filling, said, answers, left, numbers, pushes, fields_of, failed, INL, WINDOW, SLICES
from rules.turn import loop_head, heads_at, turns, where, nodes_at, nest

EVAL = r"SegmentMapper(::<.*>)?::evaluate$"
PART = {"take", "skip", "step_by", "filter", "take_while", "skip_while", "map_while", "nth"}
FIRSTS = ("get", "last", "first", "last_mut", "first_mut", "get_mut")


def run(prog, R):
    n = {"map": 0, "merge": 0}
    for ty, fs in sorted(stages(prog).items()):
        f = Filling(prog, R, ty, fs)
        I = f.run({})
        ev = [e for e in I.calls(EVAL) if e.kind == "call"]
        if ev:
            R.graph(I)
            m = Mapping(f, I, kept_evals(I, ev))
            n["map"] += 1
            m.run()
        elif applies(prog, ty):
            R.count("forms-not-followed")
            n["map"] += 1
        elif joined(prog, fs, I, f):
            R.graph(I)
            n["merge"] += 1
            Merging(f, I).run()
    R.ob("steps", n["map"] > 1, "the steps that map slices are not all found", "src/segment")
    if not n["merge"]:
        R.count("forms-not-followed")
    mapper(prog, R)


def kept_evals(I, ev):
    """of the places where an expression is applied, those of whose outcome slices are made"""
    used = {y.id for p in I.calls(r"::push$") if p.kind == "call" for v in p.vals[1:] for y in I.subterms(v)}
    return [e for e in ev if e.term.id in used] or ev


def mapper(prog, R):
    """what an expression makes of a slice"""
    fn = next((p for p in prog.fns if re.search(r"SegmentMapper::evaluate$", p)), None)
    if fn is None:
        R.ob("mapper", False, "what applies an expression to a slice is not found", "src/mapper.rs")
        return
    open_ = Interp(prog, fn, inline=lambda tg, c: True)
    R.graph(open_)
    # every integer of the two bounds: which end it counts from, and how far
    def bound(t):
        p = field_path(t) if t.k == "fld" else None
        return p if p and len(p) == 2 else None
    for a0, o0, a1, o1 in ((0, 0, 1, 0), (0, -5, 1, 7), (1, 3, 1, 9), (0, 2, 0, 4), (1, -30, 0, 0), (1, 0, 0, 5)):
        def leaf(t):
            p = bound(t)
            if p:
                return {("start", "anchor"): a0, ("start", "offset"): o0, ("end", "anchor"): a1, ("end", "offset"): o1}.get(p)
            if t.k == "idx":
                b = q.strip(t.a[0])
                while b.k == "fld" and b.a[1] == "*":
                    b = q.strip(b.a[0])
                i = J.case.num(t.a[1]) if hasattr(t.a[1], "k") else t.a[1]
                if b.k == "arg" and b.a[1] in (1, 2) and i in (0, 1):
                    return ((10, 40), (110, 140))[b.a[1] - 1][i]
            return None
        c = cases.Case(leaf)
        J = None
        J = Interp(prog, fn, assume=None, inline=lambda tg, cc: True)
        c.I = J
        J.case = c
        for r in E.K.result(J):
            r = q.strip(r)
            got = tuple(c.num(J.project(r, ("f", k))) for k in "01")
            if None in got:
                R.count("forms-not-followed")
                continue
            want = ((10, 40)[a0] + o0, (110, 140)[a1] + o1)
            R.ob("mapper", got == want, "an expression counting from %s%+d to %s%+d makes %s of 10..40 and 110..140" % ("se"[a0], o0, "se"[a1], o1, got), fn)


def joined(prog, fs, I, f):
    """does the stage make slices out of the slices of the step before, keeping one open?"""
    if not f.kept or f.stage.out[1] is not None or not I.calls(SLICES):
        return False
    segs = f.stage.out[0]
    for p in pushes(I, segs):
        for x in fields_of(I, p.vals[1]):
            if x and "pos" in x and "len" in x:
                l = q.strip(x["len"])
                if l.k == "op" and l.a[0].startswith("Sub"):
                    return True
    return bool(pushes(I, segs)) and not I.calls(r"regex")


def applies(prog, ty):
    """does the step apply expressions in some function of its own?"""
    return any((p.startswith(ty + "::") or p.startswith("<%s as " % ty)) and any(re.search(EVAL, callee(t)[0] or "") for _, t in f.calls()) for p, f in prog.fns.items())


def element(I, t):
    """is it a slice of the step before?"""
    x = q.strip(t)
    while x.k == "fld" and x.a[1] == "*":
        x = q.strip(x.a[0])
    if x.k == "ref":
        root, path = x.a[0].root, x.a[0].path
        if root[0] == "M" and len(path) == 1 and path[0][0] == "i":
            x = mk("idx", root[1], path[0][1])
    if x.k == "phi" and I is not None:
        c = {element(None, y) for y in choices(I, x)} - {x}
        # (also when what it is taken from is not known in full yet)
        if len({kind(y) for y in c}) == 1:
            return max(c, key=lambda y: y.id)
    return x


def kind(y):
    if y.k == "idx" and hasattr(y.a[1], "k"):
        return "idx", q.strip(y.a[0]), kind(q.strip(y.a[1]))
    return y.a[0].a[:2] if found(None, y) else y


def adapters(I, v):
    """the names of what lies between an iterator and what it iterates over"""
    out, st, seen = set(), [v], set()
    while st:
        for t in terms_behind(I, st.pop()):
            if t.k == "call" and t not in seen and len(t.a) > 2:
                seen.add(t)
                out.add(last(t.a[0]))
                if last(t.a[0]) in PART or last(t.a[0]) in ("rev", "copied", "cloned", "peekable", "fuse"):
                    st.append(t.a[2])
    return out


def whole(t):
    """what something is a part of"""
    t = q.strip(t)
    while q.slice_of(t) is not None:
        t = q.strip(q.slice_of(t)[0])
    return t


class Common:
    def __init__(self, f, I):
        self.f, self.I, self.ob = f, I, f.ob
        self.segs, self.hi = f.stage.out if f.kept else (None, None)
        self.name = f.name
        self.sig = {}

    def source_elem(self, I, x):
        """is x an element of the slices of the step before? 'next' or the index term"""
        x = element(I, x)
        if found(I, x):
            c = iterated(I, x)
            b = whole(c) if c is not None else None
            if b is not None and b.k == "fld" and b.a[1] == "1" and q.strip(b.a[0]).k == "call" and re.search(WINDOW, q.strip(b.a[0]).a[0]):
                return x
        if x.k == "idx":
            b = whole(x.a[0])
            if b.k == "fld" and b.a[1] == "1" and q.strip(b.a[0]).k == "call" and re.search(WINDOW, q.strip(b.a[0]).a[0]):
                return x
        return None

    def src_next(self, I):
        """where the next slice of the step before is taken"""
        ns = [e for e in I.calls(r"Iterator>?::next$") if e.kind == "call"]
        out = [e for e in ns if self.source_elem(I, mk("pay", e.term))]
        # by their numbers
        self.by_number = set()
        for e in ns:
            if e not in out and self.numbered(I, e) is not None:
                p = mk("pay", e.term)
                if any(p in I.subterms(y.a[1]) and self.source_elem(I, y) for x in I.calls() if x.kind == "call" for v in x.vals for y in I.subterms(v) if y.k == "idx" and hasattr(y.a[1], "k")):
                    self.by_number.add(e)
                    out.append(e)
        return out

    def numbered(self, I, e):
        """the range of numbers an iterator counts through"""
        return next((c for t in terms_behind(I, e.vals[0]) for c in [counting(I, t)] if c is not None), None)

    def once(self, I, nx):
        """each slice of the step before is taken, once"""
        self.seen = None
        for e in nx:
            if e in self.by_number:
                r = self.numbered(I, e)[0]
                p = {field_path(x) for x in I.subterms(q.strip(r.a[3])) if x.k == "fld"} - {None}
                self.seen = self.seen or next(iter(sorted(p)), None)
                if not p and q.strip(r.a[3]).k == "c":
                    self.ob("once", False, "slices that were taken before are taken again", e.sp)
                continue
            coll = iterated(I, mk("pay", e.term))
            t = coll
            while t is not None and q.slice_of(t) is not None and self.seen is None:
                s = q.slice_of(t)
                if s[1] is not None:
                    self.seen = next((field_path(x) for x in I.subterms(q.strip(s[1])) if x.k == "fld" and field_path(x)), None)
                t = q.strip(s[0])
            part = adapters(I, e.vals[0]) & PART
            if coll is not None and self.seen is None and not part and self.fixed(I, coll):
                self.ob("once", False, "slices that were taken before are taken again", e.sp)
        return self.seen is not None

    def fixed(self, I, t):
        """does it begin at the same place each time?"""
        t = q.strip(t)
        while q.slice_of(t) is not None:
            s = q.slice_of(t)
            if s[1] is not None and q.strip(s[1]).k != "c":
                return False
            t = q.strip(s[0])
        return True

    def range_of(self, J):
        """(from, to) of the slices that are taken"""
        out = set()
        for e in self.src_next(J):
            if e in self.by_number:
                _, lo, hi = self.numbered(J, e)
                out.add((lo, hi))
                continue
            c = iterated(J, mk("pay", e.term))
            _, lo, hi = window(J, c)
            out.add((lo, hi))
        return out


class Mapping(Common):
    def __init__(self, f, I, ev):
        Common.__init__(self, f, I)
        self.ev = ev
        self.at = {where(I, e.node) for e in ev}
        # does it map what lies between slices?
        self.gaps = any(self.bounds(I, e, whole=True) is None for e in ev)

    def evals(self, J):
        return [e for e in J.calls(EVAL) if e.kind == "call" and where(J, e.node) in self.at]

    def bounds(self, I, e, whole=False):
        """the two ends of what an expression is applied to; whole: None unless both are of one slice"""
        out = []
        for v in e.vals[1:3]:
            a = q.strip(v)
            x = tuple(I.project(a, ("f", k)) for k in "01") if a.k == "agg" and len(a.a) >= 5 else None
            if x is None:
                return None
            out.append(x)
        if whole:
            for x in out:
                es = [{self.source_elem(I, t.a[0]) for t in I.subterms(y) if t.k == "fld" and t.a[1] in ("pos", "len")} - {None} for y in x]
                if any(len(z) != 1 for z in es) or es[0] != es[1]:
                    return None
        return out

    # ---- cases
    def case(self, eof=0, n=1 << 21, count=5, mx=None, seen=2, elem=(0, 0), ends=None, made=lambda s, e: (s, e), head=None, fields=None, k=3, held=None, own=None, fn=None, force=None):
        """elem: pos and len of a slice of the step before; made: what every expression makes of a slice; head: {signature: number} of the
        joins at the head of the loop; held: (how many slices come before the first that is held, its pos)"""
        mx = n if mx is None else mx
        me_ = self

        def evaluated(me, t):
            if t.k == "fld" and t.a[1] in ("0", "1"):
                b = q.strip(t.a[0])
                if b.k == "call" and re.search(EVAL, b.a[0]) and len(b.a) > 4:
                    xs = []
                    for v in b.a[3:5]:
                        a = q.strip(v)
                        while a.k == "fld" and a.a[1] == "*":
                            a = q.strip(a.a[0])
                        if a.k != "agg" or len(a.a) < 5:
                            return None
                        xs.append([me.num(a.a[3]), me.num(a.a[4])])
                    if any(y is None for x in xs for y in x):
                        return None
                    return me_.map_of(made, xs, int(t.a[1]))
            return None

        def leaf(me, t):
            r = evaluated(me, t)
            if r is not None:
                return r
            if t.k == "fld" and t.a[1] in ("pos", "len"):
                x = me_.source_elem(me.I, t.a[0]) if me.I is not None else None
                if x is not None:
                    return elem[0] if t.a[1] == "pos" else elem[1]
                x = element(me.I, t.a[0])
                if held is not None and x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) in FIRSTS and own_slices(me.I, x.a[0].a[2]) == self.segs:
                    if last(x.a[0].a[0]).startswith("get") and me.num(x.a[0].a[3]) != held[0]:
                        return None
                    return held[1] if t.a[1] == "pos" else 5
                if held is not None and x.k == "idx" and own_slices(me.I, x.a[0]) == self.segs:
                    i = me.num(x.a[1]) if hasattr(x.a[1], "k") else x.a[1]
                    return (held[1] if t.a[1] == "pos" else 5) if i == held[0] else None
            if t.k == "call" and last(t.a[0]) in ("unwrap_or", "map_or", "unwrap_or_default") and len(t.a) > 2:
                x = me_.smallest(me, t.a[2], made)
                if x is not None:
                    return x
            if t.k == "pay":
                x = me_.smallest(me, t.a[0], made)
                if x is not None:
                    return x
            if own is not None and me.I is not None:
                if t.k == "fld" and t.a[1] in ("pos", "len") and me_.own_elem(me.I, t.a[0]) is not None:
                    return own[0 if t.a[1] == "pos" else 1]
                if t.k == "phi" and t in me.I.phi_key and me.I.phi_key[t][1][-1:] == (("f", "len"),) and me.I.phi_key[t][0][0] == "M" and me_.own_elem(me.I, me.I.phi_key[t][0][1]) is not None:
                    return own[1]
            if held is not None:
                x = me_.prefix(me, t, held[0], n, mx)
                if x is not None:
                    return x
            return None

        def variant(me, t):
            t = q.strip(t)
            if t.k == "call" and len(t.a) > 2 and me.I is not None:
                l = last(t.a[0])
                if l == "min" and me_.smallest(me, t, made) is not None:
                    return "Some"
                if held is not None and l == "position" and own_slices(me.I, t.a[2]) == self.segs:
                    return "Some" if held[0] < k else "None"
                if held is not None and l in FIRSTS and own_slices(me.I, t.a[2]) == self.segs:
                    return "Some" if held[0] < k else "None"
            return force(me, t) if force is not None else None

        def size(me, t):
            return k if own_slices(me.I, q.strip(t)) == self.segs else None
        v = {"eof": eof, "bytes": n, "count": count, "max": mx, "leaf": leaf, "variant": variant, "size": size,
             "fields": {**({self.seen: seen} if self.seen else {}), **(fields or {})}}
        if head:
            v["phi"] = head
        return self.f.run(v, fn)

    @staticmethod
    def map_of(made, xs, i):
        return made(*xs[i])[i]

    def smallest(self, me, t, made):
        """the smallest start a slice has that comes later: the minimum over all expressions"""
        t = q.strip(t)
        if not (t.k == "call" and last(t.a[0]) == "min" and len(t.a) == 3):
            return None
        x = q.strip(t.a[2])
        if not (x.k == "call" and last(x.a[0]) == "map" and len(x.a) == 4):
            return None
        for c in choices(me.I, x.a[3]):
            g = self.f.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
            if g is None:
                return None
            J = Interp(self.f.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=INL)
            vals = set()
            for r in E.K.result(J):
                vals.add(self.closed(me, J, r, made))
            return vals.pop() if len(vals) == 1 else None
        return None

    def closed(self, me, J, r, made):
        def leaf(t):
            if t.k == "fld" and t.a[1] in ("0", "1"):
                b = q.strip(t.a[0])
                if b.k == "call" and re.search(EVAL, b.a[0]) and len(b.a) > 4:
                    xs = []
                    for v in b.a[3:5]:
                        a = q.strip(v)
                        while a.k == "fld" and a.a[1] == "*":
                            a = q.strip(a.a[0])
                        if a.k != "agg" or len(a.a) < 5:
                            return None
                        xs.append([me.num(a.a[3]), me.num(a.a[4])])
                    if any(y is None for x in xs for y in x):
                        return None
                    return self.map_of(made, xs, int(t.a[1]))
            return None
        c = cases.Case(leaf)
        c.I = J
        return c.num(r)

    def prefix(self, me, t, k, n, mx):
        """how many slices come before the first that has to wait"""
        if t.k == "pay" and t.a[0].k == "call" and last(t.a[0].a[0]) == "position" and own_slices(me.I, t.a[0].a[2]) == self.segs:
            return k
        if t.k == "call" and last(t.a[0]) == "count" and len(t.a) > 2:
            x = q.strip(t.a[2])
            if x.k == "call" and last(x.a[0]) == "take_while" and own_slices(me.I, x.a[2]) == self.segs:
                return k
        if t.k == "call" and last(t.a[0]) == "partition_point" and len(t.a) > 3 and own_slices(me.I, t.a[2]) == self.segs:
            return k
        return None

    # ----
    def run(self):
        f, I = self.f, self.I
        if not self.ob("slices", f.kept, "the slices that are made are not handed out"):
            return
        nx = self.src_next(I)
        ps = pushes(I, self.segs)
        if not ps:
            # by way of another collection
            ps = [e for e in I.calls(r"::push$") if e.kind == "call" and any(y.k == "fld" and q.strip(y.a[0]).k == "call" and re.search(EVAL, q.strip(y.a[0]).a[0]) for v in e.vals[1:] for y in I.subterms(v))]
        if not nx or not ps:
            self.ob("taken", bool(I.calls(WINDOW)), "the slices of the step before are not taken", self.ev[0].sp)
            f.R.count("forms-not-followed")
            return
        self.pushed = {where(I, p.node) for p in ps}
        if not self.once(I, nx):
            f.R.count("forms-not-followed")
            return
        self.scanned()
        self.every(I, nx)
        if self.gaps:
            self.prev = None
            self.gap(I, nx)
            if self.prev is None:
                return
        else:
            self.whole(I)
        self.cut(I)
        self.order(I)
        self.clipped()
        self.handed()
        self.consumable()
        self.kept(I)

    def scanned(self):
        for n, st in ((4, 0), (4, 1), (4, 4), (0, 0)):
            for eof in (0, 1):
                J = self.case(eof=eof, n=100, count=n, mx=100 if eof else 60, seen=st, elem=(1000, 4) if not self.gaps else (0, 0))
                r = self.range_of(J)
                self.ob("new", all(x == (st, n) for x in r) and (bool(r) or st == n), "%d of %d slices were mapped before, and now %s are" % (st, n, r), self.f.entry)
                self.ob("seen", left(J, self.seen) == {n}, "with %d slices there, it takes %s as mapped" % (n, show_set(left(J, self.seen))), self.f.entry)

    def every(self, I, nx):
        """all expressions are applied"""
        self.maps = None
        for e in self.ev:
            x = element(I, e.vals[0])
            c = iterated(I, x) if found(I, x) else None
            part = adapters(I, x.a[0].a[2]) & PART if found(I, x) else ()
            self.ob("every", not part, "some expressions are not applied: %s" % ", ".join(sorted(part)), e.sp)
            p = field_path(q.strip(c)) if c is not None else None
            if c is not None and p is None:
                p = own_slices(I, c)
            if p is None or c is not None and q.slice_of(c) is not None:
                self.ob("every", c is None or q.slice_of(c) is None, "some expressions are not applied: %s" % (show(c, 4) if c is not None else ""), e.sp)
                self.f.R.count("forms-not-followed")
                continue
            self.maps = p
            ne = [y for y in I.calls(r"Iterator>?::next$") if y.kind == "call" and y.term is x.a[0]]
            for y in ne:
                seen = q.reach(I, [y.node], cut=q.is_err_of(y.term), avoid=[e.node])
                ends = any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n))
                self.ob("every", y.node not in seen and not ends, "an expression is not applied", e.sp)
                # only left when there are no more
                st = {y.node}
                out = q.reach(I, [e.node], avoid=[y.node])
                self.ob("every", not any(n in out for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n)) and not any(z.node in out for z in nx), "behind an expression the others are not applied", e.sp)
        for n, s in self.ctor_order():
            pass

    def ctor_order(self):
        return ()

    def whole(self, I):
        """every slice of the step before, from its start to its end"""
        for pos, ln in ((0, 5), (30, 7), (30, 0), (1 << 21, 1)):
            J = self.case(elem=(pos, ln))
            es = self.evals(J)
            self.ob("applied", bool(es), "to the slice %d + %d nothing is applied" % (pos, ln), self.f.entry)
            for e in es:
                b = self.bounds(J, e)
                got = b and [tuple(J.case.num(x) for x in y) for y in b]
                self.ob("applied", got == [(pos, pos + ln)] * 2, "for the slice %d + %d, the expressions are applied to %s" % (pos, ln, got), e.sp)
        for e in self.src_next(I):
            seen = q.reach(I, [e.node], cut=q.is_err_of(e.term), avoid=[x.node for x in I.calls(r"Iterator>?::next$") if x.kind == "call" and any(found(I, element(I, v.vals[0])) and element(I, v.vals[0]).a[0] is x.term for v in self.ev)])
            ends = any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n))
            self.ob("every-slice", e.node not in seen and not ends, "a slice is not mapped", e.sp)

    def results(self, J, at=None):
        """the slices made in a case: {(pos, len)}"""
        out = set()
        es = {where(J, p.node): p for p in J.calls(r"::push$") if p.kind == "call"}
        for w, p in es.items():
            if w not in self.pushed or (at is not None and p.node not in at):
                continue
            v = p.vals[1]
            for c in choices(J, v):
                c = q.strip(c)
                while c.k == "agg" and last(c.a[0]) == "Reverse" and len(c.a) > 3:
                    c = q.strip(c.a[3])
                x = dict(zip(c.a[2], c.a[3:])) if c.k == "agg" and c.a[2] else None
                if x is None or "pos" not in x or "len" not in x:
                    out.add(("?", "?"))
                    continue
                out |= {(a, b) for a in numbers(J, x["pos"]) for b in numbers(J, x["len"])}
        return out

    CUTS = (((5, 9), (5, 4)), ((0, 1), (0, 1)), ((-3, 9), (0, 9)), ((-3, 0), None), ((-9, -3), None), ((9, 9), None), ((9, 5), None), ((0, 0), None), ((-5, 1), (0, 1)),
            ((7, 1 << 40), (7, (1 << 40) - 7)), ((1 << 40, (1 << 40) + 2), (1 << 40, 2)))

    def cut(self, I):
        """what becomes of what an expression makes"""
        n = 1 << 21
        for (x, y), want in self.CUTS:
            J = self.case(n=n, elem=(40, 3), made=lambda s, e: (x, y), head=self.free())
            for h in self.heads_of(J):
                r = self.results(J, h)
                if any(None in z for z in r):
                    self.f.R.count("forms-not-followed")
                    continue
                self.ob("made", r == ({want} if want else set()), "%s, that an expression makes, becomes %s" % ((x, y), shown(r)), self.f.entry)
                if want:
                    self.ob("all-made", self.always(J, h), "%s, that an expression makes, is left out on one way" % ((x, y),), self.f.entry)
        for (x, y), want in (((5, 9), (5, 4)), ((5, 100), (5, 95)), ((5, 101), (5, 95)), ((99, 500), (99, 1)), ((100, 101), None), ((100, 100), None), ((700, 800), None), ((-4, 700), (0, 100)), ((-9, 0), None)):
            J = self.case(eof=1, n=100, elem=(40, 3), made=lambda s, e: (x, y), head=self.free())
            for h in self.heads_of(J):
                r = self.results(J, h)
                if any(None in z for z in r):
                    self.f.R.count("forms-not-followed")
                    continue
                # what reaches behind the end may also be cut later
                late = {(max(x, 0), y - max(x, 0))} if max(x, 0) < y else set()
                self.ob("made-end", r == ({want} if want else set()) or r == late, "%s, that an expression makes, becomes %s, with the stream ending at 100" % ((x, y), shown(r)), self.f.entry)

    def free(self):
        return {s: (10 if r == "prev" else None) for s, r in self.sig.items()} or None

    def heads_of(self, J):
        """for every place where expressions are applied: the nodes of one turn"""
        out = []
        for e in self.evals(J):
            if e.kind != "call":
                continue
            x = element(J, e.vals[0])
            stop = [y.node for y in J.calls(r"Iterator>?::next$") if y.kind == "call" and (y.term is x.a[0] if found(J, x) else False)]
            out.append(q.reach(J, [e.node], avoid=stop))
        return out

    def always(self, J, h):
        ps = [p for p in J.calls(r"::push$") if p.kind == "call" and where(J, p.node) in self.pushed and p.node in h]
        for e in self.evals(J):
            if e.kind == "call":
                x = element(J, e.vals[0])
                nxt = [y.node for y in J.calls(r"Iterator>?::next$") if y.kind == "call" and found(J, x) and y.term is x.a[0]]
                if not any(p.node in q.reach(J, [e.node], avoid=nxt) for p in ps):
                    continue
                seen = q.reach(J, [e.node], avoid=[p.node for p in ps])
                if any(n in seen for n in nxt):
                    return False
        return True

    # ---- gaps
    def gap(self, I, nx):
        h = loop_head(I, nx[0].node)
        if h is None or len(nx) != 1:
            self.f.R.count("forms-not-followed")
            return
        self.head = where(I, h)
        self.prev = None
        for s, p in heads_at(I, self.head).items():
            a, b = turns(I, p)
            paths = {field_path(z) for y in a for x in choices(I, y) for z in I.subterms(q.strip(x)) if z.k == "fld" and field_path(z)}
            subs = [t for x in b for t in I.subterms(x)]
            if len(paths) == 1 and None not in paths and any(t.k == "fld" and t.a[1] in ("pos", "len") and self.source_elem(I, t.a[0]) is not None for t in subs):
                self.prev = paths.pop()
                self.sig[s] = "prev"
        if self.prev is None:
            self.f.R.count("forms-not-followed")
            return
        sp = self.f.entry
        for pe, pos, ln in ((0, 0, 5), (0, 3, 5), (10, 3, 5), (10, 3, 40), (10, 10, 5), (10, 11, 5), (10, 40, 0), (10, 5, 0), (-7, 0, 4), (-7, -3 + 5, 4), (0, 1 << 21, 1), (100, 99, 1)):
            J = self.case(elem=(pos, ln), head={s: pe for s in self.sig})
            ns = [e.node for e in self.src_next(J)]
            inside = q.reach(J, ns)
            es = [e for e in self.evals(J) if any(n in q.reach(J, [e.node]) for n in ns)]
            what = "behind %d, a slice %d + %d" % (pe, pos, ln)
            if pe < pos:
                self.ob("gap", bool(es), "%s: what is in between is not mapped" % what, sp)
                for e in es:
                    b = self.bounds(J, e)
                    got = b and [tuple(J.case.num(x) for x in y) for y in b]
                    self.ob("gap", got == [(pe, pos)] * 2, "%s: the expressions are applied to %s" % (what, got), e.sp)
                inner = [y.node for e in es for y in J.calls(r"Iterator>?::next$") if y.kind == "call" and found(J, element(J, e.vals[0])) and y.term is element(J, e.vals[0]).a[0]]
                for e in self.src_next(J):
                    seen = q.reach(J, [e.node], cut=q.is_err_of(e.term), avoid=inner)
                    self.ob("gap-every", e.node not in seen, "%s: what is in between is not mapped on one way" % what, sp)
            else:
                self.ob("no-gap", not es, "%s: something is mapped although nothing is in between" % what, sp)
            got = set()
            for s, p in heads_at(J, self.head).items():
                if self.sig.get(s) == "prev":
                    for x in turns(J, p)[1]:
                        got |= numbers(J, x)
            self.ob("behind", got == {max(pe, pos + ln)}, "%s: what comes next is taken to begin behind %s" % (what, show_set(got)), sp)
        # the last one, at the end
        for eof in (0, 1):
            for pe, n in ((0, 100), (40, 100), (99, 100), (100, 100), (120, 100), (0, 0), (-5, 100)):
                J = self.case(eof=eof, n=n, count=2, seen=2, mx=n if eof else min(n, 60), fields={self.prev: pe})
                ns = [e.node for e in self.src_next(J)]
                es = [e for e in self.evals(J) if not any(m in q.reach(J, [e.node]) for m in ns)]
                what = "with %d bytes there%s, and the last slice ending at %d" % (n, ", and no more to come," if eof else "", pe)
                if eof and pe < n:
                    self.ob("last", bool(es), "%s: what is behind it is not mapped" % what, sp)
                    for e in es:
                        b = self.bounds(J, e)
                        got = b and [tuple(J.case.num(x) for x in y) for y in b]
                        self.ob("last", got == [(pe, n)] * 2, "%s: the expressions are applied to %s" % (what, got), e.sp)
                else:
                    self.ob("not-last", not es, "%s: something is mapped behind it" % what, sp)
                l = left(J, self.prev)
                self.ob("last-behind", l == ({max(pe, n)} if eof else {pe}), "%s: what comes next is taken to begin behind %s" % (what, show_set(l)), sp)
        # also when slices were taken before it
        for pe, now, n in ((0, 40, 100), (10, 99, 100), (10, 100, 100), (10, 130, 100)):
            J = self.case(eof=1, n=n, count=5, seen=2, mx=n, elem=(now, 0), head={s: now for s in self.sig}, fields={self.prev: pe})
            ns = [e.node for e in self.src_next(J)]
            es = [e for e in self.evals(J) if not any(m in q.reach(J, [e.node]) for m in ns)]
            what = "with slices up to %d taken, and the stream ending at %d" % (now, n)
            self.ob("last-taken", bool(es) == (now < n), "%s: what is behind them is %s mapped" % (what, "" if es else "not"), sp)
            for e in es if now < n else ():
                b = self.bounds(J, e)
                got = b and [tuple(J.case.num(x) for x in y) for y in b]
                self.ob("last-taken", got == [(now, n)] * 2, "%s: the expressions are applied to %s" % (what, got), e.sp)
        self.shifted(self.prev, "what the next gap begins behind")

    def shifted(self, path, what):
        """consuming moves a position"""
        for old, b in ((500, 7), (500, 0), (1 << 40, 99)):
            def leaf(me, t):
                if t.k == "fld" and t.a[1] in ("0", "1"):
                    x = q.strip(t.a[0])
                    if x.k == "pay" and x.a[0].k == "call" and re.search(r"SegmentStream>?::consume$", x.a[0].a[0]):
                        return b if t.a[1] == "0" else 1
                return None
            J = self.f.run({"leaf": leaf, "fields": {path: old}}, self.f.fs["consume"])
            l = left(J, path)
            self.ob("shift", l == {old - b}, "%s is at %d, and after consuming %d at %s" % (what, old, b, show_set(l)), self.f.fs["consume"])

    # ---- order
    def order(self, I):
        so = [x for x in I.calls() if x.kind == "call" and x.name and last(x.name).startswith("sort") and own_slices(I, x.vals[0]) == self.segs]
        ps = pushes(I, self.segs)
        for x in so:
            r = self.ascending(I, x)
            if r is None:
                self.f.R.count("forms-not-followed")
            else:
                self.ob("order", r, "the slices are not ordered by start and end", x.sp)
        if not ps:
            self.f.R.count("forms-not-followed")
            return
        seen = q.reach(I, [p.node for p in ps], avoid=[x.node for x in so])
        self.ob("sorted", not any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n)), "the slices are handed out in the order they are made", self.f.entry)

    def ascending(self, I, x):
        """is what starts earlier, and of those that start together what ends earlier, put first?"""
        if len(x.vals) < 2:
            return None
        for c in choices(I, x.vals[1]):
            g = self.f.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
            if g is None:
                return None
            J = Interp(self.f.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True)
            rs = [q.strip(r) for r in E.K.result(J)]
            samples = [(1, 5), (2, 0), (2, 3), (2, 4), (30, 1)]
            if "by_key" in x.name or "cached" in x.name:
                for r in rs:
                    ks = []
                    for pos, ln in samples:
                        cs = cases.Case(lambda t: {"pos": pos, "len": ln}.get(t.a[1]) if t.k == "fld" and t.a[1] in ("pos", "len") else None)
                        cs.I = J
                        parts = [J.project(r, ("f", k)) for k in r.a[2]] if r.k == "agg" and r.a[2] else list(r.a[3:]) if r.k == "agg" else [r]
                        ks.append([cs.num(p) for p in parts])
                    if any(v is None for k in ks for v in k):
                        return None
                    if any(a >= b for a, b in zip(ks, ks[1:])):
                        return False
            else:
                for r in rs:
                    for i, a in enumerate(samples):
                        for j, b in enumerate(samples):
                            def leaf(t):
                                if t.k == "fld" and t.a[1] in ("pos", "len"):
                                    w = next((z.a[1] for z in J.subterms(t) if z.k == "arg"), None)
                                    s = {1: a, 2: b}.get(w)
                                    return None if s is None else s[0 if t.a[1] == "pos" else 1]
                                return None
                            v = self.compared(J, r, leaf)
                            if v is None:
                                return None
                            if v != (i > j) - (i < j):
                                return False
        return True

    def compared(self, J, r, leaf):
        r = q.strip(r)
        if r.k == "call" and last(r.a[0]) in ("then", "then_with") and len(r.a) == 4:
            v = self.compared(J, r.a[2], leaf)
            if v != 0:
                return v
            y = q.strip(r.a[3])
            if y.k == "agg" and y.a[0].startswith("closure:"):
                g = self.f.prog.fns.get(y.a[0][8:])
                K = Interp(self.f.prog, g.path, args={0: mk("addr", y) if g.locals[1]["ty"].startswith("&") else y}, inline=lambda tg, cc: True)
                vs = {self.compared(J, z, leaf) for z in E.K.result(K)}
                return vs.pop() if len(vs) == 1 else None
            return self.compared(J, y, leaf)
        if r.k == "call" and last(r.a[0]) == "cmp" and len(r.a) == 4:
            ab = []
            for z in r.a[2:4]:
                z = q.strip(z)
                cs = cases.Case(leaf)
                cs.I = J
                ab.append([cs.num(y) for y in z.a[3:]] if z.k == "agg" and z.a[0] == "tuple" else [cs.num(z)])
            if any(y is None for x in ab for y in x):
                return None
            return (ab[0] > ab[1]) - (ab[0] < ab[1])
        return None

    # ---- the end
    def clipped(self):
        """slices made before the end is known are cut there"""
        J = self.case(eof=1, n=100, count=2, seen=2, k=3, held=(3, 0))
        st = self.recut(J)
        other = [e for e in J.calls(r"retain_mut|for_each|Vec::<.*>::(truncate|drain|pop)$") if e.kind == "call" and e.vals and own_slices(J, e.vals[0]) == self.segs]
        if not st:
            self.ob("end-cut", bool(other), "slices that reach behind the end are not cut there", self.f.entry)
            self.f.R.count("forms-not-followed")
            return
        for pos, ln, want in ((5, 9, 9), (5, 95, 95), (5, 96, 95), (99, 1, 1), (99, 1 << 40, 1), (0, 100, 100), (0, 101, 100)):
            K = self.case(eof=1, n=100, count=2, seen=2, k=3, held=(3, 0), own=(pos, ln))
            cut = self.recut(K)
            nx = {y.node: y for _, el, _, _ in st for w in [where(J, z.node) for z in J.calls(r"Iterator>?::next$") if z.kind == "call" and z.term is el.a[0]] for y in K.calls(r"Iterator>?::next$") if y.kind == "call" and where(K, y.node) == w}
            got = set().union(*[numbers(K, v) for _, _, v, _ in cut] or [set()])
            for y in nx.values():
                if y.node in q.reach(K, [y.node], cut=q.is_err_of(y.term), avoid=[m for m, _, _, _ in cut]):
                    got.add(ln)
            self.ob("end-cut", got == {want}, "a slice %d + %d is cut to %s bytes by the end at 100" % (pos, ln, show_set(got)), st[0][3])
            early = q.from_start(K, None, avoid=list(nx))
            self.ob("end-cut-all", not any(n in early for n in K.returns if K.ctx_of_id[n[0]].parent is None and not failed(K, n)), "on one way, slices that reach behind the end are not cut there", st[0][3])
        # those behind it are dropped
        ok = None
        for e in other + [e for e in J.calls(r"Vec::<.*>::retain$") if e.kind == "call" and own_slices(J, e.vals[0]) == self.segs]:
            l = last(e.name)
            if l in ("retain", "retain_mut") and len(e.vals) > 1:
                ok = True
                for pos, ln, keep in ((0, 5, 1), (99, 1, 1), (99, 500, 1), (100, 1, 0), (100, 500, 0), (101, 1, 0), (1 << 40, 4, 0)):
                    r = self.holds(J, e.vals[1], pos, ln)
                    if r is None:
                        self.f.R.count("forms-not-followed")
                    else:
                        self.ob("end-drop", r == keep, "a slice %d + %d is %s, with the stream ending at 100" % (pos, ln, "kept" if r else "dropped"), e.sp)
            elif l == "truncate":
                ok = True
                self.f.R.count("forms-not-followed")
        self.ob("end-drop", ok is True, "slices behind the end are not dropped", self.f.entry)

    def own_elem(self, J, t):
        """is it one of the slices made before, that are gone through?"""
        el = element(J, t)
        return el if found(J, el) and any(own_slices(J, z) == self.segs for z in terms_behind(J, el.a[0].a[2]) if field_path(z) or z.k in ("call", "addr", "fld")) else None

    def recut(self, J):
        """where such slices are cut"""
        st = []
        for m in J.stores:
            for root, path, v, sp in J.stores[m]:
                if path and path[-1] == ("f", "len") and root[0] == "M":
                    el = self.own_elem(J, root[1])
                    if el is not None:
                        st.append((m, el, v, sp))
        return st

    def holds(self, J, clo, pos, ln, extra=None):
        for c in choices(J, clo):
            g = self.f.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
            if g is None:
                return None
            K = Interp(self.f.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True)

            def leaf(t):
                if t.k == "fld" and t.a[1] in ("pos", "len") and any(z.k == "arg" and z.a[0] == g.path and z.a[1] == 1 for z in K.subterms(t)):
                    return pos if t.a[1] == "pos" else ln
                return J.case.num(t)
            vs = set()
            for n, r in K.returns.items():
                if K.ctx_of_id[n[0]].parent is None:
                    for z in choices(K, r):
                        cs = cases.Case(leaf)
                        cs.I = K
                        vs.add(self.boolean(K, z, leaf))
            if len(vs) != 1:
                # decided by which way is taken
                cs = cases.Case(leaf)
                L = Interp(self.f.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: True, assume=cs)
                cs.I = L
                K = L
                vs = {cs.num(z) for z in E.K.result(L)}
            return vs.pop() if len(vs) == 1 else None
        return None

    def boolean(self, K, z, leaf):
        cs = cases.Case(leaf)
        cs.I = K
        return cs.num(z)

    # ---- what is handed out
    def handed(self):
        hi = field_path(q.strip(self.hi)) if self.hi is not None else None
        self.ob("wait", self.hi is not None, "slices are handed out that reach beyond what is there", self.f.entry)
        if self.hi is None:
            return
        n, mx = 100, 60
        for eof in (0, 1):
            for k, h, hp in ((5, 3, 50), (5, 0, 0), (5, 0, 20), (5, 5, 0), (0, 0, 0), (4, 2, 60)):
                J = self.case(eof=eof, n=n, mx=n if eof else mx, count=2, seen=2, k=k, held=(h, hp), fields={**({self.prev: n} if getattr(self, "prev", None) else {}), **({hi: 77} if hi is not None else {})})
                want = k if eof else h
                a = answers(J, 2)
                got = left(J, hi) if hi is not None else a
                if None in a or None in got:
                    self.f.R.count("forms-not-followed")
                    continue
                self.ob("all" if eof else "early", a == {want} and got == {want}, "of %d slices, %d of them before the first that must wait,%s %s are handed out, and %s announced" % (k, h, " at the end" if eof else "", show_set(got), show_set(a)), self.f.entry)
                self.ob("answer", answers(J, 0) == {eof} and answers(J, 1) == {n}, "end and bytes are announced as %s and %s" % (show_set(answers(J, 0)), show_set(answers(J, 1))), self.f.entry)
        # which must wait
        J = self.case(eof=0, n=100, mx=60, count=2, seen=2, k=5, held=(3, 20), fields={self.prev: 60} if getattr(self, "prev", None) else None)
        ps = [e for e in J.calls(r"::(position|take_while|partition_point)$") if e.kind == "call" and own_slices(J, e.vals[0]) == self.segs]
        if not ps:
            self.f.R.count("forms-not-followed")
        for e in ps:
            flip = last(e.name) != "position"
            self.ob("first", last(e.name) != "partition_point", "slices that must wait need not come last", e.sp)
            for pos, ln, wait in ((0, 100, 0), (0, 101, 1), (50, 50, 0), (50, 51, 1), (59, 1, 0), (60, 1, 1), (99, 1, 1), (100, 1, 1), (500, 3, 1), (0, 1, 0), (59, 41, 0), (59, 42, 1)):
                r = self.holds(J, e.vals[1], pos, ln)
                if r is None:
                    self.f.R.count("forms-not-followed")
                    continue
                self.ob("which", (1 - r if flip else r) == wait, "with 100 bytes there, and 60 behind which slices may still come, %d + %d %s" % (pos, ln, "waits" if (1 - r if flip else r) else "is handed out"), e.sp)

    def consumable(self):
        """nothing is consumed that is still to be mapped, or that a slice made later or one that waits is made of"""
        n = 1 << 21
        ident = lambda s, e: (s, e)
        J = self.case(eof=0, n=n, mx=500, count=2, seen=2, held=(3, 0), fields={self.prev: 500} if getattr(self, "prev", None) else None)
        for e in J.calls(r"Iterator>?::(max|last|nth|sum|product|count)$"):
            if e.kind == "call" and self.smallest(J.case, mk("call", "x::min", e.term.a[1], e.term.a[2]), ident) is not None:
                self.ob("consumable", False, "of what the expressions make of later slices, not the smallest is taken, but by %s" % last(e.name), e.sp)
        for mx, made, prev, held, want in ((n, ident, n, (3, 0), n), (500, ident, 500, (3, 0), 500), (500, lambda s, e: (s - 40, e), 500, (3, 0), 460), (500, lambda s, e: (s - 40, e - 90), 500, (3, 0), 411),
                                           (20, lambda s, e: (s - 40, e), 20, (3, 0), 0), (500, lambda s, e: (s + 40, e + 40), 500, (3, 0), 500), (500, ident, 500, (1, 300), 300), (500, ident, 500, (0, 0), 0),
                                           (500, lambda s, e: (s - 40, e), 500, (1, 459), 459), (500, ident, 300, (3, 0), 300 if self.gaps else 500), (500, ident, 500, (2, 700), 500),
                                           (500, lambda s, e: (s + 40, s + 10), 500, (3, 0), 500), (500, lambda s, e: (e - 30, e), 500, (3, 0), 471)):
            J = self.case(eof=0, n=n, mx=mx, count=2, seen=2, made=made, held=held, fields={self.prev: prev} if getattr(self, "prev", None) else None)
            a = answers(J, 3)
            if None in a:
                self.f.R.count("forms-not-followed")
                continue
            self.ob("consumable", bool(a) and all(0 <= x <= want for x in a), "%d bytes may be consumed before, %s by what an expression makes of them, the first slice that waits is at %s: it announces %s" % (mx, made(mx, mx + 1), held[1] if held[0] < 3 else "-", show_set(a)), self.f.entry)
        for mx in (100, 0):
            J = self.case(eof=1, n=mx, mx=mx, count=2, seen=2, held=(3, 0), fields={self.prev: mx} if getattr(self, "prev", None) else None)
            self.ob("consumable-end", answers(J, 3) == {mx}, "at the end, of %d bytes %s may be consumed" % (mx, show_set(answers(J, 3))), self.f.entry)

    def kept(self, I):
        for x in I.calls():
            if x.kind == "call" and x.name and x.vals and own_slices(I, x.vals[0]) == self.segs and last(x.name) in ("clear", "remove", "insert", "dedup", "dedup_by_key", "dedup_by", "swap_remove", "reverse"):
                self.ob("kept", False, "slices that were made are changed by %s" % last(x.name), x.sp)
            # at the end only
            if x.kind == "call" and x.name and x.vals and own_slices(I, x.vals[0]) == self.segs and last(x.name) in ("retain", "truncate", "pop", "drain", "retain_mut"):
                J = self.case(eof=0, n=100, mx=60, count=2, seen=2, k=5, held=(3, 20), fields={self.prev: 60} if getattr(self, "prev", None) else None)
                self.ob("kept", not nodes_at(J, where(I, x.node)) & set(J.events), "slices that were made are dropped before the end, by %s" % last(x.name), x.sp)


def shown(r):
    return ", ".join("%s + %s" % x for x in sorted(r, key=str)) or "nothing"


class Merging(Common):
    def run(self):
        f, I = self.f, self.I
        if not self.ob("slices", f.kept, "the joined slices are not handed out"):
            return
        nx = self.src_next(I)
        ps = pushes(I, self.segs)
        h = loop_head(I, nx[0].node) if len(nx) == 1 else None
        if not ps or h is None or not self.once(I, nx):
            f.R.count("forms-not-followed")
            return
        self.head, self.nx = where(I, h), nx
        # the slice that is still open: where it starts and ends, whether there is one
        self.role = {}
        hs = heads_at(I, self.head)
        inloop = q.reach(I, [nx[0].node])
        for p in ps:
            for x in fields_of(I, p.vals[1]):
                if x and "pos" in x and "len" in x:
                    a, l = q.strip(x["pos"]), q.strip(x["len"])
                    for s, y in hs.items():
                        if y is a:
                            self.role[s] = "start"
                        if l.k == "op" and l.a[0].startswith("Sub") and q.strip(l.a[1]) is y:
                            self.role[s] = "end"
        for s, y in hs.items():
            if s not in self.role and I.phi_key[y][0][0] == "M" and len(I.phi_key[y][1]) >= 1 and not any(own_slices(I, x) for x in turns(I, y)[0] if own_slices(I, x) == self.segs):
                self.role[s] = "open"
        self.path = {}
        for s, r in self.role.items():
            k = I.phi_key[hs[s]]
            self.path.setdefault(r, tuple(x[1] for x in k[1]))
        n = {r: sum(x == r for x in self.role.values()) for r in ("start", "end", "open")}
        self.thr = self.threshold()
        if n["start"] != 1 or n["end"] != 1 or n["open"] != 1 or self.thr is None:
            f.R.count("forms-not-followed")
            return
        self.turn()
        self.first()
        self.last()
        self.count(I)
        self.shift()

    def threshold(self):
        """the field for N"""
        fn = next((p for p in self.f.prog.fns if p.startswith(self.f.ty + "::") and p.endswith("::new")), None)
        if fn is None:
            return None
        J = Interp(self.f.prog, fn, inline=INL)
        for n, r in J.returns.items():
            if J.ctx_of_id[n[0]].parent is None:
                for x in choices(J, r):
                    p = self.where_arg(J, q.strip(x), 1)
                    if p:
                        return p
        return None

    def where_arg(self, J, x, i, at=()):
        x = q.strip(x)
        if x.k == "arg" and x.a[1] == i:
            return at
        if x.k == "agg" and x.a[2] and len(at) < 3:
            for f, v in zip(x.a[2], x.a[3:]):
                p = self.where_arg(J, v, i, at + (f,))
                if p:
                    return p
        return None

    def case(self, a=None, N=0, elem=(0, 0), eof=0, n=1 << 21, mx=None, count=5, seen=2, k=3, open_=1, loop=True):
        """a: start and end of the open slice"""
        mx = n if mx is None else mx
        a = a or (M64, M64)

        def leaf(me, t):
            if t.k == "fld" and t.a[1] in ("pos", "len") and me.I is not None and self.source_elem(me.I, t.a[0]) is not None:
                return elem[0] if t.a[1] == "pos" else elem[1]
            return None

        def size(me, t):
            t = q.strip(t)
            if t.k == "phi" and me.I is not None and loop and me.I.signature(t)[:2] == self.sig0 and own_slices(me.I, t) == self.segs:
                return k
            return k if field_path(t) == self.segs else None
        self.sig0 = next(iter(self.role))[:2]
        num = {"start": a[0], "end": a[1], "open": open_}
        v = {"eof": eof, "bytes": n, "count": count, "max": mx, "leaf": leaf, "size": size,
             "fields": {self.seen: seen, self.thr: N, self.path["start"]: a[0], self.path["end"]: a[1], self.path["open"]: open_}}
        if loop:
            v["phi"] = {s: num[r] for s, r in self.role.items()}
        return self.f.run(v)

    def after(self, J):
        out = {}
        for s, p in heads_at(J, self.head).items():
            if s in self.role:
                out[self.role[s]] = set().union(*[numbers(J, x) for x in turns(J, p)[1]] or [set()])
        return out

    def made(self, J, inside):
        """slices that are handed out: (pos, len); inside: in the loop"""
        ns = nodes_at(J, where(self.I, self.nx[0].node))
        out = set()
        for p in pushes(J, self.segs):
            if any(n in q.reach(J, [p.node]) for n in ns) == inside:
                for x in fields_of(J, p.vals[1]):
                    out |= {(b, c) for b in numbers(J, x["pos"]) for c in numbers(J, x["len"])} if x and "pos" in x and "len" in x else {("?", "?")}
        return out

    def turn(self):
        sp = self.f.entry
        for a, N, (p, l) in (((10, 20), 0, (10, 3)), ((10, 20), 0, (15, 30)), ((10, 20), 0, (20, 4)), ((10, 20), 0, (21, 4)), ((10, 20), 4, (24, 1)), ((10, 20), 4, (25, 1)), ((10, 20), 4, (11, 2)),
                             ((10, 20), M64, (1 << 40, 1)), ((10, 20), 1, (1 << 40, 9)), ((0, 1), 0, (1, 1)), ((0, 1), 0, (2, 1)), ((0, 1), 3, (4, 200)), ((10, 20), 5, (12, 8)), ((10, 20), 5, (12, 9))):
            J = self.case(a=a, N=N, elem=(p, l))
            m, st = self.made(J, True), self.after(J)
            what = "with N = %d, %d..%d and %d..%d" % (N, a[0], a[1], p, p + l)
            if a[1] + N >= p:
                self.ob("joined", not m, "%s are not joined" % what, sp)
                self.ob("joined", st.get("start") == {a[0]} and st.get("end") == {max(a[1], p + l)}, "%s become %s..%s" % (what, show_set(st.get("start", ())), show_set(st.get("end", ()))), sp)
            else:
                self.ob("apart", m == {(a[0], a[1] - a[0])}, "%s do not stay apart: %s" % (what, shown(m)), sp)
                self.ob("apart", st.get("start") == {p} and st.get("end") == {p + l}, "%s: %s..%s is kept open" % (what, show_set(st.get("start", ())), show_set(st.get("end", ()))), sp)
            o = st.get("open", set())
            self.ob("open", bool(o) and all(x is not None and x != 0 for x in o), "%s: afterwards no slice is open" % what, sp)

    def first(self):
        sp = self.f.entry
        for seen, count in ((0, 4), (2, 5), (4, 5)):
            for open_ in (0, 1):
                J = self.case(a=(10, 20) if open_ else None, elem=(30, 5), open_=open_, seen=seen, count=count, N=3, loop=False)
                r = {x for x in self.range_of(J)}
                what = "with %d of %d slices taken, and %s" % (seen, count, "one open" if open_ else "none open")
                if open_:
                    self.ob("taken", r == {(seen, count)}, "%s, it takes %s" % (what, r), sp)
                    continue
                if r == {(seen + 1, count)}:
                    K = self.case(a=None, elem=(30, 5), open_=0, seen=seen, count=count, N=3, loop=False)
                    for s, p in heads_at(K, self.head).items():
                        if s in self.role:
                            v = set().union(*[numbers(K, x) for x in turns(K, p)[0]] or [set()])
                            want = {"start": {30}, "end": {35}}.get(self.role[s])
                            self.ob("first", v == want if want else bool(v) and 0 not in v and None not in v, "%s, the first, 30..35, is opened with %s as its %s" % (what, show_set(v), self.role[s]), sp)
                elif r == {(seen, count)}:
                    K = self.case(a=None, elem=(30, 5), open_=0, seen=seen, count=count, N=3)
                    st = self.after(K)
                    self.ob("first", st.get("start") == {30} and st.get("end") == {35} and not self.made(K, True), "%s, the first, 30..35, is opened as %s..%s" % (what, show_set(st.get("start", ())), show_set(st.get("end", ()))), sp)
                else:
                    self.ob("taken", False, "%s, it takes %s" % (what, r), sp)

    def last(self):
        sp = self.f.entry
        for eof, a, N, mx in ((1, (10, 20), 0, 100), (1, (10, 20), 500, 100), (1, None, 0, 100), (0, (10, 20), 0, 15), (0, (10, 20), 0, 20), (0, (10, 20), 0, 21), (0, (10, 20), 5, 25), (0, (10, 20), 5, 26), (0, (10, 20), 5, 24),
                              (0, (10, 20), M64, 60), (0, None, 5, 60), (0, (0, 20), 500, 60), (0, (10, 20), 5, 0)):
            J = self.case(a=a, N=N, eof=eof, n=100, mx=mx, count=2, seen=2, open_=int(a is not None), loop=False)
            m = self.made(J, False)
            what = "with N = %d, %s, and the next slice from %d on%s" % (N, "%d..%d open" % a if a else "none open", mx, ", but no more" if eof else "")
            n2, mx2 = answers(J, 2), answers(J, 3)
            if a is None:
                self.ob("nothing", not m, "%s: %s is made" % (what, shown(m)), sp)
            elif eof:
                self.ob("closed", m == {(a[0], a[1] - a[0])}, "%s: the open one is not handed out: %s" % (what, shown(m)), sp)
            else:
                # it may be closed only when what comes cannot be joined
                self.ob("early", not m if a[1] + N >= mx else m <= {(a[0], a[1] - a[0])}, "%s: %s is handed out" % (what, shown(m)), sp)
            o, s, e = (left(J, self.path[r]) for r in ("open", "start", "end"))
            if m:
                self.ob("reopened", o == {0}, "%s: the one that is handed out stays open" % what, sp)
            elif a is not None:
                self.ob("stays", 0 not in o and s == {a[0]} and e == {a[1]}, "%s: the open one becomes %s..%s" % (what, show_set(s), show_set(e)), sp)
            self.ob("count", n2 == {3 + len(m)}, "%s: 3 slices and %d are announced as %s" % (what, len(m), show_set(n2)), sp)
            if eof:
                self.ob("room-end", mx2 == {100}, "%s: of 100 bytes %s may be consumed" % (what, show_set(mx2)), sp)
            elif a is None and mx > 0 or m:
                self.ob("room", bool(mx2) and all(x is not None and x <= mx for x in mx2), "%s: %s bytes may be consumed" % (what, show_set(mx2)), sp)
            elif a is not None:
                self.ob("room-open", bool(mx2) and all(x is not None and x <= a[0] for x in mx2), "%s: %s bytes may be consumed" % (what, show_set(mx2)), sp)
            self.ob("answer", answers(J, 0) == {eof} and answers(J, 1) == {100}, "end and bytes are announced as %s and %s" % (show_set(answers(J, 0)), show_set(answers(J, 1))), sp)
            self.ob("seen", left(J, self.seen) == {2}, "with 2 slices there, it takes %s as joined" % show_set(left(J, self.seen)), sp)

    def count(self, I):
        for c, s in ((5, 2), (3, 0)):
            J = self.case(a=(10, 20), elem=(12, 3), count=c, seen=s)
            self.ob("seen", left(J, self.seen) == {c}, "with %d slices there, it takes %s as joined" % (c, show_set(left(J, self.seen))), self.f.entry)
        for x in I.calls():
            if x.kind == "call" and x.name and x.vals and own_slices(I, x.vals[0]) == self.segs and last(x.name) in ("clear", "remove", "insert", "dedup", "swap_remove", "reverse", "pop", "truncate", "retain", "drain"):
                self.ob("kept", False, "slices that were joined are changed by %s" % last(x.name), x.sp)

    def shift(self):
        Mapping.shifted(self, self.path["start"], "the start of the open slice")
        Mapping.shifted(self, self.path["end"], "the end of the open slice")


M64 = (1 << 64) - 1
