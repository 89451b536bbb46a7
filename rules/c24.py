"""--width N[,S..E]. The stage that cuts at fixed distances keeps where the next slice begins rather than a queue of slices; it is
analysed with numbers for what it keeps: from N, S and E to where the first slice begins and which is the last, the turn of the loop
that makes one slice, which slices are handed out and how far may be consumed, and where the next one begins after consuming."""
import re
from mir import callee
from absint import mk, show, last
import q
from rules.c16 import stages, field_path, own_slices, Stage
from rules.c17 import choices, tops
from rules.c21 import show_set
from rules.c23 import EVAL
from rules.fillx import Filling, said, answers, left, numbers, pushes, fields_of, failed, SLICES, STREAM
from rules.turn import loop_head, heads_at, turns, where

FIRSTS = ("last", "first", "last_mut", "first_mut", "get", "get_mut")
CONF = ((16, 0, 16), (16, 0, 10), (16, 4, 16), (16, 0, 40), (16, -5, 16), (16, -5, 3), (16, -16, 0), (16, -100, -90), (16, -100, 30), (16, 100, 120), (16, 3, 4), (1, 0, 1), (1, -3, 2), (4, -7, -2), (16, -1, 16),
        (16, 15, 16), (16, 16, 32), (1000, 3000, 7000), (16, -10, -9), (5, -5, 0))


def run(prog, R):
    st = [(ty, fs, Filling(prog, R, ty, fs)) for ty, fs in sorted(stages(prog).items())]
    st = [(ty, fs, f) for ty, fs, f in st if not f.kept and not f.run({}).calls(SLICES)]
    make = [p for p, f in prog.fns.items() if f.kind == "AssocFn" and p.endswith("Params::from_raw") and any(re.search(EVAL, callee(t)[0] or "") for _, t in f.calls())]
    if not st:
        R.count("forms-not-followed")
    for ty, fs, f in st:
        Width(f, make).run()


class Width:
    def __init__(self, f, make):
        self.f, self.ob, self.make = f, f.ob, make

    def follow(self):
        self.f.R.count("forms-not-followed")

    def run(self):
        f = self.f
        if len(self.make) != 1 or not self.paths():
            self.follow()
            return
        self.refused()
        for conf in CONF:
            p = self.params(*conf)
            if p:
                self.ob("starts", bool(tops(self.made_new(p))), "with %d bytes, from %d to %d, there is no way to begin" % conf, self.f.entry)
            s = p and self.start(p)
            if not s:
                self.follow()
                continue
            if not self.begin(conf, s):
                continue
            self.fill(conf, s)
            self.consume(conf, s)

    # ---- what is kept
    def paths(self):
        """where the stage keeps the slices and the numbers"""
        f = self.f
        J = f.run({}, f.fs["as_slices"])
        for r in said(J):
            w = q.slice_of(q.strip(J.project(r, ("f", "1"))))
            st = q.strip(J.project(r, ("f", "0")))
            self.ob("bytes", st.k == "call" and bool(re.search(STREAM, st.a[0])), "the bytes handed out are %s" % show(st, 4), f.fs["as_slices"])
            if w is None or own_slices(J, w[0]) is None or w[1] is not None and J.case.num(w[1]) != 0 or w[2] is None or field_path(q.strip(w[2])) is None:
                return False
            self.segs, self.hi = own_slices(J, w[0]), field_path(q.strip(w[2]))
        self.pre = self.segs[:-1]
        n = self.new()
        if n is None:
            return False
        names = {x[len(self.pre):] for x in n}
        self.curr, self.off, self.min, self.eof = (self.pre + x for x in (("phase", "curr"), ("init_state", "phase_offset"), ("init_state", "min_bytes_to_escape"), ("is_eof",)))
        self.room = self.hi[:-1] + ("0",)
        return all(x in n for x in (self.curr, self.off, self.min, self.eof, self.room, self.hi)) and bool(names)

    def flat(self, I, t, at=()):
        """{path: value} of what is built"""
        out = {}
        t = q.strip(t)
        if t.k == "agg" and t.a[2] and len(at) < 6:
            for n, v in zip(t.a[2], t.a[3:]):
                out.update(self.flat(I, v, at + (n,)))
        elif t.k == "agg" and t.a[0] == "tuple" and len(at) < 6:
            for i, v in enumerate(t.a[3:]):
                out.update(self.flat(I, v, at + (str(i),)))
        else:
            out[at] = t
        return out

    def made_new(self, p):
        f = self.f

        def leaf(me, t):
            if p is not None and t.k == "fld":
                x = self.arg_path(t, 1)
                if x is not None:
                    return p.get(x)
            return None
        I = f.run({"leaf": leaf}, f.ty + "::new")
        f.R.graph(I)
        return I

    def new(self, p=None):
        """{path: value} of a new stage, for certain parameters"""
        f = self.f
        if f.ty + "::new" not in f.prog.fns:
            return None

        I = self.made_new(p)
        out = None
        for r in tops(I):
            for c in choices(I, r):
                x = self.flat(I, c)
                y = {k: numbers(I, v) for k, v in x.items()}
                if out is not None and out != y:
                    return None
                out = y
        return out

    @staticmethod
    def arg_path(t, i):
        out = ()
        while t.k == "fld":
            if t.a[1] != "*":
                out = (t.a[1],) + out
            t = q.strip(t.a[0])
        return out if t.k == "arg" and t.a[1] == i else None

    # ---- parameters
    def conf_case(self, n, s, e, head=None):
        def leaf(me, t):
            if t.k == "arg" and t.a[1] == 0 and t.a[0] == self.make[0]:
                return n
            if t.k == "fld" and t.a[1] in ("0", "1"):
                b = q.strip(t.a[0])
                if b.k == "call" and re.search(EVAL, b.a[0]):
                    for v in b.a[3:5]:
                        a = q.strip(v)
                        while a.k == "fld" and a.a[1] == "*":
                            a = q.strip(a.a[0])
                        if a.k != "agg" or [me.num(y) for y in a.a[3:]] != [0, n]:
                            return None
                    return (s, e)[int(t.a[1])]
            return None
        v = {"leaf": leaf}
        if head:
            v["phi"] = head
        return self.f.run(v, self.make[0])

    def refused(self):
        for n, s, e in ((16, 3, 3), (16, 9, 4), (16, 40, 16), (16, -3, -4), (1, 1, 1)):
            J = self.conf_case(n, s, e)
            # not a failed assertion: those are not there in what is released
            self.ob("empty", not said(J) and any(q.strip(r).k != "errof" or not re.search(r"Mapper::", q.strip(r).a[0].a[0]) for r in tops(J)), "%d bytes, from %d to %d, are not refused" % (n, s, e), self.make[0])
        for n, s, e in CONF:
            J = self.conf_case(n, s, e)
            self.ob("accepted", bool(said(J)), "%d bytes, from %d to %d, are refused" % (n, s, e), self.make[0])

    def params(self, n, s, e):
        """{path: number} of the parameters"""
        J = self.conf_case(n, s, e)
        out = None
        for r in said(J):
            x = self.flat(J, r)
            y = {}
            for k, v in x.items():
                z = numbers(J, v)
                if None in z or len(z) != 1:
                    z = self.looped(n, s, e, J, k, v)
                    if z is None:
                        return None
                y[k] = z if isinstance(z, int) else z.pop()
            if out is not None and out != y:
                return None
            out = y
        return out

    def looped(self, n, s, e, J, path, v):
        """a number that is found in a loop: it is followed turn by turn"""
        ph = [x for x in J.subterms(v) if x.k == "phi"]
        if len(ph) != 1:
            return None
        sig = J.signature(ph[0])
        x = [numbers(J, y) for y in self.entering(J, ph[0])]
        if len(x) != 1 or len(x[0]) != 1 or None in x[0]:
            return None
        m = x[0].pop()
        for _ in range(400):
            K = self.conf_case(n, s, e, {sig: m})
            p = next((y for y in K.phi_in if K.signature(y) == sig), None)
            ends = set().union(*[numbers(K, self.flat(K, r).get(path)) for r in said(K) if path in self.flat(K, r)] or [set()])
            go = set().union(*[numbers(K, y) for y in self.again(K, p)] or [set()]) if p is not None else set()
            if ends and not go and len(ends) == 1:
                return ends.pop()
            if len(go) != 1 or None in go or said(K) and self.leaves(K, sig):
                return None
            m = go.pop()
        return None

    def entering(self, I, p):
        return turns(I, p)[0]

    def again(self, I, p):
        """the values it has in the next turn, where there is one"""
        return turns(I, p)[1]

    def leaves(self, K, sig):
        return False

    def start(self, p):
        n = self.new(p)
        if n is None:
            return None
        return {k: next(iter(v)) for k, v in n.items() if len(v) == 1 and None not in v}

    def begin(self, conf, s):
        """the first slice"""
        n, a, b = conf
        first = a
        while first + (b - a) <= 0:
            first += n
        what = "%d bytes, from %d to %d" % conf
        if not all(x in s for x in (self.curr, self.off, self.min)):
            self.follow()
            return False
        c, o, m = s[self.curr], s[self.off], s[self.min]
        self.ob("first", c - o == first, "with %s, the first slice starts at %d" % (what, c - o), self.f.entry)
        self.ob("first", c >= 0 and o >= 0 and o % n == 0 and m >= 1, "with %s, it begins with %d, %d and %d" % (what, c, o, m), self.f.entry)
        return True

    # ---- filling
    def chain(self, I, t, seen=None):
        """what was done to the collection since it was handed in"""
        out, st, seen = set(), [t], set()
        while st:
            x = q.strip(st.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.k == "eff":
                out.add(last(x.a[0]))
                if last(x.a[0]) != "clear":
                    st.append(x.a[3])
            elif x.k == "upd":
                st.append(x.a[0])
            elif x.k == "phi" and I is not None:
                st.extend(I.phi_in.get(x, ()))
            elif x.k == "call" and len(x.a) > 2 and last(x.a[0]) in ("deref", "deref_mut", "as_slice", "as_mut_slice"):
                st.append(x.a[2])
        return out

    def case(self, s, eof, n, k, head=None, tail=None):
        """k slices are kept, the last of which ends at tail"""
        span = self.span

        def elem(me, x):
            x = q.strip(x)
            while x.k == "fld" and x.a[1] == "*":
                x = q.strip(x.a[0])
            return x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) in ("last", "last_mut") and me.I is not None and own_slices(me.I, x.a[0].a[2]) == self.segs and not self.chain(me.I, x.a[0].a[2])

        def leaf(me, t):
            if t.k == "fld" and t.a[1] in ("pos", "len") and k and elem(me, t.a[0]):
                p = max(tail - span, 0)
                return p if t.a[1] == "pos" else tail - p
            return None

        def size(me, t):
            if me.I is None or own_slices(me.I, t) != self.segs:
                return None
            c = self.chain(me.I, t)
            return 0 if c == {"clear"} else k if not c else None

        def variant(me, t):
            t = q.strip(t)
            if t.k == "call" and len(t.a) > 2 and last(t.a[0]) in FIRSTS and me.I is not None and own_slices(me.I, t.a[2]) == self.segs:
                z = size(me, t.a[2])
                return None if z is None else "Some" if z else "None"
            return None
        v = {"eof": eof, "bytes": n, "leaf": leaf, "size": size, "variant": variant, "fields": s}
        if head:
            v["phi"] = head
        return self.f.run(v)

    def fill(self, conf, s0):
        p, a, b = conf
        self.span = span = b - a
        T = 1 if a >= 0 else 1 - a
        d0 = s0[self.curr] - s0[self.off]
        sp = self.f.entry
        states = [(s0, 0, "at the beginning")]
        if d0 < 0 and p <= 16:
            states.append((s0, -(d0 // p), "at the beginning, with those kept that are cut off there"))
        for d in sorted({0, p - 1, p // 2}):
            s = dict(s0, **{})
            s.update({self.curr: d, self.off: 0, self.min: 0})
            states.append((s, 0, "%d in front of the next slice" % d))
            if p == 16:
                states.append((s, 9, "%d in front of the next slice, with 9 kept" % d))
        R = max(T - span, 0) + p
        for s, k, at in states:
            d = s[self.curr] - s[self.off]
            # where the slice behind those that are kept ends
            nt = d + span + k * p
            what = "cutting %d bytes from %d to %d, %s" % (p, a, b, at)
            for n in sorted({0, 1, 5, max(d, 0), max(d + T - 1, 0), d + T if d + T > 0 else 0, nt + R + 3 * p, max(nt + 1, 0)}):
                self.at_end(s, k, n, d, span, p, T, nt, what)
            need = max(span, s[self.min]) + R + 1
            for n in sorted({need, need + 1, need + p, nt + R - p, nt + R - p - 1, nt + R - 1, nt + R, nt + R + 7, nt + R + 3 * p, nt + R - 4 * p}):
                if n >= need:
                    self.more(s, k, n, d, span, p, T, R, nt, what)

    def loop(self, J):
        """(head, {signature: phi}) of the loop that makes slices"""
        ps = pushes(J, self.segs)
        if len(ps) != 1:
            return None
        h = loop_head(J, ps[0].node)
        if h is None:
            return None
        x = ps[0]
        fs = [y for y in fields_of(J, x.vals[1]) if y and "pos" in y and "len" in y]
        hs = heads_at(J, where(J, h))
        use = {z for y in fs for v in y.values() for z in J.subterms(v) if z.k == "phi"}
        hs = {g: z for g, z in hs.items() if z in use}
        return hs if len(hs) == 1 and fs else None

    def made(self, J):
        out = set()
        for x in pushes(J, self.segs):
            for y in fields_of(J, x.vals[1]):
                out |= {(u, v) for u in numbers(J, y["pos"]) for v in numbers(J, y["len"])} if y and "pos" in y and "len" in y else {(None, None)}
        return out

    def turn(self, s, eof, n, k, tail, nt, J):
        """one turn with the next slice ending at nt: (made, what comes next, the analysis)"""
        sig = next(iter(self.hs))
        K = self.case(s, eof, n, k, {sig: nt}, tail)
        nx = set()
        for g, z in self.hs_of(K, sig):
            nx |= set().union(*[numbers(K, x) for x in turns(K, z)[1]] or [set()])
        return self.made(K), nx, K

    def hs_of(self, K, sig):
        return [(sig, z) for z in K.phi_in if K.signature(z) == sig]

    def at_end(self, s, k, n, d, span, p, T, nt, what):
        sp = self.f.entry
        J = self.case(s, 1, n, k, None, nt - p)
        what = "%s, with the stream ending at %d" % (what, n)
        self.ob("end", answers(J, 0) == {1} and answers(J, 1) == {n}, "end and bytes are announced as %s and %s" % (show_set(answers(J, 0)), show_set(answers(J, 1))), sp)
        self.ob("end-room", answers(J, 3) == {n} and left(J, self.room) == {n}, "%s: %s bytes may be consumed" % (what, show_set(answers(J, 3))), sp)
        self.ob("end-kept", left(J, self.eof) == {1}, "%s: that the end is reached is forgotten" % what, sp)
        m = left(J, self.min)
        if None not in m:
            self.ob("end-kept", all(x <= n for x in m), "%s: the %d bytes cannot be consumed (%s)" % (what, n, show_set(m)), sp)
        self.announced(J, what)
        self.hs = self.loop(J)
        if self.hs is None:
            # no slice can be made here
            if pushes(J, self.segs):
                self.follow()
            else:
                self.ob("end-made", d + T > n, "%s: no slice is made" % what, sp)
            return
        ph = next(iter(self.hs.values()))
        ent = set().union(*[numbers(J, x) for x in turns(J, ph)[0]] or [set()])
        if None in ent:
            self.follow()
            return
        cl = self.cleared(J)
        want = d + span if cl else nt
        self.ob("end-from", ent == {want}, "%s: the first slice that is made ends at %s, not at %d" % (what, show_set(ent), want), sp)
        for j in (0, 1, 2, 5):
            e = want + j * p
            if e <= 0:
                continue
            m, nx, K = self.turn(s, 1, n, k, nt - p, e, J)
            x = max(e - span, 0)
            if e - span + T <= n:
                self.ob("end-made", m == {(x, min(e, n) - x)}, "%s: the slice %d..%d becomes %s" % (what, e - span, e, shown(m)), sp)
                self.ob("end-next", nx == {e + p}, "%s: behind the slice up to %d comes one up to %s" % (what, e, show_set(nx)), sp)
            else:
                self.ob("end-none", not m, "%s: there is a slice from %d on" % (what, e - span), sp)

    def cleared(self, J):
        return any(x.kind == "call" and x.name and last(x.name) == "clear" and own_slices(J, x.vals[0]) == self.segs for x in J.calls())

    def announced(self, J, what):
        """the number of slices that is announced is that of the slices that are handed out"""
        sp = self.f.entry
        for x in said(J):
            c = q.strip(J.project(x, ("f", "2")))
            g = answers(J, 2)
            l = left(J, self.hi)
            self.ob("announced", g == l, "%s: %s slices are announced, and %s handed out" % (what, show_set(g), show_set(l)), sp)

    def more(self, s, k, n, d, span, p, T, R, nt, what):
        sp = self.f.entry
        what = "%s, with %d bytes there and more to come" % (what, n)
        J = self.case(s, 0, n, k, None, nt - p)
        self.ob("more", answers(J, 0) == {0} and answers(J, 1) == {n}, "end and bytes are announced as %s and %s" % (show_set(answers(J, 0)), show_set(answers(J, 1))), sp)
        self.ob("more-kept", left(J, self.eof) == {0}, "%s: the end is taken as reached" % what, sp)
        self.ob("more-kept", left(J, self.min) == {s[self.min]} and left(J, self.curr) == {s[self.curr]} and left(J, self.off) == {s[self.off]}, "%s: where the next slice begins is changed" % what, sp)
        self.announced(J, what)
        if not pushes(J, self.segs):
            c, x = answers(J, 2), answers(J, 3)
            if None in c or None in x or self.cleared(J):
                self.follow()
                return
            self.ob("kept-count", all(0 <= y <= k for y in c), "%s: %s of %d slices are handed out" % (what, show_set(c), k), sp)
            for y in c:
                self.ob("complete", y <= 0 or d + span + (y - 1) * p <= n, "%s: %d slices are handed out, the last of which ends at %d" % (what, y, d + span + (y - 1) * p), sp)
                self.ob("certain", y <= 0 or d + (y - 1) * p + T <= n, "%s: %d slices are handed out, the last of which need not be there" % (what, y), sp)
                self.ob("waits", y >= k or d + span + y * p + R + p > n, "%s: only %d slices are handed out" % (what, y), sp)
                self.ob("room", all(0 <= z <= min(max(d + y * p, 0), n) for z in x), "%s: with %d slices handed out, %s bytes may be consumed" % (what, y, show_set(x)), sp)
                self.ob("room", all(z >= min(max(d + y * p, 0), n) - p for z in x), "%s: with %d slices handed out, only %s bytes may be consumed" % (what, y, show_set(x)), sp)
            if k == 0:
                self.ob("waits", nt + R + p > n, "%s: no slice is made" % what, sp)
            return
        self.hs = self.loop(J)
        if self.hs is None:
            self.follow()
            return
        ph = next(iter(self.hs.values()))
        ent = set().union(*[numbers(J, x) for x in turns(J, ph)[0]] or [set()])
        if None in ent:
            self.follow()
            return
        want = d + span if self.cleared(J) else nt
        self.ob("more-from", ent == {want}, "%s: the first slice that is made ends at %s, not at %d" % (what, show_set(ent), want), sp)
        for e in sorted({want, want + p, want + 2 * p} | {want + (n - want - R) // p * p + i * p for i in (-1, 0, 1, 2, 3)}):
            if e < want:
                continue
            m, nx, K = self.turn(s, 0, n, k, nt - p, e, J)
            x = max(e - span, 0)
            if m:
                self.ob("made", m == {(x, e - x)}, "%s: the slice %d..%d becomes %s" % (what, e - span, e, shown(m)), sp)
                self.ob("complete", e <= n, "%s: the slice up to %d is handed out" % (what, e), sp)
                self.ob("certain", e - span + T <= n, "%s: the slice from %d on, which need not be there, is handed out" % (what, e - span), sp)
                self.ob("next", nx == {e + p}, "%s: behind the slice up to %d comes one up to %s" % (what, e, show_set(nx)), sp)
            else:
                self.ob("waits", e + R + p > n, "%s: the slice up to %d is not made" % (what, e), sp)
                r = answers(K, 3)
                y = min(max(e - span, 0), n)
                if None not in r:
                    self.ob("room", all(y - p <= z <= y for z in r), "%s: with slices up to the one that ends at %d, %s bytes may be consumed" % (what, e - p, show_set(r)), sp)
                else:
                    self.follow()

    # ---- consuming
    def consume(self, conf, s0):
        p, a, b = conf
        span = b - a
        fn = self.f.fs["consume"]
        states = [(s0, "at the beginning")]
        for d in sorted({0, p - 1, p // 2}):
            s = dict(s0)
            s.update({self.curr: d, self.off: 0, self.min: 0})
            states.append((s, "%d in front of the next slice" % d))
        for s, at in states:
            d0 = s[self.curr] - s[self.off]
            what0 = "cutting %d bytes from %d to %d, %s" % (p, a, b, at)
            for c in (0, 1, 2, 15, 16, 17, 18, 40):
                top = d0 + c * p
                if top < 0:
                    continue
                for eof in (0, 1):
                    n = top if not eof else max(d0 + (c - 1) * p + 1, 0)
                    for bytes_ in sorted({0, 1, n, n - 1, n // 2, d0, d0 + 1, d0 + p, d0 + p - 1, d0 + 15 * p, d0 + 16 * p, d0 + 16 * p - 1, d0 + 16 * p + 1, d0 + 17 * p, d0 + 17 * p + 1, s[self.min], s[self.min] - 1, n + 5 if eof else 0}):
                        if 0 <= bytes_ <= (n + 5 if eof else n):
                            self.consumed(fn, s, d0, p, c, n, eof, bytes_, "%s, with %d slices handed out, %d bytes%s are asked to be consumed" % (what0, c, bytes_, " of the last %d" % n if eof else ""))

    def consumed(self, fn, s, d0, p, c, n, eof, bytes_, what):
        v = dict(s)
        v.update({self.room: n, self.hi: c, self.eof: eof})

        def leaf(me, t):
            if t.k == "arg" and t.a[1] == 1 and t.a[0] == fn:
                return bytes_
            return None
        J = self.f.run({"leaf": leaf, "fields": v, "lens": {self.segs: c}}, fn)
        b, k = answers(J, 0), answers(J, 1)
        if len(b) != 1 or len(k) != 1 or None in b | k:
            self.follow()
            return
        b, k = next(iter(b)), next(iter(k))
        for e in J.calls(r"ByteStream(>|)::consume$"):
            if e.kind == "call":
                self.ob("passed", numbers(J, e.vals[1]) == {b}, "%s: %d are answered, and %s consumed" % (what, b, show_set(numbers(J, e.vals[1]))), e.sp)
        lo = s[self.min]
        cu, of, mi = (left(J, x) for x in (self.curr, self.off, self.min))
        if eof and bytes_ >= n and bytes_ >= min(lo, n):
            if bytes_ >= lo:
                self.ob("all", (b, k) == (n, c), "%s: it is %d, and %d slices" % (what, b, k), fn)
            return
        if b == 0 and k == 0 and bytes_ < max(lo, 1):
            self.ob("same", cu == {s[self.curr]} and of == {s[self.off]} and mi == {lo}, "%s: none is, but where the next slice begins is changed" % what, fn)
            return
        self.ob("some", 0 < b <= bytes_ if bytes_ else b == 0, "%s: it is %d" % (what, b), fn)
        want = min(max(-(-(b - d0) // p), 0), c)
        self.ob("slices", k == want, "%s: it is %d, and %d slices, not %d" % (what, b, k, want), fn)
        if None in cu | of | mi or len(cu) != 1 or len(of) != 1:
            self.follow()
            return
        at = next(iter(cu)) - next(iter(of))
        self.ob("moved", at == d0 + want * p - b and at >= 0 and (next(iter(of)) == 0), "%s: after %d, the next slice is taken to start at %d, not %d" % (what, b, at, d0 + want * p - b), fn)
        self.ob("moved", mi == {0} or bytes_ == 0, "%s: it is still taken as the beginning" % what, fn)
        cl = self.cleared(J)
        if not cl and not eof:
            self.ob("stale", b == want * p and d0 >= 0, "%s: after %d, and %d slices, the slices that were made are used again" % (what, b, k), fn)


def shown(m):
    return ", ".join("%s + %s" % x for x in sorted(m, key=str)) or "nothing"
