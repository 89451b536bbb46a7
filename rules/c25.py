"""Text records. The reader of records is analysed with numbers for what the digit routines find in given texts, turn by turn of its
loops: which part of the text each routine is given, which of the bytes it finds are kept, how much is consumed, and whether the
record is complete or goes on in the next block. The digit routines are analysed one by one, on both kinds of processor."""
import re
from absint import Interp, mk, show, last
from mir import callee
import q
import cases
import lanes
from rules import evalx as E
from rules.c16 import field_path
from rules.c17 import choices, tops
from rules.fillx import Num, numbers, failed, BYTES, STREAM
from rules.turn import where, heads_at, turns

CONT = "read_line_continued"
W = 192
DEBUG = 0


def run(prog, R):
    ty = "nd::text::parser::TextParser"
    for name in ("read_line", CONT):
        if ty + "::" + name in prog.fns:
            Record(prog, R, ty, name).run()
        else:
            R.count("forms-not-followed")
    Digits(prog, R, ty).run()


HEX = {ord(c): int(c, 16) for c in "0123456789abcdefABCDEF"}
DEC = {ord(c): int(c) for c in "0123456789"}
HERE = lambda prog: lambda tg, c: tg.path in prog.fns and "{closure" not in tg.path


class Digits:
    """the routines that turn columns into numbers, with every byte there is"""

    def __init__(self, prog, R, ty):
        self.prog, self.R, self.ty = prog, R, ty

    def run(self):
        seen = set()
        for form, values, base in (("Hexadecimal", HEX, 16), ("Decimal", DEC, 10)):
            fs = self.routines(form)
            if not fs:
                self.R.count("forms-not-followed")
            for fn in sorted(fs):
                ret = self.prog.fns[fn].locals[0]["ty"]
                if (fn, form) in seen:
                    continue
                seen.add((fn, form))
                try:
                    if any("_mm_" in (callee(t)[0] or "") for g in self.below(fn) for _, t in self.prog.fns[g].calls()):
                        self.vector(fn, ret, base)
                    elif re.search(r"Option<\(u64, usize\)>", ret):
                        Single(self.prog, self.R, fn, values, base).run()
                    elif re.search(r"Option<\(\(usize, usize\), usize\)>", ret) and base == 16:
                        Columns(self.prog, self.R, fn).run()
                except Lost:
                    self.R.count("forms-not-followed")

    def below(self, fn):
        """the functions it uses"""
        out, st = set(), [fn]
        while st:
            f = st.pop()
            if f in out or f not in self.prog.fns:
                continue
            out.add(f)
            st.extend(callee(t)[0] for _, t in self.prog.fns[f].calls() if callee(t)[0])
            st.extend(p for p in self.prog.fns if p.startswith(f + "::{closure"))
        return out

    def vector(self, fn, ret, base):
        if base == 16 and re.search(r"Option<\(u64, usize\)>", ret):
            VSingle(self.prog, self.R, fn).run()
        elif base == 16:
            VColumns(self.prog, self.R, fn).run()
        else:
            raise Lost()

    def routines(self, form):
        """the routines a reader of this format gets"""
        out = set()

        def variant(me, t):
            t = q.strip(t)
            while t.k == "fld" and t.a[1] == "*":
                t = q.strip(t.a[0])
            if t.k == "fld" and t.a[0] is not None and t.a[1] in ("offset", "span", "body"):
                return form if t.a[1] != "body" else "Hexadecimal"
            return None
        fn = self.ty + "::new"
        if fn not in self.prog.fns:
            return out
        c = Num({"variant": variant})
        I = Interp(self.prog, fn, assume=c, inline=HERE(self.prog))
        c.I = I
        I.case = c
        for r in E.K.result(I):
            for x in choices(I, r):
                x = q.strip(x)
                if x.k == "agg":
                    for v in x.a[3:]:
                        for y in choices(I, v):
                            y = q.strip(y)
                            while y.k in ("cast", "addr"):
                                y = q.strip(y.a[2] if y.k == "cast" else y.a[0])
                            if y.k == "fn" and y.a[0] in self.prog.fns:
                                out.add(y.a[0])
        return out


class Routine:
    def __init__(self, prog, R, fn):
        self.prog, self.R, self.fn = prog, R, fn

    def ob(self, k, ok, msg):
        return self.R.ob(k, ok, msg, self.fn)

    @staticmethod
    def nexted(t):
        """the path inside what an iterator gives, and the step"""
        path, x = fields(t)
        if x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) == "next":
            return path, x.a[0]
        return None, None

    def case(self, F, leaf, size=None, some="Some"):
        def variant(me, t):
            t = q.strip(t)
            return some if t.k == "call" and last(t.a[0]) == "next" else None
        v = {"leaf": leaf, "variant": variant, "phi": F}
        if size:
            v["size"] = size
        c = Num(v)
        I = Interp(self.prog, self.fn, assume=c, inline=HERE(self.prog))
        c.I = I
        I.case = c
        self.R.count("cases")
        return I

    def answers(self, I):
        """what it returns: None where it refuses, the value elsewhere"""
        out = []
        for n, r in I.returns.items():
            if I.ctx_of_id[n[0]].parent is None:
                for x in choices(I, r):
                    if E.failure(x):
                        out.append(None)
                        continue
                    p = E.some(x)
                    for y in choices(I, p if p is not None else mk("pay", x)):
                        out.append(y)
        return out

    def heads(self, I, t):
        """the variables of a loop that a value is taken from"""
        return {I.signature(x) for x in ([q.strip(t)] if q.strip(t).k == "phi" else []) if self.again(I, x)}

    def again(self, I, p):
        return turns(I, p)[1]

    def find(self, I, sig):
        return next((p for p in I.phi_in if I.signature(p) == sig), None)


class Single(Routine):
    def __init__(self, prog, R, fn, values, base):
        Routine.__init__(self, prog, R, fn)
        self.values, self.base = values, base

    def run(self):
        I = self.case({}, lambda me, t: None)
        self.R.graph(I)
        acc = set()
        for a in self.answers(I):
            if a is not None:
                acc |= self.heads(I, I.project(a, ("f", "0")))
        if len(acc) != 1:
            raise Lost()
        acc = acc.pop()
        at = set()
        for a in self.answers(I):
            if a is not None:
                at |= self.heads(I, I.project(a, ("f", "1")))
        at = at.pop() if len(at) == 1 else None
        first = turns(I, self.find(I, acc))[0]
        need = 16 if self.base == 16 else 20
        for e in I.calls():
            for v in e.vals or ():
                for t in I.subterms(v):
                    s = q.slice_of(t)
                    b = None if s is None else q.strip(s[0])
                    if b is not None and b.k == "arg" and b.a == (self.fn, 0) and s[2] is not None:
                        n = numbers(I, s[2])
                        self.ob("length", None in n or min(n) >= need, "a number of %d digits is not read to its end" % (need - 1))
                if e.name and last(e.name) == "take" and len(e.vals) == 2 and v is e.vals[1]:
                    n = numbers(I, v)
                    self.ob("length", None in n or min(n) >= need, "a number of %d digits is not read to its end" % (need - 1))
        self.ob("number", all(numbers(I, x) == {0} for x in first), "a number begins with %s" % [show(x, 3) for x in first])
        for h, i in ((0, 0), (1, 1), (0xabc, 3), (0x1234567, 9)):
            for b in range(256):
                self.turn(acc, at, h, i, b)

    def leaf(self, b, i):
        def leaf(me, t):
            path, x = self.nexted(t)
            if x is not None:
                return b if path in ((), ("1",)) else i if path == ("0",) else None
            if t.k == "idx" and t.a[0].k == "fld" and q.strip(t.a[0]).a[0].k == "arg":
                return b
            return None
        return leaf

    def turn(self, acc, at, h, i, b):
        F = {acc: h}
        if at is not None and at != acc:
            F[at] = i
        J = self.case(F, self.leaf(b, i))
        p = self.find(J, acc)
        go = set().union(*[numbers(J, x) for x in self.again(J, p)] or [set()]) if p is not None else set()
        if None in go:
            raise Lost()
        out = [a if a is None else tuple(numbers(J, J.project(a, ("f", k))) for k in ("0", "1")) for a in self.answers(J)]
        c = repr(chr(b))
        if b in self.values:
            want = h * self.base + self.values[b]
            self.ob("digit", go == {want}, "the digit %s behind 0x%x gives %s" % (c, h, " and ".join("0x%x" % x for x in sorted(go)) or "no number"))
        else:
            self.ob("no-digit", not go, "%s is taken for a digit" % c)
            for o in out:
                self.ob("end", o is None or o == ({h}, {i}), "at %s, after %d digits of 0x%x, the number is %s" % (c, i, h, o and [sorted(map(str, x)) for x in o]))
            if b == 32:
                self.ob("end", any(o is not None for o in out) and None not in out, "a blank does not end the number")


class Columns(Routine):
    """bytes in two-digit columns, up to the end of the line or a bar"""

    def leaf(self, chunk, i, scan, bar, tail):
        def leaf(me, t):
            if t.k == "arg" and t.a[0] == self.fn and t.a[1] == 0:
                return tail
            if t.k == "call" and t.a[0] in self.prog.fns and len(t.a) > 3:
                ns = {me.num(y) for x in t.a[2:] for y in ([x] if q.strip(x).k != "agg" else q.strip(x).a[3:])}
                return scan if 10 in ns else bar if 124 in ns else None
            path, x = self.nexted(t)
            if x is not None:
                return i if path == ("0",) else None
            if t.k == "idx":
                path, x = self.nexted(t.a[0])
                n = me.num(t.a[1]) if hasattr(t.a[1], "k") else t.a[1]
                if x is not None and path in ((), ("1",)) and n is not None and 0 <= n < len(chunk):
                    return chunk[n]
            return None

        def size(me, t):
            path, x = self.nexted(t)
            return len(chunk) if x is not None and path in ((), ("1",)) else 1000 if t.k == "arg" else None
        return leaf, size

    def run(self):
        I = self.case({}, lambda me, t: None)
        self.R.graph(I)
        cnt = set()
        for a in self.answers(I):
            if a is not None:
                cnt |= self.heads(I, I.project(a, ("f", "1")))
        if len(cnt) != 1:
            raise Lost()
        self.cnt = cnt.pop()
        cs = [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) in ("chunks", "chunks_exact")]
        if len(cs) != 1:
            raise Lost()
        for scan, bar in ((192, 192), (100, 192), (192, 40), (100, 40), (40, 100), (0, 192), (192, 0)):
            leaf, size = self.leaf((48, 49, 32), 0, scan, bar, 0)
            J = self.case({}, leaf, size)
            for e in J.calls():
                if e.name == cs[0].name and e.kind == "call":
                    n = J.case.length(e.vals[0])
                    if n is None:
                        raise Lost()
                    self.ob("columns", n == min(scan, bar) and numbers(J, e.vals[1]) == {3}, "of %d characters to the end of the line and %d to the bar, %d are read" % (scan, bar, n))
            for tail in (0, 1):
                leaf, size = self.leaf((48, 49, 32), 0, scan, bar, tail)
                J = self.case({self.cnt: 5}, leaf, size, "None")
                for a in self.answers(J):
                    self.ob("found", a is not None and self.triple(J, a) == (({scan}, {min(scan, bar)}, {5}) if not tail else ({scan}, {0}, {0})),
                            "of %d characters to the end of the line and %d to the bar, it finds %s%s" % (scan, bar, a is not None and self.triple(J, a), " behind the bar" if tail else ""))
        for i in (0, 7, 63):
            for c in self.chunks(i):
                self.turn(i, c)
        for fn in sorted({e.term.a[0] for e in I.calls() if e.kind == "call" and e.term is not None and e.term.k == "call" and e.term.a[0] in self.prog.fns and "{closure" in e.term.a[0]}):
            self.finder(fn)

    def finder(self, fn):
        """the place of the first of a certain byte"""
        f = self.prog.fns[fn]
        if f.locals[0]["ty"] != "usize":
            self.R.count("forms-not-followed")
            return
        old, self.fn = self.fn, fn
        try:
            for c in (10, 124):
                for i in (0, 1, 100, 191):
                    for b in [c] + [x for x in range(256) if x != c and (i == 1 or x in (32, 48, 10, 124))]:
                        J = self.found(c, b, i, "Some")
                        out = {x for n, r in J.returns.items() if J.ctx_of_id[n[0]].parent is None for x in numbers(J, r)}
                        if None in out:
                            raise Lost()
                        self.ob("finds", out == ({i} if b == c else set()), "looking for %r, at %r in place %d it finds %s" % (chr(c), chr(b), i, sorted(out)))
                J = self.found(c, 0, 0, "None")
                out = {x for n, r in J.returns.items() if J.ctx_of_id[n[0]].parent is None for x in numbers(J, r)}
                n = {J.case.length(e.vals[0]) for e in J.calls() if e.kind == "call" and e.name and last(e.name) == "iter"}
                if None in out | n or len(n) != 1:
                    raise Lost()
                self.ob("finds", out == n == {W}, "where there is no %r in %s characters, it finds %s" % (chr(c), sorted(n), sorted(out)))
        finally:
            self.fn = old

    def found(self, c, b, i, some):
        def leaf(me, t):
            if t.k == "arg" and t.a[1] == 1:
                return c
            path, x = self.nexted(t)
            return None if x is None else b if path in ((), ("1",)) else i if path == ("0",) else None
        return self.case({}, leaf, lambda me, t: 1000 if t.k in ("arg", "fld") and self.nexted(t)[1] is None else None, some)

    def chunks(self, i):
        out = [(32, 32), (32, 32, 32), (48,), (32,)]
        for b in range(256):
            out += [(b, 0x35), (0x62, b), (0x43, 0x39, b)] if i == 7 else [(b, 0x66, 32), (0x30, b, 32)] if i == 63 else [(b, b, 32)]
        return out

    def triple(self, J, a):
        p = J.project(a, ("f", "0"))
        return tuple(numbers(J, x) for x in (J.project(p, ("f", "0")), J.project(p, ("f", "1")), J.project(a, ("f", "1"))))

    def turn(self, i, c):
        leaf, size = self.leaf(c, i, 190, 180, 0)
        J = self.case({self.cnt: i}, leaf, size)
        p = self.find(J, self.cnt)
        go = set().union(*[numbers(J, x) for x in self.again(J, p)] or [set()]) if p is not None else set()
        put = set()
        for l in J.stores.values():
            for root, path, v, sp in l:
                if root[0] == "M" and q.strip(root[1]).k == "arg" and path and path[-1][0] == "i":
                    k = path[-1][1]
                    put |= {(x, y) for x in (numbers(J, k) if hasattr(k, "k") else {k}) for y in numbers(J, v)}
        out = [a if a is None else self.triple(J, a) for a in self.answers(J)]
        if None in go or any(None in x for x in put):
            raise Lost()
        s = repr("".join(map(chr, c)))
        if len(c) > 1 and c[0] in HEX and c[1] in HEX and (len(c) == 2 or c[2] == 32):
            v = HEX[c[0]] * 16 + HEX[c[1]]
            self.ob("byte", put == {(i, v)} and go == {i + 1}, "%s in column %d gives %s" % (s, i, sorted(put)))
        elif len(c) == 1 or c[:2] == (32, 32):
            self.ob("blank", not put and not go and out == [({190}, {180}, {i})], "%s in column %d gives %s" % (s, i, out))
        else:
            self.ob("refused", not go and set(map(str, out)) == {"None"}, "%s in column %d is accepted" % (s, i))


class Vector(Routine):
    """a routine that works on 16 bytes at once"""

    def at(self, me, t, base):
        """where in the text a pointer or a part of it points"""
        t = q.strip(t)
        while t.k in ("cast", "addr") or t.k == "fld" and t.a[1] == "*":
            t = q.strip(t.a[2] if t.k == "cast" else t.a[0])
            if base(t):
                return 0
        if base(t):
            return 0
        if t.k == "call" and len(t.a) == 3 and last(t.a[0]) in ("as_ptr", "as_mut_ptr", "cast", "cast_mut", "cast_const"):
            return self.at(me, t.a[2], base)
        if t.k == "call" and len(t.a) == 4 and last(t.a[0]) in ("add", "wrapping_add", "offset") and "ptr" in t.a[0]:
            p, n = self.at(me, t.a[2], base), me.num(t.a[3])
            return None if p is None or n is None else p + n
        if t.k == "phi" and t in me.I.phi_key and me.I.phi_key[t][0][0] == "M" and hasattr(me.I.phi_key[t][0][1], "k"):
            (_, root), path = me.I.phi_key[t]
            t = root
            for kind, x in path:
                if kind == "i":
                    t = mk("idx", t, x)
                elif (kind, x) != ("f", "*"):
                    return None
            return self.at(me, t, base) if t is not root else None
        s = q.slice_of(t)
        if s is not None:
            p, n = self.at(me, s[0], base), 0 if s[1] is None else me.num(s[1])
            return None if p is None or n is None else p + n
        if t.k == "idx":
            p, n = self.at(me, t.a[0], base), me.num(t.a[1]) if hasattr(t.a[1], "k") else t.a[1]
            return None if p is None or n is None else p + n
        return None

    def vcase(self, F, text, base, leaf, size=None):
        text = text + [0x51] * 64

        def memory(me, t):
            p = self.at(me, t, base)
            return None if p is None or p + 16 > len(text) else text[p:p + 16]
        L = lanes.Lanes(memory)

        def both(me, t):
            if me.I is None:
                return None
            v = leaf(me, t)
            return L.num(me, t) if v is None else v
        variant = lambda me, t: "Some" if q.strip(t).k == "call" and last(q.strip(t).a[0]) == "next" else None
        v = {"leaf": both, "variant": variant, "phi": F, "size": size or (lambda me, t: 1000 if t.k == "arg" else None)}
        c = Num(v)
        I = Interp(self.prog, self.fn, assume=c, inline=lambda tg, cc: tg.path in self.prog.fns)
        c.I = I
        I.case = c
        self.L = L
        self.R.count("cases")
        return I


class VSingle(Vector):
    """a number in the first 16 characters"""

    def run(self):
        base = lambda t: t.k == "arg" and t.a == (self.fn, 0)
        digits = [ord(c) for c in "7f3A9c0E5b1D824"]
        for n in range(16):
            for b in ([32] if n else []) + (list(range(256)) if n in (0, 1, 6, 14) else [32, 10, 58, 47, 64, 71, 96, 103, 124, 200, 255]):
                text = digits[:n] + [b] + digits[n:14] + [32]
                self.one(base, (text + [32])[:16] if n < 15 else digits[:15] + [b])

    def one(self, base, text):
        J = self.vcase({}, text, base, lambda me, t: None)
        self.R.graph(J)
        s = "".join(map(chr, text))
        out = [a if a is None else tuple(numbers(J, J.project(a, ("f", k))) for k in ("0", "1")) for a in self.answers(J)]
        if any(o is not None and None in o[0] | o[1] for o in out) or len(out) != 1:
            raise Lost()
        out = out[0]
        stop = next((i for i, b in enumerate(text) if b not in HEX), 16)
        want = ({int(s[:stop] or "0", 16)}, {stop})
        if stop < 16 and text[stop] == 32:
            self.ob("digit", out == want, "the number in %r is %s" % (s, out and ["0x%x" % x for y in out for x in y]))
        else:
            self.ob("no-digit", out is None or stop < 16 and out == want, "the number in %r is %s" % (s, out and ["0x%x" % x for y in out for x in y]))


class VColumns(Vector):
    """a number of columns at a time"""

    def carried(self, I, t):
        """the variables of loops that a value is made from"""
        out, seen, st = set(), set(), [t]
        while st:
            x = q.strip(st.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.k == "phi":
                if self.again(I, x):
                    out.add(I.signature(x))
                    continue
                st.extend(I.phi_in.get(x, ()))
            elif x.k == "op":
                st.extend(y for y in x.a[1:] if hasattr(y, "k"))
        return out

    def run(self):
        self.step = 48
        I = self.open()
        self.R.graph(I)
        cs = [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) in ("chunks", "chunks_exact")]
        if len(cs) != 1:
            raise Lost()
        J = self.vcase({}, [48] * 64, lambda t: False, lambda me, t: None)
        n = J.case.length(next(e for e in J.calls() if e.kind == "call" and e.name == cs[0].name).vals[0])
        k = numbers(J, cs[0].vals[1])
        if n is None or len(k) != 1 or None in k:
            raise Lost()
        k = k.pop()
        self.ob("columns", n == W and k % 3 == 0 and W % k == 0, "%d characters are read, %d at a time" % (n, k))
        if k > 48 or k % 3:
            raise Lost()
        self.step = k
        parts = [set(), set(), set()]
        for a in self.answers(I):
            if a is not None:
                p = I.project(a, ("f", "0"))
                for s, t in zip(parts, (I.project(p, ("f", "0")), I.project(p, ("f", "1")), I.project(a, ("f", "1")))):
                    s |= self.carried(I, t)
        if any(len(s) != 1 for s in parts):
            raise Lost()
        self.scanned, self.parsed, self.count = (s.pop() for s in parts)
        hs = heads_at(I, where(I, I.phi_where[self.find(I, self.scanned)]))
        tail = [g for g, p in hs.items() if any(q.strip(x).k == "arg" and q.strip(x).a[1] == 0 for x in turns(I, p)[0])]
        if len(tail) != 1 or self.parsed not in hs or self.count not in hs:
            raise Lost()
        self.tail = tail[0]
        for g in (self.scanned, self.parsed, self.count):
            self.ob("found", all(numbers(I, x) == {0} for x in turns(I, hs[g])[0]), "the count of what it finds begins with %s" % [show(x, 3) for x in turns(I, hs[g])[0]])
        cols = lambda n: " ".join("%02x" % ((i * 37 + 11) & 255) for i in range(n))
        k = self.step
        full = (cols(k // 3) + " " * k)[:k]
        for i in range(k):
            for c in "\n|":
                self.one(full[:i] + c + full[i + 1:], 0)
                self.one(full[:i] + c + full[i + 1:], 1)
        for i in range(0, k // 3):
            self.one((cols(i) + " " * k)[:k], 0)
            self.one((cols(i) + " | " + "x" * k)[:k], 0)
            self.one((cols(i) + "\n" + cols(99))[:k], 0)
            self.one((cols(i) + " |" + "x" * i + "\n|" + cols(99))[:k], 0)
            self.one((cols(i) + "\n" + "|" * 99)[:k], 0)
        self.one(full, 0)
        self.one(full, 1)
        for i in (0, k // 3 - 2):
            for a in " :/9@FG`fg\xba":
                for b in " :/9@FG`fg\xba":
                    if not a + b == "  ":
                        self.one(full[:3 * i] + a + b + full[3 * i + 2:], 0)
        for i in range(0, k // 3):
            for b in range(256):
                if b not in (10, 124):
                    for o in (0, 1, 2):
                        if i == 5 or self.R.tier != "quick" or b in (32, 47, 58, 64, 71, 96, 103, 70, 102, 176):
                            self.one(full[:3 * i + o] + chr(b) + full[3 * i + o + 1:], 0, i)

    def open(self):
        c = Num({"leaf": lambda me, t: None})
        I = Interp(self.prog, self.fn, assume=c, inline=lambda tg, cc: tg.path in self.prog.fns)
        c.I = I
        I.case = c
        return I

    def one(self, text, tail, col=None):
        S, P, N = 48, 47, 15
        chars = [ord(c) for c in text]
        F = {self.scanned: S, self.parsed: P, self.count: N, self.tail: tail}
        J = self.vcase(F, chars, lambda t: self.nexted(t)[0] == (), lambda me, t: None)
        vals = []
        for g in (self.scanned, self.parsed, self.count, self.tail):
            p = self.find(J, g)
            vals.append(set().union(*[numbers(J, x) for x in self.again(J, p)] or [set()]) if p is not None else set())
        out = []
        for a in self.answers(J):
            if a is not None:
                p = J.project(a, ("f", "0"))
                a = tuple(numbers(J, x) for x in (J.project(p, ("f", "0")), J.project(p, ("f", "1")), J.project(a, ("f", "1"))))
            out.append(a)
        if any(None in x for x in vals) or any(o is not None and any(None in x for x in o) for o in out):
            if DEBUG:
                print(repr(text), vals, out, [show(x, 9) for g in (self.scanned, self.parsed, self.count, self.tail) for x in self.again(J, self.find(J, g))])
            raise Lost()
        k = self.step
        nl, bar = text.find("\n") if "\n" in text else k, text.find("|") if "|" in text else k
        e = min(nl, bar)
        s = repr(text)
        cs = [text[i:min(i + 3, e)] for i in range(0, e, 3)]
        good = bad = 0
        for c in cs:
            if len(c) < 2:
                continue
            if c[:2] == "  ":
                break
            if all(ord(x) in HEX for x in c[:2]) and (len(c) == 2 or c[2] == " "):
                good += 1
            else:
                bad = 1
                break
        later = good < len(cs) - 1 and any(c.strip() for c in cs[good:])
        if not tail and bad:
            self.ob("refused", not vals[0] and set(map(str, out)) == {"None"}, "%s is accepted" % s)
            return
        n = N if tail else N + good
        want = [{S + nl}, {P if tail else P + e}, {n}]
        if not tail and later and (not vals[0] and set(map(str, out)) == {"None"}):
            return                      # what is behind a blank column may be refused
        if nl < k:
            self.ob("found", not vals[0] and out == [tuple(want)], "in %s%s it finds %s" % (s, " behind a bar" if tail else "", out))
        else:
            self.ob("found", vals[:3] == want and vals[3] == {int(bool(tail or bar < k))}, "in %s%s it finds %s" % (s, " behind a bar" if tail else "", [sorted(v) for v in vals]))
        es = [x for x in J.calls() if x.kind == "call" and x.name and re.search(r"_mm_storeu?_si128$", x.name)]
        if tail:
            self.ob("byte", not es, "behind a bar, %s is taken for bytes" % s)
            return
        for x in es:
            p, v = self.at(J.case, x.vals[0], lambda t: t.k == "arg" and t.a[1] == 2), self.L.vec(J.case, x.vals[1])
            if p is None or v is None:
                if DEBUG:
                    print(repr(text), p, v, show(x.vals[0], 9), J.phi_key.get(x.vals[0].a[0]))
                raise Lost()
            self.ob("byte", p == N and v[:good] == [int(c[:2], 16) for c in cs[:good]], "from %s it gets %s" % (s, " ".join("%02x" % y for y in v[:good])))
        self.ob("byte", len(es) == 1 or not good, "from %s it gets nothing" % s)


class Lost(Exception):
    """the code is written in a way that is not followed"""


def fields(t):
    """(path, base) of a projection"""
    path = ()
    t = q.strip(t)
    while t.k == "fld":
        if t.a[1] != "*":
            path = (t.a[1],) + path
        t = q.strip(t.a[0])
    return path, t


def body(text, at, tail):
    """what a digit routine for the bytes finds: end of line, end of the bytes, number of bytes"""
    s = (text[at:] + "\n" * (W + 64))[:W]
    nl = s.find("\n")
    nl = W if nl < 0 else nl
    if tail:
        return nl, 0, 0
    bar = s.find("|")
    p = min(W if bar < 0 else bar, nl)
    return nl, p, columns(s[:p])


def columns(s):
    n = 0
    for i in range(0, len(s), 3):
        c = s[i:i + 3]
        if len(c) < 2 or c[:2] == "  ":
            break
        n += 1
    return n


class Record:
    def __init__(self, prog, R, ty, name):
        self.prog, self.R, self.ty, self.name = prog, R, ty, name
        self.fn = ty + "::" + name
        self.cont = name == CONT
        f = prog.fns[self.fn]
        self.args = [f.locals[i]["ty"] for i in range(1, f.nargs + 1)] if hasattr(f, "nargs") else None

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.fn)

    def inline(self, tg, c):
        return tg.path.startswith(self.ty + "::") and last(tg.path) != CONT and "format_cache" not in tg.path

    # ---- one case
    def pos(self, J, t, depth=0):
        """where a piece of the block begins"""
        t = q.strip(t)
        if depth > 30:
            return None
        while t.k == "fld" and t.a[1] == "*":
            t = q.strip(t.a[0])
        if t.k == "phi":
            s = J.signature(t)
            if s in self.P:
                return self.P[s]
            vs = {self.pos(J, x, depth + 1) for x in J.phi_in.get(t, ()) if q.strip(x) is not t}
            return vs.pop() if len(vs) == 1 else None
        if t.k == "call" and re.search(STREAM, t.a[0]):
            return 0
        if t.k == "fld" and t.a[1] in ("0", "1"):
            b = q.strip(t.a[0])
            if b.k == "call" and last(b.a[0]) in ("split_at", "split_at_unchecked") and len(b.a) == 4:
                p, n = self.pos(J, b.a[2], depth + 1), self.c.num(b.a[3]) if t.a[1] == "1" else 0
                return None if p is None or n is None else p + n
        s = q.slice_of(t)
        if s is not None:
            p, n = self.pos(J, s[0], depth + 1), 0 if s[1] is None else self.c.num(s[1])
            return None if p is None or n is None else p + n
        return None

    def closure_call(self, I, c):
        """the arguments the routine gets inside a closure"""
        c = q.strip(c)
        if c.k != "agg" or not c.a[0].startswith("closure:"):
            return None
        g = self.prog.fns.get(c.a[0][8:])
        if g is None:
            return None
        key = (id(I), c)
        if key not in self.memo:
            K = Interp(self.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=lambda tg, cc: False)
            es = [e for e in K.calls() if e.kind == "call" and e.name in (None, "<indirect>") and len(e.vals) == 3]
            rs = [q.strip(r) for r in E.K.result(K)]
            self.memo[key] = es[0].vals if len(es) == 1 and rs and all(r is es[0].term for r in rs) else None
        return self.memo[key]

    def parse(self, I, c):
        """what one use of the routine for the bytes finds"""
        vals = None
        if re.search(r"fill_uninit", c.a[0]):
            vals = self.closure_call(I, c.a[-1])
        elif self.indirect(c) and len(c.a) == 5:
            vals = c.a[2:]
        if vals is None:
            return None
        at = self.pos(I, vals[1])
        tail = self.c.num(vals[0])
        if at is None or tail is None:
            return None
        self.where[c] = (at, tail)
        return body(self.text, at, tail)

    @staticmethod
    def indirect(c):
        return c.k == "call" and c.a[0] in (None, "", "<indirect>")

    def leaf(self, me, t):
        I = me.I
        if I is None:
            return None
        if t.k == "arg" and self.cont and t.a[0] == self.fn:
            return self.argv.get(t.a[1])
        path, x = fields(t)
        if path and x.k == "pay":
            c = q.strip(x.a[0])
            if c.k == "phi" and path:
                vs = set()
                for y in choices(I, c):
                    if E.failure(y):
                        continue
                    p = E.some(y)
                    if p is None:
                        p = mk("pay", y)
                    for k in path:
                        p = I.project(p, ("f", k))
                    vs |= {me.num(z) for z in choices(I, p)}
                return vs.pop() if len(vs) == 1 else None
            if c.k == "call":
                if self.indirect(c) and len(c.a) == 3:
                    p = self.pos(I, c.a[2])
                    r = self.singles.get(p)
                    return None if r is None or len(path) != 1 else {"0": r[0], "1": r[1]}.get(path[0])
                r = self.parse(I, c)
                if r is not None:
                    return {("0", "0"): r[0], ("0", "1"): r[1], ("1",): r[2]}.get(path)
        if t.k == "idx":
            n = me.num(t.a[1]) if hasattr(t.a[1], "k") else t.a[1] if isinstance(t.a[1], int) else None
            p = self.pos(I, t.a[0])
            if n is not None and p is not None:
                return ord((self.text + "\n" * 400)[p + n])
        if t.k == "call" and last(t.a[0]) in ("eq", "ne", "starts_with") and len(t.a) == 4:
            for a, b in (t.a[2:], t.a[:1:-1]):
                lit = self.literal(b)
                p = None if lit is None else self.pos(I, a)
                if p is None:
                    continue
                n = len(lit) if last(t.a[0]) == "starts_with" else me.length(a)
                if n is not None:
                    return int(((self.text + "\n" * 400)[p:p + n] == lit) != (last(t.a[0]) == "ne"))
        if t.k == "call" and last(t.a[0]) in ("from_le_bytes", "from_ne_bytes", "from_be_bytes"):
            for y in I.subterms(t.a[2]):
                if y.k == "eff" and last(y.a[0]) == "copy_from_slice":
                    for e in me.site(y.a[1]):
                        p, n = self.pos(I, e.vals[1]), me.length(e.vals[1])
                        if p is not None and n is not None:
                            return int.from_bytes((self.text + "\n" * 400)[p:p + n].encode(), "big" if "be" in last(t.a[0]) else "little")
        return None

    def literal(self, t):
        t = q.strip(t)
        while t.k == "fld" and t.a[1] == "*":
            t = q.strip(t.a[0])
        if t.k == "s":
            return t.a[0]
        if t.k == "agg" and t.a[0].startswith("array"):
            vs = [q.strip(x) for x in t.a[3:]]
            if all(x.k == "c" for x in vs):
                return "".join(chr(x.a[0]) for x in vs)
        return None

    def size(self, me, t):
        t = q.strip(t)
        if t.k == "fld" and t.a[1] == "*":
            return self.size(me, t.a[0])
        if t.k == "arg" and t.a[0] == self.fn:
            return 1000 if t.a[1] == self.buf else None
        if t.k == "eff" and re.search(r"fill_uninit", t.a[0]):
            es = me.site(t.a[1])
            vs = {self.parse(me.I, e.term) for e in es}
            if len(vs) == 1 and None not in vs:
                n = me.length(t.a[3])
                return None if n is None else n + vs.pop()[2]
            return None
        if t.k == "phi" and me.I is not None and me.I.phi_key[t][0][0] == "M":
            r = me.I.phi_key[t][0][1]
            if r.k == "arg" and r.a == (self.fn, self.buf):
                return 1000
        p = self.pos(me.I, t) if me.I is not None else None
        return None if p is None else len(self.text) + 400 - p

    def case(self, F, P):
        self.F, self.P, self.memo, self.where = F, P, {}, {}
        v = {"eof": self.eof, "bytes": len(self.text), "leaf": self.leaf, "size": self.size, "phi": F}
        c = self.c = Num(v)
        c.heads |= set(P)
        I = Interp(self.prog, self.fn, assume=c, inline=self.inline)
        c.I = I
        I.case = c
        self.R.count("cases")
        return I

    def values(self, J, xs):
        """the number, or the place in the block, that a variable has"""
        vs = set()
        for x in xs:
            vs |= numbers(J, x)
        if len(vs) == 1 and None not in vs:
            return "n", vs.pop()
        ps = {self.pos(J, x) for x in xs}
        if len(ps) == 1 and None not in ps:
            return "p", ps.pop()
        return None, None

    # ---- turn by turn
    def walk(self):
        F, P, stack, start = {}, {}, [], None
        self.parses, self.kept = [], 0
        for _ in range(60):
            J = self.case(F, P)
            here = [n for n in J.nodes if stack and where(J, n) == stack[-1]]
            held = [n for n in J.nodes if where(J, n) in stack]
            region = q.reach(J, here, avoid=held) if stack else q.from_start(J, None)
            done = set(F) | set(P)
            cyc = [n for n in {J.phi_where[p] for p in J.phi_in} if n in region and n not in held and where(J, n) not in self.through and n in q.reach(J, [n], avoid=held)]
            # the first of them
            cyc = [n for n in cyc if not any(m != n and n not in (q.reach(J, here, avoid=held + [m], include=True) if stack else q.from_start(J, None, avoid=[m])) for m in cyc)]
            if cyc:
                h = cyc[0]
                if DEBUG > 1:
                    print("head", where(J, h), [where(J, x) for x in cyc])
                seen = q.reach(J, here, avoid=held + [h]) if stack else q.from_start(J, None, avoid=[h])
                self.effects(J, seen)
                stack.append(where(J, h))
                self.force(J, h, 0, F, P, stack)
                continue
            if not stack:
                self.effects(J, region)
                return J
            h = next(n for n in here)
            back = [n for n in q.reach(J, [h], avoid=[x for x in held if x != h]) if n == h]
            self.effects(J, region)
            if back:
                self.force(J, h, 1, F, P, stack)
                self.through = set()
                continue
            # the loop is left
            self.through.add(stack.pop())
            if not stack:
                return J
            while stack:
                h = next(n for n in J.nodes if where(J, n) == stack[-1])
                inner = [n for n in J.nodes if where(J, n) in self.through]
                back = h in q.reach(J, [h])
                if back and self.repeated(J, h):
                    self.force(J, h, 1, F, P, stack)
                    for w in self.through:
                        for n in J.nodes:
                            if where(J, n) == w:
                                for s in heads_at(J, w):
                                    F.pop(s, None)
                                    P.pop(s, None)
                    self.through = set()
                    break
                self.through.add(stack.pop())
            else:
                return J
        raise Lost()

    def repeated(self, J, h):
        return any(turns(J, p)[1] for p in heads_at(J, where(J, h)).values())

    def force(self, J, h, which, F, P, stack):
        new = {}
        outer = [n for n in J.nodes if where(J, n) in stack and n != h]
        for s, p in heads_at(J, where(J, h)).items():
            xs = turns(J, p, outer)[which]
            if xs:
                new[s] = self.values(J, xs)
        if DEBUG > 1:
            print("force", which, where(J, h), {s[2]: (x, [show(y, 3) for y in turns(J, p, outer)[which]]) for s, x in new.items() for p in [heads_at(J, where(J, h))[s]]})
            for s, x in new.items():
                if x[0] is None:
                    for y in turns(J, heads_at(J, where(J, h))[s], outer)[which]:
                        print("  ??", show(y), y is heads_at(J, where(J, h))[s], y.k == "phi" and (J.signature(y), [show(z, 3) for z in J.phi_in[y]]))
        for s, (k, v) in new.items():
            F.pop(s, None)
            P.pop(s, None)
            if k == "n":
                F[s] = v
            elif k == "p":
                P[s] = v
        self.seen_heads = True

    def effects(self, J, region):
        for e in J.calls():
            if e.kind != "call" or e.node not in region:
                continue
            if e.name and re.search(r"fill_uninit", e.name):
                r = self.parse(J, e.term)
                if r is None:
                    if DEBUG:
                        print("parse", e.sp, show(e.term, 6), self.F, self.P, [show(x, 6) for x in self.closure_call(J, e.term.a[-1]) or ()])
                    raise Lost()
                at, tail = self.where[e.term]
                if DEBUG > 1:
                    print("effect", e.sp, at, tail, r, sorted(self.F.values()), sorted(self.P.values()))
                self.parses.append((at, tail, r[2]))
                self.kept += r[2]
            elif e.name and last(e.name) in ("truncate", "clear", "pop", "push", "extend_from_slice", "resize", "drain", "set_len") and self.is_buf(J, e.vals[0]):
                a, b = J.case.length(e.vals[0]), J.case.after(e, last(e.name), e.vals[0], 0)
                if a is None or b is None:
                    if DEBUG:
                        print("length", e.sp, show(e.vals[0], 8), a, b, F)
                    raise Lost()
                self.kept += b - a

    def is_buf(self, J, t):
        return any(y.k == "arg" and y.a == (self.fn, self.buf) for y in J.subterms(t)) or any(y.k == "phi" and J.phi_key[y][0][0] == "M" and J.phi_key[y][0][1].k == "arg" and J.phi_key[y][0][1].a == (self.fn, self.buf) for y in J.subterms(t))

    def run(self):
        f = self.prog.fns[self.fn]
        tys = [f.locals[i]["ty"] for i in range(1, len(f.locals))]
        self.buf = next((i for i, t in enumerate(tys[:6]) if re.match(r"^&mut (std|alloc)::vec::Vec<u8", t)), None)
        flag = next((i for i, t in enumerate(tys[:6]) if t == "bool"), None)
        if self.buf is None or self.cont and (flag is None or flag > self.buf):
            self.R.count("forms-not-followed")
            return
        for sc in self.scenarios():
            self.text, self.eof, tail, self.head, what = sc
            self.through = set()
            self.argv = {flag: tail} if self.cont else {}
            if self.cont:
                for i, n in enumerate([i for i in range(1, self.buf) if i != flag]):
                    self.argv[n] = (7001, 7002)[i] if i < 2 else None
            self.singles = {0: (0x1f0, self.head[0]), self.head[0] + 1: (0x2e, self.head[1])} if not self.cont else {}
            try:
                J = self.walk()
                self.R.graph(J)
                self.verdict(J, tail, what)
            except Lost:
                if DEBUG:
                    import traceback
                    traceback.print_exc()
                self.R.count("forms-not-followed")
                return

    def scenarios(self):
        cols = lambda n: " ".join("%02x" % ((i * 37 + 5) & 255) for i in range(n))
        heads = (("", (0, 0)),) if self.cont else (("001f0 2e", (5, 2)), ("0000000001f0 02e", (12, 3)))
        out = []
        for hd, ij in heads[:1]:
            sep = "" if self.cont else " | "
            for n, end, eof, w in ((3, "\n", 0, "3 bytes"), (3, " | abc\n", 0, "3 bytes and text"), (3, "|abc\nrest", 1, "3 bytes, text, and another record"), (3, "", 1, "3 bytes without an end of line"), (3, "", 0, "3 bytes up to the end of the block"),
                                   (3, " ", 0, "3 bytes and a blank up to the end of the block"), (3, " 4", 0, "3 bytes and half of one up to the end of the block"), (64, "\n", 0, "64 bytes"), (64, " ", 0, "64 bytes up to the end of the block"),
                                   (65, "", 0, "65 bytes up to the end of the block"), (66, " 5", 0, "66 bytes and a half up to the end of the block"), (66, " 5", 0, ""), (65, " \n" + cols(70), 0, "65 bytes, and another record"),
                                   (10, " | " + "x" * 200, 0, "10 bytes and text up to the end of the block"), (10, " | " + "x" * 157, 0, "10 bytes and text up to the end of the block"), (130, " | " + "x" * 40 + "\n", 1, "130 bytes and text"),
                                   (10, " | " + "x" * 400 + "\n", 0, "10 bytes and a long text"), (0, "\n", 0, "no bytes"), (0, "| \n", 0, "no bytes, but text"), (128, "", 1, "128 bytes to the end"), (64, "", 1, "64 bytes to the end")):
                if w:
                    out.append((hd + sep + cols(n) + end, eof, 0, ij, w))
            if self.cont:
                for t, eof, w in (("abc\n", 0, "the text"), ("ab 48|cd", 0, "text up to the end of the block"), ("ab 48|cd\n00 01 | 4", 1, "text, and another record"), ("x" * 300 + "\n", 0, "a long text"), ("x" * 192, 0, "192 characters of text"), ("x" * 191 + "\n" + "4" * 9, 0, "191 characters of text"), ("", 1, "nothing")):
                    out.append((t, eof, 1, ij, w))
                out.append(("", 1, 0, ij, "nothing"))
            else:
                out.append((hd + "\n", 0, 0, ij, "no bytes at all"))
                out.append((hd, 1, 0, ij, "no bytes, without an end of line"))
                out.append((hd + "\n0001 2 | 4", 0, 0, ij, "no bytes at all, and another record"))
        if not self.cont:
            for x in (" \n", "  | 00\n", "| 00\n", " |00 01\n", " : 00\n", " , 00 01\n", ": 00 01\n", " |\n", "\t| 00\n", "\r\n", ";\n"):
                out.append((hd + x, 0, None, ij, repr(x)[1:-1].replace("\\\\", "\\")))
            hd, ij = heads[1]
            out.append((hd + " | " + cols(5) + "\n", 0, 0, ij, "5 bytes behind a longer head"))
            out.append((hd + " | " + cols(90), 0, 0, ij, "90 bytes up to the end of the block, behind a longer head"))
        return out

    def verdict(self, J, tail, what):
        T, L = self.text, len(self.text)
        h = 0 if self.cont else sum(self.head) + 1
        if tail is None:
            ends = [n for n in J.returns if J.ctx_of_id[n[0]].parent is None]
            self.ob("refused", bool(ends) and all(failed(J, n) for n in ends), "a record whose first two columns are followed by \"%s\" is accepted" % what)
            return
        what = ("when a record goes on with %s" if self.cont else "with a record of %s") % what
        used = set()
        con = [e for e in J.calls(r"ByteStream>?::consume$") if e.kind == "call" and (not self.cont or J.ctx_of_id[e.node[0]].parent is None or True)]
        ends = [n for n in J.returns if J.ctx_of_id[n[0]].parent is None and not failed(J, n)]
        calls = [e for e in J.calls() if e.kind == "call" and e.name and last(e.name) == CONT]
        for e in con:
            used |= numbers(J, e.vals[1])
        if not ends or None in used or len(used) > 1:
            raise Lost()
        n = used.pop() if used else 0
        self.result = (n, self.kept, bool(calls))
        if self.cont or T[h:h + 3] == " | ":
            b = 0 if self.cont else h + 3
            nl = T.find("\n", b)
            end = L if nl < 0 else nl
            bar = T.find("|", b)
            stop = b if tail else min(end, L if bar < 0 else bar)
            want = 0 if tail else columns(T[b:stop])
            if nl >= 0:
                self.ob("record", n == nl + 1, "%s, %d of %d characters are consumed up to the end of the line" % (what, n, nl + 1))
                self.ob("bytes", self.kept == want, "%s, %d of %d bytes are kept" % (what, self.kept, want))
                self.ob("complete", not calls, "%s, it goes on although the line has ended" % what)
            elif self.eof:
                self.ob("last", n == L, "%s, %d of %d characters are consumed at the end of the input" % (what, n, L))
                self.ob("bytes", self.kept == want, "%s, %d of %d bytes are kept" % (what, self.kept, want))
            else:
                flags = {x for e in calls for x in numbers(J, e.vals[[i for i, v in enumerate(e.vals)][self.flag_of()]])} if calls else set()
                self.ob("goes-on", bool(calls), "%s, it does not go on with the next block" % what)
                intail = tail or 0 <= bar < L
                if intail:
                    self.ob("tail", flags == {1}, "%s, what follows is taken for bytes" % what)
                    self.ob("block", n == L, "%s, %d of %d characters are consumed" % (what, n, L))
                    self.ob("bytes", self.kept == want, "%s, %d of %d bytes are kept" % (what, self.kept, want))
                else:
                    self.ob("tail", flags == {0}, "%s, what follows is not taken for bytes" % what)
                    self.ob("block", n <= L and n - b == 3 * self.kept and L - n <= 191, "%s, %d characters are consumed for %d bytes" % (what, n - b, self.kept))
            at = b
            for p, t, k in self.parses:
                self.ob("order", p == at and (bool(t) == bool(tail) or not k), "%s, the bytes from %d on are read from %d on" % (what, at - b, p - b))
                at = p + W
        else:
            self.ob("record", n == min(h + 1, L) and not self.kept, "%s, %d of %d characters are consumed" % (what, n, min(h + 1, L)))
            self.ob("complete", not calls, "%s, it goes on although the line has ended" % what)
        want = (7001, 7002) if self.cont else (0x1f0, 0x2e)
        for e in calls:
            vs = [numbers(J, v) for v in e.vals[1:3]]
            self.ob("head", vs == [{want[0]}, {want[1]}], "%s, it goes on with the offset %s and the length %s" % (what, vs[0], vs[1]))
        for m in ends:
            for r in choices(J, J.returns[m]):
                if E.failure(r) or q.strip(r).k == "call":
                    continue
                p = E.some(r)
                p = p if p is not None else r
                for x in choices(J, p):
                    y = E.some(x)
                    for z in choices(J, y if y is not None else x):
                        if q.strip(z).k in ("agg", "fld", "pay") :
                            vs = [numbers(J, J.project(z, ("f", k))) for k in ("0", "1")]
                            if None in vs[0] | vs[1]:
                                continue
                            self.ob("head", vs == [{want[0]}, {want[1]}], "%s, its offset is %s and its length %s" % (what, vs[0], vs[1]))

    def flag_of(self):
        f = self.prog.fns[self.ty + "::" + CONT]
        return next(i for i in range(6) if f.locals[i + 1]["ty"] == "bool")
