"""Every slice is printed once. In the functions that print the slices of a source, turn by turn: the offset the slices are printed at
and the number of the first new one move with what is consumed (with numbers for what the source says), every turn prints what is new in
the window, and the printed text is written out, completely and once, before the buffer is used again (a typestate over the paths)."""
import re
from absint import Interp, mk, show, last
from mir import callee
import q
from rules.c17 import choices
from rules.fillx import Num, numbers, failed, SLICES, WINDOW
from rules.turn import where, turns
from rules.c26 import nest
from rules.c25 import fields, Lost

PRINT = "TextFormatter::format_segments"
CONSUME = r"SegmentStream(>|)::consume$"
DEBUG = 0
X, A, N, C, M, B, K, POS, I5 = 100000, 2, 4000, 9, 333, 290, 3, 11, 4


def run(prog, R):
    found = 0
    for fn, f in sorted(prog.fns.items()):
        if "::test" in fn or not any((callee(t)[0] or "").endswith(PRINT) for _, t in f.calls()):
            continue
        found += 1
        try:
            Book(prog, R, fn).run()
        except Lost:
            R.count("forms-not-followed")
    if not found:
        R.count("forms-not-followed")
    formatters(prog, R)
    for fn in drains(prog):
        R.ob("printed", reaches(prog, fn, lambda n: n.endswith(PRINT)), "slices are taken from the source, but not printed", fn)


def formatters(prog, R):
    """what the printer itself adds to the offsets"""
    for fn, f in sorted(prog.fns.items()):
        if "::test" in fn or not re.match(r"^<?nd::drain::", fn) or not any((callee(t)[0] or "").endswith("TextFormatter::new") for _, t in f.calls()):
            continue
        I = Interp(prog, fn, inline=lambda tg, c: False)
        c = Num({})
        c.I, I.case = I, c
        for e in I.calls(r"TextFormatter::new$"):
            if e.kind == "call" and len(e.vals) == 2:
                for x in choices(I, e.vals[1]):
                    got = numbers(I, x.a[3]) if x.k == "agg" and x.a[0] == "tuple" else {None}
                    R.ob("offset", got <= {0, None}, "%s is added to all offsets" % said(got), e.sp)


def reaches(prog, fn, want, seen=None):
    """does a function call one that is wanted, itself or through its helpers and closures?"""
    seen = set() if seen is None else seen
    if fn in seen:
        return False
    seen.add(fn)
    names = {n for _, t in prog.fns[fn].calls() for n in (callee(t)[0], t["f"].get("res") if isinstance(t.get("f"), dict) else None) if n}
    if any(want(n) for n in names):
        return True
    return any(reaches(prog, g, want, seen) for g in sorted(names | {p for p in prog.fns if p.startswith(fn + "::{closure")}) if g in prog.fns and g.startswith("nd::drain::"))


def drains(prog):
    """the innermost functions that see the slices of a source and move it on"""
    both = [fn for fn in sorted(prog.fns) if re.match(r"^<?nd::drain::", fn) and "::test" not in fn
            and all(reaches(prog, fn, lambda n: re.search(w, n)) for w in (r"SegmentStream(>|)::fill_segment_buf$", CONSUME))]
    return [f for f in both if not any(g != f and reaches(prog, f, lambda n: n == g) or g.startswith(f + "::{closure") for g in both)]


def strip(t):
    t = q.strip(t)
    while t.k in ("addr", "cast") or t.k == "fld" and t.a[1] == "*":
        t = q.strip(t.a[2] if t.k == "cast" else t.a[0])
    return t


class Book:
    def __init__(self, prog, R, fn):
        self.prog, self.R, self.fn, self.taken = prog, R, fn, K

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.fn)

    def inline(self, tg, c):
        return tg.path in self.prog.fns and "{closure" not in tg.path and re.match(r"^nd::drain::", tg.path) and not self.sink(tg.path)

    def sink(self, name):
        """a function that is given bytes to write"""
        f = self.prog.fns.get(name)
        return bool(f) and any(f.locals[i]["ty"] == "&[u8]" for i in range(1, f.argc + 1))

    def analysis(self, v):
        c = Num(v)
        I = Interp(self.prog, self.fn, assume=c, inline=self.inline)
        c.I = I
        I.case = c
        self.R.count("cases")
        return I

    def printing(self, I):
        es = [e for e in I.calls() if e.kind == "call" and e.name and e.name.endswith(PRINT)]
        if len(es) != 1 or len(es[0].vals) != 5:
            raise Lost()
        return es[0]

    def loc(self, I, t):
        """a variable: ("phi", signature) or ("field", path)"""
        t = strip(t)
        if t.k == "phi" and turns(I, t)[1]:
            return ("phi", I.signature(t))
        path, b = fields(t)
        return ("field", path) if path and b.k == "arg" else None

    def window(self, I, t):
        """(low, high, chain) of the part of the slices that is printed"""
        t, chain = strip(t), []
        for _ in range(30):
            s = q.slice_of(t)
            if s is not None:
                return s[0], s[1], s[2], chain
            path, x = fields(t)
            if x.k == "pay" and strip(x.a[0]).k == "call" and last(strip(x.a[0]).a[0]) == "next":
                t = strip(strip(x.a[0]).a[2])
                chain.append("next" + "".join("." + k for k in path))
            elif t.k == "phi":
                xs = [q.strip(x) for x in I.phi_in.get(t, ()) if q.strip(x).k != "eff"]
                if len(xs) != 1:
                    raise Lost()
                t = strip(xs[0])
            elif t.k == "eff":
                t = strip(t.a[3])
            elif t.k == "call" and len(t.a) >= 3:
                n = I.case.num(t.a[3]) if len(t.a) > 3 else None
                chain.append(last(t.a[0]) + ("(%s)" % n if len(t.a) > 3 else ""))
                t = strip(t.a[2])
            else:
                break
        return t, None, None, chain

    def leaf(self, me, t):
        if me.I is None:
            return None
        if t.k == "phi":
            return self.vals.get(("phi", me.I.signature(t)))
        path, b = fields(t)
        if b.k == "pay" and path:
            c = q.strip(b.a[0])
            if c.k == "call":
                if re.search(SLICES, c.a[0]):
                    return {("2",): C, ("3",): M}.get(path)
                if re.search(CONSUME, c.a[0]):
                    return {("0",): B, ("1",): self.taken}.get(path)
                if last(c.a[0]) == "next":
                    return I5 if path == ("0",) else POS if path[-1] == "pos" else None
        if path and path[-1] == "pos":
            return POS
        if b.k == "arg" and path:
            return self.vals.get(("field", path))
        return None

    def run(self):
        self.vals = {}
        I = self.analysis({"leaf": lambda me, t: None})
        self.R.graph(I)
        e = self.printing(I)
        off = self.loc(I, e.vals[1])
        base, lo, hi, chain = self.window(I, e.vals[3])
        old = self.loc(I, lo) if lo is not None else None
        cons = [c for c in I.calls(CONSUME) if c.kind == "call"]
        fills = [c for c in I.calls(SLICES) if c.kind == "call"]
        if off is None or len(cons) != 1 or len(fills) != 1:
            raise Lost()
        cons, fill = cons[0], fills[0]
        self.sinks = [s for s in I.calls() if s.kind == "call" and s.name and not s.name.endswith(PRINT) and (self.sink(s.name) or last(s.name) == "write_all") and q.reach(I, [e.node], include=True).__contains__(s.node)]
        self.ways(I, e, cons, fill)
        # numbers
        named = [s for s in self.sinks if len(s.vals) >= 4]
        other = set()
        for s in named:
            for v in s.vals[2:]:
                for x in self.variables(I, v):
                    if x not in (off, old):
                        other.add(x)
        self.vals = {off: X}
        if old is not None:
            self.vals[old] = A
        self.vals.update({x: N for x in other})
        for K1 in (K, 0):
            self.taken = K1
            J = self.analysis({"leaf": self.leaf, "phi": {k[1]: v for k, v in self.vals.items() if k[0] == "phi"}})
            e = self.printing(J)
            base, lo, hi, chain = self.window(J, e.vals[3])
            self.printed(J, e, base, lo, hi, chain, old)
            got = self.after(J, off, e)
            self.ob("offset", got == {X + B}, "where %d bytes are consumed, the offset %d becomes %s" % (B, X, said(got)), e.sp)
            first = self.before(J, off)
            if DEBUG:
                print(self.fn, off, first)
            self.ob("offset", first <= {0, None}, "the first slices are printed at offset %s" % said(first), e.sp)
            if old is not None:
                got = self.after(J, old, e)
                self.ob("new", got == {C - K1}, "where %d of %d slices in the window are consumed, the next ones are looked for behind %s" % (K1, C, said(got)), e.sp)
                first = self.before(J, old)
                self.ob("new", first <= {0, None}, "the first %s slices are not printed" % said(first), e.sp)
            for s in self.of(J, named):
                at, no = numbers(J, s.vals[2]), numbers(J, s.vals[3])
                self.ob("name", at == {X + POS}, "a slice %d bytes behind offset %d is written under the offset %s" % (POS, X, said(at)), s.sp)
                self.ob("name", no == {N + A + I5}, "the slice number %d is written under the number %s" % (N + A + I5, said(no)), s.sp)
            for x in sorted(other, key=str):
                got = self.after(J, x, e)
                first = self.before(J, x)
                self.ob("name", first <= {0, None}, "the first slice is written under the number %s" % said(first), e.sp)
                self.ob("name", got == {N + K1}, "where %d slices are consumed, the number of the first one in the window becomes %s in place of %d" % (K1, said(got), N + K1), e.sp)
            c = next((c for c in J.calls(CONSUME) if c.kind == "call" and where(J, c.node) == where(I, cons.node)), None)
            if c is not None:
                n = numbers(J, c.vals[1])
                self.ob("consumed", None in n or all(k <= M for k in n), "more is consumed than the source allows (%s of %d)" % (said(n), M), c.sp)

    def of(self, J, es):
        w = {(s.name, s.sp) for s in es}
        return [s for s in J.calls() if s.kind == "call" and (s.name, s.sp) in w]

    def variables(self, I, t):
        out, st, seen = set(), [t], set()
        while st:
            x = strip(st.pop())
            if x in seen:
                continue
            seen.add(x)
            k = self.loc(I, x)
            if k is not None:
                p = fields(x)[0]
                if not p or p[-1] not in ("pos", "len"):
                    out.add(k)
            elif x.k == "op":
                st.extend(y for y in x.a[1:] if hasattr(y, "k"))
            elif x.k == "fld" and x.a[0].k == "op":
                st.append(x.a[0])
        return out

    def printed(self, J, e, base, lo, hi, chain, old):
        """everything new in the window"""
        b = strip(base)
        if not (b.k == "fld" and b.a[1] == "1" and q.strip(b.a[0]).k == "call" and re.search(WINDOW, q.strip(b.a[0]).a[0])):
            raise Lost()
        a, z = numbers(J, lo) if lo is not None else {0}, numbers(J, hi) if hi is not None else {None}
        if None in a or hi is not None and None in z:
            raise Lost()
        if old is None:
            # nothing is remembered: everything in the window has to be consumed
            self.ob("new", False, "slices that stay in the window are printed again", e.sp)
        else:
            self.ob("new", a == {A} and (hi is None or z == {C}), "of the %d slices in the window, %d of them printed before, it prints %s to %s" % (C, A, said(a), said(z)), e.sp)
        bad = [x for x in chain if re.match(r"(skip|take|step_by|filter|rev|windows\((?!1\))|chunks\((?!1\)))", x)]
        self.ob("new", not bad, "the slices are gone through by %s" % ", ".join(bad), e.sp)

    def ways(self, I, e, cons, fill):
        """the order of things"""
        ends = [n for n in I.returns if I.ctx_of_id[n[0]].parent is None and not failed(I, n)]
        inner = [h for h in nest(I, e.node) if not any(h == x for x in nest(I, cons.node))]
        gate = inner[-1] if inner else e.node
        self.ob("turn", cons.node not in q.reach(I, [fill.node], avoid=[gate]), "slices may be consumed without being printed", cons.sp)
        for h in inner[:1]:
            self.ob("turn", h not in q.reach(I, [h], avoid=[e.node, cons.node]), "a slice may be passed over", e.sp)
        buf = self.place(I, e.vals[4])
        if not self.sinks:
            return
        S = [s.node for s in self.sinks if self.same(self.place(I, self.bytes(s)), buf)]
        if DEBUG:
            print(self.fn, buf, [(s.name, self.place(I, self.bytes(s))) for s in self.sinks])
        if not S:
            raise Lost()
        self.sinks = [s for s in self.sinks if s.node in S]
        clear = [c.node for c in I.calls(r"Vec::<.*>::clear$") if c.kind == "call" and self.same(self.place(I, c.vals[0]), buf)]
        named = [s.node for s in self.sinks if len(s.vals) >= 4]
        bad = [n for n in ends if n in q.reach(I, [e.node], avoid=S)]
        self.ob("written", not bad, "what is printed may not be written out before the end", e.sp)
        self.ob("written", not set(clear) & set(q.reach(I, [e.node], avoid=S)), "what is printed may be thrown away before it is written out", e.sp)
        again = set(q.reach(I, S, avoid=clear))
        self.ob("once", not again & set(S), "what is printed may be written out again", e.sp)
        self.ob("once", e.node not in again, "more is printed behind what has been written out already, and written out again with it", e.sp)
        if named:
            self.ob("once", e.node not in q.reach(I, [e.node], avoid=S), "a slice may be written out under the name of another one", e.sp)

    def bytes(self, s):
        f = self.prog.fns.get(s.name)
        for i, v in enumerate(s.vals):
            if f is None and i == 1 or f is not None and f.locals[i + 1]["ty"] == "&[u8]":
                return v
        return s.vals[1]

    def place(self, I, t):
        """the variable a buffer is kept in"""
        seen = set()
        t = strip(t)
        for _ in range(60):
            if t in seen:
                break
            seen.add(t)
            if t.k == "phi":
                return ("phi", I.phi_key[t][0] if I.phi_key[t][0][0] != "M" else "self") + (tuple(str(k) for k in I.phi_key[t][1]),)
            if t.k == "eff":
                t = strip(t.a[3])
            elif t.k == "call" and len(t.a) == 3 and last(t.a[0]) in ("deref", "as_slice", "as_ref", "deref_mut", "as_mut"):
                t = strip(t.a[2])
            else:
                break
        p, b = fields(t)
        return ("field", p) if p and b.k == "arg" else ("other", t)

    @staticmethod
    def same(a, b):
        return a == b

    def before(self, J, v):
        """the value a variable of a loop begins with"""
        if v[0] == "field":
            return self.begins(re.split(r"[.*]", v[1][-1])[-1])
        if v[0] != "phi":
            return {None}
        p = next((p for p in J.phi_in if J.signature(p) == v[1]), None)
        if p is not None and J.phi_key[p][0][0] == "M":
            path = [str(y) for z, y in J.phi_key[p][1] if z == "f" and y != "*"]
            return self.begins(re.split(r"[.*]", path[-1])[-1]) if path else {None}
        if p is None:
            return {None}
        return set().union(*[numbers(J, x) for x in turns(J, p)[0]])

    def begins(self, name):
        """the value a field has in what the constructors of its type return"""
        ty = re.match(r"^<?([\w:]+?)(::[a-z_]\w*(::\{closure#\d+\})*)?( as .*)?$", self.fn)
        ty = ty.group(1) if ty else None
        out = set()
        for p, f in sorted(self.prog.fns.items()):
            if ty is None or "::test" in p or "{closure" in p or not p.startswith(ty + "::") or not re.search(r"\b%s\b" % re.escape(ty.rsplit("::", 1)[-1]), f.locals[0]["ty"]) or f.locals[0]["ty"].startswith("&"):
                continue
            J = Interp(self.prog, p, inline=lambda tg, c: tg.path in self.prog.fns and re.match(r"^<?nd::drain::", tg.path) is not None)
            c = Num({})
            c.I, J.case = J, c
            self.R.count("cases")
            for n, r in J.returns.items():
                if J.ctx_of_id[n[0]].parent is None:
                    for t in J.subterms(r):
                        if t.k == "agg" and name in (t.a[2] or ()):
                            out |= numbers(J, t.a[3 + list(t.a[2]).index(name)])
        return out

    def after(self, J, v, e):
        """the value of a variable after a turn"""
        if v[0] == "phi":
            p = next((p for p in J.phi_in if J.signature(p) == v[1]), None)
            if p is None:
                raise Lost()
            out = set().union(*[numbers(J, x) for x in turns(J, p)[1]])
            if None in out:
                raise Lost()
            return out
        st = {}
        for n, l in J.stores.items():
            for root, path, x, sp in l:
                if root[0] == "M" and hasattr(root[1], "k"):
                    k = fields(root[1])[0] + tuple(y for z, y in path if z == "f" and y != "*")
                    if k == v[1]:
                        st.setdefault(n, []).append(x)
        c = next((c for c in J.calls(CONSUME) if c.kind == "call"), None)
        ends = [n for n in J.returns if J.ctx_of_id[n[0]].parent is None and not failed(J, n)]
        out = set()
        if c is None or c.node in q.from_start(J, None, avoid=list(st)) and any(n in q.reach(J, [c.node], avoid=list(st)) for n in ends):
            out.add(self.vals[v])
        for n, xs in st.items():
            if not any(m != n and m in q.reach(J, [n]) for m in st):
                out |= numbers(J, xs[-1])
        if None in out:
            raise Lost()
        return out


def said(s):
    return " or ".join(sorted(map(str, s)))
