"""How the steps on bytes keep count. The buffer the steps share is analysed once per case of the numbers involved (which of them is the
larger, has the source ended, was everything read): what it keeps, hands out and remembers is compared with the bytes it was given
and asked for. Every step is analysed for what it reads from its source, what it copies, what it marks as consumed there, what it
announces, and when it announces the end."""
import itertools
import re
from absint import Interp, C, mk, show, last, T
import q
import cases
from rules import evalx as E
from rules import dump as D
from rules.c16 import field_path, all_terms

BUF = "nd::streambuf::StreamBuf"
OPAQUE = lambda tg, c: not re.match(r"^<?nd::(eval|text|template|streambuf|mapper|segment|filluninit)::", tg.path) and \
    not re.search(r" as nd::byte::ByteStream>::|FillUninit", tg.path)


IMPL = re.compile(r"^<(nd::.*) as nd::byte::ByteStream>::(fill_buf|consume|as_slice)$")
FILL = r"ByteStream(>|)::fill_buf$"
CONSUME = r"ByteStream(>|)::consume$"
SLICE = r"ByteStream(>|)::as_slice$"


def steps(prog):
    out = {}
    for p in prog.fns:
        m = IMPL.match(p)
        if m and "::tester::" not in p and "::tests::" not in p and "::mock::" not in p:
            out.setdefault(m.group(1), {})[m.group(2)] = p
    return {k: v for k, v in out.items() if len(v) == 3}


def run(prog, R):
    Buffer(prog, R).run()
    Spare(prog, R).run()
    n = {}
    for ty, fs in sorted(steps(prog).items()):
        s = Step(prog, R, ty, fs)
        s.run()
        n[s.kind] = n.get(s.kind, 0) + 1
    Kept(prog, R).run()
    R.ob("steps", n.get("buffered", 0) >= 3 and n.get("forwarding", 0) >= 2, "only %s steps are found" % n, "src/byte")


class Step:
    def __init__(self, prog, R, ty, fs):
        self.prog, self.R, self.ty, self.fs = prog, R, ty, fs
        self.name = ty.split("::")[-1]
        self.kind = None

    def ob(self, k, ok, msg, sp):
        return self.R.ob("%s:%s" % (self.name, k), ok, "%s: %s" % (self.name, msg), sp)

    def interp(self, which, leaf=None, length=None, **kw):
        I = cases.run(self.prog, self.fs[which], leaf or (lambda t: None), length, inline=OPAQUE, **kw)
        return I

    def outs(self, I):
        """what is handed out: {('buf'|'src'|'own', path of the field)}"""
        out = set()
        bufs = {e.term: field_path(q.strip(e.vals[0])) for e in I.calls(r"StreamBuf::as_slice$") if e.vals}
        bufp = {field_path(q.strip(e.vals[0])) for e in I.calls(r"StreamBuf::as_slice$") if e.vals}
        srcs = {e.term: self.source(I, e.vals[0]) for e in I.calls(SLICE) if e.kind == "call"}
        for r in [x for v in tops(I) for x in choices(I, v)]:
            r = q.strip(r)
            p = field_path(r)
            if r in srcs:
                out.add(("src", srcs[r]))
            elif r in bufs or p in bufp and p is not None:
                out.add(("buf", p or bufs[r]))
            else:
                s = q.slice_of(r)
                b = q.strip(s[0]) if s else r
                if b in srcs or field_path(b) in bufp and field_path(b) is not None:
                    out.add(("part", show(r, 5)))
                else:
                    out.add(("own", show(r, 4)))
        return out

    def source(self, I, t):
        """(field, index term or None) of the source a call goes to"""
        t = q.strip(t)
        while t.k in ("eff", "upd") or t.k == "phi" and len({self.source(I, x) for x in I.phi_in.get(t, ()) if not mentions(I, x, t)}) == 1:
            if t.k == "phi":
                return self.source(I, [x for x in I.phi_in[t] if not mentions(I, x, t)][0])
            t = q.strip(t.a[3] if t.k == "eff" else t.a[0])
        if t.k == "idx":
            b = self.source(I, t.a[0])
            return None if b is None else (b[0], q.strip(t.a[1]))
        p = field_path(t)
        return (p, None) if p else None

    def run(self):
        R = self.R
        S, Cn, F = (Interp(self.prog, self.fs[w], inline=OPAQUE) for w in ("as_slice", "consume", "fill_buf"))
        R.graph(S), R.graph(Cn), R.graph(F)
        o = self.outs(S)
        self.ob("whole", not any(k == "part" for k, x in o), "what is handed out is %s, not all there is" % [x for k, x in o if k == "part"], self.fs["as_slice"])
        kinds = {k for k, x in o} - {"part"}
        if kinds == {"buf"} and len(o) == 1:
            self.kind = "buffered"
            self.buffered(F, Cn, list(o)[0][1])
        elif kinds == {"src"} and len(o) == 1:
            self.kind = "forwarding"
            self.forwarding(F, Cn, list(o)[0][1])
        elif kinds == {"buf", "src"}:
            self.kind = "concatenating"
            Concat(self, F, Cn, S, o).run()
        else:
            self.kind = "own"
            self.own()

    def once(self, I, pat, key, same, msg):
        """every way through ends with exactly one such call, for which same(event)"""
        es = [e for e in I.calls(pat) if e.kind == "call" or pat.startswith("StreamBuf")]
        if not self.ob(key, bool(es), msg, I.entry.path):
            return
        for e in es:
            self.ob(key, same(e), "%s: %s" % (msg, ", ".join(show(v, 4) for v in e.vals)), e.sp)
        seen = q.from_start(I, None, avoid=[e.node for e in es])
        self.ob(key + "-always", not any(n in seen for n in I.returns if I.ctx_of_id[n[0]].parent is None), msg + " on one way", I.entry.path)
        again = q.reach(I, [e.node for e in es])
        self.ob(key + "-once", not any(e.node in again for e in es), msg + ", but twice", I.entry.path)

    def amount(self, I):
        return mk("arg", self.fs["consume"], 1)

    def atleast(self, fn, term, what, key, sp):
        """a number asked of the source is no less than what the step is asked for"""
        req = mk("arg", self.fs["fill_buf"], 1)
        for r in (1, 5, 4096, 5 << 20):
            c = cases.Case(lambda t: r if t is req else None)
            c.I = fn
            v = c.num(term)
            self.ob(key, v is not None and v >= r, "asked for %d bytes it asks %s for %s" % (r, what, v if v is not None else show(term, 5)), sp)

    def buffered(self, F, Cn, path):
        arg = self.amount(Cn)
        self.once(Cn, r"StreamBuf::consume$", "consume", lambda e: field_path(q.strip(e.vals[0])) == path and q.strip(e.vals[1]) is arg, "what is consumed is not consumed from the buffer")
        fb = [e for e in F.calls(r"StreamBuf::fill_buf$") if field_path(base(F, e.vals[0])) == path]
        if not self.ob("fill", bool(fb), "the buffer that is handed out is not filled", self.fs["fill_buf"]):
            return
        ts = {e.term for e in fb}
        for e in fb:
            self.atleast(F, e.vals[1], "the buffer", "request", e.sp)
        for v in [x for y in F.returns for x in F.origins(F.returns[y]) if F.ctx_of_id[y[0]].parent is None]:
            self.answered(F, v, ts)

    def answered(self, F, v, ts):
        if v in ts or E.failure(v):
            return
        p = E.some(v)
        if p is None and v.k == "pay" and v.a[0] in ts:
            return
        ok = False
        if p is not None:
            ok = True
            for x in F.origins(q.strip(p)):
                if x.k == "pay" and x.a[0] in ts:
                    continue
                if x.k == "agg" and len(x.a) == 5:
                    end = x.a[3].k == "c" and x.a[3].a[0] == 1 and zero(x.a[4])
                    ok = ok and (D.tuple_field(F, x.a[3], 0, ts) and D.tuple_field(F, x.a[4], 1, ts) or end and bool(list(F.calls(r"SegmentStream.*::fill_segment_buf$"))))
                else:
                    ok = False
        self.ob("answer", ok, "it announces %s, not what the buffer has" % show(v, 5), self.fs["fill_buf"])

    def forwarding(self, F, Cn, src):
        arg = self.amount(Cn)
        self.once(Cn, CONSUME, "consume", lambda e: self.source(Cn, e.vals[0]) == src and q.strip(e.vals[1]) is arg, "what is consumed is not consumed from the source")
        if self.clip(F, Cn):
            return
        fs = [e for e in F.calls(FILL) if e.kind == "call"]
        if not self.ob("fill", bool(fs), "the source is not filled", self.fs["fill_buf"]):
            return
        ts = {e.term for e in fs if self.source(F, e.vals[0]) == src}
        for e in fs:
            self.ob("fill", e.term in ts, "another source is filled than the one that is handed out", e.sp)
            self.atleast(F, e.vals[1], "the source", "request", e.sp)
        cons = [e for e in F.calls(CONSUME)]
        self.ob("fill-only", not cons, "filling consumes from the source", self.fs["fill_buf"])
        some = False
        for v in [x for y in F.returns for x in F.origins(F.returns[y]) if F.ctx_of_id[y[0]].parent is None]:
            if v in ts:
                some = True
                continue
            if E.failure(v):
                continue
            p = E.some(v)
            for x in F.origins(q.strip(p)) if p is not None else [v]:
                if x.k == "pay" and x.a[0] in ts:
                    some = True
                    continue
                a, b = (x.a[3], x.a[4]) if x.k == "agg" and len(x.a) == 5 else (None, None)
                ok = b is not None and D.tuple_field(F, b, 1, ts)
                self.ob("answer", ok, "it announces %s, not what the source has" % show(x, 5), self.fs["fill_buf"])
                if ok:
                    for y in F.origins(a):
                        e = D.tuple_field(F, y, 0, ts)
                        some = some or e
                        self.ob("end", e or zero(y), "the end is announced (%s) although the source has not ended" % show(y, 4), self.fs["fill_buf"])
        self.ob("ends", some, "the end of the source is never announced", self.fs["fill_buf"])

    # ---- a step that leaves out the head and the tail
    def clip(self, F, Cn):
        ctor = [f for n, f in self.prog.fns.items() if n.startswith(self.ty + "::") and "{closure" not in n and any("ClipperParams" in l["ty"] for l in f.locals[1:f.argc + 1])]
        if len(ctor) != 1:
            return False
        N = Interp(self.prog, ctor[0].path, inline=lambda tg, c: tg.path.startswith(self.ty))
        role = {}
        for r in E.results(N):
            if r.k != "agg":
                return False
            for n, v in zip(r.a[2], r.a[3:]):
                names, t = [], q.strip(v)
                while t.k == "fld":
                    names.append(t.a[1])
                    t = q.strip(t.a[0])
                k = {"clip,0": "skip", "len": "rem", "clip,1": "strip"}.get(",".join(x for x in reversed(names) if x != "*"))
                if k:
                    role[k] = (n,)
        if not self.ob("clip-fields", set(role) == {"skip", "rem", "strip"}, "the numbers of bytes to leave out are not kept: %s" % role, ctor[0].path):
            return True
        inv = {v: k for k, v in role.items()}
        arg = self.amount(Cn)
        # consuming reduces what remains
        for rem, a in ((10, 0), (10, 4), (10, 10), (20 << 20, 9 << 20), (20 << 20, 20 << 20)):
            I = self.interp("consume", lambda t: {"rem": rem, "skip": 0, "strip": 3}.get(inv.get(field_path(t) if t.k == "fld" else None)) if t is not arg else a)
            for n, st in I.final_states.items():
                v = {k: I.case.num(cases.field_at(I, st, p)) for k, p in role.items()}
                self.ob("clip-rest", v["rem"] == rem - a, "%d of %d bytes consumed, and %s remain" % (a, rem, v["rem"]), self.fs["consume"])
                self.ob("clip-kept", v["skip"] == 0 and v["strip"] == 3, "consuming changes what is left out", self.fs["consume"])
        req = mk("arg", self.fs["fill_buf"], 1)
        BIG = (1 << 64) - 1
        for rem in (0, 1, 10, 500, 5 << 20, BIG):
            for strip in (0, 3):
                for r in (1, 7, 400, 3 << 20):
                    for e in (0, 1):
                        need = min(rem, r)
                        for b in sorted({0, 1, strip, strip + 1, strip + need, strip + need + 1, strip + 2 * need, 12, 13, 504, 4 << 20}):
                            self.clip_case(inv, req, 0, rem, strip, r, e, b)
        for k in (1, 5, 9, 5 << 20):
            for e in (0, 1):
                for b in sorted({0, 1, k - 1, k, k + 1, 9, 20, 3 << 20, 9 << 20}):
                    if b or e:
                        self.skip_case(inv, role, req, k, e, b)
        return True

    def clip_leaf(self, inv, vals, req, r):
        def leaf(t):
            if t is req:
                return r
            p = field_path(t) if t.k == "fld" else None
            if p in inv:
                return vals[inv[p]]
            if t.k == "phi" and t in self.I_.phi_in:
                # the loop's copy of the number of bytes to skip
                o = {field_path(x) for x in self.I_.phi_in[t]}
                if any(x in inv and inv[x] == "skip" for x in o):
                    return vals["skip"]
            if t.k == "fld" and t.a[1] in ("0", "1") and q.strip(t.a[0]).k == "pay":
                c = q.strip(t.a[0]).a[0]
                if c.k == "call" and re.search(FILL, c.a[0]):
                    return vals["e"] if t.a[1] == "0" else vals["b"]
            return None
        return leaf

    def clip_run(self, inv, vals, req, r):
        class Late(cases.Case):
            def bind(me, I):
                me.I = self.I_ = I
        c = Late(self.clip_leaf(inv, vals, req, r))
        I = Interp(self.prog, self.fs["fill_buf"], assume=c, inline=OPAQUE)
        c.I = self.I_ = I
        I.case = c
        self.R.count("cases")
        return I

    def clip_case(self, inv, req, skip, rem, strip, r, e, b):
        sp = self.fs["fill_buf"]
        I = self.clip_run(inv, dict(skip=skip, rem=rem, strip=strip, e=e, b=b), req, r)
        fs = [x for x in I.calls(FILL) if x.kind == "call"]
        for x in fs:
            k = I.case.num(x.vals[1])
            want = min(rem, r) + strip
            self.ob("clip-request", k is not None and k >= want, "with %d bytes left, asked for %d and keeping back %d, it asks for %s" % (rem, r, strip, k), x.sp)
            if k is None or not e and b < k:
                return                  # the source gives as much as it is asked for, unless it ends
        self.ob("clip-consume", not [x for x in I.calls(CONSUME)], "something is skipped although nothing is to be", sp)
        n = min(rem, max(b - strip, 0))
        end = int(e or n == rem)
        for v in ok_values(I):
            for x in I.origins(v):
                a = (I.case.num(x.a[3]), I.case.num(x.a[4])) if x.k == "agg" and len(x.a) == 5 else (None, None)
                self.ob("clip-answer", a == (end, n), "of %d bytes (end: %d) with %d left and %d kept back it announces %s (end: %s)" % (b, e, rem, strip, a[1], a[0]), sp)

    def skip_case(self, inv, role, req, k, e, b):
        sp = self.fs["fill_buf"]
        I = self.clip_run(inv, dict(skip=k, rem=1 << 30, strip=0, e=e, b=b), req, 7)
        cs = [x for x in I.calls(CONSUME) if x.kind == "call"]
        if not self.ob("skip", bool(cs), "the bytes at the start are not skipped", sp):
            return
        for x in cs:
            n = I.case.num(x.vals[1])
            self.ob("skip-consume", n == min(k, b), "with %d bytes to skip it skips %s of %d" % (k, n, b), x.sp)
        for n, ws in I.stores.items():
            for root, path, v, s in ws:
                t = D.place_term(root, path)
                if t is not None and field_path(t) == role["skip"]:
                    self.ob("skip-left", I.case.num(v) == k - min(k, b), "%d of %d bytes skipped, and %s are left" % (min(k, b), k, I.case.num(v)), s)
        # nothing is announced before everything is skipped
        for v in ok_values(I):
            for x in I.origins(v):
                a = (I.case.num(x.a[3]), I.case.num(x.a[4])) if x.k == "agg" and len(x.a) == 5 else (None, None)
                self.ob("skip-answer", a == (1, 0) and e and b <= k, "%s bytes are announced before all of the start is skipped" % a[1], sp)

    # ---- bytes made up by the step itself
    def own(self):
        """bytes of one value, as many as it was told to make"""
        sp = self.fs["as_slice"]
        S = Interp(self.prog, self.fs["as_slice"], inline=lambda t, c: True)
        shown = set()
        for r in [x for v in tops(S) for x in choices(S, v)]:
            s = q.slice_of(r)
            if s is None or s[1] is not None and not zero(s[1]):
                shown.add(None)
                continue
            fs = {field_path(x) for x in parts(S, s[2]) if x.k == "fld" and field_path(x)} if s[2] is not None else set()
            shown.add((field_path(q.strip(s[0])), fs.pop() if len(fs) == 1 else None))
        s = shown.pop() if len(shown) == 1 else None
        if not self.ob("own-slice", s is not None and None not in s, "what it hands out is not recognised", sp):
            return
        buf, nxt = s
        C_ = Interp(self.prog, self.fs["consume"], inline=lambda t, c: True)
        arg = self.amount(C_)
        off = set()
        for n, ws in C_.stores.items():
            for root, path, v, sp2 in ws:
                t = D.place_term(root, path)
                pl = D.plus(v) if t is not None else None
                if pl and q.strip(pl[1]) is arg and field_path(q.strip(pl[0])) == field_path(t):
                    off.add(field_path(t))
        ints = {(n,) for v in self.prog.adts[self.ty]["vars"] for n, t in v["f"] if t == "usize"}
        if not self.ob("own-fields", len(off) == 1 and len(ints - off - {nxt}) == 1, "how many bytes are made, and how many were consumed, is not recognised", sp):
            return
        off = off.pop()
        tot = (ints - {off, nxt}).pop()
        fill = [(n,) for v in self.prog.adts[self.ty]["vars"] for n, t in v["f"] if t == "u8"]
        B = 2 << 20
        req = mk("arg", self.fs["fill_buf"], 1)
        for t, o, n in ((0, 0, 0), (9, 0, 9), (9, 4, 5), (9, 4, 2), (9, 9, 0), (5 * B, 0, B), (5 * B, B, B), (5 * B, 4 * B + 7, B - 7), (5 * B, 0, 3)):
            for r in sorted({1, 2, max(t - o - 1, 1), max(t - o, 1), t - o + 1, 400, 3 * B, 9 * B}):
                I = cases.run(self.prog, self.fs["fill_buf"], lambda x: r if x is req else {tot: t, off: o, nxt: n}.get(field_path(x) if x.k == "fld" else None), lambda x: n + 256 if field_path(x) == buf else None, inline=lambda a, c: True)
                self.R.count("cases")
                for st in I.final_states.values():
                    n2 = I.case.num(cases.field_at(I, st, nxt))
                    for v in ok_values(I):
                        for x in I.origins(v):
                            e, k = (I.case.num(x.a[3]), I.case.num(x.a[4])) if x.k == "agg" and len(x.a) == 5 else (None, None)
                            if not self.ob("own-known", None not in (e, k, n2), "what is announced cannot be told", sp):
                                continue
                            self.ob("own-request", min(r, t - o) <= k <= t - o, "asked for %d bytes with %d of %d left it announces %d" % (r, t - o, t, k), self.fs["fill_buf"])
                            self.ob("own-end", e == int(k == t - o), "with %d of %d bytes announced it says (end: %d)" % (k, t - o, e), self.fs["fill_buf"])
                            self.ob("own-shown", n2 == k, "%d bytes are announced, and %d handed out" % (k, n2), self.fs["fill_buf"])
                            b = cases.field_at(I, st, buf)
                            L = I.case.length(b)
                            self.ob("own-room", L is not None and L >= k, "%d bytes are announced, there are %s" % (k, L), self.fs["fill_buf"])
                    es = [e for e in I.calls() if e.name and last(e.name) == "resize" and e.vals]
                    for e in es:
                        self.ob("own-value", field_path(q.strip(e.vals[2])) in fill, "other bytes than the given one are made", e.sp)
            for a in sorted({0, 1, n // 2, n}):
                if a > n:
                    continue
                I = cases.run(self.prog, self.fs["consume"], lambda x: a if x is arg else {tot: t, off: o, nxt: n}.get(field_path(x) if x.k == "fld" else None), None, inline=lambda a, c: True)
                self.R.count("cases")
                for st in I.final_states.values():
                    o2, n2, t2 = (I.case.num(cases.field_at(I, st, k)) for k in (off, nxt, tot))
                    if self.ob("own-consume-known", None not in (o2, n2, t2), "what is kept after consuming cannot be told", self.fs["consume"]):
                        self.ob("own-consume", t2 - o2 == t - o - a and 0 <= n2 <= t2 - o2, "%d of %d bytes consumed, %d are left and %d handed out next" % (a, t - o, t2 - o2, n2), self.fs["consume"])
        N = [f for x, f in self.prog.fns.items() if x == self.ty + "::new"]
        for g in N:
            I = Interp(self.prog, g.path, inline=lambda t, c: True)
            for v in E.results(I):
                d = dict(zip(v.a[2], v.a[3:])) if v.k == "agg" else {}
                n1 = d.get(tot[0])
                self.ob("own-new", n1 is not None and n1.k == "arg" and zero(d.get(off[0], n1)), "it starts with %s of %s bytes" % (show(d[off[0]], 3) if off[0] in d else "?", show(n1, 3) if n1 is not None else "?"), g.path)
                u = [x for x in d.values() if q.strip(x).k == "arg" and q.strip(x) is not n1]
                for e in I.calls(r"resize$|from_elem$"):
                    self.ob("own-value", any(q.strip(e.vals[-1 if last(e.name) == "resize" else 0]) is x for x in u), "other bytes than the given one are made", e.sp)


class Spare:
    """what appends to a buffer through a piece of its spare room: the function gets the room right behind the valid bytes, as much as
    was asked for, and as many bytes become valid as it says it wrote"""

    def __init__(self, prog, R):
        self.prog, self.R = prog, R

    def ob(self, k, ok, msg, sp):
        return self.R.ob("spare:" + k, ok, "appending through spare room: " + msg, sp)

    def run(self):
        fs = [n for n, f in self.prog.fns.items() if re.search(r"FillUninit>::\w+$", n) and "::tests" not in n]
        ws = [n for n in self.prog.fns if re.search(r"FillUninit::\w+$", n)]
        self.ob("found", bool(fs), "the function is not found", "src/filluninit.rs")
        for f in fs:
            self.base(f)
        for f in ws:
            I = Interp(self.prog, f, inline=lambda t, c: True)
            for e in I.calls(r"FillUninit"):
                if e.kind != "call":
                    continue
                ok = q.strip(e.vals[0]) is mk("arg", f, 0) and q.strip(e.vals[1]) is mk("arg", f, 1)
                self.ob("wrapper", ok, "it asks for %s" % show(e.vals[1], 4), e.sp)
                for v in tops(I):
                    for x in E.expand(I, v):
                        c = [y for y in parts(I, x) if y is e.term]
                        self.ob("wrapper-answer", bool(c), "it answers %s" % show(x, 5), e.sp)

    def base(self, f):
        me, n = mk("arg", f, 0), mk("arg", f, 1)

        def leaf(k, cap):
            def g(t):
                if t is n:
                    return k
                if t.k == "call" and last(t.a[0]) == "capacity":
                    return cap
                if t.k == "call" and last(t.a[0]) == "size_of":
                    return 8
                if t.k == "call" and last(t.a[0]) == "leading_zeros":
                    v = c.num(t.a[2])
                    return None if v is None else 64 - v.bit_length()
                return None
            return g
        for l in (0, 1, 100, 255, 256, 4000, 1 << 20):
            for k in (1, 64, 255, 256, 257, 2 << 20):
                for cap in sorted({l, l + k - 1, l + k, l + k + 1, 3 * (l + k)}):
                    c = cases.Case(None, lambda t: l if q.strip(t) is me else None)
                    c.leaf_fn = leaf(k, cap)
                    I = Interp(self.prog, f, assume=c, inline=lambda t, c: True)
                    c.I = I
                    self.R.count("cases")
                    rs = [e for e in I.calls() if e.name and last(e.name) in ("reserve", "reserve_exact") and q.strip(base(I, e.vals[0])) is me]
                    more = [c.num(e.vals[1]) for e in rs]
                    room = cap if not rs else None if None in more else max([cap - l] + more) + l
                    self.ob("room", room is not None and room - l >= k, "with room for %d of %d bytes there is room for %s when %d are to be appended" % (cap - l, cap, room, k), f)
                    call = [e for e in I.calls() if e.name and last(e.name) in ("call_mut", "call_once", "call")]
                    if not self.ob("call", len(call) == 1, "the function is called %d times" % len(call), f):
                        continue
                    v = call[0].vals[-1]
                    v = v.a[3] if v.k == "agg" and len(v.a) > 3 else v
                    sl = q.slice_of(v)
                    sb = q.strip(sl[0]) if sl else None
                    while sb is not None and sb.k == "cast":
                        sb = q.strip(sb.a[2])
                    ok = sb is not None and sb.k == "call" and last(sb.a[0]) in ("spare_capacity_mut",) and (sl[1] is None or zero(sl[1])) and sl[2] is not None and c.num(sl[2]) == k
                    self.ob("piece", ok, "%d bytes of room are asked for, and it gives %s" % (k, show(v, 5)), call[0].sp)
                    st = [e for e in I.calls() if e.name and last(e.name) == "set_len"]
                    t = call[0].term
                    said = {mk("fld", mk("pay", t), "1")}
                    for e in st:
                        for w in (0, 1, k):
                            c.leaf_fn = (lambda g: lambda x: w if x in said else g(x))(leaf(k, cap))
                            ins = {c.num(x) for x in with_phi(I, e.vals[1])}
                            self.ob("valid", ins and ins <= {l, l + w} and l + w in ins, "%d bytes were written behind %d, and %s become valid" % (w, l, sorted(ins, key=str)), e.sp)
                    seen = q.reach(I, [call[0].node], q.is_err_of(t), avoid=[e.node for e in st])
                    self.ob("kept", bool(st) and not any(x in seen for x in ends(I)), "what was written does not become valid", f)
                    for v in tops(I):
                        self.ob("answer", all(x is t or x.k in ("agg", "pay") and t in parts(I, x) for x in choices(I, v)), "it answers %s" % show(v, 5), f)


def with_phi(I, t):
    """a sum once per choice of its summands"""
    t = q.strip(t)
    if t.k == "phi":
        return [y for x in I.phi_in.get(t, ()) for y in with_phi(I, x)]
    if t.k == "op":
        return [mk("op", t.a[0], x, y) for x in with_phi(I, t.a[1]) for y in with_phi(I, t.a[2])]
    if t.k == "fld" and t.a[0].k == "op":
        return with_phi(I, t.a[0])
    return [t]


class Kept:
    """the step that keeps a copy of everything that passes, and the step that reads the copy; every step that reads a file"""

    def __init__(self, prog, R):
        self.prog, self.R = prog, R

    def ob(self, k, ok, msg, sp):
        return self.R.ob("kept:" + k, ok, msg, sp)

    def run(self):
        n = 0
        for ty, fs in sorted(steps(self.prog).items()):
            Cn = Interp(self.prog, fs["consume"], inline=OPAQUE)
            if any(e.name and last(e.name) in ("write_all", "write") for e in Cn.calls()):
                n += 1
                self.copies(ty, fs, Cn)
            self.reads(ty, fs)
        self.ob("found", n >= 1, "no step keeps a copy for --patch-back", "src/byte")
        for name, f in self.prog.fns.items():
            if name == BUF + "::clear_eof":
                I = Interp(self.prog, name, inline=lambda t, c: True)
                st = [(field_path(D.place_term(r, p)), v) for ws in I.stores.values() for r, p, v, sp in ws if D.place_term(r, p) is not None]
                b = Buffer(self.prog, self.R).roles()
                self.ob("again", b is not None and st == [(b["eof"], C(0, "bool"))], "to go on reading it stores %s" % [(p, show(v, 3)) for p, v in st], name)

    def copies(self, ty, fs, Cn):
        arg = mk("arg", fs["consume"], 1)
        src = [e for e in Cn.calls(CONSUME) if e.kind == "call"]
        ws = [e for e in Cn.calls() if e.kind == "call" and e.name and last(e.name) == "write_all"]
        self.ob("all", bool(ws), "what is written to the copy may be written in part", fs["consume"])
        for e in ws:
            sl = q.slice_of(q.strip(e.vals[1]))
            b = q.strip(sl[0]) if sl else None
            c = cases.Case(lambda t: 7 if t is arg else None)
            c.I = Cn
            ok = b is not None and b.k == "call" and re.search(SLICE, b.a[0]) and (sl[1] is None or zero(sl[1])) and sl[2] is not None and q.strip(sl[2]) is arg
            same = ok and src and field_path(base(Cn, b.a[2])) == field_path(base(Cn, src[0].vals[0]))
            self.ob("bytes", bool(same), "the copy gets %s, not the bytes that are consumed" % show(e.vals[1], 5), e.sp)
            sk = [x for x in Cn.calls() if x.name and last(x.name) == "seek" and x.kind == "call"]
            end = [x for x in sk if q.strip(x.vals[1]).k == "agg" and q.strip(x.vals[1]).a[1] == "End" and zero(q.strip(x.vals[1]).a[3])]
            seen = q.from_start(Cn, None, avoid=[x.node for x in end])
            self.ob("at-end", bool(end) and e.node not in seen, "the copy is not written at its end", e.sp)
        for e in src:
            cut = lambda a, b, l: any(q.is_err_of(x.term)(a, b, l) for x in Cn.calls() if x.name and last(x.name) == "seek")
            seen = q.from_start(Cn, cut, avoid=[x.node for x in ws])
            self.ob("before", e.node not in seen, "bytes are consumed that are not written to the copy", e.sp)
            seen = q.reach(Cn, [e.node])
            self.ob("order", not any(x.node in seen for x in ws), "the bytes are taken from the source before they are written to the copy", e.sp)
        # the reader is told
        flags = {}
        for n, xs in Cn.stores.items():
            for root, path, v, sp in xs:
                if path and path[-1][0] == "f" and v.k == "c" and v.a[0] == 1:
                    flags.setdefault(path[-1][1], []).append(n)
        readers = [x for x in self.prog.fns if IMPL.match(x) and x.endswith("::fill_buf")]
        told = None
        for r in readers:
            I = Interp(self.prog, r, inline=OPAQUE)
            ce = [e for e in I.calls(r"StreamBuf::clear_eof$")]
            if not ce:
                continue
            for nm in flags:
                seen = {}
                for v in (0, 1):
                    leaf = lambda t: v if t.k == "fld" and t.a[1] == nm else None
                    J = cases.run(self.prog, r, leaf, None, inline=OPAQUE)
                    ces, fl = [e for e in J.calls(r"StreamBuf::clear_eof$")], [e for e in J.calls(r"StreamBuf::fill_buf$")]
                    free = q.from_start(J, None, avoid=[e.node for e in ces])
                    seen[v] = all(e.node not in free for e in fl) and bool(fl)
                if seen[1]:
                    told = nm
                    self.ob("told", True, "", r)
        if self.ob("flag", told is not None, "nobody tells the reader of the copy to go on after it has reached its end", fs["consume"]):
            seen = q.from_start(Cn, None, avoid=flags[told])
            self.ob("tells", not any(x in seen for x in Cn.returns if Cn.ctx_of_id[x[0]].parent is None), "the reader of the copy is not told on one way", fs["consume"])
        # what is left when it is dropped
        ds = [x for x in self.prog.fns if x == "<%s as std::ops::Drop>::drop" % ty]
        if not self.ob("rest", len(ds) == 1, "what is not consumed does not get into the copy", fs["consume"]):
            return
        for e, b in ((0, 5), (1, 5), (0, 1 << 30), (1, 0)):
            def leaf(t):
                if t.k == "fld" and t.a[1] in ("0", "1") and q.strip(t.a[0]).k == "pay":
                    x = q.strip(t.a[0]).a[0]
                    if x.k == "call" and re.search(r"fill_buf$", x.a[0]):
                        return e if t.a[1] == "0" else b
                return None
            I = cases.run(self.prog, ds[0], leaf, None, inline=OPAQUE)
            self.R.count("cases")
            fl = [x for x in I.calls(r"fill_buf$") if x.kind == "call"]
            if not self.ob("rest", bool(fl), "what is not consumed does not get into the copy", ds[0]):
                return
            cut = lambda a, b_, l: any(q.is_err_of(x.term)(a, b_, l) for x in fl)
            seen = q.from_start(I, cut)
            out = any(x in seen for x in ends(I))
            self.ob("rest-end", out == (b == 0), "with %d bytes left (end: %d) it %s" % (b, e, "stops" if out else "goes on"), ds[0])
            cs = [x for x in I.calls(r"consume$") if x.kind == "call"]
            if b:
                self.ob("rest-all", bool(cs) and all(I.case.num(x.vals[1]) == b and q.strip(x.vals[0]) is mk("arg", ds[0], 0) for x in cs), "of %d bytes left %s get into the copy" % (b, [I.case.num(x.vals[1]) for x in cs]), ds[0])
                again = q.reach(I, [x.node for x in fl], cut, avoid=[x.node for x in cs])
                self.ob("rest-loop", not any(x.node in again for x in fl), "what is left is skipped on one way", ds[0])

    def reads(self, ty, fs):
        F = Interp(self.prog, fs["fill_buf"], inline=OPAQUE)
        for e in F.calls(r"StreamBuf::fill_buf$"):
            for v in e.vals:
                for c in F.origins(v):
                    g = self.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                    if g is not None:
                        self.reader(ty, g, c)

    def reader(self, ty, g, clo):
        at = 40
        for k in (0, 1, 7, 2 << 20):
            box = {}

            def leaf(t):
                if t.k == "pay" and t.a[0].k == "call" and re.search(r"FillUninit|Read::read$|Read>::read$", t.a[0].a[0]):
                    return k
                p = field_path(t) if t.k == "fld" else None
                if p and len(p) == 1 and t in box.get("pos", ()):
                    return at
                return None
            me = mk("addr", clo) if g.locals[1]["ty"].startswith("&") else clo
            J = Interp(self.prog, g.path, args={0: me}, inline=OPAQUE)
            rd = [e for e in J.calls(r"FillUninit.*::fill_uninit$") if e.kind == "call" and self.is_read(J, e)]
            if not rd:
                return
            sk = [e for e in J.calls() if e.name and last(e.name) == "seek" and e.kind == "call"]
            name = ty.split("::")[-1]
            pos = set()
            for e in sk:
                w = q.strip(e.vals[1])
                t = q.strip(w.a[3]) if w.k == "agg" and w.a[1] == "Start" else None
                while t is not None and t.k == "cast":
                    t = q.strip(t.a[2])
                if self.ob("read-at:" + name, t is not None and field_path(t) is not None, "%s reads at %s" % (name, show(w, 4)), e.sp):
                    pos.add(t)
            box["pos"] = pos
            J = cases.run(self.prog, g.path, leaf, None, args={0: me}, inline=OPAQUE)
            self.R.count("cases")
            rd = [e for e in J.calls(r"FillUninit.*::fill_uninit$") if e.kind == "call"]
            for e in rd:
                self.ob("read-into:" + name, q.strip(base(J, e.vals[0])) is mk("arg", g.path, 2), "%s does not read into the buffer" % name, e.sp)
            said = {J.case.num(E.some(v)) for y in tops(J) for v in E.expand(J, y) if E.some(v) is not None}
            self.ob("read-end:" + name, said == {int(k == 0)}, "%s reads %d bytes and says (end: %s)" % (name, k, sorted(said, key=str)), g.path)
            if pos:
                p = {field_path(t) for t in pos}
                st = [(n, v) for n, ws in J.stores.items() for r, pa, v, sp in ws if r[0] == "V" and not pa and field_path(r[1]) in p]
                vals = {J.case.num(v) for n, v in st}
                self.ob("read-next:" + name, vals == {at + k}, "%s has read %d bytes from %d and goes on at %s" % (name, k, at, sorted(vals, key=str)), g.path)
                cut = lambda a, b_, l: any(q.is_err_of(x.term)(a, b_, l) for x in rd + [x for x in J.calls() if x.name and last(x.name) == "seek"])
                seen = q.from_start(J, cut, avoid=[n for n, v in st])
                self.ob("read-moves:" + name, not any(x in seen for x in ends(J)), "%s reads the same again" % name, g.path)
                sk = [x for x in J.calls() if x.name and last(x.name) == "seek" and x.kind == "call"]
                seen = q.from_start(J, None, avoid=[x.node for x in sk])
                self.ob("read-seek:" + name, not any(x.node in seen for x in rd), "%s reads without moving to its position" % name, g.path)

    def is_read(self, J, e):
        for v in e.vals:
            for c in J.origins(v):
                g = self.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                if g is not None:
                    for b in g.blocks:
                        t = b.get("t", b) if isinstance(b, dict) else b
                        if "Read" in str(t) and "read" in str(t):
                            return True
        return False


class Concat:
    def __init__(self, step, F, Cn, S, outs):
        self.s, self.F, self.Cn, self.S = step, F, Cn, S
        self.R, self.prog = step.R, step.prog
        self.buf = [p for k, p in outs if k == "buf"][0]
        self.src = [p for k, p in outs if k == "src"][0]
        self.ob = step.ob

    def run(self):
        s = self.s
        if not self.ob("source", self.src is not None and self.src[1] is not None and field_path(self.src[1]) is not None, "the current source is not recognised", s.fs["as_slice"]):
            return
        self.list, self.ip = self.src[0], field_path(self.src[1])
        st = {}
        for n, ws in self.F.stores.items():
            for root, path, v, sp in ws:
                t = D.place_term(root, path)
                p = field_path(t) if t is not None else None
                if p and p != self.ip and p != self.buf:
                    st.setdefault(p, []).append(v)
        fills = {e.term for e in self.F.calls(FILL)}
        d = [p for p, vs in st.items() if any(D.tuple_field(self.F, v, 1, fills) for v in vs)]
        if not self.ob("copied", len(d) == 1, "how much of the source is in the cache is not remembered", s.fs["fill_buf"]):
            return
        self.dup = d[0]
        self.slices()
        self.fill()
        self.consume()

    def case(self, which, i, n, c, d, arg, b=0, e=0):
        s = self.s
        a = mk("arg", s.fs[which], 1)
        box = {}

        def leaf(t):
            if t is a:
                return arg
            p = field_path(t) if t.k == "fld" else None
            if p == self.ip:
                return i
            if p == self.dup:
                return d
            if t.k == "call" and last(t.a[0]) == "len" and len(t.a) == 3 and "StreamBuf" in t.a[0]:
                return self.cached(box.get("I"), t.a[2], c)
            if t.k == "call" and last(t.a[0]) == "is_empty" and "StreamBuf" in t.a[0]:
                v = self.cached(box.get("I"), t.a[2], c)
                return None if v is None else int(v == 0)
            if t.k == "fld" and t.a[1] in ("0", "1") and q.strip(t.a[0]).k == "pay":
                x = q.strip(t.a[0]).a[0]
                if x.k == "call" and re.search(FILL, x.a[0]) and "StreamBuf" not in x.a[0]:
                    return e if t.a[1] == "0" else b
            return None

        def ln(t):
            t = q.strip(t)
            if t.k == "call" and last(t.a[0]) == "as_slice":
                return None
            p = s.source(box.get("I"), t) if box.get("I") is not None else None
            if p is not None and p == (self.list, None):
                return n
            return None

        class Late(cases.Case):
            def bind(me, I):
                me.I = box["I"] = I
        k = Late(leaf, ln)
        I = Interp(self.prog, s.fs[which], assume=k, inline=OPAQUE)
        k.I = box["I"] = I
        I.case = k
        self.R.count("cases")
        return I

    def cached(self, I, t, c):
        """length of the cache"""
        t = q.strip(t)
        for _ in range(20):
            if t.k == "eff" and I is not None:
                l = last(t.a[0])
                es = I.case.site(t.a[1]) if hasattr(I, "case") else [e for m, e in list(I.events.items()) if I.site_ids.get(m[:2]) == t.a[1]]
                if l == "consume" and len(es) == 1:
                    k = (I.case if hasattr(I, "case") else I.assume_fn).num(es[0].vals[1])
                    v = self.cached(I, t.a[3], c)
                    return None if k is None or v is None else v - k
                return None
            return c if field_path(t) == self.buf else None
        return None

    B = 1 << 20
    STATES = [(i, n, c, d) for n in (1, 3) for i in (0, n - 1, n) for c, d in ((0, 0), (5, 0), (5, 2), (5, 5), (1, 1), (5 << 20, 3 << 20)) if not (i == n and d)]

    def slices(self):
        sp = self.s.fs["as_slice"]
        for i, n, c, d in self.STATES:
            I = self.case("as_slice", i, n, c, d, 0)
            o = self.s.outs(I)
            want = "src" if c == 0 and i < n else "buf"
            if c == 0 and i >= n:
                continue
            self.ob("slice", {k for k, x in o} == {want}, "with %d bytes in the cache it hands out the %s" % (c, "cache" if want == "src" else "source"), sp)

    def fill(self):
        sp = self.s.fs["fill_buf"]
        for i, n, c, d in self.STATES:
            B = self.B
            for r in (1, 4, 5, 6, 30) if c < B else (1, 5 * B, 7 * B):
                if i >= n:
                    I = self.case("fill_buf", i, n, c, d, r)
                    fs = [x for x in I.calls(FILL)]
                    self.ob("after-last", not fs, "a source behind the last one is read", sp)
                    for v in ok_values(I):
                        for x in I.origins(v):
                            a = (I.case.num(x.a[3]), I.case.num(x.a[4])) if x.k == "agg" and len(x.a) == 5 else (None, None)
                            self.ob("after-last-answer", a == (1, c), "after the last source %s bytes are announced (end: %s), there are %d" % (a[1], a[0], c), sp)
                    continue
                for e in (0, 1):
                    for b in sorted({d, d + 1, r, r + 3, 40 if c < B else 9 * B}):
                        if b >= d:
                            self.fill_case(i, n, c, d, r, e, b)

    def fill_case(self, i, n, c, d, r, e, b):
        sp = self.s.fs["fill_buf"]
        I = self.case("fill_buf", i, n, c, d, r, b, e)
        fs = [x for x in I.calls(FILL) if x.kind == "call" and "StreamBuf" not in x.name]
        if not self.ob("read", bool(fs), "the current source is not read", sp):
            return
        for x in fs:
            src = self.s.source(I, x.vals[0])
            self.ob("read-which", src is not None and src[0] == self.list and I.case.num(src[1]) == i, "it reads source %s, the current one is %d" % (src and show(src[1], 3), i), x.sp)
            k = I.case.num(x.vals[1])
            ok = k is not None and k >= r - (c - d) and k >= d + 1
            self.ob("read-request", ok, "asked for %d bytes, with %d in the cache (%d of them still in the source), it asks the source for %s" % (r, c, d, k), x.sp)
            if not ok or not e and b < k:
                return
        direct = False
        cached = [x for x in I.calls(r"StreamBuf::fill_buf$")]
        ext = [x for x in I.calls(r"StreamBuf::extend_from_slice$")]
        for v in [x for y in I.returns for x in I.origins(I.returns[y]) if I.ctx_of_id[y[0]].parent is None]:
            if E.failure(v) or any(v is x.term for x in cached) or v.k == "pay" and any(v.a[0] is x.term for x in cached):
                continue
            p = E.some(v)
            for x in I.origins(q.strip(p)) if p is not None else [v]:
                if x.k == "pay" and any(x.a[0] is y.term for y in cached):
                    continue
                if x.k == "pay" and any(x.a[0] is y.term for y in fs):
                    a = (e, b)
                else:
                    a = (I.case.num(x.a[3]), I.case.num(x.a[4])) if x.k == "agg" and len(x.a) == 5 else (None, None)
                direct = True
                self.ob("direct", c == 0 and a[1] == b and not a[0], "with %d bytes in the cache and %d (end: %d) in the source it announces %s (end: %s)" % (c, b, e, a[1], a[0]), sp)
                self.ob("direct-end", not e, "the source has ended and is not left", sp)
        if direct:
            self.ob("direct-only", not cached and not ext, "the cache is filled, and the source handed out", sp)
        else:
            self.ob("cache", bool(cached), "nothing is announced", sp)
            self.ob("cache-copy", len(ext) == 1, "the bytes of the source are copied %d times" % len(ext), sp)
            for x in ext:
                sl = q.slice_of(x.vals[1])
                sb = q.strip(sl[0]) if sl else None
                lo = (I.case.num(sl[1]) if sl[1] is not None else 0) if sl else None
                hi = (I.case.num(sl[2]) if sl[2] is not None else None) if sl else None
                ok = sb is not None and sb.k == "call" and re.search(SLICE, sb.a[0]) and (lambda q_: q_ is not None and q_[0] == self.list and I.case.num(q_[1]) == i)(self.s.source(I, sb.a[2]))
                self.ob("cache-source", bool(ok), "what is copied to the cache is %s" % show(x.vals[1], 4), x.sp)
                self.ob("cache-range", (lo, hi) == (d, b), "with %d of %d bytes in the cache it copies %s..%s" % (d, b, lo, hi), x.sp)
            for x in cached:
                k = I.case.num(x.vals[1])
                self.ob("cache-request", k is not None and k >= r, "asked for %d bytes it asks the cache for %s" % (r, k), x.sp)
                self.ob("cache-after", x.node not in q.from_start(I, None, avoid=[y.node for y in ext]), "the cache is filled before the bytes of the source are copied", x.sp)
                if (i, c, d, r) == (0, 5, 2, 30) and not e and b == 40:
                    self.more(I, x)
        for m, st in I.final_states.items():
            if len(m) > 2 and m[2] and str(m[2][0]).startswith("v:Err"):
                continue
            if direct:
                v = I.case.num(cases.field_at(I, st, self.dup))
                self.ob("direct-dup", v == 0, "%s bytes are taken to be in the cache" % v, sp)
        if not direct:
            for x in cached:
                v = [w for root, w in closure_values(I, x) if field_path(root) == self.dup]
                st = [vv for n_, ws in I.stores.items() for root, path, vv, s_ in ws if D.place_term(root, path) is not None and field_path(D.place_term(root, path)) == self.dup]
                self.ob("cache-dup", any(I.case.num(y) == b for y in st), "after %d bytes were copied, %s are remembered" % (b, [I.case.num(y) for y in st]), sp)

    def more(self, I, call):
        """the function that continues with the next source"""
        clo = None
        for v in call.vals:
            for c in I.origins(v):
                if c.k == "agg" and c.a[0].startswith("closure:"):
                    clo = c
        g = self.prog.fns.get(clo.a[0][8:]) if clo is not None else None
        if not self.ob("next", g is not None, "how the next source is read cannot be followed", call.sp):
            return
        pf = [e.term for e in I.calls(FILL) if "StreamBuf" not in e.name]
        dup0 = {mk("fld", mk("pay", t), "1") for t in pf}
        eof0 = {mk("fld", mk("pay", t), "0") for t in pf}
        for n in (1, 3):
            for i in sorted({0, n - 1}):
                for e in (0, 1):
                    for d in (0, 4):
                        for b2, e2 in ((0, 1), (6, 0), (6, 1)):
                            self.next_case(I, g, clo, dup0, eof0, n, i, e, d, b2, e2)

    def next_case(self, O, g, clo, dup0, eof0, n, i, e, d, b2, e2):
        box = {}
        s = self.s

        def leaf(t):
            if t in dup0:
                return d
            if t in eof0:
                return e
            p = field_path(t) if t.k == "fld" else None
            if p == self.ip:
                return i
            if p == self.dup:
                return d
            if t.k == "fld" and t.a[1] in ("0", "1") and q.strip(t.a[0]).k == "pay":
                x = q.strip(t.a[0]).a[0]
                if x.k == "call" and re.search(FILL, x.a[0]):
                    return e2 if t.a[1] == "0" else b2
            if t.k == "arg" and t.a[1] == 1:
                return 9
            return None

        def ln(t):
            t = q.strip(t)
            if t.k == "call":
                return None
            p = s.source(box.get("I"), t)
            return n if p is not None and p == (self.list, None) else None

        class Late(cases.Case):
            def bind(me, I):
                me.I = box["I"] = I
        k = Late(leaf, ln)
        J = Interp(self.prog, g.path, args={0: mk("addr", clo) if g.locals[1]["ty"].startswith("&") else clo}, assume=k, inline=OPAQUE)
        k.I = box["I"] = J
        J.case = k
        self.R.count("cases")
        self.R.graph(J)
        sp = g.path
        cs = [x for x in J.calls(CONSUME) if x.kind == "call"]
        fs = [x for x in J.calls(FILL) if x.kind == "call"]
        at = lambda x: (lambda p: None if p is None or p[1] is None else J.case.num(p[1]))(s.source(J, x.vals[0]))
        if d or cs:
            self.ob("next-consume", len(cs) == 1 and at(cs[0]) == i and J.case.num(cs[0].vals[1]) == d, "%d bytes of source %d are in the cache, and %s of %s are consumed" % (d, i, [J.case.num(x.vals[1]) for x in cs], [at(x) for x in cs]), sp)
        j = i + e
        if j >= n:
            self.ob("next-last", not fs, "a source behind the last one is read", sp)
        else:
            self.ob("next-read", len(fs) == 1 and at(fs[0]) == j, "source %d is to be read, and %s is" % (j, [at(x) for x in fs]), sp)
            if cs and fs:
                self.ob("next-order", fs[0].node not in q.from_start(J, None, avoid=[x.node for x in cs]) or i != j, "more is read before the bytes in the cache are consumed", sp)
        buf = mk("arg", g.path, 2)
        ext = [x for x in J.calls() if x.name and last(x.name) in ("extend_from_slice", "extend", "write_all", "append") and base(J, x.vals[0]) is buf]
        if j >= n:
            self.ob("next-copy", not ext, "something is copied after the last source", sp)
        else:
            for x in ext:
                sl = q.slice_of(x.vals[1])
                sb = q.strip(sl[0]) if sl else None
                lo = (J.case.num(sl[1]) if sl[1] is not None else 0) if sl else None
                hi = (J.case.num(sl[2]) if sl[2] is not None else None) if sl else None
                w = s.source(J, sb.a[2]) if sb is not None and sb.k == "call" and re.search(SLICE, sb.a[0]) else None
                ok = w is not None and w[1] is not None and J.case.num(w[1]) == j and (lo, hi) == (0, b2)
                self.ob("next-copied", ok, "%d bytes were read, and %s..%s are copied" % (b2, lo, hi), x.sp)
            self.ob("next-copy", len(ext) == 1 or not b2, "what was read is copied %d times" % len(ext), sp)
        vals = [J.case.num(E.some(v)) for v in [x for y in tops(J) for x in E.expand(J, y)] if E.some(v) is not None]
        self.ob("next-end", set(vals) == {int(j >= n)}, "after source %d of %d it announces the end: %s" % (i + 1, n, vals), sp)
        # what is remembered afterwards
        fin = {}
        for m, ws in sorted(J.stores.items(), key=lambda x: x[0][1]):
            for root, path, v, sp2 in ws:
                if root[0] == "V" and not path:
                    t = root[1]
                    r = "dup" if t in dup0 or field_path(t) == self.dup else "eof" if t in eof0 else "i" if field_path(t) == self.ip else None
                    if r:
                        fin.setdefault(r, {})[m] = v
        def final(r, start):
            w = fin.get(r, {})
            cut = lambda a, b_, l: any(q.is_err_of(x.term)(a, b_, l) for x in fs)
            vs = set()
            for m, v in w.items():
                rest = q.reach(J, [m], cut, avoid=[x for x in w if x != m])
                if any(x in rest for x in ends(J)):
                    vs.add(J.case.num(v))
            seen = q.from_start(J, cut, avoid=list(w))
            if any(x in seen for x in ends(J)):
                vs.add(start)
            return vs
        self.ob("next-index", final("i", i) == {j}, "after source %d (end: %d) the current source is %s" % (i, e, final("i", i)), sp)
        self.ob("next-dup", final("dup", d) == {b2 if j < n else 0}, "%d bytes were copied, and %s are remembered" % (b2 if j < n else 0, final("dup", d)), sp)
        if j < n:
            self.ob("next-eof", final("eof", e) == {e2}, "whether the source has ended (%d) is remembered as %s" % (e2, final("eof", e)), sp)

    def consume(self):
        sp = self.s.fs["consume"]
        for i, n, c, d in self.STATES:
            if c == 0 and i >= n:
                continue
            for a in range(0, (c if c else 9) + 1) if c < self.B else (0, 1, self.B, 2 * self.B, 3 * self.B, 5 * self.B):
                I = self.case("consume", i, n, c, d, a)
                x = sum_of(I, [e for e in I.calls(r"StreamBuf::consume$")])
                src = [e for e in I.calls(CONSUME) if e.kind == "call" and "StreamBuf" not in e.name]
                y = sum_of(I, src)
                fd = {I.case.num(cases.field_at(I, st, self.dup)) for st in I.final_states.values()}
                if not self.ob("consume-known", x is not None and y is not None and len(fd) == 1 and None not in fd, "what consuming %d bytes does cannot be told" % a, sp):
                    continue
                d2 = fd.pop()
                for e in src:
                    w = self.s.source(I, e.vals[0])
                    self.ob("consume-which", w is not None and w[1] is not None and I.case.num(w[1]) == i, "it consumes from source %s, the current one is %d" % (w and show(w[1], 3), i), e.sp)
                if c == 0:
                    self.ob("consume-direct", y == a and d2 == 0, "%d bytes consumed, and %s from the source" % (a, y), sp)
                    continue
                c2 = c - x
                # what is next: in the cache at its position, or else in the source
                self.ob("consume-next", x == a if c2 > 0 else True, "%d of %d bytes consumed, and %s of the cache" % (a, c, x), sp)
                self.ob("consume-dup", 0 <= d2 <= max(c2, 0) and y == (c2 - d2) + a - (c - d) and y >= 0, "%d of %d bytes consumed (%d of them in the source): the source is moved by %s, and %s are taken to be in the cache" % (a, c, d, y, d2), sp)


def sum_of(I, es):
    s = 0
    for e in es:
        k = I.case.num(e.vals[1])
        if k is None:
            return None
        s += k
    return s


def closure_values(I, e):
    return []


def zero(t):
    t = q.strip(t)
    return t.k == "c" and t.a[0] == 0


def ok_values(I):
    """the values of the successful outcomes"""
    out = []
    for r in E.results(I):
        if E.failure(r):
            continue
        p = E.some(r)
        out.append(p if p is not None else r)
    return out


class Buffer:
    """the buffer behind the steps: bytes buf[pos..len] are handed out, a margin follows them"""

    def __init__(self, prog, R):
        self.prog, self.R = prog, R

    def ob(self, k, ok, msg, sp):
        return self.R.ob("buffer:" + k, ok, "the buffer of a step: " + msg, sp)

    def fn(self, name):
        return "%s::%s" % (BUF, name)

    def roles(self):
        """which field is what"""
        f = {}
        a = self.prog.adts.get(BUF)
        need = [n for n in ("new", "as_slice", "len", "consume", "fill_buf", "extend_from_slice") if self.fn(n) not in self.prog.fns]
        if a is None or need:
            return None
        fields = [(n, t) for v in a["vars"] for n, t in v["f"]]
        J = Interp(self.prog, self.fn("as_slice"), inline=lambda t, c: True)
        for r in E.results(J):
            s = q.slice_of(r)
            if s is None or s[1] is None or field_path(q.strip(s[1])) is None:
                return None
            f["pos"] = field_path(q.strip(s[1]))
            f["buf"] = field_path(q.strip(s[0]))
            self.ob("rest", s[2] is None, "what is handed out ends before the margin", self.fn("as_slice"))
        J = Interp(self.prog, self.fn("len"), inline=lambda t, c: True)
        for r in E.results(J):
            m = D.minus(r)
            if m is None or field_path(m[1]) != f["pos"]:
                self.ob("len", False, "its length is %s" % show(r, 4), self.fn("len"))
                return None
            f["len"] = field_path(m[0])
        N = Interp(self.prog, self.fn("new"), inline=lambda t, c: True)
        for r in E.results(N):
            if r.k != "agg":
                return None
            v = dict(zip(r.a[2], r.a[3:]))
            for n, t in fields:
                if (n,) in f.values():
                    continue
                x = v.get(n)
                if t == "bool":
                    f["eof"] = (n,)
                elif t == "usize" and x is not None and x.k == "c":
                    f[{0: "offset", 1: "align"}.get(x.a[0], "target")] = (n,)
                    if x.a[0] > 1:
                        self.block = x.a[0]
        return f if len(f) == 7 else None

    def run(self):
        f = self.f = self.roles()
        if not self.ob("fields", f is not None, "its fields are not recognised", "src/streambuf.rs"):
            return
        self.fill()
        self.consume()
        self.extend()

    # ---- one case
    def case(self, name, nums, length=None, margin=None):
        f = self.f
        byf = {f[k]: v for k, v in nums.items() if k in f}
        sig = self.prog.fns[self.fn(name)]
        arg = {mk("arg", sig.path, 1): nums.get("arg")}

        def leaf(t):
            p = field_path(t) if t.k == "fld" else None
            if p is not None and p in byf:
                return byf[p]
            if t in arg:
                return arg[t]
            if t.k == "pay" and self.called(t.a[0]):
                return nums.get("feof")
            if t.k == "call" and last(t.a[0]) == "capacity":
                return nums.get("cap", 0)
            return None

        def ln(t):
            if length is not None:
                v = length(t)
                if v is not None:
                    return v
            if field_path(t) == f["buf"]:
                return nums["len"] + margin if margin is not None else None
            return None
        I = cases.run(self.prog, sig.path, leaf, ln, inline=lambda tg, c: True)
        self.R.count("cases")
        return I

    def called(self, t):
        t = q.strip(t)
        return t.k == "call" and last(t.a[0]) in ("call_mut", "call_once", "call")

    def margin(self):
        J = Interp(self.prog, self.fn("new"), inline=lambda t, c: True)
        c = cases.Case(lambda t: None, lambda t: t.a[3].a[0] if t.k == "call" and last(t.a[0]) == "from_elem" and t.a[3].k == "c" else None)
        c.I = J
        for r in E.results(J):
            return c.length(dict(zip(r.a[2], r.a[3:]))[self.f["buf"][0]])

    def fcalls(self, I):
        return [e for e in I.calls() if e.name and last(e.name) in ("call_mut", "call_once", "call") and e.term is not None and self.called(e.term)]

    def fill(self):
        name = "fill_buf"
        M = self.M = self.margin()
        if not self.ob("margin", M is not None and M > 0, "there is no margin behind the bytes at the start", self.fn("new")):
            return
        sp = self.fn(name)
        # after the end: nothing is read, and the rest is announced
        for p, l in ((0, 0), (0, 5), (3, 5), (5, 5)):
            I = self.case(name, dict(pos=p, len=l, offset=40, target=64, align=1, eof=1, arg=7), margin=M)
            self.R.graph(I)
            self.ob("ended", not self.fcalls(I), "the source is read again after it has ended", sp)
            self.answer(I, 1, l - p, "ended-answer", sp)
        # before the end
        for p, l, t, r in ((0, 0, 8, 1), (0, 4, 8, 1), (3, 4, 8, 20), (3, 10, 8, 4), (3, 10, 30, 4), (10, 10, 8, 30)):
            need = max(t, p + r)
            for L in sorted({l, l + 1, p + r - 1, p + r, p + r + 1, t - 1, t, t + 1, need + 9}):
                if L < l:
                    continue
                for eof in (0, 1):
                    for al in ((1, 8, 12) if eof else (1,)):
                        self.fill_case(p, l, t, r, L, eof, al)

    def fill_case(self, p, l, t, r, L, eof, al):
        sp = self.fn("fill_buf")
        M = self.M
        o = 37

        def length(x):
            if x.k == "eff" and last(x.a[0]) in ("call_mut", "call_once", "call"):
                return L
            return None
        I = self.case("fill_buf", dict(pos=p, len=l, offset=o, target=t, align=al, eof=0, arg=r, feof=eof), length, M)
        cs = self.fcalls(I)
        if not self.ob("read", bool(cs), "the source is not read", sp):
            return
        for e in cs:
            # what the source appends to: the bytes there are, without the margin
            v = e.vals[1]
            b = [x for x in (v.a[3:] if v.k == "agg" else e.vals[1:]) if field_path(base(I, x)) == self.f["buf"]]
            if not self.ob("append", len(b) == 1, "the source does not append to the buffer", e.sp):
                continue
            ins = I.phi_in.get(q.strip(b[0]), (q.strip(b[0]),))
            fresh = [x for x in ins if not by_source(x)]
            self.ob("append-at", bool(fresh) and all(I.case.length(x) == l for x in fresh), "the source appends behind %s bytes, not behind the %d that are valid" % ([I.case.length(x) for x in fresh], l), e.sp)
            if eof:
                seen = q.reach(I, [e.node])
                self.ob("read-after-end", not any(x.node in seen for x in cs), "the source is read again after it has ended", e.sp)
        oks = [n for n in I.final_states if n[2] is None or not str(n[2][0]).startswith("v:Err")]
        if not eof and L < max(t, p + r):
            vals = ok_values(I)
            self.ob("request", not vals, "asked for %d bytes with %d in the buffer (%d of them consumed) it answers before the source has ended" % (r, L, p), sp)
            return
        if not eof:
            R = L
        else:
            R = -(-(o + L) // al) * al - o
        self.answer(I, eof, R - p, "answer", sp)
        for n, st in I.final_states.items():
            if n in I.returns and any(E.failure(x) for x in E.expand(I, I.returns[n])):
                continue
            if len(n) > 2 and n[2] and str(n[2][0]).startswith("v:Err"):
                continue
            g = lambda k: I.case.num(cases.field_at(I, st, self.f[k]))
            self.ob("kept-len", g("len") == R, "%s bytes are valid afterwards instead of %d" % (g("len"), R), sp)
            self.ob("kept-pos", g("pos") == p, "the position moves from %d to %s" % (p, g("pos")), sp)
            self.ob("kept-eof", g("eof") == eof, "the end of the source is remembered as %s" % g("eof"), sp)
            self.ob("kept-offset", g("offset") == o, "the offset changes", sp)
            b = cases.field_at(I, st, self.f["buf"])
            self.ob("margin-kept", I.case.length(b) == R + M, "the buffer ends at %s, not behind the margin" % I.case.length(b), sp)
            self.ob("content", intact(I, b), "what was in the buffer is changed by %s" % show(b, 6), sp)

    def answer(self, I, eof, n, key, sp):
        vs = ok_values(I)
        some = False
        for v in vs:
            for x in I.origins(v):
                if x.k == "agg" and len(x.a) == 5:
                    some = True
                    a, b = I.case.num(x.a[3]), I.case.num(x.a[4])
                    self.ob(key, a == eof and b == n, "it announces %s bytes (end: %s) instead of %d (end: %d)" % (b, a, n, eof), sp)
                else:
                    self.ob(key, False, "it announces %s" % show(x, 4), sp)
        self.ob(key + "s", some, "it does not answer", sp)

    # ---- consume
    def consume(self):
        name = "consume"
        sp = self.fn(name)
        M, B = self.M, self.block
        big = 8 * B
        for p, l in ((0, 0), (0, 10), (3, 10), (10, 10), (900, 1000), (800, 4000), (3, 3 * B), (2 * B, 3 * B), (big - 5, big + 100), (big + 1, 2 * big)):
            for a in sorted({0, 1, (l - p) // 2, l - p - 1, l - p, B}):
                if not 0 <= a <= l - p:
                    continue
                for eof in (0, 1):
                    self.consume_case(p, l, a, eof)

    def consume_case(self, p, l, a, eof):
        sp = self.fn("consume")
        o = 37
        I = self.case("consume", dict(pos=p, len=l, offset=o, target=self.block, align=1, eof=eof, arg=a, cap=0), None, self.M)
        for n, st in I.final_states.items():
            g = lambda k: I.case.num(cases.field_at(I, st, self.f[k]))
            P, L, O = g("pos"), g("len"), g("offset")
            if not self.ob("consume-known", None not in (P, L, O), "what is kept after consuming cannot be told", sp):
                continue
            self.ob("consume-next", O + P == o + p + a, "%d bytes at position %d consumed, and the next is %d" % (a, p, O + P - o), sp)
            self.ob("consume-end", O + L == o + l, "with %d bytes the end becomes %d" % (l, O + L - o), sp)
            b = cases.field_at(I, st, self.f["buf"])
            s = shift(I, b)
            self.ob("consume-shift", s is not None and s == O - o, "the bytes are moved by %s, and the position by %d" % (s, O - o), sp)
            n2 = I.case.length(b)
            self.ob("consume-margin", n2 == L + self.M, "the buffer ends at %s, not behind the margin" % n2, sp)
            if eof:
                self.ob("consume-eof", g("eof") == 1, "the end is forgotten", sp)
            else:
                self.ob("consume-eof", g("eof") == 0, "the end is announced early", sp)
                t = g("target")
                if a == 0:
                    self.ob("consume-more", t is not None and t > L, "nothing consumed, and not more is read next time (%s, there are %d)" % (t, L), sp)

    # ---- appending directly
    def extend(self):
        name = "extend_from_slice"
        sp = self.fn(name)
        src = mk("arg", sp, 1)
        for p, l in ((0, 0), (0, 10), (3, 10)):
            for k in (0, 1, 30):
                I = self.case(name, dict(pos=p, len=l, offset=37, target=64, align=1, eof=0), lambda t: k if t is src else None, self.M)
                for n, st in I.final_states.items():
                    g = lambda x: I.case.num(cases.field_at(I, st, self.f[x]))
                    self.ob("extend-len", g("len") == l + k, "%d bytes appended to %d give %s" % (k, l, g("len")), sp)
                    self.ob("extend-pos", g("pos") == p and g("offset") == 37, "appending moves the position", sp)
                    b = cases.field_at(I, st, self.f["buf"])
                    self.ob("extend-margin", I.case.length(b) == l + k + self.M, "the buffer ends at %s, not behind the margin" % I.case.length(b), sp)
                    es = [e for e in I.calls() if e.name and last(e.name) in ("extend_from_slice", "extend", "write_all") and field_path(base(I, e.vals[0])) == self.f["buf"]]
                    ok = len(es) == 1 and I.case.length(es[0].vals[0]) == l and q.strip(src_of(es[0].vals[1])) is src
                    self.ob("extend-at", ok, "what is appended does not follow the valid bytes", sp)


def tops(I):
    """what the function itself (not one it calls) returns"""
    return [v for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None]


def ends(I):
    return [n for n in I.returns if I.ctx_of_id[n[0]].parent is None]


def parts(I, t):
    """everything a value is computed from"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            st.extend(x.a)
            st.extend(I.phi_in.get(x, ()))
    return seen


def choices(I, t, seen=None):
    """the values a value is one of"""
    seen = set() if seen is None else seen
    t = q.strip(t)
    if t in seen:
        return []
    seen.add(t)
    if t.k == "phi":
        return [y for x in I.phi_in.get(t, ()) for y in choices(I, x, seen)]
    return [t]


def src_of(t):
    t = q.strip(t)
    while t.k == "call" and last(t.a[0]) in ("iter", "copied", "cloned", "into_iter", "deref", "as_ref") and len(t.a) > 2:
        t = q.strip(t.a[2])
    return t


def base(I, t):
    """the place behind a chain of changes"""
    for _ in range(80):
        t = q.strip(t)
        if t.k == "eff":
            t = t.a[3]
        elif t.k == "upd":
            t = t.a[0]
        elif t.k == "phi" and I.phi_in.get(t):
            o = {x for x in I.phi_in[t] if not mentions(I, x, t)} or set(I.phi_in[t])
            t = sorted(o, key=lambda x: x.id)[0]
        elif t.k == "call" and last(t.a[0]) in ("deref", "deref_mut", "as_mut", "as_mut_slice", "as_slice") and len(t.a) > 2:
            t = t.a[2]
        else:
            return t
    return t


def mentions(I, t, p):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x is p:
            return True
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.k == "eff":
            st.append(x.a[3])
        elif x.k == "phi":
            st.extend(I.phi_in.get(x, ()))
    return False


def by_source(t):
    t = q.strip(t)
    while t.k == "eff":
        if last(t.a[0]) in ("call_mut", "call_once", "call"):
            return True
        t = q.strip(t.a[3])
    return False


GROW = {"reserve", "truncate", "resize", "extend_from_slice", "extend", "push", "call_mut", "call_once", "call", "reserve_exact", "shrink_to", "deref_mut", "as_mut"}


def intact(I, t):
    """is the vector only cut or extended at its end?"""
    seen, st = set(), [t]
    while st:
        t = q.strip(st.pop())
        if t in seen:
            continue
        seen.add(t)
        if t.k == "eff":
            if last(t.a[0]) not in GROW:
                return False
            st.append(t.a[3])
        elif t.k == "upd":
            return False
        elif t.k == "phi":
            st.extend(I.phi_in.get(t, ()))
    return True


def shift(I, t):
    """by how many elements the contents of a vector were moved to its front"""
    s = 0
    c = I.case
    for _ in range(40):
        t = q.strip(t)
        if t.k == "upd" and isinstance(t.a[-1], T) and t.a[1] in ("*", ("*",)):
            t = t.a[-1]
            continue
        if t.k == "eff":
            l, es = last(t.a[0]), c.site(t.a[1])
            if l in ("copy_within", "rotate_left", "drain"):
                if len(es) != 1:
                    return None
                e = es[0]
                if l == "rotate_left":
                    k = c.num(e.vals[1])
                else:
                    r = q.range_of(q.strip(e.vals[1]))
                    if r is None:
                        return None
                    if l == "drain":
                        k = c.num(r[1]) if r[0] is None and r[1] is not None else None
                    else:
                        k = c.num(r[0]) if r[0] is not None else 0
                        hi = c.num(r[1]) if r[1] is not None else None
                        if not zero(e.vals[2]) or r[1] is not None and hi != c.length(e.vals[0]):
                            return None
                if k is None:
                    return None
                s += k
            elif l not in ("reserve", "truncate", "deref_mut", "as_mut_slice", "as_mut", "shrink_to", "reserve_exact"):
                return None
            t = t.a[3]
        elif t.k == "upd":
            return None
        elif t.k == "phi":
            vs = {shift(I, x) for x in I.phi_in.get(t, ())}
            return s + vs.pop() if len(vs) == 1 and None not in vs else None
        else:
            return s
    return None
