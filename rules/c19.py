"""What --patch does with the bytes and the records. The function that fills the patched block is analysed for one turn of its loop per
case of the numbers involved (length of the block, progress in it, where the next record starts, how long its span is, where the record
after it starts): which bytes of the block are copied, when the record's bytes are inserted, where the next turn goes on, what is left
for the next block, which records are refused."""
import re
from absint import Interp, C, mk, show, last
import q
import cases
from rules import evalx as E
from rules.c16 import field_path
from rules.c17 import choices, tops, ends, steps, FILL, CONSUME, SLICE, OPAQUE, base as place_base
from rules.c18 import inner, mentions, failed
from rules.turn import closure_body, final, place, heads_at, loop_head, where, nodes_at

READ = r"TextParser::read_line$"
MAX = (1 << 64) - 1


def run(prog, R):
    n = 0
    for ty, fs in sorted(steps(prog).items()):
        F, body, args = closure_body(prog, fs["fill_buf"], r"StreamBuf::fill_buf$")
        if body is None:
            continue
        I = Interp(prog, body, args=args, inline=OPAQUE)
        if list(I.calls(READ)) and [e for e in I.calls(FILL) if e.kind == "call"]:
            n += 1
            Patch(prog, R, ty, fs, F, I, body, args).run()
    R.ob("there", n == 1, "the step that applies records is found %d times" % n, "src/byte")


def payload_of(y):
    """the call whose success, and presence, a value is taken from"""
    while True:
        if y.k in ("pay", "as", "fld"):
            y = y.a[0]
        elif y.k == "call" and last(y.a[0]) in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "unwrap") and len(y.a) > 2:
            y = y.a[2]
        else:
            return y if y.k == "call" else None


def part_of(t, N, s, box):
    """a part of the record read, or what stands for it when there is none"""
    if N is None:
        y = t.a[0]
        while y.k in ("pay", "as", "fld"):
            y = y.a[0]
        if y.k == "call" and last(y.a[0]) == "unwrap_or" and y.a[3].k == "agg":
            return box["num"](y.a[3].a[3 + int(t.a[1])])
        return None
    return N if t.a[1] == "0" else s


class Patch:
    def __init__(self, prog, R, ty, fs, F, I, body, args):
        self.prog, self.R, self.ty, self.fs, self.F, self.I, self.body, self.args = prog, R, ty, fs, F, I, body, args
        self.sp = fs["fill_buf"]

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.sp)

    # ---- which field is what
    def run(self):
        I, R = self.I, self.R
        R.graph(I)
        R.graph(self.F)
        rl = list(I.calls(READ))
        fills = [e for e in I.calls(FILL) if e.kind == "call"]
        got = {}
        for G in (self.F, I):
            for e in G.calls(READ):
                for n, ws in G.stores.items():
                    for root, p, v, sp in ws:
                        t = root[1] if isinstance(root, tuple) and hasattr(root[1], "k") else None
                        if t is None:
                            continue
                        rp = field_path(mk("fld", place_base(G, t), "*"))
                        if rp is None and place_base(G, t).k == "arg":
                            rp = ()
                        if rp is None:
                            continue
                        path = rp + tuple(x[1] for x in p if x[0] == "f" and x[1] != "*")
                        for x in [z for y in choices(G, v) for z in ([G.project(w, ("f", y.a[1])) for w in choices(G, y.a[0])] if y.k == "fld" and y.a[0].k == "phi" else [y])]:
                            i = self.of_record(x, e.term)
                            if i is not None:
                                got.setdefault(i, set()).add(path)
        if not self.ob("record", set(got) == {0, 1} and all(len(x) == 1 for x in got.values()), "where the next record is kept is not recognised: %s" % got):
            return
        self.off, self.span = got[0].pop(), got[1].pop()
        bufs = {field_path(place_base(I, e.vals[1])) for e in rl}
        if not self.ob("record", len(bufs) == 1 and None not in bufs, "where the next record's bytes are kept is not recognised"):
            return
        self.bytes = bufs.pop()
        sl = [e for e in I.calls(SLICE) if e.kind == "call"]
        main = [f for f in fills if any(f.node in q.from_start(I) and s.node in q.reach(I, [f.node], avoid=[g.node for g in fills if g is not f]) for s in sl)]
        heads = {loop_head(I, e.node) for e in rl}
        if not self.ob("loop", len(heads) == 1 and None not in heads, "the loop over the records is not recognised"):
            return
        self.head = heads.pop()
        main = [f for f in fills if self.head in q.reach(I, [f.node], avoid=[g.node for g in fills if g is not f])]
        if not self.ob("block", len(main) == 1, "the block the records are applied to is not recognised"):
            return
        self.mainw, self.headw = where(I, main[0].node), where(I, self.head)
        self.pos = self.skip = None
        hs = heads_at(I, self.headw)
        ads = self.usizes()
        for sig, p in hs.items():
            for x in I.phi_in[p]:
                f = field_path(x)
                if f in ads and f not in (self.off, self.span):
                    self.pos = f if self.pos in (None, f) else False
        cons = [e for e in I.calls(CONSUME) if e.kind == "call"]
        for e in cons:
            for x in inner(I, e.vals[1]):
                f = field_path(x) if x.k == "fld" else None
                if f in ads and f not in (self.off, self.span, self.pos) and e.node not in q.reach(I, [self.head]):
                    self.skip = f
        if not self.ob("position", bool(self.pos), "the position in the stream is not recognised"):
            return
        if not self.ob("left-over", bool(self.skip), "what is left to be replaced in the next block is not recognised"):
            return
        self.primed()
        self.read(rl)
        self.loop(hs)
        self.skipping()

    def usizes(self):
        out = set()

        def walk(ty, pre, depth):
            a = self.prog.adts.get(ty)
            if a is None or depth > 3:
                return
            for v in a["vars"]:
                for n, t in v["f"]:
                    if t == "usize":
                        out.add(pre + (n,))
                    elif t in self.prog.adts:
                        walk(t, pre + (n,), depth + 1)
        walk(self.ty, (), 0)
        return out

    def of_record(self, x, term):
        """0: the offset, 1: the span of the record read"""
        x = q.strip(x)
        if x.k == "fld" and x.a[1] in ("0", "1"):
            y = payload_of(x.a[0])
            if y is term:
                return int(x.a[1])
        return None

    # ---- records are read one by one
    def primed(self):
        F = self.F
        ctor = {}
        for p, f in sorted(self.prog.fns.items()):
            if f.is_fn and p.startswith(self.ty + "::") and "{closure" not in p:
                J = Interp(self.prog, p, inline=OPAQUE)
                for v in tops(J):
                    for x in choices(J, v):
                        if x.k == "agg" and x.a[0] == self.ty:
                            self.consts(J, x, (), ctor)
        self.ob("start", ctor.get(self.pos, {None}) == {0} and ctor.get(self.skip, {None}) == {0}, "it starts at %s, with %s left to be replaced" % (ctor.get(self.pos), ctor.get(self.skip)))
        vals = {p: list(v)[0] for p, v in ctor.items() if len(v) == 1 and list(v)[0] is not None}
        new = {k: v for k, v in vals.items()}
        for turn in (0, 1):
            known = dict(new)
            G = cases.run(self.prog, self.fs["fill_buf"], lambda t: known.get(field_path(t)) if t.k == "fld" else None, inline=OPAQUE)
            self.R.count("cases")
            rl = list(G.calls(READ))
            fb = list(G.calls(r"StreamBuf::fill_buf$"))
            if turn == 0:
                seen = q.from_start(G, lambda a, b, l: any(q.is_err_of(e.term)(a, b, l) for e in rl), avoid=[e.node for e in rl])
                self.ob("first", bool(fb) and not any(e.node in seen for e in fb), "the first record is not read before the first block")
                ag = q.reach(G, [e.node for e in rl])
                self.ob("first", not any(e.node in ag for e in rl), "more than one record is read before the first block")
                for n, st in G.final_states.items():
                    if failed(G, n):
                        continue
                    for p in list(new):
                        v = final(G, st, p)
                        if v is not None:
                            k = G.case.num(v)
                            if k is None:
                                new.pop(p, None)
                            elif p in new:
                                new[p] = k
            else:
                self.ob("next", not rl, "a record is skipped with every further block")
        # what it remembers of the first record
        for N in (None, 77):
            class Late(cases.Case):
                def __call__(me, what, t):
                    if what == "variant" and t.k == "pay" and t.a[0].k == "call" and re.search(READ, t.a[0].a[0]):
                        return "None" if N is None else "Some"
                    return cases.Case.__call__(me, what, t)
            c = Late(lambda t: vals.get(field_path(t)) if t.k == "fld" and field_path(t) in vals else part_of(t, N, 5, dict(num=lambda x: c.num(x))) if t.k == "fld" and self.read_part(t) else None)
            G = Interp(self.prog, self.fs["fill_buf"], assume=c, inline=OPAQUE)
            c.I = G
            self.R.count("cases")
            for n, st in G.final_states.items():
                if not failed(G, n):
                    got = [None if x is None else c.num(x) for x in (self.before_fill(G, final(G, st, f)) for f in (self.off, self.span))]
                    self.ob("first-record", got[0] == (MAX if N is None else N) and (N is None or got[1] == 5), "the first record is %s, and it is taken to replace %s bytes at %s" % ("missing" if N is None else "5 bytes at 77", got[1], got[0]))

    def before_fill(self, G, t):
        """the value a field had before the block was filled"""
        names = []
        while t is not None and t.k == "fld":
            names.append(t.a[1])
            t = t.a[0]
        if t is None or t.k != "eff" or not names:
            return t if not names else self.proj(G, t, names) if t is not None else None
        return self.proj(G, t.a[3], names)

    def proj(self, G, t, names):
        for n in reversed(names):
            t = G.project(t, ("f", n))
        return t

    def read_part(self, t):
        y = payload_of(t.a[0])
        return t.a[1] in ("0", "1") and y is not None and y.k == "call" and re.search(READ, y.a[0])

    def consts(self, J, x, pre, out):
        for n, v in zip(x.a[2], x.a[3:]):
            for y in choices(J, v):
                if y.k == "agg" and y.a[0] in self.prog.adts and len(self.prog.adts[y.a[0]]["vars"]) == 1:
                    self.consts(J, y, pre + (n,), out)
                else:
                    out.setdefault(pre + (n,), set()).add(int(y.a[0]) if y.k == "c" and isinstance(y.a[0], (int, bool)) else None)

    def read(self, rl):
        """the buffer is emptied before the next record's bytes are appended; no record is left: nothing is replaced any more"""
        I = self.I
        for G in (self.F, I):
            for e in G.calls(READ):
                x = q.strip(e.vals[1])
                ok = x.k == "eff" and last(x.a[0]) in ("clear", "take", "truncate") or x.k == "call" and last(x.a[0]) in ("new", "with_capacity", "default")
                self.ob("emptied", ok, "the bytes of a record are appended to those of the one before", e.sp)

    # ---- cases
    def leaf(self, box, v):
        def leaf(t):
            if t.k == "fld":
                b = q.strip(t.a[0])
                if b.k == "pay" and b.a[0].k == "call" and re.search(FILL, b.a[0].a[0]):
                    m = box["site"](b.a[0]) if "site" in box else None
                    return v.get(("eof" if t.a[1] == "0" else "L") if m else ("seof" if t.a[1] == "0" else "n"))
                if t.a[1] in ("0", "1") and self.read_part(t):
                    return part_of(t, v.get("N"), v.get("s2"), box)
                p = field_path(t)
                if p is not None:
                    return v.get(p)
            if t.k == "phi" and "phi" in v and "I" in box:
                return v["phi"].get(box["I"].signature(t))
            return None
        return leaf

    def base(self, box, v):
        def base(t):
            if t.k == "call" and re.search(SLICE, t.a[0]):
                return (0, v["L"] + 100) if "L" in v else None      # the margin follows
            if t.k == "phi" and "I" in box:
                return v.get("sl", {}).get(box["I"].signature(t))
            return None
        return base

    def case(self, v, heads=()):
        box = {}
        me = self
        mainw = self.mainw

        class Late(cases.Case):
            def bind(self, I):
                self.I = box["I"] = I
                box["base"], box["num"] = me.base(box, v), self.num
                ok = {}

                def site(t):
                    if t not in ok:
                        ok[t] = any(s == t.a[1] and where(I, n) == mainw for n, s in I.site_ids.items())
                    return ok[t]
                box["site"] = site

            def __call__(self, what, t):
                if what == "variant" and "N" in v and t.k == "pay" and t.a[0].k == "call" and re.search(READ, t.a[0].a[0]):
                    return "None" if v["N"] is None else "Some"
                return cases.Case.__call__(self, what, t)
        def length(t):
            p = place(box["I"], t, box["base"], box["num"]) if "base" in box else None
            return None if p is None else p[1] - p[0]
        c = Late(self.leaf(box, v), length)
        c.heads = set(heads)
        I = Interp(self.prog, self.body, args=self.args, assume=c, inline=OPAQUE)
        c.I = I
        I.case = c
        self.R.count("cases")
        box["b"] = box["base"]
        I.box = box
        return I

    def loop(self, hs):
        I = self.I
        # what every variable of the loop is at its start, and how it moves
        v0 = {self.pos: 10, self.skip: 0, "L": 8, "eof": 0, "n": 8, "seof": 0}
        self.vars, self.slices = {}, {}
        self.sigs, self.starts, self.slends = list(hs), {}, {}
        J = self.case(v0, list(hs))
        alpha, alsl = {}, {}
        for sig, p in heads_at(J, self.headw).items():
            for x in self.entry(J, p):
                f = field_path(x)
                if f in (self.off, self.span):
                    self.vars[sig] = ("field", f)
                    continue
                n = J.case.num(x)
                if n is not None and sig not in self.vars:
                    alpha[sig] = x
                elif place(J, x, J.box["b"], J.case.num) is not None:
                    alsl[sig] = x
        self.alpha, self.alsl = alpha, alsl
        # the first turn: 2 bytes are copied, 3 are replaced
        v = dict(v0)
        v.update({self.off: 12, self.span: 3, "N": 40, "s2": 1})
        v["phi"] = {s: J.case.num(x) for s, x in alpha.items()}
        v["sl"] = {s: place(J, x, J.box["b"], J.case.num) for s, x in alsl.items()}
        for s, (k, f) in self.vars.items():
            v["phi"][s] = v[f]
        K = self.case(v, list(v["phi"]) + list(v["sl"]))
        kh = heads_at(K, self.headw)
        self.beta = {}
        for s, x in alpha.items():
            back = self.back(K, kh.get(s))
            ns = {K.case.num(y) for y in back}
            a = v["phi"][s]
            b = {None if n is None else (n - a) / 5 for n in ns}
            if len(b) == 1 and list(b)[0] in (-1, 0, 1):
                self.beta[s] = int(b.pop())
            elif back:
                self.ob("progress", field_path(x) is None or field_path(x) != self.pos, "after 2 bytes are copied and 3 are replaced, %s goes on from %s" % (show(x, 3), sorted(ns, key=str)))
        self.bsl = {}
        for s, x in alsl.items():
            ns = {place(K, y, K.box["b"], K.case.num) for y in self.back(K, kh.get(s))}
            ok = len(ns) == 1 and None not in ns
            d = (list(ns)[0][0] - v["sl"][s][0]) if ok and list(ns)[0][1] == v["sl"][s][1] else None
            if self.ob("progress", ok and d in (0, 5), "after 2 bytes are copied and 3 are replaced, it goes on %s bytes later in the block" % d):
                self.bsl[s] = d // 5
        for L in (1, 6):
            for c in sorted({0, 2, 5} & set(range(L))):
                for d in sorted({c, c + 1, L - 1, L, L + 1, L + 7, MAX - 10}):
                    if d < c:
                        continue
                    for s in sorted({0, 1, L - d - 1, L - d, L - d + 1, L - d + 9}):
                        if s < 0 or s > 30:
                            continue
                        for N in (None, 10 + d + s - 1, 10 + d + s, 10 + d + s + 5):
                            self.turn(L, c, d, s, N)
                            if d >= L:
                                break
                    if d >= L:
                        continue

    def entry(self, K, p):
        """values a variable of the loop has at its start"""
        return [x for x in K.phi_in[p] if not self.of_turn(K, x)]

    def back(self, K, p):
        """values a variable of the loop has at the end of a turn"""
        return [x for y in K.phi_in.get(p, ()) if self.of_turn(K, y) for x in self.flat(K, y)] if p is not None else []

    def flat(self, K, x, seen=None):
        seen = set() if seen is None else seen
        if x in seen:
            return []
        seen.add(x)
        if x.k == "phi" and x in K.phi_in and where(K, K.phi_where[x]) != self.headw:
            return [z for y in K.phi_in[x] for z in self.flat(K, y, seen)]
        return [x]

    def of_turn(self, K, x):
        """is a value made in the loop (or by an earlier turn)"""
        if not hasattr(K, "turn_sites"):
            hd = nodes_at(K, self.headw)
            nodes = {n for n in q.reach(K, hd, include=True) if hd & q.reach(K, [n])}
            K.turn_sites = {K.site_ids[n[:2]] for n in nodes if n[:2] in K.site_ids}
            K.turn_joins = {p for p, n in K.phi_where.items() if n in nodes}
        return any(y.k == "phi" and y in K.turn_joins or y.k in ("call", "eff") and y.a[1] in K.turn_sites for y in inner(K, x))

    def turn(self, L, c, d, s, N):
        B = 10
        v = {self.pos: B, self.skip: 0, "L": L, "eof": 0, "n": L, "seof": 0, self.off: B + d, self.span: s, "N": N, "s2": 1}
        ph = {}
        if L not in self.starts:
            J = self.case({k: x for k, x in v.items()}, self.sigs)
            self.starts[L] = a0 = {}
            self.slends[L] = {g: place(J, x, J.box["b"], J.case.num)[1] for g, p in heads_at(J, self.headw).items() if g in self.bsl for x in self.entry(J, p)}
            for g, p in heads_at(J, self.headw).items():
                if g in self.beta:
                    ns = {J.case.num(x) for x in self.entry(J, p)}
                    if len(ns) == 1 and None not in ns:
                        a0[g] = ns.pop()
        a0 = self.starts[L]
        for g in a0:
            ph[g] = a0[g] + self.beta[g] * c
        for g, (k, f) in self.vars.items():
            ph[g] = v[f]
        v["phi"] = ph
        v["sl"] = {g: (self.bsl[g] * c, self.slends[L][g]) for g in self.bsl if g in self.slends[L]}
        I = self.case(v, list(ph) + list(v["sl"]))
        if N is None:
            txt = "the last record"
        else:
            txt = "a record"
        txt += " at %d that replaces %d bytes, in a block of %d bytes of which %d are done" % (d, s, L, c) if d < L else " behind a block of %d bytes of which %d are done" % (L, c)
        rl = list(I.calls(READ))
        errs = lambda a, b, l: any(q.is_err_of(e.term)(a, b, l) for e in rl + [x for x in I.calls(FILL)])
        hd = nodes_at(I, self.headw)
        if not hd & q.from_start(I):
            self.ob("reached", False, "%s: the records are not looked at" % txt)
            return
        live = q.reach(I, hd, errs, include=True)
        src, rec, odd = [], [], []
        for e in I.calls():
            if e.kind != "call" or not e.name or last(e.name) not in ("extend_from_slice", "extend", "append", "push", "write_all", "extend_from_within", "insert", "splice") or len(e.vals) < 2 or e.node not in live:
                continue
            x = e.vals[-1]
            p = place(I, x, I.box["b"], I.case.num)
            if p is not None:
                src.append((e, p))
            elif self.is_record(I, x):
                rec.append(e)
            else:
                odd.append(e)
        if not self.ob("known", not odd, "%s: what is handed on cannot be told: %s" % (txt, [show(e.vals[-1], 4) for e in odd])):
            return
        full = [p for e, p in src if p[0] < p[1]]
        upto = min(d, L)
        self.ob("copied", all(p[0] <= p[1] <= L for e, p in src), "%s: it copies %s" % (txt, [p for e, p in src]))
        outs = [x for x in ends(I) if x in live and not failed(I, x)]
        bad = [x for x in ends(I) if x in live and failed(I, x)]
        again = bool(hd & q.reach(I, hd, errs))
        if c < upto:
            self.ob("copied", full == [(c, upto)], "%s: of the block it copies %s, not %d..%d" % (txt, full or "nothing", c, upto))
            miss = q.reach(I, hd, errs, avoid=[e.node for e, p in src])
            self.ob("copied", not hd & miss and not any(x in miss for x in outs), "%s: the bytes before it are not always copied" % txt)
        else:
            self.ob("copied", not full, "%s: of the block it copies %s" % (txt, full))
        if d >= L:
            self.ob("not-yet", not rec and not any(e.node in live for e in rl), "%s: it is applied already" % txt)
            self.ob("leaves", bool(outs) and not again and not bad, "%s: it does not go on with the next block" % txt)
            self.left(I, outs, B + L, 0, 0, txt)
            return
        # the record is applied
        miss = q.reach(I, hd, errs, avoid=[e.node for e in rec])
        self.ob("inserted", bool(rec) and not hd & miss and not any(x in miss for x in outs), "%s: its bytes are not handed on" % txt)
        for e in rec:
            behind = q.reach(I, [e.node], errs, avoid=nodes_at(I, self.headw))
            self.ob("inserted-once", not any(x.node in behind for x in rec), "%s: its bytes are handed on twice" % txt, e.sp)
            self.ob("in-place", not any(x.node in behind and p[0] < p[1] for x, p in src), "%s: its bytes are handed on before those in front of it" % txt, e.sp)
            ok = not any(mentions(I, e.vals[-1], x.term) or any(y.k == "eff" and y.a[1] == I.site_ids.get(x.node[:2]) for y in self.own_effs(I, e.vals[-1])) for x in rl if self.before(I, x, e))
            self.ob("its-own", ok, "%s: the bytes of another record are handed on" % txt, e.sp)
        miss = q.reach(I, hd, errs, avoid=[e.node for e in rl])
        self.ob("moves-on", not hd & miss and not any(x in miss for x in outs), "%s: the next record is not read" % txt)
        for e in rl:
            behind = q.reach(I, [e.node], errs, avoid=nodes_at(I, self.headw))
            self.ob("moves-on-once", not any(x.node in behind for x in rl), "%s: two records are read" % txt, e.sp)
        # the one after it
        if N is not None and N < B + d + s:
            self.ob("overlap", not again and not outs, "%s: the next record begins in it (%d before its end) and is not refused" % (txt, B + d + s - N))
            return
        self.ob("refused", not bad, "%s: it is refused although %s" % (txt, "no other follows" if N is None else "the next one begins %d behind it" % (N - B - d - s)))
        if d + s < L:
            self.ob("stays", again and not outs, "%s: what follows in the block is left out" % txt)
        if outs and d + s >= L:
            self.left(I, outs, B + d + s, d + s - L, 0, txt)
        if again and d + s >= L:
            # the loop ends at its head: once more, with what it goes on with
            self.exhausted(I, v, a0, B + d + s, d + s - L, txt)
        elif again:
            # where the next turn goes on
            c2 = d + s
            kh = heads_at(I, self.headw)
            for g, a in a0.items():
                if g in kh:
                    ns = {I.case.num(y) for y in self.back(I, kh[g])}
                    self.ob("goes-on", ns == {a + self.beta[g] * c2}, "%s: the loop goes on with %s, not %d" % (txt, sorted(ns, key=str), a + self.beta[g] * c2))
            for g in self.bsl:
                if g in kh:
                    ns = {place(I, y, I.box["b"], I.case.num) for y in self.back(I, kh[g])}
                    self.ob("goes-on", ns == {(self.bsl[g] * c2, self.slends[L][g])}, "%s: the loop goes on with %s of the block" % (txt, sorted(ns, key=str)))
            for g, (k, f) in self.vars.items():
                if g in kh:
                    ns = {I.case.num(y) for x in I.phi_in[kh[g]] if field_path(x) != f for y in self.flat(I, x)}
                    want = (MAX if N is None else N) if f == self.off else (None if N is None else 1)
                    self.ob("next-record", want is None or ns == {want}, "%s: the next record is taken to be %s, not %s" % (txt, sorted(ns, key=str), want))

    def exhausted(self, I, v, a0, pos, skip, txt):
        kh = heads_at(I, self.headw)
        w = dict(v, phi={}, sl={})
        for g in list(a0) + list(self.vars):
            ns = {I.case.num(y) for y in self.back(I, kh.get(g))} if g in a0 else {40 if self.vars[g][1] == self.off else 1}
            if len(ns) == 1 and None not in ns:
                w["phi"][g] = ns.pop()
        for g in self.bsl:
            ns = {place(I, y, I.box["b"], I.case.num) for y in self.back(I, kh.get(g))}
            if len(ns) == 1 and None not in ns:
                w["sl"][g] = ns.pop()
        w["N"] = None
        J = self.case(w, list(w["phi"]) + list(w["sl"]))
        hd = nodes_at(J, self.headw)
        live = q.reach(J, hd, include=True)
        did = [e for e in J.calls() if e.kind == "call" and e.name and e.node in live and (re.search(READ, e.name) or last(e.name) in ("extend_from_slice", "extend", "append", "push"))]
        outs = [x for x in ends(J) if x in live and not failed(J, x)]
        self.ob("leaves", bool(outs) and not did and not hd & q.reach(J, hd), "%s: it does not go on with the next block" % txt)
        self.left(J, outs, pos, skip, 0, txt)

    def before(self, I, x, e):
        """is the record read before this happens, in the same turn"""
        return e.node in q.reach(I, [x.node], avoid=nodes_at(I, self.headw))

    def own_effs(self, I, t):
        out, st = [], [q.strip(t)]
        while st:
            x = q.strip(st.pop())
            if x.k == "eff":
                out.append(x)
                st.append(x.a[3])
            elif x.k == "call" and len(x.a) > 2:
                st.append(x.a[2])
            elif x.k in ("fld", "idx", "deref", "addr", "upd"):
                st.append(x.a[0])
        return out

    def is_record(self, I, t):
        seen, st = set(), [q.strip(t)]
        while st:
            x = q.strip(st.pop())
            if x in seen:
                continue
            seen.add(x)
            p = field_path(x)
            if p == self.bytes:
                return True
            s = q.slice_of(x)
            if s is not None and (s[1] is not None or s[2] is not None):
                continue
            if x.k == "phi":
                st.extend(I.phi_in.get(x, ()))
            elif x.k == "eff":
                st.append(x.a[3])
            elif x.k == "call" and last(x.a[0]) in ("deref", "deref_mut", "as_slice", "iter", "copied", "cloned", "drain", "take", "as_ref", "clone", "to_vec", "into_iter"):
                st.append(x.a[2])
            elif x.k in ("fld", "upd"):
                st.append(x.a[0])
        return False

    def left(self, I, outs, pos, skip, eof, txt):
        cons = [e for e in I.calls(CONSUME) if e.kind == "call"]
        for x in outs:
            st = I.final_states.get(x)
            if st is None:
                continue
            for f, want, what in ((self.pos, pos, "the position"), (self.skip, skip, "what is left to be replaced")):
                t = final(I, st, f)
                got = self.start_value(f) if t is None else I.case.num(t)
                self.ob("left", got == want, "%s: at the end of the block %s is %s, not %d" % (txt, what, got, want))
            r = I.returns[x]
            for y in choices(I, r):
                p = E.some(y)
                n = I.case.num(p) if p is not None else None
                self.ob("end", n == eof, "%s: at the end of the block it announces %s" % (txt, "the end" if n == 1 else show(y, 3)))

    def start_value(self, f):
        return 10 if f == self.pos else 0

    # ---- the rest of a span that reaches into the next block
    def skipping(self):
        I = self.I
        others = [e for e in I.calls(FILL) if e.kind == "call" and where(I, e.node) != self.mainw]
        sig = {I.signature(p): p for p in I.phi_in if any(field_path(x) == self.skip for x in I.phi_in[p]) and nodes_at(I, self.mainw) & q.reach(I, [I.phi_where[p]])}
        for k in (0, 3, 7):
            for n in (0, 1, 3, 5, 9):
                for e in (0, 1):
                    v = {self.pos: 10, self.skip: k, "L": 6, "eof": 0, "n": n, "seof": e, self.off: 40, self.span: 1, "N": None, "phi": {g: k for g in sig}}
                    J = self.case(v, list(sig))
                    txt = "%d bytes of a span are left, %d come%s" % (k, n, ", and no more" if e else "")
                    main = [x.node for x in J.calls(FILL) if where(J, x.node) == self.mainw]
                    oth = [x for x in J.calls(FILL) if x.kind == "call" and where(J, x.node) != self.mainw]
                    cons = [x for x in J.calls(CONSUME) if x.kind == "call" and not any(x.node in q.reach(J, [m]) for m in main)]
                    if k == 0:
                        reach0 = q.from_start(J, None, avoid=[x.node for x in oth])
                        self.ob("no-skip", bool(main) and main[0] in reach0 and not oth, "nothing of a span is left, and still bytes are left out")
                        continue
                    hd = {J.phi_where[p] for p in J.phi_in if J.signature(p) in sig}
                    self.ob("skips", bool(oth), "%s: they are not left out" % txt)
                    got = {J.case.num(x.vals[1]) for x in cons}
                    end = [x for x in ends(J) if not failed(J, x) and x in q.reach(J, [y.node for y in oth], lambda a, b, l: False, avoid=main)]
                    said = {J.case.num(E.some(y)) for x in end for y in choices(J, J.returns[x]) if E.some(y) is not None}
                    if end:
                        self.ob("skip-end", e and n <= k and said == {1}, "%s: the end is announced" % txt)
                        if n == 0 or not cons:
                            continue
                    self.ob("skip-count", got == {min(k, n)} or n == 0 and got <= {0}, "%s: %s are left out" % (txt, sorted(got, key=str)))
                    if e and n == 0:
                        self.ob("skip-end", bool(end), "%s: it waits for more" % txt)
                        continue
                    if cons:
                        # not to be passed without
                        seen = q.reach(J, [y.node for y in oth], lambda a, b, l: any(q.is_err_of(y.term)(a, b, l) for y in oth), avoid=[y.node for y in cons])
                        self.ob("skip-count", not (seen & hd) and not any(m in seen for m in main), "%s: they are not always left out" % txt)
                    left = set()
                    for p in J.phi_in:
                        if J.signature(p) in sig:
                            for x in J.phi_in[p]:
                                if field_path(x) != self.skip:
                                    left.add(J.case.num(x))
                    early = q.reach(J, [y.node for y in oth], None, avoid=hd)
                    if any(m in early for m in main):
                        self.ob("skip-all", n >= k, "%s: the rest of it is not left out" % txt)
                    else:
                        self.ob("skip-left", left == {k - min(k, n)}, "%s: %s are left" % (txt, sorted(left, key=str)))
