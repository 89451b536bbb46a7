"""How the slicing stages keep count. For every stage the function that consumes is analysed for what it forwards to its source,
which slices it drops, how it moves the ones it keeps and what it returns; the bookkeeping fields of the stage are found as the
numbers its filling function starts from, and their unit (bytes, slices of the source, slices of its own) is inferred from what is
stored in them or added to them there. The consumers of slices (the drains) are analysed for which slices of a window they take."""
import re
from absint import Interp, C, mk, show, last, T
import q
from mir import callee
from rules import evalx as E
from rules import dump as D

OPAQUE = lambda tg, c: not re.match(r"^<?nd::(eval|text|template|streambuf|mapper)::", tg.path)
IMPL = re.compile(r"^<(nd::segment::.*) as nd::segment::SegmentStream>::(fill_segment_buf|consume|as_slices)$")
SRC_CONSUME = r"(SegmentStream|ByteStream).*::consume$"
SRC_FILL = r"(SegmentStream.*::fill_segment_buf|ByteStream.*::fill_buf)$"
SRC_SLICES = r"(SegmentStream.*::as_slices|ByteStream.*::as_slice)$"


def stages(prog):
    out = {}
    for p in prog.fns:
        m = IMPL.match(p)
        if m and "::tester::" not in p and "::tests::" not in p:
            out.setdefault(m.group(1), {})[m.group(2)] = p
    return {k: v for k, v in out.items() if len(v) == 3}


def run(prog, R):
    st = stages(prog)
    R.ob("stages", len(st) >= 5, "only %d slicing stages are found" % len(st), "src/segment/mod.rs")
    n = 0
    for ty, fs in sorted(st.items()):
        s = Stage(prog, R, ty, fs)
        if s.kept():
            n += 1
            s.run()
        else:
            s.forwarded()
    R.ob("kept", n >= 5, "only %d stages keep slices of their own" % n, "src/segment/mod.rs")
    consumers(prog, R)


def field_path(t):
    """names of the fields on the way from self to a place, None for other terms"""
    out = []
    while True:
        if t.k == "fld":
            if t.a[1] != "*":
                out.append(t.a[1])
            t = t.a[0]
        elif t.k == "deref":
            t = t.a[0]
        elif t.k == "cast" and t.a[1].startswith("*"):
            t = t.a[2]
        elif t.k == "addr":
            t = t.a[0]
        else:
            break
    return tuple(reversed(out)) if t.k == "arg" and t.a[1] == 0 and out else None


def uncast(t):
    t = q.strip(t)
    while t.k == "cast" and t.a[0] in INTS and t.a[1] in INTS:
        t = q.strip(t.a[2])
    return t


INTS = {"usize", "isize", "i64", "u64"}


PASS = ("deref", "deref_mut", "as_slice", "as_mut_slice", "iter", "iter_mut", "into_iter", "as_ref", "as_mut", "split_off")


def own_slices(I, t):
    """path of the collection of the stage a value refers to"""
    out, seen, st = set(), set(), [t]
    while st:
        t = q.strip(st.pop())
        if t in seen:
            continue
        seen.add(t)
        if t.k == "eff":
            st.append(t.a[3])
        elif t.k == "upd":
            st.append(t.a[0])
        elif t.k == "phi" and t in I.phi_in:
            st.extend(I.phi_in[t])
        elif t.k == "call" and last(t.a[0]) in PASS and len(t.a) > 2:
            st.append(t.a[2])
        else:
            out.add(field_path(t))
    return out.pop() if len(out) == 1 else None


class Stage:
    def __init__(self, prog, R, ty, fs):
        self.prog, self.R, self.ty, self.fs = prog, R, ty, fs
        self.name = ty.split("::")[-1]

    def ob(self, k, ok, msg, sp):
        return self.R.ob("%s:%s" % (self.name, k), ok, "%s: %s" % (self.name, msg), sp)

    def kept(self):
        """the collection of slices the stage hands out"""
        self.J = Interp(self.prog, self.fs["as_slices"], inline=OPAQUE)
        rs = [x for x in E.K.result(self.J)]
        self.out = None
        for r in rs:
            if r.k == "agg" and len(r.a) == 5:
                w = r.a[4]
                s = q.slice_of(w)
                lo = hi = None
                if s is not None:
                    w, lo, hi = s
                p = own_slices(self.J, w)
                if p is None:
                    return False
                if self.out not in (None, (p, hi)):
                    return False
                self.out = (p, hi)
                self.lo = lo
                self.stream = r.a[3]
            else:
                return False
        if self.out is None:
            return False
        # the closed form of a periodic slicer is not decided here: the slices are not an explicit queue that is shifted
        I = self.C = Interp(self.prog, self.fs["consume"], inline=OPAQUE)
        return not any(last(e.name or "") == "clear" and own_slices(self.C, e.vals[0]) == self.out[0] for e in I.calls() if e.vals)

    def run(self):
        R, I = self.R, self.C
        R.graph(I)
        R.graph(self.J)
        self.F = Interp(self.prog, self.fs["fill_segment_buf"], inline=OPAQUE)
        R.graph(self.F)
        self.ob("from-start", self.lo is None, "the first slices are not handed out", self.fs["as_slices"])
        self.slices_of_source()
        if self.amount():
            self.dropped()
            self.moved()
            self.returned()
            self.fields()
        self.cursor()
        self.offered()

    def forwarded(self):
        """a stage that computes its slices: what it answers is what it consumes from its source"""
        I = self.C = Interp(self.prog, self.fs["consume"], inline=OPAQUE)
        self.R.graph(I)
        src = [e for e in I.calls(SRC_CONSUME) if e.kind == "call"]
        if not self.ob("forward", bool(src), "what is consumed is not consumed from the source", self.fs["consume"]):
            return
        seen = q.from_start(I, None, avoid=[e.node for e in src])
        for n, v in I.returns.items():
            if I.ctx_of_id[n[0]].parent is None and n in seen:
                self.ob("forward-always", all(E.failure(x) for x in E.expand(I, v)), "a way through consume does not consume from the source", self.fs["consume"])
        for r in E.results(I):
            p = E.some(r)
            if p is None or E.failure(r):
                continue
            for t in I.origins(q.strip(p)):
                if t.k == "agg" and len(t.a) == 5:
                    for e in src:
                        self.ob("forward-same", uncast(t.a[3]) is uncast(e.vals[1]), "%s bytes are consumed from the source, and %s are answered" % (show(e.vals[1], 4), show(t.a[3], 4)), e.sp)

    # ---- as_slices
    def slices_of_source(self):
        s = list(self.J.calls(SRC_SLICES))
        ok = False
        t = q.strip(self.stream)
        for e in s:
            if e.term is t or t.k == "fld" and t.a[1] == "0" and q.strip(t.a[0]) is e.term:
                ok = True
        if t.k == "phi":
            ok = all(any(x is e.term for e in s) for x in self.J.origins(t))
        self.ob("stream", ok, "the slices are handed out with %s, not with the stream of the source" % show(self.stream, 4), self.fs["as_slices"])

    # ---- consume
    def amount(self):
        """what is consumed: the terms that stand for the bytes, and for the dropped slices of the source"""
        I = self.C
        src = [e for e in I.calls(SRC_CONSUME) if e.kind == "call"]
        if not self.ob("forward", bool(src), "what is consumed is not consumed from the source", self.fs["consume"]):
            return False
        seen = q.from_start(I, None, avoid=[e.node for e in src])
        bad = [n for n in I.returns if I.ctx_of_id[n[0]].parent is None and n in seen and not self.zero_only(n)]
        self.ob("forward-always", not bad, "a way through consume does not consume from the source", self.fs["consume"])
        again = q.reach(I, [e.node for e in src])
        self.ob("forward-once", not any(e.node in again for e in src), "the source is consumed from twice", src[0].sp)
        self.N, self.S = [], []
        ok = True
        for e in src:
            a = e.vals[1]
            if "SegmentStream" in e.name:
                self.N.append(mk("fld", mk("pay", e.term), "0"))
                self.S.append(mk("fld", mk("pay", e.term), "1"))
                good = self.limited(a, True)
            else:
                self.N.append(q.strip(a))
                good = self.limited(a, False)
            ok &= self.ob("limit", good, "asked to consume n bytes it consumes %s" % show(a, 4), e.sp)
        return ok

    def zero_only(self, n):
        return False

    def limited(self, a, whole):
        """min of the requested bytes and a field; the request itself where the source limits it"""
        a = q.strip(a)
        arg = mk("arg", self.fs["consume"], 1)
        if a is arg:
            return whole
        o = self.C.origins(a)
        if len(o) > 1 or a.k == "phi":
            # if bytes < limit { bytes } else { limit }
            fl = [x for x in o if field_path(x)]
            return len(o) == 2 and arg in o and len(fl) == 1 and self.chosen(arg, fl[0])
        if a.k == "call" and last(a.a[0]) == "min" and len(a.a) == 4:
            x, y = q.strip(a.a[2]), q.strip(a.a[3])
            return x is arg and field_path(y) is not None or y is arg and field_path(x) is not None
        return False

    def chosen(self, arg, fl):
        for n, es in self.C.succs.items():
            for m, l in es:
                if l is not None and l[0].k == "op" and l[0].a[0] in ("Lt", "Le", "Gt", "Ge") and {q.strip(l[0].a[1]), q.strip(l[0].a[2])} == {arg, fl}:
                    return True
        return False

    def isN(self, t):
        t = uncast(t)
        if t in self.N:
            return True
        o = [uncast(x) for x in self.C.origins(t)]
        return bool(o) and all(x in self.N for x in o)

    def isS(self, t):
        return uncast(t) in self.S

    def before(self, clo, flip=False):
        """does the function hold exactly for the slices that start before the consumed bytes?"""
        g = self.prog.fns.get(clo.a[0][8:]) if clo.k == "agg" and clo.a[0].startswith("closure:") else None
        if g is None:
            return False
        selfarg = mk("addr", clo) if g.locals[1]["ty"].startswith("&") else clo
        J = Interp(self.prog, g.path, args={0: selfarg}, inline=lambda tg, c: True)
        rs = E.K.result(J)
        ok = bool(rs)
        for r in rs:
            for pos in (0, 1, 5, 6, 7, 100):
                for n in (0, 1, 6):
                    def val(t):
                        t = q.strip(t)
                        if t in self.N:
                            return n
                        if t.k == "fld" and t.a[1] == "pos":
                            return pos
                        if t.k == "fld" and t.a[1] == "len":
                            return 3
                        return None
                    v = q.truth(r, val)
                    ok = ok and v is not None and bool(v) == ((pos < n) != flip)
        return ok

    def counted(self, t):
        """t is the number of slices that start before the consumed bytes"""
        t = q.strip(t)
        if t.k == "call" and last(t.a[0]) == "partition_point" and len(t.a) > 3:
            return own_slices(self.C, t.a[2]) == self.out[0] and all(self.before(c) for c in self.C.origins(t.a[3]))
        if t.k == "call" and last(t.a[0]) == "count" and len(t.a) > 2:
            x = q.strip(t.a[2])
            if x.k == "call" and last(x.a[0]) in ("take_while", "filter") and len(x.a) > 3:
                return own_slices(self.C, x.a[2]) == self.out[0] and all(self.before(c) for c in self.C.origins(x.a[3]))
        if t.k == "call" and last(t.a[0]) in ("unwrap_or", "unwrap_or_else", "map_or") and len(t.a) > 3:
            x = [q.strip(y) for y in self.C.origins(t.a[2])]
            ln = [q.strip(y) for y in self.C.origins(t.a[3])]
            return all(y.k == "call" and last(y.a[0]) == "position" and own_slices(self.C, y.a[2]) == self.out[0] and
                       all(self.before(c, True) for c in self.C.origins(y.a[3])) for y in x) and \
                all(y.k == "call" and last(y.a[0]) == "len" for y in ln)
        if t.k == "phi":
            o = self.C.origins(t)
            if all(self.counted(x) for x in o) and o:
                return True
            # a hand-written count: 0, 1, 2, .. while the slice there starts before
            r = D.loop_inputs(self.C, t)
            if r is None or not r[1]:
                return False
            step = all((lambda s: s is not None and (s[0] is t and one(s[1]) or s[1] is t and one(s[0])))(D.plus(y)) for y in r[1])
            zero = all(y.k == "c" and y.a[0] == 0 for y in r[0])
            return step and zero and self.tested()
        return False

    def tested(self):
        for n, es in self.C.succs.items():
            for m, l in es:
                if l is None:
                    continue
                c = l[0]
                while c.k == "un":
                    c = c.a[1]
                if c.k == "op" and c.a[0] in ("Lt", "Ge"):
                    a, b = q.strip(c.a[1]), q.strip(c.a[2])
                    if a.k == "fld" and a.a[1] == "pos" and self.isN(b):
                        return True
                if c.k == "op" and c.a[0] in ("Gt", "Le"):
                    a, b = q.strip(c.a[1]), q.strip(c.a[2])
                    if b.k == "fld" and b.a[1] == "pos" and self.isN(a):
                        return True
        return False

    def dropped(self):
        """the slices that start before the consumed bytes leave the collection, and no others"""
        I = self.C
        on = [e for e in I.calls() if e.vals and e.name and own_slices(self.C, e.vals[0]) == self.out[0]]
        done = []
        for e in on:
            l = last(e.name)
            if l == "copy_within":
                r = q.range_of(q.strip(e.vals[1]))
                ok = r is not None and r[0] is not None and self.counted(r[0]) and (r[1] is None or self.length(r[1])) and zero(e.vals[2])
                self.ob("shift", ok, "the slices that are kept are not moved to the front: %s" % show(e.vals[1], 5), e.sp)
            elif l == "truncate":
                m = D.minus(e.vals[1])
                ok = m is not None and self.length(m[0]) and self.counted(m[1])
                self.ob("cut", ok, "%s slices are kept" % show(e.vals[1], 5), e.sp)
                sh = [x.node for x in on if last(x.name) in ("copy_within", "rotate_left")]
                self.ob("cut-after", bool(sh) and e.node not in q.from_start(I, None, avoid=sh), "slices are cut off before the others are moved to the front", e.sp)
                done.append(e)
            elif l == "rotate_left":
                self.ob("shift", self.counted(e.vals[1]), "the slices that are kept are not moved to the front: %s" % show(e.vals[1], 5), e.sp)
            elif l in ("drain", "splice"):
                r = q.range_of(q.strip(e.vals[1]))
                ok = r is not None and r[0] is None and r[1] is not None and self.counted(r[1])
                self.ob("cut", ok, "the slices that are dropped are %s" % show(e.vals[1], 5), e.sp)
                done.append(e)
            elif l == "retain" or l == "retain_mut":
                ok = all(self.before(c, True) for c in I.origins(e.vals[1]))
                self.ob("cut", ok, "the slices that are kept are not the ones behind the consumed bytes", e.sp)
                done.append(e)
            elif l == "split_off":
                self.ob("cut", self.counted(e.vals[1]), "%s slices are dropped" % show(e.vals[1], 5), e.sp)
                done.append(e)
            elif l in ("push", "insert", "extend", "extend_from_slice", "clear", "pop", "remove", "swap_remove", "resize", "append", "sort", "reverse"):
                self.ob("untouched", False, "consuming changes the slices with %s" % l, e.sp)
        self.ob("drop", bool(done), "the consumed slices are not dropped", self.fs["consume"])
        src = [e.node for e in I.calls(SRC_CONSUME)]
        self.always("drop-always", [e.node for e in done], "a way through consume does not drop the consumed slices")

    def always(self, key, nodes, msg):
        """every successful way on which something is consumed passes one of the nodes"""
        I = self.C
        if not nodes:
            return False

        def cut(n, m, l):
            if any(q.is_err_of(e.term)(n, m, l) for e in I.calls(SRC_CONSUME)):
                return True
            return q.implies(l, lambda t: uncast(t) in self.N, (0, 1, 2, 1000), lambda p: p == 0)
        seen = q.from_start(I, cut, avoid=nodes)
        bad = [n for n in I.returns if I.ctx_of_id[n[0]].parent is None and n in seen]
        return self.ob(key, not bad, msg, self.fs["consume"])

    def length(self, t):
        t = q.strip(t)
        return t.k == "call" and last(t.a[0]) == "len" and own_slices(self.C, t.a[2]) == self.out[0]

    def moved(self):
        """every slice that is kept moves by the consumed bytes"""
        I = self.C
        good = []
        for n, ws in I.stores.items():
            for root, path, v, sp in ws:
                if path and path[-1] == ("f", "pos") and self.elem(root, path):
                    m = D.minus(v)
                    ok = m is not None and self.isN(m[1])
                    self.ob("move", ok, "a slice that is kept moves to %s" % show(v, 4), sp)
                    good.append(n)
                elif path and path[-1] == ("f", "len") and self.elem(root, path):
                    self.ob("move", False, "the length of a slice changes when something is consumed", sp)
        its = []
        for e in I.calls(r"::next$"):
            src = D.iterated(I, mk("pay", e.term))
            if src is not None and own_slices(self.C, src[1]) == self.out[0]:
                its.append(e)
        for e in I.calls(r"::for_each$"):
            if own_slices(self.C, e.vals[0]) == self.out[0]:
                for c in I.origins(e.vals[1]):
                    g = self.prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                    if g is None:
                        continue
                    J = Interp(self.prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=OPAQUE)
                    for n, ws in J.stores.items():
                        for root, path, v, sp in ws:
                            if path and path[-1] == ("f", "pos"):
                                m = D.minus(v)
                                self.ob("move", m is not None and self.isN(m[1]), "a slice that is kept moves to %s" % show(v, 4), sp)
                                good.append(e.node)
                                its.append(e)
        if not self.ob("moved", bool(good), "the slices that are kept do not move", self.fs["consume"]):
            return
        for n, ws in I.stores.items():
            for root, path, v, sp in ws:
                if path and path[-1] == ("f", "pos") and self.elem(root, path):
                    self.ob("every", self.any_element(root, path, its), "not every slice that is kept is moved", sp)
        for e in its:
            if last(e.name) == "next":
                # an element that was taken is moved before the next one is taken
                seen = q.reach(I, [e.node], q.is_err_of(e.term), avoid=good)
                self.ob("each", e.node not in seen, "a slice that is kept can stay where it is", e.sp)
        if its:
            self.always("move-always", [e.node for e in its], "a way through consume does not move the slices that are kept")
            # only the slices that are still there
            ds = [e.node for e in I.calls() if e.vals and e.name and last(e.name) in ("truncate", "drain", "retain", "split_off") and own_slices(self.C, e.vals[0]) == self.out[0]]
            parts = [e for e in its if last(e.name) == "next" and e.node in q.from_start(I, None, avoid=ds)]
            for e in parts:
                self.ob("kept-only", self.partial(e), "slices are moved before the consumed ones are dropped", e.sp)

    def any_element(self, root, path, its):
        """does the place run over all slices?"""
        I = self.C
        if root[0] == "M":
            for x in [q.strip(root[1])] + list(I.leaves(root[1])):
                if x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) == "next":
                    src = D.iterated(I, x)
                    if src is not None and own_slices(I, src[1]) == self.out[0]:
                        return True
        idx = [p[1] for p in path if p[0] == "i"] + ([x.a[3] for x in I.leaves(root[1]) if x.k == "call" and last(x.a[0]) in ("index_mut", "get_unchecked_mut", "index") and len(x.a) > 3] if root[0] in ("M", "V") else [])
        for i in idx + [x.a[1] for x in (I.leaves(root[1]) if root[0] in ("M", "V") else ()) if x.k == "idx"]:
            i = q.strip(i)
            if i.k == "pay" and i.a[0].k == "call" and last(i.a[0].a[0]) == "next":
                src = D.iterated(I, i)
                r = q.range_of(q.strip(src[1])) if src is not None and src[1].k == "agg" else None
                if r is not None and r[0] is None and r[1] is not None:
                    return True
            if i.k == "phi":
                r = D.loop_inputs(I, i)
                if r is not None and r[1] and all(zero(y) for y in r[0]) and all((lambda s: s is not None and (s[0] is i and one(s[1]) or s[1] is i and one(s[0])))(D.plus(y)) for y in r[1]):
                    return True
        return False

    def partial(self, e):
        src = D.iterated(self.C, mk("pay", e.term))
        s = q.slice_of(src[1]) if src else None
        return s is not None and s[1] is not None and self.counted(s[1])

    def elem(self, root, path):
        t = D.place_term(root, path)
        if t is not None and field_path(t) is not None:
            return False                # a field of the stage itself
        if root[0] == "M":
            return True
        return any(p[0] in ("i", "*", "idx") for p in path) or root[0] == "M"

    def returned(self):
        I = self.C
        rs = E.results(I)
        some = False
        for r in rs:
            if E.failure(r) or r.k == "call" and re.search(r"consume$", r.a[0]):
                continue
            p = E.some(r)
            if p is None:
                continue
            p = q.strip(p)
            if p.k == "pay":
                continue
            for t in [x for x in I.origins(p)]:
                if not (t.k == "agg" and len(t.a) == 5):
                    self.ob("return", False, "consume answers %s" % show(t, 4), self.fs["consume"])
                    continue
                a, b = t.a[3], t.a[4]
                if zero(a) and zero(b):
                    edges = [l for n, es in I.succs.items() for m, l in es]
                    ok = any(q.implies(l, lambda t: uncast(t) in self.N, (0, 1, 2, 1000), lambda p: p == 0) for l in edges)
                    self.ob("return-nothing", ok, "consume answers that nothing was consumed although something was", self.fs["consume"])
                    continue
                some = True
                self.ob("return-bytes", self.isN(a) or zero(a), "consume answers %s bytes" % show(a, 4), self.fs["consume"])
                self.ob("return-count", self.gone(b), "consume answers %s slices" % show(b, 4), self.fs["consume"])
        self.ob("returned", some, "consume does not answer what was consumed", self.fs["consume"])

    def gone(self, t):
        """the number of slices that were dropped"""
        if self.counted(t):
            return True
        t = q.strip(t)
        m = D.minus(t)
        if m is not None and self.length(m[0]) and m[1].k == "call" and last(m[1].a[0]) == "len" and own_slices(self.C, m[1].a[2]) == self.out[0]:
            return q.strip(m[0]) is not q.strip(m[1])
        if t.k == "call" and last(t.a[0]) in ("len", "count") and len(t.a) > 2:
            x = q.strip(t.a[2])
            return x.k == "call" and last(x.a[0]) in ("drain", "split_off")
        return False

    # ---- bookkeeping fields
    def unit(self, t, depth=0, seen=None):
        """'bytes', 'source' (slices of the source) or 'own' (slices of the stage) a number of the filling function counts; None
        when it cannot be told"""
        F = self.F
        seen = seen if seen is not None else set()
        t = uncast(t)
        if t in seen or depth > 40:
            return None
        seen.add(t)
        if t.k == "fld":
            if t.a[1] in ("pos", "len"):
                return "bytes"
            b = q.strip(t.a[0])
            fills = {e.term: e for e in F.calls(SRC_FILL) if e.kind == "call"}
            o = [b] if b.k == "pay" else F.origins(b)
            us = set()
            for x in o:
                if x.k == "pay" and x.a[0] in fills:
                    if t.a[1] in ("1", "3"):
                        us.add("bytes")
                    elif t.a[1] == "2":
                        us.add("source")
                elif x.k == "agg" and t.a[1].isdigit() and len(x.a) > 3 + int(t.a[1]):
                    us.add(self.unit(x.a[3 + int(t.a[1])], depth + 1, seen))
            us.discard(None)
            return us.pop() if len(us) == 1 else None
        if t.k == "phi":
            us = {self.unit(x, depth + 1, seen) for x in F.phi_in.get(t, ())} - {None}
            return us.pop() if len(us) == 1 else None
        if t.k == "op" and re.match(r"Add|Sub", t.a[0]):
            us = {self.unit(x, depth + 1, seen) for x in t.a[1:3]} - {None}
            return us.pop() if len(us) == 1 else None
        if t.k == "call":
            l = last(t.a[0])
            if l in ("min", "max", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "clamp", "checked_sub", "checked_add", "unwrap_or", "unwrap_or_default", "tail", "abs"):
                us = {self.unit(x, depth + 1, seen) for x in t.a[2:]} - {None}
                return us.pop() if len(us) == 1 else None
            if l in ("len", "partition_point", "position", "count") and len(t.a) > 2:
                if own_slices(F, t.a[2]) == self.out[0]:
                    return "own"
                for e in F.calls(SRC_SLICES):
                    x = q.strip(t.a[2])
                    s = q.slice_of(x)
                    x = q.strip(s[0]) if s else x
                    if x.k == "fld" and q.strip(x.a[0]) is e.term:
                        return "source" if x.a[1] == "1" else "bytes"
                    if x is e.term:
                        return "bytes"
        if t.k == "pay":
            return self.unit(t.a[0], depth + 1, seen)
        return None

    def bookkeeping(self):
        """{field: 'start' (counts from the head of the window) | 'total'} of the numbers filling starts from, with their unit"""
        F = self.F
        stored = {}
        for n, ws in F.stores.items():
            for root, path, v, sp in ws:
                t = D.place_term(root, path)
                p = field_path(t) if t is not None else None
                if p:
                    stored.setdefault(p, []).append(v)
        used = {}
        for t in all_terms(F):
            p = field_path(t) if t.k == "fld" else None
            if p and F_integer(self.prog, self.ty, p):
                used[p] = t
        out = {}
        for p, t in used.items():
            if p in stored:
                vals = [v for v in stored[p] if uncast(v) is not uncast(t)]
                us = {self.unit(v) for v in vals} - {None}
                if not us:
                    us = self.compared(t)
                if len(us) == 1:
                    out[p] = ("start", us.pop(), t)
            else:
                us = set()
                for x in all_terms(F):
                    if x.k == "op" and re.match(r"Add|Sub", x.a[0]) or x.k == "call" and last(x.a[0]) in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub") and len(x.a) == 4:
                        a, b = (uncast(y) for y in (x.a[1:3] if x.k == "op" else x.a[2:4]))
                        if a is t or b is t:
                            us.add(self.unit(b if a is t else a))
                us.discard(None)
                if len(us) == 1 and self.from_zero(p):
                    out[p] = ("total", us.pop(), t)
        return out

    def compared(self, t):
        """units of what a number is compared with"""
        us = set()
        for x in all_terms(self.F):
            if x.k == "op" and x.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                ab = x.a[1:3]
            elif x.k == "call" and last(x.a[0]) in ("min", "max", "cmp", "lt", "le", "gt", "ge") and len(x.a) == 4:
                ab = x.a[2:4]
            else:
                continue
            for a, b in (ab, ab[::-1]):
                if t in self.summands(a):
                    us.add(self.unit(b))
        return us - {None}

    def summands(self, t, seen=None):
        seen = set() if seen is None else seen
        t = uncast(t)
        if t in seen:
            return set()
        seen.add(t)
        s = D.plus(t)
        if s is not None:
            return self.summands(s[0], seen) | self.summands(s[1], seen)
        if t.k == "phi":
            return set().union(*[self.summands(x, seen) for x in self.F.phi_in.get(t, ())]) if self.F.phi_in.get(t) else {t}
        return {t}

    def from_zero(self, p):
        """does the constructor set the field to zero?"""
        vals = []
        for n in self.prog.fns:
            if n.startswith(self.ty + "::") and "{closure" not in n and self.ty in self.prog.fns[n].locals[0]["ty"]:
                N = Interp(self.prog, n, inline=OPAQUE)
                for r in E.results(N):
                    x = E.some(r) or r
                    if E.failure(r):
                        continue
                    for k in p:
                        x = q.strip(x)
                        x = x.a[3 + x.a[2].index(k)] if x.k == "agg" and k in x.a[2] else mk("fld", x, k)
                    vals.append(zero(x))
        return bool(vals) and all(vals)

    def fields(self):
        I = self.C
        bk = self.bookkeeping()
        writes = {}
        for n, ws in I.stores.items():
            for root, path, v, sp in ws:
                t = D.place_term(root, path)
                p = field_path(t) if t is not None else None
                if p:
                    writes.setdefault(p, []).append((n, t, v, sp))
        for p, (kind, unit, t) in sorted(bk.items()):
            nm = ".".join(p)
            self.R.count("bookkeeping fields")
            ws = writes.get(p, [])
            what = {"bytes": "the consumed bytes", "source": "the slices dropped by the source", "own": "the slices dropped here"}[unit]
            if not self.ob("field:" + nm, bool(ws), "%s is not moved by %s" % (nm, what), self.fs["consume"]):
                continue
            good = []
            for n, pt, v, sp in ws:
                m = D.minus(v) if kind == "start" else D.plus(v)
                ok = False
                if m is not None:
                    for a, b in ((m[0], m[1]), (m[1], m[0]))[:1 if kind == "start" else 2]:
                        if field_path(q.strip(a)) == p:
                            ok = ok or {"bytes": self.isN, "source": self.isS, "own": self.gone}[unit](b)
                self.ob("field:" + nm, ok, "%s becomes %s: it does not move by %s" % (nm, show(v, 4), what), sp)
                good.append(n)
            self.always("field-always:" + nm, good, "a way through consume does not move %s by %s" % (nm, what))
            again = any(n in q.reach(I, [n]) for n in good) or any(m in q.reach(I, [n]) for n in good for m in good)
            self.ob("field-once:" + nm, not again, "%s is moved twice" % nm, self.fs["consume"])

    # ---- fill
    def cursor(self):
        """a stage that remembers how many slices of its source it has seen takes the ones behind them, and all of them"""
        F = self.F
        ws = [e for e in F.calls(r"SegmentStream.*::as_slices$") if e.kind == "call"]
        if not ws:
            return
        fills = {e.term for e in F.calls(r"SegmentStream.*::fill_segment_buf$") if e.kind == "call"}
        wt = {e.term for e in ws}

        def window(t):
            t = q.strip(t)
            return t.k == "fld" and t.a[1] == "1" and q.strip(t.a[0]) in wt

        def count(t):
            return D.tuple_field(F, t, 2, fills)
        for e in F.calls(r"::next$"):
            pay = mk("pay", e.term)
            it = D.iterated(F, pay)
            if it is None:
                continue
            b = q.strip(it[1])
            if b.k == "phi" and len(F.origins(b)) == 1:
                b = F.origins(b)[0]
            s = q.slice_of(b)
            if window(b) or s is not None and window(s[0]):
                if s is None:
                    self.ob("window", False, "all slices of the source are taken again", e.sp)
                    continue
                self.ob("window-end", s[2] is not None and count(s[2]), "the slices of the source are taken up to %s" % (show(s[2], 4) if s[2] else "the end"), e.sp)
                lo = s[1]
                p = self.start(lo)
                if self.ob("window-start", p is not None, "the slices of the source are taken from %s" % (show(lo, 4) if lo is not None else "the start"), e.sp):
                    good = set()
                    for n, st in F.stores.items():
                        for root, path, v, sp in st:
                            t = D.place_term(root, path)
                            if t is not None and field_path(t) == p:
                                self.ob("window-next", count(v), "%s becomes %s, not the number of slices that were taken" % (".".join(p), show(v, 4)), sp)
                                good.add(n)
                    oks = [n for n, v in F.returns.items() if F.ctx_of_id[n[0]].parent is None]
                    seen = q.reach(F, [e.node], lambda n, m, l: False, avoid=good)
                    bad = [n for n in oks if n in seen and not all(E.failure(x) for x in E.expand(F, F.returns[n]))]
                    self.ob("window-next-always", not bad, "the number of slices that were taken is not kept", e.sp)

    def start(self, lo):
        """the field a window starts at"""
        if lo is None:
            return None
        lo = uncast(lo)
        p = field_path(lo)
        if p:
            return p
        s = D.plus(lo)
        if s is None and lo.k == "phi":
            ps = {self.start(x) for x in self.F.origins(lo)}
            return ps.pop() if len(ps) == 1 else None
        if s is not None:
            for a, b in (s, s[::-1]):
                p = field_path(uncast(a))
                if p and self.bit(b) and self.taken_alone(a):
                    return p
        return None

    def bit(self, t):
        t = q.strip(t)
        while t.k == "cast":
            t = q.strip(t.a[2])
        o = self.F.origins(t)
        return bool(o) and all(x.k == "c" and x.a[0] in (0, 1) for x in o)

    def taken_alone(self, first):
        """the slice at the start is looked at by itself"""
        return any(t.k == "idx" and uncast(t.a[1]) is uncast(first) or t.k == "call" and last(t.a[0]) == "index" and len(t.a) > 3 and uncast(t.a[3]) is uncast(first) for t in all_terms(self.F))

    def offered(self):
        """as many slices are announced as are handed out"""
        F = self.F
        path, hi = self.out
        fills = {e.term for e in F.calls(SRC_FILL) if e.kind == "call"}
        for r in E.results(F):
            p = E.some(r)
            if p is None or E.failure(r):
                continue
            for t in F.origins(q.strip(p)):
                if not (t.k == "agg" and len(t.a) == 7):
                    self.ob("announce", False, "what is announced is %s" % show(t, 3), self.fs["fill_segment_buf"])
                    continue
                c = q.strip(t.a[5])
                for x in F.origins(c):
                    if hi is None:
                        ok = x.k == "call" and last(x.a[0]) == "len" and own_slices(F, x.a[2]) == path or x.k == "c" and x.a[0] == 0
                        self.ob("announced", ok, "%s slices are announced, and all are handed out" % show(x, 4), self.fs["fill_segment_buf"])
                    else:
                        fp = field_path(q.strip(hi))
                        vals = [q.strip(v) for n, ws in F.stores.items() for root, pth, v, sp in ws if D.place_term(root, pth) is not None and field_path(D.place_term(root, pth)) == fp]
                        vs = {y for v in vals for y in F.origins(v)} | set(vals)
                        ok = fp is not None and (x in vs or field_path(x) == fp)
                        self.ob("announced", ok, "%s slices are announced, and %s are handed out" % (show(x, 4), show(hi, 4)), self.fs["fill_segment_buf"])


def zero(t):
    t = q.strip(t)
    return t.k == "c" and t.a[0] == 0


def one(t):
    t = q.strip(t)
    return t.k == "c" and t.a[0] == 1


def all_terms(I):
    r = getattr(I, "_all_terms", None)
    if r is not None:
        return r
    out, st = set(), []
    for e in I.events.values():
        st.extend(v for v in (e.vals or ()) if isinstance(v, T))
    for es in I.succs.values():
        st.extend(l[0] for m, l in es if l is not None)
    for ws in I.stores.values():
        st.extend(v for root, path, v, sp in ws)
    st.extend(I.returns.values())
    while st:
        t = st.pop()
        if not isinstance(t, T) or t in out:
            continue
        out.add(t)
        st.extend(x for x in t.a if isinstance(x, T))
        if t.k == "phi":
            st.extend(I.phi_in.get(t, ()))
    I._all_terms = out
    return out


def F_integer(prog, ty, path):
    """is the field a number?"""
    cur = ty
    for n in path:
        a = prog.adts.get(re.sub(r"<.*$", "", cur))
        if a is None:
            return False
        f = [t for v in a["vars"] for k, t in v["f"] if k == n]
        if len(f) != 1:
            return False
        cur = f[0]
    return cur in ("usize", "isize", "i64", "u64")


# ---- those who take slices
def callee_name(t):
    c = callee(t)
    return c if isinstance(c, str) else (c or {}).get("path") if isinstance(c, dict) else (c[0] if c else None)


FMT = r"TextFormatter.*::format_segments$"


def consumers(prog, R):
    sites = {}
    for p, f in prog.fns.items():
        if re.search(r"::(tester|tests?)::", p):
            continue
        for b, t in f.calls():
            n = callee_name(t)
            if n and re.search(FMT, n):
                sites[p] = f
    R.ob("consumers", len(sites) >= 1, "nothing formats slices", "src/drain")
    seen = set()
    for p in sorted(prog.fns):
        f = prog.fns[p]
        if "::drain::" not in p or re.search(r"::(tester|tests?)::", p) or "{closure" in p:
            continue
        if re.match(r"^<.* as nd::byte::ByteStream>::fill_buf$", p) or re.search(r"::new$", p):
            I = Interp(prog, p, inline=D.INL, max_steps=40000)
            gs = [I]
            for e in I.calls(r"StreamBuf::fill_buf$|thread::(spawn|Builder::spawn|scope|Scope.*::spawn)|Builder::spawn"):
                for v in e.vals:
                    for c in I.origins(v):
                        g = prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                        if g is not None:
                            gs.append(Interp(prog, g.path, args={0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}, inline=D.INL, max_steps=40000))
            for J in gs:
                d = D.Dump(J)
                if d.fmt:
                    R.graph(J)
                    seen.update(e.fn for e in d.fmt)
                    consumer(R, J, d)
    R.ob("consumers-all", {p for p in sites} <= seen, "slices are formatted by %s in a way that is not followed" % ", ".join(sorted(set(sites) - seen)), "src/drain")


def consumer(R, I, d):
    nm = short_name(I)

    def ob(k, ok, msg, sp):
        return R.ob("%s:%s" % (nm, k), ok, msg, sp)
    fills = {e.term for e in d.fill}
    for e in d.fmt:
        ob("offset", D.advances(d, e.vals[1], 0) is not None, "slices are printed with the offset %s, not the number of bytes consumed before" % show(e.vals[1], 4), e.sp)
        ob("stream", d.window(e.vals[2], 0), "slices are cut from %s" % show(e.vals[2], 4), e.sp)
        s = D.formatted(d, e)
        if ob("slices", s is not None, "the slices that are printed are not those of the window behind the ones printed before: %s" % show(e.vals[3], 5), e.sp):
            ob("skip", D.skips(d, s[0]) is not None, "the number of slices printed before is %s, not what was left over from the last window" % show(s[0], 4), e.sp)
    for e in d.cons:
        ob("consume", d.filled(e.vals[1], 3), "%s is consumed, not what the source allows" % show(e.vals[1], 4), e.sp)
    # a window is consumed only after its slices were printed
    fm = [e.node for e in d.fmt]
    nx = [n for e in d.fmt for s in [D.formatted(d, e)] if s is not None and s[1] != "all" for n in [x.node for x in I.calls(r"::next$") if x.term is s[1].a[0]]]
    seen = q.reach(I, [e.node for e in d.fill], None, avoid=fm + nx)
    for e in d.cons:
        ob("printed", e.node not in seen, "slices are consumed that were not printed", e.sp)
    # the end: only when the source has ended, and nothing of it is left
    oks = [n for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None and any(not E.failure(x) for x in E.expand(I, v))]
    errs = [q.is_err_of(e.term) for e in I.calls() if e.term is not None]

    def cut(n, m, l):
        return any(f(n, m, l) for f in errs)
    if any(n in q.reach(I, [e.node for e in d.fill], cut, avoid=[e.node for e in d.cons]) for n in oks):
        for what, i, pts, want in (("the source has not ended", 0, (0, 1), 1), ("something is left", 1, (0, 1, 2, 100), 0)):
            def cut2(n, m, l, i=i, pts=pts, want=want):
                return cut(n, m, l) or q.implies(l, lambda t: d.filled(t, i), pts, lambda p: p == want)
            seen = q.reach(I, [e.node for e in d.fill], cut2, avoid=[e.node for e in d.cons])
            ob("end:%d" % i, not any(n in seen for n in oks), "slices stop being taken although " + what, I.entry.path)


def short_name(I):
    return re.sub(r"^.*drain::", "", I.entry.path)
