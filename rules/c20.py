"""--zip takes one word of every input in turn. For every word size up to 40 and some larger ones the step is built with it, the function
it has chosen for that size is the one analysed: how many bytes a copy takes, where it reads and writes as a function of the word and the
input, how many words there are. How long the part taken from every input is, and when the stream ends, is analysed as an automaton over
what the loop over the inputs keeps, for inputs of different lengths, ended or not."""
import re
from absint import Interp, C, mk, show, last
import q
import cases
from rules import evalx as E
from rules.c17 import steps, tops, ends, choices, FILL, CONSUME, SLICE, OPAQUE
from rules.c18 import failed, inner, mentions
from rules.turn import where, nodes_at, heads_at, incoming, turns, nest

TY = re.compile(r"::ZipStream$")
WORDS = list(range(1, 41)) + [48, 64, 100, 255, 1000]
WALK = ("into_iter", "iter_mut", "iter", "deref_mut", "deref", "as_mut_slice", "as_slice", "by_ref", "as_mut", "as_ref", "borrow_mut")
K = 3


def run(prog, R):
    n = 0
    for ty, fs in sorted(steps(prog).items()):
        if TY.search(ty):
            n += 1
            Zip(prog, R, ty, fs).run()
    R.ob("there", n == 1, "the step that zips its inputs is found %d times" % n, "src/byte")


def closure_of(F, pattern):
    for e in F.calls(pattern):
        for v in e.vals:
            for c in F.origins(v):
                if c.k == "agg" and c.a[0].startswith("closure:") and c.a[0][8:] in F.prog.fns:
                    return c
    return None


def self_of(prog, c):
    return {0: mk("addr", c) if prog.fns[c.a[0][8:]].locals[1]["ty"].startswith("&") else c}


def counted(I, t):
    """is this found by computing with a counter?"""
    idx = [z[1] for x in I.subterms(t) for z in (I.phi_key.get(x) or ((), ()))[1] if z[0] == "i" and hasattr(z[1], "k")]
    return any(x.k == "op" and x.a[0].startswith(("Rem", "Div")) for y in [t] + idx for x in I.subterms(y))


def said(I):
    """what the function returns where it succeeds"""
    for v in tops(I):
        for x in choices(I, v):
            if not E.failure(x):
                p = E.some(x)
                yield x if p is None else p


class Zip:
    def __init__(self, prog, R, ty, fs):
        self.prog, self.R, self.ty, self.fs = prog, R, ty, fs
        self.sp = fs["fill_buf"]

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.sp)

    def run(self):
        self.ctor = None
        for p, f in sorted(self.prog.fns.items()):
            if f.is_fn and p.startswith(self.ty + "::") and "{closure" not in p:
                tys = [f.locals[i + 1]["ty"] for i in range(f.argc)]
                if sum(t == "usize" for t in tys) == 1 and sum("ByteStream" in t for t in tys) == 1:
                    self.ctor, self.wi, self.si = p, tys.index("usize"), [i for i, t in enumerate(tys) if "ByteStream" in t][0]
        if not self.ob("made", self.ctor is not None, "how it is made of inputs and a word size is not recognised", self.ty):
            return
        self.srcs = mk("arg", self.ctor, self.si)
        for w in WORDS:
            self.word(w)

    # ---- values
    def root(self, I, t, depth=0):
        """the collection behind a chain of changes and references"""
        while depth < 200:
            depth += 1
            t = q.strip(t)
            if t.k == "eff":
                t = t.a[3]
            elif t.k == "upd":
                t = t.a[0]
            elif t.k == "phi":
                o = [x for x in I.phi_in.get(t, ()) if not mentions(I, x, t)]
                if not o:
                    return t
                t = min(o, key=lambda x: x.id)
            elif t.k == "call" and last(t.a[0]) in WALK and len(t.a) == 3:
                t = t.a[2]
            elif t.k == "fld":
                r = self.root(I, t.a[0], depth)
                if r.k == "agg" and t.a[1] in r.a[2]:
                    t = r.a[3 + r.a[2].index(t.a[1])]
                else:
                    return mk("fld", r, t.a[1])
            else:
                return t
        return t

    def which(self, I, t):
        """the inputs ("srcs"), or a vector with one element per input ("side")"""
        r = self.root(I, t)
        if r is self.srcs:
            return "srcs"
        if r.k == "call" and last(r.a[0]) in ("collect", "from_elem"):
            return "side"
        return None

    def count_of(self, I, t):
        r = self.root(I, t)
        if r is self.srcs:
            return K
        if r.k == "call" and last(r.a[0]) in ("collect", "map") and len(r.a) > 2:
            return self.count_of(I, r.a[2])
        if r.k == "call" and last(r.a[0]) == "from_elem" and len(r.a) > 3:
            return I.case.num(r.a[3])
        g = q.range_of(r) if r.k == "agg" else None
        if g is not None and g[1] is not None:
            lo, hi = I.case.num(g[0]) if g[0] is not None else 0, I.case.num(g[1])
            return None if lo is None or hi is None else max(hi - lo, 0)
        return None

    def case(self, fn, args, leaf, force=None, heads=()):
        me = self

        class Late(cases.Case):
            def __call__(self, what, t):
                if what == "variant" and force is not None:
                    v = force(self.I, t)
                    if v is not None:
                        return v
                return cases.Case.__call__(self, what, t)
        c = Late(lambda t: leaf(c.I, t), lambda t: me.count_of(c.I, t) if c.I is not None else None)
        c.heads = set(heads)
        I = Interp(self.prog, fn, args=args, assume=c, inline=OPAQUE)
        c.I = I
        I.case = c
        self.R.count("cases")
        return I

    # ---- iteration over the inputs
    def source_of(self, I, it):
        """(what is iterated over, the adapters in between) for an iterator"""
        ad = []
        for _ in range(60):
            it = q.strip(it)
            if it.k == "eff":
                it = it.a[3]
            elif it.k == "upd":
                it = it.a[0]
            elif it.k == "phi":
                o = [x for x in I.phi_in.get(it, ()) if not mentions(I, x, it)]
                if not o:
                    return None, ad
                it = min(o, key=lambda x: x.id)
            elif it.k == "call" and len(it.a) > 2 and last(it.a[0]) in WALK:
                w = self.which(I, it.a[2])
                if w is not None:
                    return it.a[2], ad
                it = it.a[2]
            elif it.k == "call" and last(it.a[0]) == "zip" and len(it.a) == 4:
                return it, ad
            elif it.k == "call" and len(it.a) > 2:
                ad.append(last(it.a[0]))
                it = it.a[2]
            else:
                return it, ad
        return None, ad

    def element(self, I, t, depth=0):
        """(kind, next call, part) of a value that is the element of an iteration: kind "srcs", "side", "range" or None"""
        names = []
        t = q.strip(t)
        while t.k == "fld":
            names.append(t.a[1])
            t = q.strip(t.a[0])
        if t.k != "pay" or t.a[0].k != "call" or last(t.a[0].a[0]) not in ("next", "next_back"):
            return None
        nx = t.a[0]
        src, ad = self.source_of(I, nx.a[2])
        names.reverse()
        while True:
            if src is None:
                return None
            if ad and set(ad) == {"enumerate"} and len(ad) == 1:
                if names[:1] == ["0"]:
                    return ("index", nx, ad)
                names = names[1:]
                ad = []
                continue
            if src.k == "call" and last(src.a[0]) == "zip":
                if not names:
                    return None
                src, a2 = self.source_of(I, src.a[2 + int(names[0])])
                ad, names = ad + a2, names[1:]
                continue
            break
        if last(nx.a[0]) == "next_back":
            ad = ad + ["rev"]
        w = self.which(I, src)
        if w is None and q.range_of(self.root(I, src)) is not None:
            w = "range"
        return (w, nx, ad)

    def covers(self, I, e, t, cut):
        """True: the call is made once for every input; False: it is not; None: cannot be told"""
        x = q.strip(t)
        if x.k == "idx" and self.which(I, x.a[0]) == "srcs":
            el = self.element(I, x.a[1])
            if el is None or el[0] != "range":
                return False if I.case.num(x.a[1]) is not None else None
            n = self.count_of(I, self.source_of(I, el[1].a[2])[0])
            if n is None:
                return None
            if n != K:
                return False
        else:
            el = self.element(I, x)
            if el is None or el[0] != "srcs":
                return None
        if [a for a in el[2] if a not in ("rev", "by_ref", "enumerate")]:
            return False
        nx = [f for f in I.calls() if f.term is el[1]]
        if len(nx) != 1:
            return None
        none = lambda a, b, l: q.is_err_of(nx[0].term)(a, b, l) or cut(a, b, l)
        after = q.reach(I, [nx[0].node], none, avoid=[e.node])
        if nx[0].node in after or any(n in after for n in ends(I) if not failed(I, n)):
            return False
        after = q.reach(I, [nx[0].node], none)
        if any(n in after for n in ends(I) if not failed(I, n)):
            return False
        again = q.reach(I, [e.node], none, avoid=[nx[0].node])
        if e.node in again:
            return None
        seen = q.from_start(I, cut, avoid=[nx[0].node])
        return not any(n in seen for n in ends(I) if not failed(I, n))

    # ---- one word size
    def word(self, w):
        J = Interp(self.prog, self.ctor, args={self.wi: C(w, "usize")}, inline=OPAQUE)
        vs = [x for v in tops(J) for x in choices(J, v)]
        if not self.ob("made", len(vs) == 1 and vs[0].k == "agg", "what it is made of for words of %d bytes is not recognised" % w, self.ctor):
            return
        V = vs[0]
        self.R.graph(J)
        F = Interp(self.prog, self.fs["fill_buf"], args={0: mk("addr", V)}, inline=OPAQUE)
        self.R.graph(F)
        c = closure_of(F, r"StreamBuf::fill_buf$")
        if not self.ob("filled", c is not None, "how its buffer is filled is not recognised"):
            return
        self.fill(w, c)

    def fill(self, w, c):
        fn, args = c.a[0][8:], self_of(self.prog, c)
        st = {}

        def leaf(I, t):
            if t.k == "fld" and t.a[1] in ("0", "1"):
                b = q.strip(t.a[0])
                if b.k == "pay" and b.a[0].k == "call" and re.search(FILL, b.a[0].a[0]):
                    return st.get("x" if t.a[1] == "0" else "y")
            if t.k == "phi" and "phi" in st and t in I.phi_in:
                return st["phi"].get(I.signature(t))
            return None
        force = lambda I, t: "Some" if "x" in st and t.k == "pay" and False else None
        I = self.case(fn, args, leaf, force)
        self.R.graph(I)
        fills = [e for e in I.calls(FILL) if e.kind == "call"]
        gat = list(I.calls(r"fill_uninit\w*$"))
        if not self.ob("inputs", bool(fills), "its inputs are not asked for data"):
            return
        errs = lambda a, b, l: any(q.is_err_of(e.term)(a, b, l) for e in fills + gat)
        for e in fills:
            self.ob("every-input", self.covers(I, e, e.vals[0], errs) is not False, "not every input is asked for data", e.sp)
            n = I.case.num(e.vals[1])
            self.ob("asked", n is None or n > 0, "it asks for %s bytes" % n, e.sp)
        if not self.ob("gathered", len(gat) == 1, "where the words are gathered is not recognised"):
            return
        g = gat[0]
        hs = nest(I, fills[0].node)
        if not self.ob("loop", len(fills) == 1 and bool(hs), "the loop over the inputs is not recognised"):
            return
        hw = where(I, hs[0])
        # what the loop keeps
        start = {}
        for sig, p in heads_at(I, hw).items():
            a, b = turns(I, p)
            ns = {I.case.num(x) for x in a}
            if len(ns) == 1 and None not in ns:
                start[sig] = ns.pop()
        Y = (10, 20, 30) if w == 3 else (5 * w + w // 2,)
        seen = {}
        todo = [(tuple(sorted(start.items(), key=str)), (None, None))]
        while todo:
            state, spec = todo.pop()
            if (state, spec) in seen:
                continue
            seen[state, spec] = 1
            if len(seen) > 400:
                self.ob("automaton", False, "what the loop over the inputs keeps is not bounded")
                return
            ph = dict(state)
            for x in (0, 1):
                for y in Y:
                    st.clear()
                    st.update(phi=ph, x=x, y=y)
                    I = self.case(fn, args, leaf, None, list(start))
                    if x == 0 and y == Y[0] and spec[0] is not None:
                        self.outcome(I, w, spec)
                    if w != 3 and spec[0] is not None:
                        continue
                    new = {}
                    ok = True
                    for sig, p in heads_at(I, hw).items():
                        if sig in ph:
                            ns = {I.case.num(v) for v in turns(I, p)[1]}
                            ok = ok and len(ns) == 1 and None not in ns
                            new[sig] = ns.pop() if ns else None
                    if not self.ob("turn", ok and len(new) == len(ph), "what an input with %d bytes%s changes cannot be told" % (y, ", the last ones," if x else "")):
                        return
                    m = y if spec[0] is None else min(y, spec[0])
                    s = spec[1] if not x else y if spec[1] is None else min(y, spec[1])
                    todo.append((tuple(sorted(new.items(), key=str)), (m, s)))
        self.R.count("states", len(seen))
        # what is gathered
        st.clear()
        I = self.case(fn, args, leaf, force)
        self.pointers(I, errs)
        for e in I.calls(r"fill_uninit\w*$"):
            d = closure_of_event(I, e)
            if self.ob("gathered", d is not None, "how the words are gathered is not recognised", e.sp):
                self.gather(w, d)

    def outcome(self, I, w, spec):
        """after the loop: what is gathered, consumed and announced"""
        m, s = spec
        n = m // w * w
        txt = "words of %d bytes, the shortest input has %d bytes%s" % (w, m, ", and one ends after %d" % s if s is not None else "")
        gat = list(I.calls(r"fill_uninit\w*$"))
        if not self.ob("always-gathered", bool(gat) or n == 0, "%s: nothing is gathered" % txt):
            return
        for e in gat:
            k = I.case.num(e.vals[1])
            self.ob("room", k == K * n, "%s: of %d inputs %s bytes are gathered, not %d" % (txt, K, k, K * n), e.sp)
        cons = [e for e in I.calls(CONSUME) if e.kind == "call"]
        self.ob("taken", bool(cons) or n == 0, "%s: what is gathered is not consumed" % txt)
        for e in cons:
            k = I.case.num(e.vals[1])
            self.ob("taken", k == n, "%s: %s bytes of an input are consumed, not %d" % (txt, k, n), e.sp)
            if n:
                errs = lambda a, b, l: any(q.is_err_of(x.term)(a, b, l) for x in gat + list(I.calls(FILL)))
                self.ob("every-input-taken", self.covers(I, e, e.vals[0], errs) is not False, "%s: what was taken is not consumed from every input" % txt, e.sp)
        end = int(s is not None and s <= m)
        got = {I.case.num(v) for v in said(I)}
        self.ob("end", got == {end}, "%s: it announces %s, not %s" % (txt, sorted(got, key=str), "the end" if end else "that more follows"))

    def pointers(self, I, errs):
        """the places the words are read from are those the inputs hand out"""
        for n, ws in I.stores.items():
            for root, p, v, sp in ws:
                v = q.strip(v)
                if not (isinstance(root, tuple) and root[0] == "M" and hasattr(root[1], "k")):
                    continue
                el = self.element(I, root[1])
                if el is None or el[0] != "side" or v.k == "phi":
                    continue
                ok = v.k == "call" and last(v.a[0]) == "as_ptr" and len(v.a) == 3
                b = q.strip(v.a[2]) if ok else None
                ok = ok and b.k == "call" and re.search(SLICE, b.a[0])
                se = self.element(I, b.a[2]) if ok else None
                self.ob("place", bool(ok) and se is not None and se[0] == "srcs" and se[1] is el[1] and se[2] == el[2], "the words of an input are read from %s" % show(v, 4), sp)
                for e in I.calls(FILL):
                    self.ob("place-late", e.node not in q.reach(I, [n]), "the inputs are filled after the places to read from were taken", sp)

    # ---- the words
    def gather(self, w, c):
        fn, args = c.a[0][8:], self_of(self.prog, c)
        N = 5
        env = {}

        def leaf(I, t):
            if t in env:
                return env[t]
            if t.k == "phi" and t not in I.phi_in:
                return N * w
            el = None
            if t.k in ("pay", "fld") or t.k == "idx":
                el = self.element(I, t)
            if el is not None and el[0] in ("range", "index"):
                return env.get(("idx", el[1]))
            if t.k == "fld" and t.a[1] == "*" or t.k == "deref":
                x = self.element(I, t.a[0])
                if x is not None and x[0] == "side":
                    return env.get("cell")
            if t.k == "call" and last(t.a[0]) == "as_mut_ptr" or t.k == "arg" and t.a[0] == fn and t.a[1] == 1:
                return env.get("buf")
            return None
        I = self.case(fn, args, leaf)
        self.R.graph(I)
        got = {I.case.num(v) for v in said(I)}
        self.ob("gathered-bytes", got == {K * N * w}, "words of %d bytes: %d of each of %d inputs are announced as %s bytes, not %d" % (w, N, K, sorted(got, key=str), K * N * w), fn)
        cp = [e for e in I.calls(r"(^|::)(copy_nonoverlapping|copy_to_nonoverlapping|copy_from_nonoverlapping|copy|copy_to|copy_from)$") if e.kind == "call" and len(e.vals) == 3 and "ptr" in e.name]
        if not self.ob("copied", bool(cp), "words of %d bytes: nothing is copied" % w, fn):
            return
        if len(cp) != 1:
            self.R.count("forms-not-followed")
            return
        e = cp[0]
        src, dst, n = e.vals if not re.search(r"copy_from", last(e.name)) else (e.vals[1], e.vals[0], e.vals[2])
        hs = nest(I, e.node)
        if len(hs) == 1 and counted(I, src):
            self.R.count("forms-not-followed")      # one loop over all words, the input being computed from its counter
            return
        if len(hs) != 2:
            self.ob("copied", len(hs) > 2, "words of %d bytes: they are copied in %d nested loops" % (w, len(hs)), e.sp)
            return
        hin, hout = hs
        nodes = q.reach(I, [hin], include=True, avoid=[hout])
        # the loops: which iterations drive them
        drive = {}
        for x in I.calls():
            if x.name and last(x.name) == "next" and x.node in q.reach(I, [e.node]) and x.term is not None:
                h = nest(I, x.node)
                el = self.element(I, mk("pay", x.term))
                z = self.source_of(I, x.vals[0]) if el is None or el[0] is None else None
                drive.setdefault(h[0] if h else None, []).append((x, el))
        for h, lim, what in ((hin, K, "inputs"), (hout, N, "words")):
            for x, el in drive.get(h, []):
                s, ad = self.source_of(I, x.vals[0])
                cnt = None
                if s is not None and s.k != "call":
                    cnt = self.count_of(I, s)
                elif s is not None:
                    cnt = self.count_of(I, s)
                odd = [a for a in ad if a not in ("enumerate", "by_ref")]
                self.ob("number", cnt in (None, lim) and not (odd and cnt is not None), "words of %d bytes: %s %s are gathered where there are %d" % (w, cnt if not odd else "not all", what, lim), x.sp)
        # where a word of an input is read and written: affine in the number of the word (i) and of the input (j)
        CELL, BUF = 1000000, 7000000
        env.update(cell=CELL, buf=BUF)
        for h in (hin, hout):
            for x, el in drive.get(h, []):
                env["idx", x.term] = 0
        step = {0}
        st = []
        for n_, ws in I.stores.items():
            for root, p, v, sp in ws:
                if isinstance(root, tuple) and root[0] == "M" and hasattr(root[1], "k"):
                    el = self.element(I, root[1])
                    if el is not None and el[0] == "side":
                        st.append((n_, v, sp))
        cells = [p for p in I.phi_in if p.a[3].startswith("M")]
        for p in cells:
            env[p] = CELL
        if st:
            step = {None if v is None else v - CELL for v in (I.case.num(v) for n_, v, sp in st)}
            seen = q.reach(I, [e.node], None, avoid=[n_ for n_, v, sp in st])
            self.ob("moves", hin not in seen or any(e.node in q.reach(I, [n_], None, avoid=[hin]) for n_, v, sp in st), "words of %d bytes: the place to read from does not always move on" % w, e.sp)
        if len(step) != 1 or None in step:
            self.R.count("forms-not-followed")
            return
        step = step.pop()
        hi = {p for p, n_ in I.phi_where.items() if p in I.phi_in and n_ == hin and p not in cells}
        ho = {p for p, n_ in I.phi_where.items() if p in I.phi_in and n_ == hout and p not in cells}
        base = {}
        for p in ho:
            ns = {I.case.num(x) for x in turns(I, p)[0]}
            if len(ns) == 1 and None not in ns:
                base[p] = ns.pop()
        env.update(base)
        ent, B = {}, {}
        for p in hi:
            ns = {I.case.num(x) for x in turns(I, p, [hout])[0]}
            if len(ns) == 1 and None not in ns:
                ent[p] = ns.pop()
        env.update(ent)
        for p in ent:
            ns = {I.case.num(x) for x in turns(I, p, [hout])[1]}
            if len(ns) == 1 and None not in ns:
                B[p] = ns.pop() - ent[p]
        A = {}
        for p in ent:
            if p in B:
                env[p] = ent[p] + K * B[p]
        for p in base:
            ns = {I.case.num(x) for x in turns(I, p)[1]}
            if len(ns) == 1 and None not in ns:
                A[p] = ns.pop() - base[p]
        for i, j in ((0, 0), (0, 1), (1, 0), (1, 2), (4, 2)):
            env["cell"] = CELL + i * step
            for p in cells:
                env[p] = CELL + i * step
            for x, el in drive.get(hin, []):
                env["idx", x.term] = j
            for x, el in drive.get(hout, []):
                env["idx", x.term] = i
            for p in base:
                env.pop(p, None)
                if p in A:
                    env[p] = base[p] + i * A[p]
            for p in ent:
                env.pop(p, None)
            ins = {}
            for p in ent:
                if p in B:
                    ns = {I.case.num(x) for x in turns(I, p, [hout])[0]}
                    v = ns.pop() if len(ns) == 1 else None
                    if v is not None:
                        ins[p] = v + j * B[p]
            env.update(ins)
            a, b, k = I.case.num(src), I.case.num(dst), I.case.num(n)
            txt = "words of %d bytes: word %d of input %d" % (w, i, j)
            self.ob("size", k == w, "%s: %s bytes are copied" % (txt, k), e.sp)
            if a is None or b is None:
                self.R.count("forms-not-followed")
                continue
            self.ob("from", a == CELL + i * w, "%s is read at %d of the input, not %d" % (txt, a - CELL, i * w), e.sp)
            self.ob("to", b == BUF + (i * K + j) * w, "%s goes to %d, not %d" % (txt, b - BUF, (i * K + j) * w), e.sp)


def closure_of_event(I, e):
    for v in e.vals:
        for c in I.origins(v):
            if c.k == "agg" and c.a[0].startswith("closure:") and c.a[0][8:] in I.prog.fns:
                return c
    return None
