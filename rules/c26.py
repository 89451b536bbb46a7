"""Printed lines. The function that prints slices is analysed with numbers for the offset, the slice and the width: what each of its
writes puts where in the line, in the order of the program, against the line that is wanted, byte by byte. The routines for the columns
are analysed one by one in the same way, on both kinds of processor."""
import re
from absint import Interp, mk, show, last
from mir import callee
import q
import lanes
from rules import evalx as E
from rules.c17 import choices
from rules.fillx import Num, numbers, said
from rules.turn import closure_body, where, turns, loop_head
from rules import turn
from rules.c25 import fields, Lost

TY = "nd::text::formatter::TextFormatter"
HEX = "0123456789abcdef"
BIG = 1 << 26
KNOWN = {"format_hex_single": "hex", "format_hex_body": "columns", "format_mosaic": "characters", "format_dec_single": "dec"}
VIEWS = {"split_at_mut", "split_at", "index_mut", "index", "as_mut_ptr", "as_ptr", "len", "is_empty", "iter_mut", "iter", "into_iter", "next", "enumerate", "zip", "rev", "wrapping_add", "add", "offset",
         "cast", "get_unchecked_mut", "get_unchecked", "chunks_exact_mut", "chunks_mut", "chunks", "chunks_exact", "deref", "deref_mut", "as_mut", "as_ref", "cast_mut", "by_ref", "drop", "first_mut", "last_mut",
         "get_mut", "unwrap", "copied", "cloned", "take", "skip"}
DEBUG = 0


def byte(k):
    """the bytes of the stream"""
    return (k * 167 + 43 + (k >> 8) * 31) & 255


def nest(I, node):
    """the heads of the loops a node is in; a loop comes back to its head from inside"""
    out = []
    for h in turn.nest(I, node):
        memo = I.__dict__.setdefault("back_edges", {})
        if h not in memo:
            free = q.from_start(I, None, avoid=[h])
            memo[h] = {n for n in q.reach(I, [h], include=True) if n not in free and any(m == h for m, _ in I.succs.get(n, ()))}
        if node == h and memo[h] or memo[h] & set(q.reach(I, [node], avoid=[h], include=True)):
            out.append(h)
    return out


class Writer:
    """what a function writes: args are numbers of its arguments, dst(t) and src(t) the places its slices begin (or None)"""

    def __init__(self, prog, R, fn, args, leaf, dst, src, ndst, nsrc, routines=()):
        self.prog, self.R, self.fn, self.args, self.leaf, self.dst, self.src = prog, R, fn, args, leaf, dst, src
        self.ndst, self.nsrc, self.routines = ndst, nsrc, routines
        self.step, self.state, self.local = {}, {}, {}
        self.L = lanes.Lanes(self.memory)
        self.inside = True

    def inline(self, tg, c):
        return tg.path in self.prog.fns and "{closure" not in tg.path and last(tg.path) not in self.routines

    # ---- values
    def memory(self, me, t):
        p = self.at(me, t)
        return None if p is None or p[0] != "src" else [byte(p[1] + i) for i in range(16)]

    def at(self, me, t, depth=0):
        """("dst" or "src", offset) of a place"""
        t = q.strip(t)
        d = depth + 1
        if depth > 40 or not hasattr(t, "k"):
            return None
        for k, f in (("dst", self.dst), ("src", self.src)):
            n = f(t)
            if n is not None:
                return (k, n)
        plus = lambda p, n: None if p is None or n is None else (p[0], p[1] + n)
        if t.k in ("cast", "addr", "ref", "deref") or t.k == "fld" and t.a[1] == "*":
            x = t.a[2] if t.k == "cast" else t.a[0]
            return self.at(me, x, d) if hasattr(x, "k") else None
        if t.k == "phi" and me.I is not None:
            s = me.I.signature(t)
            if s in self.state:
                v = self.state[s]
                return v[1] if v[0] == "p" else None
            vs = {self.at(me, x, d) for x in me.I.phi_in.get(t, ()) if q.strip(x) is not t}
            return vs.pop() if len(vs) == 1 else None
        if t.k in ("eff", "upd"):
            return self.at(me, t.a[3] if t.k == "eff" else t.a[0], d)
        if t.k == "call" and len(t.a) == 3 and last(t.a[0]) in ("as_ptr", "as_mut_ptr", "cast", "cast_mut", "cast_const", "deref", "deref_mut", "as_ref", "as_mut", "iter", "iter_mut", "into_iter"):
            return self.at(me, t.a[2], d)
        if t.k == "call" and len(t.a) == 4 and last(t.a[0]) in ("add", "wrapping_add", "offset", "wrapping_offset") and "ptr" in t.a[0]:
            return plus(self.at(me, t.a[2], d), me.num(t.a[3]))
        if t.k == "call" and len(t.a) == 4 and last(t.a[0]) in ("get_unchecked_mut", "get_unchecked", "index", "index_mut"):
            return self.at(me, mk("idx", t.a[2], t.a[3]), d)
        if t.k == "fld" and t.a[1] in ("0", "1"):
            b = q.strip(t.a[0])
            if b.k == "pay":
                b = q.strip(b.a[0])
            if b.k == "call" and re.match(r"split_at", last(b.a[0])) and len(b.a) == 4:
                return plus(self.at(me, b.a[2], d), me.num(b.a[3]) if t.a[1] == "1" else 0)
        path, x = fields(t)
        if x.k == "pay":
            v = self.item(me, x, path)
            return v[1] if v is not None and v[0] == "p" else None
        s = q.slice_of(t)
        if s is not None:
            return plus(self.at(me, s[0], d), 0 if s[1] is None else me.num(s[1]))
        if t.k == "idx":
            return plus(self.at(me, t.a[0], d), me.num(t.a[1]) if hasattr(t.a[1], "k") else t.a[1])
        return None

    def iterated(self, I, t):
        """the iterator a step is made on"""
        t = q.strip(t)
        for _ in range(20):
            if t.k in ("addr", "cast") or t.k == "fld" and t.a[1] == "*":
                t = q.strip(t.a[2] if t.k == "cast" else t.a[0])
            elif t.k == "phi":
                xs = [q.strip(x) for x in I.phi_in.get(t, ()) if q.strip(x).k != "eff"]
                if len(xs) != 1:
                    return None
                t = xs[0]
            elif t.k == "eff":
                t = q.strip(t.a[3])
            elif t.k == "call" and len(t.a) == 3 and last(t.a[0]) in ("into_iter", "by_ref", "copied", "cloned") and "zip" not in last(t.a[0]):
                t = q.strip(t.a[2])
            else:
                return t
        return None

    def count(self, me, it, I):
        """how many items an iterator gives"""
        it = self.iterated(I, it)
        if it is None:
            return None
        if it.k == "call" and len(it.a) > 2:
            l = last(it.a[0])
            if l in ("enumerate", "rev"):
                return self.count(me, it.a[2], I)
            if l == "zip":
                a, b = self.count(me, it.a[2], I), self.count(me, it.a[3], I)
                return None if a is None or b is None else min(a, b)
            if l in ("take", "skip"):
                a, b = self.count(me, it.a[2], I), me.num(it.a[3])
                return None if a is None or b is None else min(a, b) if l == "take" else max(a - b, 0)
            if l in ("iter", "iter_mut"):
                return me.length(it.a[2])
            if re.match(r"chunks(_exact)?(_mut)?$", l):
                a, b = me.length(it.a[2]), me.num(it.a[3])
                return None if a is None or not b else a // b if "exact" in l else -(-a // b)
            if l == "new" and "RangeInclusive" in it.a[0]:
                a, b = me.num(it.a[2]), me.num(it.a[3])
                return None if a is None or b is None else max(b + 1 - a, 0)
        if it.k == "agg" and "Range" in it.a[0]:
            f = dict(zip(it.a[2], it.a[3:]))
            if "start" in f:
                a, b = me.num(f["start"]), me.num(f["end"]) if "end" in f else BIG
                return None if a is None or b is None else max(b - a, 0)
            return None
        return me.length(it) if self.at(me, it) is not None else None

    def nth(self, me, it, I, i, path):
        """("n", number) or ("p", place) of the i-th item"""
        it = self.iterated(I, it)
        if it is None:
            return None
        if it.k == "call" and len(it.a) > 2:
            l = last(it.a[0])
            if l == "enumerate" and path:
                return ("n", i) if path == ("0",) else self.nth(me, it.a[2], I, i, path[1:]) if path[0] == "1" else None
            if l == "zip" and path and path[0] in ("0", "1"):
                return self.nth(me, it.a[2 + int(path[0])], I, i, path[1:])
            if l == "rev":
                n = self.count(me, it.a[2], I)
                return None if n is None else self.nth(me, it.a[2], I, n - 1 - i, path)
            if l == "take":
                return self.nth(me, it.a[2], I, i, path)
            if l == "skip":
                n = me.num(it.a[3])
                return None if n is None else self.nth(me, it.a[2], I, i + n, path)
            if path:
                return None
            if l in ("iter", "iter_mut"):
                p = self.at(me, it.a[2])
                return None if p is None else ("p", (p[0], p[1] + i))
            if re.match(r"chunks(_exact)?(_mut)?$", l):
                p, n = self.at(me, it.a[2]), me.num(it.a[3])
                return None if p is None or n is None else ("p", (p[0], p[1] + i * n))
            if l == "new" and "RangeInclusive" in it.a[0]:
                a = me.num(it.a[2])
                return None if a is None else ("n", a + i)
            return None
        if path:
            return None
        if it.k == "agg" and "Range" in it.a[0]:
            f = dict(zip(it.a[2], it.a[3:]))
            a = me.num(f["start"]) if "start" in f else None
            return None if a is None else ("n", a + i)
        p = self.at(me, it)
        return None if p is None else ("p", (p[0], p[1] + i))

    def item(self, me, pay, path):
        c = q.strip(pay.a[0])
        if c.k == "call" and last(c.a[0]) == "next" and len(c.a) == 3 and me.I is not None:
            w = self.node_of(me.I, c)
            if w in self.step:
                return self.nth(me, c.a[2], me.I, self.step[w], path)
        return None

    def node_of(self, I, c):
        for n, s in I.site_ids.items():
            if s == c.a[1]:
                return where(I, n)
        return None

    def num(self, me, t):
        v = self.leaf(me, t)
        if v is not None:
            return v
        if me.I is None:
            return None
        v = self.L.num(me, t)
        if v is not None:
            return v
        if t.k == "call" and last(t.a[0]) in self.routines:
            kind = KNOWN[last(t.a[0])]
            if kind == "hex":
                n = me.num(t.a[4])
                return None if n is None else 2 * n + 1
            if kind == "dec":
                n = me.num(t.a[3])
                return None if n is None else len("%d " % n)
            n = me.length(t.a[3])
            return None if n is None else n * (3 if kind == "columns" else 1)
        if t.k == "un" and t.a[0] == "Not":
            x = q.strip(t.a[1])
            if x.k == "call" and re.search(r"u64|usize", x.a[0]):
                v = me.num(x)
                return None if v is None else lanes.M64 ^ (v & lanes.M64)
        if t.k == "phi":
            v = self.state.get(me.I.signature(t))
            return v[1] if v is not None and v[0] == "n" else None
        path, x = fields(t)
        if x.k == "pay":
            v = self.item(me, x, path)
            if v is not None:
                return v[1] if v[0] == "n" else byte(v[1][1]) if v[1][0] == "src" else None
        if t.k == "idx":
            b, n = q.strip(t.a[0]), me.num(t.a[1]) if hasattr(t.a[1], "k") else t.a[1]
            while b.k == "addr" or b.k == "fld" and b.a[1] == "*":
                b = q.strip(b.a[0])
            if n is not None and b.k == "s" and 0 <= n < len(b.a[0]):
                return b.a[0][n] if isinstance(b.a[0], (bytes, bytearray)) else ord(b.a[0][n])
            if n is not None and b.k == "agg" and b.a[0] == "array" and n in self.local:
                return self.local[n]
            if n is not None and b.k == "agg" and b.a[0] == "array" and 0 <= n < len(b.a) - 3:
                return me.num(b.a[3 + n])
        if t.k in ("idx", "fld"):
            p = self.at(me, t)
            if p is not None and p[0] == "src":
                return byte(p[1])
        return None

    def size(self, me, t):
        t = q.strip(t)
        if self.dst(t) is not None:
            return self.ndst
        if self.src(t) is not None:
            return self.nsrc
        if t.k == "fld" and t.a[1] == "*":
            return self.size(me, t.a[0])
        if t.k == "fld" and t.a[1] == "1":
            b = q.strip(t.a[0])
            if b.k == "call" and last(b.a[0]) in ("split_at_mut", "split_at", "split_at_mut_unchecked") and len(b.a) == 4:
                n, k = me.length(b.a[2]), me.num(b.a[3])
                return None if n is None or k is None else n - k
        if t.k == "phi" and me.I is not None and me.I.signature(t) in self.state:
            return None
        path, x = fields(t)
        if x.k == "pay" and me.I is not None:
            c = q.strip(x.a[0])
            if c.k == "call" and last(c.a[0]) == "next" and len(c.a) == 3:
                it = self.iterated(me.I, c.a[2])
                while it is not None and it.k == "call" and last(it.a[0]) in ("enumerate", "zip", "rev"):
                    l = last(it.a[0])
                    if l != "rev":
                        if not path:
                            return None
                        it, path = it.a[2 + (l == "zip" and path[0] == "1")], path[1:]
                    else:
                        it = it.a[2]
                    it = self.iterated(me.I, it)
                if it is not None and not path and it.k == "call" and re.match(r"chunks(_exact)?(_mut)?$", last(it.a[0])):
                    n, k, i = me.length(it.a[2]), me.num(it.a[3]), self.step.get(self.node_of(me.I, c))
                    return None if n is None or not k or i is None else min(k, n - i * k)
        return None

    # ---- one analysis
    def case(self):
        def variant(me, t):
            t = q.strip(t)
            if t.k == "call" and last(t.a[0]) == "next" and me.I is not None:
                w = self.node_of(me.I, t)
                if w in self.step:
                    return "Some"
            return None
        c = Num({"leaf": self.num, "variant": variant, "size": self.size, "phi": {}})
        c.heads |= set(self.state)
        I = Interp(self.prog, self.fn, args=self.args, assume=c, inline=self.inline)
        c.I = I
        I.case = c
        self.R.count("cases")
        return I

    def value(self, J, t):
        vs = numbers(J, t)
        if len(vs) == 1 and None not in vs:
            return ("n", vs.pop())
        p = self.at(J.case, t)
        return None if p is None else ("p", p)

    def touched(self, I, t):
        """a value that is made from a place in the line"""
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if not hasattr(x, "k") or x in seen:
                continue
            seen.add(x)
            if self.dst(x) is not None:
                return True
            if x.k == "call" and last(x.a[0]) in ("len", "is_empty") or x.k == "fld" and x.a[1] in ("len", "pos"):
                continue
            st.extend(y for y in x.a if hasattr(y, "k"))
            if x.k == "phi":
                st.extend(I.phi_in.get(x, ()))
        return False

    def const(self, me, t):
        t = q.strip(t)
        for _ in range(10):
            if t.k in ("addr", "cast") or t.k == "fld" and t.a[1] == "*":
                t = q.strip(t.a[2] if t.k == "cast" else t.a[0])
        if t.k == "s":
            return list(t.a[0]) if isinstance(t.a[0], (bytes, bytearray)) else [ord(x) for x in t.a[0]]
        if t.k == "agg" and t.a[0] == "array":
            vs = [me.num(x) for x in t.a[3:]]
            return None if None in vs else vs
        p, n = self.at(me, t), me.length(t)
        if p is not None and p[0] == "src" and n is not None:
            return [byte(p[1] + i) for i in range(n)] if n < 4096 else Source(p[1], n)
        return None

    def effects(self, I, n):
        """the writes of a node: (offset, bytes or (routine, length, function), sp)"""
        me = I.case
        out = []
        for root, path, v, sp in I.stores.get(n, ()):
            if root[0] != "M" or not hasattr(root[1], "k"):
                if len(path) == 1 and path[0][0] == "i":
                    k, b = (me.num(path[0][1]) if hasattr(path[0][1], "k") else path[0][1]), numbers(I, v)
                    if k is None or len(b) != 1 or None in b or self.local and self.local.get("of") != where_root(I, root):
                        raise Lost()
                    self.local.setdefault("of", where_root(I, root))
                    self.local[k] = b.pop()
                continue
            t, k = root[1], None
            p = self.at(me, t)
            if p is None:
                if self.touched(I, t):
                    raise Lost()
                continue
            if p[0] != "dst":
                raise Lost()
            for kind, x in path:
                if (kind, x) == ("f", "*"):
                    continue
                if kind != "i" or k is not None:
                    raise Lost()
                k = me.num(x) if hasattr(x, "k") else x
                if k is None:
                    raise Lost()
            if k is not None:
                size = me.length(t)
                if size is not None and not 0 <= k < size:
                    self.inside = False
            b = numbers(I, v)
            if len(b) != 1 or None in b:
                if DEBUG:
                    print("value", show(v, 8), sp)
                raise Lost()
            out.append((p[1] + (k or 0), [b.pop() & 255], sp))
        e = I.events.get(n)
        for e in ([e] if e is not None and e.kind == "call" and e.name else []):
            l = last(e.name)
            if l in self.routines:
                p = self.at(me, e.vals[0])
                if p is None or p[0] != "dst":
                    raise Lost()
                out.append((p[1], self.routine(I, KNOWN[l], e, me.length(e.vals[0])), e.sp))
            elif re.search(r"_mm(256)?_storeu?_si(128|256)$", l):
                p, v = self.at(me, e.vals[0]), self.L.vec(me, e.vals[1])
                if p is None or v is None or p[0] != "dst":
                    if DEBUG:
                        print("vector", p, v, show(e.vals[0], 6), show(e.vals[1], 6))
                    raise Lost()
                out.append((p[1], v, e.sp))
            elif l in ("copy_nonoverlapping", "copy") and len(e.vals) == 3:
                s, p, k = self.at(me, e.vals[0]), self.at(me, e.vals[1]), me.num(e.vals[2])
                if p is None or p[0] != "dst" or k is None or s is None or s[0] != "src":
                    raise Lost()
                out.append((p[1], Source(s[1], k), e.sp))
            elif l in ("copy_from_slice", "clone_from_slice") and len(e.vals) == 2:
                p = self.at(me, e.vals[0])
                if p is None and not self.touched(I, e.vals[0]):
                    continue
                b, k = self.const(me, e.vals[1]), me.length(e.vals[0])
                if p is None or p[0] != "dst" or b is None or k is None:
                    raise Lost()
                if len(b) != k:
                    self.inside = False
                out.append((p[1], b, e.sp))
            elif l == "fill" and len(e.vals) == 2 or l == "write_bytes" and len(e.vals) == 3:
                p, k, b = self.at(me, e.vals[0]), me.length(e.vals[0]) if l == "fill" else me.num(e.vals[2]), me.num(e.vals[1])
                if p is None and not self.touched(I, e.vals[0]):
                    continue
                if p is None or p[0] != "dst" or k is None or b is None:
                    raise Lost()
                out.append((p[1], [b & 255] * k, e.sp))
            elif l == "write" and "ptr" in e.name and len(e.vals) == 2:
                p, b = self.at(me, e.vals[0]), me.num(e.vals[1])
                if p is None or p[0] != "dst" or b is None:
                    raise Lost()
                out.append((p[1], [b & 255], e.sp))
            elif l not in VIEWS and not re.search(r"_mm(256)?_", l) and not re.search(r"panic", e.name) and any(self.touched(I, v) for v in e.vals):
                if DEBUG:
                    print("call", e.name, e.sp)
                raise Lost()
        return out

    def run(self):
        """(writes in the order of the program, the numbers returned)"""
        I = self.case()
        self.R.graph(I)
        nodes = sorted((n for n in I.nodes), key=I.prio)
        loops, out, done = {}, [], set()
        self.inside = True
        for n in nodes:
            if not (n in I.stores or n in I.events):
                continue
            hs = nest(I, n)
            if not hs:
                out.append((I.prio(n), n, None))
            else:
                loops.setdefault(where(I, hs[-1]), []).append(n)
                if len(hs) > 1 and self.effects_possible(I, n):
                    raise Lost()
        for w, ns in loops.items():
            h = next(n for n in I.nodes if where(I, n) == w)
            out.append((I.prio(h), None, w))
        res = []
        for _, n, w in sorted(out, key=lambda x: x[0]):
            if n is not None:
                res.extend(self.effects(self.now(I), self.same(self.now(I), I, n)) if self.state else self.effects(I, n))
            else:
                res.extend(self.loop(I, w))
        J = self.now(I)
        return res, {x for v in said(J) for x in numbers(J, v)}

    def now(self, I):
        """the analysis with what the loops so far leave behind"""
        if not self.state:
            return I
        k = tuple(sorted((str(s), v) for s, v in self.state.items()))
        if getattr(self, "kept", None) is None or self.kept[0] != k:
            self.kept = (k, self.case())
        return self.kept[1]

    def same(self, J, I, n):
        w = where(I, n)
        return next((m for m in J.nodes if where(J, m) == w), None)

    def effects_possible(self, I, n):
        return any(r[0] == "M" for r, _, _, _ in I.stores.get(n, ())) or n in I.events

    def loop(self, I, w):
        I = self.now(I)
        h = next(n for n in I.nodes if where(I, n) == w)
        body = [n for n in I.nodes if h in nest(I, n)]
        steps = [e for e in I.calls() if e.kind == "call" and e.name and last(e.name) == "next" and e.node in body]
        if len(steps) > 1:
            raise Lost()
        at = where(I, steps[0].node) if steps else None
        me = I.case
        n = self.count(me, steps[0].vals[0], I) if steps else 100
        if n is None or n > 400:
            if DEBUG:
                print("count", n, show(steps[0].vals[0], 6))
            raise Lost()
        carried = {I.signature(p): p for p, m in I.phi_where.items() if p in I.phi_in and m == h and I.phi_key[p][0][0] != "M" and not any(k[0] == "i" for k in I.phi_key[p][1])}
        for s, p in carried.items():
            vs = {self.value(I, x) for x in turns(I, p)[0]}
            if len(vs) == 1 and None not in vs:
                self.state[s] = vs.pop()
        out = []
        for i in range(n):
            if steps:
                self.step[at] = i
            J = self.case()
            if not steps and not any(turns(J, p)[1] for p in J.phi_in if J.signature(p) in carried):
                break
            for m in sorted((m for m in J.nodes if where(J, m)[0] and any(where(J, x) == w for x in nest(J, m))), key=J.prio):
                out.extend(self.effects(J, m))
            new = {}
            for s in list(self.state):
                if s in carried:
                    p = next((p for p in J.phi_in if J.signature(p) == s), None)
                    vs = {self.value(J, x) for x in turns(J, p)[1]} if p is not None else {None}
                    if len(vs) != 1 or None in vs:
                        if DEBUG:
                            print("carried", s, self.state[s], [show(x, 6) for x in turns(J, p)[1]] if p is not None else None)
                        raise Lost()
                    new[s] = vs.pop()
            self.state.update(new)
        else:
            if not steps:
                raise Lost()
        self.step.pop(at, None)
        return out

    # ---- what the routines for the columns write
    def routine(self, I, kind, e, room):
        me = I.case
        if kind in ("hex", "dec"):
            v = me.num(e.vals[1])
            k = me.num(e.vals[2]) if kind == "hex" else 0
            if v is None or k is None:
                raise Lost()
            text = number(v, k) if kind == "hex" else "%d " % v
            if room is not None and room < len(text):
                self.inside = False
            return Text(text, 16 if self.wide(e) else len(text))
        p, n = self.at(me, e.vals[1]), me.length(e.vals[1])
        if p is None or p[0] != "src" or n is None:
            raise Lost()
        if kind == "columns" and room is not None and room < 3 * n:
            self.inside = False
        if kind == "characters" and room is not None:
            n = min(n, room) if not self.wide(e) else n
        return Columns(p[1], n, kind, self.wide(e))

    def wide(self, e):
        seen, st = set(), [e.name]
        while st:
            f = st.pop()
            if f in seen or f not in self.prog.fns:
                continue
            seen.add(f)
            for _, t in self.prog.fns[f].calls():
                g = callee(t)[0]
                if g and "_mm_" in g:
                    return True
                if g:
                    st.append(g)
        return False


def where_root(I, root):
    """a local variable, whatever the analysis"""
    return (I.ctx_of_id[root[0]].names, root[1]) if root[0] in I.ctx_of_id else root


class Source:
    def __init__(self, p, n):
        self.p, self.n = p, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return byte(self.p + i)


class Text:
    """a number; behind it anything may be left up to the size of a vector"""

    def __init__(self, s, n):
        self.s, self.n = s, max(n, len(s))

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return ord(self.s[i]) if i < len(self.s) else None


class Columns:
    def __init__(self, p, n, kind, wide):
        self.p, self.k, self.w = p, n, 3 if kind == "columns" else 1
        self.n = (-(-n // 16) * 16 if wide else n) * self.w

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.k * self.w:
            return None
        b = byte(self.p + i // self.w)
        return column(b)[i % 3] if self.w == 3 else character(b)


def column(b):
    return [ord(HEX[b >> 4]), ord(HEX[b & 15]), 32]


def character(b):
    return b if 32 <= b < 127 else 46


def number(v, k):
    return "%0*x " % (2 * k, v & ((1 << 8 * k) - 1))


class Line:
    """the line that is wanted"""

    def __init__(self, form, off, n, width, pos):
        k = max(2, -(-n.bit_length() // 8))
        self.head = [ord(c) for c in ("%012x " % off + number(n, k) if form == "Hexadecimal" else "%d %d " % (off, n)) + "| "]
        self.n, self.w, self.pos = n, max(n, width), pos
        self.b = len(self.head)
        self.m = self.b + 3 * self.w + 2

    def __len__(self):
        return self.m + self.w + 1

    def __getitem__(self, i):
        if i < self.b:
            return self.head[i]
        if i < self.m - 2:
            k, j = divmod(i - self.b, 3)
            return column(byte(self.pos + k))[j] if k < self.n else 32
        if i < self.m:
            return (124, 32)[i - self.m + 2]
        if i == self.m + self.w:
            return 10
        k = i - self.m
        return character(byte(self.pos + k)) if k < self.n else 32

    def where(self, i):
        return "the numbers" if i < self.b else "column %d" % ((i - self.b) // 3) if i < self.m - 2 else "the bar" if i < self.m else "the end of the line" if i == self.m + self.w else "character %d" % (i - self.m)


def final(writes, k):
    """what is left at a place"""
    for p, b, sp in reversed(writes):
        if p <= k < p + len(b):
            return b[k - p], sp
    return None, None


def differs(writes, want):
    """the first place where something else is left than is wanted"""
    for k in sample(len(want), want):
        b, sp = final(writes, k)
        if b != want[k]:
            return k, b, sp
    return None, None, None


def sample(n, line):
    if n <= 6000:
        return range(n)
    ends = [0, n] + ([line.b, line.m, line.b + 3 * line.n, line.m + line.n] if isinstance(line, Line) else [])
    return sorted({k for e in ends for k in range(e - 70, e + 70) if 0 <= k < n} | set(range(0, n, 997)))


def run(prog, R):
    if TY + "::new" not in prog.fns or TY + "::format_segments" not in prog.fns:
        R.count("forms-not-followed")
        return
    Formatter(prog, R).run()
    for name, kind in sorted(KNOWN.items()):
        for fn in [p for p in prog.fns if p.startswith("nd::text::") and last(p) == name]:
            for f in sorted(routines(prog, fn)):
                try:
                    Single(prog, R, f, kind).run()
                except Lost:
                    R.count("forms-not-followed")


def routines(prog, fn):
    """the implementations behind a routine on this processor"""
    f = prog.fns[fn]
    inner = {callee(t)[0] for _, t in f.calls() if callee(t)[0] in prog.fns}
    return {fn} if inner else {fn}


class Formatter:
    def __init__(self, prog, R):
        self.prog, self.R, self.fn = prog, R, TY + "::format_segments"

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.fn)

    def formats(self):
        """the printing function of each format"""
        out = {}
        for form, cols in (("binary", None), ("Hexadecimal", "Hexadecimal"), ("None", "None"), ("Decimal", "Decimal")):
            fs = set()

            def leaf(me, t):
                if t.k == "call" and last(t.a[0]) == "is_binary":
                    return int(form == "binary")
                return None

            def variant(me, t):
                t = q.strip(t)
                while t.k == "fld" and t.a[1] == "*":
                    t = q.strip(t.a[0])
                if t.k == "fld" and t.a[1] in ("offset", "span", "body"):
                    return ("None" if t.a[1] != "body" else "Binary") if form == "binary" else cols if t.a[1] != "body" else "Hexadecimal"
                return None
            c = Num({"leaf": leaf, "variant": variant})
            I = Interp(self.prog, TY + "::new", assume=c, inline=lambda tg, cc: tg.path in self.prog.fns and last(tg.path) != "is_binary")
            c.I = I
            I.case = c
            for r in E.K.result(I):
                for x in choices(I, r):
                    x = q.strip(x)
                    for v in x.a[3:] if x.k == "agg" else ():
                        for y in choices(I, v):
                            y = q.strip(y)
                            while y.k in ("cast", "addr"):
                                y = q.strip(y.a[2] if y.k == "cast" else y.a[0])
                            if y.k == "fn" and y.a[0] in self.prog.fns:
                                fs.add(y.a[0])
            out[form] = fs
        return out

    def run(self):
        roles, seen = self.roles(), set()
        for form, fs in sorted(self.formats().items()):
            if not fs:
                self.R.count("forms-not-followed")
            self.ob("printer", len(fs) <= 1, "%s is printed by %s" % (form, " or ".join(sorted(fs))))
            for f in sorted(fs):
                form = "Hexadecimal" if form == "None" else form
                if (f, form) in seen:
                    continue
                seen.add((f, form))
                try:
                    Printer(self.prog, self.R, f, form, roles).run()
                except Lost:
                    self.R.count("forms-not-followed")

    def roles(self):
        """what the printing function is given: the position of the offset, the width, the stream and the slices"""
        O, o, w = 0x51000, 0x234, 24
        f = self.prog.fns[self.fn]
        names = {}

        def leaf(me, t):
            path, b = fields(t)
            if b.k == "arg" and b.a[0] == self.fn:
                if b.a[1] == 0:
                    return {("offset", "0"): O, ("offset", "1"): 0x7000, ("min_width",): w}.get(path)
                if not path and f.locals[b.a[1] + 1]["ty"] == "usize":
                    return o
            return None
        c = Num({"leaf": leaf})
        I = Interp(self.prog, self.fn, assume=c, inline=lambda tg, cc: tg.path in self.prog.fns)
        c.I = I
        I.case = c
        es = [e for e in I.calls() if e.kind == "call" and e.name in (None, "<indirect>") and len(e.vals) == 5]
        if len(es) != 1:
            raise Lost()
        e = es[0]
        for i, v in enumerate(e.vals):
            ns = numbers(I, v)
            b = q.strip(v)
            while b.k == "addr" or b.k == "fld" and b.a[1] == "*":
                b = q.strip(b.a[0])
            if ns == {O + o}:
                names["offset"] = i
            elif ns == {w}:
                names["width"] = i
            elif b.k == "arg" and b.a[0] == self.fn:
                ty = f.locals[b.a[1] + 1]["ty"]
                names["stream" if ty == "&[u8]" else "segments" if "Segment" in ty else "buf"] = i
        self.ob("given", set(names) == {"offset", "width", "stream", "segments", "buf"}, "to print what begins at offset %#x with %#x in front of it and at least %d columns, it is given %s" % (
            o, O, w, [show(v, 3) for v in e.vals]), e.sp)
        if "offset" not in names or "width" not in names:
            names.setdefault("offset", 0), names.setdefault("width", 1)
        if not {"stream", "segments"} <= set(names):
            raise Lost()
        return names


class Printer:
    def __init__(self, prog, R, fn, form, roles):
        self.prog, self.R, self.fn, self.form, self.roles = prog, R, fn, form, roles

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.fn)

    def inline(self, tg, c):
        return tg.path in self.prog.fns and "{closure" not in tg.path and not re.search(r"fill_uninit", tg.path) and last(tg.path) not in KNOWN

    def leaf(self, me, t):
        path, b = fields(t)
        if b.k == "arg" and b.a[0] == self.fn and not path:
            return {self.roles["offset"]: self.off, self.roles["width"]: self.width}.get(b.a[1])
        if b.k == "pay" and path in (("pos",), ("len",)):
            c = q.strip(b.a[0])
            if c.k == "call" and last(c.a[0]) == "next" and self.own(c):
                return self.pos if path == ("pos",) else self.n
        return None

    def own(self, c):
        """the step over the slices"""
        return True

    def stream(self, t):
        return 0 if t.k == "arg" and t.a == (self.fn, self.roles["stream"]) else None

    def run(self):
        F, body, args = closure_body(self.prog, self.fn, r"fill_uninit$", self.inline)
        if body is None:
            raise Lost()
        self.R.graph(F)
        es = [e for e in F.calls(r"fill_uninit$") if e.kind == "call"]
        if len(es) != 1:
            raise Lost()
        self.all(F, es[0])
        site = where(F, es[0].node)
        for off, pos, n, width in self.cases():
            self.off, self.pos, self.n, self.width = off, pos, n, width
            c = Num({"leaf": self.leaf, "size": lambda me, t: BIG if self.stream(q.strip(t)) is not None else None})
            J = Interp(self.prog, self.fn, assume=c, inline=self.inline)
            c.I = J
            J.case = c
            e = next((e for e in J.calls(r"fill_uninit$") if where(J, e.node) == site), None)
            if e is None:
                raise Lost()
            room = set().union(*[numbers(J, v) for v in e.vals[1:2]])
            if len(room) != 1 or None in room:
                raise Lost()
            self.one(body, args, room.pop())

    def all(self, F, e):
        """every slice gets its line"""
        h = loop_head(F, e.node)
        if h is None:
            raise Lost()
        steps = [s for s in F.calls() if s.kind == "call" and s.name and last(s.name) == "next" and h in nest(F, s.node)]
        if len(steps) != 1 or len(nest(F, e.node)) != 1:
            raise Lost()
        self.ob("every", h not in q.reach(F, [h], avoid=[e.node]), "a slice may be passed over without a line", e.sp)
        c = Num({"variant": lambda me, t: "Some" if q.strip(t).k == "call" and last(q.strip(t).a[0]) == "next" else None})
        G = Interp(self.prog, self.fn, assume=c, inline=self.inline)
        c.I = G
        G.case = c
        self.ob("every", not [n for n in G.returns if G.ctx_of_id[n[0]].parent is None], "it may stop before the last slice", e.sp)
        t, chain = q.strip(steps[0].vals[0]), []
        for _ in range(30):
            if t.k in ("addr", "cast") or t.k == "fld" and t.a[1] == "*":
                t = q.strip(t.a[2] if t.k == "cast" else t.a[0])
            elif t.k == "phi":
                xs = [q.strip(x) for x in F.phi_in.get(t, ()) if q.strip(x).k != "eff"]
                if len(xs) != 1:
                    raise Lost()
                t = xs[0]
            elif t.k == "eff":
                t = q.strip(t.a[3])
            elif t.k == "call" and len(t.a) >= 3:
                chain.append(last(t.a[0]))
                t = q.strip(t.a[2])
            elif q.slice_of(t) is not None:
                chain.append("a part")
                t = q.strip(q.slice_of(t)[0])
            else:
                break
        if not (t.k == "arg" and t.a == (self.fn, self.roles["segments"])):
            raise Lost()
        bad = [x for x in chain if x in ("skip", "take", "step_by", "filter", "rev", "skip_while", "take_while", "a part", "split_first", "first")]
        self.ob("every", not bad, "the slices are printed by %s" % ", ".join(bad), steps[0].sp)
        if set(chain) - set(bad) - {"iter", "into_iter", "copied", "cloned", "enumerate", "by_ref", "peekable"}:
            raise Lost()

    def cases(self):
        if self.form == "binary":
            return [(0, 0, 0, 0), (0x1000, 3, 1, 16), (7, 100, 33, 16), (0, 5, 70000, 0)]
        out = []
        for n in (0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 47, 48, 100, 255, 256, 4096, 65535, 65536, 70001, 0x1000000, 0x1000005):
            for w in {0, 1, 16, n, n + 1, n + 5} | ({20, 33, 64} if n < 64 else set()):
                if w <= n + 70:
                    out.append((0x123456789a00, 0xbc + n % 7, n, w))
        for off, pos in ((0, 0), (0, 1), (1, 0), (0xfff, 1), (0xffffffffff00, 0xff), (9, 1), (99, 900), (0, 0x12345)):
            out.append((off, pos, 16, 16))
            out.append((off, pos, 3, 8))
        return out

    def one(self, body, args, room):
        dst = lambda t: 0 if t.k == "arg" and t.a == (body, 1) else None
        M = Writer(self.prog, self.R, body, args, self.leaf, dst, self.stream, room, BIG, set(KNOWN))
        writes, ret = M.run()
        if None in ret or not ret:
            raise Lost()
        what = "a slice of %d bytes at %#x with at least %d columns" % (self.n, self.off + self.pos, self.width)
        line = Source(self.pos, self.n) if self.form == "binary" else Line("Decimal" if self.form == "Decimal" else "Hexadecimal", self.off + self.pos, self.n, self.width, self.pos)
        self.ob("length", ret == {len(line)}, "the line of %s is %s bytes long" % (what, " or ".join(map(str, sorted(ret)))))
        self.ob("room", M.inside and all(0 <= p and p + len(b) <= room for p, b, _ in writes) and len(line) <= room, "the line of %s does not fit in the %d bytes that are reserved" % (what, room))
        k, b, sp = differs(writes, line)
        if k is not None:
            at = line.where(k) if isinstance(line, Line) else "byte %d" % k
        self.ob("line", k is None, k is not None and "in the line of %s, %s %s" % (what, at, "is not written" if b is None else "has %r in place of %r" % (chr(b), chr(line[k]))), sp)


class Single:
    """one of the routines for the columns"""

    def __init__(self, prog, R, fn, kind):
        self.prog, self.R, self.fn, self.kind = prog, R, fn, kind

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.fn)

    def run(self):
        if self.kind == "hex":
            for n in range(2, 8):
                for v in (0, 1, 9, 10, 15, 16, 0x1234, 0xabcdef, 0xfedcba98, 0x0123456789abcd, 0xfedcba98765432, 0x80808080808080, 0x7f7f7f7f7f7f7f, 0xffffffffffffff):
                    self.one({1: v, 2: n}, Text(number(v, n), 0), "%#x in %d digits" % (v, 2 * n))
        elif self.kind in ("columns", "characters"):
            for p in range(0, 256, 16):
                self.one({}, Columns(p, 16, self.kind, False), "16 bytes from %#x" % p, p, 16)
            for n in (0, 1, 15, 17, 31, 32, 33, 40):
                self.one({}, Columns(3 * n, n, self.kind, False), "%d bytes" % n, 3 * n, n)
        else:
            for v in (0, 1, 9, 10, 15, 99, 100, 12345, 67890, 9999999999, 10 ** 19, 2 ** 63, 2 ** 64 - 1):
                self.one({1: v}, Text("%d " % v, 0), "%d" % v)

    def one(self, args, want, what, p=0, n=0):
        leaf = lambda me, t: args.get(t.a[1]) if t.k == "arg" and t.a[0] == self.fn else None
        dst = lambda t: 0 if t.k == "arg" and t.a == (self.fn, 0) else None
        src = lambda t: p if not args and t.k == "arg" and t.a == (self.fn, 1) else None
        M = Writer(self.prog, self.R, self.fn, None, leaf, dst, src, 4096, n)
        writes, ret = M.run()
        if None in ret or not ret:
            raise Lost()
        self.ob("number" if args else self.kind, ret == {len(want)}, "%s is said to be %s characters long" % (what, " or ".join(map(str, sorted(ret)))))
        wide = any(len(b) == 16 for _, b, _ in writes)
        most = (16 if args else -(-n // 16) * 16 * (3 if self.kind == "columns" else 1)) if wide else len(want)
        self.ob("room", all(0 <= x and x + len(b) <= most for x, b, _ in writes), "%s: more than %d characters are written" % (what, most))
        k, b, sp = differs(writes, want)
        self.ob("number" if args else self.kind, k is None, k is not None and "%s: character %d %s" % (what, k, "is not written" if b is None else "is %r in place of %r" % (chr(b), chr(want[k]))), sp)

