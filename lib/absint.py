"""Conditional constant / value-numbering analysis over the inlined control-flow graph of one entry function.

Flow-sensitive, interprocedural (calls to repository functions and closures whose identity is known are expanded in
place, so a helper that is extracted or inlined by hand gives the same graph), with joins: where two definitions of a
place meet, the place becomes a phi term whose inputs are kept, so that "where may this value come from" stays
answerable.  Branches whose condition is a known constant - folded, or fixed by the rule (`assume`) - are pruned.
No path is enumerated, nothing is executed and nothing is handed to a solver.
"""
import heapq
import re
import sys
from mir import callee, term_succ, dominators, dominates

sys.setrecursionlimit(20000)

INT_BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128,
            "i128": 128, "usize": 64, "isize": 64, "bool": 1, "char": 32}


class T:
    __slots__ = ("k", "a", "id")
    _tab = {}

    def __repr__(self):
        return show(self, 6)


def mk(k, *a):
    key = (k,) + tuple(("#", x.id) if isinstance(x, T) else x for x in a)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(T._tab)
        T._tab[key] = t
    return t


def C(v, ty="?"):
    return mk("c", v, ty)


def S(s):
    return mk("s", s)


UNDEF = mk("undef")
TOP = mk("top")


def short(p):
    """last two segments of a path, generics removed"""
    p = re.sub(r"<[^<>]*>", "", p)
    while "<" in p and re.search(r"<[^<>]*>", p):
        p = re.sub(r"<[^<>]*>", "", p)
    p = p.replace("::::", "::")
    s = [x for x in p.split("::") if x]
    return "::".join(s[-2:])


def show(t, depth=5):
    if not isinstance(t, T):
        return str(t)
    if t.k == "c":
        return str(t.a[0])
    if t.k == "s":
        return repr(t.a[0])
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.k == "arg":
        return "arg%s" % t.a[1]
    if t.k == "op":
        return "(%s %s %s)" % (show(t.a[1], d), t.a[0], show(t.a[2], d))
    if t.k == "un":
        return "%s(%s)" % (t.a[0], show(t.a[1], d))
    if t.k == "cast":
        return "(%s as %s)" % (show(t.a[2], d), t.a[1])
    if t.k == "fld":
        return "%s.%s" % (show(t.a[0], d), t.a[1])
    if t.k == "as":
        return "%s@%s" % (show(t.a[1], d), t.a[0])
    if t.k == "deref":
        return "*%s" % show(t.a[0], d)
    if t.k == "addr":
        return "&%s" % show(t.a[0], d)
    if t.k == "idx":
        return "%s[%s]" % (show(t.a[0], d), show(t.a[1], d))
    if t.k == "call":
        return "%s#%s(%s)" % (short(t.a[0]), t.a[1], ", ".join(show(x, d) for x in t.a[2:]))
    if t.k == "agg":
        f = ", ".join("%s=%s" % (n, show(v, d)) for n, v in zip(t.a[2], t.a[3:]))
        return "%s{%s}" % (short(t.a[0]) + ("::" + t.a[1] if t.a[1] else ""), f)
    if t.k == "phi":
        return "phi%s" % t.id
    if t.k == "eff":
        return "eff[%s#%s](%s)" % (short(t.a[0]), t.a[1], show(t.a[3], d))
    return "%s(%s)" % (t.k, ", ".join(show(x, d) for x in t.a))


class Ctx:
    __slots__ = ("fn", "parent", "bb", "depth", "key", "id", "names", "wrap")
    n = 0

    def __init__(self, fn, parent, bb, key):
        self.fn = fn
        self.parent = parent
        self.bb = bb
        self.depth = 0 if parent is None else parent.depth + 1
        self.key = key
        self.names = (parent.names if parent else ()) + (fn.path,)
        self.id = Ctx.n
        self.wrap = None
        Ctx.n += 1


class Event:
    __slots__ = ("node", "kind", "name", "res", "args", "vals", "dest", "dty", "sp", "mac", "term", "fn", "raw")

    def __repr__(self):
        return "<%s %s %s(%s) @%s>" % (self.kind, self.node, short(self.name or "?"), ", ".join(show(v, 4) for v in self.vals), self.sp)


VARIANT_PASS = ("as_ref", "as_mut", "clone", "cloned", "copied", "as_deref", "as_deref_mut", "take",
                "map_err", "with_context", "context", "ok_or", "ok_or_else", "ok", "map", "inspect_err", "inspect",
                "branch")
# identity-like conversions a value keeps its meaning through
TRANSPARENT = re.compile(
    r"::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|clone|to_string|to_owned|into|from|as_str|as_bytes|as_slice"
    r"|as_mut_slice|as_deref|to_vec|cloned|copied|into_boxed_slice|into_iter|iter|as_path|into_string)$")


def last(name):
    return name.rsplit("::", 1)[-1] if name else ""


MAX_VISITS = 150       # (9 is the most any node of the tree takes)


def same_len(v):
    """a value of the same length: elements written in place do not change it"""
    if v.k == "addr":
        x = same_len(v.a[0])
        return v if x is v.a[0] else mk("addr", x)
    while v.k == "upd" and v.a[1].startswith("i."):
        v = v.a[0]
    return v


class BudgetExceeded(Exception):
    pass


INT_OPS = re.compile(r"^<(&)?(?:'\w+ )?([iu](?:8|16|32|64|128|size)) as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)(Assign)?(<.*>)?>::")


def ground(x):
    """a constant without references into memory"""
    if x.k in ("c", "s"):
        return True
    if x.k == "agg":
        return not x.a[0].startswith("closure:") and all(ground(y) for y in x.a[3:])
    if x.k == "addr":
        return ground(x.a[0])
    return False


def boxed(x):
    """the value a pointer into a Box is made from"""
    while x.k in ("cast", "fld"):
        x = x.a[2] if x.k == "cast" else x.a[0]
    return x


TEXT_OPS = ("chars", "peekable", "peek", "next", "next_if_eq", "by_ref", "into_iter", "as_mut", "bytes")
CHAR_FOLDS = {"is_ascii_digit", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_hexdigit",
              "is_ascii_whitespace", "is_numeric", "is_alphabetic", "is_digit", "to_digit", "to_ascii_lowercase", "to_ascii_uppercase", "is_whitespace", "is_ascii",
              "is_ascii_punctuation", "eq_ignore_ascii_case"}


def char_fold(l, x, y):
    """ASCII predicates of a constant character"""
    v = x.a[0]
    c = chr(v)
    asc = v < 128
    B = lambda b: C(int(bool(b)), "bool")
    if l == "eq_ignore_ascii_case":
        return B(chr(y.a[0]).lower() == c.lower()) if y is not None and y.k == "c" and asc else None
    if l in ("is_digit", "to_digit"):
        if y is None or y.k != "c" or not 2 <= y.a[0] <= 36:
            return None
        d = int(c, 36) if asc and c.isalnum() else None
        ok = d is not None and d < y.a[0]
        if l == "is_digit":
            return B(ok)
        o = "std::option::Option"
        return mk("agg", o, "Some", ("0",), C(d, "u32")) if ok else mk("agg", o, "None", ())
    if l in ("to_ascii_lowercase", "to_ascii_uppercase"):
        return C(ord(c.lower() if l.endswith("lowercase") else c.upper()), x.a[1]) if asc else x
    if not asc:
        return B(False) if "ascii" in l else None
    return B({"is_ascii_digit": c.isdigit(), "is_numeric": c.isdigit(), "is_ascii_uppercase": c.isupper(), "is_ascii_lowercase": c.islower(),
              "is_ascii_alphabetic": c.isalpha(), "is_alphabetic": c.isalpha(), "is_ascii_alphanumeric": c.isalnum(),
              "is_ascii_hexdigit": c in "0123456789abcdefABCDEF", "is_ascii_whitespace": c in " \t\n\r\f", "is_whitespace": c.isspace(), "is_ascii": True,
              "is_ascii_punctuation": 32 < v < 127 and not c.isalnum()}[l])


def int_fold(how, op, v, decl):
    m = re.search(r"\b(?:impl |num::)?([iu](?:8|16|32|64|128|size))\b", decl)
    if not m or (op not in ("neg",) and len(v) != 2):
        return None
    ty = m.group(1)
    bits = INT_BITS[ty]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)
    a = v[0]
    b = v[1] if len(v) > 1 else 0
    if op in ("div", "rem"):
        if b == 0:
            return mk("agg", "std::option::Option", "None", ()) if how == "checked" else None
        k = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        r = k if op == "div" else a - k * b
        if op == "rem" and a == lo and b == -1:
            r = hi + 1
    elif op == "pow":
        if b > 128:
            return None
        r = a ** b
    elif op in ("shl", "shr"):
        if not 0 <= b < bits:
            return mk("agg", "std::option::Option", "None", ()) if how == "checked" else None
        r = wrap_int(a << b, bits, ty) if op == "shl" else a >> b
    else:
        r = {"add": a + b, "sub": a - b, "mul": a * b, "neg": -a}[op]
    ok = lo <= r <= hi
    if how == "checked":
        return mk("agg", "std::option::Option", "Some", ("0",), C(r, ty)) if ok else mk("agg", "std::option::Option", "None", ())
    if not ok:
        if how == "wrapping":
            r = wrap_int(r, bits, ty)
        elif how == "saturating":
            r = lo if r < lo else hi
        else:
            return None
    return C(r, ty)


def wrap_int(r, bits, ty):
    r &= (1 << bits) - 1
    return r - (1 << bits) if ty[0] == "i" and r >> bits - 1 else r


KEYS = {}           # name of a place behind a reference -> the place


class Interp:
    def __init__(self, prog, entry, args=None, assume=None, inline=None, maxdepth=14, max_steps=60000, opaque=(), state=None):
        self.prog = prog
        self.entry = prog.fns[entry] if isinstance(entry, str) else entry
        self.assume_fn = assume
        if hasattr(assume, "bind"):
            assume.bind(self)
        self.inline_fn = inline
        self.maxdepth = maxdepth
        self.max_steps = max_steps
        self.visits = {}
        self.opaque = opaque
        self.ctxs = {}
        self.genv = {}
        self.rpo = {}
        self.pend_tab = {}
        self.edge_out = {}      # node -> {pred: state}
        self.instate = {}
        self.phi_in = {}
        self.phi_where = {}
        self.phi_key = {}       # the place a join stands for
        self.sticky = set()
        self.heads = getattr(assume, "heads", None)     # joins whose values are kept apart from what goes in (see head)
        self.succs = {}         # node -> list of (succ, label)
        self.events = {}        # node -> Event
        self.stores = {}        # node -> list of (root, path, value, sp)
        self.returns = {}       # root-frame return nodes -> value
        self.final_states = {}
        self.site_ids = {}
        self.site_names = []
        self.ctx_of_id = {}
        self.inlined = set()
        self.assumed = {}
        self.fresh = 0
        self.root = self.getctx(self.entry, None, None)
        st = dict(state or {})
        for i in range(self.entry.argc):
            v = None
            if args and i in args:
                v = args[i]
            if v is None:
                v = mk("arg", self.entry.path, i)
            st[((self.root.id, i + 1), ())] = v
        self.steps = 0
        self.run(st)

    # ---- contexts, order
    def getctx(self, fn, parent, bb):
        k = (fn.path, parent.id if parent else None, bb)
        c = self.ctxs.get(k)
        if c is None:
            key = ()
            if parent is not None:
                key = parent.key + (self.order(parent.fn)[bb],)
            c = Ctx(fn, parent, bb, key)
            self.ctxs[k] = c
            self.ctx_of_id[c.id] = c
        return c

    def order(self, fn):
        o = self.rpo.get(fn.path)
        if o is None:
            seen = set()
            post = []
            st = [(0, iter(fn.succ(0)))]
            seen.add(0)
            while st:
                n, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        st.append((m, iter(fn.succ(m))))
                        break
                else:
                    post.append(n)
                    st.pop()
            post.reverse()
            o = {n: i for i, n in enumerate(post)}
            self.rpo[fn.path] = o
        return o

    def prio(self, node):
        c = self.ctx_of_id[node[0]]
        return (c.key + (self.order(c.fn)[node[1]],), str(node[2]))

    def site(self, node):
        node = node[:2]
        s = self.site_ids.get(node)
        if s is None:
            s = len(self.site_ids)
            self.site_ids[node] = s
        return s

    # ---- fixpoint
    def run(self, st):
        start = self.start = (self.root.id, 0, (None, None))
        self.edge_out[start] = {None: st}
        heap = [(self.prio(start), start)]
        inq = {start}
        while heap:
            _, n = heapq.heappop(heap)
            if n not in inq:
                continue
            inq.discard(n)
            self.steps += 1
            if self.steps > self.max_steps:
                raise BudgetExceeded("%s: more than %d steps" % (self.entry.path, self.max_steps))
            ins = self.merge(n)
            old = self.instate.get(n)
            if old is not None and old == ins:
                continue
            self.instate[n] = ins
            self.visits[n] = self.visits.get(n, 0) + 1
            if self.visits[n] > MAX_VISITS:
                raise BudgetExceeded("%s: no fixed point in %s" % (self.entry.path, self.ctx_of_id[n[0]].fn.path))
            outs = self.transfer(n, dict(ins))
            newsucc = []
            occ = {}
            for m, s, label in outs:
                newsucc.append((m, label))
                eo = self.edge_out.setdefault(m, {})
                i = occ[m] = occ.get(m, -1) + 1
                if eo.get((n, i)) != s:
                    eo[(n, i)] = s
                    if m not in inq:
                        inq.add(m)
                        heapq.heappush(heap, (self.prio(m), m))
            # edges that disappeared (cannot happen with monotone pruning, but keep the graph exact)
            for m in {m for m, _ in self.succs.get(n, [])}:
                eo = self.edge_out.get(m, {})
                for k in [k for k in eo if k is not None and k[0] == n and k[1] > occ.get(m, -1)]:
                    if True:
                        del eo[k]
                        if m not in inq:
                            inq.add(m)
                            heapq.heappush(heap, (self.prio(m), m))
            self.succs[n] = newsucc
        # drop nodes no longer reachable
        seen = set()
        stk = [start]
        while stk:
            x = stk.pop()
            if x in seen:
                continue
            seen.add(x)
            stk.extend(m for m, _ in self.succs.get(x, []))
        self.nodes = seen
        for d in (self.events, self.stores, self.returns):
            for k in list(d):
                if k not in seen:
                    del d[k]
        self._dom = None
        self._pdom = None
        self.collapse()

    def collapse(self):
        """replace phis all of whose inputs are one value by that value, everywhere in the results"""
        sub = {}
        changed = True
        while changed:
            changed = False
            for p, ins in self.phi_in.items():
                if p in sub or self.heads and self.signature(p) in self.heads:
                    continue
                xs = set()
                for x in ins:
                    while x in sub:
                        x = sub[x]
                    if x is not p:
                        xs.add(x)
                if len(xs) == 1:
                    x = xs.pop()
                    if p in self.subterms(x):
                        continue
                    sub[p] = x
                    changed = True
        self.sub = sub
        memo = {}

        def rw(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.k == "phi":
                r = rw(sub[t]) if t in sub else t
            elif t.k == "ref":
                pl = t.a[0]
                root = ("M", rw(pl.root[1])) if pl.root[0] == "M" else pl.root
                path = tuple(tuple(rw(y) if isinstance(y, T) else y for y in e) for e in pl.path)
                if root[0] == "M":
                    r = mk("deref", root[1])
                    for e in path:
                        r = self.project(r, e)
                    r = mk("addr", r)
                else:
                    r = t if path == pl.path else self.mkref(root, path)
            else:
                new = tuple(rw(x) if isinstance(x, T) else x for x in t.a)
                r = t if all(a is b for a, b in zip(new, t.a)) else mk(t.k, *new)
            memo[t] = r
            return r
        self.rw = rw
        for e in self.events.values():
            e.args = [rw(x) for x in e.args]
            e.vals = [rw(x) for x in e.vals]
            if e.term is not None:
                e.term = rw(e.term)
            if e.dest is not None:
                e.dest = rw(e.dest)
        for n, ss in self.succs.items():
            self.succs[n] = [(m, (rw(l[0]), l[1]) if l is not None and isinstance(l[0], T) else l) for m, l in ss]
        for n in self.stores:
            self.stores[n] = [(r, pth, rw(v), sp) for r, pth, v, sp in self.stores[n]]
        for n in self.returns:
            self.returns[n] = rw(self.returns[n])
        self.phi_in = {p: tuple(dict.fromkeys(rw(x) for x in ins)) for p, ins in self.phi_in.items() if p not in sub}

    def subterms(self, t):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k != "ref":
                st.extend(y for y in x.a if isinstance(y, T))
        return seen

    def merge(self, n):
        eo = self.edge_out.get(n, {})
        sts = list(eo.values())
        if not sts:
            return {}
        if len(sts) == 1:
            base = sts[0]
            res = dict(base)
            if self.heads and self.head(n, None):
                for key in list(res):
                    if key[0] != "F" and self.head(n, key):
                        phi = self.phi(n, key)
                        self.phi_in[phi] = (res[key],)
                        self.phi_where[phi] = n
                        res[key] = phi
                for key in self.head_keys(n):
                    if key not in res:
                        v = self.read(base, key[0], key[1])
                        res[key] = phi = self.phi(n, key)
                        self.phi_in[phi] = (v,)
                        self.phi_where[phi] = n
            return res
        keys = set()
        for s in sts:
            keys.update(s)
        if self.heads:
            keys.update(self.head_keys(n))
        first = sts[0]
        res = {}
        for key in keys:
            if key[0] == "F":
                v = first.get(key)
                if v is not None and all(s.get(key) is v for s in sts):
                    res[key] = v
                continue
            vals = []
            for s in sts:
                v = s.get(key)
                if v is None:
                    v = self.read(s, key[0], key[1])
                if v is UNDEF:
                    continue
                if v not in vals:
                    vals.append(v)
            if not vals:
                continue
            res[key] = self.join(n, key, vals)
        # a place that got a phi at a prefix makes longer keys meaningful only on top of it; keep both
        return res

    def join(self, n, key, vals, deep=False):
        """the value a place has where several ways meet"""
        kinds = {(v.k, v.a[:3] if v.k == "agg" else None) for v in vals}
        if len(vals) > 1 and len(kinds) == 1 and (n, key) not in self.sticky and not self.heads:
            # what a closure has captured is joined value by value
            k, sig = kinds.pop()
            if k == "agg" and isinstance(sig[0], str) and sig[0].startswith("closure:"):
                fs = []
                for i, f in enumerate(sig[2]):
                    xs = []
                    for v in vals:
                        if v.a[3 + i] not in xs:
                            xs.append(v.a[3 + i])
                    fs.append(self.join(n, (key[0], key[1] + (("f", f),)), xs, True))
                return mk("agg", *sig, *fs)
            if deep and k == "addr":
                xs = []
                for v in vals:
                    if v.a[0] not in xs:
                        xs.append(v.a[0])
                return mk("addr", self.join(n, (key[0], key[1] + (("f", "*"),)), xs, True))
        forced = self.heads and self.head(n, key)
        if forced:
            self.sticky.add((n, key))
        if len(vals) == 1 and (n, key) not in self.sticky:
            return vals[0]
        cls = {self.tokval(v) for v in vals if not (v.k == "phi" and v.a[:4] == (n[0], n[1], n[2], self.keyname(key)))}
        phi = self.phi(n, key, cls.pop() if len(cls) == 1 else None)
        rest = [v for v in vals if not (v.k == "phi" and v.a[:4] == phi.a[:4])]
        was = phi in self.phi_in
        if len(rest) == 1 and (n, key) not in self.sticky:
            if was:
                self.sticky.add((n, key))
            else:
                return rest[0]
        self.phi_in[phi] = tuple(vals if forced else rest)
        self.phi_where[phi] = n
        return phi

    def signature(self, phi):
        """what identifies the join of a variable in another analysis of the same function"""
        return (self.ctx_of_id[phi.a[0]].names, phi.a[1], self.local_key(phi.a[3]))

    def local_key(self, k):
        n, _, rest = k.partition(".")
        return (self.ctx_of_id[int(n)].names, rest) if n.isdigit() and int(n) in self.ctx_of_id else ((), k)

    def head(self, n, key):
        """is this the join of a variable a case gives a number for, whatever goes in"""
        c = self.ctx_of_id[n[0]].names
        if key is None:
            return any(h[0] == c and h[1] == n[1] for h in self.heads)
        return (c, n[1], self.local_key(self.keyname(key))) in self.heads

    def head_keys(self, n):
        """the places behind references that a case gives numbers for at this join, whether they were written before or not"""
        c = self.ctx_of_id[n[0]].names
        return [KEYS[h[2][1]] for h in self.heads if h[0] == c and h[1] == n[1] and h[2][0] == () and h[2][1] in KEYS]

    def phi(self, n, key, cls=None):
        if key[0][0] in ("V", "M"):
            KEYS[self.keyname(key)] = key
        if self.heads and cls is not None and self.head(n, key):
            cls = None
        t = mk("phi", n[0], n[1], n[2], self.keyname(key), cls)
        self.phi_key[t] = key
        return t

    def keyname(self, key):
        root, path = key
        return "%s|%s" % (self.rootname(root), "/".join(self.pe(x) for x in path))

    def rootname(self, root):
        if root[0] == "M":
            return "M%d" % root[1].id
        return "%s.%s" % (root[0], root[1])

    def pe(self, x):
        return ".".join(str(y.id) if isinstance(y, T) else str(y) for y in x)

    # ---- memory
    def read(self, st, root, path):
        """value of a place"""
        v = st.get((root, path))
        if v is None:
            # longest prefix
            for i in range(len(path) - 1, -1, -1):
                b = st.get((root, path[:i]))
                if b is not None:
                    v = b
                    for e in path[i:]:
                        v = self.project(v, e)
                    break
            else:
                g = self.genv.get((root, ()))
                if g is not None:
                    v = g
                    for e in path:
                        v = self.project(v, e)
                elif root[0] == "M":
                    v = root[1] if root[1].k == "s" else mk("deref", root[1])
                    for e in path:
                        v = self.project(v, e)
                else:
                    v = UNDEF
        # overrides of subplaces
        sub = []
        n = len(path)
        for (r, p), x in st.items():
            if r == root and len(p) > n and p[:n] == path and r != "F":
                sub.append((p[n:], x))
        if sub:
            sub.sort(key=lambda y: (len(y[0]), [self.pe(z) for z in y[0]]))
            # a fully assigned tuple / struct built field by field
            for p, x in sub:
                v = self.update(v, p, x)
        return v

    def update(self, v, p, x):
        if not p:
            return x
        e = p[0]
        if v.k == "agg" and e[0] == "f" and e[1] in v.a[2]:
            i = v.a[2].index(e[1])
            items = list(v.a[3:])
            items[i] = self.update(items[i], p[1:], x)
            return mk("agg", v.a[0], v.a[1], v.a[2], *items)
        if v.k == "agg" and e[0] == "v" and v.a[1] == e[1]:
            return self.update(v, p[1:], x)
        return mk("upd", v, "/".join(self.pe(z) for z in p), x)

    def project(self, v, e):
        k = e[0]
        if v is UNDEF or v is TOP:
            return v
        if v.k == "upd":
            pes = v.a[1].split("/")
            me = self.pe(e)
            if pes[0] == me:
                if len(pes) == 1:
                    return v.a[2]
                return mk("upd", self.project(v.a[0], e), "/".join(pes[1:]), v.a[2])
            if k == "f" or k == "v":
                return self.project(v.a[0], e)
        if k == "f":
            if v.k == "as" and v.a[0] in ("Ok", "Some") and e[1] == "0":
                return self.payload(v.a[1])
            if v.k == "agg":
                if e[1] in v.a[2]:
                    return v.a[3 + v.a[2].index(e[1])]
                if e[1] == "*" and v.a[0] == "array":
                    return v            # the elements of a vector
            if v.k == "branch_as":
                # payload of ControlFlow
                which, inner = v.a
                if which == "Continue":
                    return self.payload(inner)
                return mk("residual", inner)
            if v.k == "eff" and v.a[0].endswith("#fld"):
                pass
            return mk("fld", v, e[1])
        if k == "v":
            if v.k == "agg" and v.a[1] == e[1]:
                return v
            if v.k == "branch":
                return mk("branch_as", e[1], v.a[0])
            return mk("as", e[1], v)
        if k == "i":
            if v.k == "agg" and v.a[0] in ("array", "strs") and isinstance(e[1], T) and e[1].k == "c":
                i = e[1].a[0]
                if 0 <= i < len(v.a) - 3:
                    return v.a[3 + i]
            if v.k == "s" and isinstance(e[1], T) and e[1].k == "agg":
                b = v.a[0].encode("utf-8", "surrogateescape")
                f = dict(zip(e[1].a[2], e[1].a[3:]))
                n = last(e[1].a[0])
                if n in ("Range", "RangeTo", "RangeFrom", "RangeFull") and all(y.k == "c" for y in f.values()):
                    lo = f["start"].a[0] if "start" in f else 0
                    hi = f["end"].a[0] if "end" in f else len(b)
                    if 0 <= lo <= hi <= len(b):
                        return S(b[lo:hi].decode("utf-8", "surrogateescape"))
            if v.k == "s" and isinstance(e[1], T) and e[1].k == "c":
                b = v.a[0].encode("utf-8", "surrogateescape")
                if 0 <= e[1].a[0] < len(b):
                    return C(b[e[1].a[0]], "u8")
            if v.k == "agg" and v.a[0] == "repeat":
                return v.a[3]
            return mk("idx", v, e[1])
        if k == "ci":
            if v.k == "agg" and v.a[0] == "array":
                n = len(v.a) - 3
                i = n - e[1] if e[2] else e[1]
                if 0 <= i < n:
                    return v.a[3 + i]
            return mk("idx", v, mk("ci", e[1], e[2]))
        if k == "*":
            if v.k == "s" or v.k == "agg" and v.a[0] == "strs":
                return v
            return v if v.k == "agg" and v.a[0] == "array" else mk("fld", v, "*")
        return mk("proj", v, self.pe(e))

    def payload(self, r):
        """success payload of an Option/Result value"""
        if r.k == "agg" and r.a[1] in ("Ok", "Some"):
            return r.a[3]
        if r.k == "call":
            l = last(r.a[0])
            if l in ("map_err", "with_context", "context", "ok_or", "ok_or_else", "ok", "inspect_err") and len(r.a) > 2:
                return self.payload(r.a[2])
            if l == "as_ref" and len(r.a) > 2 and r.a[2].k == "addr" and re.search(r"(Option|Result)", r.a[0]):
                return mk("addr", self.payload(r.a[2].a[0]))
            if l == "zip" and len(r.a) == 4 and "Option" in r.a[0]:
                return mk("agg", "tuple", None, ("0", "1"), self.payload(r.a[2]), self.payload(r.a[3]))
        return mk("pay", r)

    def write(self, st, root, path, v):
        n = len(path)
        dead = [k for k in st if k[0] == root and len(k[1]) > n and k[1][:n] == path]
        for k in dead:
            del st[k]
        # facts about the overwritten place are about terms, not places; nothing to do
        st[(root, path)] = v

    def resolve(self, ctx, st, pl):
        """(root, path) of a MIR place"""
        root = (ctx.id, pl["l"])
        path = ()
        for e in pl.get("p", ()):
            if e == "*":
                v = self.read(st, root, path)
                root, path = self.deref_place(v)
            elif e == "?":
                path += (("?",),)
            elif "n" in e:
                path += (("f", e["n"]),)
            elif "v" in e:
                path += (("v", e["v"]),)
            elif "i" in e:
                path += (("i", self.read(st, (ctx.id, e["i"]), ())),)
            elif "ci" in e:
                path += (("ci", e["ci"], e["fe"]),)
            elif "ss" in e:
                path += (("ss", e["ss"], e["to"], e["fe"]),)
            else:
                path += (("?",),)
        return root, path

    def deref_place(self, v):
        if v.k == "ref":
            r = v.a[0]
            return r.root, r.path
        if v.k == "addr":
            # address of a known value (promoted / resolved reference)
            root = ("V", v.a[0])
            self.genv[(root, ())] = v.a[0]
            return root, ()
        return ("M", v), ()

    def mkref(self, root, path):
        if root[0] == "M" and path == ():
            return root[1]
        h = RefPlace.get(root, path)
        return mk("ref", h)

    def val(self, st, t, depth=8):
        """replace references by the values they point to, for reporting and for opaque call terms"""
        if t.k == "ref":
            r = t.a[0]
            return mk("addr", self.val(st, self.read(st, r.root, r.path), depth - 1) if depth > 0 else TOP)
        if t.k == "agg" and depth > 0 and any(isinstance(x, T) and has_ref(x) for x in t.a[3:]):
            return mk("agg", t.a[0], t.a[1], t.a[2], *[self.val(st, x, depth - 1) for x in t.a[3:]])
        return t

    # ---- operands and rvalues
    def operand(self, ctx, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            root, path = self.resolve(ctx, st, o["pl"])
            return self.read(st, root, path)
        if k == "const":
            return self.const(ctx, o)
        return TOP

    def const(self, ctx, o):
        if "fn" in o:
            return mk("fn", o["fn"], o.get("res") or o["fn"])
        if "promoted" in o:
            fn = self.prog.fns.get(o.get("uneval"))
            if fn is not None and o["promoted"] < len(fn.promoted):
                return self.promoted(fn, o["promoted"])
        if "str" in o:
            return S(o["str"])
        if "val" in o:
            return C(int(o["val"]), o["ty"])
        if "zst" in o:
            return mk("z", o["ty"])
        if "sstr" in o:
            return mk("addr", S(o["sstr"]))
        if "static" in o:
            return mk("konst", o["static"], o["ty"])
        if "uneval" in o:
            return mk("konst", o["uneval"], o["ty"])
        return mk("konst", "?", o["ty"])

    def promoted(self, fn, i):
        key = ("promoted", fn.path, i)
        if key in self.genv:
            return self.genv[key]
        self.genv[key] = mk("konst", "%s#p%d" % (fn.path, i), "?")
        body = fn.promoted[i]

        class F:
            pass
        c = Ctx.__new__(Ctx)
        f = F()
        f.path = "%s#p%d" % (fn.path, i)
        f.blocks = body["blocks"]
        f.locals = body["locals"]
        c.fn = f
        c.parent = None
        c.bb = None
        c.depth = 0
        c.key = ()
        c.names = ()
        c.id = "%s#p%d" % (fn.path, i)
        st = {}
        b = 0
        seen = set()
        while b not in seen:
            seen.add(b)
            blk = body["blocks"][b]
            for s in blk["s"]:
                if "r" in s:
                    self.assign(c, st, s)
            t = blk["t"]
            if t["k"] == "return":
                break
            if t["k"] == "call" and "t" in t:
                decl, res, virt = callee(t)
                a = [self.val(st, self.operand(c, st, x)) for x in t["a"]]
                r, p = self.resolve(c, st, t["d"])
                self.write(st, r, p, mk("call", decl or "?", "p", *a))
                b = t["t"]
                continue
            ss = term_succ(t)
            if len(ss) != 1:
                break
            b = ss[0]
        for k, v in st.items():
            self.genv[k] = v
        # values written field-wise
        v = self.val(st, self.read(st, (c.id, 0), ()), 8)
        self.genv[key] = v
        return v

    def assign(self, ctx, st, s):
        r = s["r"]
        v = self.rvalue(ctx, st, r)
        root, path = self.resolve(ctx, st, s["d"])
        self.write(st, root, path, v)
        return root, path, v

    def rvalue(self, ctx, st, r):
        k = r["k"]
        if k == "use":
            return self.operand(ctx, st, r["o"])
        if k in ("ref", "rawptr"):
            root, path = self.resolve(ctx, st, r["pl"])
            return self.mkref(root, path)
        if k == "bin":
            a = self.operand(ctx, st, r["a"])
            b = self.operand(ctx, st, r["b"])
            return self.binop(r["op"], a, b, r.get("aty", "?"))
        if k == "un":
            a = self.operand(ctx, st, r["o"])
            if r["op"] == "Not" and a.k == "c":
                return C(1 - a.a[0] if a.a[1] == "bool" else ~a.a[0], a.a[1])
            if r["op"] == "Neg" and a.k == "c":
                return C(-a.a[0], a.a[1])
            if r["op"] == "Not" and a.k == "un" and a.a[0] == "Not":
                return a.a[1]
            if r["op"] == "PtrMetadata":
                if a.k == "ref":
                    x = self.read(st, a.a[0].root, a.a[0].path)
                    if x.k == "agg" and x.a[0] == "array":
                        return C(len(x.a) - 3, "usize")
                    return mk("un", "len", x)
                if a.k == "addr":
                    return mk("un", "len", a.a[0])
                return mk("un", "len", mk("deref", a))
            return mk("un", r["op"], a)
        if k == "cast":
            a = self.operand(ctx, st, r["o"])
            if a.k == "c" and r["ty"] in INT_BITS:
                v = a.a[0]
                bits = INT_BITS[r["ty"]]
                v &= (1 << bits) - 1
                if r["ty"][0] == "i" and v >> (bits - 1):
                    v -= 1 << bits
                return C(v, r["ty"])
            if r["ck"].startswith("PointerCoercion") or r["ck"].startswith("PtrToPtr") or r["ck"] in ("Transmute",) and a.k in ("ref", "addr"):
                return a
            if r["ck"] == "Transmute" and r["ty"].startswith("*"):
                return a
            return mk("cast", r.get("from", "?"), r["ty"], a)
        if k == "agg":
            ops = [self.operand(ctx, st, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "adt":
                f = tuple(r["fields"])
                if len(f) < len(ops):
                    f = tuple(str(i) for i in range(len(ops)))
                return mk("agg", r["adt"], r["var"], f, *ops)
            if ak == "closure":
                f = tuple(r.get("fields", ()))
                f = f if len(f) == len(ops) else tuple(str(i) for i in range(len(ops)))
                return mk("agg", "closure:" + r["def"], "", f, *ops)
            if ak in ("tuple", "array"):
                return mk("agg", ak, "", tuple(str(i) for i in range(len(ops))), *ops)
            return mk("agg", ak, "", tuple(str(i) for i in range(len(ops))), *ops)
        if k == "repeat":
            return mk("agg", "repeat", r["n"], ("0",), self.operand(ctx, st, r["o"]))
        if k == "discr":
            root, path = self.resolve(ctx, st, r["pl"])
            x = self.read(st, root, path)
            return self.discr(st, x, r.get("vars", {}))
        return mk("other", r.get("d", "?"))

    def discr(self, st, x, vars):
        vt = tuple(sorted(vars.items(), key=lambda y: int(y[0])))
        v = self.variant(x, st)
        if v is not None:
            for d, n in vt:
                if n == v:
                    return C(int(d), "isize")
            if v in ("Ok", "Some", "Continue", "Err", "None", "Break", "Ok*", "Err*"):
                ok = v in ("Ok", "Some", "Continue", "Ok*")
                for d, n in vt:
                    if (n in ("Ok", "Some", "Continue")) == ok and n in ("Ok", "Some", "Continue", "Err", "None", "Break"):
                        return C(int(d), "isize")
        return mk("discr", x, vt)

    def variant(self, x, st=None):
        """known variant name of an enum value"""
        seen = 0
        while seen < 30:
            seen += 1
            if st is not None:
                f = st.get(("F", ("variant", x)))
                if f is not None:
                    return f.a[0]
            if self.assume_fn is not None:
                r = self.assume_fn("variant", x)
                if r is not None:
                    return r
            if x.k == "agg" and x.a[1]:
                return x.a[1]
            if x.k == "errof":
                return "Err*"
            if x.k == "phi":
                return x.a[4][2:] if x.a[4] and x.a[4].startswith("v:") else None
            if x.k == "branch":
                x = x.a[0]
                continue
            if x.k == "call" and len(x.a) > 2 and last(x.a[0]) in VARIANT_PASS and re.search(r"(Option|Result|Clone|Try|Context|anyhow)", x.a[0]):
                y = x.a[2]
                if y.k == "addr":
                    y = y.a[0]
                x = y
                continue
            if x.k == "upd":
                x = x.a[0]
                continue
            return None
        return None

    def binop(self, op, a, b, ty):
        ovf = op.endswith("WithOverflow")
        if ovf:
            op = op[:-len("WithOverflow")]
        op = op.replace("Unchecked", "")
        v = None
        if a.k == "c" and b.k == "c":
            x, y = a.a[0], b.a[0]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                 "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                 "Shl": lambda: x << (y & 127), "Shr": lambda: x >> (y & 127),
                 "Div": lambda: int(x / y) if y and abs(x) < 2**50 else (x // y if y else None), "Rem": lambda: (x - y * int(x / y)) if y else None}.get(op)
            cmpf = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}
            if op in cmpf:
                return C(int(cmpf[op]), "bool")
            if f is not None:
                r = f()
                if r is not None:
                    o = 0
                    if ty in INT_BITS:
                        bits = INT_BITS[ty]
                        w = r & ((1 << bits) - 1)
                        if ty[0] == "i" and w >> (bits - 1):
                            w -= 1 << bits
                        o = int(w != r)
                        r = w
                    v = C(r, ty)
                    if ovf:
                        return mk("agg", "tuple", "", ("0", "1"), v, C(o, "bool"))
        if v is None and a is b and op in ("Eq", "Le", "Ge") and a.k not in ("undef", "top"):
            v = C(1, "bool")
        if v is None:
            v = mk("op", op, a, b)
        if ovf:
            return mk("agg", "tuple", "", ("0", "1"), v, mk("ovf", op, a, b))
        return v

    # ---- transfer
    def transfer(self, node, st):
        ctx = self.ctx_of_id[node[0]]
        blk = ctx.fn.blocks[node[1]]
        stores = []
        for s in blk["s"]:
            if "r" in s:
                root, path, v = self.assign(ctx, st, s)
                if root[0] in ("M", "V") or path:
                    stores.append((root, path, v, s.get("sp")))
            elif "sd" in s:
                r = (ctx.id, s["sd"])
                for k in [k for k in st if k[0] == r]:
                    del st[k]
        self.stores[node] = stores
        t = blk["t"]
        k = t["k"]
        self.events.pop(node, None)
        if k == "goto":
            return [self.edge(ctx, t["t"], st, None)]
        if k == "assert":
            v = self.operand(ctx, st, t["o"])
            self.ev(node, "assert", t["m"], None, [v], st, t, ctx)
            return [self.edge(ctx, t["t"], st, None)]
        if k == "drop":
            root, path = self.resolve(ctx, st, t["pl"])
            v = self.read(st, root, path)
            e = self.ev(node, "drop", t["ty"], None, [v], st, t, ctx)
            return [self.edge(ctx, t["t"], st, None)]
        if k == "switch":
            return self.switch(node, ctx, st, t)
        if k == "return":
            v = self.read(st, (ctx.id, 0), ())
            if ctx.parent is None:
                self.returns[node] = v
                self.final_states[node] = st
                return []
            self.returns[node] = v
            pt = ctx.parent.fn.blocks[ctx.bb]["t"]
            if "t" not in pt:
                return []
            ids = ctx.id
            v = self.lift(st, v, ids)
            if ctx.wrap is not None:
                v = self.wrapped(ctx.wrap, v)
            for kk in [kk for kk in st if kk[0][0] == ids]:
                del st[kk]
            root, path = self.resolve(ctx.parent, st, pt["d"])
            self.write(st, root, path, v)
            self.stored(node, root, path, v, pt.get("sp"))
            return [self.edge(ctx.parent, pt["t"], st, None)]
        if k == "call":
            return self.call(node, ctx, st, t)
        return []

    def edge(self, ctx, bb, st, label):
        """successor node; paths that meet are kept apart as long as they carry a different known success/failure or
        truth value: of the function's result, or of what the next branch tests"""
        rt = None
        ty0 = ctx.fn.locals[0]["ty"]
        if ty0 == "bool" or ty0.startswith(("std::result::Result", "std::option::Option")):
            v = st.get(((ctx.id, 0), ()))
            if v is not None:
                rt = self.tokval(v)
        pd = None
        pl = self.pending(ctx.fn, bb)
        if pl is not None:
            v = self.read(st, (ctx.id, pl[0]), pl[1])
            pd = self.tokval(v)
            if pd is None and v.k != "undef":
                f = st.get(("F", ("variant", v)))
                if f is not None:
                    pd = "v:" + str(f.a[0])
                else:
                    f = st.get(("F", ("val", v)))
                    if f is not None and f.k == "c":
                        pd = "c:%s" % f.a[0]
        return ((ctx.id, bb, (rt, pd)), st, label)

    def tokval(self, v):
        if v.k == "c":
            return "c:%s" % (v.a[0],)
        if v.k == "agg" and v.a[1] and not v.a[0].startswith("closure:") and v.a[0] != "repeat":
            if v.a[1] in ("Ok", "Some", "Continue"):
                return "v:Ok*"
            if v.a[1] in ("Err", "None", "Break"):
                return "v:Err*"
            return "v:" + v.a[1]
        if v.k == "phi":
            return v.a[4]
        if v.k == "errof":
            return "v:Err*"
        if v.k == "branch" or (v.k == "call" and len(v.a) > 2 and last(v.a[0]) in VARIANT_PASS):
            return self.tokval(v.a[0] if v.k == "branch" else v.a[2])
        return None

    def pending(self, fn, bb):
        key = (fn.path, bb)
        r = self.pend_tab.get(key, 0)
        if r != 0:
            return r
        chain = []
        b = bb
        res = None
        for _ in range(5):
            blk = fn.blocks[b]
            t = blk["t"]
            if t["k"] == "switch":
                cur = t["o"].get("pl")
                if cur is not None:
                    res = self.back(chain + [blk], cur)
                break
            if t["k"] in ("goto", "drop", "assert"):
                chain.append(blk)
                b = t["t"]
            elif t["k"] == "call" and "t" in t and last(callee(t)[0] or "") in ("branch",):
                chain.append(blk)
                b = t["t"]
            else:
                break
        self.pend_tab[key] = res
        return res

    def back(self, chain, pl):
        """the place (local, field path) on entry of the chain that decides the place `pl` at its end"""
        def norm(pl):
            path = ()
            for e in pl.get("p", ()):
                if isinstance(e, dict) and "n" in e:
                    path += (("f", e["n"]),)
                else:
                    return None
            return (pl["l"], path)
        cur = norm(pl)
        for blk in reversed(chain):
            if cur is None:
                return None
            t = blk["t"]
            if t["k"] == "call" and not t["d"].get("p") and t["d"]["l"] == cur[0]:
                a = t["a"][0]
                if a.get("k") not in ("copy", "move"):
                    return None
                cur = norm(a["pl"])
            for s in reversed(blk["s"]):
                if cur is None:
                    return None
                if "d" not in s or s["d"]["l"] != cur[0]:
                    continue
                d = norm(s["d"])
                if d is None or d[1] != cur[1][:len(d[1])]:
                    continue
                rest = cur[1][len(d[1]):]
                r = s["r"]
                if r["k"] == "use" and r["o"].get("k") in ("copy", "move"):
                    n = norm(r["o"]["pl"])
                    cur = None if n is None else (n[0], n[1] + rest)
                elif r["k"] == "un" and r["op"] == "Not" and r["o"].get("k") in ("copy", "move") and not rest:
                    cur = norm(r["o"]["pl"])
                elif r["k"] == "discr" and not rest:
                    cur = norm(r["pl"])
                else:
                    return None
        return cur

    def lift(self, st, v, cid):
        """a returned value must not refer to the callee's frame; resolve such references"""
        if v.k == "ref" and v.a[0].root[0] == cid:
            return mk("addr", self.read(st, v.a[0].root, v.a[0].path))
        return v

    def switch(self, node, ctx, st, t):
        v = self.operand(ctx, st, t["o"])
        if v.k != "c" and self.assume_fn is not None:
            r = self.assume_fn("value", v)
            if r is not None:
                v = r if isinstance(r, T) else C(int(r))
        if v.k != "c":
            f = st.get(("F", ("val", v)))
            if f is not None:
                v = f
        if v.k == "un" and v.a[0] == "Not":
            f = st.get(("F", ("val", v.a[1])))
            if f is not None and f.k == "c":
                v = C(1 - f.a[0], "bool")
        outs = []
        if v.k == "c":
            x = v.a[0]
            for val, b in t["ts"]:
                if int(val) == x:
                    return [self.edge(ctx, b, st, (v, x))]
            return [self.edge(ctx, t["else"], st, (v, "else"))]
        neg = [int(x[0]) for x in t["ts"]]
        for val, b in t["ts"]:
            s2 = dict(st)
            self.learn(s2, v, int(val))
            outs.append(self.edge(ctx, b, s2, (v, int(val))))
        eb = ctx.fn.blocks[t["else"]]
        if not (eb["t"]["k"] == "unreachable" and not eb["s"]):
            s2 = dict(st)
            val = "else"
            if t["ty"] == "bool" and neg == [0]:
                self.learn(s2, v, 1)
                val = 1
            elif v.k == "discr":
                left = [d for d, n in v.a[1] if int(d) not in neg]
                if len(left) == 1:
                    self.learn(s2, v, int(left[0]))
                    val = int(left[0])
            outs.append(self.edge(ctx, t["else"], s2, (v, val)))
        return outs

    def learn(self, st, v, val):
        st[("F", ("val", v))] = C(val)
        if v.k == "discr":
            for d, n in v.a[1]:
                if int(d) == val:
                    x = v.a[0]
                    st[("F", ("variant", x))] = S(n)
                    while True:
                        if x.k == "branch":
                            x = x.a[0]
                        elif x.k == "call" and len(x.a) > 2 and last(x.a[0]) in VARIANT_PASS and re.search(r"(Option|Result|Clone|Try|Context|anyhow)", x.a[0]):
                            x = x.a[2].a[0] if x.a[2].k == "addr" else x.a[2]
                        else:
                            break
                        ok = n in ("Ok", "Some", "Continue")
                        st[("F", ("variant", x))] = S("Ok*" if ok else "Err*")
        if v.k == "un" and v.a[0] == "Not":
            st[("F", ("val", v.a[1]))] = C(1 - val)
        if v.k == "call" and len(v.a) > 2 and last(v.a[0]) in ("is_some", "is_none", "is_ok", "is_err"):
            x = v.a[2].a[0] if v.a[2].k == "addr" else v.a[2]
            pos = (last(v.a[0]) in ("is_some", "is_ok")) == bool(val)
            st[("F", ("variant", x))] = S("Ok*" if pos else "Err*")

    def ev(self, node, kind, name, res, args, st, t, ctx):
        e = Event()
        e.node = node
        e.kind = kind
        e.name = name
        e.res = res
        e.args = args
        e.vals = [self.val(st, a) for a in args]
        e.sp = t.get("sp")
        e.mac = t.get("mac")
        e.dty = t.get("dty")
        e.dest = None
        e.term = None
        e.fn = ctx.fn.path
        e.raw = t
        self.events[node] = e
        return e

    def call(self, node, ctx, st, t):
        decl, res, virt = callee(t)
        args = [self.operand(ctx, st, a) for a in t["a"]]
        target = None
        cargs = args
        if decl is None:
            f = self.operand(ctx, st, t["f"])
            if f.k == "fn":
                decl, res = f.a[0], f.a[1]
            else:
                decl = "<indirect>"
        name = res if (res and not virt) else decl
        if re.search(r"::ops::(function::)?Fn(Once|Mut)?::call(_once|_mut)?$", decl) and args:
            clo, kind = self.find_closure(st, args[0])
            if clo is not None and kind == "closure":
                p = clo.a[0][len("closure:"):]
                if p in self.prog.fns:
                    target = self.prog.fns[p]
                    selfv = args[0]
                    wants_ref = target.locals[1]["ty"].startswith("&")
                    selfv = self.closure_self(st, args[0], wants_ref, ctx, node)
                    tup = args[1] if len(args) > 1 else None
                    rest = []
                    for i in range(target.argc - 1):
                        rest.append(self.project(tup, ("f", str(i))) if tup is not None else TOP)
                    cargs = [selfv] + rest
            elif clo is not None and kind == "fn":
                name = clo.a[1]
                tup = args[1] if len(args) > 1 else None
                n = len(tup.a) - 3 if tup is not None and tup.k == "agg" else 1
                cargs = [self.project(tup, ("f", str(i))) for i in range(n)] if tup is not None else []
                args = cargs
                decl = clo.a[0]
                res = clo.a[1]
                if name in self.prog.fns and self.prog.fns[name].is_fn:
                    target = self.prog.fns[name]
        elif not virt and res in self.prog.fns and self.prog.fns[res].is_fn:
            target = self.prog.fns[res]
            if target.kind == "Closure":
                pass
        e = self.ev(node, "call", decl, res if not virt else None, args, st, t, ctx)
        root, path = self.resolve(ctx, st, t["d"])
        if target is not None and self.may_inline(target, ctx):
            c2 = self.getctx(target, ctx, node[1])
            s2 = st
            for k in [k for k in s2 if k[0][0] == c2.id]:
                del s2[k]
            for i in range(target.argc):
                v = cargs[i] if i < len(cargs) else TOP
                s2[((c2.id, i + 1), ())] = v
            self.inlined.add(target.path)
            e.kind = "enter"
            return [((c2.id, 0, (None, None)), s2, None)]
        if target is None:
            x = self.combinator(node, ctx, st, t, decl, args, e, root, path)
            if x is not None:
                return x
        r = self.model(node, ctx, st, t, decl, name, args, e)
        if r is None:
            vals = e.vals
            if vals and last(decl) == "len":
                vals = [same_len(vals[0])] + list(vals[1:])
            r = mk("call", name if name else "?", self.site(node), *vals)
            if self.assume_fn is not None:
                x = self.assume_fn("call", r)
                if x is not None:
                    r = x
            self.havoc(node, ctx, st, t, decl, args, r)
        e.term = r
        e.dest = r
        if "t" not in t:
            return []
        self.write(st, root, path, r)
        self.stored(node, root, path, r, t.get("sp"))
        return [self.edge(ctx, t["t"], st, None)]

    def stored(self, node, root, path, v, sp):
        if root[0] in ("M", "V") or path:
            self.stores.setdefault(node, []).append((root, path, v, sp))

    @staticmethod
    def wrapped(w, v):
        if w == "Ok" or w == "Err":
            return mk("agg", "std::result::Result", w, ("0",), v)
        if w == "Some":
            return mk("agg", "std::option::Option", w, ("0",), v)
        if w == "Not":
            return C(1 - v.a[0], "bool") if v.k == "c" else mk("un", "Not", v)
        return v

    # what a combinator does with the (success, failure) case: "f<i>": call argument i with the payload, "g<i>": call it
    # without arguments, "a<i>": argument i, "p": the payload, "=": the value itself, "N": None, "S"/"F": true/false;
    # then a wrapper for the result
    COMB = {
        ("Option", "map"): (("f1", "Some"), ("N", None)),
        ("Option", "map_or"): (("f2", None), ("a1", None)),
        ("Option", "map_or_else"): (("f2", None), ("g1", None)),
        ("Option", "is_some_and"): (("f1", None), ("F", None)),
        ("Option", "is_none_or"): (("f1", None), ("S", None)),
        ("Option", "and_then"): (("f1", None), ("N", None)),
        ("Option", "unwrap_or_else"): (("p", None), ("g1", None)),
        ("Option", "unwrap_or"): (("p", None), ("a1", None)),
        ("Option", "or_else"): (("=", None), ("g1", None)),
        ("Option", "or"): (("=", None), ("a1", None)),
        ("Result", "map"): (("f1", "Ok"), ("=", None)),
        ("Result", "map_or"): (("f2", None), ("a1", None)),
        ("Result", "map_or_else"): (("f2", None), ("e1", None)),
        ("Result", "is_ok_and"): (("f1", None), ("F", None)),
        ("Result", "is_err_and"): (("F", None), ("e1", None)),
        ("Result", "and_then"): (("f1", None), ("=", None)),
        ("Result", "unwrap_or_else"): (("p", None), ("e1", None)),
        ("Result", "unwrap_or"): (("p", None), ("a1", None)),
        ("Result", "or_else"): (("=", None), ("e1", None)),
        ("bool", "then"): (("g1", "Some"), ("N", None)),
        ("bool", "then_some"): (("a1", "Some"), ("N", None)),
    }

    def combinator(self, node, ctx, st, t, decl, args, e, root, path):
        """expand Option/Result/bool combinators whose closures are known"""
        l = last(decl)
        m = re.match(r"^(?:std|core)::(?:option::(Option)::<|result::(Result)::<|(bool)::)", decl)
        if not m:
            m = re.match(r"^(?:std|core)::(?:option::)?(Option)|^(?:std|core)::(?:result::)?(Result)|^(?:core::)?(bool)::<", decl)
        if not m:
            return None
        fam = m.group(1) or m.group(2) or m.group(3)
        spec = self.COMB.get((fam, l))
        if spec is None or "t" not in t:
            return None
        x = args[0]
        plans = []
        for (what, wrap) in spec:
            if what[0] in "fge":
                i = int(what[1])
                clo, kind = self.find_closure(st, args[i])
                if kind == "closure":
                    p = clo.a[0][len("closure:"):]
                    tg = self.prog.fns.get(p)
                elif kind == "fn":
                    tg = self.prog.fns.get(clo.a[1])
                    if tg is not None and not tg.is_fn:
                        tg = None
                else:
                    tg = None
                if tg is None or not self.may_inline(tg, ctx):
                    return None
                plans.append((what[0], tg, args[i], kind, wrap))
            else:
                plans.append((what, None, None, None, wrap))
        if fam == "bool":
            cond = x
            vals = (1, 0)
            known = x.a[0] if x.k == "c" else None
            if known is None and self.assume_fn is not None:
                y = self.assume_fn("value", x)
                if y is not None:
                    known = y.a[0] if isinstance(y, T) else int(y)
            if known is None:
                f = st.get(("F", ("val", x)))
                known = f.a[0] if f is not None and f.k == "c" else None
            known = None if known is None else bool(known)
        else:
            vt = (("0", "None"), ("1", "Some")) if fam == "Option" else (("0", "Ok"), ("1", "Err"))
            v = self.variant(x, st)
            known = None if v is None else v in ("Ok", "Some", "Continue", "Ok*")
            cond = mk("discr", x, vt)
            vals = (1, 0) if fam == "Option" else (0, 1)
        e.kind = "enter"
        outs = []
        for (what, tg, fv, kind, wrap), pos, val in zip(plans, (True, False), vals):
            if known is not None and known != pos:
                continue
            s2 = dict(st)
            if known is None:
                self.learn(s2, cond, val)
            label = (cond, val)
            if tg is not None:
                if what == "f":
                    pay = [self.payload(x)]
                elif what == "e":
                    pay = [self.project(self.project(x, ("v", "Err")), ("f", "0"))]
                else:
                    pay = []
                c2 = self.getctx(tg, ctx, node[1])
                c2.wrap = wrap
                for k in [k for k in s2 if k[0][0] == c2.id]:
                    del s2[k]
                cargs = pay
                if kind == "closure":
                    cargs = [self.closure_self(s2, fv, tg.locals[1]["ty"].startswith("&"), ctx, node)] + pay
                for i in range(tg.argc):
                    s2[((c2.id, i + 1), ())] = cargs[i] if i < len(cargs) else TOP
                self.inlined.add(tg.path)
                outs.append(((c2.id, 0, (None, None)), s2, label))
                continue
            if what == "p":
                r = self.payload(x)
            elif what == "=":
                r = x
            elif what == "N":
                r = mk("agg", "std::option::Option", "None", ())
            elif what in "SF":
                r = C(int(what == "S"), "bool")
            else:
                r = args[int(what[1])]
            r = self.wrapped(wrap, r)
            self.write(s2, root, path, r)
            m, s3, _ = self.edge(ctx, t["t"], s2, None)
            outs.append((m, s3, label))
        e.term = e.dest = None
        return outs

    def may_inline(self, target, ctx):
        if target.path in ctx.names:
            return False
        if ctx.depth >= self.maxdepth:
            return False
        if target.derived:
            return False
        if target.path in self.opaque or any(hasattr(o, "search") and o.search(target.path) for o in self.opaque):
            return False
        if self.inline_fn is not None:
            return self.inline_fn(target, ctx)
        return True

    def find_closure(self, st, v):
        for _ in range(6):
            if v.k == "agg" and v.a[0].startswith("closure:"):
                return v, "closure"
            if v.k == "fn":
                return v, "fn"
            if v.k == "ref":
                v = self.read(st, v.a[0].root, v.a[0].path)
            elif v.k == "addr":
                v = v.a[0]
            elif v.k == "z" and "{closure" in v.a[0]:
                m = re.search(r"\{closure@", v.a[0])
                return None, None
            else:
                return None, None
        return None, None

    def closure_self(self, st, v, wants_ref, ctx, node):
        # v may be a closure value, a ref to one, or a ref to a ref
        chain = [v]
        while chain[-1].k in ("ref", "addr"):
            x = chain[-1]
            chain.append(self.read(st, x.a[0].root, x.a[0].path) if x.k == "ref" else x.a[0])
        if wants_ref:
            if len(chain) >= 2:
                return chain[-2]
            root = ("tmp", node[:2])
            st[(root, ())] = chain[-1]
            return self.mkref(root, ())
        return chain[-1]

    def havoc(self, node, ctx, st, t, decl, args, r):
        """a call into code outside the repository may change what it gets a mutable reference to"""
        for i, (a, o) in enumerate(zip(args, t["a"])):
            if a.k != "ref":
                # closures passed by value run inside: their captured mutable references may be written
                if a.k == "agg":
                    for x in self.captured_mut(a):
                        self.havoc_place(st, x, decl, node, i)
                    if a.a[0] == "tuple":
                        # the arguments of a closure that is not known
                        for x, ty in zip(a.a[3:], split_types(self.operand_ty(ctx, o))):
                            if isinstance(x, T) and x.k == "ref" and re.match(r"&('\S+ )?mut ", ty):
                                self.havoc_place(st, x, decl, node, i)
                continue
            ty = self.operand_ty(ctx, o)
            if ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:12] or ty.startswith("*mut"):
                self.havoc_place(st, a, decl, node, i)

    def havoc_place(self, st, a, decl, node, i):
        r = a.a[0]
        old = self.read(st, r.root, r.path)
        if old.k == "agg" and old.a[0].startswith("closure:"):
            for x in self.captured_mut(old):
                self.havoc_place(st, x, decl, node, i)
            return
        if old.k == "eff" and old.a[0] == decl and old.a[1] == self.site(node):
            return
        self.write(st, r.root, r.path, mk("eff", decl, self.site(node), i, self.strip_eff(old, decl, node)))

    def captured_mut(self, a):
        """places a closure value may write through"""
        if not a.a[0].startswith("closure:"):
            return []
        g = self.prog.fns.get(a.a[0][8:])
        caps = g.d.get("caps", []) if g is not None else []
        out = []
        for i, x in enumerate(a.a[3:]):
            if isinstance(x, T) and x.k == "ref" and not (i < len(caps) and caps[i].get("shared")):
                out.append(x)
        return out

    def strip_eff(self, old, decl, node):
        return old

    def operand_ty(self, ctx, o):
        if o["k"] in ("copy", "move"):
            if not o["pl"].get("p"):
                return ctx.fn.locals[o["pl"]["l"]]["ty"]
            return "?"
        return o.get("ty", "?")

    # ---- models of a few std functions, where the analysis needs to look through them
    def model(self, node, ctx, st, t, decl, name, args, e):
        l = last(decl)
        m = INT_OPS.match(name) if name else None
        if m and len(args) == 2:
            assign = m.group(4) is not None
            x, y = [self.read(st, *self.deref_place(a)) if r else a
                    for a, r in zip(args, (assign or m.group(1), "&" in (m.group(5) or "")))]
            v = self.binop(m.group(3), x, y, m.group(2))
            if not assign:
                return v
            root, path = self.deref_place(args[0])
            self.write(st, root, path, v)
            self.stored(node, root, path, v, t.get("sp"))
            return mk("agg", "tuple", "", ())
        if l == "branch" and "Try" in decl:
            x = args[0]
            v = self.variant(x, st)
            if x.k == "agg" and x.a[1] in ("Ok", "Some"):
                return mk("agg", "std::ops::ControlFlow", "Continue", ("0",), x.a[3])
            if x.k == "agg" and x.a[1] in ("Err", "None"):
                return mk("agg", "std::ops::ControlFlow", "Break", ("0",), x)
            return mk("branch", x)
        if l.startswith("box_assume_init_into_vec") and args:
            # vec![…]: the array written into the box is what the vector starts with
            for (root, path), v in st.items():
                if root[0] == "M" and v.k == "agg" and v.a[0] == "array" and boxed(root[1]) is args[0]:
                    v = self.val(st, v)
                    e.vals = [v]
                    return mk("call", "std::slice::into_vec", self.site(node), v)
            return None
        if l == "replace" and decl == "std::mem::replace" and len(args) == 2 and args[0].k == "ref":
            r = args[0].a[0]
            old = self.read(st, r.root, r.path)
            self.write(st, r.root, r.path, args[1])
            self.stored(node, r.root, r.path, args[1], t.get("sp"))
            return old
        if l == "from_residual":
            return mk("errof", args[0].a[0] if args[0].k == "residual" else args[0])
        if l in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_str", "as_bytes", "borrow", "borrow_mut", "as_mut_ptr", "as_ptr") or \
                (l in ("as_ref", "as_mut") and ("AsRef" in decl or "AsMut" in decl)):
            if args and args[0].k == "ref" and not (l in ("as_slice",) and "ByteStream" in decl):
                r = args[0].a[0]
                return self.mkref(r.root, r.path + (("*",),))
            if args and args[0].k == "s":
                return args[0]
            return None
        if l in ("index", "index_mut") and "Index" in decl and len(args) == 2:
            if args[0].k == "ref":
                r = args[0].a[0]
                if args[1].k == "agg" and args[1].a[0].endswith("RangeFull"):
                    return args[0]
                return self.mkref(r.root, r.path + (("i", args[1]),))
            root, path = self.deref_place(args[0])
            return self.mkref(root, path + (("i", args[1]),))
        if l in ("is_some", "is_ok", "is_none", "is_err") and re.search(r"(Option|Result)", decl) and args:
            x = args[0]
            x = self.read(st, x.a[0].root, x.a[0].path) if x.k == "ref" else (x.a[0] if x.k == "addr" else mk("deref", x))
            v = self.variant(x, st)
            if v is not None:
                ok = v in ("Ok", "Some", "Ok*")
                return C(int(ok == (l in ("is_some", "is_ok"))), "bool")
            r = mk("call", name, self.site(node), mk("addr", x))
            if self.assume_fn is not None:
                y = self.assume_fn("call", r)
                if y is not None:
                    return y
            return r
        if l in ("unwrap", "expect") and re.search(r"(Option|Result)", decl) and args:
            return self.payload(args[0])
        if l == "as_ref" and "Option" in decl and args and args[0].k == "ref":
            r = args[0].a[0]
            x = self.read(st, r.root, r.path)
            if x.k == "agg" and x.a[1] == "Some":
                return mk("agg", x.a[0], "Some", ("0",), self.mkref(r.root, r.path + (("v", "Some"), ("f", "0"))))
            if x.k == "agg" and x.a[1] == "None":
                return x
            return None
        if l in ("clone",) and args and args[0].k in ("ref", "addr"):
            x = self.read(st, args[0].a[0].root, args[0].a[0].path) if args[0].k == "ref" else args[0].a[0]
            if ground(x):
                return x
            return None
        if l in ("eq", "ne") and "PartialEq" in decl and len(args) == 2:
            a, b = [self.fullval(st, x) for x in args]
            if a.k in ("s", "c") and b.k in ("s", "c"):
                return C(int((a.a[0] == b.a[0]) == (l == "eq")), "bool")
            if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and ground(a) and ground(b):
                return C(int((a is b) == (l == "eq")), "bool")
            r = mk("call", decl, 0, a, b)
            if self.assume_fn is not None:
                y = self.assume_fn("call", r)
                if y is not None:
                    return y
            return r
        if l in ("to_string", "to_owned", "into_string") and len(args) == 1:
            x = self.fullval(st, args[0])
            if x.k == "s":
                return x
        if l in ("is_empty", "len", "split", "collect", "get", "first", "starts_with", "ends_with", "contains") and args:
            x = self.fullval(st, args[0])
            y = self.fullval(st, args[1]) if len(args) > 1 else None
            strs = x.k == "agg" and x.a[0] == "strs"
            if x.k == "s" or strs:
                n = len(x.a) - 3 if strs else len(x.a[0].encode("utf-8", "surrogateescape"))
                if l == "is_empty":
                    return C(int(n == 0), "bool")
                if l == "len":
                    return C(n, "usize")
                if l == "split" and not strs and y is not None and y.k == "c":
                    return mk("agg", "strs", None, (), *[S(w) for w in x.a[0].split(chr(y.a[0]))])
                if l == "collect" and strs:
                    return x
                if l in ("get", "first") and (strs or y is None) and (y is None or y.k == "c"):
                    i = y.a[0] if y is not None else 0
                    if strs:
                        w = x.a[3 + i] if i < n else None
                    else:
                        w = self.project(x, ("i", C(i, "usize"))) if i < n else None
                    if w is None:
                        return mk("agg", "std::option::Option", "None", ())
                    return mk("agg", "std::option::Option", "Some", ("0",), mk("addr", w))
                if l == "contains" and not strs and y is not None and y.k in ("s", "c"):
                    return C(int((y.a[0] if y.k == "s" else chr(y.a[0])) in x.a[0]), "bool")
                if l in ("starts_with", "ends_with") and not strs and y is not None and y.k in ("s", "c"):
                    w = y.a[0] if y.k == "s" else chr(y.a[0])
                    return C(int(getattr(x.a[0], l.replace("_", ""))(w)), "bool")
        if l in TEXT_OPS and args:
            r = self.text_iter(st, l, args)
            if r is not None:
                return r
        if l in CHAR_FOLDS and args and re.search(r"char|u8|ascii", decl):
            x = self.fullval(st, args[0])
            if x.k == "c" and x.a[1] in ("char", "u8", "?") and 0 <= x.a[0] < 0x110000:
                r = char_fold(l, x, self.fullval(st, args[1]) if len(args) > 1 else None)
                if r is not None:
                    return r
        if l == "contains" and "Range" in decl and len(args) == 2:
            x, r = self.fullval(st, args[1]), self.fullval(st, args[0])
            if x.k == "c":
                lo = hi = None
                if r.k == "call" and last(r.a[0]) == "new" and len(r.a) == 4:
                    lo, hi = [self.fullval(st, y) for y in r.a[2:4]]
                elif r.k == "agg" and "Range" in str(r.a[0]) and {"start", "end"} <= set(r.a[2]):
                    lo, hi = [self.fullval(st, r.a[3 + r.a[2].index(n)]) for n in ("start", "end")]
                if lo is not None and lo.k == "c" and hi.k == "c":
                    incl = "RangeInclusive" in decl
                    return C(int(lo.a[0] <= x.a[0] and (x.a[0] <= hi.a[0] if incl else x.a[0] < hi.a[0])), "bool")
        if l == "from_u32" and "char" in decl and args and args[0].k == "c":
            return mk("agg", "std::option::Option", "Some", ("0",), C(args[0].a[0], "char"))
        if l in ("map_err", "with_context", "context", "inspect_err", "ok_or", "ok_or_else", "ok") and args and args[0].k == "agg" and \
                args[0].a[1] in ("Ok", "Some") and len(args[0].a) == 4:
            to = ("std::option::Option", "Some") if l == "ok" else ("std::result::Result", "Ok")
            return mk("agg", to[0], to[1], ("0",), args[0].a[3])
        if l in ("try_into", "try_from") and len(args) == 1 and args[0].k == "c" and t.get("dty"):
            m = re.match(r"std::result::Result<([iu](?:8|16|32|64|128|size)),", t["dty"])
            if m:
                ty = m.group(1)
                bits = INT_BITS[ty]
                lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)
                ok = lo <= args[0].a[0] <= hi
                return mk("agg", "std::result::Result", "Ok" if ok else "Err", ("0",), C(args[0].a[0], ty) if ok else mk("call", name, self.site(node), args[0]))
        m = re.match(r"^(checked|wrapping|saturating)_(add|sub|mul|div|rem|neg|pow|shl|shr)$|^pow$", l)
        if m and "num" in decl and args and all(x.k == "c" for x in args):
            r = int_fold(m.group(1) or "", m.group(2) or "pow", [x.a[0] for x in args], decl)
            if r is not None:
                return r
        if l in ("min", "max") and "cmp" in decl and len(args) == 2 and all(x.k == "c" and isinstance(x.a[0], int) for x in args):
            return (min if l == "min" else max)(args, key=lambda x: x.a[0])
        if l == "get" and "slice" in decl and len(args) == 2 and args[0].k == "ref" and args[1].k == "c":
            r = args[0].a[0]
            x = self.read(st, r.root, r.path)
            if x.k == "agg" and x.a[0] == "array":
                if args[1].a[0] >= len(x.a) - 3:
                    return mk("agg", "std::option::Option", "None", ())
                return mk("agg", "std::option::Option", "Some", ("0",), self.mkref(r.root, r.path + (("i", args[1]),)))
        if l in ("copied", "cloned") and "Option" in decl and args and args[0].k == "agg" and args[0].a[1] in ("Some", "None"):
            if args[0].a[1] == "None":
                return args[0]
            if args[0].a[3].k == "ref":
                r = args[0].a[3].a[0]
                return mk("agg", args[0].a[0], "Some", ("0",), self.read(st, r.root, r.path))
        if l == "from" and len(args) == 1 and args[0].k == "c" and t["dty"] in INT_BITS:
            return C(args[0].a[0], t["dty"])
        return None

    def text_iter(self, st, l, args):
        """an iterator over the characters of a constant text, as a value `text{rest}` in memory"""
        x = args[0]
        where = None
        for _ in range(6):
            if x.k == "ref":
                where = x.a[0]
                x = self.read(st, where.root, where.path)
            elif x.k == "addr":
                x = x.a[0]
                where = None
            else:
                break
        if l in ("chars", "bytes"):
            return mk("agg", "text", l, ("rest",), x) if x.k == "s" else None
        if x.k != "agg" or x.a[0] != "text":
            return None
        if l in ("peekable", "into_iter", "by_ref", "as_mut"):
            return args[0]
        rest = x.a[3].a[0]
        o = "std::option::Option"
        cur = C(ord(rest[0]), "char" if x.a[1] == "chars" else "u8") if rest else None
        if l == "peek":
            return mk("agg", o, "Some", ("0",), mk("addr", cur)) if rest else mk("agg", o, "None", ())
        if where is None:
            return None
        if l == "next_if_eq":
            y = self.fullval(st, args[1])
            if y.k != "c":
                return None
            if not rest or y.a[0] != cur.a[0]:
                return mk("agg", o, "None", ())
        self.write(st, where.root, where.path, mk("agg", "text", x.a[1], ("rest",), S(rest[1:])))
        return mk("agg", o, "Some", ("0",), cur) if rest else mk("agg", o, "None", ())

    def fullval(self, st, x):
        for _ in range(6):
            if x.k == "ref":
                x = self.read(st, x.a[0].root, x.a[0].path)
            elif x.k == "addr":
                x = x.a[0]
            elif x.k == "fld" and x.a[1] == "*":
                x = x.a[0]
            else:
                break
        return x

    # ---- queries on the finished analysis
    def calls(self, pat=None):
        out = []
        for n, e in self.events.items():
            if e.kind in ("call", "enter"):
                if pat is None or re.search(pat, e.name or "") or (e.res and re.search(pat, e.res)):
                    out.append(e)
        out.sort(key=lambda e: self.prio(e.node))
        return out

    def exts(self, pat=None):
        return [e for e in self.calls(pat) if e.kind == "call"]

    def succ(self, n):
        return [m for m, _ in self.succs.get(n, [])]

    def dom(self):
        if self._dom is None:
            idom, order, preds = dominators(self.nodes, self.start, self.succ)
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        return dominates(self.dom(), a, b)

    def reach(self, starts, avoid=()):
        """nodes reachable from `starts` (exclusive of the starts unless revisited) without entering `avoid`"""
        avoid = set(avoid)
        seen = set()
        st = []
        for s in starts:
            st.extend(self.succ(s))
        while st:
            n = st.pop()
            if n in seen or n in avoid:
                continue
            seen.add(n)
            st.extend(self.succ(n))
        return seen

    def origins(self, t, through=None, limit=4000):
        """the non-phi terms a value may be, looking through phis, conversions and (optionally) more"""
        out = []
        seen = set()
        st = [t]
        while st and limit:
            limit -= 1
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "phi" and x in self.phi_in:
                st.extend(self.phi_in[x])
                continue
            if x.k == "addr":
                st.append(x.a[0])
                continue
            if x.k == "fld" and x.a[1] == "*":
                st.append(x.a[0])
                continue
            if x.k == "call" and TRANSPARENT.search(x.a[0]) and len(x.a) > 2:
                st.append(x.a[2])
                continue
            if through is not None:
                y = through(x)
                if y is not None:
                    st.extend(y if isinstance(y, (list, tuple)) else [y])
                    continue
            out.append(x)
        return out

    def at_site(self, site):
        """events of a call site"""
        if not hasattr(self, "_sites"):
            self._sites = {}
            for n, e in self.events.items():
                self._sites.setdefault(self.site_ids.get(n[:2]), []).append(e)
        return self._sites.get(site, [])

    def leaves(self, t, stop=None, deep=False):
        """every subterm of a value, looking through phis (deep: also what calls put into it by reference)"""
        seen = set()
        out = []
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            if stop is not None and stop(x):
                continue
            if x.k == "phi":
                st.extend(self.phi_in.get(x, ()))
            elif x.k == "ref":
                pass
            else:
                st.extend(y for y in x.a if isinstance(y, T))
                if deep and x.k == "eff":
                    for e in self.at_site(x.a[1]):
                        st.extend(e.vals)
        return out


def split_types(ty):
    """the element types of a tuple type"""
    if not (ty.startswith("(") and ty.endswith(")")):
        return []
    out, d, cur = [], 0, ""
    for c in ty[1:-1]:
        d += c in "(<[{"
        d -= c in ")>]}"
        if c == "," and d <= 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class RefPlace:
    __slots__ = ("root", "path", "h")
    tab = {}

    @classmethod
    def get(cls, root, path):
        key = (root, path)
        r = cls.tab.get(key)
        if r is None:
            r = cls()
            r.root = root
            r.path = path
            r.h = len(cls.tab)
            cls.tab[key] = r
        return r

    def __repr__(self):
        return "place(%s %s)" % (self.root, self.path)


def has_ref(x):
    return x.k == "ref" or (x.k == "agg" and any(isinstance(y, T) and has_ref(y) for y in x.a[3:]))
