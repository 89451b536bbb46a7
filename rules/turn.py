"""One turn of a loop with numbers for what the loop keeps: the variables of a loop over a block of L elements are numbers (or
sub-slices) that move with the progress c made in the block; they are recognised from one turn, and every further turn is analysed
with the numbers that belong to its c."""
from absint import Interp, mk, show, last
import q
import cases
from rules.c16 import field_path
from rules.c17 import OPAQUE


def closure_body(prog, entry, pattern, inline=OPAQUE):
    """(path, arguments) of the closure the function hands to the call matching the pattern; captured places stand for themselves"""
    F = Interp(prog, entry, inline=inline)
    for e in F.calls(pattern):
        for v in e.vals:
            for c in F.origins(v):
                g = prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
                if g is None:
                    continue
                caps = []
                for x in c.a[3:]:
                    y, wrap = x, False
                    while y.k in ("addr", "upd", "eff", "phi"):
                        if y.k == "addr":
                            y, wrap = y.a[0], True
                        elif y.k == "upd":
                            y = y.a[0]
                        elif y.k == "eff":
                            y = y.a[3]
                        else:
                            z = [w for w in F.phi_in.get(y, ()) if w is not y]
                            if not z:
                                break
                            y = min(z, key=lambda w: w.id)
                    caps.append(mk("addr", y) if wrap else y)
                c = mk("agg", *(c.a[:3] + tuple(caps)))
                return F, g.path, {0: mk("addr", c) if g.locals[1]["ty"].startswith("&") else c}
    return F, None, None


def final(I, st, path):
    """value of a field of *self in a state, also where it is reached through what a closure captures; None when it is not written"""
    best = None
    for (root, p) in st:
        if isinstance(root, tuple) and root[0] in ("V", "M") and hasattr(root[1], "k"):
            rp = field_path(mk("fld", root[1], "*"))
            if rp is None and root[1].k == "arg" and root[1].a[1] == 0:
                rp = ()
            if rp is not None and rp == path[:len(rp)]:
                v = I.read(st, root, tuple(("f", x) for x in path[len(rp):]))
                if best is None or len(rp) > best[0]:
                    best = (len(rp), v)
    return best[1] if best else None


def place(I, t, base, num, depth=0):
    """(start, end) of a part of the base slice as numbers; base(t) -> (start, end) of a term known to be one"""
    t = q.strip(t)
    if depth > 30:
        return None
    b = base(t)
    if b is not None:
        return b
    d = depth + 1
    s = q.slice_of(t)
    if s is not None:
        x = place(I, s[0], base, num, d)
        lo = num(s[1]) if s[1] is not None else 0
        hi = num(s[2]) if s[2] is not None else None
        if x is None or lo is None or s[2] is not None and hi is None:
            return None
        return (x[0] + lo, x[1] if s[2] is None else x[0] + hi)
    if t.k == "fld" and t.a[1] == "1" and t.a[0].k == "call" and last(t.a[0].a[0]) == "split_at":
        x, n = place(I, t.a[0].a[2], base, num, d), num(t.a[0].a[3])
        return None if x is None or n is None else (x[0] + n, x[1])
    if t.k == "phi":
        vs = {place(I, x, base, num, d) for x in I.phi_in.get(t, ()) if x is not t}
        return vs.pop() if len(vs) == 1 else None
    if t.k == "call" and last(t.a[0]) in ("deref", "as_slice", "as_ref", "iter", "copied", "to_vec", "cloned", "into_iter", "to_owned") and len(t.a) == 3:
        return place(I, t.a[2], base, num, d)
    if t.k == "call" and last(t.a[0]) == "get_unchecked" and len(t.a) == 4:
        return place(I, mk("idx", t.a[2], t.a[3]), base, num, d)
    return None


def where(I, node):
    """what a place in the function is called in every analysis of it"""
    return (I.ctx_of_id[node[0]].names, node[1])


def nodes_at(I, w):
    return {n for n in set(I.succs) | set(I.events) if where(I, n) == w}


def heads_at(I, w):
    """the joins at a loop's head: {signature: phi}"""
    return {I.signature(p): p for p, n in I.phi_where.items() if p in I.phi_in and where(I, n) == w}


def loop_head(I, inside):
    """the head of the innermost loop a node is in (the last join every way to the node passes, and that is reached again from it)"""
    again = q.reach(I, [inside])
    hs = []
    for n in {I.phi_where[p] for p in I.phi_in}:
        if n in again and inside in q.reach(I, [n], include=True) and inside not in q.from_start(I, None, avoid=[n]):
            hs.append(n)
    # the innermost: no other one on the way from it to the node
    for n in hs:
        if all(m == n or inside not in q.reach(I, [n], avoid=[m], include=True) or n not in q.from_start(I, None, avoid=[m]) for m in hs):
            return n
    return None


def incoming(I, p):
    """what goes into the join of a variable: [(place it comes from, value)]"""
    n = I.phi_where[p]
    out = []
    for pred, st in I.edge_out.get(n, {}).items():
        if pred is None or pred[0] not in I.nodes:
            continue
        root, path = I.phi_key[p]
        v = st.get((root, path))
        if v is None:
            v = I.read(st, root, path)
        out.append((pred[0], I.rw(v)))
    return out


def turns(I, p, outer=()):
    """(values of a variable when the loop is entered, values after a turn); outer: the heads of the loops around it"""
    head = I.phi_where[p]
    again = q.reach(I, [head], avoid=outer)
    a, b = [], []
    for n, v in incoming(I, p):
        (b if n in again else a).append(v)
    return a, b


def nest(I, node):
    """the heads of the loops a node is in, the innermost first"""
    again = q.reach(I, [node])
    hs = [n for n in {I.phi_where[p] for p in I.phi_where} if n in I.nodes and n in again and node in q.reach(I, [n], include=True) and node not in q.from_start(I, None, avoid=[n])]
    # an outer head is passed on every way to an inner one
    return sorted(hs, key=lambda h: -sum(h not in q.from_start(I, None, avoid=[m]) for m in hs if m != h))
