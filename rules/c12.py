"""Operators. Every operator is propagated as a constant through the functions that apply it, with symbolic operands (or, for
shifts, a constant count), and the result compared with the documented operation as a polynomial modulo 2^64. The comparison
operators are expanded into a list of other operators, which is evaluated the same way. The tables with which expressions are
rewritten (signs moved between operators and operands, operands exchanged, neutral operands dropped) are each checked against the
algebraic identity they stand for, for every operator."""
import itertools
from absint import Interp, C, mk, show, last
import q
from rules import concrete as K
from rules import evalx as E

LINEAR = {"+": (1, 1), "-": (1, -1)}
COUNTS = list(range(-63, 64))


def run(prog, R):
    ops = E.Ops(prog)
    if not R.ob("found", ops.f is not None and ops.g is not None, "the functions that apply an operator (char, i64, i64) and a prefix (char, i64) are not found", "src/eval.rs"):
        return
    R.fn(ops.f.path, ops.g.path)
    binary(prog, R, ops)
    prefixes(prog, R, ops)
    tokens(prog, R)
    comparisons(prog, R, ops)
    tables(prog, R, ops)


def text(rs):
    return ", ".join(sorted({show(x, 6) for x in rs})) or "nothing"


def binary(prog, R, ops):
    x, y = [mk("arg", ops.f.path, i) for i in (1, 2)]
    for c, (a, b) in LINEAR.items():
        l = ops.linear(c)
        rs, p, I = ops.op(c)
        R.graph(I)
        R.ob("operator:" + c, l == (a, b), "x %s y is computed as %s" % (c, text(rs)), p[0].sp if p else ops.f.path)
    rs, p, I = ops.op("*")
    v = ops.value(rs)
    R.ob("operator:*", v is not None and not p and E.poly(v) == {tuple(sorted((x.id, y.id))): 1}, "x * y is computed as %s" % text(rs), ops.f.path)
    for c, n in (("&", "BitAnd"), ("|", "BitOr"), ("^", "BitXor")):
        rs, p, I = ops.op(c)
        v = ops.value(rs)
        R.ob("operator:" + c, v is not None and not p and v.k == "op" and v.a[0] == n and {v.a[1], v.a[2]} == {x, y}, "x %s y is computed as %s" % (c, text(rs)), ops.f.path)
    for c, n in (("/", "Div"), ("%", "Rem")):
        rs, p, I = ops.op(c)
        v = ops.value(rs)
        ok = v is not None and not p and quotient(v, n, x, y)
        R.ob("operator:" + c, ok, "x %s y is computed as %s" % (c, text(rs)), ops.f.path)
        for a, b in ((None, 0), (-(1 << 63), -1)):
            rs, p, I = ops.op(c, a, b)
            bad = [z for z in rs if not E.failure(z) and not (q.strip(E.some(z) if E.some(z) is not None else z).k == "pay")]
            R.ob("refused:%s:%s" % (c, b), not bad and not p and rs != [],
                 "%s %s %d is %s instead of an error" % ("x" if a is None else a, c, b, "a panic" if p or any(z.k == "op" for z in map(E.some, bad) if z) else text(rs)), ops.f.path)
        for a, b in itertools.product((-7, -1, 0, 1, 7), (-3, -1, 1, 2)):
            rs, p, I = ops.op(c, a, b)
            k = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            w = k if c == "/" else a - k * b
            v = ops.value(rs)
            v = q.strip(v) if v is not None else None
            R.ob("quotient:%s:%d:%d" % (c, a, b), v is not None and not p and (v.k != "c" or v.a[0] == w), "%d %s %d is computed as %s" % (a, c, b, text(rs)), ops.f.path)
    for c in "<>":
        for k in COUNTS:
            rs, p, I = ops.op(c, None, k)
            v = ops.value(rs)
            w = ("Shl" if (c == "<") == (k > 0) else "Shr") if k else None
            R.ob("shift:%s:%d" % (c * 2, k), v is not None and not p and shifted(v, w, abs(k), x),
                 "x %s %d is computed as %s" % (c * 2, k, text(rs)), p[0].sp if p else ops.f.path)


def quotient(v, n, x, y):
    v = q.strip(v)
    if v.k == "op":
        return v.a[0] == n and v.a[1:] == (x, y)
    if v.k == "pay":
        v = v.a[0]
    return v.k == "call" and last(v.a[0]) in ("checked_" + n.lower(), "wrapping_" + n.lower(), "overflowing_" + n.lower()) and tuple(v.a[2:4]) == (x, y)


def shifted(v, w, k, x):
    v = q.strip(v)
    if v.k == "pay":
        v = v.a[0]
    if v is x:
        return k == 0
    if v.k == "op":
        op = v.a[0].replace("Unchecked", "")
        return q.strip(v.a[1]) is x and q.strip(v.a[2]).k == "c" and q.strip(v.a[2]).a[0] == k and op in ((w,) if w else ("Shl", "Shr"))
    if v.k == "call" and len(v.a) == 4:
        l = last(v.a[0]).replace("wrapping_", "").replace("checked_", "").replace("unbounded_", "")
        return v.a[2] is x and v.a[3].k == "c" and v.a[3].a[0] == k and l in ((w.lower(),) if w else ("shl", "shr"))
    return False


def prefixes(prog, R, ops):
    x = mk("arg", ops.g.path, 1)
    for c, w in (("+", {(x.id,): 1}), ("-", {(x.id,): -1 & E.MASK}), ("!", {(x.id,): -1 & E.MASK, (): -1 & E.MASK})):
        rs, p, I = ops.prefix(c)
        v = ops.value(rs)
        R.ob("prefix:" + c, v is not None and not p and E.poly(v) == w, "%sx is computed as %s" % (c, text(rs)), p[0].sp if p else ops.g.path)


def tokens(prog, R):
    """the characters of an operator give its token"""
    f = prog.fns.get(E.EVAL + "parse_op")
    if f is None:
        R.count("operator tokens not decided (no function parse_op)")
        return
    want = {"<<": "<", ">>": ">", "<=": "L", ">=": "G", "<1": "l", ">1": "g", "< ": "l", "> ": "g", "<-": "l", ">-": "g", "<(": "l", ">(": "g"}
    for c in "+-*/%&|^~!":
        for n in "1 -(":
            want[c + n] = c
    for s, w in sorted(want.items()):
        I = E.on_text(prog, f.path, s[0], s[1:] + "1")
        rs = E.results(I)
        got = {show(E.some(r)) for r in rs if not E.failure(r)}
        R.ob("token:" + s, got == {show(E.tok("Op", E.ch(w)))} and not any(E.failure(r) for r in rs), "the text %r is read as %s, not as the operator %r" % (s, text(rs), w), f.path)
        if s == "<<":
            R.graph(I)


def pushed(I):
    """the (token, number) pairs appended to a vector on the way to the end, in order; None when the appends are not understood"""
    out = []
    evs = I.exts(r"::(push|extend_from_slice|extend|append|insert|extend_from_within)$")
    evs.sort(key=lambda e: sum(I.dominates(x.node, e.node) for x in evs))
    if any(not I.dominates(a.node, b.node) for a, b in zip(evs, evs[1:])):
        return None
    for e in evs:
        l = last(e.name)
        v = q.strip(e.vals[1]) if len(e.vals) > 1 else None
        if v is not None and v.k == "addr":
            v = q.strip(v.a[0])
        if l == "push" and v is not None and v.k == "agg" and v.a[0] == "tuple":
            out.append(v)
        elif l in ("extend_from_slice", "extend") and v is not None and v.k == "agg" and v.a[0] == "array":
            out += [q.strip(z) for z in v.a[3:]]
        else:
            return None
    return out


def comparisons(prog, R, ops):
    """x > y and so on are 1 or 0"""
    f = prog.fns.get(E.EVAL + "expand_and_push_op")
    want = {"g": (1, -1, -1), "G": (1, -1, 0), "l": (-1, 1, -1), "L": (-1, 1, 0)}     # a x + b y + c >= 0
    name = {"g": ">", "G": ">=", "l": "<", "L": "<="}
    for c, (a, b, k) in want.items():
        rs, p, I = ops.op(c)
        if not p and ops.value(rs) is not None:
            R.count("comparisons computed directly, not decided")
            continue
        if not R.ob("expanded:" + name[c], f is not None, "the comparison %s is neither computed nor expanded into other operators" % name[c], ops.f.path):
            continue
        lhs = mk("arg", f.path, 1)
        I = Interp(prog, f, args={0: mk("addr", E.tok("Op", E.ch(c)))}, inline=E.ALL)
        R.graph(I)
        seq = pushed(I)
        if not R.ob("understood:" + name[c], seq is not None, "the expansion of the comparison %s is not understood" % name[c], f.path):
            continue
        x, y = mk("arg", "x", 0), mk("arg", "y", 0)
        stack = [("p", E.poly(x), 1), ("p", E.poly(y), 1)]
        ok = True
        for t in seq:
            kind, v, n = q.strip(t.a[3]), None, q.strip(t.a[4])
            if kind.k != "agg" or kind.a[0] != E.TOK or kind.a[1] not in ("Val", "Op", "Prefix"):
                ok = False
                break
            v = q.strip(kind.a[3])
            if kind.a[1] == "Val":
                stack.append(("p", E.poly(v), 1))
                ok = ok and n.k == "c" and n.a[0] == 0
            elif kind.a[1] == "Op" and v.k == "c" and len(stack) >= 2:
                l = ops.linear(chr(v.a[0]))
                r, s = stack.pop(), stack.pop()
                if l is None or r[0] != "p" or s[0] != "p":
                    ok = False
                    break
                stack.append(("p", E.add(E.scale(s[1], l[0]), E.scale(r[1], l[1])), 1))
                # the distance to the left operand: from the first operator it is the caller's, later the constant's own size
                ok = ok and (n is lhs if len(stack) == 1 and t is seq[0] else (n.k == "c" and n.a[0] == 2))
            elif kind.a[1] == "Prefix" and v.k == "c" and stack:
                s = stack.pop()
                z = sign_test(ops, chr(v.a[0]))
                if z is None or s[0] != "p":
                    ok = False
                    break
                stack.append((z, s[1], 1))
                ok = ok and n.k == "c" and n.a[0] == 1
            else:
                ok = False
                break
        w = E.norm({(x.id,): a, (y.id,): b, (): k})
        R.ob("comparison:" + name[c], ok and len(stack) == 1 and stack[0][0] == "ge0" and stack[0][1] == w,
             "x %s y is expanded to %s" % (name[c], "; ".join(show(t, 5) for t in seq)), f.path)


def sign_test(ops, c):
    """"ge0" when the prefix maps values >= 0 to 1 and others to 0"""
    for v in (-(1 << 63), -(1 << 62), -2, -1, 0, 1, 2, 1 << 62, (1 << 63) - 1):
        rs, p, I = ops.prefix(c, v)
        r = ops.value(rs)
        if r is None or p or q.strip(r).k != "c" or q.strip(r).a[0] != int(v >= 0):
            return None
    return "ge0"


# ---- rewriting tables
def const_char(t):
    t = q.strip(t)
    return chr(t.a[0]) if t.k == "c" and 0 <= t.a[0] < 0x110000 else None


def pair(t):
    t = q.strip(t)
    return (const_char(t.a[3]), const_char(t.a[4])) if t.k == "agg" and t.a[0] == "tuple" and len(t.a) == 5 else None


def table(prog, name, args):
    f = prog.fns.get(E.EVAL + name)
    if f is None or f.argc != len(args) or E.sig(f) != ["char"] * len(args):
        return None
    I = Interp(prog, f, args={i: E.ch(c) for i, c in enumerate(args)}, inline=E.ALL)
    rs = E.results(I)
    return rs[0] if len(rs) == 1 and not E.panics(I) else False


def tables(prog, R, ops):
    lin = {c: ops.linear(c) for c in "+-#~"}
    lin = {c: l for c, l in lin.items() if l}
    R.ob("linear", all(l in ((1, 1), (1, -1), (-1, -1), (-1, 1)) for l in lin.values()), "an additive operator computes something else than +-x +-y: %s" % lin, ops.f.path)
    sgn = {"+": 1, "-": -1}

    def law(name, args, f, what):
        t = table(prog, name, args)
        if t is None:
            R.count("rewriting tables not present")
            return
        ok = t is False or f(t)
        R.count("table entries")
        R.ob("table:%s:%s" % (name, "".join(args)), ok, "%s(%s) = %s, but %s" % (name, ", ".join(args), show(t, 4) if t is not False else "?", what), "nd::eval::" + name)

    def is_lin(c, a, b):
        return lin.get(c) == (a, b)
    for a, b in itertools.product("+-", repeat=2):
        law("fuse_sign2", (a, b), lambda t: sgn.get(const_char(t)) == sgn[a] * sgn[b], "the product of the signs is different")
        for c in "+-":
            law("fuse_sign3", (a, b, c), lambda t: sgn.get(const_char(t)) == sgn[a] * sgn[b] * sgn[c], "the product of the signs is different")
        for o, (u, v) in lin.items():
            law("fuse_sign2_op", (a, b, o), lambda t: is_lin(const_char(t), sgn[a] * sgn[b] * u, sgn[a] * sgn[b] * v), "the signs applied to the operation give another one")
            law("gather_sign2", (a, o, b), lambda t: is_lin(const_char(t), sgn[a] * u, sgn[b] * v), "(%sx) %s (%sy) is another operation" % (a, o, b))
    for o, (u, v) in lin.items():
        for s in "+-":
            law("fuse_sign_op", (s, o), lambda t: is_lin(const_char(t), sgn[s] * u, sgn[s] * v), "%s(x %s y) is another operation" % (s, o))
        law("peel_sign_from_op", (o,), lambda t: (lambda p: p and p[0] in sgn and p[1] in lin and lin[p[1]][0] == 1 and (sgn[p[0]] * lin[p[1]][0], sgn[p[0]] * lin[p[1]][1]) == (u, v))(pair(t)),
            "x %s y is a different sum" % o)
        law("peel_rhs_sign_from_op", (o,), lambda t: (lambda p: p and p[0] in sgn and p[1] in lin and (lin[p[1]][0], lin[p[1]][1] * sgn[p[0]]) == (u, v))(pair(t)), "x %s y is a different sum" % o)
    for a, b in itertools.product("+-#~*/%&|^<>@", repeat=2):
        law("is_comm_2", (a, b), lambda t: q.strip(t).k != "c" or not q.strip(t).a[0] or (a in lin and b in lin), "the operators are not both sums")
    for a in "+-#~*/%&|^<>@":
        t = table(prog, "is_comm_1", (a,))
        if not t or q.strip(t).k != "c" or not q.strip(t).a[0]:
            continue
        law("swap_op_hands", (a,), lambda t: exchanged(ops, lin, a, const_char(t)), "y %s x is something else than x %s y" % (const_char(t), a) if const_char(t) else "it is needed")
    neutral(prog, R, ops)


def exchanged(ops, lin, a, b):
    """x a y == y b x"""
    if a in lin:
        return b in lin and lin[b] == (lin[a][1], lin[a][0])
    return b == a and a in "*&|^"


def neutral(prog, R, ops):
    """predicates of (operator, constant) that drop the operand: x op v must be x"""
    for p, f in prog.fns.items():
        if not p.startswith(E.EVAL) or "{closure" not in p and not f.is_fn:
            continue
        s = E.sig(f)
        if not (s[-2:] == ["char", "i64"] and E.rty(f) == "bool"):
            continue
        for c in "+-#~*/%&|^<>@":
            for v in (-2, -1, 0, 1, 2, 255):
                I = Interp(prog, f, args={f.argc - 2: E.ch(c), f.argc - 1: C(v, "i64")}, inline=E.ALL)
                r = E.results(I)
                if len(r) != 1 or q.strip(r[0]).k != "c" or not q.strip(r[0]).a[0]:
                    continue
                R.count("neutral operands")
                R.ob("neutral:%s:%d" % (c, v), (c, v) in NEUTRAL, "x %s %d is taken for x" % (c, v), p)


NEUTRAL = {("+", 0), ("-", 0), ("|", 0), ("^", 0), ("<", 0), (">", 0), ("*", 1), ("/", 1), ("@", 1), ("&", -1)}
