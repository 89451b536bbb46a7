"""The expression evaluator, one operator, token or literal at a time: constants propagated through its functions, with
symbolic operands, and the results compared as polynomials."""
import re
from absint import Interp, C, S, mk, show, last, RefPlace, VARIANT_PASS
import q
from rules import concrete as K

TOK = "nd::eval::Token"
EVAL = "nd::eval::"
MASK = (1 << 64) - 1
ALL = lambda tg, c: True


def ch(c):
    return C(ord(c), "char")


def tok(kind, *v):
    return mk("agg", TOK, kind, tuple(str(i) for i in range(len(v))), *v)


def expand(I, t, out=None):
    """the possible values of a term, with the alternatives inside constructors multiplied out"""
    res = []
    for x in I.origins(t):
        if x.k == "agg" and x.a[1] in ("Some", "Ok") and len(x.a) == 4:
            res += [mk("agg", *x.a[:3], y) for y in expand(I, x.a[3])]
        else:
            res.append(x)
    return res


def results(I):
    return [y for x in K.result(I) for y in expand(I, x)]


def some(x):
    """payload of Some/Ok, None for anything else"""
    return x.a[3] if x.k == "agg" and x.a[1] in ("Some", "Ok") and len(x.a) == 4 else None


def failure(x):
    if x.k == "call" and last(x.a[0]) in VARIANT_PASS and len(x.a) > 2:
        return failure(x.a[2])
    return x.k == "errof" or (x.k == "agg" and x.a[1] in ("None", "Err"))


# ---- polynomials over opaque terms, coefficients modulo 2^64
def poly(t):
    """{sorted tuple of atom ids: coefficient}, constants under ()"""
    t = q.strip(t)
    if t.k == "c":
        return norm({(): t.a[0]})
    if t.k == "op":
        op = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Add", "Sub", "Mul"):
            return arith(op, poly(t.a[1]), poly(t.a[2]))
    if t.k == "un" and t.a[0] == "Neg":
        return scale(poly(t.a[1]), -1)
    if t.k == "un" and t.a[0] == "Not":
        return add(scale(poly(t.a[1]), -1), {(): -1})
    if t.k == "pay" and t.a[0].k == "call":
        l = last(t.a[0].a[0])
        if l in ("checked_add", "checked_sub", "checked_mul") and len(t.a[0].a) == 4:
            return arith(l[8:].capitalize(), poly(t.a[0].a[2]), poly(t.a[0].a[3]))
        if l == "checked_neg":
            return scale(poly(t.a[0].a[2]), -1)
    if t.k == "call":
        l = last(t.a[0])
        if l in ("wrapping_add", "wrapping_sub", "wrapping_mul") and len(t.a) == 4:
            return arith(l[9:].capitalize(), poly(t.a[2]), poly(t.a[3]))
        if l == "wrapping_neg":
            return scale(poly(t.a[2]), -1)
    return {(t.id,): 1}


def norm(p):
    return {k: v & MASK for k, v in p.items() if v & MASK}


def add(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return norm(r)


def scale(a, k):
    return norm({m: v * k for m, v in a.items()})


def arith(op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return add(a, scale(b, -1))
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            r[m] = r.get(m, 0) + v * w
    return norm(r)


def signed(v):
    return v - (1 << 64) if v >> 63 else v


# ---- functions by their role: the name, or else the only function of the evaluator with the types
def find(prog, name, types, ret=None):
    f = prog.fns.get(EVAL + name)
    if f is not None and sig(f) == types:
        return f
    c = [g for p, g in prog.fns.items() if p.startswith(EVAL) and g.is_fn and "{closure" not in p and sig(g) == types and (ret is None or re.search(ret, rty(g)))]
    return c[0] if len(c) == 1 else None


def sig(f):
    return [re.sub(r"'\w+ ", "", f.locals[i + 1]["ty"]) for i in range(f.argc)]


def rty(f):
    return f.locals[0]["ty"]


# ---- operators
class Ops:
    """what apply_op and apply_prefix compute, one operator at a time"""
    def __init__(self, prog):
        self.prog = prog
        self.f = find(prog, "apply_op", ["char", "i64", "i64"])
        self.g = find(prog, "apply_prefix", ["char", "i64"])
        self.cache = {}

    def op(self, c, x=None, y=None):
        """(possible results, panics) of x c y; None operands are symbolic"""
        key = (c, x, y)
        if key not in self.cache:
            args = {0: ch(c)}
            if x is not None:
                args[1] = C(x, "i64")
            if y is not None:
                args[2] = C(y, "i64")
            I = Interp(self.prog, self.f, args=args, inline=ALL)
            self.cache[key] = (results(I), panics(I), I)
        return self.cache[key]

    def prefix(self, c, x=None):
        key = ("p", c, x)
        if key not in self.cache:
            args = {0: ch(c)}
            if x is not None:
                args[1] = C(x, "i64")
            I = Interp(self.prog, self.g, args=args, inline=ALL)
            self.cache[key] = (results(I), panics(I), I)
        return self.cache[key]

    def value(self, rs):
        """the one value among results that are not failures"""
        v = {some(x) if some(x) is not None else x for x in rs if not failure(x)}
        return v.pop() if len(v) == 1 else None

    def linear(self, c):
        """(a, b) when x c y = a x + b y for every x and y"""
        rs, p, _ = self.op(c)
        v = self.value(rs)
        if v is None or p:
            return None
        x, y = [mk("arg", self.f.path, i) for i in (1, 2)]
        pl = poly(v)
        a, b = pl.pop((x.id,), 0), pl.pop((y.id,), 0)
        return (signed(a), signed(b)) if not pl else None


def panics(I):
    return [e for e in I.exts() if re.search(r"panicking::|panic_fmt|begin_panic|unwrap_failed|expect_failed|assert_failed", e.name or "")]


# ---- texts
ROOT = ("X", "text")


def on_text(prog, fn, first, rest, argi=(0, 1)):
    """run a token parser on a character and the text that follows it"""
    return Interp(prog, fn, args={argi[0]: ch(first), argi[1]: mk("ref", RefPlace.get(ROOT, ()))},
                  state={(ROOT, ()): mk("agg", "text", "chars", ("rest",), S(rest))}, inline=ALL)
