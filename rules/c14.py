"""Numbers. The parsers of a number and of its parts are propagated with a constant first character and constant following text,
for every prefix, suffix and digit: which base multiplies the digits, which factor scales the result, that a digit too large for
the base and a value too large for 64 bits are refused, and that a negative number is refused where a size is expected."""
import re
from absint import Interp, C, S, mk, show, last
import q
from rules import concrete as K
from rules import evalx as E

BASES = {"": (10, "7"), "0": (8, "7"), "0b": (2, "1"), "0B": (2, "1"), "0o": (8, "7"), "0O": (8, "7"), "0d": (10, "9"), "0D": (10, "9"), "0x": (16, "9"), "0X": (16, "9")}
SCALE = {"k": 1, "m": 2, "g": 3, "t": 4, "e": 6}
MULS = ("Mul", "Shl")
CMPS = ("Ge", "Gt", "Lt", "Le")


def run(prog, R):
    f = prog.fns.get(E.EVAL + "parse_val")
    if not R.ob("found", f is not None and E.sig(f)[:1] == ["char"], "the parser of a number is not found", "src/eval.rs"):
        return
    R.fn(f.path)
    digits(prog, R)
    for p, (base, d) in BASES.items():
        for s in [""] + [c for x in SCALE for c in (x, x.upper())] + [c + "i" for x in SCALE for c in (x, x.upper())]:
            if p == "0" and s:
                continue            # needs two digits: the text is not a constant any more
            if base == 16 and s[:1].lower() == "e":
                continue            # a digit
            literal(prog, R, f, p, base, d, s)
    literal(prog, R, f, "0x", 16, "e", "")
    literal(prog, R, f, "0x", 16, "B", "")
    literal(prog, R, f, "0x", 16, "f", "k")
    for t in ("0b", "0x", "0o", "0dk", "0xg", "0b_", "_"):
        I = E.on_text(prog, f.path, t[0], t[1:])
        rs = E.results(I)
        R.ob("refused:" + t, bool(rs) and all(E.failure(r) for r in rs), "%r, which has no digits, is taken for a number" % t, f.path)
    sizes(prog, R)


def value(rs):
    """the terms of the numbers among the results"""
    out = []
    for r in rs:
        v = E.some(r)
        if v is not None:
            v = q.strip(v)
            out.append(q.strip(v.a[3]) if v.k == "agg" and v.a[0] == E.TOK and v.a[1] == "Val" else v)
    return out


def literal(prog, R, f, p, base, d, s):
    t = p + d + s if p != "0" else "0"
    I = E.on_text(prog, f.path, t[0], t[1:])
    R.graph(I)
    R.count("literals")
    rs = E.results(I)
    vals = value(rs)
    where = f.path
    if not R.ob("number:" + t, bool(vals) and not E.panics(I), "%r is not accepted as a number" % t, where):
        return
    factor = (1024 if s.endswith("i") else 1000) ** SCALE[s[0].lower()] if s else 1
    if all(v.k == "c" for v in vals):
        R.ob("value:" + t, {v.a[0] for v in vals} == {int(d, 36) * factor if p != "0" else 0}, "%r is %s" % (t, vals), where)
        return
    open_factor = set()
    for v in vals:
        c = v.a[0] if v.k == "pay" else v
        if c.k == "call" and last(c.a[0]) == "checked_mul" and len(c.a) == 4:
            for x in c.a[2:]:
                if x.k not in ("c", "op") and not any(arithmetic(y) or y.k == "op" and y.a[0].startswith("Add") for y in I.origins(x) if y.k != "op" or not y.a[0].startswith("Mul")) and \
                        any(y.k == "op" and y.a[0].startswith("Mul") for y in I.origins(x)):
                    open_factor.add(x)      # a factor computed in a loop: not a constant for this analysis
    if open_factor:
        R.count("factors not decided")
        return
    terms = closure(I, vals)
    muls = {}
    for x in terms:
        for c, how in factors(x):
            muls.setdefault(c, set()).add(how)
    want = {base} | {factor}
    R.ob("base:" + t, base in muls, "the digits of %r are not multiplied by %d (%s)" % (t, base, sorted(muls)), where)
    R.ob("factor:" + t, set(muls) - {1} <= want and (factor == 1 or factor in muls), "%r is scaled by %s, not by %s" % (t, sorted(set(muls) - {1, base}) or 1, factor), where)
    raw = [x for x in terms if x.k == "op" and x.a[0].replace("WithOverflow", "").replace("Unchecked", "") in MULS or x.k == "call" and re.match(r"wrapping_|overflowing_|saturating_|unchecked_", last(x.a[0])) and re.search(r"mul|add|shl|pow", last(x.a[0]))]
    raw += [x for x in terms if x.k == "op" and x.a[0].startswith("Add") and any(arithmetic(y) for y in x.a[1:])]
    R.ob("overflow:" + t, not raw, "the value of %r is computed by %s, which is not checked for overflow" % (t, show(raw[0], 4) if raw else ""), where)
    if base < 16:
        R.ob("digit:" + t, guarded(I, base, terms), "a digit of %r that is not smaller than %d is not refused" % (t, base), where)


def arithmetic(y):
    y = q.strip(y)
    if y.k == "pay":
        y = y.a[0]
    return y.k in ("call", "op") and re.search(r"(?i)mul", last(y.a[0])) is not None


def closure(I, vals, limit=3000):
    """every term the values are made of, through joins"""
    seen, st = {}, list(vals)
    while st and len(seen) < limit:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        if t.k == "phi":
            st += [x for x in I.origins(t)]
            st += [x for x in I.phi_in.get(t, {}).values() if hasattr(x, "k")] if isinstance(I.phi_in.get(t), dict) else []
            continue
        st += [x for x in t.a if hasattr(x, "k")]
    return list(seen.values())


def factors(x):
    """constants a term multiplies by"""
    out = []
    if x.k == "op" and x.a[0].replace("WithOverflow", "").replace("Unchecked", "") in MULS:
        l = x.a[0]
        for y in x.a[1:]:
            y = q.strip(y)
            if y.k == "c":
                out.append((1 << y.a[0] if l.startswith("Shl") and y is q.strip(x.a[2]) else y.a[0], "op"))
    if x.k == "call" and re.search(r"(mul|from_str_radix|mul_add)$", last(x.a[0])):
        for y in x.a[2:]:
            y = q.strip(y)
            if y.k == "c":
                out.append((y.a[0], "call"))
    return out


def guarded(I, base, terms):
    """is there a test of a digit against the base whose failing side leads to a failure only?"""
    if any(x.k == "call" and last(x.a[0]) in ("to_digit", "from_str_radix") and any(q.strip(y).k == "c" and q.strip(y).a[0] == base for y in x.a[2:]) for x in terms):
        return True
    found = False
    for n, out in I.succs.items():
        for s, label in out:
            if not isinstance(label, tuple) or not hasattr(label[0], "k"):
                continue
            v, val = label
            neg = False
            while v.k == "un" and v.a[0] == "Not":
                v, neg = v.a[1], not neg
            if v.k != "op" or v.a[0] not in CMPS:
                continue
            a, b = q.strip(v.a[1]), q.strip(v.a[2])
            if b.k == "c" and a.k != "c":
                op, k = v.a[0], b.a[0]
            elif a.k == "c" and b.k != "c":
                op, k = {"Ge": "Le", "Le": "Ge", "Gt": "Lt", "Lt": "Gt"}[v.a[0]], a.a[0]
            else:
                continue
            # x >= base, in one of its spellings
            if (op, k) in (("Ge", base), ("Gt", base - 1)):
                big = 1
            elif (op, k) in (("Lt", base), ("Le", base - 1)):
                big = 0
            else:
                continue
            if neg:
                big = 1 - big
            if val not in (big, str(big)) and not (val == "else" and big == 1):
                continue
            found = True
            if not fails(I, s):
                return False
    return found


def fails(I, start):
    """every value returned from here on is a failure"""
    reach = I.reach([start]) | {start}
    out = [v for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None and n in reach]
    return bool(out) and all(E.failure(x) for v in out for x in E.expand(I, v))


def digits(prog, R):
    """the value of a digit"""
    f = prog.fns.get(E.EVAL + "parse_char")
    if f is None or E.sig(f) != ["char"]:
        R.count("digits not decided (no function parse_char)")
        return
    R.fn(f.path)
    for c in "0123456789abcdefABCDEF":
        I = Interp(prog, f, args={0: E.ch(c)}, inline=E.ALL)
        rs = E.results(I)
        ok = [E.some(r) for r in rs if not E.failure(r)]
        nums = [{y.a[0] for y in ([q.strip(z) for z in v.a[3:]] if v.k == "agg" else [v]) if y.k == "c" and y.a[1] not in ("bool",)} for v in map(q.strip, ok)]
        R.ob("digit-value:" + c, len(rs) == 1 and nums == [{int(c, 16)}], "the digit %r counts %s" % (c, ", ".join(show(r, 4) for r in rs)), f.path)
    for c in "gGzk .'":
        I = Interp(prog, f, args={0: E.ch(c)}, inline=E.ALL)
        rs = E.results(I)
        R.ob("not-a-digit:" + c, bool(rs) and all(E.failure(r) for r in rs), "%r is taken for a digit" % c, f.path)


def sizes(prog, R):
    """a size is never made from a negative number"""
    pi = E.EVAL + "parse_int"
    if pi not in prog.fns:
        R.count("sizes not decided (no function parse_int)")
        return

    def given(v):
        def assume(kind, t):
            if kind == "call" and t.k == "call" and t.a[0] == pi:
                return mk("agg", "std::result::Result", "Ok", ("0",), C(v, "i64"))
            return None
        return assume
    for p, f in sorted(prog.fns.items()):
        if not p.startswith(E.EVAL) or not f.is_fn or "{closure" in p or E.sig(f)[:1] != ["&str"] or f.argc != 1:
            continue
        if not re.search(r"Result<usize", E.rty(f)):
            continue
        R.fn(p)
        for v in (-(1 << 63), -2, -1):
            I = Interp(prog, f, assume=given(v), inline=lambda tg, c: tg.path != pi)
            rs = E.results(I)
            R.ob("size:%s:%d" % (p, v), bool(rs) and all(E.failure(r) for r in rs) and not E.panics(I), "%d is accepted as a size: %s" % (v, ", ".join(show(r, 4) for r in rs)), p)
        for v in (0, 1, 16, (1 << 63) - 1):
            I = Interp(prog, f, assume=given(v), inline=lambda tg, c: tg.path != pi)
            rs = E.results(I)
            ok = [q.strip(E.some(r)) for r in rs if E.some(r) is not None]
            R.ob("size:%s:%d" % (p, v), [x.a[0] for x in ok if x.k == "c"] == [v] and len(rs) == 1, "the size %d becomes %s" % (v, ", ".join(show(r, 4) for r in rs)), p)
