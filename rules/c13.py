"""Precedence. The predicate that decides whether an operator on the stack is applied before the next one is propagated over
every pair of operators as constants and compared with C's table; the same for prefixes and opening brackets on the stack."""
from absint import Interp, mk, show
import q
from rules import concrete as K
from rules import evalx as E

LEVELS = [("*", "/", "%"), ("+", "-"), ("<", ">"), ("g", "G", "l", "L"), ("&",), ("^",), ("|",)]
NAME = {"<": "<<", ">": ">>", "g": ">", "G": ">=", "l": "<", "L": "<="}
PREFIX = "+-!"


def run(prog, R):
    f = E.find(prog, "latter_precedes", ["&" + E.TOK, "&" + E.TOK], "bool")
    if not R.ob("found", f is not None, "no predicate over two tokens decides the precedence", "src/eval.rs"):
        return
    R.fn(f.path)
    rank = {o: i for i, l in enumerate(LEVELS) for o in l}

    def ask(former, latter):
        I = Interp(prog, f, args={0: mk("addr", former), 1: mk("addr", latter)}, inline=E.ALL)
        R.graph(I)
        rs = {q.strip(r) for r in E.results(I)}
        return [r.a[0] if r.k == "c" else None for r in rs], E.panics(I)
    for a in rank:
        for b in rank:
            rs, p = ask(E.tok("Op", E.ch(a)), E.tok("Op", E.ch(b)))
            want = rank[b] < rank[a]
            n = (NAME.get(a, a), NAME.get(b, b))
            R.ob("pair:%s:%s" % n, rs == [int(want)],
                 "in `x %s y %s z`, %s is applied first%s" % (n + (n[1] if not want else n[0], "" if rs else " (the comparison panics)")) if len(rs) < 2 else "`x %s y %s z` is undecided" % n, f.path)
    for p in PREFIX:
        for b in rank:
            rs, _ = ask(E.tok("Prefix", E.ch(p)), E.tok("Op", E.ch(b)))
            R.ob("prefix:%s:%s" % (p, NAME.get(b, b)), rs == [0], "in `%sx %s y`, %s is applied before the prefix" % (p, NAME.get(b, b), NAME.get(b, b)), f.path)
    for p in "([":
        for b in rank:
            rs, _ = ask(E.tok("Paren", E.ch(p)), E.tok("Op", E.ch(b)))
            R.ob("bracket:%s:%s" % (p, NAME.get(b, b)), rs == [1], "an operator %s after an opening %r takes the bracket off the stack" % (NAME.get(b, b), p), f.path)
    users = [g.path for g in prog.fns.values() if g.is_fn and f.path != g.path and calls(g, f.path)]
    R.ob("used", bool(users), "the precedence predicate is not used", f.path)


def calls(g, name):
    for b in g.blocks:
        t = b["t"]
        if t["k"] == "call" and t.get("f", {}).get("fn") == name:
            return True
    return any(name in str(b["t"].get("f", "")) for b in g.blocks if b["t"]["k"] == "call")
