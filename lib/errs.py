"""Error discipline: what happens to every Result a call returns (intraprocedural use-flow over MIR, every function)."""
import re
from mir import callee, term_succ
from absint import short, last

SWALLOW = {"ok", "is_ok", "is_err", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "err",
           "is_ok_and", "is_err_and", "iter", "into_iter", "or", "or_else", "unwrap_unchecked"}
PANIC = {"unwrap", "expect", "unwrap_err", "expect_err", "into_ok"}
RES_METHOD = re.compile(r"^std::result::Result::<.*>::(\w+)$|^std::result::Result::(\w+)$")


def is_result(ty):
    return ty.startswith("std::result::Result<")


def split_generics(ty):
    """top-level generic arguments of `path<a, b>`"""
    i = ty.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            if ch == ">" and cur.endswith("-"):
                pass
            else:
                d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def err_ty(ty):
    g = split_generics(ty)
    return g[1] if len(g) > 1 else "?"


def ok_ty(ty):
    g = split_generics(ty)
    return g[0] if g else "?"


class Flow:
    """uses of one local holding a Result, through moves, copies and references"""

    def __init__(self, fn, local):
        self.fn = fn
        self.alias = {local}
        self.uses = []      # (kind, ...)
        self.go()

    def go(self):
        fn = self.fn
        changed = True
        # places that only forward the value
        while changed:
            changed = False
            for b in fn.blocks:
                if b.get("cleanup"):
                    continue
                for s in b["s"]:
                    if "r" not in s:
                        continue
                    r, d = s["r"], s["d"]
                    src = None
                    if r["k"] == "use" and r["o"].get("k") in ("copy", "move"):
                        src = r["o"]["pl"]
                    elif r["k"] in ("ref", "rawptr"):
                        src = r["pl"]
                    if src is not None and src["l"] in self.alias and not [e for e in src.get("p", ()) if e != "*"]:
                        if not d.get("p"):
                            if d["l"] not in self.alias:
                                self.alias.add(d["l"])
                                changed = True
        for i, b in enumerate(fn.blocks):
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if "r" not in s:
                    continue
                r, d = s["r"], s["d"]
                if r["k"] == "discr" and r["pl"]["l"] in self.alias and not [e for e in r["pl"].get("p", ()) if e != "*"]:
                    self.uses.append(("discr", i, d["l"], r.get("vars", {})))
                for o in ops_of(r):
                    if o.get("k") in ("copy", "move") and o["pl"]["l"] in self.alias:
                        p = [e for e in o["pl"].get("p", ()) if e != "*"]
                        vs = [e["v"] for e in p if isinstance(e, dict) and "v" in e]
                        if vs:
                            self.uses.append(("payload", i, vs[0], s))
                        elif r["k"] == "agg":
                            self.uses.append(("stored", i))
                        elif d.get("p") and not (d["l"] in self.alias):
                            self.uses.append(("stored", i))
                if r["k"] in ("ref", "rawptr") and r["pl"]["l"] in self.alias:
                    vs = [e["v"] for e in r["pl"].get("p", ()) if isinstance(e, dict) and "v" in e]
                    if vs:
                        self.uses.append(("payload", i, vs[0], s))
                if r["k"] == "agg" and r.get("ak") == "closure":
                    pass
            t = b["t"]
            if t["k"] == "call":
                for j, a in enumerate(t["a"]):
                    if a.get("k") in ("copy", "move") and a["pl"]["l"] in self.alias:
                        p = [e for e in a["pl"].get("p", ()) if e != "*"]
                        vs = [e["v"] for e in p if isinstance(e, dict) and "v" in e]
                        if vs:
                            self.uses.append(("payload", i, vs[0], t))
                        else:
                            self.uses.append(("arg", i, j, t))
        if 0 in self.alias:
            self.uses.append(("returned",))


def ops_of(r):
    for k in ("o", "a", "b"):
        if k in r:
            yield r[k]
    for o in r.get("ops", ()):
        yield o


def err_edge(fn, bb, dl, vars):
    """block entered when the discriminant local `dl`, read in block `bb`, says Err"""
    errd = [int(d) for d, n in vars.items() if n == "Err"]
    if not errd:
        return None
    seen = set()
    b = bb
    while b not in seen:
        seen.add(b)
        t = fn.blocks[b]["t"]
        if t["k"] == "switch" and t["o"].get("pl", {}).get("l") == dl:
            for v, x in t["ts"]:
                if int(v) == errd[0]:
                    return x
            return t["else"]
        s = term_succ(t)
        if len(s) != 1:
            return None
        b = s[0]
    return None
