"""The type-checked program of /repo, as dumped by /verif/driver, plus basic control-flow queries."""
import json
import re


class Fn:
    __slots__ = ("d", "path", "kind", "blocks", "locals", "argc", "sp", "prog", "promoted", "_succ", "_pred", "file")

    def __init__(self, d, prog):
        self.d = d
        self.path = d["path"]
        self.kind = d["kind"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.sp = d.get("sp", "?")
        self.file = self.sp.rsplit(":", 1)[0]
        self.prog = prog
        self.promoted = d.get("promoted", [])
        self._succ = None
        self._pred = None

    @property
    def derived(self):
        """code generated by a derive macro (clap, Debug, Clone, ...)"""
        return "#[derive" in self.d.get("mac", "")

    @property
    def is_fn(self):
        return self.kind in ("Fn", "AssocFn", "Closure")

    @property
    def name(self):
        return self.d.get("name", self.path.rsplit("::", 1)[-1])

    def root(self):
        """the named function a closure belongs to"""
        return re.sub(r"(::\{closure#\d+\})+.*$", "", self.path)

    def succ(self, b):
        return term_succ(self.blocks[b]["t"])

    def calls(self):
        for i, b in enumerate(self.blocks):
            if b["t"]["k"] == "call":
                yield i, b["t"]


def term_succ(t, unwind=False):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["else"]]
    if k in ("drop", "assert"):
        return [t["t"]]
    if k == "call":
        return [t["t"]] if "t" in t else []
    return []


def callee(t):
    """(declared path, resolved path or None, virtual?) of a call terminator; (None, None, False) for indirect calls"""
    f = t["f"]
    if f.get("k") == "const" and "fn" in f:
        return f["fn"], f.get("res"), bool(f.get("virt"))
    return None, None, False


def mapped(fn, op):
    """(block of the call of map, iterator, closure) if the operand is nothing but what Iterator::map gave"""
    while op["k"] in ("copy", "move") and not op["pl"].get("p"):
        l = op["pl"]["l"]
        sts = [(s["r"]) for b in fn.blocks for s in b["s"] if "d" in s and s["d"]["l"] == l]
        ts = [i for i, b in enumerate(fn.blocks) if b["t"]["k"] == "call" and b["t"]["d"]["l"] == l]
        if len(sts) == 1 and not ts and sts[0]["k"] == "use":
            op = sts[0]["o"]
        elif len(ts) == 1 and not sts:
            t = fn.blocks[ts[0]]["t"]
            if callee(t)[0] == "std::iter::Iterator::map" and "t" in t and not t["d"].get("p"):
                return ts[0], t
            return None
        else:
            return None
    return None


def as_loops(fn):
    """for_each, try_for_each and fold over an iterator, and extending a vector by a mapped one, are written out as the loops they are"""
    for i in range(len(fn.blocks)):
        t = fn.blocks[i]["t"]
        if t["k"] != "call" or "t" not in t:
            continue
        decl = callee(t)[0]
        m = re.match(r"^std::iter::(Iterator::(for_each|try_for_each|fold)|Extend::extend)$", decl or "")
        if not m:
            continue
        how, args, sp = m.group(2) or "extend", t["a"], t.get("sp")
        targs = t["f"].get("targs", [])
        if how == "extend" and not (targs and targs[0].startswith("std::vec::Vec<")):
            continue
        iter_op = args[1] if how == "extend" else args[0]
        mp = mapped(fn, iter_op)
        if how == "extend" and mp is None:
            continue
        ity = targs[0] if targs else "?"
        ty_of = lambda o: fn.locals[o["pl"]["l"]]["ty"] if o["k"] in ("copy", "move") and not o["pl"].get("p") else o.get("ty", "?")
        clos = [args[-1]] if how != "extend" else []
        cty = ty_of(clos[0]) if clos else "?"
        dty = t.get("dty", "?")
        fam = "Result" if dty.startswith("std::result::Result<") else "Option" if dty.startswith("std::option::Option<") else None
        if how == "try_for_each" and fam is None:
            continue
        st = lambda d, r: {"d": d, "r": r, "sp": sp}
        mv = lambda l, *pr: {"k": "move", "pl": dict(l=l, **({"p": list(pr)} if pr else {}))}
        fncall = lambda name, tr, a, d, to, ty: {"k": "call", "f": {"k": "const", "ty": "fn", "fn": name, "res": name, "trait": tr, "targs": [], "virt": 0, "loc": 0},
                                                 "a": a, "d": d, "dty": ty, "t": to, "sp": sp}
        go = lambda to: {"k": "goto", "t": to, "sp": sp}
        new = lambda ty: (fn.locals.append({"ty": ty}), len(fn.locals) - 1)[1]
        maps = []                   # closures of map, innermost first
        while mp is not None:
            mb, mt = mp
            inner, mclo = mt["a"]
            ity = (mt["f"].get("targs") or ["?"])[0]
            saved, mf = new(ity), new(ty_of(mclo))
            fn.blocks[mb] = {"s": fn.blocks[mb]["s"] + [st({"l": saved}, {"k": "use", "o": inner}), st({"l": mf}, {"k": "use", "o": mclo})], "t": {"k": "goto", "t": mt["t"], "sp": mt.get("sp")}}
            maps.insert(0, (mf, ty_of(mclo)))
            mp = mapped(fn, inner)
            iter_op = mv(saved)
        it, itr, opt, dis, f, fr, x, tup, res, acc, dis2 = (new(y) for y in (
            ity, "&mut " + ity, "std::option::Option<?>", "isize", cty, "&mut " + cty, "?", "(?)", dty if how == "try_for_each" else "()", dty, "isize"))
        b = len(fn.blocks)
        n = b + 4 + len(maps)       # the blocks: head, test, the maps, body, back, done, bad, (test, bad result)
        head, test, body, back, done, bad, test2 = b, b + 1, b + 2 + len(maps), n - 1, n, n + 1, n + 2
        fn_i = fn.blocks[i]
        first = [st({"l": it}, {"k": "use", "o": iter_op})]
        if clos:
            first.append(st({"l": f}, {"k": "use", "o": clos[0]}))
        if how == "fold":
            first.append(st({"l": acc}, {"k": "use", "o": args[1]}))
        if how == "extend":
            first.append(st({"l": f}, {"k": "use", "o": args[0]}))
        fn.blocks[i] = {"s": fn_i["s"] + first, "t": go(head)}
        unit = {"k": "const", "ty": "()", "zst": 1}
        if how == "fold":
            last_ = [st(t["d"], {"k": "use", "o": mv(acc)})]
        elif how in ("for_each", "extend"):
            last_ = [st(t["d"], {"k": "use", "o": unit})]
        else:
            v = "Ok" if fam == "Result" else "Some"
            last_ = [st(t["d"], {"k": "agg", "ak": "adt", "adt": "std::%s::%s" % (fam.lower(), fam), "var": v, "enum": 1, "fields": ["0"], "ops": [unit]})]
        item = mv(opt, {"v": "Some"}, {"f": 0, "n": "0", "o": "std::option::Option"})
        out = [
            {"s": [st({"l": itr}, {"k": "ref", "mut": 1, "pl": {"l": it}})],
             "t": fncall("std::iter::Iterator::next", "std::iter::Iterator", [mv(itr)], {"l": opt}, test, "std::option::Option<?>")},
            {"s": [st({"l": dis}, {"k": "discr", "pl": {"l": opt}, "adt": "std::option::Option", "vars": {"0": "None", "1": "Some"}})],
             "t": {"k": "switch", "o": mv(dis), "ty": "isize", "ts": [["0", done], ["1", b + 2]], "else": bad, "sp": sp}},
        ]
        for j, (mf, mty) in enumerate(maps):
            y, mfr, mtup = new("?"), new("&mut " + mty), new("(?)")
            out.append({"s": [st({"l": mfr}, {"k": "ref", "mut": 1, "pl": {"l": mf}}), st({"l": mtup}, {"k": "agg", "ak": "tuple", "ops": [item]})],
                        "t": fncall("std::ops::FnMut::call_mut", "std::ops::FnMut", [mv(mfr), mv(mtup)], {"l": y}, b + 3 + j, "?")})
            item = mv(y)
        if how == "extend":
            out.append({"s": [st({"l": x}, {"k": "use", "o": item})],
                        "t": fncall("std::vec::Vec::<T, A>::push", None, [dict(mv(f), k="copy"), mv(x)], {"l": res}, back, "()")})
            del out[-1]["t"]["f"]["trait"]
        else:
            ops = ([mv(acc)] if how == "fold" else []) + [mv(x)]
            out.append({"s": [st({"l": x}, {"k": "use", "o": item}), st({"l": fr}, {"k": "ref", "mut": 1, "pl": {"l": f}}), st({"l": tup}, {"k": "agg", "ak": "tuple", "ops": ops})],
                        "t": fncall("std::ops::FnMut::call_mut", "std::ops::FnMut", [mv(fr), mv(tup)], {"l": acc if how == "fold" else res}, back, fn.locals[acc if how == "fold" else res]["ty"])})
        if how == "try_for_each":
            vs = {"0": "Ok", "1": "Err"} if fam == "Result" else {"0": "None", "1": "Some"}
            good = "0" if fam == "Result" else "1"
            out.append({"s": [st({"l": dis2}, {"k": "discr", "pl": {"l": res}, "adt": "std::%s::%s" % (fam.lower(), fam), "vars": vs})],
                        "t": {"k": "switch", "o": mv(dis2), "ty": "isize", "ts": [[k, head if k == good else test2] for k in ("0", "1")], "else": bad, "sp": sp}})
        else:
            out.append({"s": [], "t": go(head)})
        out.append({"s": last_, "t": go(t["t"])})
        out.append({"s": [], "t": {"k": "unreachable", "sp": sp}})
        if how == "try_for_each":
            out.append({"s": [st(t["d"], {"k": "use", "o": mv(res)})], "t": go(t["t"])})
        fn.blocks.extend(out)
        fn._succ = fn._pred = None


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.fns = {}
        self.dups = []
        for x in d["fns"]:
            fn = Fn(x, self)
            if fn.path in self.fns:
                # two const items of the same name etc.: keep both under distinct keys
                i = 2
                while "%s#%d" % (fn.path, i) in self.fns:
                    i += 1
                fn.path = "%s#%d" % (fn.path, i)
                self.dups.append(fn.path)
            self.fns[fn.path] = fn
        for fn in self.fns.values():
            as_loops(fn)
        self.adts = {x["path"]: x for x in d["adts"]}
        self.impls = d["impls"]

    def real_fns(self):
        """functions and closures written in the repository (derive output left out)"""
        return [f for f in self.fns.values() if f.is_fn and not f.derived]

    def impls_of(self, trait):
        return [i for i in self.impls if i["trait"] == trait]

    def call_targets(self, t):
        """local functions a call terminator may run (class-hierarchy analysis for trait methods)"""
        decl, res, virt = callee(t)
        out = []
        if decl is None:
            return out
        if res in self.fns and self.fns[res].is_fn:
            out.append(res)
        tr = t["f"].get("trait")
        if tr and (virt or res is None or res == decl):
            for i in self.impls:
                if i["trait"] == tr and decl in i["items"]:
                    p = i["items"][decl]
                    if p in self.fns and p not in out:
                        out.append(p)
        # function items and closures passed as values
        return out

    def refs(self, fn):
        """local functions whose code `fn` may run directly: callees, closures it creates, functions it takes the value of"""
        out = set()

        def op(o):
            if not isinstance(o, dict):
                return
            if o.get("k") == "const" and "fn" in o:
                r = o.get("res") or o["fn"]
                if r in self.fns:
                    out.add(r)
            if "uneval" in o and o["uneval"] in self.fns and "promoted" not in o:
                out.add(o["uneval"])

        def rv(r):
            for k in ("o", "a", "b"):
                if k in r:
                    op(r[k])
            for o in r.get("ops", []):
                op(o)
            if r.get("ak") == "closure":
                out.add(r["def"])

        bodies = [fn.blocks] + [p["blocks"] for p in fn.promoted]
        for bl in bodies:
            for b in bl:
                for s in b["s"]:
                    if "r" in s:
                        rv(s["r"])
                t = b["t"]
                if t["k"] == "call":
                    op(t["f"])
                    for a in t["a"]:
                        op(a)
                    out.update(self.call_targets(t))
                if t["k"] == "drop":
                    pass
        return out

    def reachable(self, roots):
        seen = set()
        st = list(roots)
        while st:
            p = st.pop()
            if p in seen or p not in self.fns:
                continue
            seen.add(p)
            st.extend(self.refs(self.fns[p]))
        return seen


def dominators(nodes, entry, succ):
    """immediate-dominator-free dominator sets over a hashable graph (small graphs)"""
    order = []
    seen = set()
    st = [(entry, iter(succ(entry)))]
    seen.add(entry)
    while st:
        n, it = st[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                st.append((m, iter(succ(m))))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    idx = {n: i for i, n in enumerate(order)}
    preds = {n: [] for n in order}
    for n in order:
        for m in succ(n):
            if m in idx:
                preds[m].append(n)
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for p in preds[n]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = idom[a]
                            while idx[b] > idx[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                changed = True
    return idom, order, preds


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        n = idom.get(b)
        if n is None or n == b:
            return False
        b = n


def relevant(prog, pat, depth_cut=()):
    """functions from which a call matching `pat` (declared or resolved name) can be reached through repository code"""
    rx = re.compile(pat)
    direct = set()
    refs = {}
    for f in prog.fns.values():
        refs[f.path] = prog.refs(f)
        for i, t in f.calls():
            d, r, v = callee(t)
            if (d and rx.search(d)) or (r and rx.search(r)):
                direct.add(f.path)
    out = set(direct)
    changed = True
    while changed:
        changed = False
        for p, rs in refs.items():
            if p not in out and any(r in out for r in rs):
                out.add(p)
                changed = True
    return out
