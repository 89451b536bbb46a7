"""Standard input has one reader at most: main is analysed once per combination of what the inputs, --patch and --guide name
(nothing, a file, "-", "/dev/stdin"; the string comparisons and the number of matching inputs are fixed accordingly). When
standard input is named more than once - the default input counts - nothing may be opened, created or started and main cannot
finish successfully; named once, the run goes on, except in place, where no file is created or renamed and main cannot
finish successfully. Only the strings "-" and /dev/stdin's own file lead to standard input."""
import re
from absint import Interp, C, S, mk, show, short, last
import cli
import q
from rules import common

SPECIAL = {"-", "/dev/stdin"}
EFFECT = re.compile(r"^std::fs::File::(open|create|create_new|options)$|^std::fs::(rename|read|write|read_to_string)$|OpenOptions::open$|^std::process::Command::(spawn|output|status)$")
FIELDS = {}        # struct field -> option, read from the command line definition


def field_of(I_leaves, t):
    """which option a string comes from"""
    for x in I_leaves(t):
        if x.k == "fld" and x.a[1] in FIELDS and x.a[0].k != "agg":
            return FIELDS[x.a[1]]
    return None


def walk(t, seen=None):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.k == "ref":
            continue
        st.extend(y for y in x.a if hasattr(y, "k"))


class Scenario:
    """inputs: what every input is named (or None: no inputs given); n: how many of them; patch, guide: name or None"""
    def __init__(self, prog, inputs, n, patch, guide, inplace):
        self.inplace = inplace
        self.prog = prog
        self.v = {"inputs": inputs, "patch": patch, "guide": guide}
        self.n = n
        self.item = None
        self.I = None

    def name_of(self, t):
        t = q.strip(t)
        # values iterated over: phis hide the field; the iterator's element type decides
        f = field_of(lambda x: list(self.leaves(x)), t)
        return f

    def leaves(self, t):
        I = self.I
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not hasattr(x, "k") or x.id in seen:
                continue
            seen.add(x.id)
            yield x
            if x.k == "phi" and I is not None:
                st.extend(I.phi_in.get(x, ()))
            elif x.k == "ref" and I is None:
                continue
            else:
                st.extend(y for y in x.a if hasattr(y, "k"))

    def bind(self, I):
        self.I = I

    def __call__(self, what, x):
        if what == "call":
            l = last(x.a[0])
            if l in ("eq", "ne") and len(x.a) == 4:
                a, b = q.strip(x.a[2]), q.strip(x.a[3])
                if a.k == "s":
                    a, b = b, a
                if b.k == "s":
                    f = self.name_of(a)
                    if f is not None and self.v[f] is not None:
                        same = self.v[f] == b.a[0]
                        return C(int(same == (l == "eq")), "bool")
            if l == "contains" and len(x.a) == 4:
                a, b = q.strip(x.a[2]), q.strip(x.a[3])
                f = self.name_of(b)
                strs = [q.strip(y) for y in (a.a[3:] if a.k == "agg" else ())]
                if f is not None and strs and all(y.k == "s" for y in strs) and self.v[f] is not None:
                    return C(int(self.v[f] in [y.a[0] for y in strs]), "bool")
            if l == "is_empty" and len(x.a) == 3 and x.a[2].k != "agg" and self.name_of(x.a[2]) == "inputs" and self.whole(x.a[2]):
                return C(int(self.n == 0), "bool")
            if l in ("count", "sum", "fold", "any", "all"):
                r = self.counted(x)
                if r is not None:
                    return r
        if what == "variant":
            y = q.strip(x)
            if y.k == "fld" and FIELDS.get(y.a[1]) in ("patch", "guide") and y.a[0].k != "agg":
                return "None" if self.v[FIELDS[y.a[1]]] is None else "Some"
            if any(z.k == "fld" and z.a[1] == "nodes" for z in walk(y)):
                # the first stage of the pipeline tells whether the run is in place
                if y.k == "call" and last(y.a[0]) in ("first", "get"):
                    return "Some"
                if y.k in ("pay", "idx"):
                    return "Inplace" if self.inplace else "Cat"
        if what == "value":
            y = q.strip(x)
            if y.k == "fld" and "inplace" in y.a[1] or y.k == "call" and "inplace" in last(y.a[0]):
                return C(int(self.inplace), "bool")
        return None

    def whole(self, t):
        t = q.strip(t)
        while t.k in ("eff",):
            t = q.strip(t.a[3])
        return t.k == "fld" and FIELDS.get(t.a[1]) == "inputs"

    def counted(self, x):
        """number of names a closure accepts, over the inputs or over an array of options"""
        l = last(x.a[0])
        names = None
        for y in walk(x):
            if y.k == "agg" and y.a[0] == "array" and len(y.a) > 3:
                fs = [self.option_of(z) for z in y.a[3:]]
                if all(f in ("patch", "guide") for f in fs):
                    names = [self.v[f] for f in fs if self.v[f] is not None]
        if names is None:
            if self.name_of(x) != "inputs":
                return None
            names = [self.v["inputs"] or "FILE"] * self.n
        clos = [y for y in walk(x) if y.k == "agg" and y.a[0].startswith("closure:")]
        clos = [y for y in clos if not any(z is not y and y in list(walk(z)) for z in clos)]     # not those captured by another
        if len(clos) != 1:
            return None
        g = self.prog.fns.get(clos[0].a[0][8:])
        verdict = [self.predicate(g, clos[0], nm) if g is not None else None for nm in names]
        if None in verdict:
            return None
        k = sum(verdict)
        if l in ("count", "sum", "fold"):
            return C(k, "usize")
        return C(int(k > 0), "bool") if l == "any" else C(int(all(verdict)), "bool")

    def option_of(self, z):
        for _ in range(4):
            if z.k == "ref":
                fs = [e[1] for e in z.a[0].path if e[0] == "f" and e[1] in FIELDS]
                if fs:
                    return FIELDS[fs[-1]]
                return None
            if z.k == "fld" and z.a[1] in FIELDS:
                return FIELDS[z.a[1]]
            if z.k in ("addr", "deref") or (z.k == "fld" and z.a[1] == "*"):
                z = z.a[0]
            elif z.k == "call" and last(z.a[0]) in ("as_ref", "as_deref", "clone", "iter") and len(z.a) > 2:
                z = z.a[2]
            else:
                return None
        return None

    def predicate(self, g, clo, name):
        def assume(what, x):
            if what == "call" and last(x.a[0]) in ("eq", "ne") and len(x.a) == 4:
                for a, b in ((x.a[2], x.a[3]), (x.a[3], x.a[2])):
                    if q.strip(b).k == "s":
                        return C(int((q.strip(b).a[0] == name) == (last(x.a[0]) == "eq")), "bool")
            if what == "call" and last(x.a[0]) == "contains" and len(x.a) == 4:
                a = q.strip(x.a[2])
                return C(int(any(q.strip(y).k == "s" and q.strip(y).a[0] == name for y in a.a[3:])), "bool")
            return None
        ref = g.locals[1]["ty"].startswith("&")
        J = Interp(self.prog, g, args={0: mk("addr", clo) if ref else clo}, assume=assume)
        vals = {q.strip(z).a[0] if q.strip(z).k == "c" else None for v in J.returns.values() for z in J.origins(v)}
        return bool(vals.pop()) if len(vals) == 1 and None not in vals else None


def scenario(prog, sc):
    def top(tg, ctx):
        return not common.drains(prog, tg.locals[0]["ty"]) and not tg.path.startswith("<")
    return Interp(prog, common.MAIN, inline=top, assume=sc, max_steps=100000)


def feasible(I, sc):
    """cut the edges a counter over the inputs contradicts"""
    def counter(t):
        # a counter: starts at zero, and every other value it takes is itself plus one
        if t.k != "phi" or t not in I.phi_in:
            return None
        fam, st, rest = {t}, [t], []
        while st:
            for x in I.phi_in.get(st.pop(), ()):
                if x.k == "phi" and x in I.phi_in:
                    if x not in fam:
                        fam.add(x)
                        st.append(x)
                else:
                    rest.append(x)

        def inc(x):
            x = x.a[0] if x.k == "fld" and x.a[1] == "0" else x
            return x.k == "op" and x.a[0] == "Add" and x.a[1] in fam and x.a[2].k == "c" and x.a[2].a[0] in (0, 1)
        zero = [x for x in rest if x.k == "c" and x.a[0] == 0]
        if zero and len(zero) < len(rest) and all(inc(x) for x in rest if x not in zero):
            return sc.n if sc.v["inputs"] in SPECIAL else 0
        return None

    def cut(a, b, l):
        if l is None or l[1] == "else":
            return False
        v = q.truth(l[0], counter)
        return v is not None and v != l[1]
    return cut


def run(prog, R):
    F = "data.bin"
    FIELDS.clear()
    opts = cli.options(prog)
    for name in ("inputs", "patch", "guide"):
        R.ob("option:" + name, name in opts and opts[name].field is not None, "there is no such argument any more", "")
        if name in opts:
            FIELDS[opts[name].field] = name
    cases = []
    for inp, n in (((F, 1)), (("-", 1)), (("/dev/stdin", 1)), (("-", 2)), ((None, 0))):
        for patch in (None, F, "-", "/dev/stdin"):
            for guide in (None, F, "-", "/dev/stdin"):
                if patch in SPECIAL and guide in SPECIAL and patch != guide and n:
                    continue
                if (patch, guide).count(F) and n != 1:
                    continue
                cases.append((inp, n, patch, guide))
    for inp, n, patch, guide in cases:
        for inplace in (False, True):
            check(prog, R, inp, n, patch, guide, inplace)
    readers(prog, R)


def check(prog, R, inp, n, patch, guide, inplace):
    sc = Scenario(prog, inp, n, patch, guide, inplace)
    I = scenario(prog, sc)
    R.count("combinations")
    if (inp, n, patch, guide) == ("data.bin", 1, None, None):
        R.graph(I)
    cut = feasible(I, sc)
    live = q.from_start(I, cut=cut)
    inputs = n if inp in SPECIAL else 0
    named = inputs + (patch in SPECIAL) + (guide in SPECIAL) + (1 if n == 0 and not inplace else 0)
    ends = {x for x in I.returns if I.ctx_of_id[x[0]].parent is None}
    spawns = [e for e in I.exts() if re.search(r"Result<std::boxed::Box<dyn nd::byte::ByteStream", e.dty or "")]
    effects = [e for e in I.exts() if (EFFECT.search(e.name or "") or e in spawns) and e.node in live]
    desc = "inputs %s, --patch %s, --guide %s%s" % (" ".join([inp] * n) if n else "not given", patch, guide, ", --inplace" if inplace else "")
    if named > 1 or (inplace and inputs):
        why = "standard input is named more than once" if named > 1 else "an input of an in-place run is standard input"
        key = "%s:%s%d%d%d" % ("twice" if named > 1 else "inplace", "d" if n == 0 else "", inputs, patch in SPECIAL, guide in SPECIAL)
        R.ob(key + ":no-effect", not effects, "%s, but %s is still reached (%s)" % (why, short(effects[0].name) if effects else "", desc),
             effects[0].sp if effects else "")
        R.ob(key + ":fails", not (live & ends), "%s, but main can finish successfully (%s)" % (why, desc), common.MAIN)
        return
    R.ob("allowed:%s" % ("inplace" if inplace else "plain"), any(e.node in live for e in spawns) and bool(live & ends),
         "a run that names standard input at most once is refused (%s)" % desc, common.MAIN)


def readers(prog, R):
    """every place that takes standard input as data does so for the name `-` only"""
    n = 0
    for f in prog.real_fns():
        if not any(re.search(r"^std::io::stdin$", t.get("f", {}).get("fn") or "") for i, t in f.calls()):
            continue
        I = Interp(prog, f, inline=lambda tg, c: tg.path.startswith(f.path))
        for e in I.exts(r"^std::io::stdin$"):
            uses = [u for u in I.exts() if any(e.term in list(walk(v)) for v in u.vals)]
            if uses and all(last(u.name) == "is_terminal" for u in uses):
                continue
            n += 1
            R.fn(f.path)

            def dash(a, b, l):
                return l is not None and l[1] == 1 and l[0].k == "call" and last(l[0].a[0]) == "eq" and \
                    any(q.strip(x).k == "s" and q.strip(x).a[0] == "-" for x in l[0].a[2:]) or \
                    l is not None and l[1] == 0 and l[0].k == "call" and last(l[0].a[0]) == "ne" and \
                    any(q.strip(x).k == "s" and q.strip(x).a[0] == "-" for x in l[0].a[2:])
            R.ob("reader:" + f.path, e.node not in q.from_start(I, cut=dash), "standard input is taken for a name that is not \"-\"", e.sp)
    R.count("readers of standard input", n)
    R.ob("readers", n >= 2, "fewer readers of standard input than counted by hand", "")
