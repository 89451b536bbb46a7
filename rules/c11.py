"""--output. The variables of the file name are read off the construction of the drain, and the function that gives them their
values (a closure handed to the template) is run for each with the values it captures at its call; what is captured is compared
with the running totals of the drain. The states of the file are followed through the builder calls, once for a name that was
seen before and once for a new one, and the constructor is run for '', '-' and other names."""
import re
from absint import Interp, C, S, mk, show, last
import q
from rules import concrete as K
from rules import evalx as E
from rules import dump as D

OPEN = r"(OpenOptions::open|File::create|File::create_new|File::open|fs::write)$"


def run(prog, R):
    hits = []
    for p in prog.fns:
        if re.match(r"^<.* as nd::byte::ByteStream>::fill_buf$", p) and "::drain::" in p:
            I = Interp(prog, p, inline=D.INL, max_steps=30000)
            if list(I.calls(r"Template::render$")):
                hits.append((p, I))
    if not R.ob("found", len(hits) == 1, "the drain that writes files is not found", "src/drain/scatter.rs"):
        return
    p, I = hits[0]
    R.graph(I)
    new = re.match(r"^<(.*) as ", p).group(1) + "::new"
    if not R.ob("new", new in prog.fns, "the constructor of the drain is not found", p):
        return
    f = prog.fns[new]
    args = [i for i in range(f.argc) if f.locals[i + 1]["ty"] == "&str"]
    if not R.ob("name", len(args) == 1, "the drain is not given a file name", new):
        return
    ids = names(prog, R, new, args[0])
    values(prog, R, p, I, ids)
    opened(prog, R, p)
    data(prog, R, p, I)
    destinations(prog, R, p, new, args[0])
    rendering(prog, R)


def names(prog, R, new, arg):
    I = Interp(prog, new, inline=D.INL)
    R.graph(I)
    out = {}
    for e in I.calls(r"Template::from_str$"):
        R.ob("template", [x for x in I.origins(e.vals[0])] == [mk("arg", new, arg)], "the template is not what --output is given", e.sp)
        ts = [t for t in I.leaves(e.vals[1])]
        for t in ts:
            if t.k == "agg" and t.a[0] == "tuple" and len(t.a) == 5:
                k, v = [q.strip(x) for x in t.a[3:]]
                if k.k == "s" and v.k == "agg" and "id" in v.a[2]:
                    out[k.a[0]] = tuple(v.a[3 + v.a[2].index(n)] for n in ("id", "is_array"))
        for x in I.calls(r"Map(::)?<.*>::insert$|HashMap.*insert$"):
            k, v = [q.strip(y) for y in x.vals[1:3]] if len(x.vals) > 2 else (None, None)
            if k is not None and k.k == "s" and v.k == "agg" and "id" in v.a[2]:
                out[k.a[0]] = tuple(v.a[3 + v.a[2].index(n)] for n in ("id", "is_array"))
    R.ob("variables", set(out) == {"n", "l"}, "file names know the variables %s" % (", ".join(sorted(out)) or "none"), new)
    for n, (i, a) in out.items():
        R.ob("scalar:" + n, i.k == "c" and a.k == "c" and a.a[0] == 0, "%s is not a plain number" % n, new)
    return {n: i.a[0] for n, (i, a) in out.items() if i.k == "c"}


def values(prog, R, p, I, ids):
    d = D.Dump(I)
    sk = {}
    for e in d.fmt:
        s = D.formatted(d, e)
        if R.ob("slices", s is not None, "the slices that are written are not the window's slices behind those already written", e.sp):
            sk[e] = s
            R.ob("skip", D.skips(d, s[0]) is not None, "the number of slices already written is not kept: %s" % show(s[0], 4), e.sp)
    rs = [e for e in I.calls(r"Template::render$")]
    for e in rs:
        for c in I.origins(e.vals[1]):
            g = prog.fns.get(c.a[0][8:]) if c.k == "agg" and c.a[0].startswith("closure:") else None
            if not R.ob("values", g is not None, "the values of the variables are not found", e.sp):
                continue
            for n, i in ids.items():
                selfarg = mk("addr", c) if g.locals[1]["ty"].startswith("&") else c
                J = Interp(prog, g.path, args={0: selfarg, 1: C(i, "usize"), 2: C(0, "i64")}, inline=lambda tg, c: True)
                R.graph(J)
                for x in K.result(J):
                    while x.k == "cast":
                        x = x.a[2]
                    x = q.strip(x)
                    if n == "n":
                        R.ob("value:n", offset_of(d, x, sk), "n is %s, not the offset of the slice on the stream" % show(x, 5), e.sp)
                    elif n == "l":
                        R.ob("value:l", index_of(d, x, sk), "l is %s, not the index of the slice" % show(x, 5), e.sp)


def offset_of(d, x, sk):
    """consumed bytes + position of the slice"""
    s = D.plus(x)
    if s is None:
        return False
    for a, b in (s, s[::-1]):
        if D.advances(d, a, 0) and b.k == "fld" and b.a[1] == "pos":
            el = element(d.I, b.a[0])
            for e, (skip, one) in sk.items():
                if one != "all" and el is one:
                    return True
    return False


def element(I, t):
    """the `next` payload a slice was taken from"""
    for x in I.leaves(t):
        if x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) == "next":
            return x
    return None


def summands(x):
    s = D.plus(x)
    return [x] if s is None else summands(s[0]) + summands(s[1])


def index_of(d, x, sk):
    """dropped slices + skipped slices + number within the window"""
    ts = summands(x)
    for e, (skip, one) in sk.items():
        if one == "all":
            continue
        rest = list(ts)
        src = D.iterated(d.I, one)
        if src is None:
            continue
        lines = [t for t in rest if D.advances(d, t, 1)]
        if len(lines) == 1:
            rest.remove(lines[0])
            if rest == [one] and src[1].k == "agg":
                return True             # for i in skip..count
            if skip in rest:
                rest.remove(skip)
            elif not (skip.k == "c" and skip.a[0] == 0):
                continue
            if len(rest) == 1 and src[2] and rest[0] is mk("fld", one, "0"):
                return True
        # a counter that starts at dropped + skipped
        if len(ts) == 1 and ts[0].k == "phi":
            r = D.loop_inputs(d.I, ts[0])
            if r is None:
                continue
            entry, back = r
            step = all((lambda s: s is not None and ((s[0] is ts[0] and one_c(s[1])) or (s[1] is ts[0] and one_c(s[0]))))(D.plus(y)) for y in back) and bool(back)
            base = all((lambda s: any(D.advances(d, y, 1) for y in s) and len(s) == 2 and skip in s)(summands(y)) for y in entry) and bool(entry)
            if step and base:
                return True
    return False


def one_c(t):
    return t.k == "c" and t.a[0] == 1


def flags(I, e):
    """the state of the builder when a file is opened"""
    l = last(e.name)
    if l == "create":
        return {"write": 1, "create": 1, "truncate": 1}
    if l == "create_new":
        return {"write": 1, "create_new": 1}
    if l == "write":
        return {"write": 1, "create": 1, "truncate": 1}
    if "OpenOptions" not in e.name:
        return {}
    fl = {}
    t = e.vals[0]
    for _ in range(30):
        t = q.strip(t)
        if t.k == "phi":
            o = I.origins(t)
            if len(o) != 1:
                return None
            t = o[0]
        elif t.k == "eff":
            # builder kept in a variable: the effect of a call on it
            ev = [x for x in I.at_site(t.a[1])]
            for x in ev:
                for y in chain(I, x):
                    if len(y.vals) > 1 and q.strip(y.vals[1]).k == "c":
                        fl.setdefault(last(y.name), q.strip(y.vals[1]).a[0])
            t = t.a[3]
        elif t.k == "call" and "OpenOptions" in t.a[0] and len(t.a) > 3:
            v = q.strip(t.a[3])
            if v.k == "c":
                fl.setdefault(last(t.a[0]), v.a[0])
            t = t.a[2]
        elif t.k == "call" and last(t.a[0]) in ("new", "options"):
            return fl
        else:
            return None
    return None


def chain(I, e):
    """the builder calls made on the reference a builder call returns, the last one first"""
    out = [e]
    for _ in range(8):
        n = [x for x in I.calls(r"OpenOptions") if x.vals and q.strip(x.vals[0]) is out[0].term and x.name and last(x.name) != "open"]
        if not n:
            break
        out.insert(0, n[0])
    return out


def opened(prog, R, p):
    for member in (True, False):
        asked = []

        def assume(what, x, member=member):
            if x.k == "call" and re.search(r"(Hash|BTree)(Set|Map)", x.a[0]):
                l = last(x.a[0])
                if what == "variant" and l in ("get", "get_mut"):
                    asked.append(x)
                    return "Some" if member else "None"
                if what == "call" and l in ("contains", "contains_key"):
                    asked.append(x)
                    return C(int(member), "bool")
                if what == "call" and l == "insert" and re.search("Set", x.a[0]):
                    asked.append(x)
                    return C(int(not member), "bool")
            return None
        I = Interp(prog, p, inline=D.INL, assume=assume)
        rend = {mk("pay", e.term) for e in I.calls(r"Template::render$")}

        def rendered(t):
            for _ in range(6):
                o = I.origins(t)
                if all(x in rend for x in o) and o:
                    return True
                if len(o) == 1 and o[0].k == "call" and last(o[0].a[0]) in ("to_string", "clone", "to_owned", "as_str", "deref", "into", "from", "as_ref") and len(o[0].a) > 2:
                    t = o[0].a[2]
                    continue
                return False
            return False
        R.ob("asked", bool(asked), "it is not remembered which files were written before", p)
        for e in I.calls(r"(Hash|BTree)(Set|Map).*::(get|get_mut|contains|contains_key)$"):
            R.ob("remembered", len(e.vals) > 1 and rendered(e.vals[1]), "what is remembered is not the name of the file: %s" % show(e.vals[1], 4), e.sp)
        # a builder in the constructor's single file does not count: only what is opened here
        opens = list(I.calls(OPEN))
        for e in opens:
            fl = flags(I, e)
            i = 1 if "OpenOptions" in e.name else 0
            R.ob("file:%s" % member, rendered(e.vals[i]), "the file opened is %s, not the one the template names" % show(e.vals[i], 4), e.sp)
            if not R.ob("mode:%s" % member, fl is not None, "how the file is opened is not decided", e.sp):
                continue
            if member:
                R.ob("append", fl.get("append") == 1 and not fl.get("truncate") and not fl.get("create_new"),
                     "a file that was written before is opened with %s: what was written to it is lost" % fl, e.sp)
            else:
                R.ob("truncate", fl.get("truncate") == 1 and fl.get("create") == 1 and fl.get("write") == 1 and not fl.get("append"),
                     "the file of a first slice is opened with %s" % fl, e.sp)
        if not member:
            R.ob("first", bool(opens), "the file of a first slice is not opened", p)
            ins = [e for e in I.calls(r"(Hash|BTree)(Set|Map).*::(insert|entry|get_or_insert_with)$")]
            R.ob("remember", bool(ins), "the name of a file is not remembered", p)
            for e in ins:
                R.ob("remember-name", rendered(e.vals[1]), "what is remembered is not the name of the file: %s" % show(e.vals[1], 4), e.sp)
            ws = [e.node for e in I.calls(r"::write_all$|::write$") if e.kind == "call" and "OpenOptions" not in e.name]
            o = [e.node for e in opens]
            seen = q.reach(I, o, None, avoid=[e.node for e in ins])
            before = q.from_start(I, None, avoid=[e.node for e in ins])
            bad = any(n in before for n in o) and any(n in seen and n in q.reach(I, o) for n in ws) and any(e.node in seen for e in I.calls(r"Template::render$"))
            R.ob("remember-always", not bad, "a file can be written without its name being remembered", p)


def data(prog, R, p, I):
    """exactly the text of the slice is written, all of it"""
    d = D.Dump(I)
    ws = [e for e in I.calls(r"::(write_all|write|write_fmt|write_vectored)$") if e.kind == "call" and "OpenOptions" not in e.name]
    for e in ws:
        R.ob("whole", last(e.name) == "write_all", "%s may write only a part" % last(e.name), e.sp)
        ok = []
        for x in I.origins(e.vals[1]):
            x = q.strip(x)
            while x.k == "fld" and x.a[1] == "*":
                x = x.a[0]
            fm = x.k == "eff" and re.search("format_segments", x.a[0])
            cl = fm and any(y.k == "eff" and last(y.a[0]) == "clear" or y.k == "call" and last(y.a[0]) in ("new", "with_capacity") for y in [q.strip(z) for z in I.origins(x.a[3])]) and \
                all(y.k == "eff" and last(y.a[0]) == "clear" or y.k == "call" and last(y.a[0]) in ("new", "with_capacity") for y in [q.strip(z) for z in I.origins(x.a[3])])
            ok.append(bool(cl))
        R.ob("text", bool(ok) and all(ok), "what is written is %s, not the text of the slice alone" % show(e.vals[1], 5), e.sp)
    R.ob("written", bool(ws), "no slice is written", p)
    nexts = [e.node for e in d.fmt]
    cons = [e.node for e in d.cons]
    # every formatted slice is written before the next one is taken
    ok_w = [q.is_ok_of(e.term) for e in ws]
    seen = q.reach(I, nexts, None, avoid=[e.node for e in ws])
    R.ob("each", not any(n in seen for n in nexts + cons), "a slice can be formatted and not written", p)
    for e in d.fmt:
        R.ob("offset", D.advances(d, e.vals[1], 0) is not None, "the slice is formatted with the offset %s" % show(e.vals[1], 4), e.sp)
        R.ob("stream", d.window(e.vals[2], 0), "the slice is cut from %s" % show(e.vals[2], 4), e.sp)


def destinations(prog, R, p, new, arg):
    for name, std in (("", True), ("-", True), ("out", False), ("--", False), ("/dev/null", False), (" ", False)):
        for var in (0, 1):
            def assume(what, x, var=var):
                if what == "call" and last(x.a[0]) == "has_variable":
                    return C(var, "bool")
                return None
            N = Interp(prog, new, args={arg: S(name)}, inline=D.INL, assume=assume)
            opens = list(N.calls(OPEN))
            objs = [E.some(x) for x in E.results(N) if E.some(x) is not None]
            R.ob("constructed:" + name, bool(objs), "--output %r is refused" % name, new)
            if std:
                R.ob("stdout-open:" + name, not opens, "--output %r opens a file" % name, new)
            elif var:
                R.ob("early", not opens, "a file is opened before the name is known", opens[0].sp if opens else new)
            else:
                R.ob("fixed", len(opens) > 0, "--output %r opens no file" % name, new)
                for e in opens:
                    fl = flags(N, e) or {}
                    R.ob("fixed-truncate", fl.get("truncate") == 1 and fl.get("create") == 1 and fl.get("write") == 1 and not fl.get("append"), "the file is opened with %s" % fl, e.sp)
                    i = 1 if "OpenOptions" in e.name else 0
                    src = N.leaves(e.vals[i])
                    R.ob("fixed-name", any(x.k == "call" and last(x.a[0]) == "render" for x in src) or any(x.k == "s" and x.a[0] == name for x in src), "the file opened is %s" % show(e.vals[i], 4), e.sp)
            for o in objs:
                J = Interp(prog, p, args={0: mk("addr", o)}, inline=D.INL)
                ws = list(J.calls(r"::write_all$"))
                st = list(J.calls(r"StreamBuf::fill_buf$"))
                if std:
                    R.ob("stdout:" + name, not ws and bool(st), "with --output %r slices do not go to the standard output" % name, p)
                else:
                    R.ob("tofile:" + name, bool(ws) and not st, "with --output %r slices do not go to the file" % name, p)
                    bad = [x for x in E.results(J) if E.some(x) is not None and not empty(J, E.some(x))]
                    R.ob("nothing-else", not bad, "slices written to files also appear on the standard output", p)
                R.count("file names")


def empty(J, t):
    t = q.strip(t)
    return t.k == "agg" and len(t.a) == 5 and t.a[4].k == "c" and t.a[4].a[0] == 0


def rendering(prog, R):
    """a name is the template's texts and values, each in its own format, in their order"""
    f = "nd::template::Template::render"
    if not R.ob("render", f in prog.fns, "the template is not rendered", "src/template.rs"):
        return
    I = Interp(prog, f, inline=lambda tg, c: not tg.path.startswith("nd::eval::"))
    R.graph(I)
    ps = [e for e in I.calls(r"String::push_str$|::write_str$|AddAssign.*add_assign$")]
    kinds = []
    for e in ps:
        v = q.strip(e.vals[1])
        for x in I.origins(v):
            while x.k == "fld" and x.a[1] == "*":
                x = x.a[0]
            if x.k == "fld":
                kinds.append(("text", x.a[0], e))
            elif any(y.k == "call" and last(y.a[0]) == "evaluate" for y in I.leaves(x)):
                nm = [y for y in I.leaves(x) if y.k == "call" and last(y.a[0]) == "evaluate"][0]
                fm = [y for y in I.leaves(x) if y.k == "call" and last(y.a[0]) == "fmt"]
                R.ob("render-value", bool(fm) and any(z.k == "pay" and z.a[0] is nm for y in fm for z in I.leaves(y.a[3])), "a value is not written in its own format", e.sp)
                els = {show(el, 9) for y in [nm] + fm for el in [element_of(I, y.a[2])] if el is not None}
                R.ob("render-pair", len(els) == 1, "a value is written in the format of another one", e.sp)
                kinds.append(("value", None, e))
            else:
                kinds.append(("other", x, e))
    R.ob("render-kinds", {k[0] for k in kinds} == {"text", "value"}, "a file name is made of %s" % sorted({k[0] for k in kinds}), f)
    tx = [k[2].node for k in kinds if k[0] == "text"]
    vs = [k[2].node for k in kinds if k[0] == "value"]
    nx = [e.node for e in I.calls(r"Iterator.*::next$")]
    # within one element the text precedes the value
    if nx:
        seen = q.reach(I, nx, None, avoid=tx)
        R.ob("render-order", not any(n in seen for n in vs), "a value is written before the text in front of it", f)
    for e in I.calls():
        R.ob("render-iter", last(e.name or "") not in ("rev", "skip", "step_by", "take", "filter"), "the parts of a name are not taken in order", e.sp)


def element_of(I, t):
    for x in I.leaves(t):
        if x.k == "pay" and x.a[0].k == "call" and last(x.a[0].a[0]) == "next":
            return x
    return None
