"""Formats. Every format that can be written down is propagated as a constant: the signature through its parser, the result
through the construction of the pipeline (is it refused?) and from the pipeline through the construction of the streams (which
parser or formatter gets it?), and last through the constructors of the parser and the formatter (which routine do they pick,
and can they abort?). The formats of patches, of guides, and the defaults are decided the same way."""
import itertools
import re
from absint import Interp, C, S, mk, show, short, last
import cli
import q
from rules import fromargs as FA
from rules import concrete as K

FMT = "nd::text::InoutFormat"
COL = "nd::text::ColumnFormat"
LETTER = {"n": "None", "b": "Binary", "d": "Decimal", "x": "Hexadecimal"}
SHORT = {"b": "nnb", "nnb": "nnb", "d": "ddx", "ddx": "ddx", "x": "xxx", "xxx": "xxx", "nnx": "nnx"}
DOCUMENTED_IN = ("b", "x", "nnx")
DOCUMENTED_OUT = ("b", "x")
# formats tried in several contexts (the thorough tier tries all of them)
CONTEXTS = ("b", "x", "nnx", "d", "b,b,b", "x,x,b", "d,n,x", "n,d,x", "!1,x,x")
PARSER = "nd::text::parser::TextParser"
FORMATTER = "nd::text::formatter::TextFormatter"


def columns(x):
    """(offset, span, body) variants of a constant format, None when it is not constant"""
    x = q.strip(x)
    if x.k != "agg" or x.a[0] != FMT:
        return None
    out = []
    for n in ("offset", "span", "body"):
        if n not in x.a[2]:
            return None
        v = q.strip(x.a[3 + x.a[2].index(n)])
        out.append(v.a[1] if v.k == "agg" and v.a[0] == COL else None)
    return None if None in out else tuple(out)


def cols(x):
    x = q.strip(x)
    v = q.strip(x.a[3 + x.a[2].index("cols")]) if x.k == "agg" and "cols" in x.a[2] else None
    return v


def field(agg, n):
    return agg.a[3 + agg.a[2].index(n)] if agg.k == "agg" and n in agg.a[2] else None


def run(prog, R):
    opts = cli.options(prog)
    for o in ("in-format", "out-format", "inplace", "patch-back", "output", "width"):
        if not R.ob("option:" + o, o in opts and opts[o].field is not None, "the option --%s does not exist or is not read" % o, ""):
            return
    for o in ("in-format", "out-format"):
        R.ob("parsed:" + o, opts[o].parser == FMT + "::from_str", "--%s is parsed by %s" % (o, opts[o].parser), "src/pipeline.rs")
    formats = signatures(prog, R)
    if "x" not in formats or "b" not in formats:
        return
    table = every_format(prog, R, opts, formats)
    defaults(prog, R, opts, formats)
    if table:
        records(prog, R, opts, formats)


def signatures(prog, R):
    """the meaning of every signature"""
    formats = {}
    want = {s: tuple(LETTER[c] for c in t) for s, t in SHORT.items()}
    for t in itertools.product("nbdx", repeat=3):
        want[",".join(t)] = tuple(LETTER[c] for c in t)
    for s, w in want.items():
        ok, err, I = K.parse_format(prog, s)
        R.count("signatures")
        if s == "x":
            R.graph(I)
        got = {columns(x) for x in ok}
        if s in SHORT:
            R.ob("signature:" + s, got == {w} and not err, "the format %r means %s%s, documented: %s" % (s, got, " or is refused" if err else "", w), FMT)
        else:
            R.ob("signature:" + s, got <= {w}, "the format %r means %s" % (s, got), FMT)
        if got == {w} and not err:
            formats[s] = ok[0]
    for s in ("", "q", "B", "xb", "z,z,z", "x,x,q", "1", "x,x,x,x", "n,n,b,b", ",", "x,,x"):
        ok, err, I = K.parse_format(prog, s)
        R.count("signatures")
        R.ob("no-signature:%r" % s, not ok, "the format %r is accepted" % s, FMT)
    ok, err, I = K.parse_format(prog, "!1")
    if ok:
        formats["!1,x,x"] = ok[0]
    return formats


def panics(I):
    return [e for e in I.exts() if re.search(r"panicking::|panic_fmt|begin_panic|::unreachable|unwrap_failed|expect_failed|assert_failed", e.name or "")]


def construct(prog, R, name, fmt, argi):
    I = Interp(prog, name, args={argi: mk("addr", fmt)}, inline=lambda tg, c: not tg.path.startswith("nd::byte::"))
    return I, [x for x in K.result(I) if x.k == "agg"]


def routines(prog, vals):
    """function items among the fields of a constructed value: {field: resolved name or None}"""
    out = {}
    for x in vals:
        for n, v in zip(x.a[2], x.a[3:]):
            v = q.strip(v)
            while v.k == "cast":
                v = v.a[2]
            if v.k == "fn":
                out.setdefault(n, set()).add(v.a[1] or v.a[0])
    return out


def calls_ten(prog, name, seen=None):
    """does the routine (or one it calls) multiply or divide by ten?"""
    seen = set() if seen is None else seen
    todo = [name]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        f = prog.fns.get(p)
        if f is None:
            continue
        for bb in range(len(f.blocks)):
            for s in f.blocks[bb]["s"]:
                rv = s.get("r") if isinstance(s, dict) else None
                if rv is not None and ten(rv):
                    return True
        from mir import callee
        for i, t in f.calls():
            d, r, v = callee(t)
            if r:
                todo.append(r)
        todo += [g for g in prog.fns if g.startswith(p + "::{closure")]
    return False


def ten(rv):
    s = repr(rv)
    return bool(re.search(r"'(Mul|MulWithOverflow|Div|Rem|MulUnchecked)'", s) and re.search(r"'v': '?10\b|: 10[,}]|'10'", s))


def every_format(prog, R, opts, formats):
    ctor_in = [f.path for f in prog.real_fns() if re.match(r"^%s(::<.*>)?::new$" % PARSER, f.path)]
    ctor_out = [f.path for f in prog.real_fns() if re.match(r"^%s(::<.*>)?::new$" % FORMATTER, f.path)]
    if not R.ob("constructors", bool(ctor_in) and bool(ctor_out), "the parser or the formatter of records is not constructed anywhere", ""):
        return None
    pick_in, pick_out = {}, {}
    for sig, fmt in formats.items():
        c = columns(fmt)
        for o, doc in (("in-format", DOCUMENTED_IN), ("out-format", DOCUMENTED_OUT)):
            I, ps = K.from_args(prog, opts, {o: fmt})
            R.count("formats per option")
            for more in () if R.tier != "thorough" and sig not in CONTEXTS else ({"inplace": True}, {"patch-back": S("cat")}, {"zip": C(16, "usize")}, {"output": S("file")},
                         {"inplace": True, "output": S("-")}, {"inplace": True, "patch-back": S("cat")},
                         {"out-format" if o == "in-format" else "in-format": formats["x"]}):
                J, qs = K.from_args(prog, opts, dict(more, **{o: fmt}))
                R.ob("alike:%s:%s:%s" % (o, sig, "+".join(sorted(more))), bool(qs) == bool(ps),
                     "--%s %s is %s, but not with --%s" % (o, sig, "accepted" if ps else "refused", " --".join(sorted(more))), FA.FROM)
                ps = ps or qs
            refused = not ps
            if sig in doc:
                R.ob("supported:%s:%s" % (o, sig), bool(ps), "--%s %s is refused" % (o, sig), FA.FROM)
            binary = c == ("None", "None", "Binary")
            bad = [e for e in panics(I)]
            for e in bad:
                pass
            if refused:
                continue
            if o == "in-format":
                if not binary:
                    J, vals = construct(prog, R, ctor_in[0], fmt, index_of(prog, ctor_in[0]))
                    p = panics(J)
                    R.ob("parsable:" + ",".join(c), not p and bool(vals), "--in-format %s is accepted, but the parser aborts on it" % sig, p[0].sp if p else ctor_in[0])
                    pick_in[c] = routines(prog, vals)
            else:
                J, vals = construct(prog, R, ctor_out[0], fmt, index_of(prog, ctor_out[0]))
                p = panics(J)
                R.ob("formattable:" + ",".join(c), not p and bool(vals), "--out-format %s is accepted, but the formatter aborts on it" % sig, p[0].sp if p else ctor_out[0])
                pick_out[c] = routines(prog, vals)
    routines_agree(prog, R, pick_in, pick_out)
    return True


def index_of(prog, name):
    f = prog.fns[name]
    for i in range(f.argc):
        if FMT in f.locals[i + 1]["ty"]:
            return i
    return 0


def routines_agree(prog, R, pick_in, pick_out):
    base = pick_in.get(("Hexadecimal",) * 3)
    if not R.ob("routines", base is not None and len(base) >= 3, "the parser does not pick its routines by the format", PARSER):
        return
    # fields that differ between hexadecimal and decimal columns tell which routine parses which column
    for c, r in pick_in.items():
        for n, fs in r.items():
            R.ob("one-routine:%s:%s" % (",".join(c), n), len(fs) == 1, "more than one routine for %s" % n, PARSER)
    def dec(fs):
        return all(calls_ten(prog, x) for x in fs)
    h = ("Hexadecimal",)
    for i, col in enumerate(("offset", "span")):
        for kind in ("None", "Hexadecimal", "Decimal"):
            c = list(h * 3)
            c[i] = kind
            r = pick_in.get(tuple(c))
            if r is None:
                R.ob("column:%s:%s" % (col, kind), kind == "None", "a %s %s is refused in an input record" % (kind.lower(), col), FA.FROM)
                continue
            changed = sorted(n for n in r if r[n] != base.get(n))
            if kind == "Decimal":
                R.ob("column:%s:%s" % (col, kind), len(changed) == 1 and dec(r[changed[0]]), "a decimal %s is not parsed as a decimal number" % col, PARSER)
            else:
                R.ob("column:%s:%s" % (col, kind), not changed, "a %s %s is parsed by another routine than a hexadecimal one" % (kind.lower(), col), PARSER)
    for n, fs in base.items():
        R.ob("hexadecimal:" + n, not any(calls_ten(prog, x) for x in fs), "hexadecimal columns are parsed by a routine for decimal numbers", PARSER)
    # the offset and the length are separate columns
    one = [n for n in base if pick_in.get(("Decimal", "Hexadecimal", "Hexadecimal"), base).get(n) != base[n]]
    two = [n for n in base if pick_in.get(("Hexadecimal", "Decimal", "Hexadecimal"), base).get(n) != base[n]]
    R.ob("columns-apart", not set(one) & set(two), "the offset and the length use one routine", PARSER)
    out = {c: frozenset(x for fs in r.values() for x in fs) for c, r in pick_out.items()}
    b, x, d = (out.get(k) for k in (("None", "None", "Binary"), h * 3, ("Decimal", "Decimal", "Hexadecimal")))
    if R.ob("formatter", b is not None and x is not None and len(b) == 1 and len(x) == 1, "the formatter does not pick its routine by the format", FORMATTER):
        R.ob("formatter:b", b != x and not headed(prog, b), "raw bytes are formatted as records", FORMATTER)
        R.ob("formatter:x", headed(prog, x) and not any(calls_ten(prog, f) for f in x), "hexadecimal records are not formatted as such", FORMATTER)
        if d is not None:
            R.ob("formatter:d", headed(prog, d) and all(calls_ten(prog, f) for f in d), "decimal records are not formatted as such", FORMATTER)


def headed(prog, fs):
    """does the routine put anything but the bytes of the stream: a delimiter '|' is among its constants"""
    for name in fs:
        seen = set()
        todo = [name]
        ok = False
        from mir import callee
        while todo:
            p = todo.pop()
            if p in seen or p not in prog.fns:
                continue
            seen.add(p)
            f = prog.fns[p]
            if re.search(r"\b124\b", repr(f.blocks)):
                ok = True
            for i, t in f.calls():
                r = callee(t)[1]
                if r:
                    todo.append(r)
            todo += [g for g in prog.fns if g.startswith(p + "::{closure")]
        if not ok:
            return False
    return True


def defaults(prog, R, opts, formats):
    raw, rec = ("None", "None", "Binary"), ("Hexadecimal",) * 3
    hexs = ("x", "xxx", "x,x,x")
    for name, given, out in (("none", {}, rec), ("inplace", {"inplace": True}, raw), ("inplace+stdout", {"inplace": True, "output": S("-")}, raw),
                             ("inplace+patch-back", {"inplace": True, "patch-back": S("cat")}, rec), ("patch-back", {"patch-back": S("cat")}, rec),
                             ("output", {"output": S("-")}, rec), ("output-file", {"output": S("file")}, rec)):
        I, ps = K.from_args(prog, opts, given)
        if not R.ob("default:" + name, bool(ps), "the combination %s is refused" % name, FA.FROM):
            continue
        for p in ps:
            fi, fo, fp = (field(p, n) for n in ("in_format", "out_format", "patch_format"))
            R.ob("default-in:" + name, fi is not None and {columns(x) for x in I.origins(fi)} == {raw}, "the default input format is not the raw one", FA.FROM)
            R.ob("default-out:" + name, fo is not None and {columns(x) for x in I.origins(fo)} == {out},
                 "the default output format with %s is not %s" % (name, "b" if out == raw else "x"), FA.FROM)
    I, ps = K.from_args(prog, opts, {})
    for p in ps:
        w = {cols(x) for x in I.origins(field(p, "out_format"))}
        R.ob("columns", w == {C(16, "usize")} or all(x is not None and x.k == "c" and x.a[0] == 16 for x in w), "records are not padded to 16 columns by default", FA.FROM)


def sources_of(prog, I, memo={}):
    if memo.get("I") is not I:
        memo["I"] = I
        memo["r"] = _sources(prog, I)
    return memo["r"]


def sources(prog, I):
    return sources_of(prog, I)


def _sources(prog, I):
    """(graph, constructor event) of the streams, including those built in closures handed to iterators"""
    seen = set()
    todo = [I]
    out = []
    while todo:
        J = todo.pop()
        for e in J.exts():
            if e.name and e.name.startswith("nd::") and re.search(r"::new$", e.name):
                out.append((J, e))
            if (e.name or "").startswith("nd::"):
                continue
            for v in e.vals:
                for x in J.leaves(v):
                    if x.k == "agg" and x.a[0].startswith("closure:"):
                        p = x.a[0][len("closure:"):]
                        if p in seen or p not in prog.fns or p in J.inlined:
                            continue
                        seen.add(p)
                        f = prog.fns[p]
                        ref = f.locals[1]["ty"].startswith("&")
                        todo.append(Interp(prog, f, args={0: mk("addr", x) if ref else x}, inline=K.constructors_opaque(prog), max_steps=60000))
    return out


def records(prog, R, opts, formats):
    """which parser gets the input, and which format the others get"""
    raw, rec = ("None", "None", "Binary"), ("Hexadecimal",) * 3
    kinds = {}
    for s_in, s_out in (("b", "x"), ("x", "b"), ("nnx", "x"), ("d", "b"), ("x", "d"), ("nnx", "b")):
        if s_in not in formats or s_out not in formats:
            continue
        fi, fo = formats[s_in], formats[s_out]
        runs = [K.from_args(prog, opts, dict(more, **{"in-format": fi, "out-format": fo}))[1]
                for more in ({}, {"zip": C(16, "usize")}, {"inplace": True})]
        for p in [p for ps in runs for p in ps]:
            J = K.spawn(prog, p)
            R.count("pipelines of constant formats")
            parsers = set()
            for G, e in sources(prog, J):
                fm = [columns(x) for v in e.vals for x in G.origins(v) if columns(x)]
                typ = re.search(r"::(\w+)(::<.*>)?::new$", e.name).group(1)
                if typ in ("ScatterDrain", "PatchDrain"):
                    R.ob("out:%s:%s" % (typ, s_out), columns(fo) == (fm or [None])[0], "%s formats as %s with --out-format %s" % (typ, fm, s_out), e.sp)
                    if typ == "PatchDrain":
                        R.ob("patches:" + typ, fm[1:] == [rec], "the output of CMD is parsed as %s" % (fm[1:],), e.sp)
                elif typ == "PatchStream":
                    R.ob("patches:" + typ, fm == [rec], "patch records are parsed as %s with --in-format %s" % (fm, s_in), e.sp)
                elif fm:
                    parsers.add(typ)
                    R.ob("in:%s:%s" % (typ, s_in), fm == [columns(fi)], "the input is parsed as %s with --in-format %s" % (fm, s_in), e.sp)
            if kinds.setdefault(s_in, parsers) != parsers:
                R.ob("parsers-alike:" + s_in, False, "which parser gets the input depends on more than the format", FA.SPAWN)
    if "b" in kinds:
        R.ob("raw-unparsed", not kinds["b"], "raw input goes through %s" % sorted(kinds["b"]), FA.SPAWN)
    for s in ("x", "nnx", "d"):
        if s in kinds:
            R.ob("parsed-once:" + s, len(kinds[s]) == 1, "the input of --in-format %s goes through %s" % (s, sorted(kinds[s])), FA.SPAWN)
    if all(len(kinds.get(s, ())) == 1 for s in ("x", "nnx")):
        R.ob("gaps", kinds["x"] != kinds["nnx"], "x and nnx are put at their offsets alike", FA.SPAWN)
        gap = {s: inserts(prog, list(kinds[s])[0]) for s in ("x", "nnx")}
        R.ob("gaps:x", gap["x"], "records of --in-format x are not put at their offsets", "src/byte/text.rs")
        R.ob("gaps:nnx", not gap["nnx"], "records of --in-format nnx are put at their offsets", "src/byte/text.rs")
        if "d" in kinds:
            R.ob("gaps:d", kinds["d"] == kinds["x"], "decimal records are not put at their offsets", FA.SPAWN)
    # the guide
    for f in prog.real_fns():
        if re.search(r"GuidedSlicer(::<.*>)?::new$", f.path):
            I = Interp(prog, f, inline=lambda tg, c: not re.match(r"^%s" % PARSER, tg.path))
            es = [e for e in I.exts() if re.match(r"^%s(::<.*>)?::new$" % PARSER, e.name or "")]
            R.ob("guide", bool(es), "the guide is not parsed as records", f.sp)
            for e in es:
                fm = [columns(x) for v in e.vals for x in I.origins(v) if columns(x)]
                R.ob("guide-format", fm == [rec], "the guide is parsed as %s" % (fm,), e.sp)


def inserts(prog, typ):
    """does the stream extend its buffer with bytes that are not parsed"""
    for f in prog.real_fns():
        if re.match(r"^<.*::%s(<.*>)? as nd::byte::ByteStream>::fill_buf$" % typ, f.path):
            I = Interp(prog, f, inline=lambda tg, c: not re.match(r"^nd::text::", tg.path), max_steps=60000)
            for e in I.exts(r"Vec::<.*>::(resize|extend)$|iter::repeat"):
                if not re.match(r"^nd::streambuf::", I.ctx_of_id[e.node[0]].fn.path):
                    return True
    return False
