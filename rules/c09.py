"""Every byte nd inserts is the filler. The command line is analysed with --filler fixed to values on both sides of the byte
range and without it; from there on the byte is followed through the whole construction: every 8-bit parameter of a stream's
constructor gets the pipeline's filler at every call, every 8-bit field is only ever set from it, and every operation that
extends a buffer with a repeated byte takes that byte from there. (A stream with an alignment of 1 inserts nothing, and the
margin behind the end of a buffer is no part of the stream.)"""
import re
from absint import Interp, C, show, short, last
import cli
import q
from rules import fromargs as FA
from rules import concrete as K
from rules import c10 as C10

SCOPE = re.compile(r"^<?nd::(byte|streambuf|pipeline|drain)::")
FILL = [(r"Vec::<.*>::resize$", 2), (r"^std::vec::from_elem$", 0), (r"slice.*::fill$", 1), (r"iter::repeat(_n)?$", 0),
        (r"iter::repeat_with$", 0), (r"ptr::write_bytes$|::write_bytes$", 1)]
MARGIN = re.compile(r"^nd::streambuf::")


def run(prog, R):
    opts = cli.options(prog)
    if not R.ob("option", "filler" in opts and opts["filler"].field is not None, "there is no --filler", ""):
        return
    command_line(prog, R, opts)
    fields = {}
    for p, a in prog.adts.items():
        if p.startswith("nd::") and not p.endswith("::Node") and a["kind"] == "Struct":
            for v in a["vars"]:
                for n, ty in v["f"]:
                    if ty == "u8":
                        fields.setdefault(p, []).append(n)
    fields = {p: n for p, n in fields.items() if SCOPE.search(p)}
    R.ob("fields", "nd::pipeline::Pipeline" in fields and len(fields) > 1, "no stream keeps the filler", "")
    follow(prog, R, fields)
    alignment(prog, R, opts)


def alignment(prog, R, opts):
    """constant command lines: the stream of an input is aligned to N of --cat or --zip after parsing, never before"""
    sinks = {f.path: (u8_params(f), [i for i in range(f.argc) if f.locals[i + 1]["ty"] == "usize"]) for f in prog.real_fns()
             if SCOPE.search(f.path) and f.path.endswith("::new") and u8_params(f)}
    for sig in ("b", "x", "nnx"):
        ok, err, I = K.parse_format(prog, sig)
        for o in ("cat", "zip"):
            for fmt in ok:
                I, ps = K.from_args(prog, opts, {o: C(12, "usize"), "in-format": fmt, "filler": C(77, "usize")})
                R.ob("aligned-accepted:%s:%s" % (o, sig), bool(ps), "--%s with --in-format %s is refused" % (o, sig), FA.FROM)
                for p in ps:
                    J = K.spawn(prog, p)
                    R.count("constant command lines")
                    n = 0
                    for G, e in C10.sources(prog, J):
                        if e.name not in sinks:
                            continue
                        u8, us = sinks[e.name]
                        inner = any(y is e.term for H, f in C10.sources_of(prog, J) for v in f.vals for y in H.leaves(v) if f is not e and f.name in sinks)
                        al = {x.a[0] if x.k == "c" else None for i in us for x in G.origins(e.vals[i])}
                        fi = {x.a[0] if x.k == "c" else None for i in u8 for x in G.origins(e.vals[i])}
                        if not us or not from_source(G, e):
                            continue
                        n += 1
                        if inner:
                            R.ob("text-unaligned:%s:%s" % (o, sig), al == {1}, "the text of an input is padded to %s bytes before it is parsed" % sorted(map(str, al)), e.sp)
                        else:
                            R.ob("aligned:%s:%s" % (o, sig), al == {12}, "an input of --%s 12 is padded to a multiple of %s" % (o, sorted(map(str, al))), e.sp)
                            R.ob("aligned-filler:%s:%s" % (o, sig), fi == {77}, "an input of --filler 77 is padded with %s" % sorted(map(str, fi)), e.sp)
                    R.ob("source:%s:%s" % (o, sig), n > 0, "the inputs are not read", FA.SPAWN)


def from_source(G, e):
    """the stream reads an input, not a file named by an option"""
    def src(t):
        return t.k == "arg"
    return any(src(x) for v in e.vals for x in G.leaves(v))


def command_line(prog, R, opts):
    for v in (None, 0, 1, 128, 254, 255, 256, 257, 511, 512, 65536, 1 << 32, (1 << 64) - 1):
        def extra(g, what, x, v=v):
            if v is None:
                return None
            if what == "value":
                r = q.truth(x, lambda t: v if g.value(t) == "filler" else None)
                return None if r is None else C(int(r), "usize")
            if what == "variant" and x.k == "call" and last(x.a[0]) == "try_from" and g.value(x.a[2]) == "filler":
                return "Ok" if v < 256 else "Err"
            if what == "call" and last(x.a[0]) == "contains" and len(x.a) == 4 and g.value(x.a[3]) == "filler":
                r = q.range_of(q.strip(x.a[2]))
                if r and all(y is None or y.k == "c" for y in r):
                    return C(int((r[0] is None or r[0].a[0] <= v) and (r[1] is None or v < r[1].a[0])), "bool")
            return None
        I, h = FA.graph(prog, opts, [] if v is None else ["filler"], extra)
        ends = FA.oks(I)
        R.count("values of --filler")
        if v is not None and v > 255:
            R.ob("refused:%d" % v, not ends, "--filler %d is accepted" % v, FA.FROM)
            continue
        R.ob("accepted:%s" % v, bool(ends), "--filler %s is refused" % v, FA.FROM)
        for p in FA.pipelines(I):
            if "filler" not in p.a[2]:
                continue
            for x in I.origins(p.a[3 + p.a[2].index("filler")]):
                if v is None:
                    R.ob("default", x.k == "c" and x.a[0] == 0, "without --filler the filler is %s" % show(x, 3), FA.FROM)
                else:
                    y = x
                    while y.k == "cast" and y.a[1] in ("u8", "usize", "u16", "u32", "u64"):
                        y = q.strip(y.a[2])
                    if y.k == "pay" and y.a[0].k == "call" and last(y.a[0].a[0]) in ("try_from", "try_into"):
                        y = y.a[0].a[2]
                    R.ob("value", h.value(y) == "filler", "the filler is %s, not the value of --filler" % show(x, 3), FA.FROM)


def u8_params(f):
    return [i for i in range(f.argc) if f.locals[i + 1]["ty"] == "u8"]


def follow(prog, R, fields):
    names = {n for ns in fields.values() for n in ns}
    sinks = {}
    for f in prog.real_fns():
        if f.kind != "Closure" and SCOPE.search(f.path):
            ps = u8_params(f)
            if ps and f.locals[0]["ty"] != "()" or ps and any("Vec<u8>" in l["ty"] for l in f.locals):
                sinks[f.path] = ps
    gaps = set()   # streams that insert the filler beyond the alignment
    getters = {f.path for f in prog.real_fns() if SCOPE.search(f.path) and f.locals[0]["ty"] == "u8"}
    for f in prog.real_fns():
        for i, t in f.calls():
            from mir import callee
            d, r, v = callee(t)
            if r in getters and not MARGIN.search(f.path):
                m = re.match(r"^<?([\w:]+?)(<.*>)?( as .*>)?::\w+(::\{.*)?$", f.path)
                gaps.add(m.group(1) if m else f.path)

    def inl(tg, c):
        return tg.path not in sinks and not re.match(r"^<?nd::(text|eval|template|segment|mapper)::", tg.path)
    n = 0
    for f in prog.real_fns():
        if f.kind == "Closure" or not SCOPE.search(f.path):
            continue
        if not touches(prog, f, sinks, fields):
            continue
        I = Interp(prog, f, inline=inl, max_steps=30000)
        R.graph(I)
        n += 1

        def filler(v):
            os_ = I.origins(v)
            return bool(os_) and all(carrier(q.strip(x)) for x in os_)

        def carrier(x):
            if x.k == "arg":
                return x.a[1] in u8_params(f)
            if x.k == "fld" and x.a[1] in names:
                return True
            return x.k == "call" and x.a[0] in getters

        for e in I.exts():
            if e.name in sinks:
                ps = sinks[e.name]
                owner = e.name.rsplit("::", 1)[0]
                tg = prog.fns[e.name]
                one = [j for j in range(tg.argc) if tg.locals[j + 1]["ty"] == "usize" and all(x.k == "c" and x.a[0] == 1 for x in I.origins(e.vals[j]))]
                for i in ps:
                    exempt = bool(one) and owner not in gaps and all(x.k == "c" for x in I.origins(e.vals[i]))
                    R.ob("passed-on:%s" % short(e.name), exempt or filler(e.vals[i]),
                         "%s is given %s as the filler" % (short(e.name), show(e.vals[i], 3)), e.sp)
            for pat, i in FILL:
                if re.search(pat, e.name or "") and len(e.vals) > i:
                    v = e.vals[i]
                    ty = byte_fill(e, i)
                    if not ty:
                        continue
                    own = bool(MARGIN.search(I.ctx_of_id[e.node[0]].fn.path)) and all(x.k == "c" for x in I.origins(v)) and margin(I, e)
                    R.ob("inserted:%s" % short(f.path), own or filler(v), "%s is inserted into the stream instead of the filler" % show(v, 3), e.sp)
        for x in aggs(I):
            for fld in fields.get(x.a[0], ()):
                if fld in x.a[2]:
                    v = x.a[3 + x.a[2].index(fld)]
                    if x.a[0] != "nd::pipeline::Pipeline":
                        R.ob("field:%s" % short(x.a[0]), filler(v), "%s keeps %s as the filler" % (short(x.a[0]), show(v, 3)), f.sp)
        for ss in I.stores.values():
            for root, path, v, sp in ss:
                if path and path[-1][0] == "f" and path[-1][1] in names:
                    R.ob("field-store", filler(v), "the filler is overwritten with %s" % show(v, 3), sp)
    R.count("functions that handle the filler", n)


def touches(prog, f, sinks, fields):
    from mir import callee
    if u8_params(f):
        return True
    todo = [f] + [prog.fns[p] for p in prog.fns if p.startswith(f.path + "::{closure")]
    for g in todo:
        for i, t in g.calls():
            d, r, v = callee(t)
            if r in sinks or any(re.search(p, d or "") for p, k in FILL):
                return True
    return False


def byte_fill(e, i):
    ty = " ".join(e.tys) if getattr(e, "tys", None) else ""
    return "u8" in ty or not ty


def margin(I, e):
    """the operation only adds the margin behind the end: a constant number of bytes more than some length"""
    for v in e.vals:
        for x in I.origins(v):
            if x.k == "c" and x.a[0] >= 256 or x.k == "op" and x.a[0] == "Add" and any(y.k == "c" and y.a[0] >= 256 for y in x.a[1:]):
                return True
    return False


def aggs(I):
    seen = set()
    out = []
    for v in [v for e in I.exts() for v in e.vals] + list(I.returns.values()):
        for x in I.leaves(v):
            if x not in seen:
                seen.add(x)
                if x.k == "agg":
                    out.append(x)
    return out
