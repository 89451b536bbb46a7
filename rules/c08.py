"""Every option adds exactly its own stage, with its own argument, in the documented order. Two halves meet at the stage
list: (1) the construction of the list is analysed with the presence of every option fixed (each option alone, and all that
can be combined at once) and gives the list the options lead to; (2) the interpretation of the list is analysed as a whole:
every list entry leads to one constructor, which gets the entry's argument and the stage built before, and whose result is
what the next stage (or the caller) gets."""
import re
from absint import Interp, show, short, last
import cli
import q
from rules import fromargs as FA

ORDER = ["cut", "pad", "patch", "<tee>", "<slicer>", "regex", "invert", "extend", "merge", "lines", "<drain>"]
INPUT = {"cat": "CatStream", "zip": "ZipStream", "inplace": None}
STAGE = {"cut": "CutStream", "pad": "ClipStream", "patch": "PatchStream", "width": "ConstSlicer", "find": "ExactMatchSlicer",
         "walk": "WalkSlicer", "slice": "RangeSlicer", "guide": "GuidedSlicer", "regex": "RegexSlicer", "invert": "BridgeStream",
         "extend": "ExtendStream", "merge": "MergeStream", "lines": "FilterStream", "output": "ScatterDrain",
         "patch-back": "PatchDrain"}
SLICERS = ("width", "find", "walk", "slice", "guide")
DRAINS = ("output", "patch-back")
FILES = ("patch", "guide")


def run(prog, R):
    opts = cli.options(prog)
    for o in list(INPUT) + list(STAGE):
        if not R.ob("option:" + o, o in opts and opts[o].field is not None, "the option --%s does not exist or is not read" % o, ""):
            return
    kinds = first_half(prog, R, opts)
    if kinds is not None:
        second_half(prog, R, kinds)


def build(prog, R, opts, given, name):
    I, h = FA.graph(prog, opts, {o: None for o in given})
    seq, why, sp = FA.sequence(I)
    R.count("option combinations")
    if not R.ob("stages:" + name, seq is not None, why, sp or FA.FROM):
        return None, I, h
    return seq, I, h


def argument(I, h, node):
    """the option a stage's argument comes from, unchanged: name; a list when it is not exactly one"""
    out = set()
    for v in node.a[3:]:
        for x in I.origins(v):
            o = h.value(x)
            if o is None:
                o = tuple(sorted({h.option(y.a[0]) for y in I.leaves(x) if y.k == "pay" and h.option(y.a[0]) is not None})) or show(x, 3)
                o = o[0] + "~" if isinstance(o, tuple) and len(o) == 1 else str(o)
            out.add(o)
    return out.pop() if len(out) == 1 else sorted(out)


def first_half(prog, R, opts):
    base, I, h = build(prog, R, opts, [], "none")
    if base is None:
        return None
    R.graph(I)
    bk = [x.a[1] for x, e in base]
    kinds = {}
    for o in list(INPUT) + list(STAGE):
        seq, I, h = build(prog, R, opts, [o], o)
        if seq is None:
            continue
        ks = [x.a[1] for x, e in seq]
        pos = {"cat": 0, "zip": 0, "inplace": 0}.get(o)
        if o in INPUT:
            ok = len(ks) == len(bk) and ks[1:] == bk[1:]
            item = seq[0] if seq else None
        elif o in SLICERS:
            ok = len(ks) == len(bk) and ks[0] == bk[0] and ks[2:] == bk[2:]
            item = seq[1] if ok else None
        elif o == "output":
            ok = len(ks) == len(bk) and ks[:-1] == bk[:-1]
            item = seq[-1] if ok else None
        elif o == "patch-back":
            ok = len(ks) == len(bk) + 1 and ks[0] == bk[0] and ks[2] == bk[1]
            item = seq[-1] if ok else None
            if ok:
                kinds["<tee>"] = ks[1]
        else:
            extra = [x for x in seq if x[0].a[1] not in bk]
            ok = len(extra) == 1 and [k for k in ks if k in bk] == bk
            item = extra[0] if ok else None
        R.ob("own-stage:" + o, ok, "--%s alone gives the stages %s, %s without it" % (o, ks, bk), FA.FROM)
        if not ok:
            continue
        kinds[o] = item[0].a[1]
        if o in STAGE:
            a = argument(I, h, item[0])
            R.ob("own-argument:" + o, a == o or o == "pad" and a == "pad~", "the stage of --%s is given %s" % (o, a), item[1].sp)
        if o in ("cat", "zip"):
            for p in FA.pipelines(I):
                if "word_size" in p.a[2]:
                    w = {h.value(x) for x in I.origins(p.a[3 + p.a[2].index("word_size")])}
                    R.ob("own-argument:" + o, w == {o}, "the argument of --%s does not become the word size" % o, FA.FROM)
        if o == "inplace":
            for p in FA.pipelines(I):
                if "word_size" in p.a[2]:
                    w = {x.a[0] if x.k == "c" else None for x in I.origins(p.a[3 + p.a[2].index("word_size")])}
                    R.ob("own-argument:inplace", w == {1}, "an in-place edit pads its input", FA.FROM)
    distinct = [k for o, k in kinds.items()]
    R.ob("distinct", len(set(distinct)) == len(distinct), "two options lead to the same stage: %s" % kinds, FA.FROM)
    if len(kinds) < len(INPUT) + len(STAGE) + 1:
        return None
    # all at once
    for sl in SLICERS:
        for dr in DRAINS:
            for inp in INPUT:
                given = [inp] + ["cut", "pad", "patch", "regex", "invert", "extend", "merge", "lines", sl, dr]
                seq, I, h = build(prog, R, opts, given, "all")
                if seq is None:
                    continue
                want = [kinds[inp]]
                for s in ORDER:
                    if s == "<tee>":
                        want += [kinds[s]] if dr == "patch-back" else []
                    else:
                        want.append(kinds[{"<slicer>": sl, "<drain>": dr}.get(s, s)])
                ks = [x.a[1] for x, e in seq]
                if not R.ob("order:%s,%s,%s" % (inp, sl, dr), ks == want, "the stages run in the order %s; documented: %s" % (ks, want), FA.FROM):
                    continue
                of = {kinds[o]: o for o in list(STAGE)}
                for x, e in seq:
                    o = of.get(x.a[1])
                    if o is not None:
                        a = argument(I, h, x)
                        R.ob("own-argument:%s,%s,%s,%s" % (o, inp, sl, dr), a == o or o == "pad" and a == "pad~",
                             "the stage of --%s is given %s when all options are combined" % (o, a), e.sp)
    return kinds


def stream_types(prog):
    out = set()
    for p in prog.fns:
        m = re.match(r"^<(.*) as nd::(byte::ByteStream|segment::SegmentStream)>::fill_", p)
        if m:
            out.add(re.sub(r"<.*>$", "", m.group(1)))
    return out


def spawn_graph(prog):
    types = stream_types(prog)

    def inl(tg, ctx):
        if tg.path.startswith("<"):
            return False
        return not any(tg.path.startswith(t + "::") for t in types)
    return Interp(prog, FA.SPAWN, inline=inl, max_steps=100000)


def second_half(prog, R, kinds):
    I = spawn_graph(prog)
    R.graph(I)
    names = set(kinds.values())
    ctors = {}
    for e in I.exts():
        m = re.search(r"::([A-Z]\w*)(::<.*>)?::new$", e.name or "")
        if m and e.name.startswith("nd::"):
            ctors.setdefault(m.group(1), []).append(e)
    oks = set()
    okv = []
    for n, v in I.returns.items():
        if I.ctx_of_id[n[0]].parent is None:
            for x in I.origins(v):
                if not (x.k == "errof" or x.k == "agg" and x.a[1] == "Err"):
                    oks.add(n)
                    okv.append(x)
    out = set()
    for v in okv:
        out |= set(I.leaves(v))
    nexts = {e.node for e in I.exts(r"::next$")}

    def on(kind):
        def f(a, b, l):
            return l is not None and l[0].k == "discr" and any(int(d) == l[1] and n == kind for d, n in l[0].a[1]) and \
                set(n for d, n in l[0].a[1]) >= names if l is not None and l[1] != "else" else False
        return f
    inputs = [e for t in INPUT.values() if t for e in ctors.get(t, [])]
    for o, typ in list(STAGE.items()) + [("<tee>", "TeeStream")] + [(o, t) for o, t in INPUT.items() if t]:
        kind = kinds[o]
        es = ctors.get(typ, [])
        if not R.ob("constructed:" + o, bool(es), "nothing builds the stage of %s (%s)" % (o, typ), FA.SPAWN):
            continue
        # entries of another kind do not lead here
        # a stage shared by several kinds shows up as reachable without passing this kind's branch
        mine = []
        for e in es:
            if e.node not in q.from_start(I, cut=on(kind)):
                mine.append(e)
        R.ob("only-for:" + o, mine == es, "%s is built for an entry other than that of %s" % (typ, o), es[0].sp)
        if not mine:
            continue
        starts = [b for a, ss in I.succs.items() for b, l in ss if on(kind)(a, b, l)]
        stop = {e.node for e in mine}
        r = q.reach(I, starts, avoid=stop, include=True)
        R.ob("always-for:" + o, bool(starts) and not (r & (oks | nexts)),
             "an entry of %s can be passed without building its stage" % o, es[0].sp)
        for e in mine:
            lv = set(I.leaves(e.vals[0], deep=True))
            if o in INPUT:
                R.ob("input:" + o, any(x.k == "arg" and x.a[1] == 1 for x in lv), "%s is not given the sources" % typ, e.sp)
                continue
            R.ob("previous:" + o, any(i.term in lv for i in inputs) and not any(x.k == "arg" and x.a[1] == 1 for x in set(I.origins(e.vals[0]))),
                 "%s is not given the stage built before" % typ, e.sp)
            R.ob("result:" + o, e.term in out, "what %s builds is not part of the result" % typ, e.sp)
            if o == "<tee>":
                continue
            ok = False
            for v in e.vals[1:]:
                os_ = I.origins(v)
                if os_ and all(is_arg(x, kind) for x in os_):
                    ok = True
                if o in FILES and any(opened(I, x, kind) for x in I.leaves(v)):
                    ok = True
            R.ob("argument:" + o, ok, "%s is not given the argument of %s" % (typ, o), e.sp)
    # the stage built last is the one handed on: a stage that is skipped keeps only its predecessor
    R.count("constructors", sum(len(x) for x in ctors.values()))


def is_arg(x, kind):
    x = q.strip(x)
    return x.k == "fld" and x.a[0].k == "as" and x.a[0].a[0] == kind


def opened(I, x, kind):
    if x.k == "call" and re.search(r"^std::fs::File::open$", x.a[0]):
        return any(is_arg(y, kind) for y in I.origins(x.a[2]))
    return False
