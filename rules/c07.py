"""Exclusive options and defaults: the construction of the pipeline is analysed once per subset of each group of exclusive
options (conditional constant propagation with the presence of every option fixed). Two or more of a group have no successful
outcome, one or none do; with none the stage added is the documented default one."""
import itertools
import re
from absint import show, short, last
import cli
import q
from rules import fromargs as FA

GROUPS = [("cat", "zip", "inplace"), ("width", "find", "walk", "slice", "guide"), ("output", "patch-back")]


def run(prog, R):
    opts = cli.options(prog)
    for g in GROUPS:
        for o in g:
            R.ob("option:" + o, o in opts and opts[o].field is not None, "the option --%s does not exist" % o, "")
            if o in opts:
                R.ob("no-clap-default:" + o, not any(k.startswith("default_") or k == "env" for k in opts[o].extra),
                     "--%s is given a value although it is absent" % o, "")
                ex = set(opts[o].extra) & {"overrides_with", "overrides_with_all", "hide", "required", "requires"} - ({"required"} if o == "inplace" else set())
                R.ob("clap:" + o, not ex, "--%s is declared with %s" % (o, ex), "")
    for g in GROUPS:
        for k in range(len(g) + 1):
            for sub in itertools.combinations(g, k):
                I, h = FA.graph(prog, opts, {o: None for o in sub})
                R.count("option subsets")
                if k == 0:
                    R.graph(I)
                ok = FA.oks(I)
                if k >= 2:
                    R.ob("refused:" + "+".join(sub), not ok, "--%s are accepted together" % " and --".join(sub), FA.FROM)
                    continue
                R.ob("accepted:" + ("+".join(sub) or "none"), bool(ok), "%s is refused" % (" ".join("--" + s for s in sub) or "a command line without any of --" + ", --".join(g)), FA.FROM)
    # pairs across groups stay allowed
    for a, b in itertools.combinations(GROUPS, 2):
        for x, y in itertools.product(a, b):
            I, h = FA.graph(prog, opts, {x: None, y: None})
            R.count("option subsets")
            R.ob("accepted:%s+%s" % (x, y), bool(FA.oks(I)), "--%s and --%s are refused together" % (x, y), FA.FROM)
    # defaults
    I, h = FA.graph(prog, opts, {})
    seq, why, sp = FA.sequence(I)
    if not R.ob("defaults", seq is not None, why or "", sp or FA.FROM):
        return
    names = [x.a[1] for x, e in seq]
    R.ob("default-stages", len(seq) == 3, "without options the pipeline has the stages %s" % names, FA.FROM)
    if len(seq) == 3:
        same(prog, opts, R, "cat", seq[0], "the default input is not a concatenation")
        p = FA.pipelines(I)
        for x in p:
            w = field(x, "word_size")
            R.ob("default-alignment", w is not None and {y.a[0] if y.k == "c" else None for y in I.origins(w)} == {1}, "the default alignment is not 1", FA.FROM)
        kind = same(prog, opts, R, "width", seq[1], "the default slicer is not --width")
        v = seq[1][0].a[3] if len(seq[1][0].a) > 3 else None
        o = I.origins(v)[0] if v is not None else None
        for _ in range(3):
            if o is not None and o.k == "pay":
                o = I.origins(o.a[0])[0]
        ok = o is not None and o.k == "call" and last(o.a[0]) == "from_raw" and o.a[2].k == "c" and o.a[2].a[0] == 16 and \
            (I.origins(o.a[3])[0].k == "agg" and I.origins(o.a[3])[0].a[1] == "None" or whole(o.a[3]))
        R.ob("default-width", ok, "the default slicer is given %s, not a width of 16 and the whole slice" % (show(v, 4) if v is not None else "nothing"), FA.FROM)
        same(prog, opts, R, "output", seq[2], "the default output is not --output")
        v = seq[2][0].a[3] if len(seq[2][0].a) > 3 else None
        t = {q.strip(y).a[0] if q.strip(y).k == "s" else None for y in I.origins(v)} if v is not None else set()
        R.ob("default-output", t <= {"-", ""} and bool(t), "the default output is %s, not standard output" % t, FA.FROM)


def whole(t):
    t = q.strip(t)
    return t.k == "agg" and t.a[1] == "Some" and q.strip(t.a[3]).k == "s" and q.strip(t.a[3]).a[0].replace(" ", "") in ("s..e", "..", "S..E")


def field(agg, name):
    return agg.a[3 + agg.a[2].index(name)] if agg.k == "agg" and name in agg.a[2] else None


def same(prog, opts, R, opt, item, what):
    """the stage is of the kind the option adds"""
    I, h = FA.graph(prog, opts, {opt: None})
    seq, why, sp = FA.sequence(I)
    kinds = [x.a[1] for x, e in seq or []]
    R.ob("default-is:" + opt, item[0].a[1] in kinds, what, item[1].sp)
