"""Constant command lines: the argument struct as a constant, propagated through the construction of the pipeline and of the
streams."""
import re
from absint import Interp, C, S, mk, show, short, last
import q
from rules import fromargs as FA

OPT = "std::option::Option"


def some(v):
    return mk("agg", OPT, "Some", ("0",), v)


NONE = mk("agg", OPT, "None", ())


def args_struct(prog):
    for p, a in prog.adts.items():
        if p.endswith("::PipelineArgs"):
            return p, a
    return None, None


def pipeline_args(prog, opts, given):
    """the PipelineArgs value with exactly the given options: {long: term or True}"""
    p, a = args_struct(prog)
    by = {o.field: o.long for o in opts.values() if o.field and o.owner == p}
    names, vals = [], []
    for n, ty in a["vars"][0]["f"]:
        o = by.get(n)
        names.append(n)
        v = given.get(o)
        if ty == "bool":
            vals.append(C(int(bool(v)), "bool"))
        elif v is None:
            vals.append(NONE)
        else:
            vals.append(some(v))
    return mk("agg", p, a["vars"][0]["n"], tuple(names), *vals)


def from_args(prog, opts, given, inline=None):
    """(graph, list of the constructed pipelines): the pipeline built for a constant command line"""
    v = pipeline_args(prog, opts, given)
    I = Interp(prog, FA.FROM, args={0: mk("addr", v)}, inline=inline or (lambda tg, c: not re.match(r"^<?nd::(eval|mapper|segment|byte)::", tg.path)), max_steps=60000)
    return I, [x for x in FA.pipelines(I)]


def spawn(prog, pipeline, inline=None):
    return Interp(prog, FA.SPAWN, args={0: mk("addr", pipeline)}, inline=inline or constructors_opaque(prog), max_steps=100000)


def stream_types(prog):
    out = set()
    for p in prog.fns:
        m = re.match(r"^<(.*) as nd::(byte::ByteStream|segment::SegmentStream)>::fill_", p)
        if m:
            out.add(re.sub(r"<.*>$", "", m.group(1)))
    return out


def constructors_opaque(prog, keep=()):
    types = stream_types(prog)

    def inl(tg, ctx):
        return not any(tg.path.startswith(t + "::") for t in types if t not in keep)
    return inl


def result(I):
    """the values a root function returns"""
    return [x for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None for x in I.origins(v)]


def parse_format(prog, sig):
    """(list of possible formats, can it be refused?)"""
    I = Interp(prog, "nd::text::InoutFormat::from_str", args={0: S(sig)}, inline=lambda tg, c: True)
    rs = result(I)
    ok = [x.a[3] for x in rs if x.k == "agg" and x.a[1] == "Ok"]
    return ok, len(ok) != len(rs) or not rs, I
