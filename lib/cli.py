"""The command line as the program defines it: options, spellings, parsers and the struct fields their values end up in,
read from the clap builder calls in the type-checked program."""
import re
from absint import Interp, S, show, short, last
import q


class Opt:
    def __init__(self, id):
        self.id = id
        self.short = None
        self.long = None
        self.parser = None
        self.action = None
        self.value_name = None
        self.extra = {}
        self.owner = None
        self.field = None

    def __repr__(self):
        return "<%s -%s --%s %s.%s %s>" % (self.id, self.short, self.long, self.owner, self.field, self.action)


def chain(t):
    """builder calls from the innermost to the outermost"""
    out = []
    while t.k == "call" and len(t.a) > 2:
        out.append((last(t.a[0]), list(t.a[3:]), t))
        t = t.a[2]
    out.append((None, [], t))
    out.reverse()
    return out


def options(prog):
    """{long or id: Opt} over every derived argument struct"""
    out = {}
    for f in prog.fns.values():
        m = re.match(r"^<(.*) as clap::Args>::augment_args$", f.path)
        if not m:
            continue
        owner = m.group(1)
        I = Interp(prog, f, inline=lambda tg, c: False)
        for e in I.exts(r"clap::Command::arg$"):
            t = e.vals[1]
            o = None
            for name, args, term in chain(t):
                if name is None:
                    continue
                if name == "new" and o is None:
                    o = Opt(q.strip(term.a[2]).a[0] if q.strip(term.a[2]).k == "s" else None)
                    continue
                if o is None:
                    continue
                v = q.strip(args[0]) if args else None
                if name == "short":
                    o.short = chr(v.a[0]) if v.k == "c" else None
                elif name == "long":
                    o.long = v.a[0] if v.k == "s" else None
                elif name == "value_name":
                    o.value_name = v.a[0] if v.k == "s" else None
                elif name == "action":
                    o.action = v.a[1] if v.k == "agg" else None
                elif name == "value_parser":
                    o.parser = v.a[1] if v.k == "fn" else None
                else:
                    o.extra[name] = v
            if o is not None:
                o.owner = owner
                out[o.long or o.id] = o
        g = prog.fns.get("<%s as clap::FromArgMatches>::from_arg_matches_mut" % owner)
        if g is None:
            continue
        J = Interp(prog, g, inline=lambda tg, c: False)
        for v in J.returns.values():
            for x in J.origins(v):
                if x.k == "agg" and x.a[1] == "Ok":
                    s = x.a[3]
                    for fld, val in zip(s.a[2], s.a[3:]):
                        for y in J.leaves(val):
                            if y.k == "call" and re.search(r"ArgMatches::(remove|get)_(one|many|flag|occurrences)|get_flag|get_count", y.a[0]) and q.strip(y.a[3]).k == "s":
                                for o in out.values():
                                    if o.owner == owner and o.id == q.strip(y.a[3]).a[0]:
                                        o.field = fld
    return out
