"""The construction of the pipeline from the command line, analysed for a fixed choice of options."""
import re
from absint import Interp, C, S, mk, show, short, last
import cli
import q

FROM = "nd::pipeline::Pipeline::from_args"
SPAWN = "nd::pipeline::Pipeline::spawn_stream"
NODE = "nd::pipeline::Node"
FLAGS = ("inplace",)


class Given:
    """assume hook: exactly the options in `given` are present (value: None, or a constant string for string options)"""
    def __init__(self, opts, given, extra=None):
        self.fields = {o.field: o.long for o in opts.values() if o.field and o.owner.endswith("PipelineArgs")}
        self.given = given
        self.extra = extra
        self.I = None

    def bind(self, I):
        self.I = I

    def option(self, x):
        """the option whose struct field the value is"""
        x = q.strip(x)
        while x.k == "call" and last(x.a[0]) in ("clone", "as_ref", "as_deref", "cloned", "copied", "take") and len(x.a) > 2:
            x = q.strip(x.a[2])
        if x.k == "fld" and x.a[1] in self.fields and x.a[0].k != "agg" and any(y.k == "arg" for y in self.base(x)):
            return self.fields[x.a[1]]
        return None

    def value(self, x):
        """the option whose payload the value is"""
        x = q.strip(x)
        if x.k == "pay":
            return self.option(x.a[0])
        return None

    def base(self, x):
        out = []
        while hasattr(x, "k"):
            out.append(x)
            if x.k in ("fld", "deref", "addr"):
                x = x.a[0]
            else:
                break
        return out

    def __call__(self, what, x):
        if self.extra is not None:
            r = self.extra(self, what, x)
            if r is not None:
                return r
        if what == "variant":
            o = self.option(x)
            if o is not None and o not in FLAGS:
                return "Some" if o in self.given else "None"
            y = q.strip(x)
            if y.k == "call" and last(y.a[0]) in ("from_str_with_columns", "from_str", "from_raw"):
                return "Ok"
        if what == "value":
            o = self.option(x)
            if o in FLAGS:
                return C(int(o in self.given), "bool")
            # --pad is given a pair other than (0, 0)
            if x.k == "op" and x.a[0] in ("Ne", "Eq", "Gt") and any(self.part(y) == "pad" for y in x.a[1:]) and any(y.k == "c" and y.a[0] == 0 for y in x.a[1:]):
                return C(int(x.a[0] != "Eq"), "bool")
        if what == "call":
            l = last(x.a[0])
            if l in ("eq", "ne") and len(x.a) == 4:
                if any(self.part(y) == "pad" for y in x.a[2:]):
                    return C(int(l == "ne"), "bool")
                for a, b in ((x.a[2], x.a[3]), (x.a[3], x.a[2])):
                    o = self.value(a)
                    if o in self.given and self.given[o] is not None and q.strip(b).k == "s":
                        return C(int((self.given[o] == q.strip(b).a[0]) == (l == "eq")), "bool")
            if l == "is_empty" and len(x.a) == 3 and self.value(x.a[2]) in self.given and self.given[self.value(x.a[2])] is not None:
                return C(int(self.given[self.value(x.a[2])] == ""), "bool")
        return None

    def part(self, x):
        x = q.strip(x)
        while x.k == "fld" and x.a[1] in ("0", "1"):
            x = q.strip(x.a[0])
        return self.value(x)


def stops(tg, ctx):
    """what is kept opaque while the pipeline is built"""
    return not (tg.path.startswith("<") or re.search(r"::(from_str|from_str_with_columns|from_raw)$", tg.path) or "closure" in tg.path and False)


def graph(prog, opts, given, extra=None):
    g = Given(opts, dict.fromkeys(given) if not isinstance(given, dict) else given, extra)
    I = Interp(prog, FROM, inline=stops, assume=g, max_steps=60000)
    return I, g


def oks(I):
    """root returns that may be Ok"""
    out = set()
    for n, v in I.returns.items():
        if I.ctx_of_id[n[0]].parent is None:
            if any(not (x.k == "errof" or x.k == "agg" and x.a[1] == "Err") for x in I.origins(v)):
                out.add(n)
    return out


def pipelines(I):
    """the Pipeline values returned"""
    out = []
    for n, v in I.returns.items():
        if I.ctx_of_id[n[0]].parent is None:
            for x in I.origins(v):
                if x.k == "agg" and x.a[1] == "Ok":
                    out += [y for y in I.origins(x.a[3]) if y.k == "agg"]
    return out


def nodes_in(I, v):
    """Node values inside a pushed value, in order; None if it may be one of several"""
    os_ = I.origins(v)
    if len(os_) == 1:
        x = os_[0]
        if x.k == "agg" and x.a[0] == NODE:
            return [x]
        if x.k == "agg" and (x.a[0] in ("array", "tuple") or x.a[1] == "Some"):
            out = []
            for y in x.a[3:]:
                r = nodes_in(I, y)
                if r:
                    out += r
            return out
        if x.k == "call" and last(x.a[0]) in ("into_iter", "into_vec", "from", "box_new", "into_boxed_slice", "flatten", "once") and len(x.a) > 2:
            return nodes_in(I, x.a[2])
        return []
    aggs = [x for x in os_ if x.k == "agg" and x.a[0] == NODE]
    return None if aggs else []


def sequence(I):
    """(nodes in order, problem): the stages the successful path adds"""
    ends = oks(I)
    ev = []
    for e in I.exts(r"Vec::<.*>::(push|insert|extend|append|extend_from_slice|push_within_capacity)$|Extend.*::extend$|into_vec$|from_elem|box_assume_init_into_vec"):
        got = None
        for v in e.vals[0:] if re.search(r"into_vec", e.name) else e.vals[1:]:
            got = nodes_in(I, v)
            if got is None:
                return None, "a stage that depends on more than the options fixed here is added", e.sp
            if got:
                break
        if got and (q.reach(I, [e.node]) & ends):
            if q.from_start(I, avoid=[e.node]) & ends:
                return None, "stage %s is added on some paths only" % show(got[0], 2), e.sp
            if last(e.name) == "insert":
                return None, "a stage is inserted in the middle", e.sp
            if e.node in q.reach(I, [e.node]):
                return None, "a stage is added in a loop", e.sp
            ev.append((e, got))
    # all are on every successful path: dominance orders them
    ev.sort(key=lambda x: sum(1 for y in ev if y[0] is not x[0] and I.dominates(y[0].node, x[0].node)))
    out = []
    for e, got in ev:
        out += [(x, e) for x in got]
    return out, None, None
