"""The filling function of a slicing stage with numbers for what it is given: what the source has (end reached, bytes, slices, how
many bytes may be consumed), the integer fields of the stage, and the sizes of its collections."""
import re
from absint import Interp, C, mk, show, last
import q
import cases
from rules import evalx as E
from rules.c16 import field_path, own_slices, Stage
from rules.c17 import tops, choices

INL = lambda tg, c: not re.match(r"^<?nd::(eval|text|template|streambuf|mapper)::", tg.path)
BYTES, SLICES = r"ByteStream(>|)::fill_buf$", r"SegmentStream(>|)::fill_segment_buf$"
STREAM, WINDOW = r"ByteStream(>|)::as_slice$", r"SegmentStream(>|)::as_slices$"


class Num(cases.Case):
    """v: numbers for the base terms of the analysis"""

    def __init__(self, v):
        self.v = v
        self.heads = set(v.get("phi", ()))
        cases.Case.__init__(self, self.base, self.size)

    def __call__(self, what, t):
        if what == "variant" and "variant" in self.v:
            r = self.v["variant"](self, t)
            if r is not None:
                return r
        return cases.Case.__call__(self, what, t)

    def base(self, t):
        v = self.v
        if "leaf" in v:
            r = v["leaf"](self, t)
            if r is not None:
                return r
        if t.k == "phi" and "phi" in v and self.I is not None:
            r = v["phi"].get(self.I.signature(t))
            if r is not None:
                return r
        if t.k == "fld":
            b = q.strip(t.a[0])
            if b.k == "pay" and b.a[0].k == "call":
                if re.search(BYTES, b.a[0].a[0]):
                    return {"0": v.get("eof"), "1": v.get("bytes")}.get(t.a[1])
                if re.search(SLICES, b.a[0].a[0]):
                    return {"0": v.get("eof"), "1": v.get("bytes"), "2": v.get("count"), "3": v.get("max")}.get(t.a[1])
            p = field_path(t)
            if p is not None:
                return v.get("fields", {}).get(p)
        return None

    def size(self, t):
        v = self.v
        if "size" in v:
            r = v["size"](self, t)
            if r is not None:
                return r
        p = own_slices(self.I, t) if self.I is not None else field_path(q.strip(t))
        if p is not None and p in v.get("lens", {}):
            return v["lens"][p]
        if t.k == "call" and re.search(STREAM, t.a[0]):
            return v.get("bytes")
        if t.k == "fld":
            b = q.strip(t.a[0])
            if b.k == "call" and re.search(WINDOW, b.a[0]):
                return {"0": v.get("bytes"), "1": v.get("count")}.get(t.a[1])
        return None


class Filling:
    def __init__(self, prog, R, ty, fs):
        self.prog, self.R, self.ty, self.fs = prog, R, ty, fs
        self.name = ty.split("::")[-1]
        self.entry = fs["fill_segment_buf"]
        self.stage = Stage(prog, R, ty, fs)
        self.kept = self.stage.kept()

    def ob(self, k, ok, msg, sp=None):
        return self.R.ob(k, ok, msg, sp or self.entry)

    def run(self, v, fn=None):
        c = Num(v)
        I = Interp(self.prog, fn or self.entry, assume=c, inline=INL)
        c.I = I
        I.case = c
        self.R.count("cases")
        return I


def said(I):
    """what the function returns where it succeeds"""
    out = []
    for v in tops(I):
        for x in choices(I, v):
            if not E.failure(x):
                p = E.some(x)
                out.extend(choices(I, x if p is None else p))
    return out


def part(I, x, i):
    """a component of what is returned, as a set of numbers"""
    return numbers(I, I.project(x, ("f", str(i))))


def answers(I, i):
    out = set()
    for x in said(I):
        out |= part(I, x, i)
    return out


def failed(I, n):
    r = I.returns.get(n)
    return r is None or all(E.failure(x) for x in choices(I, r))


def numbers(I, t):
    v = I.case.num(t)
    return {v} if v is not None else {I.case.num(x) for x in choices(I, t)}


def left(I, path):
    """the numbers a field has in the end, where the function succeeds"""
    out = set()
    for n, st in I.final_states.items():
        if I.ctx_of_id[n[0]].parent is None and not failed(I, n):
            out |= numbers(I, cases.field_at(I, st, path))
    return out


def pushes(I, path):
    return [e for e in I.calls(r"Vec::<.*>::push$") if e.kind == "call" and own_slices(I, e.vals[0]) == path]


def fields_of(I, v):
    """the named fields of a struct value that is built here"""
    out = []
    for c in choices(I, v):
        c = q.strip(c)
        out.append(dict(zip(c.a[2], c.a[3:])) if c.k == "agg" and c.a[2] else None)
    return out
