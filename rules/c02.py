"""Everything the pipeline delivers is written, once and in order: for every loop of main (helpers inlined) that pulls from
the pipeline's stream, the bytes handed to write_all are the stream's current slice cut to exactly the count fill_buf
returned, exactly that count is consumed, on every path that continues the write precedes the next fill_buf and the
consume lies between them, and the program goes on to finish only when fill_buf reported end of stream with zero bytes."""
import re
from absint import show, short, last
import q
from rules import common
from rules.c01 import file_of


def run(prog, R):
    I = common.main_graph(prog)
    R.graph(I)
    fills = I.exts(r"^nd::byte::ByteStream::fill_buf$")
    R.ob("output-loop", len(fills) >= 1, "main pulls from no stream", common.MAIN)
    # the in-place and the plain output each need one
    spawns = [e for e in I.exts() if re.search(r"Result<std::boxed::Box<dyn nd::byte::ByteStream", e.dty or "")]
    R.ob("pipeline-spawned", len(spawns) >= 1, "main builds no stream", common.MAIN)
    for sp in spawns:
        after = q.reach(I, [sp.node])
        R.ob("stream-consumed:%s" % sp.fn, any(f.node in after and stream_is(I, f, sp) for f in fills),
             "a stream is built but not consumed", sp.sp)
        # no path from a successful spawn to a successful end of main without the stream being drained
    groups = {}
    for f in fills:
        groups.setdefault(frozenset(stream_key(I, f)), []).append(f)
    for g in groups.values():
        loop(I, R, g)


def stream_key(I, f):
    """which spawned stream(s) a fill_buf call pulls from"""
    return {x for x in I.leaves(f.vals[0]) if x.k == "call" and not x.a[0].startswith("std::") and not x.a[0].startswith("core::")
            and last(x.a[0]) not in ("fill_buf", "consume", "as_slice")} or {f.vals[0]}


def stream_is(I, f, sp):
    v = f.vals[0]
    return sp.term in set(I.leaves(v))


def loop(I, R, F):
    nodes = {f.node for f in F}
    pays = [I.payload(f.term) for f in F]
    eofs = [I.project(p, ("f", "0")) for p in pays]
    ns = [I.project(p, ("f", "1")) for p in pays]
    iseof, isn = q.among(I, eofs), q.among(I, ns)
    where = F[0].sp
    after = q.reach(I, nodes)
    other = {g.node for g in I.exts(r"^nd::byte::ByteStream::fill_buf$")} - nodes
    after = q.reach(I, nodes, avoid=other)
    writes = [w for w in I.exts(r"::(write_all|write|write_vectored|write_all_vectored|write_fmt)$") if w.node in after]
    consumes = [c for c in I.exts(r"^nd::byte::ByteStream::consume$") if c.node in after]
    slices = {s.term for s in I.exts(r"^nd::byte::ByteStream::as_slice$") if s.node in after}
    R.count("output loops")
    R.ob("written", len(writes) >= 1, "the bytes returned by fill_buf are not written", where)
    R.ob("consumed", len(consumes) >= 1, "the bytes returned by fill_buf are not consumed", where)

    def count_of(t, at):
        """t is the count returned by the fill_buf call that was the last one before `at`"""
        live = {n for f, n in zip(F, ns) if at in q.reach(I, [f.node], avoid=nodes)}
        return set(I.origins(t)) == live
    for w in writes:
        R.ob("write-all", last(w.name) == "write_all", "%s may write only a part of the bytes" % short(w.name), w.sp)
        data = q.slice_of(w.vals[1])
        ok = data is not None and data[1] is None and data[2] is not None and count_of(data[2], w.node) and q.strip(data[0]) in slices
        R.ob("written-bytes", ok, "what is written is not the stream's slice cut to the count fill_buf returned: %s" % show(w.vals[1], 6), w.sp)
        R.ob("checked-write", not (q.reach(I, [w.node], cut=q.is_ok_of(w.term)) & nodes),
             "the loop continues after a failed write", w.sp)
    for c in consumes:
        R.ob("consumed-count", count_of(c.vals[1], c.node), "consume is given %s, not the count that was written" % show(c.vals[1], 4), c.sp)
    # exits: leaving this iteration without writing needs eof and n == 0
    wn = {w.node for w in writes}
    cn = {c.node for c in consumes}
    cut_eof = lambda a, b, l: q.implies(l, iseof, (0, 1), lambda p: p == 1)
    cut_n = lambda a, b, l: q.implies(l, isn, (0, 1, 2, 3, 1 << 21), lambda p: p == 0)
    errs = [q.is_err_of(f.term) for f in F]
    is_err = lambda a, b, l: any(e(a, b, l) for e in errs)
    exits = commits(I)
    for what, cut in (("end of stream was not reported", cut_eof), ("bytes are left", cut_n)):
        r = q.reach(I, nodes, cut=lambda a, b, l: cut(a, b, l) or is_err(a, b, l) or werr(I, writes, a, b, l), avoid=wn | nodes)
        R.ob("finish-only-when-drained:" + what, not (r & exits), "the program can finish normally although " + what, where)
        # after the write, the only way on is another fill_buf
        r = q.reach(I, wn, cut=lambda a, b, l: werr(I, writes, a, b, l), avoid=nodes)
        R.ob("refill-after-write", not (r & exits), "the program can finish normally right after a write, without asking the stream for more", where)
    r = q.reach(I, nodes, avoid=wn, cut=lambda a, b, l: (cut_n(a, b, l) or is_err(a, b, l)))
    R.ob("no-refill-without-write", not (r & nodes), "fill_buf is called again without writing what it returned before", where)
    r = q.reach(I, nodes, avoid=cn, cut=lambda a, b, l: (cut_n(a, b, l) or is_err(a, b, l)))
    R.ob("no-refill-without-consume", not (r & nodes), "fill_buf is called again without consuming what was written: it is written twice", where)
    for w in writes:
        r = q.reach(I, [w.node], avoid=cn | nodes)
        R.ob("no-double-write", w.node not in r, "the same bytes are written twice", w.sp)
    for c in consumes:
        r = q.reach(I, [c.node], avoid=nodes)
        R.ob("no-double-consume", not (r & cn), "bytes are consumed twice", c.sp)
        R.ob("consume-after-write", not (r & wn), "bytes are consumed before they are written", c.sp)
    # buffered writers must be flushed, checked, before the program ends
    for b in I.exts(r"^std::io::(BufWriter|LineWriter).*::(new|with_capacity)$"):
        if not (nodes & q.reach(I, [b.node])):
            continue
        fl = [x for x in I.exts(r"::flush$|::into_inner$") if x.node in after]
        ok = any(not (q.reach(I, nodes, cut=lambda a, bb, l: q.is_ok_of(x.term)(a, bb, l) or is_err(a, bb, l) or werr(I, writes, a, bb, l)) & exits) for x in fl)
        R.ob("flushed", ok, "a buffered writer is not flushed, with the result checked, before the program ends", b.sp)


def werr(I, writes, a, b, l):
    r = q.result_label(l)
    return r is not None and r[1] == "err" and any(r[0] is w.term for w in writes)


def commits(I):
    """nodes of a normal (exit status 0) end of main: returns of the root frame, and renames / waits that follow a loop"""
    out = {x for x in I.returns if I.ctx_of_id[x[0]].parent is None}
    out |= {e.node for e in I.exts(r"^std::fs::rename$|^std::process::Child::wait$")}
    return out
