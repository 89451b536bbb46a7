"""In-place edits are atomic: in main, with every helper inlined, each std::fs::rename is reached only after the pipeline's
stream has reported end of stream with no bytes left, with every write into the temporary checked Ok, and no failing
operation between creating the temporary and renaming it can lead there; the temporary is named by appending a constant
suffix to the very path that is replaced (same directory), the renamed path is the created one; a buffered writer is
flushed, and the flush checked, before; no other function of the program creates, renames, truncates or removes files
except the confirmed owners."""
import re
from absint import show, short, last
import q
from rules import common

# who may change the file system: (api, module of the caller) -> why
OWNERS = {
    ("std::fs::rename", "main"): "in-place edit",
    ("std::fs::File::create", "main"): "in-place temporary",
    ("std::fs::OpenOptions", "drain::scatter"): "--output files",
    ("tempfile", "byte::tee"): "cache of --patch-back",
}


def module_of(fn):
    m = re.sub(r"^/?.*?src/", "", fn.file)
    m = re.sub(r"\.rs$", "", m).replace("/mod", "").replace("/", "::")
    return m


def run(prog, R):
    # clause 1: who may call
    for f in prog.real_fns():
        R.fn(f.path)
        for i, t in f.calls():
            d = t["f"].get("fn") if t["f"].get("k") == "const" else None
            if not d or not common.MUTATING_FS.search(d):
                continue
            api = d
            for a, m in OWNERS:
                if d.startswith(a):
                    api = a
            owner = (api, module_of(f))
            R.count("file-system mutating call sites")
            R.ob("who-may-change-files:%s:%s" % (f.path, short(d)), owner in OWNERS or api_in_main(prog, f, api),
                 "%s is called by %s, which is not one of the places that may change files" % (d, f.path), t.get("sp"))

    # clause 2: the commit point
    I = common.main_graph(prog)
    R.graph(I)
    renames = I.exts(r"^std::fs::rename$")
    creates = I.exts(r"^std::fs::File::create(_new)?$|^std::fs::OpenOptions::open$")
    R.ob("commit-point", len(renames) >= 1, "no std::fs::rename is reachable from main: in-place output is not committed by a rename", common.MAIN)
    R.ob("temporary", len(creates) >= 1, "no file is created on the in-place path", common.MAIN)
    fills = I.exts(r"^nd::byte::ByteStream::fill_buf$")
    writes = I.exts(r"Write>?::(write_all|write|write_fmt|write_all_vectored|write_vectored)$|::write_all$")
    for rn in renames:
        src, dst = [set(I.origins(v)) for v in rn.vals]
        mine = [c for c in creates if set(I.origins(c.vals[-1])) & src]
        R.ob("rename-source", len(mine) >= 1, "the renamed path %s is not the path of the file created for the output" % show(rn.vals[0]), rn.sp)
        for c in mine:
            check_commit(I, R, rn, c, fills, writes, src, dst)
    for c in creates:
        # the created file must not be one of the inputs
        for rn in renames:
            dst = set(I.origins(rn.vals[1]))
            R.ob("temporary-is-not-input", not (set(I.origins(c.vals[-1])) & dst),
                 "the output is created directly at the path of the input file", c.sp)


def api_in_main(prog, f, api):
    """helpers anywhere that only main's graph uses count as main: they are inlined there and judged there"""
    if api not in ("std::fs::rename", "std::fs::File::create"):
        return False
    users = {p for p, g in prog.fns.items() if g.is_fn and f.path in prog.refs(g)}
    return bool(users) and all(prog.fns[u].file.endswith("src/main.rs") for u in users)


def check_commit(I, R, rn, c, fills, writes, src, dst):
    # name of the temporary: a constant suffix on the input's own path
    fmts = [x for o in src for x in [find_fmt(I, o)] if x is not None]
    good = False
    why = "the temporary's name is not built by appending a constant suffix to the input path"
    for pieces, args in fmts:
        ph = [p for p in pieces if isinstance(p, int)]
        lits = [p for p in pieces if isinstance(p, str)]
        if len(ph) == 1 and pieces[0] == 0 and lits and not any("/" in p for p in lits) and "".join(lits) and \
                set(I.origins(args[0])) & dst:
            good = True
    R.ob("temporary-name", good, why + " that is replaced (it may be on another file system, or the file itself)", rn.sp)

    # reached only through: created Ok; end of stream seen; every write Ok
    R.ob("rename-after-create", rn.node not in q.from_start(I, cut=q.is_ok_of(c.term)),
         "the rename can be reached without the temporary having been created successfully", rn.sp)
    between = [e for e in fills if rn.node in q.reach(I, [e.node]) and e.node in q.reach(I, [c.node])]
    R.ob("rename-after-stream", len(between) >= 1, "no stream is consumed between the creation of the temporary and the rename", rn.sp)
    pays = [I.payload(e.term) for e in between]
    iseof = q.among(I, [I.project(p, ("f", "0")) for p in pays])
    isn = q.among(I, [I.project(p, ("f", "1")) for p in pays])
    cut_eof = lambda a, b, l: q.implies(l, iseof, (0, 1), lambda p: p == 1)
    cut_n = lambda a, b, l: q.implies(l, isn, (0, 1, 2, 3, 1 << 21), lambda p: p == 0)
    fn = {e.node for e in between}
    R.ob("rename-only-at-eof", rn.node not in q.reach(I, [c.node], cut=cut_eof),
         "the rename can be reached although the stream has not reported end of stream", rn.sp)
    R.ob("rename-only-when-drained", rn.node not in q.reach(I, [c.node], cut=cut_n),
         "the rename can be reached although the last fill_buf returned bytes that were not written", rn.sp)
    R.ob("rename-needs-fill", rn.node not in q.reach(I, [c.node], avoid=fn),
         "the rename can be reached without consuming the stream", rn.sp)
    for e in between:
        R.ob("rename-not-after-read-error", rn.node not in q.reach(I, [e.node], cut=q.is_ok_of(e.term), avoid=fn),
             "the rename can be reached after fill_buf failed or without checking it", rn.sp)
    ws = [w for w in writes if rn.node in q.reach(I, [w.node]) and w.node in q.reach(I, [c.node])]
    R.ob("writes-into-temporary", len(ws) >= 1, "nothing is written between creating the temporary and the rename", rn.sp)
    for w in ws:
        R.ob("rename-not-after-write-error", rn.node not in q.reach(I, [w.node], cut=q.is_ok_of(w.term)),
             "the rename can be reached after a write into the temporary failed or without checking it", w.sp)
        R.ob("write-target", file_of(I, w.vals[0]) & {c.term}, "the output is written to something other than the temporary", w.sp)
    # buffered writers: flush, checked
    for b in I.exts(r"^std::io::(BufWriter|LineWriter)::<.*>::(new|with_capacity)$|^std::io::(BufWriter|LineWriter).*::new$"):
        if rn.node not in q.reach(I, [b.node]) or b.node not in q.reach(I, [c.node]):
            continue
        if not (file_of(I, b.vals[-1]) & {c.term}):
            continue
        fl = [f for f in I.exts(r"::flush$|::into_inner$|::into_parts$") if rn.node in q.reach(I, [f.node]) and f.node in q.reach(I, [b.node])
              and last(f.name) != "into_parts"]
        ok = False
        for f in fl:
            if rn.node not in q.reach(I, [b.node], cut=q.is_ok_of(f.term)):
                ok = True
        R.ob("buffered-writer-flushed", ok, "a buffered writer over the temporary is not flushed, with the result checked, before the rename", b.sp)
    for op in I.exts(r"::(sync_all|sync_data|flush|into_inner)$"):
        if rn.node in q.reach(I, [op.node]) and op.node in q.reach(I, [c.node]):
            R.ob("rename-not-after-%s-error" % last(op.name), rn.node not in q.reach(I, [op.node], cut=q.is_ok_of(op.term)),
                 "the rename can be reached after %s failed" % short(op.name), op.sp)


def file_of(I, v):
    """opening calls a writer value may stand for"""
    def through(x):
        if x.k == "call" and last(x.a[0]) in ("new", "with_capacity") and ("Box" in x.a[0] or "Writer" in x.a[0]) and len(x.a) > 2:
            return x.a[-1]
        if x.k == "pay":
            return x.a[0]
        if x.k in ("eff",):
            return x.a[3]
        if x.k == "cast":
            return x.a[2]
        if x.k == "upd":
            return x.a[0]
        if x.k == "deref":
            return x.a[0]
        if x.k == "fld":
            return x.a[0]
        return None
    return set(I.origins(v, through))


def find_fmt(I, o):
    """(pieces, args) when the value is a format!() result or a concatenation"""
    seen = set()
    st = [o]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "call" and last(x.a[0]) == "format" and len(x.a) > 2:
            p = q.fmt_template(x.a[2])
            if p is not None:
                return p, q.fmt_args(x.a[2])
        if x.k == "call" and last(x.a[0]) in ("must_use",):
            st.append(x.a[2])
        elif x.k == "call" and last(x.a[0]) == "add" and "String" in x.a[0] and len(x.a) > 3:
            lit = q.strip(x.a[3])
            base = x.a[2]
            if lit.k == "s":
                return [0, lit.a[0]], [base]
        elif x.k == "eff" and last(x.a[0]) == "push_str":
            return None
    return None
