"""The exit status tells success from failure: main is analysed once per outcome of the fallible work: success, a
failure whose root cause is no I/O error, one whose root cause is an I/O error of each kind other than a broken pipe, and a
broken pipe. Success and a broken pipe end with status 0 and no error text; every other failure prints `error` and every
cause of the chain on standard error and ends with status 1. Nothing else in the program ends the process."""
import re
from absint import Interp, C, S, mk, show, short, last
import q
from rules import common

EXIT = re.compile(r"^std::process::(exit|abort)$|^std::intrinsics::abort$|libc::.*_?exit$|^std::process::ExitCode::exit_process$")


def fallible(tg):
    ty = tg.locals[0]["ty"]
    return ty.startswith("std::result::Result")


def is_kind(x):
    x = q.strip(x)
    return x.k == "call" and bool(re.search(r"std::io::Error::kind$", x.a[0]))


def kind_const(x):
    x = q.strip(x)
    return x.a[1] if x.k == "agg" and x.a[0].endswith("ErrorKind") else None


# every kind an I/O error can have (std::io::ErrorKind)
KINDS = """NotFound PermissionDenied ConnectionRefused ConnectionReset HostUnreachable NetworkUnreachable ConnectionAborted NotConnected
AddrInUse AddrNotAvailable NetworkDown AlreadyExists WouldBlock NotADirectory IsADirectory DirectoryNotEmpty ReadOnlyFilesystem
FilesystemLoop StaleNetworkFileHandle InvalidInput InvalidData TimedOut WriteZero StorageFull NotSeekable QuotaExceeded FileTooLarge
ResourceBusy ExecutableFileBusy Deadlock CrossesDevices TooManyLinks InvalidFilename ArgumentListTooLong Interrupted Unsupported
UnexpectedEof OutOfMemory InProgress Other Uncategorized""".split()


def scenario(prog, name, kind=None):
    """main under one outcome of the work it calls"""
    def assume(what, x):
        if name == "none":
            return None
        if what == "variant":
            y = q.strip(x)
            if y.k == "call":
                g = prog.fns.get(y.a[0])
                if g is not None and g.is_fn and fallible(g) and "anyhow::Error" in g.locals[0]["ty"]:
                    return "Ok" if name == "ok" else "Err"
                if re.search(r"downcast(_ref|_mut)?$", y.a[0]):
                    return "None" if name == "other" else "Some"
                if is_kind(y):
                    return kind
        if what == "call":
            l = last(x.a[0])
            if l in ("eq", "ne") and len(x.a) == 4:
                a, b = x.a[2], x.a[3]
                if is_kind(b):
                    a, b = b, a
                if is_kind(a) and kind_const(b):
                    same = kind_const(b) == kind
                    return C(int(same == (l == "eq")), "bool")
            if re.search(r"downcast|::is$", x.a[0]) and l == "is":
                return C(int(name != "other"), "bool")
        return None
    return Interp(prog, common.MAIN, assume=assume, inline=lambda tg, c: not fallible(tg) and not tg.path.startswith("<"))


def status(v):
    """constant process exit status of an exit call's operand or of main's returned value"""
    v = q.strip(v)
    while v.k == "cast":
        v = q.strip(v.a[2])
    if v.k == "c":
        return int(v.a[0])
    if v.k == "z":
        return 0
    if v.k == "call" and last(v.a[0]) == "from" and len(v.a) > 2:
        return status(v.a[2])
    if v.k == "konst" and "ExitCode" in str(v.a):
        return 0 if "SUCCESS" in str(v.a) else 1 if "FAILURE" in str(v.a) else None
    if v.k == "agg" and v.a[1] in ("Ok", "Err") and v.a[0].endswith("Result"):
        return 0 if v.a[1] == "Ok" else 1
    return None


def ends(I):
    out = [(e.node, q.strip(e.vals[0]) if e.vals else None, e.sp) for e in I.exts() if EXIT.search(e.name or "")]
    out += [(n, v, I.entry.sp) for n, v in I.returns.items() if I.ctx_of_id[n[0]].parent is None]
    return out


def prints(I):
    """calls that print on standard error: (event, template, argument values)"""
    out = []
    for e in I.exts(r"^std::io::_eprint$|Stderr.*::write_(fmt|all)$"):
        a = e.vals[-1]
        out.append((e, q.fmt_template(a) or [], q.fmt_args(a)))
    return out


def run(prog, R):
    for name, kind, want in [("ok", None, 0), ("other", None, 1), ("pipe", "BrokenPipe", 0)] + [("io", k, 1) for k in KINDS]:
        I = scenario(prog, name, kind)
        R.graph(I)
        es = ends(I)
        R.ob("ends:" + name, bool(es), "main has no end", common.MAIN)
        for n, v, sp in es:
            if v is None:
                R.ob("status:" + name, False, "the process is aborted", sp)
                continue
            vals = {status(x) for x in I.origins(v)}
            R.ob("status:" + name + (":" + kind if name == "io" else ""), vals == {want}, "with %s main ends with status %s, not %d" % (TEXT[name] + (" (%s)" % kind if name == "io" else ""), show(v, 3), want), sp)
        ps = prints(I)
        if want == 0:
            for e, t, a in ps:
                R.ob("silent:" + name, False, "an error text is printed with " + TEXT[name], e.sp)
            R.ob("silent:" + name, True, "", common.MAIN)
        else:
            chain_printed(prog, I, R, name, ps, {n for n, v, sp in es})
    # the failure looked at is that of the work, and its root cause
    I = scenario(prog, "io", "NotFound")
    for e in I.exts(r"downcast(_ref|_mut)?$"):
        x = q.strip(e.vals[0])
        R.ob("root-cause", x.k == "call" and last(x.a[0]) == "root_cause",
             "the I/O error is looked for in %s, not in the root cause of the failure" % show(x, 3), e.sp)
    # success is not taken from an ignored outcome: all fallible work main calls is checked
    I = scenario(prog, "none")
    works = [e for e in I.exts() if e.name in prog.fns and fallible(prog.fns[e.name])]
    R.ob("work", bool(works), "main calls no fallible work", common.MAIN)
    zero = {n for n, v, sp in ends(I) if v is not None and 0 in {status(x) for x in I.origins(v)} | {None}}
    for w in works:
        tested = any(q.is_err_of(w.term)(n, m, l) for n, ss in I.succs.items() for m, l in ss)
        returned = any(w.term in I.origins(v) for n, v, sp in ends(I) if v is not None)
        R.ob("checked:" + short(w.name), tested or returned, "the outcome of %s is ignored" % short(w.name), w.sp)
    # who may end the process
    n = 0
    for f in prog.real_fns():
        for i, t in f.calls():
            from mir import callee
            d, r, v = callee(t)
            if d and EXIT.search(d):
                n += 1
                R.ob("who-exits:" + f.path, f.path in scenario_names(I) or f.path == common.MAIN,
                     "%s ends the process behind main's back" % f.path, f.sp)
            if d and re.search(r"catch_unwind|panic::set_hook|panic::take_hook", d):
                R.ob("panic-hook:" + f.path, False, "%s intercepts panics" % f.path, f.sp)
    R.count("exit sites", n)


TEXT = {"ok": "a successful run", "other": "a failure that is no I/O error", "io": "an I/O error", "pipe": "a broken pipe"}


def scenario_names(I):
    return I.inlined | {I.entry.path}


def chain_printed(prog, I, R, name, ps, exits):
    """`error` and every cause reach standard error before the process ends"""
    lit = [e for e, t, a in ps if any(isinstance(x, str) and "error" in x for x in t)]
    r = q.from_start(I, avoid={e.node for e in lit})
    R.ob("error-text:" + name, bool(lit) and not (r & exits), "main can end without printing `error` after %s" % TEXT[name], common.MAIN)
    # the chain: for_each over error.chain() with a printing closure, a loop over it, or {:#}
    done = set()
    for e in I.calls(r"::for_each$"):
        x = q.strip(e.vals[0])
        if x.k == "call" and last(x.a[0]) == "chain" and "anyhow" in x.a[0] and closure_prints(prog, e):
            done.add(e.node)
    for e in I.exts(r"::next$"):
        xs = I.origins(e.vals[0], through=lambda x: x.a[3] if x.k == "eff" else x.a[2] if x.k == "call" and last(x.a[0]) == "into_iter" else None)
        if xs and all(x.k == "call" and last(x.a[0]) == "chain" and "anyhow" in x.a[0] for x in xs):
            item = I.payload(e.term)
            pr = {p.node for p, t, a in ps if any(y is item or item in I.leaves(y) for y in a)}
            back = q.reach(I, [e.node], cut=lambda a, b, l: q.is_err_of(e.term)(a, b, l), avoid=pr)
            if pr and not (back & ({e.node} | exits)):
                done.add(e.node)
    for p, t, a in ps:
        if any(alternate(p, y) for y in a):
            done.add(p.node)
    r = q.from_start(I, avoid=done)
    R.ob("chain:" + name, bool(done) and not (r & exits), "main can end without printing every cause of the failure after %s" % TEXT[name], common.MAIN)


def alternate(p, y):
    """`{:#}` of an anyhow error: the placeholder carries the alternate flag"""
    a = p.vals[-1]
    if a.k != "call" or len(a.a) < 4:
        return False
    s = q.strip(a.a[2])
    if s.k != "s":
        return False
    b = [ord(c) for c in s.a[0]]
    for i, c in enumerate(b):
        if c >= 0xc0 and c & 1 and i + 4 < len(b):
            flags = b[i + 1] | b[i + 2] << 8 | b[i + 3] << 16 | b[i + 4] << 24
            if flags & 0x00800000:
                return True
    return False


def closure_prints(prog, e):
    from rules.c03 import closures_of
    for x in e.vals[1:]:
        x = q.strip(x)
        if x.k == "agg" and x.a[0].startswith("closure:"):
            g = prog.fns.get(x.a[0][8:])
            if g is None:
                continue
            J = Interp(prog, g)
            for p, t, a in prints(J):
                if any(y.k == "arg" or any(z.k == "arg" and z.a[1] == 1 for z in J.leaves(y)) for y in a):
                    return J.dominates(p.node, list(J.returns)[0]) if J.returns else False
    return False
