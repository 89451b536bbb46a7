"""Error discipline: for every call in the program that returns a Result carrying an I/O or nd error, the failure leaves the
function as a failure: it is returned, propagated by `?`, mapped and returned, or stored where the owner reports it; on no
path from the failing branch does the function return success with the error dropped; no result is left unread; no iterator
adaptor or method drops errors (ok, flatten, filter_map(Result::ok), unwrap_or...); joined threads' results are read; the
broken-pipe exemption exists only where nd writes to the command it spawned and where main decides the exit status."""
import re
from mir import callee
from absint import Interp, show, short, last, BudgetExceeded
from errs import Flow, is_result, err_ty, ok_ty
import q

# results whose failure is confirmed to carry nothing the user has to hear about: callee -> reason
EXEMPT = {
    "std::process::Child::wait": "exit status of the pager; all output was already accepted by its pipe",
    "std::env::var": "an unset PAGER means the default",
}
DROPPING = ("ok", "unwrap_or", "unwrap_or_default", "map_or", "map_or_else", "err", "is_ok_and", "is_err_and", "iter", "or", "or_else",
            "unwrap_or_else", "into_iter")
FORMATTING = re.compile(r"^core::fmt|^std::fmt|fmt::rt|Argument::|^std::io::_e?print|drop$|::drop$|^log::|^std::mem::(drop|forget)$")


def carries(ty):
    e = err_ty(ty)
    return bool(re.search(r"anyhow::Error|std::io::Error|std::process|dyn std::any::Any|dyn std::error::Error|IntoInnerError", e))


def run(prog, R):
    for f in prog.real_fns():
        R.fn(f.path)
        analyse(prog, f, R)
    kinds(prog, R)
    R.ob("floor", R.counts.get("fallible call sites", 0) >= 100, "fewer fallible call sites than were counted by hand", "")


def analyse(prog, f, R):
    sites = []
    for i, t in f.calls():
        b = f.blocks[i]
        if b.get("cleanup"):
            continue
        d, r, v = callee(t)
        # adaptors over results
        if d:
            for a in t["a"]:
                if a.get("k") == "const" and "fn" in a and re.search(r"Result::<.*>::(ok|unwrap_or|unwrap_or_default|is_ok)$|Result.*::(ok|unwrap_or_default)$", a.get("res") or a["fn"]):
                    R.ob("drops-errors:%s:%s" % (f.path, short(d)), False, "errors are dropped by %s(%s)" % (short(d), short(a["fn"])), t.get("sp"))
            if last(d) in ("flatten", "flat_map", "filter_map", "map_while") and "Iterator" in d:
                ty = t.get("dty", "")
                if re.search(r"std::io::|Result<", ty) and last(d) == "flatten":
                    R.ob("drops-errors:%s:%s" % (f.path, "flatten"), False, "flatten() over results drops errors", t.get("sp"))
        ty = t.get("dty", "")
        if not is_result(ty) or not carries(ty):
            continue
        if d and last(d) in ("from_residual", "branch"):
            continue
        sites.append((i, t, d, r))
    # results that arrive as part of another value (the thread's own result inside join()'s, a tuple's field)
    for i, b in enumerate(f.blocks):
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if "r" in s and s["r"]["k"] == "use" and not s["d"].get("p") and s["r"]["o"].get("k") in ("copy", "move") and \
                    s["r"]["o"]["pl"].get("p"):
                ty = f.locals[s["d"]["l"]]["ty"]
                if is_result(ty) and carries(ty):
                    R.count("nested results")
                    R.ob("nested:%s" % f.path, bool(Flow(f, s["d"]["l"]).uses), "a result inside another value is never looked at", s.get("sp", f.sp))
    if not sites:
        return
    rty = f.locals[0]["ty"]
    I = None
    for i, t, d, r in sites:
        R.count("fallible call sites")
        name = r or d or "<closure>"
        key = "%s:%s" % (f.path, short(d or "call"))
        sp = t.get("sp")
        if d in EXEMPT or any(d and d.startswith(x) for x in EXEMPT):
            R.ob("exempt:" + key, True, EXEMPT.get(d, ""), sp)
            continue
        if t["d"].get("p"):
            R.ob("stored:" + key, True, "stored", sp)
            continue
        F = Flow(f, t["d"]["l"])
        uses = F.uses
        kinds = {u[0] for u in uses}
        if not uses:
            R.ob("unread:" + key, False, "the result of %s is never looked at" % short(d or "call"), sp)
            continue
        if kinds <= {"returned"}:
            R.ob("returned:" + key, True, "returned", sp)
            continue
        bad = None
        args = [(u[1], last(callee(u[3])[0] or "?"), u[3], u[2]) for u in uses if u[0] == "arg"]
        names = {a[1] for a in args}
        if names and names <= {"branch"} and kinds <= {"arg"}:
            R.ob("propagated:" + key, True, "?", sp)
            # `?` inside a function whose type is not Result/Option cannot compile, so it does return the error
            continue
        # dropping methods
        if I is None:
            try:
                I = Interp(prog, f, inline=lambda tg, c: False, max_steps=30000)
            except BudgetExceeded:
                I = False
        if I is False:
            R.ob("budget:" + f.path, False, "function too large to analyse", f.sp)
            return
        ev = [e for e in I.events.values() if e.kind in ("call", "enter") and e.node[1] == i and e.term is not None]
        if not ev:
            # unreachable in this configuration
            R.ob("unreachable:" + key, True, "not reachable in this configuration", sp)
            continue
        for e in ev:
            for bb, nm, ut, pos in args:
                if nm in DROPPING and is_res_method(ut):
                    un = [x.node for x in I.events.values() if x.node[1] == bb]
                    live = q.reach(I, [e.node], cut=q.is_ok_of(e.term))
                    if not any(n in live for n in un):
                        continue    # only reached when it is known to be Ok
                    if nm == "unwrap_or_else" and closure_uses_error(prog, f, ut):
                        continue
                    if nm == "ok" and only_option_errors(prog, f, t):
                        continue
                    if nm in ("ok", "err") and option_form(I, e, bb):
                        continue
                    bad = "%s() drops the error" % nm
            if bad:
                break
            errs = [m for n, ss in I.succs.items() for m, l in ss if q.is_err_of(e.term)(n, m, l)]
            if not errs:
                tested = "payload" in kinds or "discr" in kinds or names & {"is_ok", "is_err"}
                handed = ("returned" in kinds or "stored" in kinds or
                          any(nm not in ("is_ok", "is_err", "as_ref", "as_mut", "drop") for nm in names))
                if not handed and not tested:
                    bad = "the result is never used"
                elif not handed and tested:
                    # tested, but its failing branch is not visible: e.g. matches!(..) into a flag
                    if not flag_checked(I, e):
                        bad = "the failure is not distinguished from success"
                continue
            # paths where the error is known
            used = err_payload_used(f, F)
            region = q.reach(I, errs, include=True)
            if re.match(r"std::(result::Result|option::Option|task)", rty) or "Result<" in rty:
                for n in region:
                    if n in I.returns and I.ctx_of_id[n[0]].parent is None:
                        v = I.returns[n]
                        if succeeds(I, v, e.term) and not used and not excused(I, errs, n):
                            bad = "after %s failed the function can return success" % short(d or "call")
            else:
                rets = [n for n in region if n in I.returns]
                if rets and not used:
                    bad = "the failure of %s goes unnoticed by the caller" % short(d or "call")
            # retrying: an error edge that leads back to the same call without leaving
            if not bad and not used and e.node in region and not excused_retry(I, errs, e.node):
                bad = "after a failure the loop goes on as if nothing happened"
        R.ob("checked:" + key, bad is None, bad or "failing branch leaves as a failure", sp)


def is_res_method(t):
    d, r, v = callee(t)
    return bool(d and re.search(r"Result", d)) or bool(d and "IntoIterator" in d)


def option_form(I, e, bb):
    """.ok() whose None is then treated like the failure: the None edge is judged by the graph rule"""
    for n, ss in I.succs.items():
        for m, l in ss:
            r = q.result_label(l)
            if r is not None and r[0] is e.term and r[1] == "err":
                return True
    # returned as the Option itself (callers see None), or fed to ok_or/`?`
    return False


def closures_of(f, t):
    for a in t["a"]:
        if a.get("k") in ("copy", "move"):
            for b in f.blocks:
                for s in b["s"]:
                    if "r" in s and s["r"].get("ak") == "closure" and s["d"]["l"] == a["pl"]["l"]:
                        yield s["r"]["def"]


def only_option_errors(prog, f, t):
    """the call's error can only be one its closure argument made out of a None"""
    cs = list(closures_of(f, t))
    if not cs:
        return False
    for c in cs:
        g = prog.fns.get(c)
        if g is None:
            return False
        for i, u in g.calls():
            if is_result(u.get("dty", "")) and not re.search(r"Option", (callee(u)[1] or "") + (callee(u)[0] or "")):
                return False
    return True


def closure_uses_error(prog, f, t):
    for a in t["a"][1:]:
        c = None
        if a.get("k") in ("copy", "move"):
            ty = f.locals[a["pl"]["l"]]["ty"]
            for b in f.blocks:
                for s in b["s"]:
                    if "r" in s and s["r"].get("ak") == "closure" and s["d"]["l"] == a["pl"]["l"]:
                        c = s["r"]["def"]
        if c in prog.fns:
            g = prog.fns[c]
            if g.argc >= 2:
                F = Flow(g, 2)
                for u in F.uses:
                    if u[0] in ("stored", "returned"):
                        return True
                    if u[0] == "arg" and not FORMATTING.search(callee(u[3])[0] or ""):
                        return True
    return False


def err_payload_used(f, F):
    """is the error value itself moved somewhere that keeps it (not only printed, inspected or dropped)?"""
    for u in F.uses:
        if u[0] == "payload" and u[2] in ("Err", "Some"):
            s = u[3]
            if "r" in s:
                if s["r"]["k"] != "use":
                    if s["r"]["k"] == "agg":
                        return True
                    continue
                d = s["d"]
                if d.get("p"):
                    return True
                if moved(f, d["l"]):
                    return True
            else:
                if keeps(callee(s)[0] or ""):
                    return True
    return False


def moved(f, local):
    """is the owned value in `local` moved into a place, an aggregate, a call or the return value?"""
    alias = {local}
    changed = True
    while changed:
        changed = False
        for b in f.blocks:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if "r" not in s:
                    continue
                r = s["r"]
                for o in ops(r):
                    if o.get("k") == "move" and o["pl"]["l"] in alias and not o["pl"].get("p"):
                        if r["k"] == "use" and not s["d"].get("p"):
                            if s["d"]["l"] == 0:
                                return True
                            if s["d"]["l"] not in alias:
                                alias.add(s["d"]["l"])
                                changed = True
                        else:
                            return True
    for i, t in f.calls():
        if f.blocks[i].get("cleanup"):
            continue
        for a in t["a"]:
            if a.get("k") == "move" and a["pl"]["l"] in alias and not a["pl"].get("p") and keeps(callee(t)[0] or "closure"):
                return True
    return False


def ops(r):
    for k in ("o", "a", "b"):
        if k in r:
            yield r[k]
    yield from r.get("ops", ())


def keeps(name):
    if FORMATTING.search(name):
        return False
    return last(name) not in ("kind", "root_cause", "chain", "to_string", "raw_os_error", "new_display", "new_debug", "is", "downcast_ref",
                              "deref", "as_ref", "fmt", "drop", "source", "eq", "ne")


def succeeds(I, v, term):
    """may this returned value be a success?"""
    for o in I.origins(v):
        if o.k == "agg" and o.a[1] in ("Ok", "Some"):
            return True
        if o.k in ("errof",):
            continue
        if o.k == "agg" and o.a[1] in ("Err", "None"):
            continue
        if o.k == "call" and (o is term or "Result" in o.a[0] or last(o.a[0]) in ("context", "with_context", "map_err")):
            continue
    return False


def kind_label(l, which):
    if l is None:
        return False
    cond, val = l
    for x in walk(cond):
        if x.k == "call" and last(x.a[0]) == "kind":
            return True
    return False


def walk(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen or not hasattr(x, "k"):
            continue
        seen.add(x)
        yield x
        if x.k != "ref":
            st.extend(y for y in x.a if hasattr(y, "k"))


def excused(I, errs, n):
    """the only way from the failing branch to this return passes a test of the error's kind"""
    r = q.reach(I, errs, cut=lambda a, b, l: kind_label(l, None), include=True)
    return n not in r


def excused_retry(I, errs, n):
    r = q.reach(I, errs, cut=lambda a, b, l: kind_label(l, None), include=True)
    return n not in r


def flag_checked(I, e):
    return False


def kinds(prog, R):
    """which kinds of I/O error get special treatment, and where"""
    pos = 0
    for f in prog.real_fns():
        found = set()
        for b in f.blocks:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if "r" not in s:
                    continue
                r = s["r"]
                if r.get("ak") == "adt" and r.get("adt", "").endswith("io::ErrorKind"):
                    found.add(r["var"])
                if r["k"] == "discr":
                    vs = r.get("vars", {})
                    if "BrokenPipe" in vs.values():
                        found |= switched(f, s["d"]["l"], vs)
        for p in f.promoted:
            for b in p["blocks"]:
                for s in b["s"]:
                    if "r" in s and s["r"].get("ak") == "adt" and s["r"].get("adt", "").endswith("io::ErrorKind"):
                        found.add(s["r"]["var"])
        tests = any(last(callee(t)[0] or "") == "kind" for i, t in f.calls())
        if not tests:
            continue
        for k in sorted(found):
            pos += 1
            ok = k == "Interrupted" or (k == "BrokenPipe" and broken_pipe_place(prog, f))
            R.ob("error-kind:%s:%s" % (f.path, k), ok, "errors of kind %s are treated specially in %s" % (k, f.path), f.sp)
    R.count("special error kinds", pos)


def switched(f, local, vs):
    out = set()
    for b in f.blocks:
        t = b["t"]
        if t["k"] == "switch" and t["o"].get("pl", {}).get("l") == local:
            for v, x in t["ts"]:
                if str(v) in vs:
                    out.add(vs[str(v)])
    return out


def broken_pipe_place(prog, f):
    """main's exit status, or the function that writes to the spawned command's stdin (and nothing else)"""
    root = f.root()
    if root == "nd::main" or any(root in prog.refs(prog.fns[x]) for x in ("nd::main",)):
        return True
    tys = " ".join(l["ty"] for l in f.locals)
    return "ChildStdin" in tys
