// Dumps the type-checked program of one crate as JSON: for every function, closure, const and promoted of the
// local crate, its MIR (before optimization), with resolved callees, types, field and variant names.
//
// Injected as RUSTC_WORKSPACE_WRAPPER; writes $NDMIR_OUT/<crate>.json.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

struct J {
    s: String,
}

impl J {
    fn str(&mut self, x: &str) {
        self.s.push('"');
        for c in x.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                '\n' => self.s.push_str("\\n"),
                c if (c as u32) < 0x20 => write!(self.s, "\\u{:04x}", c as u32).unwrap(),
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    fn key(&mut self, k: &str) {
        self.str(k);
        self.s.push(':');
    }
    fn raw(&mut self, x: &str) {
        self.s.push_str(x);
    }
    fn comma(&mut self) {
        if !(self.s.ends_with('[') || self.s.ends_with('{') || self.s.ends_with(',')) {
            self.s.push(',');
        }
    }
    fn kv(&mut self, k: &str, v: &str) {
        self.comma();
        self.key(k);
        self.str(v);
    }
    fn kn<T: std::fmt::Display>(&mut self, k: &str, v: T) {
        self.comma();
        self.key(k);
        write!(self.s, "{}", v).unwrap();
    }
    fn ks(&mut self, k: &str) {
        self.comma();
        self.key(k);
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    j: J,
}

struct Cx<'a, 'tcx> {
    body: &'a Body<'tcx>,
    def: DefId,
    env: TypingEnv<'tcx>,
}

fn path(tcx: TyCtxt<'_>, def: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(def)))
}

fn tystr(ty: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", ty)))
}

/// the text of a `static X: &str`
fn static_str<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, t: Ty<'tcx>) -> Option<Vec<u8>> {
    use rustc_middle::mir::interpret::GlobalAlloc;
    match t.kind() {
        ty::Ref(_, u, _) if u.is_str() => {}
        _ => return None,
    }
    if !d.is_local() {
        return None;
    }
    let a = tcx.eval_static_initializer(d).ok()?;
    let a = a.inner();
    let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..16);
    let len = u64::from_le_bytes(raw[8..16].try_into().unwrap()) as usize;
    let off = u64::from_le_bytes(raw[0..8].try_into().unwrap()) as usize;
    let (_, prov) = a.provenance().ptrs().iter().next().copied()?;
    match tcx.global_alloc(prov.alloc_id()) {
        GlobalAlloc::Memory(m) => Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec()),
        _ => None,
    }
}

impl<'tcx> Dumper<'tcx> {
    fn span(&mut self, sp: Span) {
        let sm = self.tcx.sess.source_map();
        let call = sp.source_callsite();
        let loc = sm.lookup_char_pos(call.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        self.j.kv("sp", &format!("{}:{}", f, loc.line));
        if sp.from_expansion() {
            let mut names = Vec::new();
            for e in sp.macro_backtrace() {
                names.push(e.kind.descr().to_string());
            }
            self.j.kv("mac", &names.join(","));
        }
    }

    fn place(&mut self, cx: &Cx<'_, 'tcx>, p: &Place<'tcx>) {
        let tcx = self.tcx;
        self.j.raw("{");
        self.j.kn("l", p.local.as_usize());
        if !p.projection.is_empty() {
            self.j.ks("p");
            self.j.raw("[");
            let mut pty = rustc_middle::mir::PlaceTy::from_ty(cx.body.local_decls[p.local].ty);
            for e in p.projection.iter() {
                self.j.comma();
                match e {
                    ProjectionElem::Deref => self.j.str("*"),
                    ProjectionElem::Field(f, _) => {
                        let mut name = format!("{}", f.as_usize());
                        let mut owner = String::new();
                        match pty.ty.kind() {
                            ty::Adt(adt, _) => {
                                owner = path(tcx, adt.did());
                                let v = match pty.variant_index {
                                    Some(v) => Some(adt.variant(v)),
                                    None if adt.is_struct() || adt.is_union() => Some(adt.non_enum_variant()),
                                    None => None,
                                };
                                if let Some(v) = v {
                                    if let Some(fd) = v.fields.get(f) {
                                        name = fd.name.to_string();
                                    }
                                }
                            }
                            ty::Closure(def, _) => {
                                owner = path(tcx, *def);
                                if let Some(l) = def.as_local() {
                                    if let Some(c) = tcx.closure_captures(l).get(f.as_usize()) {
                                        name = c.to_string(tcx);
                                    }
                                }
                            }
                            _ => {}
                        }
                        self.j.raw("{");
                        self.j.kn("f", f.as_usize());
                        self.j.kv("n", &name);
                        if !owner.is_empty() {
                            self.j.kv("o", &owner);
                        }
                        self.j.raw("}");
                    }
                    ProjectionElem::Downcast(_, v) => {
                        let name = match pty.ty.kind() {
                            ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                            _ => format!("{}", v.as_usize()),
                        };
                        self.j.raw("{");
                        self.j.kv("v", &name);
                        self.j.raw("}");
                    }
                    ProjectionElem::Index(l) => {
                        self.j.raw("{");
                        self.j.kn("i", l.as_usize());
                        self.j.raw("}");
                    }
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        self.j.raw("{");
                        self.j.kn("ci", offset);
                        self.j.kn("fe", from_end as u8);
                        self.j.raw("}");
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        self.j.raw("{");
                        self.j.kn("ss", from);
                        self.j.kn("to", to);
                        self.j.kn("fe", from_end as u8);
                        self.j.raw("}");
                    }
                    _ => self.j.str("?"),
                }
                pty = pty.projection_ty(tcx, e);
            }
            self.j.raw("]");
        }
        self.j.raw("}");
    }

    fn konst(&mut self, cx: &Cx<'_, 'tcx>, c: &ConstOperand<'tcx>) {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        self.j.raw("{");
        self.j.kv("k", "const");
        self.j.kv("ty", &tystr(ty));
        match ty.kind() {
            ty::FnDef(def, args) => {
                self.j.kv("fn", &path(tcx, *def));
                let args = args.no_bound_vars().unwrap();
                self.j.kv("fna", &with_resolve_crate_name!(with_no_trimmed_paths!(format!("{:?}", args))));
                let mut targs = Vec::new();
                for t in args.types() {
                    targs.push(tystr(t));
                }
                self.j.ks("targs");
                self.j.raw("[");
                for t in &targs {
                    self.j.comma();
                    self.j.str(t);
                }
                self.j.raw("]");
                if let Some(tr) = tcx.trait_of_assoc(*def) {
                    self.j.kv("trait", &path(tcx, tr));
                }
                let inst = Instance::try_resolve(tcx, cx.env, *def, args);
                if let Ok(Some(i)) = inst {
                    let virt = matches!(i.def, ty::InstanceKind::Virtual(..));
                    self.j.kv("res", &path(tcx, i.def_id()));
                    self.j.kn("virt", virt as u8);
                    self.j.kn("loc", i.def_id().is_local() as u8);
                }
            }
            _ => {
                if let Const::Unevaluated(u, _) = c.const_ {
                    self.j.kv("uneval", &path(tcx, u.def));
                    if let Some(p) = u.promoted {
                        self.j.kn("promoted", p.as_usize());
                    }
                }
                let v = c.const_.eval(tcx, cx.env, c.span);
                if let Ok(v) = v {
                    if let Some(s) = v.try_to_scalar_int() {
                        let size = s.size();
                        let bits = s.to_bits(size);
                        let val: String = match ty.kind() {
                            ty::Int(_) => format!("{}", size.sign_extend(bits)),
                            _ => format!("{}", bits),
                        };
                        self.j.kv("val", &val);
                    } else if let ConstValue::ZeroSized = v {
                        self.j.kn("zst", 1);
                    } else {
                        let inner = match ty.kind() {
                            ty::Ref(_, t, _) => Some(*t),
                            _ => None,
                        };
                        if let Some(t) = inner {
                            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                                let (prov, _) = p.into_raw_parts();
                                if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                                    self.j.kv("static", &path(tcx, d));
                                    if let Some(b) = static_str(tcx, d, t) {
                                        let s: String = b.iter().map(|x| *x as char).collect();
                                        self.j.kv("sstr", &s);
                                    }
                                }
                            }
                            if t.is_str() || matches!(t.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    let s: String = b.iter().map(|x| *x as char).collect();
                                    self.j.kv("str", &s);
                                }
                            } else if let ty::Array(e, _) = t.kind() {
                                if *e == tcx.types.u8 {
                                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                                        let (prov, off) = p.into_raw_parts();
                                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                            let m = m.inner();
                                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..m.len());
                                            let s: String = b.iter().map(|x| *x as char).collect();
                                            self.j.kv("str", &s);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        self.j.raw("}");
    }

    fn operand(&mut self, cx: &Cx<'_, 'tcx>, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                self.j.raw("{\"k\":\"copy\",\"pl\":");
                self.place(cx, p);
                self.j.raw("}");
            }
            Operand::Move(p) => {
                self.j.raw("{\"k\":\"move\",\"pl\":");
                self.place(cx, p);
                self.j.raw("}");
            }
            Operand::Constant(c) => self.konst(cx, c),
            #[allow(unreachable_patterns)]
            _ => self.j.raw("{\"k\":\"rt\"}"),
        }
    }

    fn rvalue(&mut self, cx: &Cx<'_, 'tcx>, r: &Rvalue<'tcx>) {
        let tcx = self.tcx;
        self.j.raw("{");
        match r {
            Rvalue::Use(o, ..) => {
                self.j.kv("k", "use");
                self.j.ks("o");
                self.operand(cx, o);
            }
            Rvalue::Repeat(o, n) => {
                self.j.kv("k", "repeat");
                self.j.ks("o");
                self.operand(cx, o);
                self.j.kv("n", &format!("{}", n));
            }
            Rvalue::Ref(_, bk, p) => {
                self.j.kv("k", "ref");
                self.j.kn("mut", matches!(bk, BorrowKind::Mut { .. }) as u8);
                self.j.ks("pl");
                self.place(cx, p);
            }
            Rvalue::RawPtr(k, p) => {
                self.j.kv("k", "rawptr");
                self.j.kv("pk", &format!("{:?}", k));
                self.j.ks("pl");
                self.place(cx, p);
            }
            Rvalue::Cast(k, o, t) => {
                self.j.kv("k", "cast");
                self.j.kv("ck", &format!("{:?}", k));
                self.j.ks("o");
                self.operand(cx, o);
                self.j.kv("ty", &tystr(*t));
                let from = o.ty(cx.body, tcx);
                self.j.kv("from", &tystr(from));
            }
            Rvalue::BinaryOp(op, b) => {
                self.j.kv("k", "bin");
                self.j.kv("op", &format!("{:?}", op));
                self.j.ks("a");
                self.operand(cx, &b.0);
                self.j.ks("b");
                self.operand(cx, &b.1);
                self.j.kv("aty", &tystr(b.0.ty(cx.body, tcx)));
            }
            Rvalue::UnaryOp(op, o) => {
                self.j.kv("k", "un");
                self.j.kv("op", &format!("{:?}", op));
                self.j.ks("o");
                self.operand(cx, o);
            }
            Rvalue::Discriminant(p) => {
                self.j.kv("k", "discr");
                self.j.ks("pl");
                self.place(cx, p);
                let t = p.ty(cx.body, tcx).ty;
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        self.j.kv("adt", &path(tcx, adt.did()));
                        self.j.ks("vars");
                        self.j.raw("{");
                        for (v, d) in adt.discriminants(tcx) {
                            self.j.comma();
                            self.j.key(&format!("{}", d.val));
                            let n = adt.variant(v).name.to_string();
                            self.j.str(&n);
                        }
                        self.j.raw("}");
                    }
                }
            }
            Rvalue::Aggregate(k, ops) => {
                self.j.kv("k", "agg");
                match &**k {
                    AggregateKind::Array(t) => {
                        self.j.kv("ak", "array");
                        self.j.kv("ety", &tystr(*t));
                    }
                    AggregateKind::Tuple => self.j.kv("ak", "tuple"),
                    AggregateKind::Adt(def, v, _, _, active) => {
                        self.j.kv("ak", "adt");
                        self.j.kv("adt", &path(tcx, *def));
                        let adt = tcx.adt_def(*def);
                        let var = adt.variant(*v);
                        self.j.kv("var", var.name.as_str());
                        self.j.kn("enum", adt.is_enum() as u8);
                        self.j.ks("fields");
                        self.j.raw("[");
                        if let Some(a) = active {
                            self.j.str(var.fields[*a].name.as_str());
                        } else {
                            for f in &var.fields {
                                self.j.comma();
                                self.j.str(f.name.as_str());
                            }
                        }
                        self.j.raw("]");
                    }
                    AggregateKind::Closure(def, _) => {
                        self.j.kv("ak", "closure");
                        self.j.kv("def", &path(tcx, *def));
                        if let Some(l) = def.as_local() {
                            self.j.ks("fields");
                            self.j.raw("[");
                            for c in tcx.closure_captures(l) {
                                self.j.comma();
                                self.j.str(&c.to_string(tcx));
                            }
                            self.j.raw("]");
                        }
                    }
                    AggregateKind::RawPtr(..) => self.j.kv("ak", "rawptr"),
                    _ => self.j.kv("ak", "other"),
                }
                self.j.ks("ops");
                self.j.raw("[");
                for o in ops.iter() {
                    self.j.comma();
                    self.operand(cx, o);
                }
                self.j.raw("]");
            }
            Rvalue::CopyForDeref(p) => {
                self.j.kv("k", "use");
                self.j.raw(",\"o\":{\"k\":\"copy\",\"pl\":");
                self.place(cx, p);
                self.j.raw("}");
            }
            other => {
                self.j.kv("k", "other");
                self.j.kv("d", &format!("{:?}", other));
            }
        }
        self.j.raw("}");
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>) {
        let tcx = self.tcx;
        let cx = Cx { body, def, env: TypingEnv::post_analysis(tcx, def) };
        let _ = cx.def;
        self.j.kn("argc", body.arg_count);
        self.j.ks("locals");
        self.j.raw("[");
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upv: Vec<(String, Place<'tcx>)> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                } else {
                    upv.push((v.name.to_string(), p));
                }
            }
        }
        for (i, d) in body.local_decls.iter().enumerate() {
            self.j.comma();
            self.j.raw("{");
            self.j.kv("ty", &tystr(d.ty));
            if let Some(n) = &names[i] {
                let n = n.clone();
                self.j.kv("n", &n);
            }
            self.j.raw("}");
        }
        self.j.raw("]");
        self.j.ks("blocks");
        self.j.raw("[");
        for bb in body.basic_blocks.iter() {
            self.j.comma();
            self.j.raw("{");
            if bb.is_cleanup {
                self.j.kn("cleanup", 1);
            }
            self.j.ks("s");
            self.j.raw("[");
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(a) => {
                        self.j.comma();
                        self.j.raw("{");
                        self.j.ks("d");
                        self.place(&cx, &a.0);
                        self.j.ks("r");
                        self.rvalue(&cx, &a.1);
                        self.span(st.source_info.span);
                        self.j.raw("}");
                    }
                    StatementKind::SetDiscriminant { .. } => {
                        self.j.comma();
                        self.j.raw("{\"setdiscr\":1}");
                    }
                    StatementKind::StorageDead(l) => {
                        self.j.comma();
                        self.j.raw(&format!("{{\"sd\":{}}}", l.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        self.j.comma();
                        self.j.raw("{");
                        self.j.kv("intr", &format!("{:?}", i));
                        self.j.raw("}");
                    }
                    _ => {}
                }
            }
            self.j.raw("]");
            self.j.ks("t");
            self.j.raw("{");
            let t = bb.terminator();
            let unwind = |j: &mut J, u: &UnwindAction| {
                if let UnwindAction::Cleanup(b) = u {
                    j.kn("uw", b.as_usize());
                }
            };
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    self.j.kv("k", "goto");
                    self.j.kn("t", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    self.j.kv("k", "switch");
                    self.j.ks("o");
                    self.operand(&cx, discr);
                    let dty = discr.ty(body, tcx);
                    self.j.kv("ty", &tystr(dty));
                    self.j.ks("ts");
                    self.j.raw("[");
                    for (v, b) in targets.iter() {
                        self.j.comma();
                        let val = match dty.kind() {
                            ty::Int(_) => {
                                let size = tcx.layout_of(cx.env.as_query_input(dty)).unwrap().size;
                                format!("{}", size.sign_extend(v))
                            }
                            _ => format!("{}", v),
                        };
                        self.j.raw(&format!("[\"{}\",{}]", val, b.as_usize()));
                    }
                    self.j.raw("]");
                    self.j.kn("else", targets.otherwise().as_usize());
                }
                TerminatorKind::Return => self.j.kv("k", "return"),
                TerminatorKind::Unreachable => self.j.kv("k", "unreachable"),
                TerminatorKind::UnwindResume => self.j.kv("k", "resume"),
                TerminatorKind::UnwindTerminate(_) => self.j.kv("k", "abort"),
                TerminatorKind::Drop { place, target, unwind: u, .. } => {
                    self.j.kv("k", "drop");
                    self.j.ks("pl");
                    self.place(&cx, place);
                    self.j.kv("ty", &tystr(place.ty(body, tcx).ty));
                    self.j.kn("t", target.as_usize());
                    unwind(&mut self.j, u);
                }
                TerminatorKind::Call { func, args, destination, target, unwind: u, fn_span, .. } => {
                    self.j.kv("k", "call");
                    self.j.ks("f");
                    self.operand(&cx, func);
                    self.j.ks("a");
                    self.j.raw("[");
                    for a in args.iter() {
                        self.j.comma();
                        self.operand(&cx, &a.node);
                    }
                    self.j.raw("]");
                    self.j.ks("d");
                    self.place(&cx, destination);
                    self.j.kv("dty", &tystr(destination.ty(body, tcx).ty));
                    if let Some(t) = target {
                        self.j.kn("t", t.as_usize());
                    }
                    unwind(&mut self.j, u);
                    let _ = fn_span;
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind: u } => {
                    self.j.kv("k", "assert");
                    self.j.ks("o");
                    self.operand(&cx, cond);
                    self.j.kn("exp", *expected as u8);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    self.j.kv("m", &m);
                    if let AssertKind::BoundsCheck { len, index } = &**msg {
                        self.j.ks("len");
                        self.operand(&cx, len);
                        self.j.ks("index");
                        self.operand(&cx, index);
                    }
                    self.j.kn("t", target.as_usize());
                    unwind(&mut self.j, u);
                }
                other => {
                    self.j.kv("k", "other");
                    self.j.kv("dbg", &format!("{:?}", other));
                }
            }
            self.span(t.source_info.span);
            self.j.raw("}}");
        }
        self.j.raw("]");
    }

    fn item(&mut self, ldef: LocalDefId) {
        let tcx = self.tcx;
        let def = ldef.to_def_id();
        let kind = tcx.def_kind(def);
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let body: &Body<'tcx> = if isfn {
            tcx.optimized_mir(def)
        } else {
            match kind {
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    tcx.mir_for_ctfe(def)
                }
                _ => return,
            }
        };
        self.j.comma();
        self.j.raw("{");
        self.j.kv("path", &path(tcx, def));
        self.j.kv("kind", &format!("{:?}", kind));
        self.span(tcx.def_span(def));
        self.j.kv("parent", &path(tcx, tcx.parent(def)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).skip_binder();
            self.j.kn("unsafe", (!sig.safety().is_safe()) as u8);
            self.j.kn("pub", tcx.visibility(def).is_public() as u8);
        }
        if let DefKind::AssocFn = kind {
            let ai = tcx.associated_item(def);
            self.j.kv("name", ai.name().as_str());
            if let Some(imp) = tcx.impl_of_assoc(def) {
                self.j.kv("self", &tystr(tcx.type_of(imp).skip_binder()));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    self.j.kv("trait", &path(tcx, tr.skip_binder().def_id));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(def) {
                self.j.kv("intrait", &path(tcx, tr));
            }
        } else if let DefKind::Fn = kind {
            self.j.kv("name", tcx.item_name(def).as_str());
        }
        if let DefKind::Closure = kind {
            self.j.ks("caps");
            self.j.raw("[");
            for c in tcx.closure_captures(ldef) {
                self.j.comma();
                let byref = matches!(c.info.capture_kind, ty::UpvarCapture::ByRef(_));
                let s = c.to_string(tcx);
                self.j.raw("{");
                self.j.kv("n", &s);
                self.j.kn("ref", byref as u8);
                let shared = matches!(c.info.capture_kind, ty::UpvarCapture::ByRef(ty::BorrowKind::Immutable));
                self.j.kn("shared", shared as u8);
                self.j.raw("}");
            }
            self.j.raw("]");
        }
        self.body(def, body);
        if isfn {
            let pr = tcx.promoted_mir(def);
            self.j.ks("promoted");
            self.j.raw("[");
            for p in pr.iter() {
                self.j.comma();
                self.j.raw("{");
                self.body(def, p);
                self.j.raw("}");
            }
            self.j.raw("]");
        }
        self.j.raw("}");
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dumper { tcx, j: J { s: String::new() } };
        d.j.raw("{");
        d.j.kv("crate", tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str());
        // ADTs
        d.j.ks("adts");
        d.j.raw("[");
        for id in tcx.hir_crate_items(()).definitions() {
            let kind = tcx.def_kind(id);
            if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let adt = tcx.adt_def(id);
                d.j.comma();
                d.j.raw("{");
                d.j.kv("path", &path(tcx, id.to_def_id()));
                d.j.kv("kind", &format!("{:?}", kind));
                d.j.kn("drop", adt.has_dtor(tcx) as u8);
                d.j.ks("vars");
                d.j.raw("[");
                for v in adt.variants() {
                    d.j.comma();
                    d.j.raw("{");
                    d.j.kv("n", v.name.as_str());
                    d.j.ks("f");
                    d.j.raw("[");
                    for f in &v.fields {
                        d.j.comma();
                        d.j.raw("[");
                        d.j.str(f.name.as_str());
                        d.j.raw(",");
                        let t = tcx.type_of(f.did).skip_binder();
                        d.j.str(&tystr(t));
                        d.j.raw("]");
                    }
                    d.j.raw("]}");
                }
                d.j.raw("]}");
            }
        }
        d.j.raw("]");
        // trait impls (for class-hierarchy analysis)
        d.j.ks("impls");
        d.j.raw("[");
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { .. } = tcx.def_kind(id) {
                if let Some(tr) = tcx.impl_opt_trait_ref(id.to_def_id()) {
                    let tr = tr.skip_binder();
                    d.j.comma();
                    d.j.raw("{");
                    d.j.kv("trait", &path(tcx, tr.def_id));
                    d.j.kv("self", &tystr(tcx.type_of(id.to_def_id()).skip_binder()));
                    let h = tcx.impl_trait_header(id.to_def_id());
                    d.j.kn("unsafe", (!h.safety.is_safe()) as u8);
                    d.span(tcx.def_span(id.to_def_id()));
                    d.j.ks("items");
                    d.j.raw("{");
                    for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                        if let Some(t) = it.trait_item_def_id() {
                            d.j.comma();
                            d.j.key(&path(tcx, t));
                            let p = path(tcx, it.def_id);
                            d.j.str(&p);
                        }
                    }
                    d.j.raw("}}");
                }
            }
        }
        d.j.raw("]");
        d.j.ks("fns");
        d.j.raw("[");
        for id in tcx.hir_body_owners() {
            d.item(id);
        }
        d.j.raw("]}");
        let _ = std::fs::create_dir_all(&self.out);
        let f = format!("{}/{}.json", self.out, tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str());
        std::fs::write(&f, &d.j.s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("NDMIR_OUT").unwrap_or_else(|_| "/tmp/ndmir".to_string());
    let is_query = args.iter().any(|x| x == "-vV" || x == "--version" || x.starts_with("--print"));
    if is_query {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    args.push("-Zmir-opt-level=0".to_string());
    args.push("-Coverflow-checks=on".to_string());
    args.push("-Cdebug-assertions=on".to_string());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
