// mirdump: a rustc driver that writes the MIR of one crate as JSON.
//
// Used as RUSTC_WRAPPER: argv[1] is the real rustc.  For crates whose manifest
// directory lies under $MIRDUMP_ROOT the crate is compiled in-process (same flags as
// cargo passed) and after analysis every body is written to $MIRDUMP_OUT/<crate>.json.
// Every other crate is handed to the real rustc unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// shared between the bodies of one crate: interned type names and the enums met
#[derive(Default)]
struct Shared<'tcx> {
    types: HashMap<String, usize>,
    order: Vec<String>,
    adts: BTreeMap<String, ty::AdtDef<'tcx>>,
}
struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    sh: &'a RefCell<Shared<'tcx>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        let k = tcx.crate_name(LOCAL_CRATE).to_string();
        // impl paths print as `<T as Tr>::f`: keep them, prefix crate otherwise
        if s.starts_with('<') { s } else { format!("{k}::{s}") }
    } else {
        s
    }
}
// stable identity of a definition: crate name + definition path (no re-export aliases)
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn tys<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(t.to_string()))
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    // index of the type in the crate's type table; also records every ADT the type mentions
    fn ty(&self, t: Ty<'tcx>) -> usize {
        let s = tys(t);
        let mut sh = self.sh.borrow_mut();
        if let Some(i) = sh.types.get(&s) {
            return *i;
        }
        let i = sh.order.len();
        sh.types.insert(s.clone(), i);
        sh.order.push(s);
        for g in t.walk() {
            if let Some(u) = g.as_type() {
                if let ty::Adt(d, _) = u.kind() {
                    sh.adts.insert(path(self.tcx, d.did()), *d);
                }
            }
        }
        i
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "[{},[", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => d.variant(v),
                                None => d.non_enum_variant(),
                            };
                            let nm = self.tcx.item_name(d.did());
                            if matches!(nm.as_str(), "Decimal" | "PreciseDecimal") && v.fields.len() == 1 {
                                "raw".to_string()
                            } else {
                                v.fields[f].name.to_string()
                            }
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{}]", esc(&name));
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.as_u32().to_string(),
                    };
                    let _ = write!(o, "[\"v\",{}]", esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                _ => o.push_str("[\"op\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push_str("]]");
        o
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut o = String::from("[");
        let mut first = true;
        for x in a.iter() {
            if x.as_region().is_some() {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            let s = with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(x.to_string()));
            o.push_str(&esc(&s));
        }
        o.push(']');
        o
    }
    fn fndef(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"fn\":{},\"k\":{},\"a\":{}", esc(&path(tcx, d)), esc(&key(tcx, d)), self.args(a));
        if let Some(assoc) = tcx.opt_associated_item(d) {
            if let Some(tr) = assoc.trait_container(tcx) {
                let _ = write!(o, ",\"tr\":{},\"m\":{}", esc(&path(tcx, tr)), esc(tcx.item_name(d).as_str()));
            }
        }
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"n\":{}", esc(n.as_str()));
        }
        let erased = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, erased) {
            let _ = write!(o, ",\"rk\":{}", esc(&key(tcx, inst.def_id())));
            if let Some(ls) = self.impl_of(inst.def_id()) {
                let _ = write!(o, ",\"impl\":{}", esc(&ls));
            }
        }
        o.push('}');
        o
    }
    // self type of the inherent or trait impl that contains the item
    fn impl_of(&self, d: DefId) -> Option<String> {
        let tcx = self.tcx;
        let p = tcx.opt_parent(d)?;
        if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
            return Some(tys(tcx.type_of(p).instantiate_identity().skip_normalization()));
        }
        None
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = String::from("[\"k\",{");
        let _ = write!(o, "\"ty\":{}", esc(&tys(ty)));
        match ty.kind() {
            ty::FnDef(d, a) => {
                let _ = write!(o, ",\"f\":{}", self.fndef(*d, a.skip_binder()));
            }
            _ => {}
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"pr\":{},\"of\":{}", p.as_u32(), esc(&key(tcx, u.def)));
                } else {
                    let _ = write!(o, ",\"un\":{},\"uk\":{}", esc(&path(tcx, u.def)), esc(&key(tcx, u.def)));
                }
            }
            Const::Val(v, t) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let signed = t.is_signed();
                    let size = s.size();
                    if size.bytes() > 0 {
                        if signed {
                            let _ = write!(o, ",\"i\":\"{}\"", s.to_int(size));
                        } else {
                            let _ = write!(o, ",\"i\":\"{}\"", s.to_uint(size));
                        }
                    }
                } else if let ConstValue::Slice { .. } = v {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let _ = write!(o, ",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                }
                let txt = with_no_trimmed_paths!(format!("{}", c.const_));
                let _ = write!(o, ",\"d\":{}", esc(&txt));
            }
            Const::Ty(_, _) => {
                let txt = with_no_trimmed_paths!(format!("{}", c.const_));
                let _ = write!(o, ",\"d\":{}", esc(&txt));
            }
        }
        o.push_str("}]");
        o
    }
    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{},{}]", self.place(body, p), self.ty(p.ty(body, self.tcx).ty)),
            Operand::Move(p) => format!("[\"m\",{},{}]", self.place(body, p), self.ty(p.ty(body, self.tcx).ty)),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => format!("[\"k\",{{\"ty\":\"bool\",\"i\":\"1\",\"rt\":{}}}]", esc(&format!("{:?}", op))),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(body, op)),
            Rvalue::Repeat(op, n) => format!("[\"rep\",{},{}]", self.operand(body, op), esc(&n.to_string())),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shr",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, op, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(body, op),
                esc(&tys(*t)),
                esc(&tys(op.ty(body, tcx)))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{},{}]",
                b,
                self.operand(body, &ops.0),
                self.operand(body, &ops.1),
                esc(&tys(ops.0.ty(body, tcx)))
            ),
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(body, op)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), esc(&tys(t)))
            }
            Rvalue::Aggregate(k, fs) => {
                let mut o = String::from("[\"agg\",");
                let mut names: Vec<String> = vec![];
                match &**k {
                    AggregateKind::Array(t) => {
                        let _ = write!(o, "{{\"k\":\"array\",\"ty\":{}}}", esc(&tys(*t)));
                    }
                    AggregateKind::Tuple => o.push_str("{\"k\":\"tuple\"}"),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let ad = tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        for f in var.fields.iter() {
                            names.push(f.name.to_string());
                        }
                        let _ = write!(
                            o,
                            "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"e\":{},\"a\":{}}}",
                            esc(&path(tcx, *d)),
                            esc(var.name.as_str()),
                            ad.is_enum(),
                            self.args(a)
                        );
                    }
                    AggregateKind::Closure(d, _) => {
                        let _ = write!(o, "{{\"k\":\"closure\",\"p\":{}}}", esc(&key(tcx, *d)));
                    }
                    _ => o.push_str("{\"k\":\"other\"}"),
                }
                o.push_str(",[");
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&self.operand(body, f));
                }
                o.push_str("],[");
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&esc(n));
                }
                o.push_str("]]");
                o
            }
            Rvalue::CopyForDeref(p) => {
                format!("[\"use\",[\"c\",{},{}]]", self.place(body, p), self.ty(p.ty(body, tcx).ty))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(body, p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}", l.line)
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}", l.file.name.prefer_local_unconditionally())
    }
    fn body(&self, name: &str, kind: &str, def: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"p\":{},\"k\":{},\"kind\":\"{}\",\"n\":{},\"file\":{},\"line\":{},\"exp\":{}",
            esc(name),
            esc(&format!("{}{}", key(tcx, def), name.rfind('#').map(|i| &name[i..]).filter(|_| kind == "promoted").unwrap_or(""))),
            kind,
            body.arg_count,
            esc(&self.file(body.span)),
            self.line(body.span),
            body.span.from_expansion()
        );
        if let Some(i) = self.impl_of(def) {
            let _ = write!(o, ",\"impl\":{}", esc(&i));
            let p = tcx.parent(def);
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_normalization();
                let _ = write!(o, ",\"tr\":{}", esc(&path(tcx, tr.def_id)));
            }
        }
        if let Some(nm) = tcx.opt_item_name(def) {
            let _ = write!(o, ",\"name\":{}", esc(nm.as_str()));
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(def).is_public());
        }
        o.push_str(",\"locals\":[");
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}", self.ty(d.ty));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_u32(), esc(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (i, b) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            if b.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in b.statements.iter() {
                let t = match &s.kind {
                    StatementKind::Assign(x) => format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &x.0),
                        self.rvalue(body, &x.1),
                        self.line(s.source_info.span)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, tcx).ty;
                        let v = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_u32().to_string(),
                        };
                        format!("[\"setd\",{},{}]", self.place(body, place), esc(&v))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut o = format!("[\"switch\",{},[", self.operand(body, discr));
                    for (i, (v, b)) in targets.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let _ = write!(o, "[\"{}\",{}]", v, b.as_u32());
                    }
                    let _ = write!(
                        o,
                        "],{},{},{}]",
                        targets.otherwise().as_u32(),
                        esc(&tys(discr.ty(body, tcx))),
                        ln
                    );
                    o
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut o = String::from("[\"call\",");
                    match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => o.push_str(&self.fndef(*d, a.skip_binder())),
                            _ => {
                                let _ = write!(o, "{{\"dyn\":{}}}", self.operand(body, func));
                            }
                        },
                        _ => {
                            let _ = write!(o, "{{\"dyn\":{}}}", self.operand(body, func));
                        }
                    }
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        o.push_str(&self.operand(body, &a.node));
                    }
                    let _ = write!(
                        o,
                        "],{},{},{}]",
                        self.place(body, destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        ln
                    );
                    o
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "[\"assert\",{},{},{},{},{}]",
                    self.operand(body, cond),
                    expected,
                    target.as_u32(),
                    esc(&format!("{:?}", msg)),
                    ln
                ),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            o.push_str(&s);
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

fn skip_trait(p: &str) -> bool {
    let last = p.rsplit("::").next().unwrap_or("");
    p.starts_with("sbor::")
        || p.contains("::sbor::")
        || p.contains("::fmt::Debug")
        || matches!(last, "Describe" | "Encode" | "Decode" | "Categorize")
        || last.starts_with("Sbor")
        || last.starts_with("NonFungibleData")
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"bodies\":[\n", esc(&krate));
    let mut first = true;
    let mut skipped = 0usize;
    let sh = RefCell::new(Shared::default());
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        // derive-generated encoders of data types (sbor) and Debug printers are left out
        let mut p = d;
        let mut skip = false;
        while let Some(q) = tcx.opt_parent(p) {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(q) {
                let tr = tcx.impl_trait_ref(q).instantiate_identity().skip_normalization();
                if skip_trait(&path(tcx, tr.def_id)) {
                    skip = true;
                }
            }
            p = q;
        }
        if skip {
            skipped += 1;
            continue;
        }
        let name = path(tcx, d);
        let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d), sh: &sh };
        let mut emit = |s: String| {
            if !first {
                o.push_str(",\n");
            }
            first = false;
            o.push_str(&s);
        };
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let b = tcx.optimized_mir(d);
                emit(cx.body(&name, if kind == DefKind::Closure { "closure" } else { "fn" }, d, b));
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let b = tcx.mir_for_ctfe(d);
                emit(cx.body(&name, "const", d, b));
            }
            DefKind::Ctor(..) => {}
            _ => {
                let b = tcx.mir_for_ctfe(d);
                emit(cx.body(&name, "inline_const", d, b));
            }
        }
        if !matches!(kind, DefKind::Ctor(..)) {
            for (i, b) in tcx.promoted_mir(d).iter_enumerated() {
                emit(cx.body(&format!("{}#{}", name, i.as_u32()), "promoted", d, b));
            }
        }
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let ad = tcx.adt_def(d);
            sh.borrow_mut().adts.insert(path(tcx, d), ad);
        }
    }
    o.push_str("\n],\"adts\":[\n");
    let mut first = true;
    for (name, ad) in sh.borrow().adts.iter() {
        if !ad.is_enum() && !ad.did().is_local() {
            continue;
        }
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let _ = write!(o, "{{\"p\":{},\"enum\":{},\"variants\":[", esc(name), ad.is_enum());
        for (i, (vi, v)) in ad.variants().iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let discr = if ad.is_enum() { ad.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
            let _ = write!(o, "{{\"n\":{},\"d\":\"{}\",\"f\":[", esc(v.name.as_str()), discr);
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                let _ = write!(o, "[{},{},{}]", esc(f.name.as_str()), esc(&tys(t)), f.vis.is_public());
            }
            o.push_str("]}");
        }
        o.push_str("]}");
    }
    o.push_str("\n],\"types\":[\n");
    for (i, t) in sh.borrow().order.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(&esc(t));
    }
    let _ = write!(o, "\n],\"skipped\":{}}}\n", skipped);
    std::fs::create_dir_all(out).unwrap();
    let tmp = format!("{out}/.{krate}.tmp");
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, format!("{out}/{krate}.json")).unwrap();
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.debug_assertions = false;
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("MIRDUMP_ROOT").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_default();
    let mut name = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
    }
    let ours = !root.is_empty()
        && (dir == root || dir.starts_with(&format!("{root}/")))
        && !name.is_empty()
        && name != "build_script_build"
        && !name.starts_with("___");
    if !ours {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
        eprintln!("mirdump: cannot exec {}: {e}", args[1]);
        std::process::exit(1);
    }
    let rargs: Vec<String> = args[1..].to_vec();
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&rargs, &mut Cb { out });
    })
}
