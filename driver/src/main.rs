// Fact extractor: a rustc driver that type-checks the crate exactly as cargo would and dumps
// every function's MIR (opt-level 0), resolved callees, evaluated constants and ADT
// definitions as JSON. It executes nothing of the analysed crate.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;
use std::io::Write as _;

struct J {
    s: String,
}
impl J {
    fn new() -> Self {
        J { s: String::with_capacity(1 << 20) }
    }
    fn str(&mut self, v: &str) {
        self.s.push('"');
        for c in v.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                '\n' => self.s.push_str("\\n"),
                '\r' => self.s.push_str("\\r"),
                '\t' => self.s.push_str("\\t"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.s, "\\u{:04x}", c as u32);
                }
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    fn raw(&mut self, v: &str) {
        self.s.push_str(v);
    }
    fn k(&mut self, k: &str) {
        self.str(k);
        self.s.push(':');
    }
    fn ks(&mut self, k: &str, v: &str) {
        self.k(k);
        self.str(v);
    }
    fn kn(&mut self, k: &str, v: impl std::fmt::Display) {
        self.k(k);
        let _ = write!(self.s, "{}", v);
    }
    fn c(&mut self) {
        self.s.push(',');
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn tystr(ty: Ty<'_>) -> String {
    with_no_trimmed_paths!(ty.to_string())
}

fn span_fl(tcx: TyCtxt<'_>, sp: Span) -> (String, usize) {
    // Outermost expansion site: macro-generated code is reported where the macro is used.
    let sp0 = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp0.lo());
    (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    j: J,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        // unique key of a definition
        if d.is_local() {
            format!("L{}", d.index.as_usize())
        } else {
            format!("X{}_{}", d.krate.as_usize(), d.index.as_usize())
        }
    }

    fn adt_field(&self, pty: PlaceTy<'tcx>, f: FieldIdx) -> (String, String, String) {
        // (owner path, variant, field name)
        match pty.ty.kind() {
            ty::Adt(def, _) => {
                let v = pty.variant_index.unwrap_or(VariantIdx::from_usize(0));
                if v.as_usize() < def.variants().len() {
                    let var = &def.variants()[v];
                    let name = var
                        .fields
                        .get(f)
                        .map(|x| x.name.to_string())
                        .unwrap_or_else(|| format!("{}", f.as_usize()));
                    let vn = if def.is_enum() { var.name.to_string() } else { String::new() };
                    return (path(self.tcx, def.did()), vn, name);
                }
                (path(self.tcx, def.did()), String::new(), format!("{}", f.as_usize()))
            }
            ty::Tuple(_) => ("(tuple)".into(), String::new(), format!("{}", f.as_usize())),
            ty::Closure(d, _) => {
                (format!("(closure){}", self.id(*d)), String::new(), format!("{}", f.as_usize()))
            }
            _ => ("?".into(), String::new(), format!("{}", f.as_usize())),
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) {
        let tcx = self.tcx;
        self.j.raw("[");
        let _ = write!(self.j.s, "{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            self.j.c();
            match e {
                ProjectionElem::Deref => self.j.raw("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let (o, v, n) = self.adt_field(pty, f);
                    self.j.raw("[\".\",");
                    self.j.str(&o);
                    self.j.c();
                    self.j.str(&v);
                    self.j.c();
                    self.j.str(&n);
                    self.j.raw("]");
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(self.j.s, "[\"[]\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(
                        self.j.s,
                        "[\"ci\",{},{},{}]",
                        offset, min_length, from_end as u8
                    );
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(self.j.s, "[\"ss\",{},{},{}]", from, to, from_end as u8);
                }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pty.ty.kind() {
                        ty::Adt(def, _) if v.as_usize() < def.variants().len() => {
                            def.variants()[v].name.to_string()
                        }
                        _ => format!("{}", v.as_usize()),
                    };
                    self.j.raw("[\"as\",");
                    self.j.str(&n);
                    self.j.raw("]");
                }
                _ => self.j.raw("[\"?\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        self.j.raw("]");
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = AllocRange { start: Size::from_bytes(off), size: Size::from_bytes(len) };
                if off + len > a.size().bytes() {
                    return None;
                }
                a.get_bytes_strip_provenance(&self.tcx, r).ok().map(|b| b.to_vec())
            }
            _ => None,
        }
    }

    fn mem_ptr(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: u64,
    ) -> Option<(rustc_middle::mir::interpret::AllocId, u64)> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = AllocRange { start: Size::from_bytes(off), size: Size::from_bytes(8) };
                if off + 8 > a.size().bytes() {
                    return None;
                }
                let s = a.read_scalar(&self.tcx, r, true).ok()?;
                match s {
                    Scalar::Ptr(p, _) => {
                        let (prov, o) = p.into_raw_parts();
                        Some((prov.alloc_id(), o.bytes()))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Decode a value of type `ty` stored at alloc+off, as JSON. Returns false when unknown.
    fn mem_val(
        &mut self,
        ty: Ty<'tcx>,
        id: rustc_middle::mir::interpret::AllocId,
        off: u64,
        depth: usize,
    ) -> bool {
        if depth > 8 {
            self.j.raw("null");
            return false;
        }
        let tcx = self.tcx;
        match ty.kind() {
            ty::Ref(_, inner, _) => {
                let Some((tid, toff)) = self.mem_ptr(id, off) else {
                    self.j.raw("null");
                    return false;
                };
                match inner.kind() {
                    ty::Str => {
                        if let Some(l) = self.alloc_bytes(id, off + 8, 8) {
                            let l = u64::from_le_bytes(l.try_into().unwrap());
                            if let Some(b) = self.alloc_bytes(tid, toff, l) {
                                let s = String::from_utf8_lossy(&b).to_string();
                                self.j.raw("{\"s\":");
                                self.j.str(&s);
                                self.j.raw("}");
                                return true;
                            }
                        }
                        self.j.raw("null");
                        false
                    }
                    ty::Slice(el) => {
                        let Some(l) = self.alloc_bytes(id, off + 8, 8) else {
                            self.j.raw("null");
                            return false;
                        };
                        let l = u64::from_le_bytes(l.try_into().unwrap());
                        self.mem_arr(*el, tid, toff, l, depth + 1)
                    }
                    _ => self.mem_val(*inner, tid, toff, depth + 1),
                }
            }
            ty::Array(el, n) => {
                if let Some(n) = n.try_to_target_usize(tcx) {
                    return self.mem_arr(*el, id, off, n, depth + 1);
                }
                self.j.raw("null");
                false
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sz = match self.size_of(ty) {
                    Some(s) => s,
                    None => {
                        self.j.raw("null");
                        return false;
                    }
                };
                if let Some(b) = self.alloc_bytes(id, off, sz) {
                    let mut v: u128 = 0;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    self.int_val(ty, v, sz);
                    return true;
                }
                self.j.raw("null");
                false
            }
            ty::Tuple(tys) => {
                let Ok(layout) =
                    tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty))
                else {
                    self.j.raw("null");
                    return false;
                };
                self.j.raw("{\"t\":[");
                for (i, t) in tys.iter().enumerate() {
                    if i > 0 {
                        self.j.c();
                    }
                    let o = layout.fields.offset(i).bytes();
                    self.mem_val(t, id, off + o, depth + 1);
                }
                self.j.raw("]}");
                true
            }
            ty::Adt(def, args) if def.is_struct() => {
                let Ok(layout) =
                    tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty))
                else {
                    self.j.raw("null");
                    return false;
                };
                let p = path(tcx, def.did());
                self.j.raw("{\"adt\":");
                self.j.str(&p);
                self.j.raw(",\"f\":{");
                let fs: Vec<_> = def.non_enum_variant().fields.iter().collect();
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 {
                        self.j.c();
                    }
                    self.j.k(f.name.as_str());
                    let fty = f.ty(tcx, args).skip_norm_wip();
                    let o = layout.fields.offset(i).bytes();
                    self.mem_val(fty, id, off + o, depth + 1);
                }
                self.j.raw("}}");
                true
            }
            ty::Adt(def, _) if def.is_enum() => {
                // field-less enums only
                let all_unit = def.variants().iter().all(|v| v.fields.is_empty());
                if all_unit {
                    if let Some(sz) = self.size_of(ty) {
                        if sz == 0 {
                            let p = path(tcx, def.did());
                            let v = def.variants()[VariantIdx::from_usize(0)].name.to_string();
                            self.enum_val(&p, &v);
                            return true;
                        }
                        if let Some(b) = self.alloc_bytes(id, off, sz) {
                            let mut v: u128 = 0;
                            for (i, x) in b.iter().enumerate() {
                                v |= (*x as u128) << (8 * i);
                            }
                            return self.enum_discr(ty, v, sz);
                        }
                    }
                }
                self.j.raw("null");
                false
            }
            _ => {
                self.j.raw("null");
                false
            }
        }
    }

    fn enum_val(&mut self, p: &str, v: &str) {
        self.j.raw("{\"e\":");
        self.j.str(p);
        self.j.raw(",\"v\":");
        self.j.str(v);
        self.j.raw("}");
    }

    fn enum_discr(&mut self, ty: Ty<'tcx>, v: u128, sz: u64) -> bool {
        let tcx = self.tcx;
        if let ty::Adt(def, _) = ty.kind() {
            let mask = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
            for (vi, d) in def.discriminants(tcx) {
                if d.val & mask == v & mask {
                    let p = path(tcx, def.did());
                    let n = def.variants()[vi].name.to_string();
                    self.enum_val(&p, &n);
                    return true;
                }
            }
        }
        self.j.raw("null");
        false
    }

    fn size_of(&self, ty: Ty<'tcx>) -> Option<u64> {
        self.tcx
            .layout_of(TypingEnv::fully_monomorphized().as_query_input(ty))
            .ok()
            .map(|l| l.size.bytes())
    }

    fn mem_arr(
        &mut self,
        el: Ty<'tcx>,
        id: rustc_middle::mir::interpret::AllocId,
        off: u64,
        n: u64,
        depth: usize,
    ) -> bool {
        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
            if let Some(b) = self.alloc_bytes(id, off, n) {
                self.bytes_val(&b);
                return true;
            }
            self.j.raw("null");
            return false;
        }
        let Some(sz) = self.size_of(el) else {
            self.j.raw("null");
            return false;
        };
        self.j.raw("{\"a\":[");
        for i in 0..n {
            if i > 0 {
                self.j.c();
            }
            self.mem_val(el, id, off + i * sz, depth + 1);
        }
        self.j.raw("]}");
        true
    }

    fn bytes_val(&mut self, b: &[u8]) {
        // latin-1 mapping keeps every byte exact
        let s: String = b.iter().map(|c| *c as char).collect();
        self.j.raw("{\"b\":");
        self.j.str(&s);
        self.j.raw("}");
    }

    fn int_val(&mut self, ty: Ty<'tcx>, v: u128, sz: u64) {
        match ty.kind() {
            ty::Bool => {
                let _ = write!(self.j.s, "{{\"bool\":{}}}", v != 0);
            }
            ty::Char => {
                let c = char::from_u32(v as u32).unwrap_or('\u{fffd}');
                self.j.raw("{\"c\":");
                self.j.str(&c.to_string());
                self.j.raw("}");
            }
            ty::Int(_) => {
                let bits = 8 * sz;
                let sv = if bits >= 128 {
                    v as i128
                } else {
                    ((v << (128 - bits)) as i128) >> (128 - bits)
                };
                let _ = write!(self.j.s, "{{\"i\":{}}}", sv);
            }
            ty::Float(_) => {
                let f = if sz == 8 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                self.j.raw("{\"f\":");
                self.j.str(&format!("{:?}", f));
                self.j.raw("}");
            }
            _ => {
                let _ = write!(self.j.s, "{{\"i\":{}}}", v);
            }
        }
    }

    fn fn_ref(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>, tenv: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        self.j.raw("{\"fn\":");
        let p = path(tcx, def);
        self.j.str(&p);
        self.j.raw(",\"id\":");
        let i = self.id(def);
        self.j.str(&i);
        self.j.raw(",\"g\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    self.j.c();
                }
                first = false;
                self.j.str(&tystr(t));
            }
        }
        self.j.raw("]");
        // closures in generic args: the analysis needs them for higher-order calls
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                for w in t.walk() {
                    if let Some(wt) = w.as_type() {
                        match wt.kind() {
                            ty::Closure(d, _) => cl.push(*d),
                            ty::FnDef(d, _) => cl.push(*d),
                            _ => {}
                        }
                    }
                }
            }
        }
        if !cl.is_empty() {
            self.j.raw(",\"cl\":[");
            for (n, d) in cl.iter().enumerate() {
                if n > 0 {
                    self.j.c();
                }
                let i = self.id(*d);
                self.j.str(&i);
            }
            self.j.raw("]");
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, tenv, def, args2) {
                let rd = inst.def_id();
                self.j.raw(",\"r\":");
                let rp = path(tcx, rd);
                self.j.str(&rp);
                self.j.raw(",\"rid\":");
                let ri = self.id(rd);
                self.j.str(&ri);
                match inst.def {
                    ty::InstanceKind::Virtual(..) => self.j.raw(",\"virt\":1"),
                    _ => {}
                }
            }
            if let Some(t) = tcx.trait_of_assoc(def) {
                self.j.raw(",\"tr\":");
                let tp = path(tcx, t);
                self.j.str(&tp);
            }
        } else if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            self.j.raw(",\"ctor\":1");
            let parent = tcx.parent(def);
            // variant ctor -> parent is variant; struct ctor -> parent is struct
            self.j.raw(",\"of\":");
            let pp = path(tcx, parent);
            self.j.str(&pp);
        }
        self.j.raw("}");
    }

    fn constant(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>, tenv: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let _ = body;
        let ty = c.const_.ty();
        self.j.raw("{\"ty\":");
        self.j.str(&tystr(ty));
        if let ty::FnDef(d, args) = ty.kind() {
            self.j.raw(",\"f\":");
            let args = args.skip_binder();
            self.fn_ref(*d, args, tenv);
            self.j.raw("}");
            return;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            self.j.raw(",\"def\":");
            let p = path(tcx, u.def);
            self.j.str(&p);
            if let Some(pr) = u.promoted {
                let _ = write!(self.j.s, ",\"prom\":{}", pr.as_usize());
            }
        }
        // a promoted constant of a generic body: `&CONST` where CONST itself is not generic
        if let Const::Unevaluated(u, _) = c.const_ {
            use rustc_middle::ty::TypeVisitableExt;
            if let Some(pr) = u.promoted {
                if c.const_.has_non_region_param() {
                    if let Some(inner) = promoted_const(tcx, u.def, pr) {
                        if !inner.const_.has_non_region_param() {
                            self.j.raw(",\"inner\":");
                            self.constant(body, &inner, tenv);
                            self.j.raw("}");
                            return;
                        }
                    }
                }
            }
        }
        // Anything still generic cannot be evaluated.
        let is_generic = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_non_region_param()
        };
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                if let Some((p, v)) = promoted_unit_variant(tcx, u.def, pr) {
                    self.j.raw(",\"v\":");
                    self.enum_val(&p, &v);
                    self.j.raw("}");
                    return;
                }
            }
        }
        if !is_generic {
            if let Ok(v) = c.const_.eval(tcx, tenv, c.span) {
                self.j.raw(",\"v\":");
                match v {
                    ConstValue::ZeroSized => self.j.raw("{\"z\":1}"),
                    ConstValue::Slice { alloc_id, meta } => {
                        let inner = match ty.kind() {
                            ty::Ref(_, i, _) => Some(*i),
                            _ => None,
                        };
                        match inner.map(|i| i.kind().clone()) {
                            Some(ty::Str) => {
                                let b = self.alloc_bytes(alloc_id, 0, meta).unwrap_or_default();
                                let s = String::from_utf8_lossy(&b).to_string();
                                self.j.raw("{\"s\":");
                                self.j.str(&s);
                                self.j.raw("}");
                            }
                            Some(ty::Slice(el)) => {
                                self.mem_arr(el, alloc_id, 0, meta, 0);
                            }
                            _ => self.j.raw("null"),
                        }
                    }
                    ConstValue::Scalar(s) => match s {
                        Scalar::Int(i) => {
                            let sz = i.size().bytes();
                            let bits = i.to_bits_unchecked();
                            match ty.kind() {
                                ty::Adt(def, _) if def.is_enum() => {
                                    self.enum_discr(ty, bits, sz);
                                }
                                ty::Adt(..) => {
                                    let _ = write!(self.j.s, "{{\"raw\":{}}}", bits);
                                }
                                _ => self.int_val(ty, bits, sz),
                            }
                        }
                        Scalar::Ptr(p, _) => {
                            let (prov, off) = p.into_raw_parts();
                            let id = prov.alloc_id();
                            match ty.kind() {
                                ty::Ref(_, inner, _) => {
                                    self.mem_val(*inner, id, off.bytes(), 0);
                                }
                                _ => self.j.raw("null"),
                            }
                        }
                    },
                    ConstValue::Indirect { alloc_id, offset } => {
                        self.mem_val(ty, alloc_id, offset.bytes(), 0);
                    }
                }
            }
        }
        self.j.raw("}");
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, tenv: TypingEnv<'tcx>) {
        match o {
            Operand::Copy(p) => {
                self.j.raw("[\"c\",");
                self.place(body, p);
                self.j.raw("]");
            }
            Operand::Move(p) => {
                self.j.raw("[\"m\",");
                self.place(body, p);
                self.j.raw("]");
            }
            Operand::Constant(c) => {
                self.j.raw("[\"k\",");
                self.constant(body, c, tenv);
                self.j.raw("]");
            }
            _ => self.j.raw("[\"rt\"]"),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, tenv: TypingEnv<'tcx>) {
        match r {
            Rvalue::Use(o, _) => {
                self.j.raw("[\"use\",");
                self.operand(body, o, tenv);
                self.j.raw("]");
            }
            Rvalue::Repeat(o, n) => {
                self.j.raw("[\"rep\",");
                self.operand(body, o, tenv);
                self.j.c();
                self.j.str(&format!("{}", n));
                self.j.raw("]");
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                self.j.raw(if m { "[\"refm\"," } else { "[\"ref\"," });
                self.place(body, p);
                self.j.raw("]");
            }
            Rvalue::RawPtr(_, p) => {
                self.j.raw("[\"refm\",");
                self.place(body, p);
                self.j.raw("]");
            }
            Rvalue::Reborrow(_, _, p) => {
                self.j.raw("[\"ref\",");
                self.place(body, p);
                self.j.raw("]");
            }
            Rvalue::Cast(k, o, t) => {
                self.j.raw("[\"cast\",");
                self.j.str(&format!("{:?}", k));
                self.j.c();
                self.operand(body, o, tenv);
                self.j.c();
                self.j.str(&tystr(*t));
                self.j.raw("]");
            }
            Rvalue::BinaryOp(op, b) => {
                self.j.raw("[\"bin\",");
                self.j.str(&format!("{:?}", op));
                self.j.c();
                self.operand(body, &b.0, tenv);
                self.j.c();
                self.operand(body, &b.1, tenv);
                self.j.raw("]");
            }
            Rvalue::UnaryOp(op, o) => {
                self.j.raw("[\"un\",");
                self.j.str(&format!("{:?}", op));
                self.j.c();
                self.operand(body, o, tenv);
                self.j.raw("]");
            }
            Rvalue::Discriminant(p) => {
                self.j.raw("[\"discr\",");
                self.place(body, p);
                self.j.raw("]");
            }
            Rvalue::Aggregate(k, ops) => {
                self.j.raw("[\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => self.j.raw("[\"array\"]"),
                    AggregateKind::Tuple => self.j.raw("[\"tuple\"]"),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let var = &def.variants()[*v];
                        let p = path(self.tcx, *d);
                        self.j.raw("[\"adt\",");
                        self.j.str(&p);
                        self.j.c();
                        let vn = if def.is_enum() { var.name.to_string() } else { String::new() };
                        self.j.str(&vn);
                        self.j.raw(",[");
                        if let Some(f) = af {
                            let n = var.fields[*f].name.to_string();
                            self.j.str(&n);
                        } else {
                            for (i, f) in var.fields.iter().enumerate() {
                                if i > 0 {
                                    self.j.c();
                                }
                                self.j.str(f.name.as_str());
                            }
                        }
                        self.j.raw("]]");
                    }
                    AggregateKind::Closure(d, _) => {
                        let i = self.id(*d);
                        self.j.raw("[\"closure\",");
                        self.j.str(&i);
                        self.j.raw("]");
                    }
                    _ => self.j.raw("[\"other\"]"),
                }
                self.j.raw(",[");
                for (i, o) in ops.iter().enumerate() {
                    if i > 0 {
                        self.j.c();
                    }
                    self.operand(body, o, tenv);
                }
                self.j.raw("]]");
            }
            Rvalue::CopyForDeref(p) => {
                self.j.raw("[\"use\",[\"c\",");
                self.place(body, p);
                self.j.raw("]]");
            }
            _ => self.j.raw("[\"other\"]"),
        }
    }

    fn body(&mut self, key: &str, body: &Body<'tcx>, tenv: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let _ = key;
        self.j.raw("\"argc\":");
        let _ = write!(self.j.s, "{}", body.arg_count);
        // user variable names
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        self.j.raw(",\"locals\":[");
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                self.j.c();
            }
            self.j.raw("[");
            self.j.str(&tystr(d.ty));
            if let Some(n) = &names[i] {
                self.j.c();
                self.j.str(n);
            }
            self.j.raw("]");
        }
        self.j.raw("],\"bbs\":[");
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                self.j.c();
            }
            self.j.raw("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        if !first {
                            self.j.c();
                        }
                        first = false;
                        let (_, l) = span_fl(tcx, st.source_info.span);
                        self.j.raw("[\"=\",");
                        self.place(body, &b.0);
                        self.j.c();
                        self.rvalue(body, &b.1, tenv);
                        let _ = write!(self.j.s, ",{}]", l);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        if !first {
                            self.j.c();
                        }
                        first = false;
                        self.j.raw("[\"sd\",");
                        self.place(body, place);
                        let _ = write!(self.j.s, ",{}]", variant_index.as_usize());
                    }
                    StatementKind::StorageDead(l) => {
                        if !first {
                            self.j.c();
                        }
                        first = false;
                        let _ = write!(self.j.s, "[\"dead\",{}]", l.as_usize());
                    }
                    _ => {}
                }
            }
            self.j.raw("],");
            if bb.is_cleanup {
                self.j.raw("\"cl\":1,");
            }
            self.j.raw("\"t\":");
            let t = bb.terminator();
            let (_, l) = span_fl(tcx, t.source_info.span);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(self.j.s, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    self.j.raw("[\"sw\",");
                    self.operand(body, discr, tenv);
                    self.j.raw(",[");
                    for (n, (v, b)) in targets.iter().enumerate() {
                        if n > 0 {
                            self.j.c();
                        }
                        let _ = write!(self.j.s, "[{},{}]", v, b.as_usize());
                    }
                    let _ = write!(self.j.s, "],{},{}]", targets.otherwise().as_usize(), l);
                }
                TerminatorKind::Return => self.j.raw("[\"ret\"]"),
                TerminatorKind::Unreachable => self.j.raw("[\"unr\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    self.j.raw("[\"drop\",");
                    self.place(body, place);
                    let _ = write!(self.j.s, ",{}]", target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    self.j.raw("[\"call\",");
                    match func {
                        Operand::Constant(c) => {
                            if let ty::FnDef(d, ga) = c.const_.ty().kind() {
                                let ga = ga.skip_binder();
                                self.fn_ref(*d, ga, tenv);
                            } else {
                                self.j.raw("null");
                            }
                        }
                        o => {
                            self.j.raw("{\"ind\":");
                            self.operand(body, o, tenv);
                            self.j.raw("}");
                        }
                    }
                    self.j.raw(",[");
                    for (n, a) in args.iter().enumerate() {
                        if n > 0 {
                            self.j.c();
                        }
                        self.operand(body, &a.node, tenv);
                    }
                    self.j.raw("],");
                    self.place(body, destination);
                    match target {
                        Some(b) => {
                            let _ = write!(self.j.s, ",{},{}]", b.as_usize(), l);
                        }
                        None => {
                            let _ = write!(self.j.s, ",null,{}]", l);
                        }
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    self.j.raw("[\"assert\",");
                    self.operand(body, cond, tenv);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let _ = write!(
                        self.j.s,
                        ",{},\"{}\",{},{}]",
                        *expected as u8,
                        kind,
                        target.as_usize(),
                        l
                    );
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(self.j.s, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(self.j.s, "[\"goto\",{}]", real_target.as_usize());
                }
                _ => self.j.raw("[\"end\"]"),
            }
            self.j.raw("}");
        }
        self.j.raw("]");
    }

    fn func(&mut self, ld: LocalDefId) {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let (body, tenv): (&Body<'tcx>, TypingEnv<'tcx>) = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                (tcx.optimized_mir(d), TypingEnv::post_analysis(tcx, d))
            }
            _ => return,
        };
        let key = self.id(d);
        self.j.raw("{");
        self.j.ks("id", &key);
        self.j.c();
        let p = path(tcx, d);
        self.j.ks("path", &p);
        self.j.c();
        self.j.ks("kind", &format!("{:?}", kind));
        self.j.c();
        let (f, l) = span_fl(tcx, tcx.def_span(d));
        self.j.ks("file", &f);
        self.j.c();
        self.j.kn("line", l);
        self.j.c();
        let vis = match kind {
            DefKind::Closure => "closure".to_string(),
            _ => {
                let v = tcx.visibility(d);
                if v.is_public() {
                    "pub".into()
                } else {
                    "priv".into()
                }
            }
        };
        self.j.ks("vis", &vis);
        self.j.c();
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            self.j.k("sig");
            self.j.raw("[");
            for (i, t) in sig.inputs_and_output.iter().enumerate() {
                if i > 0 {
                    self.j.c();
                }
                self.j.str(&tystr(t));
            }
            self.j.raw("],");
        }
        if kind == DefKind::Closure {
            let par = tcx.typeck_root_def_id(d);
            let pi = self.id(par);
            self.j.ks("root", &pi);
            self.j.c();
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
            self.j.ks("self", &st);
            self.j.c();
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                self.j.ks("trait", &with_no_trimmed_paths!(tr.print_only_trait_path().to_string()));
                self.j.c();
                self.j.ks("traitid", &path(tcx, tr.def_id));
                self.j.c();
            }
            // derive-generated?
            if tcx.is_automatically_derived(imp) {
                self.j.raw("\"derived\":1,");
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            self.j.ks("deftrait", &path(tcx, tr));
            self.j.c();
        }
        self.j.ks("name", tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str());
        self.j.c();
        self.body(&key, body, tenv);
        self.j.raw("}\n");
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(out) = self.out.clone() else { return Compilation::Continue };
        let mut cx = Cx { tcx, j: J::new() };
        // ADTs
        let mut w = std::io::BufWriter::new(std::fs::File::create(&out).expect("facts file"));
        cx.j.raw("{\"adts\":{");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                if !first {
                    cx.j.c();
                }
                first = false;
                let def = tcx.adt_def(d);
                let p = path(tcx, d);
                cx.j.k(&p);
                cx.j.raw("{");
                cx.j.ks("kind", if def.is_enum() { "enum" } else { "struct" });
                cx.j.c();
                let (f, l) = span_fl(tcx, tcx.def_span(d));
                cx.j.ks("file", &f);
                cx.j.c();
                cx.j.kn("line", l);
                cx.j.c();
                cx.j.k("variants");
                cx.j.raw("[");
                let discrs: Vec<(VariantIdx, u128)> = if def.is_enum() {
                    def.discriminants(tcx).map(|(v, d)| (v, d.val)).collect()
                } else {
                    vec![]
                };
                for (i, v) in def.variants().iter().enumerate() {
                    if i > 0 {
                        cx.j.c();
                    }
                    cx.j.raw("{");
                    cx.j.ks("name", v.name.as_str());
                    if let Some((_, dv)) = discrs.get(i) {
                        cx.j.c();
                        cx.j.kn("discr", dv);
                    }
                    cx.j.c();
                    cx.j.k("fields");
                    cx.j.raw("[");
                    for (k, f) in v.fields.iter().enumerate() {
                        if k > 0 {
                            cx.j.c();
                        }
                        let t = tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                        cx.j.raw("[");
                        cx.j.str(f.name.as_str());
                        cx.j.c();
                        cx.j.str(&t);
                        cx.j.c();
                        cx.j.raw(if tcx.visibility(f.did).is_public() { "1" } else { "0" });
                        cx.j.raw("]");
                    }
                    cx.j.raw("]}");
                }
                cx.j.raw("]}");
            }
        }
        cx.j.raw("},\"xenums\":{");
        // enums of other crates that are matched on
        let mut seen: std::collections::BTreeMap<String, Vec<(u128, String)>> = Default::default();
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let body = tcx.optimized_mir(d);
            for bb in body.basic_blocks.iter() {
                for st in &bb.statements {
                    if let StatementKind::Assign(b) = &st.kind {
                        if let Rvalue::Discriminant(p) = &b.1 {
                            if let ty::Adt(def, _) = p.ty(&body.local_decls, tcx).ty.kind() {
                                if def.is_enum() && !def.did().is_local() {
                                    seen.entry(path(tcx, def.did())).or_insert_with(|| {
                                        def.discriminants(tcx)
                                            .map(|(v, d)| (d.val, def.variant(v).name.to_string()))
                                            .collect()
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        for (i, (p, vs)) in seen.iter().enumerate() {
            if i > 0 {
                cx.j.c();
            }
            cx.j.k(p);
            cx.j.raw("{");
            for (k, (d, n)) in vs.iter().enumerate() {
                if k > 0 {
                    cx.j.c();
                }
                cx.j.ks(&d.to_string(), n);
            }
            cx.j.raw("}");
        }
        cx.j.raw("}}\n");
        for ld in tcx.mir_keys(()).iter() {
            cx.func(*ld);
            if cx.j.s.len() > (1 << 22) {
                w.write_all(cx.j.s.as_bytes()).expect("write");
                cx.j.s.clear();
            }
        }
        w.write_all(cx.j.s.as_bytes()).expect("write");
        w.flush().expect("flush");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("ODSFACTS_CRATE").unwrap_or_default();
    let out = if crate_name == want && !is_test { std::env::var("ODSFACTS_OUT").ok() } else { None };
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    });
    std::process::exit(if format!("{:?}", code).contains("SUCCESS") || format!("{:?}", code).contains("(0)") { 0 } else { 1 });
}

/// `&Enum::Unit` promoted out of a (possibly generic) body: read the promoted MIR instead of evaluating it.
fn promoted_unit_variant<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: rustc_hir::def_id::DefId,
    pr: rustc_middle::mir::Promoted,
) -> Option<(String, String)> {
    if !def.is_local() {
        return None;
    }
    let bodies = tcx.promoted_mir(def);
    let body = bodies.get(pr)?;
    let mut found = None;
    for bb in body.basic_blocks.iter() {
        for st in &bb.statements {
            if let StatementKind::Assign(b) = &st.kind {
                match &b.1 {
                    Rvalue::Aggregate(k, ops) => {
                        if let AggregateKind::Adt(did, vi, ..) = &**k {
                            let ad = tcx.adt_def(*did);
                            if ad.is_enum() && ops.is_empty() {
                                found = Some((path(tcx, *did), ad.variants()[*vi].name.to_string()));
                            } else {
                                return None;
                            }
                        } else {
                            return None;
                        }
                    }
                    Rvalue::Ref(..) => {}
                    _ => return None,
                }
            }
        }
    }
    found
}

/// the constant a promoted `&const` refers to
fn promoted_const<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: rustc_hir::def_id::DefId,
    pr: rustc_middle::mir::Promoted,
) -> Option<ConstOperand<'tcx>> {
    if !def.is_local() {
        return None;
    }
    let bodies = tcx.promoted_mir(def);
    let body = bodies.get(pr)?;
    let mut found = None;
    for bb in body.basic_blocks.iter() {
        for st in &bb.statements {
            if let StatementKind::Assign(b) = &st.kind {
                match &b.1 {
                    Rvalue::Use(Operand::Constant(c), ..) => {
                        if found.is_some() {
                            return None;
                        }
                        found = Some((**c).clone());
                    }
                    Rvalue::Cast(_, Operand::Constant(c), _) => {
                        if found.is_some() {
                            return None;
                        }
                        found = Some((**c).clone());
                    }
                    Rvalue::Ref(..) => {}
                    _ => return None,
                }
            }
        }
    }
    found
}
