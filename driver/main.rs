// mirdump: a rustc driver that writes, for every crate of the workspace, the
// type-checked program (ADTs, constants, pre-state-transform MIR with resolved
// callees) as JSON.  It decides nothing: the analyses in ../engine read it.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", name, lo.line))
    }
    // ---- constant decoding -------------------------------------------------
    fn read(&self, ty: Ty<'tcx>, id: AllocId, off: u64, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        let alloc = match tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => {
                return Some(J::O(vec![("static", s(self.path(d)))]));
            }
            _ => return None,
        };
        let alloc = alloc.inner();
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> {
            let (a, b) = (o as usize, (o + n) as usize);
            if b > alloc.len() {
                return None;
            }
            Some(alloc.inspect_with_uninit_and_ptr_outside_interpreter(a..b).to_vec())
        };
        let uint = |o: u64, n: u64| -> Option<u128> {
            let b = bytes(o, n)?;
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        let ptr_at = |o: u64| -> Option<AllocId> {
            alloc
                .provenance()
                .ptrs()
                .iter()
                .find(|(k, _)| k.bytes() == o)
                .map(|(_, p)| p.alloc_id())
        };
        match ty.kind() {
            ty::Bool => Some(J::B(uint(off, 1)? != 0)),
            ty::Char => {
                let c = char::from_u32(uint(off, 4)? as u32)?;
                Some(J::O(vec![("char", J::I(c as i128))]))
            }
            ty::Uint(u) => {
                let n = u.bit_width().unwrap_or(64) / 8;
                Some(J::I(uint(off, n)? as i128))
            }
            ty::Int(u) => {
                let n = u.bit_width().unwrap_or(64) / 8;
                let v = uint(off, n)?;
                let sh = 128 - 8 * n as u32;
                Some(J::I(((v << sh) as i128) >> sh))
            }
            ty::Array(el, len) => {
                let len = len.try_to_target_usize(tcx)?;
                let env = TypingEnv::fully_monomorphized();
                let lay = tcx.layout_of(env.as_query_input(*el)).ok()?;
                let sz = lay.size.bytes();
                if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                    let b = bytes(off, len)?;
                    return Some(J::O(vec![(
                        "bytes",
                        J::A(b.into_iter().map(|x| J::I(x as i128)).collect()),
                    )]));
                }
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.read(*el, id, off + i * sz, depth + 1)?);
                }
                Some(J::O(vec![("array", J::A(v))]))
            }
            ty::Tuple(els) => {
                let env = TypingEnv::fully_monomorphized();
                let lay = tcx.layout_of(env.as_query_input(ty)).ok()?;
                let mut v = vec![];
                for (i, el) in els.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes();
                    v.push(self.read(el, id, off + o, depth + 1)?);
                }
                Some(J::O(vec![("tuple", J::A(v))]))
            }
            ty::Ref(_, inner, _) => {
                let pid = ptr_at(off)?;
                let base = uint(off, 8)? as u64;
                match inner.kind() {
                    ty::Str => {
                        let len = uint(off + 8, 8)? as u64;
                        self.read_str(pid, base, len)
                    }
                    ty::Slice(el) => {
                        let len = uint(off + 8, 8)? as u64;
                        self.read_slice(*el, pid, base, len, depth + 1)
                    }
                    _ => self.read(*inner, pid, base, depth + 1),
                }
            }
            ty::Adt(def, args) => {
                let env = TypingEnv::fully_monomorphized();
                let lay = tcx.layout_of(env.as_query_input(ty)).ok()?;
                if def.is_struct() {
                    let mut v = vec![];
                    for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let o = lay.fields.offset(i).bytes();
                        let val = self.read(fty, id, off + o, depth + 1).unwrap_or(J::Null);
                        v.push(val);
                    }
                    return Some(J::O(vec![
                        ("adt", s(self.path(def.did()))),
                        ("variant", J::Null),
                        ("fields", J::A(v)),
                    ]));
                }
                if def.is_enum() {
                    // direct tag encodings only
                    use rustc_abi::{TagEncoding, Variants};
                    match &lay.variants {
                        Variants::Single { index } => {
                            let vd = def.variant(*index);
                            if vd.fields.is_empty() {
                                return Some(J::O(vec![
                                    ("adt", s(self.path(def.did()))),
                                    ("variant", s(vd.name.to_string())),
                                    ("fields", J::A(vec![])),
                                ]));
                            }
                            None
                        }
                        Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let to = lay.fields.offset(tag_field.as_usize()).bytes();
                            let tsz = tag.size(&tcx).bytes();
                            let tv = uint(off + to, tsz)?;
                            let vidx = match tag_encoding {
                                TagEncoding::Direct => def
                                    .discriminants(tcx)
                                    .find(|(_, d)| {
                                        let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        d.val & m == tv
                                    })
                                    .map(|(i, _)| i)?,
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if let Some(_) = ptr_at(off + to) {
                                        *untagged_variant
                                    } else {
                                        let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        let st = niche_variants.start.as_u32() as u128;
                                        let en = niche_variants.last.as_u32() as u128;
                                        if rel <= en - st {
                                            rustc_abi::VariantIdx::from_u32((st + rel) as u32)
                                        } else {
                                            *untagged_variant
                                        }
                                    }
                                }
                                #[allow(unreachable_patterns)]
                                _ => return None,
                            };
                            let vd = def.variant(vidx);
                            if vd.fields.is_empty() {
                                return Some(J::O(vec![
                                    ("adt", s(self.path(def.did()))),
                                    ("variant", s(vd.name.to_string())),
                                    ("fields", J::A(vec![])),
                                ]));
                            }
                            let mut v = vec![];
                            for (i, f) in vd.fields.iter().enumerate() {
                                let fty = f.ty(tcx, args).skip_norm_wip();
                                let vl = &variants[vidx];
                                let o = vl.field_offsets[rustc_abi::FieldIdx::from_usize(i)].bytes();
                                v.push(self.read(fty, id, off + o, depth + 1).unwrap_or(J::Null));
                            }
                            Some(J::O(vec![
                                ("adt", s(self.path(def.did()))),
                                ("variant", s(vd.name.to_string())),
                                ("fields", J::A(v)),
                            ]))
                        }
                        _ => None,
                    }
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn read_str(&self, id: AllocId, off: u64, len: u64) -> Option<J> {
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
            let b = m
                .inner()
                .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
            return Some(J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]));
        }
        None
    }
    fn read_slice(&self, el: Ty<'tcx>, id: AllocId, off: u64, len: u64, depth: usize) -> Option<J> {
        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
            if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                    off as usize..(off + len) as usize,
                );
                return Some(J::O(vec![(
                    "bytes",
                    J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                )]));
            }
            return None;
        }
        let env = TypingEnv::fully_monomorphized();
        let sz = self.tcx.layout_of(env.as_query_input(el)).ok()?.size.bytes();
        let mut v = vec![];
        for i in 0..len {
            v.push(self.read(el, id, off + i * sz, depth + 1)?);
        }
        Some(J::O(vec![("array", J::A(v))]))
    }
    fn constval(&self, v: ConstValue, ty: Ty<'tcx>) -> Option<J> {
        match v {
            ConstValue::ZeroSized => Some(J::O(vec![("zst", s(self.ty(ty)))])),
            ConstValue::Scalar(Scalar::Int(i)) => match ty.kind() {
                ty::Bool => Some(J::B(i.to_bits(i.size()) != 0)),
                ty::Char => Some(J::O(vec![("char", J::I(i.to_bits(i.size()) as i128))])),
                ty::Int(_) => {
                    let sh = 128 - i.size().bits() as u32;
                    Some(J::I(((i.to_bits(i.size()) << sh) as i128) >> sh))
                }
                ty::Uint(_) => Some(J::I(i.to_bits(i.size()) as i128)),
                ty::Adt(def, args) if def.is_enum() => {
                    let env = TypingEnv::fully_monomorphized();
                    let bits = i.to_bits(i.size());
                    let vi = def.discriminants(self.tcx).find(|(_, d)| {
                        let m = if i.size().bytes() == 16 { u128::MAX } else { (1u128 << i.size().bits()) - 1 };
                        d.val & m == bits
                    });
                    if def.variants().iter().all(|v| v.fields.is_empty()) {
                        let (vi, _) = vi?;
                        Some(J::O(vec![
                            ("adt", s(self.path(def.did()))),
                            ("variant", s(def.variant(vi).name.to_string())),
                            ("fields", J::A(vec![])),
                        ]))
                    } else {
                        // Option-like niche constants: print
                        None
                    }
                }
                _ => None,
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = ty.kind() {
                    self.read(*inner, prov.alloc_id(), off.bytes(), 0)
                } else {
                    None
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = ty.kind() {
                    match inner.kind() {
                        ty::Str => self.read_str(alloc_id, 0, meta),
                        ty::Slice(el) => self.read_slice(*el, alloc_id, 0, meta, 0),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.read(ty, alloc_id, offset.bytes(), 0),
        }
    }
    fn callee(&self, def: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(def))),
            ("krate", s(self.krate(def))),
            ("args", J::A(args.iter().map(|a| s(with_no_trimmed_paths!(a.to_string()))).collect())),
        ];
        // closure/coroutine definitions among the generic arguments, resolved
        let mut defs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                defs.push(self.tydef(t));
            } else {
                defs.push(J::Null);
            }
        }
        o.push(("argdefs", J::A(defs)));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", s(self.path(tr))));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, tcx.erase_and_anonymize_regions(args)) {
            let rd = inst.def_id();
            o.push(("resolved", s(self.path(rd))));
            o.push(("rkrate", s(self.krate(rd))));
        }
        J::O(o)
    }
    fn tydef(&self, t: Ty<'tcx>) -> J {
        match t.peel_refs().kind() {
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::FnDef(d, _) => s(self.path(*d)),
            ty::Adt(d, a) => {
                // Pin<&mut Coroutine> and the like
                for x in a.iter() {
                    if let Some(t) = x.as_type() {
                        if let ty::Coroutine(d, _) | ty::Closure(d, _) = t.peel_refs().kind() {
                            return s(self.path(*d));
                        }
                    }
                }
                J::Null
            }
            _ => J::Null,
        }
    }
    fn constant(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = vec![("k", s("const")), ("ty", s(self.ty(ty)))];
        if let ty::FnDef(d, args) = ty.kind() {
            o.push(("fn", self.callee(*d, args.no_bound_vars().unwrap(), env)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("path", s(self.path(u.def))));
            } else {
                o.push(("promoted", J::I(u.promoted.unwrap().as_usize() as i128)));
            }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => {
                if let Some(j) = self.constval(v, ty) {
                    o.push(("v", j));
                } else {
                    o.push(("pp", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
                }
            }
            Err(_) => o.push(("pp", s(with_no_trimmed_paths!(format!("{}", c.const_))))),
        }
        J::O(o)
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if !def.is_enum() => def.non_enum_variant(),
                                None => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                            };
                            v.fields.get(f).map(|x| x.name.to_string()).unwrap_or(f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(def, _) => s(self.path(def.did())),
                        ty::Closure(d, _) | ty::Coroutine(d, _) => s(self.path(*d)),
                        _ => J::Null,
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name), owner])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![s("v"), s(name), J::I(v.as_usize() as i128)])
                }
                _ => J::A(vec![s("o")]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(pr))])
    }
    fn operand(&self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(_) => J::O(vec![("k", s("const")), ("ty", s("bool")), ("v", J::B(true))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let op = |o: &Operand<'tcx>| self.operand(o, body, env);
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", op(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("k", s("repeat")),
                ("o", op(o)),
                ("n", n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("fake", J::B(matches!(bk, BorrowKind::Fake(_)))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(p, body))]),
            Rvalue::Cast(ck, o, t) => {
                J::O(vec![("k", s("cast")), ("ck", s(format!("{:?}", ck))), ("o", op(o)), ("ty", s(self.ty(*t))),
                    ("from", s(self.ty(o.ty(body, tcx))))])
            }
            Rvalue::BinaryOp(b, x) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", op(&x.0)),
                ("b", op(&x.1)),
                ("ty", s(self.ty(x.0.ty(body, tcx)))),
            ]),
            Rvalue::UnaryOp(b, x) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", b))),
                ("a", op(x)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (i, d) in def.discriminants(tcx) {
                            vs.push(J::A(vec![J::I(d.val as i128), s(def.variant(i).name.to_string())]));
                        }
                    }
                }
                J::O(vec![("k", s("discr")), ("p", self.place(p, body)), ("ty", s(self.ty(t))), ("vs", J::A(vs))])
            }
            Rvalue::Aggregate(k, fs) => {
                let mut v: Vec<(&'static str, J)> = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("ak", s("array"))),
                    AggregateKind::Tuple => v.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, ..) => {
                        let def = tcx.adt_def(*d);
                        v.push(("ak", s("adt")));
                        v.push(("adt", s(self.path(*d))));
                        v.push(("variant", s(def.variant(*vi).name.to_string())));
                        v.push(("enum", J::B(def.is_enum())));
                        v.push((
                            "names",
                            J::A(def.variant(*vi).fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("ak", s("closure")));
                        v.push(("def", s(self.path(*d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        v.push(("ak", s("coroutine")));
                        v.push(("def", s(self.path(*d))));
                    }
                    _ => v.push(("ak", s("other"))),
                }
                v.push(("fs", J::A(fs.iter().map(|o| op(o)).collect())));
                J::O(v)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("p", self.place(p, body))])),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(m.is_mut())),
                ("fake", J::B(false)),
                ("p", self.place(p, body)),
            ]),
            o => J::O(vec![("k", s("other")), ("pp", s(format!("{:?}", o)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> (J, J) {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = J::A(
            body.local_decls
                .iter_enumerated()
                .map(|(l, d)| {
                    let mut o = vec![("ty", s(self.ty(d.ty)))];
                    if let Some(n) = &names[l.as_usize()] {
                        o.push(("n", s(n.clone())));
                    }
                    let td = self.tydef(d.ty);
                    if !matches!(td, J::Null) {
                        o.push(("def", td));
                    }
                    J::O(o)
                })
                .collect(),
        );
        let mut blocks = vec![];
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &data.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::O(vec![
                            ("k", s("=")),
                            ("p", self.place(p, body)),
                            ("r", self.rvalue(r, body, env)),
                            ("s", self.span(x.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![
                            ("k", s("setdiscr")),
                            ("p", self.place(place, body)),
                            ("v", J::I(variant_index.as_usize() as i128)),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let ti = |b: BasicBlock| J::I(b.as_usize() as i128);
            let mut tj: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", ti(*target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", ti(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", ti(*real_target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    tj.push(("k", s("switch")));
                    tj.push(("o", self.operand(discr, body, env)));
                    tj.push(("ty", s(self.ty(discr.ty(body, tcx)))));
                    let ity = discr.ty(body, tcx);
                    tj.push((
                        "ts",
                        J::A(
                            targets
                                .iter()
                                .map(|(v, b)| {
                                    let v = match ity.kind() {
                                        ty::Int(i) => {
                                            let n = i.bit_width().unwrap_or(64) as u32;
                                            let sh = 128 - n;
                                            ((v << sh) as i128) >> sh
                                        }
                                        _ => v as i128,
                                    };
                                    J::A(vec![J::I(v), ti(b)])
                                })
                                .collect(),
                        ),
                    ));
                    tj.push(("else", ti(targets.otherwise())));
                }
                TerminatorKind::Return => tj.push(("k", s("return"))),
                TerminatorKind::Unreachable => tj.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => {
                    tj.push(("k", s("resume")))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    tj.push(("k", s("drop")));
                    tj.push(("p", self.place(place, body)));
                    tj.push(("ty", s(self.ty(place.ty(body, tcx).ty))));
                    tj.push(("t", ti(*target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    tj.push(("k", s("call")));
                    tj.push(("f", self.operand(func, body, env)));
                    tj.push(("fty", s(self.ty(func.ty(body, tcx)))));
                    tj.push(("args", J::A(args.iter().map(|a| self.operand(&a.node, body, env)).collect())));
                    tj.push((
                        "atys",
                        J::A(args.iter().map(|a| s(self.ty(a.node.ty(body, tcx)))).collect()),
                    ));
                    tj.push(("d", self.place(destination, body)));
                    tj.push(("t", target.map(ti).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    tj.push(("k", s("assert")));
                    tj.push(("o", self.operand(cond, body, env)));
                    tj.push(("e", J::B(*expected)));
                    let (m, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.operand(len, body, env), self.operand(index, body, env)])
                        }
                        AssertKind::Overflow(b, x, y) => {
                            (format!("overflow:{:?}", b), vec![self.operand(x, body, env), self.operand(y, body, env)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), vec![self.operand(x, body, env)]),
                        AssertKind::DivisionByZero(x) => ("divzero".to_string(), vec![self.operand(x, body, env)]),
                        AssertKind::RemainderByZero(x) => ("remzero".to_string(), vec![self.operand(x, body, env)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    tj.push(("m", s(m)));
                    tj.push(("mo", J::A(ops)));
                    tj.push(("t", ti(*target)));
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    tj.push(("k", s("yield")));
                    tj.push(("d", self.place(resume_arg, body)));
                    tj.push(("t", ti(*resume)));
                }
                _ => tj.push(("k", s("other"))),
            }
            tj.push(("s", self.span(t.source_info.span)));
            blocks.push(J::O(vec![
                ("st", J::A(st)),
                ("t", J::O(tj)),
                ("c", J::B(data.is_cleanup)),
            ]));
        }
        (locals, J::A(blocks))
    }
}

struct Cb {
    out: String,
}

fn type_names_in<'tcx>(_: TyCtxt<'tcx>) {}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let kind = tcx.def_kind(def);
            if matches!(kind, DefKind::AnonConst) {
                continue;
            }
            if tcx.is_constructor(def.to_def_id()) {
                continue;
            }
            if matches!(kind, DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) {
                bodies.push((def, kind, None));
                continue;
            }
            let (b, p) = tcx.mir_promoted(def);
            let b = b.borrow().clone();
            let p = p.borrow().clone();
            bodies.push((def, kind, Some((b, p))));
        }
        let mut fns = vec![];
        let mut consts = vec![];
        for (def, kind, b) in &bodies {
            let did = def.to_def_id();
            let env = TypingEnv::post_analysis(tcx, did);
            match b {
                None => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("path", s(cx.path(did))),
                        ("ty", s(cx.ty(t))),
                        ("static", J::B(matches!(kind, DefKind::Static { .. }))),
                        ("mutstatic", J::B(matches!(kind, DefKind::Static { mutability, .. } if mutability.is_mut()))),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("span", cx.span(tcx.def_span(did))),
                    ];
                    if matches!(kind, DefKind::Static { .. }) {
                        if let Ok(a) = tcx.eval_static_initializer(did) {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            if let Some(j) = cx.read(t, id, 0, 0) {
                                o.push(("v", j));
                            }
                        }
                    } else if let Ok(v) = tcx.const_eval_poly(did) {
                        if let Some(j) = cx.constval(v, t) {
                            o.push(("v", j));
                        }
                    }
                    consts.push(J::O(o));
                }
                Some((b, promoted)) => {
                    let (locals, blocks) = cx.body(b, env);
                    let mut proms = vec![];
                    for p in promoted.iter() {
                        let (l, bl) = cx.body(p, env);
                        proms.push(J::O(vec![("locals", l), ("blocks", bl)]));
                    }
                    let mut upv = vec![];
                    if matches!(kind, DefKind::Closure) {
                        for u in tcx.closure_captures(*def) {
                            upv.push(J::O(vec![
                                ("n", s(u.to_symbol().to_string())),
                                ("ref", J::B(matches!(u.info.capture_kind, ty::UpvarCapture::ByRef(_)))),
                                ("ty", s(cx.ty(u.place.ty()))),
                            ]));
                        }
                    }
                    let coroutine = b.coroutine.is_some();
                    let safety = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                        !tcx.fn_sig(did).skip_binder().safety().is_safe()
                    } else {
                        false
                    };
                    let sig = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                        let sg = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                        s(with_no_trimmed_paths!(format!("{}", sg)))
                    } else {
                        J::Null
                    };
                    let is_pub = if matches!(kind, DefKind::Closure) {
                        false
                    } else {
                        tcx.visibility(did).is_public()
                    };
                    let eff = tcx.effective_visibilities(()).is_reachable(*def);
                    fns.push(J::O(vec![
                        ("path", s(cx.path(did))),
                        ("kind", s(format!("{:?}", kind))),
                        ("coroutine", J::B(coroutine)),
                        ("unsafe", J::B(safety)),
                        ("sig", sig),
                        ("pub", J::B(is_pub)),
                        ("reachable", J::B(eff)),
                        ("derived", J::B(tcx.opt_parent(tcx.typeck_root_def_id(did)).map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p)))),
                        ("parent", tcx.opt_parent(did).map(|p| s(cx.path(p))).unwrap_or(J::Null)),
                        ("argc", J::I(b.arg_count as i128)),
                        ("locals", locals),
                        ("blocks", blocks),
                        ("promoted", J::A(proms)),
                        ("upvars", J::A(upv)),
                        ("span", cx.span(tcx.def_span(did))),
                        ("ret", s(cx.ty(b.return_ty()))),
                    ]));
                }
            }
        }
        // ADTs, impls
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, did);
                    let discs: Vec<i128> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, d)| d.val as i128).collect()
                    } else {
                        vec![0]
                    };
                    let vs = def
                        .variants()
                        .iter()
                        .enumerate()
                        .map(|(i, v)| {
                            J::O(vec![
                                ("name", s(v.name.to_string())),
                                ("discr", J::I(discs[i])),
                                (
                                    "fields",
                                    J::A(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                                J::O(vec![
                                                    ("name", s(f.name.to_string())),
                                                    ("ty", s(cx.ty(ft))),
                                                    ("pub", J::B(f.vis.is_public())),
                                                    ("freeze", J::B(ft.is_freeze(tcx, env))),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![
                        ("path", s(cx.path(did))),
                        ("enum", J::B(def.is_enum())),
                        ("variants", J::A(vs)),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(did.expect_local()))),
                        ("span", cx.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("self", s(cx.ty(t))), ("span", cx.span(tcx.def_span(did)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(with_no_trimmed_paths!(tr.to_string()))));
                    }
                    let items = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|d| s(cx.path(*d)))
                        .collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let features: Vec<J> = tcx
            .sess
            .config
            .iter()
            .filter(|(k, _)| k.as_str() == "feature")
            .filter_map(|(_, v)| v.map(|v| s(v.to_string())))
            .collect();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let j = J::O(vec![
            ("crate", s(name.clone())),
            ("features", J::A(features)),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(format!("{}/{}.json", self.out, name), o).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_probe = args.iter().any(|a| a == "-vV" || a == "-" || a.starts_with("--print"));
    let testing = args.iter().any(|a| a == "--test") && std::env::var("MIRDUMP_TEST").is_err();
    if out.is_empty() || is_probe || testing {
        struct N;
        impl Callbacks for N {}
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N));
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}
