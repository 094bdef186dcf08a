// mirdump: a rustc driver that writes the type-checked, monomorphic MIR of a crate
// (and of the generic library code it instantiates) as JSON, for /verif/analyzer.
//
//   MIRDUMP_OUT=file.json MIRDUMP_CRATE=satellite mirdump <rustc arguments>
//
// Under cargo it is the RUSTC_WORKSPACE_WRAPPER, so argv[1] may be the path of rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn put(o: &mut String, j: &J) {
    match j {
        J::Null => o.push_str("null"),
        J::B(b) => o.push_str(if *b { "true" } else { "false" }),
        J::N(n) => write!(o, "{}", n).unwrap(),
        J::S(x) => esc(o, x),
        J::A(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                put(o, x);
            }
            o.push(']');
        }
        J::O(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                esc(o, k);
                o.push(':');
                put(o, x);
            }
            o.push('}');
        }
        J::M(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                esc(o, k);
                o.push(':');
                put(o, x);
            }
            o.push('}');
        }
    }
}

// ------------------------------------------------------------------ dump
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    bodies: BTreeMap<String, J>,
    statics: BTreeMap<String, J>,
}

// Library code that is worth reading as MIR: control-flow glue made of plain
// moves, matches and calls of closures.  Everything else outside the crate stays a named call.
const INLINE: &[&str] = &[
    "option", "result", "ops", "cmp", "clone", "convert", "iter", "mem", "bool", "tuple", "array",
    "marker", "default", "borrow", "num", "hint", "any", "ptr::mut_ptr", "f64",
];

impl<'tcx> D<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
        )
    }
    fn iname(&self, i: &Instance<'tcx>) -> String {
        let base = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args))
        );
        match i.def {
            ty::InstanceKind::Item(_) => base,
            ref k => {
                let dbg = format!("{:?}", k);
                let kind = dbg.split('(').next().unwrap_or("").to_string();
                format!("{}#{}", base, kind)
            }
        }
    }
    fn inlinable(&self, i: &Instance<'tcx>) -> bool {
        match i.def {
            ty::InstanceKind::Item(d) => {
                if d.is_local() {
                    return true;
                }
                let krate = self.tcx.crate_name(d.krate);
                let k = krate.as_str();
                if k != "core" && k != "alloc" && k != "std" {
                    return false;
                }
                if !self.tcx.is_mir_available(d) || self.tcx.is_intrinsic(d, rustc_span::Symbol::intern("")) {
                    return false;
                }
                let p = self.tcx.def_path(d).to_string_no_crate_verbose();
                let p = p.trim_start_matches("::");
                INLINE.iter().any(|m| p.starts_with(m) && p[m.len()..].starts_with("::"))
            }
            ty::InstanceKind::Shim(k) => matches!(
                k,
                ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Reify(..) | ty::ShimKind::Clone(..)
            ),
            _ => false,
        }
    }
    fn want(&mut self, i: Instance<'tcx>) {
        if self.seen.insert(i) {
            self.queue.push_back(i);
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(n) = self.types.get(&t) {
            return J::N(*n as i128);
        }
        let n = self.type_out.len();
        self.types.insert(t, n);
        self.type_out.push(J::Null);
        let text = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
        );
        let mut o = vec![("s", s(text))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("local", J::B(def.did().is_local())));
                let tys: Vec<J> = args.types().map(|a| self.ty(a)).collect();
                o.push(("args", J::A(tys)));
                let mut vs = vec![];
                let hidden = !def.did().is_local() && !def.is_enum() && def.all_fields().count() > 3;
                if !hidden {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(self.env(), ft);
                            let jt = match ft {
                                Ok(x) => self.ty(x),
                                Err(_) => J::Null,
                            };
                            fs.push(J::A(vec![s(f.name.as_str()), jt, J::B(f.vis.is_public())]));
                        }
                        vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", J::N(discr)), ("fields", J::A(fs))]));
                    }
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(*inner);
                o.push(("to", j));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                let j = self.ty(*inner);
                o.push(("to", j));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let j = self.ty(*e);
                o.push(("to", j));
                let l = len.try_to_target_usize(self.tcx);
                o.push(("len", l.map(|x| J::N(x as i128)).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let j = self.ty(*e);
                o.push(("to", j));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let ups = args.as_closure().upvar_tys();
                let v = ups.iter().map(|x| self.ty(x)).collect();
                o.push(("elems", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                if !t.has_non_region_param() {
                    let j = self.callee(*d, args.skip_binder());
                    o.push(("callee", j));
                }
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", J::N(x.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("bits", J::N(x.bit_width().unwrap_or(64) as i128)));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        if !t.has_non_region_param() && !t.has_escaping_bound_vars() && !matches!(t.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..)) {
            o.push(("freeze", J::B(t.is_freeze(self.tcx, self.env()))));
        }
        self.type_out[n] = J::O(o);
        J::N(n as i128)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.path(d)))];
        let targs: Vec<J> = args.types().map(|a| self.ty(a)).collect();
        o.push(("targs", J::A(targs)));
        o.push(("crate", s(tcx.crate_name(d.krate).as_str())));
        if let Some(i) = tcx.intrinsic(d) {
            o.push(("intrinsic", s(i.name.as_str())));
        }
        o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), d, args) {
            o.push(("path", s(self.path(inst.def_id()))));
            o.push(("inst", s(self.iname(&inst))));
            if let ty::InstanceKind::Virtual(..) = inst.def {
                o.push(("virtual", J::B(true)));
            }
            if self.inlinable(&inst) {
                self.want(inst);
                o.push(("body", J::B(true)));
            }
        }
        J::O(o)
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(J::A(vec![s("deref")])),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.index().to_string();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        name = def.variant(vi).fields[f].name.to_string();
                    }
                    pr.push(J::A(vec![s("field"), J::N(f.index() as i128), s(name)]));
                }
                ProjectionElem::Index(l) => pr.push(J::A(vec![s("index"), J::N(l.index() as i128)])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => pr.push(J::A(vec![
                    s("cindex"),
                    J::N(offset as i128),
                    J::N(min_length as i128),
                    J::B(from_end),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(J::A(vec![s("subslice"), J::N(from as i128), J::N(to as i128), J::B(from_end)]))
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    pr.push(J::A(vec![s("downcast"), J::N(v.index() as i128), s(name)]))
                }
                other => pr.push(J::A(vec![s("other"), s(format!("{:?}", other))])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::N(p.local.index() as i128), J::A(pr)])
    }
    fn scalar(&self, sc: Scalar, t: Ty<'tcx>) -> Option<J> {
        match sc {
            Scalar::Int(i) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let v: i128 = match t.kind() {
                    ty::Int(_) => size.sign_extend(bits) as i128,
                    _ => bits as i128,
                };
                Some(J::N(v))
            }
            _ => None,
        }
    }
    // A constant in memory of a type we can read: scalars, references to str/[u8], arrays, tuples, structs, field-less enums.
    fn mem(&mut self, alloc: &mir::interpret::Allocation, off: u64, t: Ty<'tcx>, depth: u32) -> Option<J> {
        let tcx = self.tcx;
        if depth > 4 {
            return None;
        }
        let lay = tcx.layout_of(self.env().as_query_input(t)).ok()?;
        let ptr = tcx.data_layout.pointer_size();
        match t.kind() {
            ty::Float(_) | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: lay.size };
                let sc = alloc.read_scalar(&tcx, r, false).ok()?;
                let v = self.scalar(sc, t)?;
                let jt = self.ty(t);
                Some(J::O(vec![("k", s("scalar")), ("ty", jt), ("v", v)]))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: ptr };
                let sc = alloc.read_scalar(&tcx, r, true).ok()?;
                let Scalar::Ptr(p, _) = sc else { return None };
                let (prov, o) = p.into_raw_parts();
                let len = match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off) + ptr, size: ptr };
                        let sc = alloc.read_scalar(&tcx, r, false).ok()?;
                        let Scalar::Int(i) = sc else { return None };
                        Some(i.to_bits(i.size()) as u64)
                    }
                    _ => None,
                };
                self.pointee(prov.alloc_id(), o.bytes(), *inner, len, depth)
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let el = tcx.layout_of(self.env().as_query_input(*e)).ok()?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.mem(alloc, off + i * el.size.bytes(), *e, depth + 1)?);
                }
                let jt = self.ty(t);
                Some(J::O(vec![("k", s("array")), ("ty", jt), ("v", J::A(v))]))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    v.push(self.mem(alloc, off + lay.fields.offset(i).bytes(), e, depth + 1)?);
                }
                let jt = self.ty(t);
                Some(J::O(vec![("k", s("tuple")), ("ty", jt), ("v", J::A(v))]))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = tcx.try_normalize_erasing_regions(self.env(), f.ty(tcx, args)).ok()?;
                    v.push(self.mem(alloc, off + lay.fields.offset(i).bytes(), ft, depth + 1)?);
                }
                let jt = self.ty(t);
                Some(J::O(vec![("k", s("struct")), ("ty", jt), ("v", J::A(v))]))
            }
            ty::Adt(def, args) if def.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &lay.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes();
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off + to), size: tag.size(&tcx) };
                        let sc = alloc.read_scalar(&tcx, r, false).ok()?;
                        let Scalar::Int(i) = sc else { return None };
                        let b = i.to_bits(i.size());
                        let mut found = None;
                        for (x, d) in def.discriminants(tcx) {
                            if tag.size(&tcx).truncate(d.val) == b {
                                found = Some(x);
                            }
                        }
                        found?
                    }
                    Variants::Multiple {
                        tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, ..
                    } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes();
                        let size = tag.size(&tcx);
                        let r = AllocRange { start: rustc_abi::Size::from_bytes(off + to), size };
                        let isptr = matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_));
                        match alloc.read_scalar(&tcx, r, isptr).ok()? {
                            // a pointer to something is never the niche
                            Scalar::Ptr(..) => *untagged_variant,
                            Scalar::Int(i) => {
                                let rel = size.truncate(i.to_bits(i.size()).wrapping_sub(*niche_start));
                                let (lo, hi) = (niche_variants.start.as_u32(), niche_variants.last.as_u32());
                                if rel <= (hi - lo) as u128 {
                                    rustc_abi::VariantIdx::from_u32(lo + rel as u32)
                                } else {
                                    *untagged_variant
                                }
                            }
                        }
                    }
                    _ => return None,
                };
                let var = def.variant(vi);
                let mut v = vec![];
                if !var.fields.is_empty() {
                    let cx = ty::layout::LayoutCx::new(tcx, self.env());
                    let vl = lay.for_variant(&cx, vi);
                    for (i, f) in var.fields.iter().enumerate() {
                        let ft = tcx.try_normalize_erasing_regions(self.env(), f.ty(tcx, args)).ok()?;
                        v.push(self.mem(alloc, off + vl.fields.offset(i).bytes(), ft, depth + 1)?);
                    }
                }
                let jt = self.ty(t);
                Some(J::O(vec![("k", s("enum")), ("ty", jt), ("variant", J::N(vi.index() as i128)), ("v", J::A(v))]))
            }
            _ => None,
        }
    }
    fn pointee(&mut self, id: mir::interpret::AllocId, off: u64, inner: Ty<'tcx>, len: Option<u64>, depth: u32) -> Option<J> {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                self.static_(d);
                Some(J::O(vec![("k", s("static")), ("path", s(self.path(d)))]))
            }
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                match inner.kind() {
                    ty::Str => {
                        let n = len? as usize;
                        let o = off as usize;
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        Some(J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]))
                    }
                    ty::Slice(e) => {
                        let el = tcx.layout_of(self.env().as_query_input(*e)).ok()?;
                        let mut v = vec![];
                        for i in 0..len? {
                            v.push(self.mem(a, off + i * el.size.bytes(), *e, depth + 1)?);
                        }
                        Some(J::O(vec![("k", s("refarray")), ("v", J::A(v))]))
                    }
                    _ => {
                        let v = self.mem(a, off, inner, depth + 1)?;
                        Some(J::O(vec![("k", s("ref")), ("v", v)]))
                    }
                }
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
        let _ = args;
        let tcx = self.tcx;
        let t = c.const_.ty();
        let jt = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let cal = self.callee(*d, a.skip_binder());
            return J::O(vec![("k", s("fn")), ("callee", cal)]);
        }
        let mut from = J::Null;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                from = s(self.path(u.def));
                if u.def.is_local() && u.args.is_empty() {
                    self.init_body(u.def);
                    let f = self.path(u.def);
                    let v = self.constant_value(c, t, jt, from);
                    return J::O(vec![("k", s("init")), ("path", s(f)), ("v", v)]);
                }
            }
        }
        self.constant_value(c, t, jt, from)
    }
    fn init_body(&mut self, d: DefId) {
        let name = format!("init:{}", self.path(d));
        if self.bodies.contains_key(&name) {
            return;
        }
        self.bodies.insert(name.clone(), J::Null);
        let b = self.tcx.mir_for_ctfe(d).clone();
        let i = Instance::mono(self.tcx, d);
        self.emit(name, d, i.args, b);
    }
    fn constant_value(&mut self, c: &ConstOperand<'tcx>, t: Ty<'tcx>, jt: J, from: J) -> J {
        if let Ok(v) = c.const_.eval(self.tcx, self.env(), c.span) {
            let jt = self.ty(t);
            if let Some(j) = self.value(v, t, jt, from) {
                return j;
            }
        }
        J::O(vec![("k", s("opaque")), ("ty", jt), ("v", s(format!("{:?}", c.const_)))])
    }
    fn value(&mut self, v: ConstValue, t: Ty<'tcx>, jt: J, from: J) -> Option<J> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(sc) => {
                if let Some(j) = self.scalar(sc, t) {
                    if let ty::Adt(def, _) = t.kind() {
                        // a scalar-layout ADT: field-less enum or newtype
                        if def.is_enum() {
                            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                                let f = d.fields.iter().map(|&(fv, ft)| {
                                    let jf = self.ty(ft);
                                    self.value(fv, ft, jf, J::Null).unwrap_or_else(|| {
                                        let jf = self.ty(ft);
                                        J::O(vec![("k", s("opaque")), ("ty", jf), ("v", s(format!("{:?}", fv)))])
                                    })
                                }).collect();
                                let x = d.variant.map(|x| x.index()).unwrap_or(0);
                                return Some(J::O(vec![("k", s("enum")), ("ty", jt), ("variant", J::N(x as i128)), ("v", J::A(f))]));
                            }
                        }
                        return Some(J::O(vec![("k", s("raw")), ("ty", jt), ("v", j)]));
                    }
                    return Some(J::O(vec![("k", s("scalar")), ("ty", jt), ("v", j), ("from", from)]));
                }
                if let Scalar::Ptr(p, _) = sc {
                    let (prov, o) = p.into_raw_parts();
                    if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                        if let Some(j) = self.pointee(prov.alloc_id(), o.bytes(), *inner, None, 0) {
                            return Some(j);
                        }
                    }
                }
            }
            ConstValue::ZeroSized => return Some(J::O(vec![("k", s("zst")), ("ty", jt)])),
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let Some(j) = self.pointee(alloc_id, 0, *inner, Some(meta), 0) {
                        return Some(j);
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    if let Some(j) = self.mem(a.inner(), offset.bytes(), t, 0) {
                        return Some(j);
                    }
                }
            }
        }
        None
    }
    fn const_(&mut self, d: DefId) {
        let tcx = self.tcx;
        let p = self.path(d);
        let t = tcx.normalize_erasing_regions(self.env(), tcx.type_of(d).instantiate_identity());
        let jt = self.ty(t);
        let mut o = vec![("ty", jt), ("local", J::B(true)), ("mut", J::B(false)), ("thread_local", J::B(false)), ("const", J::B(true))];
        o.push(("freeze", J::B(t.is_freeze(tcx, self.env()))));
        o.push(("span", self.span(tcx.def_span(d))));
        self.init_body(d);
        if let Ok(ConstValue::Scalar(sc)) = tcx.const_eval_poly(d) {
            if let Some(j) = self.scalar(sc, t) {
                let jt = self.ty(t);
                o.push(("v", J::O(vec![("k", s("scalar")), ("ty", jt), ("v", j)])));
            }
        }
        self.statics.entry(p).or_insert(J::O(o));
    }
    fn static_(&mut self, d: DefId) {
        let p = self.path(d);
        if self.statics.contains_key(&p) {
            return;
        }
        self.statics.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity();
        let t = tcx.normalize_erasing_regions(self.env(), t);
        let jt = self.ty(t);
        let mut o = vec![("ty", jt), ("local", J::B(d.is_local())), ("mut", J::B(tcx.is_mutable_static(d)))];
        o.push(("thread_local", J::B(tcx.is_thread_local_static(d))));
        o.push(("freeze", J::B(t.is_freeze(tcx, self.env()))));
        if d.is_local() {
            o.push(("span", self.span(tcx.def_span(d))));
            self.init_body(d);
        }
        if let Ok(a) = tcx.eval_static_initializer(d) {
            if let Some(j) = self.mem(a.inner(), 0, t, 0) {
                o.push(("v", j));
            }
        }
        self.statics.insert(p, J::O(o));
    }
    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(b, p)]),
            Operand::Constant(c) => {
                let j = self.constant(c, args);
                J::A(vec![s("const"), j])
            }
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(b, o, args)]),
            Rvalue::Repeat(o, n) => {
                let l = n.try_to_target_usize(self.tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(b, o, args), l])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(b, p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b, self.tcx);
                let jf = self.ty(from);
                let jt = self.ty(*t);
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k {
                    let _ = 0;
                }
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(b, o, args), jf, jt])
            }
            Rvalue::BinaryOp(op, x) => {
                let (l, r2) = &**x;
                let lt = l.ty(b, self.tcx);
                let jt = self.ty(lt);
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(b, l, args), self.operand(b, r2, args), jt])
            }
            Rvalue::UnaryOp(op, x) => {
                let lt = x.ty(b, self.tcx);
                let jt = self.ty(lt);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, x, args), jt])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(b, p)])]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(b, o, args)).collect();
                let t = r.ty(b, self.tcx);
                let jt = self.ty(t);
                let (kind, var, act) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, vi, _, _, f) => ("adt", vi.index(), *f),
                    AggregateKind::Closure(d, a) => {
                        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env(), *d, a) {
                            self.want(i);
                        }
                        ("closure", 0, None)
                    }
                    _ => ("other", 0, None),
                };
                let _ = act;
                J::A(vec![s("agg"), s(kind), jt, J::N(var as i128), J::A(v)])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let raw: &Body<'tcx> = tcx.instance_mir(i.def);
        let body: Body<'tcx> = match i.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env(),
            ty::EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return,
        };
        let name = self.iname(&i);
        let d = i.def_id();
        let args = i.args;
        self.emit(name, d, args, body);
    }
    fn emit(&mut self, name: String, d: DefId, args: ty::GenericArgsRef<'tcx>, body: Body<'tcx>) {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, ld) in body.local_decls.iter_enumerated() {
            let jt = self.ty(ld.ty);
            locals.push(J::A(vec![jt, names.get(&l.index()).map(|x| s(x.as_str())).unwrap_or(J::Null)]));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let jp = self.place(&body, p);
                        let jr = self.rvalue(&body, r, args);
                        st.push(J::A(vec![s("assign"), jp, jr, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let jp = self.place(&body, place);
                        st.push(J::A(vec![s("setdiscr"), jp, J::N(variant_index.index() as i128)]));
                    }
                    StatementKind::Intrinsic(k) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", k))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::N(target.index() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body, tcx);
                    let jt = self.ty(ty);
                    let bits = match ty.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 0,
                    };
                    let v = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = if bits > 0 {
                                rustc_abi::Size::from_bits(bits).sign_extend(v) as i128
                            } else {
                                v as i128
                            };
                            J::A(vec![J::N(v), J::N(b.index() as i128)])
                        })
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(&body, discr, args),
                        J::A(v),
                        J::N(targets.otherwise().index() as i128),
                        jt,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let jp = self.place(&body, place);
                    J::A(vec![s("drop"), jp, J::N(target.index() as i128)])
                }
                TerminatorKind::Call { func, args: cargs, destination, target, .. } => {
                    let f = self.operand(&body, func, args);
                    let a: Vec<J> = cargs.iter().map(|o| self.operand(&body, &o.node, args)).collect();
                    let jp = self.place(&body, destination);
                    let at: Vec<J> = cargs
                        .iter()
                        .map(|o| {
                            let t = o.node.ty(&body, tcx);
                            self.ty(t)
                        })
                        .collect();
                    let dt = destination.ty(&body, tcx).ty;
                    let jd = self.ty(dt);
                    J::O(vec![
                        ("t", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("argty", J::A(at)),
                        ("dest", jp),
                        ("destty", jd),
                        ("target", target.map(|x| J::N(x.index() as i128)).unwrap_or(J::Null)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(&body, len, args), self.operand(&body, index, args)])
                        }
                        AssertKind::Overflow(op, ..) => J::A(vec![s("overflow"), s(format!("{:?}", op))]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(&body, cond, args),
                        J::B(*expected),
                        J::N(target.index() as i128),
                        kind,
                        s(m),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), J::N(real_target.index() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::N(real_target.index() as i128)])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let mut o = vec![
            ("path", s(self.path(d))),
            ("local", J::B(d.is_local())),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("argc", J::N(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|x| J::N(x.index() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("span", self.span(tcx.def_span(d))),
        ];
        if d.is_local() {
            let vis = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.effective_visibilities(()).is_reachable(d.expect_local());
            o.push(("pub", J::B(vis)));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
        }
        self.bodies.insert(name, J::O(o));
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = D {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            types: HashMap::new(),
            type_out: vec![],
            bodies: BTreeMap::new(),
            statics: BTreeMap::new(),
        };
        let mut generic = vec![];
        let mut all = vec![];
        let mut unsafe_blocks = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let k = tcx.def_kind(did);
            match k {
                DefKind::Fn | DefKind::AssocFn => {
                    all.push(s(d.path(did)));
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        generic.push(s(d.path(did)));
                        continue;
                    }
                    let i = Instance::mono(tcx, did);
                    d.want(i);
                }
                DefKind::Static { .. } => d.static_(did),
                DefKind::Const { .. } if !tcx.generics_of(did).requires_monomorphization(tcx) => d.const_(did),
                _ => {}
            }
        }
        // blocks marked unsafe in the crate's own source
        struct U<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<rustc_span::Span>,
        }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for U<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push(b.span);
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut spans = vec![];
        tcx.hir_walk_toplevel_module(&mut U { tcx, out: &mut spans });
        for sp in spans {
            unsafe_blocks.push(d.span(sp));
        }
        while let Some(i) = d.queue.pop_front() {
            d.body(i);
        }
        // Send / Sync of the crate's own data types
        let mut auto = BTreeMap::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) && !tcx.generics_of(did).requires_monomorphization(tcx) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let mut o = vec![];
                for (n, sym) in [("send", rustc_span::sym::Send), ("sync", rustc_span::sym::Sync)] {
                    if let Some(tr) = tcx.get_diagnostic_item(sym) {
                        use rustc_infer_shim::*;
                        o.push((n, J::B(implements(tcx, t, tr))));
                    }
                }
                o.push(("freeze", J::B(t.is_freeze(tcx, d.env()))));
                let _ = d.ty(t);
                auto.insert(d.path(did), J::O(o));
            }
        }
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("all_fns", J::A(all)),
            ("generic_fns", J::A(generic)),
            ("unsafe_blocks", J::A(unsafe_blocks)),
            ("auto", J::M(auto)),
            ("statics", J::M(std::mem::take(&mut d.statics))),
            ("bodies", J::M(std::mem::take(&mut d.bodies))),
            ("types", J::A(std::mem::take(&mut d.type_out))),
        ]);
        let mut o = String::new();
        put(&mut o, &root);
        std::fs::write(&self.out, o).expect("write MIRDUMP_OUT");
        Compilation::Continue
    }
}
mod rustc_infer_shim {
    use super::*;
    pub fn implements<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
        let tref = ty::TraitRef::new(tcx, tr, [t]);
        let pi = TypingEnv::fully_monomorphized().as_query_input(tref);
        let _ = pi;
        use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
        infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()
    }
}
extern crate rustc_infer;
extern crate rustc_trait_selection;

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !out.is_empty() && is_lib && name == want {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Awarnings".into());
        rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out })).ok();
    } else {
        rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut Plain)).ok();
    }
}
