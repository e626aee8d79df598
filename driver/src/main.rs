//! Dumps the monomorphic MIR reachable from every function of the crate being compiled, as JSON.
//! Used through RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; MIRDUMP_OUT names the output directory.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_hir::def::DefKind;
use rustc_middle::ty as rty;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn vidx(v: &VariantIdx) -> usize {
  let s = format!("{:?}", v);
  let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
  d.parse().unwrap()
}

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn list(items: impl IntoIterator<Item = String>) -> String {
  let v: Vec<String> = items.into_iter().collect();
  format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: HashMap<Ty, usize>,
  ty_queue: Vec<Ty>,
  ty_out: Vec<String>,
  insts: HashMap<Instance, usize>,
  inst_queue: Vec<Instance>,
  files: HashMap<String, usize>,
  file_list: Vec<String>,
}

/// Parts of the standard library whose bodies are followed, everything else is modelled by the analyses.
const FOLLOW: &[&str] = &[
  "core::option::", "std::option::", "core::result::", "std::result::", "core::cmp::", "std::cmp::",
  "core::ops::", "std::ops::", "core::bool::", "core::convert::", "std::convert::", "core::iter::", "std::iter::",
  "core::array::", "core::tuple::", "std::bool::", "bool::", "core::char::", "char::",
];

impl<'tcx> Cx<'tcx> {
  fn ty(&mut self, t: Ty) -> usize {
    if let Some(i) = self.tys.get(&t) {
      return *i;
    }
    let i = self.tys.len();
    self.tys.insert(t, i);
    self.ty_queue.push(t);
    i
  }

  fn inst(&mut self, i: Instance) -> usize {
    if let Some(x) = self.insts.get(&i) {
      return *x;
    }
    let x = self.insts.len();
    self.insts.insert(i, x);
    self.inst_queue.push(i);
    x
  }

  fn args(&mut self, a: &GenericArgs) -> String {
    let mut v = vec![];
    for g in a.0.iter() {
      match g {
        GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
        GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(n) => format!("{{\"c\":{}}}", n), _ => "null".into() }),
        GenericArgKind::Lifetime(_) => (),
      }
    }
    list(v)
  }

  fn flush_ty(&mut self) {
    while let Some(t) = self.ty_queue.pop() {
      let id = self.tys[&t];
      let s = self.ty_json(t);
      self.ty_out.push(format!("{}:{}", esc(&id.to_string()), s));
    }
  }

  fn ty_json(&mut self, t: Ty) -> String {
    let name = esc(&format!("{}", t));
    match t.kind() {
      TyKind::RigidTy(r) => match r {
        RigidTy::Bool => "{\"k\":\"bool\"}".into(),
        RigidTy::Char => "{\"k\":\"char\"}".into(),
        RigidTy::Str => "{\"k\":\"str\"}".into(),
        RigidTy::Never => "{\"k\":\"never\"}".into(),
        RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":true,\"b\":{}}}", i.num_bytes()),
        RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":false,\"b\":{}}}", i.num_bytes()),
        RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
        RigidTy::Array(e, n) => {
          let e = self.ty(e);
          format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
        },
        RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
        RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
        RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
        RigidTy::Tuple(v) => { let l = list(v.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>()); format!("{{\"k\":\"tuple\",\"f\":{}}}", l) },
        RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
        RigidTy::Dynamic(_, _) => format!("{{\"k\":\"dyn\",\"name\":{}}}", name),
        RigidTy::FnDef(d, a) => {
          let args = self.args(&a);
          let i = match Instance::resolve(d, &a) { Ok(i) => self.inst(i).to_string(), Err(_) => "null".into() };
          format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}}}", esc(&d.name()), args, i)
        },
        RigidTy::Closure(d, a) => {
          let did = rustc_internal::internal(self.tcx, d.def_id());
          let ia = rustc_internal::internal(self.tcx, &a);
          let inst = rty::Instance::new_raw(did, ia);
          let up = ia.as_closure().upvar_tys();
          let ups: Vec<Ty> = up.iter().map(|t| rustc_internal::stable(t)).collect();
          let l = list(ups.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
          let inst: Instance = rustc_internal::stable(inst);
          let i = self.inst(inst);
          format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{},\"f\":{}}}", esc(&d.name()), i, l)
        },
        RigidTy::Adt(d, a) => {
          let args = self.args(&a);
          let kind = if d.kind().is_enum() { "enum" } else if d.kind().is_struct() { "struct" } else { "union" };
          let mut vs = vec![];
          for (n, v) in d.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields() {
              let ft = f.ty_with_args(&a);
              fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft)));
            }
            let discr = if d.kind().is_enum() { d.discriminant_for_variant(v.idx()).val } else { n as u128 };
            vs.push(format!("[{},{},{}]", esc(&v.name().to_string()), discr, list(fs)));
          }
          format!("{{\"k\":\"adt\",\"name\":{},\"ak\":{},\"args\":{},\"v\":{},\"str\":{}}}", esc(&d.name().to_string()), esc(kind), args, list(vs), name)
        },
        _ => format!("{{\"k\":\"other\",\"name\":{}}}", name),
      },
      _ => format!("{{\"k\":\"other\",\"name\":{}}}", name),
    }
  }

  fn place(&mut self, p: &Place) -> String {
    let mut v = vec![];
    for e in p.projection.iter() {
      v.push(match e {
        ProjectionElem::Deref => "\"*\"".to_string(),
        ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) },
        ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
        ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => format!("[\"c\",{},{}]", offset, from_end),
        ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
        ProjectionElem::Downcast(v) => { let i: usize = vidx(v); format!("[\"d\",{}]", i) },
        ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
      });
    }
    format!("[{},{}]", p.local, list(v))
  }

  fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
    self.try_decode(a, off, t, depth).unwrap_or_else(|| "{\"u\":1}".into())
  }

  fn try_decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
    if depth > 12 {
      return None;
    }
    let uint = |a: &Allocation, off: usize, n: usize| -> Option<u128> { a.read_partial_uint(off..off + n).ok() };
    match t.kind() {
      TyKind::RigidTy(r) => match r {
        RigidTy::Bool => Some(format!("{{\"b\":{}}}", uint(a, off, 1)? != 0)),
        RigidTy::Char => Some(format!("{{\"ch\":{}}}", uint(a, off, 4)?)),
        RigidTy::Uint(i) => Some(format!("{{\"i\":{}}}", uint(a, off, i.num_bytes())?)),
        RigidTy::Int(i) => {
          let n = i.num_bytes();
          let v = uint(a, off, n)?;
          let sh = 128 - 8 * n as u32;
          Some(format!("{{\"i\":{}}}", ((v << sh) as i128) >> sh))
        },
        RigidTy::Float(_) => Some("{\"fl\":1}".into()),
        RigidTy::Tuple(v) => {
          if v.is_empty() {
            return Some("{\"t\":[]}".into());
          }
          let shape = t.layout().ok()?.shape();
          if let FieldsShape::Arbitrary { offsets } = shape.fields {
            let mut o = vec![];
            for (i, ft) in v.iter().enumerate() {
              o.push(self.decode(a, off + offsets[i].bytes(), *ft, depth + 1));
            }
            return Some(format!("{{\"t\":{}}}", list(o)));
          }
          None
        },
        RigidTy::Array(e, n) => {
          let n = n.eval_target_usize().ok()? as usize;
          if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            let mut o = vec![];
            for i in 0..n {
              o.push(uint(a, off + i, 1)?.to_string());
            }
            return Some(format!("{{\"by\":{}}}", list(o)));
          }
          let sz = e.layout().ok()?.shape().size.bytes();
          let mut o = vec![];
          for i in 0..n {
            o.push(self.decode(a, off + i * sz, e, depth + 1));
          }
          Some(format!("{{\"arr\":{}}}", list(o)))
        },
        RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
          let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
          let base = uint(a, off, 8)? as usize;
          match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Memory(al) => match e.kind() {
              TyKind::RigidTy(RigidTy::Str) => {
                let len = uint(a, off + 8, 8)? as usize;
                let mut b = vec![];
                for i in 0..len {
                  b.push(al.bytes[base + i]?);
                }
                Some(format!("{{\"str\":{}}}", esc(&String::from_utf8(b).ok()?)))
              },
              TyKind::RigidTy(RigidTy::Slice(el)) => {
                let len = uint(a, off + 8, 8)? as usize;
                let sz = el.layout().ok()?.shape().size.bytes();
                let mut o = vec![];
                for i in 0..len {
                  o.push(self.decode(&al, base + i * sz, el, depth + 1));
                }
                Some(format!("{{\"ref\":{{\"arr\":{}}},\"ty\":{}}}", list(o), self.ty(e)))
              },
              TyKind::RigidTy(RigidTy::Dynamic(_, _)) => None,
              _ => { let te = self.ty(e); Some(format!("{{\"ref\":{},\"ty\":{}}}", self.decode(&al, base, e, depth + 1), te)) },
            },
            GlobalAlloc::Static(s) => {
              let did = rustc_internal::internal(self.tcx, s.def_id());
              let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
              let freeze = ty.is_freeze(self.tcx, rty::TypingEnv::fully_monomorphized());
              Some(format!("{{\"static\":{},\"mut\":{},\"freeze\":{},\"ext\":{},\"sty\":{}}}", esc(&s.name()), self.tcx.is_mutable_static(did), freeze, !did.is_local(), esc(&format!("{}", ty))))
            },
            GlobalAlloc::Function(i) => { let i = self.inst(i); Some(format!("{{\"fnp\":{}}}", i)) },
            _ => None,
          }
        },
        RigidTy::FnPtr(_) => {
          let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
          match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Function(i) => { let i = self.inst(i); Some(format!("{{\"fnp\":{}}}", i)) },
            _ => None,
          }
        },
        RigidTy::FnDef(..) | RigidTy::Closure(..) => { let x = self.ty(t); Some(format!("{{\"zst\":{}}}", x)) },
        RigidTy::Adt(d, ga) => {
          let shape = t.layout().ok()?.shape();
          let tid = self.ty(t);
          let (vi, offsets): (usize, Vec<usize>) = match &shape.variants {
            VariantsShape::Single { index } => {
              let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), FieldsShape::Primitive => vec![], _ => return None };
              (vidx(index), offs)
            },
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
              let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return None };
              let tsz = match tag {
                rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
              };
              let tagv = match uint(a, off + toff, tsz) { Some(v) => v, None => return None };
              let idx = match tag_encoding {
                TagEncoding::Direct => {
                  let mut f = None;
                  for v in d.variants() {
                    if d.discriminant_for_variant(v.idx()).val == tagv {
                      f = Some(vidx(&v.idx()));
                    }
                  }
                  f?
                },
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                  let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                  let lo: usize = vidx(niche_variants.start());
                  let hi: usize = vidx(niche_variants.end());
                  let rel = tagv.wrapping_sub(*niche_start) & (if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 });
                  if !has_ptr && rel <= (hi - lo) as u128 { lo + rel as usize } else { vidx(untagged_variant) }
                },
              };
              (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
            },
            VariantsShape::Empty => return None,
          };
          if d.kind().is_union() {
            return None;
          }
          let v = d.variants()[vi].fields();
          let mut o = vec![];
          for (i, f) in v.iter().enumerate() {
            let ft = f.ty_with_args(&ga);
            o.push(self.decode(a, off + offsets[i], ft, depth + 1));
          }
          Some(format!("{{\"adt\":{},\"v\":{},\"f\":{}}}", tid, vi, list(o)))
        },
        _ => None,
      },
      _ => None,
    }
  }

  fn konst(&mut self, c: &ConstOperand) -> String {
    let t = c.const_.ty();
    let tid = self.ty(t);
    let v = match c.const_.kind() {
      ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
      ConstantKind::ZeroSized => match t.kind() {
        TyKind::RigidTy(RigidTy::Tuple(_)) => "{\"t\":[]}".into(),
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind().is_struct() => {
          format!("{{\"adt\":{},\"v\":0,\"f\":[],\"z\":1}}", tid)
        },
        _ => format!("{{\"zst\":{}}}", tid),
      },
      ConstantKind::Ty(tc) => match tc.kind() {
        TyConstKind::Value(ty, a) => self.decode(a, 0, *ty, 0),
        _ => "{\"u\":2}".into(),
      },
      _ => "{\"u\":3}".into(),
    };
    format!("[\"k\",{},{}]", tid, v)
  }

  fn op(&mut self, o: &Operand) -> String {
    match o {
      Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
      Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
      Operand::Constant(c) => self.konst(c),
      Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
    }
  }

  fn rv(&mut self, r: &Rvalue) -> String {
    match r {
      Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
      Rvalue::ThreadLocalRef(i) => format!("[\"other\",{{\"tls\":{}}}]", esc(&i.name())),
      Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
      Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
      Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", *m == Mutability::Mut, self.place(p)),
      Rvalue::AddressOf(k, p) => format!("[\"ref\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
      Rvalue::BinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), x, y) },
      Rvalue::CheckedBinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); format!("[\"chk\",{},{},{}]", esc(&format!("{:?}", b)), x, y) },
      Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(x)),
      Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t) },
      Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
      Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
      Rvalue::Repeat(o, c) => format!("[\"rep\",{},{}]", self.op(o), c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
      Rvalue::Aggregate(k, ops) => {
        let l = list(ops.iter().map(|o| self.op(o)).collect::<Vec<_>>());
        match k {
          AggregateKind::Array(_) => format!("[\"arr\",{}]", l),
          AggregateKind::Tuple => format!("[\"tup\",{}]", l),
          AggregateKind::Adt(d, v, a, _, f) => {
            let t = self.ty(d.ty_with_args(a));
            let vi: usize = vidx(v);
            format!("[\"adt\",{},{},{},{}]", t, vi, l, f.map(|x| x.to_string()).unwrap_or("null".into()))
          },
          AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); format!("[\"clo\",{},{}]", t, l) },
          AggregateKind::RawPtr(..) => format!("[\"rawptr\",{}]", l),
          _ => "[\"other\"]".into(),
        }
      },
      _ => "[\"other\"]".into(),
    }
  }

  fn line(&mut self, s: rustc_public::ty::Span) -> String {
    let l = s.get_lines().start_line;
    let f = s.get_filename().to_string();
    let n = self.file_list.len();
    let i = *self.files.entry(f.clone()).or_insert(n);
    if i == n {
      self.file_list.push(f);
    }
    format!("[{},{}]", i, l)
  }

  fn follow(&self, i: &Instance, name: &str, local: bool) -> bool {
    if local {
      return true;
    }
    let k = i.def.krate().name.to_string();
    if k == "nom" || k == "tomllib" {
      return true;
    }
    let n = name.trim_start_matches('<').trim_start_matches('&');
    if FOLLOW.iter().any(|p| n.starts_with(p)) {
      return true;
    }
    // implementations of a followed trait for a foreign type: <T as std::cmp::PartialEq>::eq and the like
    if let Some(p) = name.find(" as ") {
      let tr = &name[p + 4..];
      if FOLLOW.iter().any(|p| tr.starts_with(p)) {
        return true;
      }
    }
    false
  }

  fn inst_json(&mut self, i: Instance) -> String {
    let id = self.insts[&i];
    let name = i.name();
    let dname = i.def.name();
    let local = i.def.krate().is_local;
    let kind = match i.kind { InstanceKind::Item => "item".to_string(), InstanceKind::Intrinsic => "intrinsic".into(), InstanceKind::Shim => "shim".into(), InstanceKind::Virtual { .. } => "virtual".into(), _ => "other".into() };
    let args = self.args(&i.args());
    let span = i.def.span();
    let sp = self.line(span);
    // implemented trait item, if any
    let did = rustc_internal::internal(self.tcx, i.def.def_id());
    let mut tr = "null".to_string();
    if let Some(a) = self.tcx.opt_associated_item(did) {
      if let Some(t) = a.trait_item_def_id() {
        tr = esc(&self.tcx.def_path_str(t));
      } else if self.tcx.trait_of_assoc(did).is_some() {
        tr = esc(&self.tcx.def_path_str(did));
      }
    }
    let expn = local && span_from_derive(self.tcx, did);
    let vis = self.tcx.def_kind(did) != DefKind::Closure && local && is_pub(self.tcx, did);
    let mut out = format!("{{\"id\":{},\"name\":{},\"def\":{},\"kind\":{},\"crate\":{},\"local\":{},\"args\":{},\"trait\":{},\"span\":{},\"derived\":{},\"pub\":{}",
      id, esc(&name.to_string()), esc(&dname.to_string()), esc(&kind), esc(&i.def.krate().name.to_string()), local, args, tr, sp, expn, vis);
    if self.follow(&i, &name.to_string(), local) && i.has_body() {
      if let Some(b) = i.body() {
        let ls = list(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let _ = write!(out, ",\"argc\":{},\"locals\":{}", b.arg_locals().len(), ls);
        if let Some(s) = b.spread_arg() {
          let _ = write!(out, ",\"spread\":{}", s);
        }
        let mut dbg = vec![];
        for v in b.var_debug_info.iter() {
          if let VarDebugInfoContents::Place(p) = &v.value {
            dbg.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
          }
        }
        let _ = write!(out, ",\"vars\":{}", list(dbg));
        let mut bbs = vec![];
        for bb in b.blocks.iter() {
          let mut ss = vec![];
          for s in bb.statements.iter() {
            match &s.kind {
              StatementKind::Assign(p, r) => {
                let l = self.line(s.source_info.span);
                let ps = self.place(p);
                let rs = self.rv(r);
                ss.push(format!("[\"=\",{},{},{}]", ps, rs, l));
              },
              StatementKind::SetDiscriminant { place, variant_index } => {
                let vi: usize = vidx(variant_index);
                ss.push(format!("[\"sd\",{},{}]", self.place(place), vi));
              },
              StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ss.push(format!("[\"assume\",{}]", self.op(o))),
              StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push("[\"cno\"]".into()),
              _ => (),
            }
          }
          let l = self.line(bb.terminator.source_info.span);
          let t = match &bb.terminator.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
              let d = self.op(discr);
              format!("[\"switch\",{},{},{}]", d, list(targets.branches().map(|(v, t)| format!("[{},{}]", v, t))), targets.otherwise())
            },
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
              let t = place.ty(b.locals()).ok();
              let tid = match t { Some(t) => self.ty(t).to_string(), None => "null".into() };
              format!("[\"drop\",{},{},{}]", self.place(place), target, tid)
            },
            TerminatorKind::Call { func, args, destination, target, .. } => {
              let mut callee = "null".to_string();
              if let Operand::Constant(c) = func {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
                  let ga = self.args(&a);
                  let inst = match Instance::resolve(d, &a) { Ok(x) => self.inst(x).to_string(), Err(_) => "null".into() };
                  callee = format!("[{},{},{}]", esc(&d.name().to_string()), ga, inst);
                }
              }
              let f = if callee == "null" { self.op(func) } else { "null".into() };
              let al = list(args.iter().map(|o| self.op(o)).collect::<Vec<_>>());
              let dt = match destination.ty(b.locals()) { Ok(t) => self.ty(t).to_string(), _ => "null".into() };
              format!("[\"call\",{},{},{},{},{},{}]", callee, f, al, self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()), dt)
            },
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
              let m = match msg {
                AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                AssertMessage::Overflow(o, _, _) => format!("overflow {:?}", o),
                AssertMessage::OverflowNeg(_) => "overflow neg".into(),
                AssertMessage::DivisionByZero(_) => "div by zero".into(),
                AssertMessage::RemainderByZero(_) => "rem by zero".into(),
                _ => "other".into(),
              };
              format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, esc(&m), target)
            },
            _ => "[\"other\"]".into(),
          };
          bbs.push(format!("[{},{},{}]", list(ss), t, l));
        }
        let _ = write!(out, ",\"bbs\":{}", list(bbs));
      }
    }
    out.push('}');
    out
  }
}

fn is_pub(tcx: TyCtxt<'_>, did: rustc_hir::def_id::DefId) -> bool {
  match did.as_local() {
    Some(l) => tcx.effective_visibilities(()).is_exported(l),
    None => false,
  }
}

fn span_from_derive(tcx: TyCtxt<'_>, did: rustc_hir::def_id::DefId) -> bool {
  tcx.def_span(did).in_derive_expansion()
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
  let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
  let name = rustc_public::local_crate().name.to_string();
  let mut cx = Cx { tcx, tys: HashMap::new(), ty_queue: vec![], ty_out: vec![], insts: HashMap::new(), inst_queue: vec![], files: HashMap::new(), file_list: vec![] };
  let mut roots = vec![];
  let str_ty = Ty::from_rigid_kind(RigidTy::Ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), Mutability::Not));
  let string_like = rustc_internal::internal(tcx, str_ty);
  for ldid in tcx.mir_keys(()).iter() {
    let did = ldid.to_def_id();
    match tcx.def_kind(did) {
      DefKind::Fn | DefKind::AssocFn => (),
      _ => continue,
    }
    let g = tcx.generics_of(did);
    let args = rty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
      rty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
      _ => string_like.into(),
    });
    if g.requires_monomorphization(tcx) {
      let has_const = (0..g.count()).any(|i| matches!(g.param_at(i, tcx).kind, rty::GenericParamDefKind::Const { .. }));
      if has_const || tcx.instantiate_and_check_impossible_clauses((did, args)) {
        continue;
      }
    }
    let inst = rty::Instance::new_raw(did, args);
    let inst: Instance = rustc_internal::stable(inst);
    roots.push(cx.inst(inst));
  }
  let mut insts = vec![];
  loop {
    let i = match cx.inst_queue.pop() {
      Some(i) => i,
      None => {
        // the types may bring up more instances: closures and function items
        let before = cx.insts.len();
        cx.flush_ty();
        if cx.insts.len() == before && cx.inst_queue.is_empty() {
          break;
        }
        continue;
      },
    };
    let s = cx.inst_json(i);
    insts.push(s);
  }
  cx.flush_ty();
  let js = format!("{{\"crate\":{},\"roots\":{},\"files\":{},\"types\":{{{}}},\"insts\":[{}]}}\n", esc(&name),
    list(roots.iter().map(|r| r.to_string())), list(cx.file_list.iter().map(|f| esc(f))), cx.ty_out.join(",\n"), insts.join(",\n"));
  std::fs::write(format!("{}/{}.json", out, name), js).expect("write dump");
  ControlFlow::Continue(())
}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  args.remove(1);
  let r = run_with_tcx!(&args, analyze);
  match r {
    Ok(_) | Err(rustc_public::CompilerError::Skipped) => (),
    Err(_) => std::process::exit(101),
  }
}
