//! Dumps the type-checked program of each workspace crate of /repo (MIR with
//! resolved callees, decoded constants, data types with attributes, impls) as
//! JSON facts. Injected with RUSTC_WORKSPACE_WRAPPER under `cargo check`.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

/// ---------------------------------------------------------------- json
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn n(x: usize) -> J {
        J::N(x as i128)
    }
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(out, "{}", n);
            }
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{}\":", k);
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    krate: String,
}

fn path(tcx: TyCtxt<'_>, did: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(did)))
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string()));
        let mut o = vec![("s", J::s(s))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("def", J::s(path(self.tcx, def.did()))));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("args", J::A(vec![self.ty(*inner)])));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("args", J::A(vec![self.ty(*inner)])));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                o.push(("args", J::A(vec![self.ty(*inner)])));
            }
            ty::Array(inner, _) => {
                o.push(("k", J::s("array")));
                o.push(("args", J::A(vec![self.ty(*inner)])));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("def", J::s(path(self.tcx, *d))));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, _) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::s(path(self.tcx, *d))));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("def", J::s(path(self.tcx, p))));
                }
            }
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                o.push(("k", J::s("prim")))
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn span(&self, sp: Span) -> J {
        // The innermost code of the user: where a macro was called, for code
        // a macro expanded to.
        let expn = sp.from_expansion();
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![
            J::s(name),
            J::n(lo.line),
            J::n(hi.line),
            J::B(expn),
            J::n(lo.col.0),
            J::n(hi.col.0),
        ])
    }

    // ------------------------------------------------------------ places
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = Vec::new();
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let j = match elem {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None => rustc_abi::FIRST_VARIANT,
                            };
                            if def.is_union() || (def.is_enum() && pt.variant_index.is_none()) {
                                f.as_usize().to_string()
                            } else {
                                def.variant(v).fields[f].name.to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let on = match pt.ty.kind() {
                        ty::Adt(def, _) => path(tcx, def.did()),
                        ty::Closure(d, _) => path(tcx, *d),
                        _ => String::new(),
                    };
                    J::A(vec![J::s("f"), J::s(name), J::n(f.as_usize()), J::s(on)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("c"),
                    J::N(offset as i128),
                    J::B(from_end),
                    J::N(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("s"),
                    J::N(from as i128),
                    J::N(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(name, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => name.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    let on = match pt.ty.kind() {
                        ty::Adt(def, _) => path(tcx, def.did()),
                        _ => String::new(),
                    };
                    J::A(vec![J::s("d"), J::s(n), J::n(v.as_usize()), J::s(on)])
                }
                _ => J::A(vec![J::s("?")]),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, elem);
        }
        let t = self.ty(pt.ty);
        J::A(vec![J::n(p.local.as_usize()), J::A(proj), t])
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(env, &c.const_)]),
            _ => J::A(vec![J::s("rc")]),
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", J::s(path(tcx, did)))];
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(targs)));
        let tr = tcx.trait_of_assoc(did);
        if let Some(t) = tr {
            o.push(("trait", J::s(path(tcx, t))));
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", self.ty(st)));
        }
        o.push(("name", J::s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
        match Instance::try_resolve(tcx, env, did, tcx.erase_and_anonymize_regions(args)) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                if rd != did {
                    o.push(("res", J::s(path(tcx, rd))));
                    let targs: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                    o.push(("rargs", J::A(targs)));
                }
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
                    _ => "shim",
                };
                o.push(("rk", J::s(k)));
                o.push(("local", J::B(rd.is_local())));
            }
            _ => {
                o.push(("rk", J::s("unresolved")));
                o.push(("local", J::B(did.is_local())));
            }
        }
        J::O(o)
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("t", self.ty(t))];
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.push(("fn", self.callee(env, *did, args)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            match u.promoted {
                Some(p) => {
                    o.push(("promoted", J::n(p.as_usize())));
                    o.push(("of", J::s(path(tcx, u.def))));
                }
                None => o.push(("const", J::s(path(tcx, u.def)))),
            }
        }
        let val = match c {
            Const::Unevaluated(u, _)
                if ty::TypeVisitableExt::has_param(&u.args) =>
            {
                None
            }
            Const::Ty(_, c) if ty::TypeVisitableExt::has_param(c) => None,
            _ => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        if let Some(v) = val {
            if let Some(j) = self.value(v, t) {
                o.push(("v", j));
            }
            if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                    o.push(("static", J::s(path(tcx, d))));
                }
            }
        }
        J::O(o)
    }

    fn value(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => Some(J::O(vec![("zst", J::B(true))])),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => self.scalar_int(i, t),
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let inner = t.builtin_deref(true)?;
                self.mem(prov.alloc_id(), off.bytes(), inner, None, 0)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let inner = t.builtin_deref(true)?;
                self.mem(alloc_id, 0, inner, Some(meta), 0)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let _ = tcx;
                self.mem(alloc_id, offset.bytes(), t, None, 0)
            }
        }
    }

    fn scalar_int(&mut self, i: ty::ScalarInt, t: Ty<'tcx>) -> Option<J> {
        let size = i.size();
        let bits = i.to_bits(size);
        Some(match t.kind() {
            ty::Bool => J::B(bits != 0),
            ty::Char => J::O(vec![(
                "c",
                J::s(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
            )]),
            ty::Int(_) => J::N(size.sign_extend(bits)),
            ty::Uint(_) => J::N(bits as i128),
            ty::Adt(def, _) if def.is_enum() => {
                for (v, d) in def.discriminants(self.tcx) {
                    if d.val == bits {
                        return Some(J::O(vec![(
                            "e",
                            J::s(def.variant(v).name.to_string()),
                        )]));
                    }
                }
                return None;
            }
            _ => J::O(vec![("bits", J::s(bits.to_string()))]),
        })
    }

    /// Reads a value out of the memory of an evaluated constant.
    fn mem(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>, depth: u32) -> Option<J> {
        if depth > 6 {
            return None;
        }
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let alloc = match tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => a,
            _ => return None,
        };
        let a = alloc.inner();
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> {
            if o + n > a.len() as u64 {
                return None;
            }
            Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize).to_vec())
        };
        let ptr_at = |o: u64| -> Option<(AllocId, u64)> {
            let p = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(o))?;
            let b = bytes(o, 8)?;
            let addr = u64::from_le_bytes(b.try_into().ok()?);
            Some((p.alloc_id(), addr))
        };
        match t.kind() {
            ty::Str => {
                let b = bytes(off, meta?)?;
                Some(J::s(String::from_utf8_lossy(&b).into_owned()))
            }
            ty::Slice(inner) => self.seq(id, off, *inner, meta?, depth),
            ty::Array(inner, n) => {
                let n = n.try_to_target_usize(tcx)?;
                self.seq(id, off, *inner, n, depth)
            }
            ty::Ref(_, inner, _) => {
                let (pid, poff) = ptr_at(off)?;
                let m = if inner.is_str() || inner.is_slice() {
                    Some(u64::from_le_bytes(bytes(off + 8, 8)?.try_into().ok()?))
                } else {
                    None
                };
                self.mem(pid, poff, *inner, m, depth + 1)
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let l = tcx.layout_of(env.as_query_input(t)).ok()?;
                let b = bytes(off, l.size.bytes())?;
                let mut x: u128 = 0;
                for (i, c) in b.iter().enumerate() {
                    x |= (*c as u128) << (8 * i);
                }
                let si = ty::ScalarInt::try_from_uint(x, l.size)?;
                self.scalar_int(si, t)
            }
            ty::Tuple(ts) => {
                let l = tcx.layout_of(env.as_query_input(t)).ok()?;
                let mut v = Vec::new();
                for (i, ft) in ts.iter().enumerate() {
                    let fo = l.fields.offset(i).bytes();
                    v.push(self.mem(id, off + fo, ft, None, depth + 1).unwrap_or(J::Null));
                }
                Some(J::A(v))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let l = tcx.layout_of(env.as_query_input(t)).ok()?;
                let mut v = Vec::new();
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let fo = l.fields.offset(i).bytes();
                    let j = self.mem(id, off + fo, ft, None, depth + 1).unwrap_or(J::Null);
                    v.push(J::A(vec![J::s(f.name.to_string()), j]));
                }
                Some(J::O(vec![("struct", J::s(path(tcx, def.did()))), ("fields", J::A(v))]))
            }
            _ => None,
        }
    }

    fn seq(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, n: u64, depth: u32) -> Option<J> {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        if n > 65536 {
            return None;
        }
        let l = tcx.layout_of(env.as_query_input(t)).ok()?;
        let sz = l.size.bytes();
        let mut v = Vec::new();
        for i in 0..n {
            v.push(self.mem(id, off + i * sz, t, None, depth + 1).unwrap_or(J::Null));
        }
        Some(J::A(v))
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, ..) => J::A(vec![J::s("use"), self.operand(body, env, op)]),
            Rvalue::Repeat(op, n) => J::A(vec![
                J::s("repeat"),
                self.operand(body, env, op),
                J::s(n.to_string()),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                J::s("ref"),
                self.place(body, p),
                J::B(matches!(k, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(body, p), J::B(true)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("ref"), self.place(body, p), J::B(true)]),
            Rvalue::CopyForDeref(p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(body, p)])])
            }
            Rvalue::Cast(k, op, t) => J::A(vec![
                J::s("cast"),
                self.operand(body, env, op),
                self.ty(*t),
                J::s(format!("{:?}", k)),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                J::s("bin"),
                J::s(format!("{:?}", b)),
                self.operand(body, env, &ops.0),
                self.operand(body, env, &ops.1),
            ]),
            Rvalue::UnaryOp(u, op) => {
                J::A(vec![J::s("un"), J::s(format!("{:?}", u)), self.operand(body, env, op)])
            }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|x| self.operand(body, env, x)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, uf) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<J> = match uf {
                            Some(f) => vec![J::s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        J::A(vec![
                            J::s("adt"),
                            J::s(path(tcx, *d)),
                            J::s(var.name.to_string()),
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::A(vec![J::s("closure"), J::s(path(tcx, *d))])
                    }
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(path(tcx, *d))]),
            _ => J::A(vec![J::s("?")]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
                dbg.push(J::A(vec![J::s(v.name.to_string()), self.place(body, p)]));
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let n = match names.get(&l.as_usize()) {
                Some(n) => J::s(n.clone()),
                None => J::Null,
            };
            locals.push(J::A(vec![self.ty(d.ty), n]));
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        st.push(J::A(vec![
                            J::s("="),
                            self.place(body, p),
                            self.rvalue(body, env, rv),
                            self.span(s.source_info.span),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            J::s("sd"),
                            self.place(body, place),
                            J::n(variant_index.as_usize()),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![J::s("goto"), J::n(target.as_usize())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = Vec::new();
                    for (val, bb) in targets.iter() {
                        v.push(J::A(vec![J::N(val as i128), J::n(bb.as_usize())]));
                    }
                    J::A(vec![
                        J::s("switch"),
                        self.operand(body, env, discr),
                        J::A(v),
                        J::n(targets.otherwise().as_usize()),
                        sp,
                    ])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![
                    J::s("drop"),
                    self.place(body, place),
                    J::n(target.as_usize()),
                ]),
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<J> =
                        args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        self.place(body, destination),
                        match target {
                            Some(t) => J::n(t.as_usize()),
                            None => J::Null,
                        },
                        sp,
                        J::s(format!("{:?}", call_source)),
                    ])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<J> =
                        args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    J::A(vec![J::s("tailcall"), f, J::A(a), sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(body, env, len), self.operand(body, env, index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(body, env, a), self.operand(body, env, b)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow:neg".into(), vec![self.operand(body, env, a)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("divzero".into(), vec![self.operand(body, env, a)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("remzero".into(), vec![self.operand(body, env, a)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![
                        J::s("assert"),
                        self.operand(body, env, cond),
                        J::B(*expected),
                        J::s(kind),
                        J::A(ops),
                        J::n(target.as_usize()),
                        sp,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![J::s("goto"), J::n(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), J::n(real_target.as_usize())])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![J::s("resume")])
                }
                _ => J::A(vec![J::s("other")]),
            };
            blocks.push(J::O(vec![
                ("c", J::B(bb.is_cleanup)),
                ("s", J::A(st)),
                ("t", tj),
            ]));
        }
        let _ = tcx;
        J::O(vec![
            ("args", J::n(body.arg_count)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn attrs(&mut self, did: LocalDefId) -> J {
        let tcx = self.tcx;
        let hid = tcx.local_def_id_to_hir_id(did);
        let mut v = Vec::new();
        for a in tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                let p: Vec<String> = item.path.segments.iter().map(|s| s.to_string()).collect();
                let args = match &item.args {
                    rustc_attr_ir::AttrArgs::Empty => String::new(),
                    rustc_attr_ir::AttrArgs::Delimited(d) => {
                        rustc_tokens(&d.tokens)
                    }
                    rustc_attr_ir::AttrArgs::Eq { expr, .. } => expr.symbol.to_string(),
                };
                v.push(J::A(vec![J::s(p.join("::")), J::s(args)]));
            } else if a.is_automatically_derived_attr() {
                v.push(J::A(vec![J::s("automatically_derived"), J::s("")]));
            }
        }
        J::A(v)
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut bodies = Vec::new();
        let mut traits = Vec::new();
        for did in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let at = self.attrs(f.did.expect_local());
                            fs.push(J::O(vec![
                                ("name", J::s(f.name.to_string())),
                                ("ty", self.ty(ft)),
                                ("attrs", at),
                            ]));
                        }
                        let at = if def.is_enum() { self.attrs(v.def_id.expect_local()) } else { J::A(vec![]) };
                        vs.push(J::O(vec![
                            ("name", J::s(v.name.to_string())),
                            ("idx", J::n(vi.as_usize())),
                            ("discr", J::s(if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { String::new() })),
                            ("fields", J::A(fs)),
                            ("attrs", at),
                        ]));
                    }
                    adts.push(J::O(vec![
                        ("path", J::s(path(tcx, did.to_def_id()))),
                        ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                        ("variants", J::A(vs)),
                        ("attrs", self.attrs(did)),
                        ("pub", J::B(tcx.visibility(did.to_def_id()).is_public())),
                        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(did))),
                        ("span", self.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("self", self.ty(st)), ("path", J::s(path(tcx, did.to_def_id())))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(path(tcx, tr.def_id))));
                        let a: Vec<J> = tr.args.types().map(|x| self.ty(x)).collect();
                        o.push(("targs", J::A(a)));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(did.to_def_id()))));
                    let items: Vec<J> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| {
                            J::A(vec![
                                J::s(i.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                                J::s(path(tcx, i.def_id)),
                            ])
                        })
                        .collect();
                    o.push(("items", J::A(items)));
                    o.push(("span", self.span(tcx.def_span(did))));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let items: Vec<J> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| {
                            J::A(vec![
                                J::s(i.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                                J::s(path(tcx, i.def_id)),
                                J::B(i.defaultness(tcx).has_value()),
                            ])
                        })
                        .collect();
                    traits.push(J::O(vec![
                        ("path", J::s(path(tcx, did.to_def_id()))),
                        ("items", J::A(items)),
                    ]));
                }
                _ => {}
            }
        }
        for &did in tcx.mir_keys(()) {
            let dk = tcx.def_kind(did);
            let (kind, is_fn) = match dk {
                DefKind::Fn => ("fn", true),
                DefKind::AssocFn => ("method", true),
                DefKind::Closure => ("closure", true),
                DefKind::Ctor(..) => continue,
                DefKind::Const | DefKind::AssocConst => ("const", false),
                DefKind::Static { .. } => ("static", false),
                DefKind::AnonConst => continue,
                _ => continue,
            };
            let d = did.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            let b: &Body<'tcx> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let bj = self.body(b, env);
            let prom: Vec<J> = if is_fn || true {
                tcx.promoted_mir(d).iter().map(|p| self.body(p, env)).collect()
            } else {
                vec![]
            };
            let mut o = vec![
                ("path", J::s(path(tcx, d))),
                ("kind", J::s(kind)),
                ("span", self.span(b.span)),
                ("defspan", self.span(tcx.def_span(d))),
                ("mir", bj),
                ("promoted", J::A(prom)),
                ("pub", J::B(tcx.effective_visibilities(()).is_reachable(did))),
            ];
            let root = tcx.typeck_root_def_id(d);
            o.push(("root", J::s(path(tcx, root))));
            let par = tcx.parent(d);
            o.push(("parent", J::s(path(tcx, par))));
            if let Some(imp) = tcx.impl_of_assoc(root) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("self", self.ty(st)));
                o.push(("impl", J::s(path(tcx, imp))));
                if tcx.impl_opt_trait_ref(imp).is_some() {
                    let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(path(tcx, tr.def_id))));
                    let a: Vec<J> = tr.args.types().map(|x| self.ty(x)).collect();
                    o.push(("targs", J::A(a)));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
            } else if let Some(tr) = tcx.trait_of_assoc(root) {
                o.push(("in_trait", J::s(path(tcx, tr))));
            }
            if dk == DefKind::Closure {
                let names: Vec<J> = tcx
                    .closure_captures(did)
                    .iter()
                    .map(|c| J::s(c.to_symbol().to_string()))
                    .collect();
                o.push(("captures", J::A(names)));
            } else {
                o.push(("name", J::s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
                if is_fn {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    o.push(("unsafe", J::B(!sig.safety().is_safe())));
                }
            }
            bodies.push(J::O(o));
        }
        let types = std::mem::take(&mut self.types);
        let mut out = String::new();
        J::O(vec![
            ("crate", J::s(self.krate.clone())),
            ("types", J::A(types)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("bodies", J::A(bodies)),
        ])
        .write(&mut out);
        out
    }
}

fn rustc_tokens(ts: &rustc_ast::tokenstream::TokenStream) -> String {
    rustc_ast_pretty_str(ts)
}

fn rustc_ast_pretty_str(ts: &rustc_ast::tokenstream::TokenStream) -> String {
    use rustc_ast::tokenstream::TokenTree;
    let mut s = String::new();
    for t in ts.iter() {
        match t {
            TokenTree::Token(tok, _) => {
                use rustc_ast::token::TokenKind;
                match &tok.kind {
                    TokenKind::Ident(n, _) => s.push_str(n.as_str()),
                    TokenKind::Literal(l) => {
                        s.push('"');
                        s.push_str(l.symbol.as_str());
                        s.push('"');
                    }
                    TokenKind::Comma => s.push(','),
                    TokenKind::Eq => s.push('='),
                    TokenKind::PathSep => s.push_str("::"),
                    other => s.push_str(&format!("{:?}", other)),
                }
            }
            TokenTree::Delimited(_, _, _, inner) => {
                s.push('(');
                s.push_str(&rustc_ast_pretty_str(inner));
                s.push(')');
            }
        }
    }
    s
}

trait IsDerivedAttr {
    fn is_automatically_derived_attr(&self) -> bool;
}
impl IsDerivedAttr for rustc_attr_ir::Attribute {
    fn is_automatically_derived_attr(&self) -> bool {
        format!("{:?}", self).contains("AutomaticallyDerived")
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            if krate != "build_script_build" {
                let bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
                let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new(), krate: krate.clone() };
                let out = d.run();
                let file = format!("{}/{}{}.json", dir, krate, if bin { ".bin" } else { "" });
                let tmp = format!("{}.tmp", file);
                std::fs::write(&tmp, out).expect("write facts");
                std::fs::rename(&tmp, &file).expect("rename facts");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc itself.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("--cap-lints=allow".into());
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    });
    let code: i32 = if code == std::process::ExitCode::SUCCESS { 0 } else { 1 };
    std::process::exit(code);
}
