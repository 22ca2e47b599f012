// MIR extraction driver: a rustc wrapper which dumps, for a workspace crate, the type-checked
// program (MIR before drop elaboration, resolved callees, ADTs, impls) as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_ast::attr::AttributeExt;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: ToString + ?Sized>(x: &T) -> J {
    J::S(x.to_string())
}
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => esc(o, t),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tag: String,
    tys: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    docs: HashMap<DefId, bool>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn krate(&self, d: DefId) -> String {
        if d.is_local() {
            self.tag.clone()
        } else {
            self.tcx.crate_name(d.krate).to_string()
        }
    }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.krate(d), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("{}::{}", self.tag, p)
        } else {
            p
        }
    }
    fn panics_doc(&mut self, d: DefId) -> bool {
        if let Some(b) = self.docs.get(&d) {
            return *b;
        }
        let b = self
            .tcx
            .get_all_attrs(d)
            .iter()
            .any(|a| a.doc_str().map_or(false, |x| x.as_str().contains("# Panic")));
        self.docs.insert(d, b);
        b
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let mut macros = vec![];
        let mut cur = sp;
        let mut n = 0;
        while cur.from_expansion() && n < 10 {
            let d = cur.ctxt().outer_expn_data();
            match d.kind {
                ExpnKind::Macro(_, name) => macros.push(s(name.as_str())),
                ExpnKind::Desugaring(k) => macros.push(s(&format!("desugar:{:?}", k))),
                ExpnKind::AstPass(k) => macros.push(s(&format!("ast:{:?}", k))),
                ExpnKind::Root => {}
            }
            cur = d.call_site;
            n += 1;
        }
        let lo = sm.lookup_char_pos(cur.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
            }
            o => format!("{:?}", o),
        };
        J::A(vec![s(&name), J::I(lo.line as i128), J::I(lo.col.0 as i128 + 1), J::A(macros)])
    }
    fn adt(&mut self, d: DefId) -> String {
        let p = self.path(d);
        if !self.adts.contains_key(&p) {
            self.adts.insert(p.clone(), J::Null);
            let def = self.tcx.adt_def(d);
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            };
            let mut vs = vec![];
            let discrs: Vec<_> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(_, d)| d.val as i128).collect()
            } else {
                vec![0]
            };
            for (i, v) in def.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = J::S(format!("{}", t));
                    fs.push(J::A(vec![s(f.name.as_str()), t]));
                }
                vs.push(J::O(vec![
                    ("name", s(v.name.as_str())),
                    ("discr", J::I(*discrs.get(i).unwrap_or(&0))),
                    ("fields", J::A(fs)),
                ]));
            }
            self.adts.insert(
                p.clone(),
                J::O(vec![("kind", s(kind)), ("local", J::B(d.is_local())), ("variants", J::A(vs))]),
            );
        }
        p
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(J::I(self.ty(t) as i128))
            } else if let Some(c) = x.as_const() {
                v.push(s(&format!("{}", c)))
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ids.insert(t, id);
        let str_ = format!("{}", t);
        let mut o = vec![("s", s(&str_))];
        match t.kind() {
            ty::Adt(d, a) => {
                let p = self.adt(d.did());
                o.push(("k", s("adt")));
                o.push(("adt", J::S(p)));
                let a = self.args(a);
                o.push(("args", a));
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", J::I(self.ty(*t2) as i128)));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", J::I(self.ty(*t2) as i128)));
            }
            ty::Slice(t2) => {
                o.push(("k", s("slice")));
                o.push(("to", J::I(self.ty(*t2) as i128)));
            }
            ty::Array(t2, n) => {
                o.push(("k", s("array")));
                o.push(("to", J::I(self.ty(*t2) as i128)));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", J::I(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| J::I(self.ty(t) as i128)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("key", J::S(self.key(*d))));
                let v =
                    a.as_closure().upvar_tys().iter().map(|t| J::I(self.ty(t) as i128)).collect();
                o.push(("upvars", J::A(v)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                o.push(("key", J::S(self.key(*d))));
                let v =
                    a.as_coroutine().upvar_tys().iter().map(|t| J::I(self.ty(t) as i128)).collect();
                o.push(("upvars", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let a = a.skip_binder();
                let c = self.callee(*d, a);
                o.push(("fn", c));
                let sig = t.fn_sig(self.tcx).skip_binder();
                let v = sig.inputs().iter().map(|t| J::I(self.ty(*t) as i128)).collect();
                o.push(("inputs", J::A(v)));
                let out = self.ty(sig.output());
                o.push(("output", J::I(out as i128)));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[id] = J::O(o);
        id
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut o = vec![
            ("path", J::S(self.path(d))),
            ("krate", J::S(self.krate(d))),
            ("key", J::S(self.key(d))),
        ];
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
        }
        let aj = self.args(a);
        o.push(("args", aj));
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(d).skip_binder().skip_binder();
            if sig.output().is_never() {
                o.push(("never", J::B(true)));
            }
            if self.panics_doc(d) {
                o.push(("panics", J::B(true)));
            }
            if !sig.safety().is_safe() {
                o.push(("unsafe", J::B(true)));
            }
            let a2 = self.tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, a2) {
                let rd = inst.def_id();
                if rd != d || !matches!(inst.def, ty::InstanceKind::Item(_)) {
                    let mut r = vec![
                        ("path", J::S(self.path(rd))),
                        ("krate", J::S(self.krate(rd))),
                        ("key", J::S(self.key(rd))),
                    ];
                    if let Some(im) = self.tcx.impl_of_assoc(rd) {
                        let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        r.push(("impl_self", J::S(format!("{}", st))));
                    }
                    if self.tcx.is_closure_like(rd) {
                        r.push(("closure", J::B(true)));
                    }
                    if self.panics_doc(rd) {
                        r.push(("panics", J::B(true)));
                    }
                    o.push(("res", J::O(r)));
                }
            }
        } else if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = self.tcx.parent(d);
            let (adt, variant) = if matches!(self.tcx.def_kind(parent), DefKind::Variant) {
                (self.tcx.parent(parent), self.tcx.item_name(parent).to_string())
            } else {
                (parent, self.tcx.item_name(parent).to_string())
            };
            let p = self.adt(adt);
            o.push(("ctor", J::A(vec![J::S(p), J::S(variant)])));
        }
        J::O(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_u32());
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        owner = self.adt(def.did());
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_struct() || pt.variant_index.is_some() {
                            name = def.variant(vi).fields[f].name.to_string();
                        }
                    }
                    J::A(vec![s("f"), J::I(f.as_u32() as i128), J::S(name), J::S(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::B(from_end),
                    J::I(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let mut name = n.map(|x| x.to_string()).unwrap_or_default();
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        owner = self.adt(def.did());
                        name = def.variant(vi).name.to_string();
                    }
                    J::A(vec![s("d"), J::I(vi.as_u32() as i128), J::S(name), J::S(owner)])
                }
                _ => s("cast"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        J::O(vec![("l", J::I(p.local.as_u32() as i128)), ("p", J::A(v)), ("t", J::I(t as i128))])
    }
    fn scalar_json(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
            ty::Char => J::O(vec![(
                "char",
                J::S(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
            )]),
            ty::Int(_) => {
                let sh = 128 - size * 8;
                J::O(vec![("int", J::I(((bits << sh) as i128) >> sh))])
            }
            ty::Uint(_) => {
                if bits > i128::MAX as u128 {
                    J::O(vec![("int", s(&bits.to_string()))])
                } else {
                    J::O(vec![("int", J::I(bits as i128))])
                }
            }
            _ => J::O(vec![("bits", s(&bits.to_string()))]),
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let sz = i.size();
                let b = i.to_bits(sz);
                self.scalar_json(t, b, sz.bytes())
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                // A reference to a static
                {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(interpret::GlobalAlloc::Static(d)) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let fixed = !tcx.is_mutable_static(d) && t.is_freeze(tcx, self.env);
                        return J::O(vec![
                            ("static", J::S(self.path(d))),
                            ("key", J::S(self.key(d))),
                            ("fixed", J::B(fixed)),
                        ]);
                    }
                }
                // A reference to an array of bytes
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(el, n) = inner.kind() {
                        if *el == tcx.types.u8 {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let Some(interpret::GlobalAlloc::Memory(a)) =
                                tcx.try_get_global_alloc(prov.alloc_id())
                            {
                                let a = a.inner();
                                let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                let o = off.bytes() as usize;
                                let by = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                return J::O(vec![(
                                    "bytes",
                                    J::A(by.iter().map(|b| J::I(*b as i128)).collect()),
                                )]);
                            }
                        }
                    }
                }
                J::O(vec![("ptr", J::B(true))])
            }
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let Some(by) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() {
                            return J::O(vec![("str", J::S(String::from_utf8_lossy(by).to_string()))]);
                        }
                        if let ty::Slice(el) = inner.kind() {
                            if *el == tcx.types.u8 {
                                return J::O(vec![(
                                    "bytes",
                                    J::A(by.iter().map(|b| J::I(*b as i128)).collect()),
                                )]);
                            }
                        }
                    }
                }
                J::O(vec![("slice", J::B(true))])
            }
            ConstValue::Indirect { .. } => J::O(vec![("indirect", J::B(true))]),
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, eval: bool) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("t", J::I(ti as i128))];
        match c {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::A(vec![J::S(self.key(u.def)), J::I(p.as_u32() as i128)])));
                } else {
                    o.push(("named", J::S(self.path(u.def))));
                    o.push(("named_key", J::S(self.key(u.def))));
                    if eval {
                        if let Ok(v) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                            let j = self.constval(v, t);
                            o.push(("val", j));
                        }
                    }
                }
            }
            mir::Const::Val(v, _) => {
                let j = self.constval(*v, t);
                o.push(("val", j));
            }
            mir::Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_target_usize(self.tcx) {
                    o.push(("val", J::O(vec![("int", J::I(v as i128))])));
                } else if eval {
                    if let Ok(v) = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
                        let j = self.constval(v, t);
                        o.push(("val", j));
                    }
                }
            }
        }
        J::O(o)
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(&c.const_, true)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.operand(body, o),
                n.try_to_target_usize(self.tcx).map_or(J::Null, |n| J::I(n as i128)),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::S(
                    match bk {
                        BorrowKind::Shared => "shared",
                        BorrowKind::Fake(_) => "fake",
                        BorrowKind::Mut { .. } => "mut",
                    }
                    .to_string(),
                ),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                J::S(format!("{:?}", k)),
                self.operand(body, o),
                J::I(self.ty(*t) as i128),
            ]),
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                J::S(format!("{:?}", op)),
                self.operand(body, &b.0),
                self.operand(body, &b.1),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::A(vec![s("un"), J::S(format!("{:?}", op)), self.operand(body, o)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![
                s("ref"),
                s(if m.is_mut() { "mut" } else { "shared" }),
                self.place(body, p),
            ]),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.operand(body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let p = self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        J::A(vec![
                            s("adt"),
                            J::S(p),
                            J::S(v.name.to_string()),
                            J::I(vi.as_u32() as i128),
                            J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), J::S(self.key(*d))]),
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("coroutine"), J::S(self.key(*d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            o => J::A(vec![s("other"), J::S(format!("{:?}", o))]),
        }
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let bb = |b: BasicBlock| J::I(b.as_u32() as i128);
        let unw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => J::I(b.as_u32() as i128),
            _ => J::Null,
        };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(b)])).collect();
                let dt = discr.ty(body, self.tcx);
                J::A(vec![
                    s("switch"),
                    self.operand(body, discr),
                    J::A(v),
                    bb(targets.otherwise()),
                    J::I(self.ty(dt) as i128),
                ])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![s("terminate")]),
            TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                J::A(vec![s("drop"), self.place(body, place), bb(*target), unw(unwind)])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        ty::FnDef(d, a) => {
                            let a = a.skip_binder();
                            self.callee(*d, a)
                        }
                        _ => J::O(vec![("op", self.operand(body, func))]),
                    },
                    _ => J::O(vec![("op", self.operand(body, func))]),
                };
                let av = args.iter().map(|a| self.operand(body, &a.node)).collect();
                J::A(vec![
                    s("call"),
                    f,
                    J::A(av),
                    self.place(body, destination),
                    target.map_or(J::Null, bb),
                    unw(unwind),
                ])
            }
            TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => J::A(vec![
                        s("bounds"),
                        self.operand(body, len),
                        self.operand(body, index),
                    ]),
                    AssertKind::Overflow(op, a, b) => J::A(vec![
                        s("overflow"),
                        J::S(format!("{:?}", op)),
                        self.operand(body, a),
                        self.operand(body, b),
                    ]),
                    AssertKind::OverflowNeg(a) => {
                        J::A(vec![s("overflowneg"), self.operand(body, a)])
                    }
                    AssertKind::DivisionByZero(a) => J::A(vec![s("div0"), self.operand(body, a)]),
                    AssertKind::RemainderByZero(a) => J::A(vec![s("rem0"), self.operand(body, a)]),
                    o => J::A(vec![s("other"), J::S(format!("{:?}", std::mem::discriminant(o)))]),
                };
                J::A(vec![
                    s("assert"),
                    self.operand(body, cond),
                    J::B(*expected),
                    m,
                    bb(*target),
                    unw(unwind),
                ])
            }
            TerminatorKind::Yield { value, resume, resume_arg, drop } => J::A(vec![
                s("yield"),
                self.operand(body, value),
                bb(*resume),
                self.place(body, resume_arg),
            ]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::A(vec![s("goto"), bb(*real_target)])
            }
            TerminatorKind::FalseUnwind { real_target, unwind } => {
                J::A(vec![s("goto"), bb(*real_target)])
            }
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for (_, d) in body.local_decls.iter_enumerated() {
            locals.push(J::I(self.ty(d.ty) as i128));
        }
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(body, p);
                dbg.push(J::A(vec![
                    s(v.name.as_str()),
                    pj,
                    v.argument_index.map_or(J::Null, |x| J::I(x as i128)),
                ]));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, r);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(J::A(vec![s("setd"), pj, J::I(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.as_u32() as i128)]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), J::I(l.as_u32() as i128)]))
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), J::S(format!("{:?}", i))]))
                    }
                    _ => {}
                }
            }
            let t = self.term(body, b.terminator());
            let sp = self.span(b.terminator().source_info.span);
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", t),
                ("sp", sp),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Cb {
    out: String,
    tag: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let _g = rustc_middle::ty::print::NoTrimmedGuard::new();
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // Consts first: evaluating them (e.g. array lengths) steals their MIR
        owners.sort_by_key(|d| {
            !matches!(
                tcx.def_kind(*d),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst
                    | DefKind::Static { .. }
            )
        });
        let mut bodies = vec![];
        for d in &owners {
            let (b, p) = tcx.mir_promoted(*d);
            if b.is_stolen() {
                continue;
            }
            bodies.push((*d, b.borrow().clone(), p.borrow().clone()));
        }
        let nowners = owners.len();
        let env = TypingEnv::fully_monomorphized();
        let mut cx = Cx {
            tcx,
            tag: self.tag.clone(),
            tys: vec![],
            ty_ids: HashMap::new(),
            adts: BTreeMap::new(),
            docs: HashMap::new(),
            env,
        };
        let mut out = vec![];
        for (d, b, p) in &bodies {
            let did = d.to_def_id();
            cx.env = TypingEnv::post_analysis(tcx, did);
            let mut o = cx.body(b);
            o.push(("key", J::S(cx.key(did))));
            o.push(("path", J::S(cx.path(did))));
            o.push(("kind", J::S(format!("{:?}", tcx.def_kind(did)))));
            o.push(("span", cx.span(tcx.def_span(did))));
            let parent = tcx.typeck_root_def_id(did);
            o.push(("root", J::S(cx.key(parent))));
            if let Some(im) = tcx.impl_of_assoc(parent) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::S(format!("{}", st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", J::S(cx.path(tr.def_id))));
                }
                o.push((
                    "derived",
                    J::B(tcx.def_span(im).from_expansion()),
                ));
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).skip_binder().skip_binder();
                o.push(("sig", J::S(format!("{}", sig))));
                o.push(("vis", J::S(format!("{:?}", tcx.visibility(did)))));
            }
            if tcx.is_closure_like(did) {
                let caps: Vec<J> = tcx
                    .closure_captures(*d)
                    .iter()
                    .map(|c| J::S(c.to_string(tcx)))
                    .collect();
                o.push(("captures", J::A(caps)));
            }
            let mut ps = vec![];
            for pb in p.iter() {
                ps.push(J::O(cx.body(pb)));
            }
            o.push(("promoted", J::A(ps)));
            out.push(J::O(o));
        }
        // Trait impls of this crate
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
                let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                let st = tr.self_ty();
                let mut items = vec![];
                for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                    let mut e = vec![
                        J::S(it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                        J::S(cx.key(it.def_id)),
                    ];
                    if let DefKind::AssocTy = tcx.def_kind(it.def_id) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        e.push(J::S(format!("{}", t)));
                    }
                    items.push(J::A(e));
                }
                impls.push(J::O(vec![
                    ("trait", J::S(cx.path(tr.def_id))),
                    ("self", J::S(format!("{}", st))),
                    ("derived", J::B(tcx.def_span(id).from_expansion())),
                    ("items", J::A(items)),
                ]));
            }
        }
        let adts = std::mem::take(&mut cx.adts);
        let j = J::O(vec![
            ("crate", J::S(self.tag.clone())),
            ("owners", J::I(nowners as i128)),
            ("types", J::A(std::mem::take(&mut cx.tys))),
            ("adts", J::M(adts.into_iter().collect())),
            ("impls", J::A(impls)),
            ("bodies", J::A(out)),
        ]);
        let mut txt = String::new();
        j.w(&mut txt);
        std::fs::write(format!("{}/{}.json", self.out, self.tag), txt).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(go)
}

fn go() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    args.remove(1);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let out = std::env::var("HIRV_OUT").unwrap_or_default();
    if out.is_empty() || name.is_empty() || name == "___" || name.starts_with("build_script") {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    } else {
        let tag = if is_bin { "bin".to_string() } else { name };
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out, tag });
    }
}
