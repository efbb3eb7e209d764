//! mirfacts: a rustc driver that compiles the crate it is given (all of it, with the
//! flags it is given), and writes its MIR - generic bodies, callees resolved - as JSON.
//!
//! Bodies are collected from every local function (with identity generic arguments)
//! and, transitively, from every callee whose body is available and whose path is not
//! in the list of leaves that the analyses model themselves.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::TypeVisitableExt;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb;

fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) };
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tylist: Vec<Option<J>>,
    tyq: VecDeque<(Ty<'tcx>, usize, ty::TypingEnv<'tcx>)>,
    done: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, ty::TypingEnv<'tcx>, String)>,
    fns: Vec<(String, J)>,
    consts: VecDeque<(DefId, GenericArgsRef<'tcx>, Option<Promoted>, ty::TypingEnv<'tcx>, String)>,
}

const LEAVES: &[&str] = &[
    "alloc::rcs::", "alloc::sync::", "alloc::rc::", "alloc::vec::", "alloc::collections::", "alloc::raw_vec::",
    "alloc::fmt::", "alloc::alloc::", "alloc::string::", "alloc::str::", "alloc::slice::", "alloc::boxed::",
    "core::fmt::", "core::panicking::", "core::ptr::", "core::mem::", "core::slice::", "core::str::",
    "core::intrinsics::", "core::alloc::", "core::hash::", "core::sync::", "core::array::", "core::num::", "core::cell::",
    "std::panicking::", "std::rt::", "std::io::", "std::hash::", "core::any::", "core::iter::adapters::array_chunks",
    "core::clone::impls", "core::unicode", "core::char", "core::ub_checks",
    "serde::", "serde_core::", "serde_test::",
];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// A path that does not depend on re-exports: crate::module::Type::name
    fn rawpath(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, p.to_string_no_crate_verbose())
    }
    fn is_leaf(&self, d: DefId) -> bool {
        if d.is_local() {
            return false;
        }
        let p = self.rawpath(d);
        LEAVES.iter().any(|l| p.starts_with(l))
    }
    fn ty(&mut self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.tylist.len();
        self.tys.insert(t, i);
        self.tylist.push(None);
        self.tyq.push_back((t, i, env));
        i
    }
    fn targs(&mut self, a: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(J::I(self.ty(t, env) as i64));
            } else if let Some(c) = x.as_const() {
                v.push(self.tyconst(c));
            }
        }
        J::A(v)
    }
    fn tyconst(&self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            obj! {"c": J::I(n as i64)}
        } else {
            obj! {"cp": s(format!("{}", c))}
        }
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, env: ty::TypingEnv<'tcx>, t: T) -> T
    where
        T: Copy,
    {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)) {
            Ok(x) => x,
            Err(_) => t,
        }
    }
    fn flush_tys(&mut self) {
        while let Some((t, i, env)) = self.tyq.pop_front() {
            let tcx = self.tcx;
            let name = with_no_trimmed_paths!(t.to_string());
            let mut o: Vec<(String, J)> = vec![("s".into(), s(name))];
            let mut put = |k: &str, v: J| o.push((k.to_string(), v));
            match t.kind() {
                TyKind::Bool => put("k", s("bool")),
                TyKind::Char => put("k", s("char")),
                TyKind::Int(x) => { put("k", s("int")); put("n", s(x.name_str())) }
                TyKind::Uint(x) => { put("k", s("uint")); put("n", s(x.name_str())) }
                TyKind::Float(_) => put("k", s("float")),
                TyKind::Str => put("k", s("str")),
                TyKind::Never => put("k", s("never")),
                TyKind::Param(p) => { put("k", s("param")); put("n", s(p.name.to_string())) }
                TyKind::Ref(_, x, m) => { let a = self.ty(*x, env); put("k", s("ref")); put("m", J::B(m.is_mut())); put("t", J::I(a as i64)) }
                TyKind::RawPtr(x, m) => { let a = self.ty(*x, env); put("k", s("ptr")); put("m", J::B(m.is_mut())); put("t", J::I(a as i64)) }
                TyKind::Slice(x) => { let a = self.ty(*x, env); put("k", s("slice")); put("t", J::I(a as i64)) }
                TyKind::Array(x, n) => { let a = self.ty(*x, env); put("k", s("array")); put("t", J::I(a as i64)); put("len", self.tyconst(*n)) }
                TyKind::Tuple(xs) => { let v: Vec<J> = xs.iter().map(|x| J::I(self.ty(x, env) as i64)).collect(); put("k", s("tuple")); put("ts", J::A(v)) }
                TyKind::Adt(def, args) => {
                    put("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }));
                    put("d", s(self.rawpath(def.did())));
                    put("local", J::B(def.did().is_local()));
                    let a = self.targs(args, env);
                    put("args", a);
                    let leafish = !def.did().is_local() && self.is_leaf(def.did());
                    if !leafish {
                        let mut vs = vec![];
                        for (vi, v) in def.variants().iter_enumerated() {
                            let mut fs = vec![];
                            for f in v.fields.iter() {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                let ft = self.norm(env, ft);
                                let fi = self.ty(ft, env);
                                fs.push(obj! {"n": s(f.name.to_string()), "t": J::I(fi as i64), "pub": J::B(f.vis.is_public())});
                            }
                            let d = if def.is_enum() { format!("{}", def.discriminant_for_variant(tcx, vi).val as i128) } else { "0".into() };
                            vs.push(obj! {"n": s(v.name.to_string()), "f": J::A(fs), "d": s(d)});
                        }
                        put("v", J::A(vs));
                    }
                    if def.did().is_local() {
                        if let Some(d) = tcx.adt_destructor(def.did()) {
                            put("dropimpl", s(self.rawpath(d.did)));
                            if let TyKind::Adt(_, args) = t.kind() {
                                let i = Instance::new_raw(d.did, args);
                                let k = self.want(i, env);
                                put("dropkey", s(k));
                            }
                        }
                    }
                }
                TyKind::FnDef(d, args) => {
                    let args = args.skip_binder();
                    put("k", s("fndef"));
                    let k = self.callee(*d, args, env);
                    put("callee", k);
                }
                TyKind::FnPtr(..) => put("k", s("fnptr")),
                TyKind::Dynamic(..) => put("k", s("dyn")),
                TyKind::Closure(d, args) => {
                    put("k", s("closure"));
                    put("d", s(self.rawpath(*d)));
                    let inst = Instance::new_raw(*d, args);
                    let key = self.want(inst, env);
                    put("key", s(key));
                    let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| J::I(self.ty(x, env) as i64)).collect();
                    put("ups", J::A(ups));
                    put("ck", s(format!("{:?}", args.as_closure().kind())));
                }
                TyKind::Alias(..) => put("k", s("alias")),
                _ => put("k", s("other")),
            }
            self.tylist[i] = Some(J::O(o));
        }
    }
    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let base = self.rawpath(i.def_id());
        let args = with_no_trimmed_paths!(i.args.iter().filter(|a| a.as_region().is_none()).map(|a| a.to_string()).collect::<Vec<_>>().join(", "));
        let tag = match i.def {
            InstanceKind::Item(_) => String::new(),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "#intrinsic".into(),
            InstanceKind::Virtual(..) => "#virtual".into(),
            InstanceKind::Shim(sh) => format!("#shim:{}", with_no_trimmed_paths!(format!("{:?}", sh).split('(').next().unwrap_or("").split(' ').next().unwrap().to_string())),
        };
        format!("{base}<{args}>{tag}")
    }
    fn want(&mut self, i: Instance<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let i = Instance { def: i.def, args: self.norm(env, i.args) };
        let key = self.inst_key(&i);
        if self.done.contains(&key) {
            return key;
        }
        let tcx = self.tcx;
        let ok = match i.def {
            InstanceKind::Item(d) => !self.is_leaf(d) && tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..)),
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => true,
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        if ok && key.len() < 4000 {
            self.done.insert(key.clone());
            self.queue.push_back((i, env, key.clone()));
        }
        key
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let args = self.norm(env, args);
        let path = self.rawpath(d);
        let ta = self.targs(args, env);
        let mut o: Vec<(String, J)> = vec![("path".into(), s(path)), ("disp".into(), s(self.path(d))), ("args".into(), ta), ("local".into(), J::B(d.is_local()))];
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor".into(), J::B(true)));
            let out = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
            let out = tcx.erase_and_anonymize_regions(out);
            let out = self.norm(env, out);
            let oi = self.ty(out, env);
            o.push(("out".into(), J::I(oi as i64)));
            let p = tcx.parent(d);
            if tcx.def_kind(p) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(p));
                o.push(("variant".into(), J::I(adt.variant_index_with_id(p).as_u32() as i64)));
            } else {
                o.push(("variant".into(), J::I(0)));
            }
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), s(self.rawpath(t))));
            o.push(("method".into(), s(tcx.item_name(d).to_string())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("impl_trait".into(), s(self.rawpath(tr.skip_binder().def_id))));
            }
        }
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name".into(), s(n.to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            // cloning through a library function: the type's own Clone impl
            let nm = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
            if matches!(nm.as_str(), "make_mut" | "unwrap_or_clone" | "clone" | "clone_from" | "cloned") {
                if let (Some(mut t), Some(cl)) = (args.types().next(), tcx.lang_items().clone_fn()) {
                    loop {
                        if let TyKind::Adt(a, ga) = t.kind() {
                            let own = tcx.item_name(a.did()).to_string();
                            if !a.did().is_local() && matches!(own.as_str(), "Box" | "Option") && ga.types().next().is_some() { t = ga.type_at(0); continue; }
                            if a.did().is_local() {
                                let ca = tcx.mk_args(&[t.into()]);
                                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, cl, ca) { self.want(i, env); }
                            }
                        }
                        break;
                    }
                }
            }
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                o.push(("rpath".into(), s(self.rawpath(i.def_id()))));
                o.push(("rdisp".into(), s(self.path(i.def_id()))));
                let ra = self.targs(i.args, env);
                o.push(("rargs".into(), ra));
                o.push(("rlocal".into(), J::B(i.def_id().is_local())));
                if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("r_impl_trait".into(), s(self.rawpath(tr.skip_binder().def_id))));
                    }
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("r_self".into(), s(with_no_trimmed_paths!(st.to_string()))));
                }
                if let Some(n) = tcx.opt_item_name(i.def_id()) {
                    o.push(("rname".into(), s(n.to_string())));
                }
                if let InstanceKind::Intrinsic(_) = i.def {
                    o.push(("intrinsic".into(), J::B(true)));
                }
                let key = self.want(i, env);
                o.push(("key".into(), s(key)));
            }
        }
        J::O(o)
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn place(&mut self, p: &Place<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.norm(env, t); let t = self.ty(t, env); J::A(vec![s("f"), J::I(f.as_u32() as i64), J::I(t as i64)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), J::I(offset as i64), J::I(min_length as i64), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::I(from as i64), J::I(to as i64), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), J::I(vi.as_u32() as i64)]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![J::I(p.local.as_u32() as i64), J::A(v)])
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(env, c.ty());
        let ti = self.ty(t, env);
        let mut o: Vec<(String, J)> = vec![("t".into(), J::I(ti as i64))];
        if let TyKind::FnDef(..) = t.kind() {
            o.push(("fn".into(), J::B(true)));
            return J::O(vec![("const".into(), J::O(o))]);
        }
        match c {
            mir::Const::Ty(_, ct) => {
                let j = self.tyconst(*ct);
                if let J::O(mut m) = j { o.append(&mut m); }
            }
            mir::Const::Val(v, _) => self.cval(v, t, &mut o),
            mir::Const::Unevaluated(u, _) => {
                match c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) if u.promoted.is_none() => self.cval(&v, t, &mut o),
                    _ => {
                        let args = self.norm(env, u.args);
                        let key = format!("const:{}<{}>{}", self.rawpath(u.def), with_no_trimmed_paths!(args.iter().filter(|a| a.as_region().is_none()).map(|a| a.to_string()).collect::<Vec<_>>().join(", ")), u.promoted.map(|p| format!("#p{}", p.as_u32())).unwrap_or_default());
                        // resolve associated consts of traits to the impl
                        let mut def = u.def;
                        let mut a2 = args;
                        if u.promoted.is_none() {
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, args) {
                                def = i.def_id();
                                a2 = i.args;
                            }
                        }
                        o.push(("uneval".into(), s(key.clone())));
                        o.push(("udef".into(), s(self.rawpath(def))));
                        if !self.done.contains(&key) {
                            self.done.insert(key.clone());
                            self.consts.push_back((def, a2, u.promoted, env, key));
                        }
                    }
                }
            }
        }
        J::O(vec![("const".into(), J::O(o))])
    }
    fn cval(&mut self, v: &ConstValue, t: Ty<'tcx>, o: &mut Vec<(String, J)>) {
        match v {
            ConstValue::Scalar(sc) => {
                if let Ok(i) = sc.try_to_scalar_int() {
                    let sz = i.size();
                    let val: i128 = if t.is_signed() { i.to_int(sz) } else { i.to_uint(sz) as i128 };
                    o.push(("v".into(), s(val.to_string())));
                    if t.is_enum() && !t.has_param() {
                        if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(*v, t) {
                            if let Some(vi) = d.variant {
                                let mut fs = vec![];
                                for (fv, ft) in d.fields.iter() {
                                    let ti = self.ty(*ft, ty::TypingEnv::fully_monomorphized());
                                    let mut fo = vec![("t".to_string(), J::I(ti as i64))];
                                    self.cval(fv, *ft, &mut fo);
                                    fs.push(J::O(fo));
                                }
                                o.push(("var".into(), J::I(vi.as_u32() as i64)));
                                o.push(("fl".into(), J::A(fs)));
                            }
                        }
                    }
                } else {
                    o.push(("ptr".into(), J::B(true)));
                }
            }
            ConstValue::ZeroSized => o.push(("zst".into(), J::B(true))),
            ConstValue::Slice { .. } => o.push(("str".into(), s(with_no_trimmed_paths!(format!("{}", mir::Const::Val(*v, t)))))),
            _ => o.push(("mem".into(), s(with_no_trimmed_paths!(format!("{}", mir::Const::Val(*v, t)))))),
        }
    }
    fn op(&mut self, x: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => obj! {"cp": self.place(p, env)},
            Operand::Move(p) => obj! {"mv": self.place(p, env)},
            Operand::Constant(c) => self.constant(&c.const_, env),
            Operand::RuntimeChecks(_) => obj! {"rtc": J::B(true)},
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let a = |v: Vec<J>| J::A(v);
        match r {
            Rvalue::Use(o, _) => a(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, c) => { let n = self.norm(env, *c); let cj = self.tyconst(n); a(vec![s("repeat"), self.op(o, env), cj]) }
            Rvalue::Ref(_, k, p) => { let m = matches!(k, BorrowKind::Mut { .. }); a(vec![s("ref"), J::B(m), self.place(p, env)]) }
            Rvalue::Reborrow(_, m, p) => a(vec![s("reborrow"), J::B(m.is_mut()), self.place(p, env)]),
            Rvalue::RawPtr(k, p) => a(vec![s("raw"), s(format!("{:?}", k)), self.place(p, env)]),
            Rvalue::Cast(k, o, t) => { let t = self.norm(env, *t); let t = self.ty(t, env); a(vec![s("cast"), s(format!("{:?}", k)), self.op(o, env), J::I(t as i64)]) }
            Rvalue::BinaryOp(b, x) => a(vec![s("bin"), s(format!("{:?}", b)), self.op(&x.0, env), self.op(&x.1, env)]),
            Rvalue::UnaryOp(u, x) => a(vec![s("un"), s(format!("{:?}", u)), self.op(x, env)]),
            Rvalue::Discriminant(p) => a(vec![s("discr"), self.place(p, env)]),
            Rvalue::CopyForDeref(p) => a(vec![s("use"), obj! {"cp": self.place(p, env)}]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => { let t = self.norm(env, *t); obj! {"k": s("array"), "t": J::I(self.ty(t, env) as i64)} }
                    AggregateKind::Tuple => obj! {"k": s("tuple")},
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(env, t);
                        obj! {"k": s("adt"), "t": J::I(self.ty(t, env) as i64), "v": J::I(v.as_u32() as i64), "uf": f.map(|x| J::I(x.as_u32() as i64)).unwrap_or(J::N)}
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.norm(env, t);
                        obj! {"k": s("closure"), "t": J::I(self.ty(t, env) as i64)}
                    }
                    AggregateKind::RawPtr(t, m) => { let t = self.norm(env, *t); obj! {"k": s("rawptr"), "t": J::I(self.ty(t, env) as i64), "m": J::B(m.is_mut())} }
                    _ => obj! {"k": s("other")},
                };
                a(vec![s("agg"), kk, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(_) => a(vec![s("tls")]),
            Rvalue::WrapUnsafeBinder(..) => a(vec![s("other")]),
        }
    }
    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::I(b.as_u32() as i64),
            _ => J::N,
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, head: Vec<(String, J)>) -> J {
        let mut o = head;
        let mut locals = vec![];
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.norm(env, d.ty);
            let t = self.ty(t, env);
            locals.push(J::A(vec![J::I(t as i64), names.get(&l.as_u32()).map(|n| s(n.clone())).unwrap_or(J::N)]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, env);
                        let r = self.rv(&b.1, env);
                        st.push(J::A(vec![s("="), p, r, s(sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, env);
                        st.push(J::A(vec![s("sd"), p, J::I(variant_index.as_u32() as i64), s(sp)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i {
                            let (a1, a2, a3) = (self.op(&c.src, env), self.op(&c.dst, env), self.op(&c.count, env));
                            st.push(J::A(vec![s("cno"), a1, a2, a3, s(sp)]));
                        }
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_u32() as i64)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), J::I(l.as_u32() as i64)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.as_u32() as i64)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut ts = vec![];
                    for (v, b) in targets.iter() {
                        ts.push(J::A(vec![s(v.to_string()), J::I(b.as_u32() as i64)]));
                    }
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.norm(env, dt);
                    let dti = self.ty(dt, env);
                    J::A(vec![s("switch"), self.op(discr, env), J::A(ts), J::I(targets.otherwise().as_u32() as i64), J::I(dti as i64)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pt = self.norm(env, pt);
                    let ti = self.ty(pt, env);
                    J::A(vec![s("drop"), self.place(place, env), J::I(target.as_u32() as i64), Self::unwind(unwind), J::I(ti as i64)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => {
                            let ft = self.norm(env, c.const_.ty());
                            if let TyKind::FnDef(d, a) = ft.kind() { obj! {"fn": self.callee(*d, a.skip_binder(), env)} } else { obj! {"op": self.op(func, env)} }
                        }
                        _ => obj! {"op": self.op(func, env)},
                    };
                    let aa: Vec<J> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    J::A(vec![s("call"), f, J::A(aa), self.place(destination, env), target.map(|b| J::I(b.as_u32() as i64)).unwrap_or(J::N), Self::unwind(unwind)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => obj! {"k": s("bounds"), "len": self.op(len, env), "index": self.op(index, env)},
                        AssertKind::Overflow(b, x, y) => obj! {"k": s("overflow"), "op": s(format!("{:?}", b)), "a": self.op(x, env), "b": self.op(y, env)},
                        _ => obj! {"k": s("other")},
                    };
                    J::A(vec![s("assert"), self.op(cond, env), J::B(*expected), m, J::I(target.as_u32() as i64), Self::unwind(unwind)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), J::I(real_target.as_u32() as i64)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), J::I(real_target.as_u32() as i64)]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(obj! {"s": J::A(st), "t": tj, "c": J::B(bb.is_cleanup), "l": s(sp)});
        }
        o.push(("argc".into(), J::I(body.arg_count as i64)));
        o.push(("spread".into(), body.spread_arg.map(|l| J::I(l.as_u32() as i64)).unwrap_or(J::N)));
        o.push(("locals".into(), J::A(locals)));
        o.push(("blocks".into(), J::A(blocks)));
        o.push(("span".into(), s(self.span(body.span))));
        J::O(o)
    }
    fn head(&self, d: DefId) -> Vec<(String, J)> {
        let tcx = self.tcx;
        let mut o = vec![("path".to_string(), s(self.rawpath(d))), ("disp".to_string(), s(self.path(d))), ("local".to_string(), J::B(d.is_local()))];
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name".into(), s(n.to_string())));
        }
        if let DefKind::Fn | DefKind::AssocFn = tcx.def_kind(d) {
            o.push(("pub".into(), J::B(tcx.visibility(d).is_public())));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("sig".into(), s(with_no_trimmed_paths!(sig.to_string()))));
            if let Some(l) = d.as_local() {
                let ev = tcx.effective_visibilities(());
                o.push(("reach".into(), J::B(ev.is_reachable(l))));
                o.push(("exported".into(), J::B(ev.is_exported(l))));
            }
            o.push(("unsafe".into(), J::B(sig.safety().is_unsafe())));
            let gens: Vec<J> = ty::GenericArgs::identity_for_item(tcx, d).iter().filter(|a| a.as_region().is_none()).map(|a| s(a.to_string())).collect();
            o.push(("gens".into(), J::A(gens)));
            let preds: Vec<J> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| s(with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip())))).collect();
            o.push(("preds".into(), J::A(preds)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self_ty".into(), s(with_no_trimmed_paths!(st.to_string()))));
            if let TyKind::Adt(a, _) = st.kind() {
                o.push(("self_adt".into(), s(self.rawpath(a.did()))));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("impl_trait".into(), s(self.rawpath(tr.skip_binder().def_id))));
                o.push(("impl_ref".into(), s(with_no_trimmed_paths!(tr.skip_binder().to_string()))));
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), s(self.rawpath(t))));
        }
        o
    }
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let i = Instance { def: InstanceKind::Item(d), args: tcx.erase_and_anonymize_regions(args) };
            self.want(i, env);
        }
        // iterator methods of every returned iterator type
        let mut meths: Vec<(&str, DefId)> = vec![];
        for t in tcx.all_traits_including_private() {
            let p = self.rawpath(t);
            let want: &[&str] = match p.as_str() {
                "core::iter::traits::iterator::Iterator" => &["next", "size_hint"],
                "core::iter::traits::double_ended::DoubleEndedIterator" => &["next_back"],
                "core::iter::traits::exact_size::ExactSizeIterator" => &["len"],
                _ => continue,
            };
            for w in want {
                for x in tcx.associated_item_def_ids(t) {
                    if tcx.item_name(*x).as_str() == *w { meths.push((w, *x)); }
                }
            }
        }
        let mut iters = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let out = tcx.liberate_late_bound_regions(d, tcx.fn_sig(d).instantiate_identity().skip_norm_wip().output());
            let out = tcx.erase_and_anonymize_regions(out);
            let out = self.norm(env, out);
            if !matches!(out.kind(), TyKind::Adt(..)) {
                continue;
            }
            let args0 = tcx.mk_args(&[out.into()]);
            let mut o = vec![("fn".to_string(), s(self.rawpath(d)))];
            for (w, m) in &meths {
                if let Ok(Some(_)) = Instance::try_resolve(tcx, env, *m, args0) {
                    let c = self.callee(*m, args0, env);
                    o.push((w.to_string(), c));
                }
            }
            if o.len() > 1 {
                let ti = self.ty(out, env);
                o.push(("ty".into(), J::I(ti as i64)));
                iters.push(J::O(o));
            }
        }
        let mut n = 0;
        loop {
            if let Some((i, env, key)) = self.queue.pop_front() {
                n += 1;
                if n > 6000 {
                    break;
                }
                let body = tcx.instance_mir(i.def);
                let b = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body.clone())) {
                    Ok(b) => b,
                    Err(_) => continue,
                };
                let mut h = self.head(i.def_id());
                h.push(("key".into(), s(key.clone())));
                let ga = self.targs(i.args, env);
                h.push(("gargs".into(), ga));
                let j = self.body(&b, env, h);
                self.fns.push((key, j));
            } else if let Some((d, args, prom, env, key)) = self.consts.pop_front() {
                let body: Option<&Body<'tcx>> = match prom {
                    Some(p) => if tcx.is_mir_available(d) || d.is_local() { tcx.promoted_mir(d).get(p) } else { None },
                    None => if d.is_local() && tcx.hir_maybe_body_owned_by(d.expect_local()).is_some() { Some(tcx.mir_for_ctfe(d)) } else { None },
                };
                if let Some(body) = body {
                    let eb = ty::EarlyBinder::bind(tcx, body.clone());
                    let b = match tcx.try_instantiate_and_normalize_erasing_regions(args, env, eb) {
                        Ok(b) => b,
                        Err(_) => continue,
                    };
                    let h = vec![("path".to_string(), s(self.rawpath(d))), ("key".to_string(), s(key.clone())), ("isconst".to_string(), J::B(true)), ("local".to_string(), J::B(d.is_local()))];
                    let j = self.body(&b, env, h);
                    self.fns.push((key, j));
                }
            } else if !self.tyq.is_empty() {
                self.flush_tys();
            } else {
                break;
            }
        }
        self.flush_tys();
        // impls and items
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let h = tcx.impl_trait_header(d);
                let preds: Vec<J> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| s(with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip())))).collect();
                impls.push(obj! {
                    "self": s(with_no_trimmed_paths!(st.to_string())),
                    "adt": if let TyKind::Adt(a, _) = st.kind() { s(self.rawpath(a.did())) } else { J::N },
                    "trait": s(self.rawpath(tr.def_id)),
                    "ref": s(with_no_trimmed_paths!(tr.to_string())),
                    "unsafe": J::B(h.safety.is_unsafe()),
                    "neg": J::B(matches!(h.polarity, ty::ImplPolarity::Negative)),
                    "derived": J::B(tcx.is_automatically_derived(d)),
                    "preds": J::A(preds),
                    "items": J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(tcx.item_name(*x).to_string())).collect()),
                    "span": s(self.span(tcx.def_span(d))),
                });
            }
        }
        let mut items = vec![];
        let ev = tcx.effective_visibilities(());
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Static { .. } | DefKind::Trait | DefKind::Mod) {
                items.push(obj! {"kind": s(format!("{:?}", k)), "path": s(self.rawpath(d)), "exported": J::B(ev.is_exported(ld)), "span": s(self.span(tcx.def_span(d)))});
            }
        }
        // source-level unsafe
        let mut uns = vec![];
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<(String, rustc_span::Span)>, cur: String }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.out.push((self.cur.clone(), b.span));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
            fn visit_nested_body(&mut self, id: rustc_hir::BodyId) {
                let b = self.tcx.hir_body(id);
                self.visit_body(b);
            }
        }
        for ld in tcx.hir_body_owners() {
            if tcx.is_typeck_child(ld.to_def_id()) { continue; }
            let b = tcx.hir_body_owned_by(ld);
            let mut out = vec![];
            let mut v = V { tcx, out: &mut out, cur: self.rawpath(ld.to_def_id()) };
            use rustc_hir::intravisit::Visitor;
            v.visit_body(b);
            for (f, sp) in out {
                uns.push(obj! {"fn": s(f), "span": s(self.span(sp))});
            }
        }
        let fns = std::mem::take(&mut self.fns);
        let tl = std::mem::take(&mut self.tylist);
        obj! {
            "crate": s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string()),
            "types": J::A(tl.into_iter().map(|x| x.unwrap_or(J::N)).collect()),
            "fns": J::O(fns),
            "impls": J::A(impls),
            "items": J::A(items),
            "unsafe": J::A(uns),
            "iters": J::A(iters),
        }
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRFACTS_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let want = std::env::var("MIRFACTS_CRATE").unwrap_or_else(|_| "lazy_clone_collections".into());
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let mut d = Dump { tcx, tys: HashMap::new(), tylist: vec![], tyq: VecDeque::new(), done: HashSet::new(), queue: VecDeque::new(), fns: vec![], consts: VecDeque::new() };
        let j = d.run();
        let mut st = String::new();
        j.write(&mut st);
        std::fs::write(out, st).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
