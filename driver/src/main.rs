//! Fact extractor: a rustc driver that dumps the monomorphised MIR reachable from
//! the entry points of one crate (plus trait facts) as JSON. It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_meta: Vec<String>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    bodies: Vec<(usize, String)>,
    want_std: Vec<String>,
    errors: Vec<String>,
    all_poly: bool,
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return "?".to_string();
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let name = with_no_trimmed_paths!(format!("{}", t));
        let tcx = self.tcx;
        let body = match *t.kind() {
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let mut vs = vec![];
                if self.types.len() < 200000 {
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env(), ft)
                                .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                            let fid = self.ty(ft);
                            fs.push(format!("[{},{}]", js(f.name.as_str()), fid));
                        }
                        vs.push(format!("{{\"n\":{},\"f\":[{}]}}", js(v.name.as_str()), fs.join(",")));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"args\":[{}],\"kind\":\"{}\",\"vs\":[{}]",
                    js(&self.path(def.did())),
                    a.join(","),
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
                    vs.join(",")
                )
            }
            ty::Ref(_, x, m) => format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(x)),
            ty::RawPtr(x, m) => format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(x)),
            ty::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(x)),
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(x), n)
            }
            ty::Tuple(l) => {
                let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", a.join(","))
            }
            ty::Closure(d, args) => {
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                let inst = Instance::new_raw(d, args);
                let i = self.inst(inst);
                format!("\"k\":\"closure\",\"path\":{},\"inst\":{},\"up\":[{}]", js(&self.path(d)), i, up.join(","))
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                match self.resolve(d, args) {
                    Some(i) => format!("\"k\":\"fndef\",\"path\":{},\"inst\":{}", js(&self.path(d)), i),
                    None => format!("\"k\":\"fndef\",\"path\":{}", js(&self.path(d))),
                }
            }
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Str | ty::Never => {
                "\"k\":\"prim\"".to_string()
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_out[id] = format!("{{\"name\":{},{}}}", js(&name), body);
        self.iterator(t);
        id
    }

    /// `next` of the crate's own iterators: they are mostly driven through adapters of the standard library
    fn iterator(&mut self, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let ty::Adt(def, _) = *t.kind() else { return };
        if self.all_poly || t.has_param() || !self.is_ours(tcx.crate_name(def.did().krate).as_str()) {
            return;
        }
        let Some(tr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return };
        let t = tcx.erase_and_anonymize_regions(t);
        let implemented = tcx
            .all_impls(tr)
            .any(|i| matches!(*tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty().kind(), ty::Adt(d, _) if d.did() == def.did()));
        if !implemented {
            return;
        }
        let next = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == "next").map(|x| x.def_id);
        if let Some(n) = next {
            self.resolve(n, tcx.mk_args(&[t.into()]));
        }
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        if self.all_poly || args.has_param() {
            return None;
        }
        match Instance::try_resolve(self.tcx, self.env(), d, args) {
            Ok(Some(i)) => Some(self.inst(i)),
            _ => None,
        }
    }

    fn is_ours(&self, krate: &str) -> bool {
        krate.starts_with("basic_dsp") || krate.starts_with("harness")
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let id = self.inst_meta.len();
        self.insts.insert(i, id);
        self.inst_meta.push(String::new());
        let tcx = self.tcx;
        let d = i.def_id();
        let krate = tcx.crate_name(d.krate).to_string();
        let path = self.path(d);
        let full = with_no_trimmed_paths!(format!("{}", i));
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "llvm",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => "closure_once",
                ShimKind::FnPtr(..) => "fnptr_shim",
                ShimKind::DropGlue(..) => "drop",
                ShimKind::Clone(..) => "clone_shim",
                _ => "shim",
            },
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let targs: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
        let trait_of = tcx
            .trait_of_assoc(d)
            .or_else(|| {
                if tcx.is_closure_like(d) {
                    None
                } else {
                    tcx.impl_of_assoc(d).and_then(|im| {
                        if matches!(tcx.def_kind(im), DefKind::Impl { of_trait: true }) {
                            Some(tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().def_id)
                        } else {
                            None
                        }
                    })
                }
            })
            .map(|t| self.path(t));
        let parent = tcx.opt_parent(d).map(|p| self.path(p)).unwrap_or_default();
        let sp = self.span(tcx.def_span(d));
        let ours = self.is_ours(&krate);
        let want = ours
            || krate == "num_complex"
            || self.want_std.iter().any(|p| path.starts_with(p.as_str()) || full.starts_with(p.as_str()));
        let mut has_body = false;
        if want {
            let ok = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
                InstanceKind::Shim(s) => !matches!(s, ShimKind::DropGlue(..)),
                _ => false,
            };
            if ok {
                has_body = true;
                self.queue.push_back((id, i));
            } else if ours && kind == "item" {
                self.errors.push(format!("no MIR for {}", full));
            }
        }
        self.inst_meta[id] = format!(
            "{{\"id\":{},\"path\":{},\"full\":{},\"name\":{},\"kind\":\"{}\",\"crate\":{},\"targs\":[{}],\"trait\":{},\"parent\":{},\"span\":{},\"body\":{}}}",
            id,
            js(&path),
            js(&full),
            js(&name),
            kind,
            js(&krate),
            targs.join(","),
            trait_of.map(|t| js(&t)).unwrap_or("null".into()),
            js(&parent),
            js(&sp),
            has_body
        );
        id
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, "[\"f\",{},{}]", f.as_u32(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, "[\"d\",{}]", v.as_u32());
                }
                _ => o.push_str("\"?\""),
            }
        }
        o.push(']');
        o
    }

    fn constval(&mut self, v: ConstValue, t: ty::Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        match (v, *t.kind()) {
            (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)), k) if t.is_scalar() || t.is_primitive() => {
                let size = i.size();
                let bits = i.to_bits(size);
                Some(match k {
                    ty::Float(ty::FloatTy::F64) => format!("{{\"f\":{}}}", js(&format!("{:?}", f64::from_bits(bits as u64)))),
                    ty::Float(ty::FloatTy::F32) => format!("{{\"f\":{}}}", js(&format!("{:?}", f32::from_bits(bits as u32)))),
                    ty::Int(_) => format!("{{\"i\":{}}}", i.to_int(size)),
                    ty::Bool => format!("{{\"b\":{}}}", bits != 0),
                    ty::Uint(_) | ty::Char => format!("{{\"i\":{}}}", bits),
                    _ => format!("{{\"bits\":{}}}", bits),
                })
            }
            (ConstValue::ZeroSized, ty::FnDef(..)) | (ConstValue::ZeroSized, ty::Closure(..)) => Some("{\"z\":1}".to_string()),
            (_, ty::Ref(_, inner, _)) => {
                if inner.is_str() || inner.is_slice() || matches!(inner.kind(), ty::Dynamic(..)) {
                    return None;
                }
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) = self.tcx.try_get_global_alloc(id) {
                        let iv = if self.sized_scalar(inner) {
                            self.read_scalar(id, off, inner)?
                        } else {
                            ConstValue::Indirect { alloc_id: id, offset: off }
                        };
                        let s = self.constval(iv, inner, depth + 1)?;
                        return Some(format!("{{\"ref\":{}}}", s));
                    }
                }
                None
            }
            (ConstValue::Indirect { alloc_id, offset }, _) if self.sized_scalar(t) => {
                let iv = self.read_scalar(alloc_id, offset, t)?;
                self.constval(iv, t, depth + 1)
            }
            (_, ty::Adt(..)) | (_, ty::Tuple(..)) | (_, ty::Array(..)) => {
                if let ty::Array(_, n) = *t.kind() {
                    if n.try_to_target_usize(self.tcx).map_or(true, |n| n > 8) {
                        return None;
                    }
                }
                let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.constval(*fv, *ft, depth + 1).unwrap_or("null".to_string()));
                }
                let tid = self.ty(t);
                Some(format!("{{\"agg\":[{},{},[{}]]}}", tid, d.variant.map_or(0, |v| v.as_usize()), fs.join(",")))
            }
            _ => None,
        }
    }

    fn sized_scalar(&self, t: ty::Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_))
    }

    fn read_scalar(&self, id: rustc_middle::mir::interpret::AllocId, off: rustc_abi::Size, t: ty::Ty<'tcx>) -> Option<ConstValue> {
        let lay = self.tcx.layout_of(self.env().as_query_input(t)).ok()?;
        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) {
            let r = rustc_middle::mir::interpret::AllocRange { start: off, size: lay.size };
            let s = a.inner().read_scalar(&self.tcx, r, false).ok()?;
            return Some(ConstValue::Scalar(s));
        }
        None
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, sp: rustc_span::Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap();
            let _ = write!(extra, ",\"fn\":{}", js(&self.path(d)));
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                let _ = write!(extra, ",\"trait\":{}", js(&self.path(tr)));
            }
            if let Some(i) = self.resolve(d, args) {
                let _ = write!(extra, ",\"inst\":{}", i);
            }
            let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
            let _ = write!(extra, ",\"targs\":[{}]", a.join(","));
            return format!("{{\"k\":\"fn\",\"ty\":{}{}}}", tid, extra);
        }
        let has_param = c.has_param();
        let mut val = String::from("null");
        if !has_param {
            if let Ok(v) = c.eval(self.tcx, self.env(), sp) {
                if let Some(s) = self.constval(v, t, 0) {
                    val = s;
                }
            }
        }
        let txt = with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"k\":\"c\",\"ty\":{},\"v\":{},\"t\":{}}}", tid, val, js(&txt))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(&c.const_, c.span)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }

    fn ops<'a>(&mut self, it: impl Iterator<Item = &'a Operand<'tcx>>) -> String
    where
        'tcx: 'a,
    {
        let v: Vec<String> = it.map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", js(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, f) => {
                let fs = self.ops(f.iter());
                match **k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{}]", self.ty(t), fs),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",-1,0,{}]", fs),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        format!("[\"agg\",\"adt\",{},{},{}]", self.ty(t), v.as_u32(), fs)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        format!("[\"agg\",\"closure\",{},0,{}]", self.ty(t), fs)
                    }
                    _ => format!("[\"agg\",\"other\",-1,0,{}]", fs),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    /// the methods of types which become trait objects are reachable too
    fn vtables(&mut self, b: &Body<'tcx>) {
        let tcx = self.tcx;
        for bb in b.basic_blocks.iter() {
            for st in &bb.statements {
                let StatementKind::Assign(a) = &st.kind else { continue };
                let Rvalue::Cast(CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), o, t) = &a.1 else { continue };
                let from = o.ty(&b.local_decls, tcx);
                let pointee = |t: Ty<'tcx>| t.builtin_deref(true).or_else(|| t.boxed_ty());
                let (Some(f), Some(t)) = (pointee(from), pointee(*t)) else { continue };
                if let ty::Dynamic(preds, _) = t.kind() {
                    let Some(tr) = preds.principal() else { continue };
                    if f.has_param() {
                        continue;
                    }
                    let tr = tcx.instantiate_bound_regions_with_erased(tr.with_self_ty(tcx, f));
                    let tr = tcx.erase_and_anonymize_regions(tr);
                    for e in tcx.vtable_entries(tr) {
                        if let ty::VtblEntry::Method(i) = e {
                            self.inst(*i);
                        }
                    }
                }
            }
        }
    }

    fn body(&mut self, id: usize, b: &Body<'tcx>, unsafe_fn: bool) {
        let mut o = String::new();
        let _ = write!(o, "{{\"id\":{},\"argc\":{},\"span\":{},\"unsafe\":{}", id, b.arg_count, js(&self.span(b.span)), unsafe_fn);
        let spread = b.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1);
        let _ = write!(o, ",\"spread\":{}", spread);
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let ls: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_u32()) {
                    Some(n) => format!("[{},{}]", t, js(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let _ = write!(o, ",\"locals\":[{}],\"blocks\":[", ls.join(","));
        if std::env::var("DSPV_VTABLES").is_ok() {
            self.vtables(b);
        }
        let mut first = true;
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if !first {
                o.push(',');
            }
            first = false;
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            let mut ss = vec![];
            for s in &bb.statements {
                let line = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_u32(), line));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            ss.push(format!("[\"copyno\",{}]", line));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    let d = self.operand(discr);
                    format!("[\"switch\",{},[{}],{},{}]", d, v.join(","), targets.otherwise().as_u32(), line)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = self.ops(args.iter().map(|x| &x.node));
                    let d = self.place(destination);
                    let tg = target.map(|x| x.as_u32() as i64).unwrap_or(-1);
                    let (src, spn) = {
                        let s = self.span(t.source_info.span);
                        (js(&s), 0)
                    };
                    let _ = spn;
                    format!("[\"call\",{},{},{},{},{},{}]", f, a, d, tg, line, src)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond);
                    let kind = match **msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div",
                        _ => "other",
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!(",{},{}", self.operand(len), self.operand(index))
                        }
                        _ => String::new(),
                    };
                    format!("[\"assert\",{},{},{},\"{}\",{}{}]", c, expected, target.as_u32(), kind, line, extra)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{}}}", ss.join(","), ts);
        }
        o.push_str("]}");
        self.bodies.push((id, o));
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return 0;
        }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn run_queue(&mut self) {
        while let Some((id, i)) = self.queue.pop_front() {
            let tcx = self.tcx;
            let body = tcx.instance_mir(i.def);
            let body = match i.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env(),
                ty::EarlyBinder::bind(tcx, body.clone()),
            ) {
                Ok(b) => b,
                Err(_) => {
                    self.errors.push(format!("cannot instantiate {}", i));
                    continue;
                }
            };
            let d = i.def_id();
            let uns = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_unsafe();
            self.body(id, &body, uns);
        }
    }
}

struct Cb;

fn dump(tcx: TyCtxt<'_>) {
    let out = match std::env::var("DSPV_OUT") {
        Ok(o) => o,
        Err(_) => return,
    };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let wanted = std::env::var("DSPV_CRATE").unwrap_or_default();
    if krate != wanted {
        return;
    }
    let want_std: Vec<String> = std::env::var("DSPV_STD")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let poly = std::env::var("DSPV_MODE").map(|m| m == "poly").unwrap_or(false);
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_out: vec![],
        insts: HashMap::new(),
        inst_meta: vec![],
        queue: VecDeque::new(),
        bodies: vec![],
        want_std,
        errors: vec![],
        all_poly: poly,
    };
    let mut roots = vec![];
    let mut fns = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let path = cx.path(d);
        let generic = tcx.generics_of(d).requires_monomorphization(tcx);
        let (vis, abi, nm, uns, sig) = if matches!(dk, DefKind::Closure) {
            (false, String::new(), false, false, String::new())
        } else {
            let vis = tcx.effective_visibilities(()).is_exported(ld);
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let attrs = tcx.codegen_fn_attrs(d);
            let nm = attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
            (
                vis,
                format!("{:?}", sig.abi()),
                nm,
                sig.safety().is_unsafe(),
                with_no_trimmed_paths!(format!("{}", sig)),
            )
        };
        let mut inst = -1i64;
        if !poly && !generic && matches!(dk, DefKind::Fn) {
            let i = Instance::mono(tcx, d);
            let id = cx.inst(i);
            inst = id as i64;
            roots.push(id);
        }
        let sp = cx.span(tcx.def_span(d));
        fns.push(format!(
            "{{\"path\":{},\"name\":{},\"dk\":{},\"generic\":{},\"pub\":{},\"abi\":{},\"no_mangle\":{},\"unsafe\":{},\"sig\":{},\"inst\":{},\"span\":{}}}",
            js(&path),
            js(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            js(&format!("{:?}", dk)),
            generic,
            vis,
            js(&abi),
            nm,
            uns,
            js(&sig),
            inst,
            js(&sp)
        ));
        if poly {
            let body = tcx.optimized_mir(d);
            let id = cx.bodies.len();
            let body = body.clone();
            cx.body(id, &body, uns);
            let l = fns.len() - 1;
            let s = fns[l].clone();
            fns[l] = format!("{},\"body\":{}}}", &s[..s.len() - 1], id);
        }
    }
    cx.run_queue();

    // trait facts: which (probe type, trait) pairs hold; probe types are the return types of fns named ty_*
    let mut traits_out = vec![];
    if std::env::var("DSPV_TRAITS").is_ok() {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let mut probes = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn) {
                continue;
            }
            let n = tcx.item_name(d).to_string();
            if let Some(rest) = n.strip_prefix("ty_") {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(sig.output().skip_binder());
                let t = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t));
                probes.push((rest.to_string(), t));
            }
        }
        let mut traits: Vec<DefId> = tcx
            .all_traits_including_private()
            .filter(|d| tcx.crate_name(d.krate).as_str().starts_with("basic_dsp"))
            .collect();
        traits.sort_by_key(|d| cx.path(*d));
        for (pn, pt) in &probes {
            for &tr in &traits {
                let generics = tcx.generics_of(tr);
                let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::non_body_analysis());
                let mut args: Vec<ty::GenericArg<'_>> = vec![(*pt).into()];
                for p in generics.own_params.iter().skip(1) {
                    args.push(infcx.var_for_def(rustc_span::DUMMY_SP, p));
                }
                let res = infcx.type_implements_trait(tr, args, ty::ParamEnv::empty());
                let may = res.may_apply();
                let must = res.must_apply_modulo_regions();
                let mets: Vec<String> = tcx
                    .associated_items(tr)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| js(a.name().as_str()))
                    .collect();
                traits_out.push(format!(
                    "{{\"probe\":{},\"trait\":{},\"may\":{},\"must\":{},\"methods\":[{}]}}",
                    js(pn),
                    js(&cx.path(tr)),
                    may,
                    must,
                    mets.join(",")
                ));
            }
        }
    }

    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"roots\":{:?},\n\"fns\":[{}],\n", js(&krate), roots, fns.join(",\n"));
    let _ = write!(o, "\"types\":[{}],\n", cx.type_out.join(",\n"));
    let _ = write!(o, "\"insts\":[{}],\n", cx.inst_meta.join(",\n"));
    let _ = write!(o, "\"traits\":[{}],\n", traits_out.join(",\n"));
    let er: Vec<String> = cx.errors.iter().map(|e| js(e)).collect();
    let _ = write!(o, "\"errors\":[{}],\n", er.join(","));
    let bs: Vec<String> = cx.bodies.iter().map(|b| b.1.clone()).collect();
    let _ = write!(o, "\"bodies\":[{}]}}\n", bs.join(",\n"));
    std::fs::write(&out, o).expect("write facts");
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
