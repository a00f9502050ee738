#![feature(rustc_private)]
//! Compiler driver: dumps the monomorphised MIR of the crate under analysis
//! (all local functions, over a set of candidate type arguments, plus every
//! reachable callee that has a body and is not on the stop list) as JSON.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArg, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_rows: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    fn_rows: Vec<String>,
    stop: Vec<String>,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("crate::{}", p)
        } else {
            p
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self
            .tcx
            .try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(self.tcx.erase_and_anonymize_regions(t)))
            .unwrap_or(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_rows.len();
        self.types.insert(t, i);
        self.type_rows.push(String::new());
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut row = format!("{{\"s\":{}", esc(&s));
        match t.kind() {
            ty::Bool => row.push_str(",\"k\":\"bool\""),
            ty::Char => row.push_str(",\"k\":\"char\""),
            ty::Int(it) => {
                let _ = write!(row, ",\"k\":\"int\",\"w\":{},\"sg\":1", it.bit_width().unwrap_or(64));
            }
            ty::Uint(it) => {
                let _ = write!(row, ",\"k\":\"int\",\"w\":{},\"sg\":0", it.bit_width().unwrap_or(64));
            }
            ty::Float(_) => row.push_str(",\"k\":\"float\""),
            ty::Str => row.push_str(",\"k\":\"str\""),
            ty::Never => row.push_str(",\"k\":\"never\""),
            ty::Adt(def, args) => {
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let _ = write!(row, ",\"k\":\"{}\",\"path\":{}", kind, esc(&self.path(def.did())));
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(self.ty(t).to_string());
                    }
                }
                let _ = write!(row, ",\"args\":[{}]", a.join(","));
                // discriminants & fields
                let mut vs = vec![];
                let opaque = def.is_union();
                if !opaque {
                    let discs: Vec<u128> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
                    } else {
                        vec![0]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = ft.skip_norm_wip();
                            let ftid = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), ftid));
                        }
                        vs.push(format!(
                            "[{},{},[{}]]",
                            esc(v.name.as_str()),
                            discs.get(vi.as_usize()).copied().unwrap_or(0),
                            fs.join(",")
                        ));
                    }
                }
                let _ = write!(row, ",\"vs\":[{}]", vs.join(","));
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(row, ",\"k\":\"array\",\"e\":{},\"n\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                let _ = write!(row, ",\"k\":\"slice\",\"e\":{}", e);
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                let _ = write!(row, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut() as u8);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                let _ = write!(row, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut() as u8);
            }
            ty::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                let _ = write!(row, ",\"k\":\"tuple\",\"es\":[{}]", v.join(","));
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let mut extra = String::new();
                let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, *d));
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env(), *d, args) {
                    let id = self.inst(inst);
                    let _ = write!(extra, ",\"fn\":{}", id);
                }
                let _ = write!(row, ",\"k\":\"fndef\",\"path\":{}{}", esc(&p), extra);
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|e| self.ty(e).to_string())
                    .collect();
                let inst = Instance::resolve_closure(self.tcx, *d, args, args.as_closure().kind());
                let id = self.inst(inst);
                let names: Vec<String> = self.tcx.closure_captures_names(*d);
                let _ = write!(
                    row,
                    ",\"k\":\"closure\",\"es\":[{}],\"fn\":{},\"ckind\":\"{:?}\",\"caps\":[{}]",
                    ups.join(","),
                    id,
                    args.as_closure().kind(),
                    names.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",")
                );
            }
            ty::FnPtr(..) => row.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => row.push_str(",\"k\":\"dyn\""),
            _ => row.push_str(",\"k\":\"other\""),
        }
        // size
        if let Ok(l) = self.tcx.layout_of(env().as_query_input(t)) {
            if l.is_sized() {
                let _ = write!(row, ",\"size\":{}", l.size.bytes());
            }
        }
        row.push('}');
        self.type_rows[i] = row;
        i
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(i) = self.insts.get(&inst) {
            return *i;
        }
        let i = self.fn_rows.len();
        self.insts.insert(inst, i);
        self.fn_rows.push(String::new());
        self.queue.push_back((i, inst));
        i
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end as u8)
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tid = self.ty(t);
        if depth > 6 {
            return format!("[\"opaque\",{}]", tid);
        }
        match t.kind() {
            ty::FnDef(..) => return format!("[\"fn\",{}]", tid),
            ty::Ref(_, inner, _) => {
                // strings / byte slices / refs to consts
                match v {
                    ConstValue::Slice { alloc_id, meta } => {
                        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                            let a = a.inner();
                            let ok = matches!(inner.kind(), ty::Str)
                                || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8);
                            if ok {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    0..(meta as usize),
                                );
                                let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("[\"bytes\",[{}],{}]", l.join(","), tid);
                            }
                        }
                        return format!("[\"opaque\",{}]", tid);
                    }
                    ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                        let (prov, off) = ptr.into_raw_parts();
                        let aid = prov.alloc_id();
                        if let Some(GlobalAlloc::Memory(_)) = self.tcx.try_get_global_alloc(aid) {
                            if inner.is_sized(self.tcx, env()) {
                                let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                let s = self.cval(iv, *inner, depth + 1);
                                return format!("[\"ref\",{},{}]", s, tid);
                            }
                        }
                        if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(aid) {
                            return format!("[\"static\",{},{}]", esc(&self.path(d)), tid);
                        }
                        return format!("[\"opaque\",{}]", tid);
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        // a wide or thin reference stored in memory
                        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                            let a = a.inner();
                            let ps = 8u64;
                            let prov = a.provenance().ptrs().iter().find(|(o, _)| *o == offset).map(|(_, p)| *p);
                            if let Some(p) = prov {
                                let o = offset.bytes() as usize;
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
                                let poff = u64::from_le_bytes(b.try_into().unwrap());
                                if inner.is_sized(self.tcx, env()) {
                                    if let Some(GlobalAlloc::Memory(_)) = self.tcx.try_get_global_alloc(p.alloc_id()) {
                                        let iv = ConstValue::Indirect {
                                            alloc_id: p.alloc_id(),
                                            offset: rustc_abi::Size::from_bytes(poff),
                                        };
                                        let s = self.cval(iv, *inner, depth + 1);
                                        return format!("[\"ref\",{},{}]", s, tid);
                                    }
                                } else {
                                    let o2 = o + ps as usize;
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o2..o2 + 8);
                                    let meta = u64::from_le_bytes(b.try_into().unwrap());
                                    if poff == 0 {
                                        return self.cval(
                                            ConstValue::Slice { alloc_id: p.alloc_id(), meta },
                                            t,
                                            depth + 1,
                                        );
                                    }
                                }
                            }
                        }
                        return format!("[\"opaque\",{}]", tid);
                    }
                    _ => return format!("[\"opaque\",{}]", tid),
                }
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return format!("[\"int\",{},{}]", s.to_bits_unchecked(), tid);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                        let a = a.inner();
                        let sz = self.tcx.layout_of(env().as_query_input(t)).unwrap().size;
                        let o = offset.bytes() as usize;
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz.bytes() as usize);
                        let mut x: u128 = 0;
                        for (i, c) in b.iter().enumerate() {
                            x |= (*c as u128) << (8 * i);
                        }
                        return format!("[\"int\",{},{}]", x, tid);
                    }
                }
                return format!("[\"opaque\",{}]", tid);
            }
            ty::Adt(def, _) if def.is_union() => return format!("[\"opaque\",{}]", tid),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() && def.variants().is_empty() {
                        return format!("[\"opaque\",{}]", tid);
                    }
                }
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                    let fs: Vec<String> =
                        d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    return format!("[\"agg\",{},{},[{}]]", tid, vi, fs.join(","));
                }
                return format!("[\"opaque\",{}]", tid);
            }
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => format!("[\"zst\",{}]", tid),
            _ => format!("[\"opaque\",{}]", tid),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("[\"fn\",{}]", tid);
        }
        match c.const_.eval(self.tcx, env(), c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => format!("[\"opaque\",{}]", tid),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. }) as u8)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},2]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), t)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0);
                let b = self.operand(&ab.1);
                format!("[\"bin\",\"{:?}\",{},{}]", op, a, b)
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let fs = fs.join(",");
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"arr\",{},[{}]]", t, fs)
                    }
                    AggregateKind::Tuple => format!("[\"tup\",[{}]]", fs),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        format!(
                            "[\"adt\",{},{},[{}],{}]",
                            t,
                            vi.as_usize(),
                            fs,
                            active.map(|a| a.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        format!("[\"adt\",{},0,[{}],-1]", t, fs)
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("[\"rawptr\",{},[{}]]", t, fs)
                    }
                    _ => "[\"?\",\"aggregate\"]".to_string(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), m.is_mut() as u8),
            Rvalue::ThreadLocalRef(_) => "[\"?\",\"tls\"]".to_string(),
            Rvalue::WrapUnsafeBinder(..) => "[\"?\",\"wub\"]".to_string(),
        }
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = self.path(did);
        let full = ty::print::with_no_trimmed_paths!(format!("{}", inst));
        let mut row = format!("{{\"id\":{},\"path\":{},\"inst\":{}", id, esc(&path), esc(&full));
        let krate = tcx.crate_name(did.krate).to_string();
        let _ = write!(row, ",\"crate\":{}", esc(&krate));
        let _ = write!(row, ",\"local\":{}", did.is_local() as u8);
        if did.is_local() {
            let _ = write!(row, ",\"pub\":{}", tcx.visibility(did).is_public() as u8);
        }
        if let Some(n) = tcx.opt_item_name(did) {
            let _ = write!(row, ",\"name\":{}", esc(n.as_str()));
        }
        if let Some(ai) = tcx.opt_associated_item(did) {
            if let Some(tr) = tcx.trait_impl_of_assoc(did) {
                let trid = tcx.impl_trait_id(tr);
                let _ = write!(row, ",\"trait\":{}", esc(&self.path(trid)));
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(row, ",\"trait\":{},\"tdef\":1", esc(&self.path(tr)));
            }
            let _ = ai;
        }
        // self type of impl
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate(tcx, inst.args).skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(row, ",\"self\":{}", st);
        }
        let mut a = vec![];
        for g in inst.args.iter() {
            if let Some(t) = g.as_type() {
                a.push(self.ty(t).to_string());
            }
        }
        let _ = write!(row, ",\"args\":[{}]", a.join(","));
        let kind = format!("{:?}", inst.def);
        let kind = kind.split('(').next().unwrap_or("").to_string();
        let _ = write!(row, ",\"kind\":{}", esc(&kind));
        if tcx.intrinsic(did).is_some() {
            let _ = write!(row, ",\"intr\":1");
        }
        // should we descend?
        let descend = if did.is_local() {
            true
        } else {
            let p = path.trim_start_matches(|c| c == '<' || c == '&' || c == '(' || c == '[');
            let p = p.strip_prefix("'a ").unwrap_or(p);
            !self.stop.iter().any(|s| p.starts_with(s.as_str()))
        };
        let avail = match inst.def {
            ty::InstanceKind::Item(d) => {
                let k = tcx.def_kind(d);
                matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))
                    && tcx.is_mir_available(d)
                    && tcx.intrinsic(d).map(|i| !i.must_be_overridden).unwrap_or(true)
            }
            ty::InstanceKind::Virtual(..) | ty::InstanceKind::Intrinsic(..) => false,
            _ => !kind.contains("DropGlue"),
        };
        let sig = {
            let t = inst.ty(tcx, env());
            match t.kind() {
                ty::FnDef(..) => {
                    let s = t.fn_sig(tcx);
                    let s = tcx.instantiate_bound_regions_with_erased(s);
                    Some((s.inputs().to_vec(), s.output()))
                }
                _ => None,
            }
        };
        if let Some((ins, out)) = sig {
            let i: Vec<String> = ins.iter().map(|t| self.ty(*t).to_string()).collect();
            let o = self.ty(out);
            let _ = write!(row, ",\"sig\":[[{}],{}]", i.join(","), o);
        }
        if !(descend && avail) {
            row.push_str(",\"body\":0}");
            self.fn_rows[id] = row;
            return;
        }
        let mir = tcx.instance_mir(inst.def).clone();
        let mir = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env(), ty::EarlyBinder::bind(tcx, mir));
        let (file, line) = self.loc(mir.span);
        let _ = write!(
            row,
            ",\"body\":1,\"file\":{},\"line\":{},\"nargs\":{},\"spread\":{}",
            esc(&file),
            line,
            mir.arg_count,
            mir.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1)
        );
        let ls: Vec<String> = mir.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(row, ",\"locals\":[{}]", ls.join(","));
        let mut vars = vec![];
        for v in &mir.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    vars.push(format!("\"{}\":{}", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        vars.sort();
        vars.dedup_by(|a, b| a.split(':').next() == b.split(':').next());
        let _ = write!(row, ",\"vars\":{{{}}}", vars.join(","));
        let mut bbs = vec![];
        for bb in mir.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!(
                            "[\"sd\",{},{},{}]",
                            p,
                            variant_index.as_usize(),
                            self.line(s.source_info.span)
                        ));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let l = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&mir.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "[\"sw\",{},[{}],{},{},{}]",
                        d,
                        v.join(","),
                        targets.otherwise().as_usize(),
                        dt,
                        l
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => format!("[\"unreach\",{}]", l),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&mir.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
                            match Instance::try_resolve(tcx, env(), *d, a) {
                            Ok(Some(i)) => {
                                let id = self.inst(i);
                                format!("[\"i\",{}]", id)
                            }
                            _ => {
                                let p = self.path(*d);
                                format!("[\"u\",{}]", esc(&p))
                            }
                        }}
                        _ => format!("[\"p\",{}]", self.operand(func)),
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&mir.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&mir.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(
                        "[\"call\",{},[{}],[{}],{},{},{},{}]",
                        f,
                        av.join(","),
                        at.join(","),
                        d,
                        dt,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        l
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(160).collect();
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{},{}]",
                        c,
                        *expected as u8,
                        kind,
                        esc(&m),
                        target.as_usize(),
                        l
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
            };
            bbs.push(format!(
                "{{\"s\":[{}],\"t\":{},\"cl\":{}}}",
                st.join(","),
                ts,
                bb.is_cleanup as u8
            ));
        }
        let _ = write!(row, ",\"bbs\":[{}]}}", bbs.join(",\n"));
        self.fn_rows[id] = row;
    }
}

trait CapNames<'tcx> {
    fn closure_captures_names(&self, d: DefId) -> Vec<String>;
}
impl<'tcx> CapNames<'tcx> for TyCtxt<'tcx> {
    fn closure_captures_names(&self, d: DefId) -> Vec<String> {
        match d.as_local() {
            Some(l) => self
                .closure_captures(l)
                .iter()
                .map(|c| c.to_symbol().to_string())
                .collect(),
            None => vec![],
        }
    }
}

fn substitutions<'tcx>(tcx: TyCtxt<'tcx>, did: DefId, cands: &[Ty<'tcx>], max: usize) -> Vec<ty::GenericArgsRef<'tcx>> {
    let generics = tcx.generics_of(did);
    let mut names: Vec<(u32, String)> = vec![];
    let mut g = Some(generics);
    let mut n_ty = 0;
    while let Some(gg) = g {
        for p in &gg.own_params {
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                names.push((p.index, p.name.to_string()));
                n_ty += 1;
            }
            if let ty::GenericParamDefKind::Const { .. } = p.kind {
                return vec![];
            }
        }
        g = gg.parent.map(|p| tcx.generics_of(p));
    }
    if n_ty > 4 {
        return vec![];
    }
    names.sort();
    let mut out = vec![];
    let per: Vec<Vec<Ty<'tcx>>> = names
        .iter()
        .map(|(_, n)| {
            cands
                .iter()
                .copied()
                .filter(|t| {
                    let s = t.to_string();
                    let s = s.rsplit("::").next().unwrap_or("");
                    match n.as_str() {
                        "Role" => matches!(s, "Client" | "Server" | "Any"),
                        "PacketIdType" => matches!(s, "u16" | "u32"),
                        _ => true,
                    }
                })
                .collect()
        })
        .collect();
    let total: usize = per.iter().map(|p| p.len()).product();
    if total > 80000 {
        return vec![];
    }
    for mut k in 0..total {
        let mut pick = vec![];
        for p in &per {
            pick.push(p[k % p.len()]);
            k /= p.len();
        }
        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => {
                let i = names.iter().position(|(ix, _)| *ix == p.index).unwrap();
                GenericArg::from(pick[i])
            }
            ty::GenericParamDefKind::Const { .. } => unreachable!(),
        });
        // all where clauses must hold
        if tcx.instantiate_and_check_impossible_clauses((did, args)) {
            continue;
        }
        out.push(args);
        if out.len() >= max {
            break;
        }
    }
    out
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let stop: Vec<String> = std::fs::read_to_string(std::env::var("MIRDUMP_STOP").unwrap_or_default())
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect();
        let mut cx = Cx {
            tcx,
            types: HashMap::new(),
            type_rows: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            fn_rows: vec![],
            stop,
        };
        // candidate type arguments
        let mut cands: Vec<Ty<'tcx>> = vec![tcx.types.u16, tcx.types.u32];
        for id in tcx.hir_crate_items(()).free_items() {
            let did = id.owner_id.to_def_id();
            if let DefKind::Struct = tcx.def_kind(did) {
                let n = tcx.item_name(did).to_string();
                if ["Client", "Server", "Any", "MqttString", "MqttBinary", "VariableByteInteger"].contains(&n.as_str())
                    && tcx.generics_of(did).own_params.is_empty()
                {
                    cands.push(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                }
                let p = tcx.def_path_str(did);
                if p.contains("packet::v3_1_1::") || p.contains("packet::v5_0::") {
                    let g = tcx.generics_of(did);
                    if g.own_params.is_empty() {
                        cands.push(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    } else if g.own_params.len() == 1 {
                        for a in [tcx.types.u16, tcx.types.u32] {
                            let args = tcx.mk_args(&[GenericArg::from(a)]);
                            cands.push(tcx.type_of(did).instantiate(tcx, args).skip_norm_wip());
                        }
                    }
                }
            }
        }
        let st = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.str_);
        cands.push(st);
        cands.push(Ty::new_imm_ref(
            tcx,
            tcx.lifetimes.re_erased,
            Ty::new_slice(tcx, tcx.types.u8),
        ));
        // Vec<element> arguments of the packet builders: the element types, through any Vec alias of the crate
        let mut elems: Vec<Ty<'tcx>> = vec![st];
        let mut vec_ty = None;
        for id in tcx.hir_crate_items(()).free_items() {
            let did = id.owner_id.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Struct | DefKind::Enum) && ["Property", "SubEntry", "MqttString"].contains(&tcx.item_name(did).as_str())
                && tcx.generics_of(did).own_params.is_empty()
            {
                elems.push(tcx.type_of(did).instantiate_identity().skip_norm_wip());
            }
        }
        if let (Some(v), Some(g)) = (tcx.get_diagnostic_item(rustc_span::sym::Vec), tcx.lang_items().global_alloc_ty()) {
            let g = tcx.type_of(g).instantiate_identity().skip_norm_wip();
            vec_ty = Some((v, g));
        }
        if let Some((v, g)) = vec_ty {
            for e in elems {
                let args = tcx.mk_args(&[GenericArg::from(e), GenericArg::from(g)]);
                cands.push(tcx.type_of(v).instantiate(tcx, args).skip_norm_wip());
            }
        }
        let mut roots = 0usize;
        let mut skipped = vec![];
        let mut ids: Vec<DefId> = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                ids.push(did);
            }
        }
        ids.sort_by_key(|d| tcx.def_path_hash(*d));
        let mut root_ids = vec![];
        for did in ids {
            if !tcx.is_mir_available(did) {
                continue;
            }
            if let Some(_tr) = tcx.trait_of_assoc(did) {
                continue; // trait default bodies are reached through impls
            }
            let subs = substitutions(tcx, did, &cands, 400);
            if subs.is_empty() {
                skipped.push(cx.path(did));
            }
            for s in subs {
                match Instance::try_resolve(tcx, env(), did, s) {
                    Ok(Some(i)) => {
                        roots += 1;
                        let id = cx.inst(i);
                        root_ids.push(id);
                    }
                    _ => skipped.push(cx.path(did)),
                }
            }
        }
        while let Some((id, inst)) = cx.queue.pop_front() {
            cx.body(id, inst);
        }
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"crate\":{},\"roots\":{},\"nroots\":{},\"skipped\":[{}],\n\"types\":[\n",
            esc(&tcx.crate_name(LOCAL_CRATE).to_string()),
            format!("{:?}", root_ids),
            roots,
            skipped.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        );
        o.push_str(&cx.type_rows.join(",\n"));
        o.push_str("\n],\n\"fns\":[\n");
        o.push_str(&cx.fn_rows.join(",\n"));
        o.push_str("\n]}\n");
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}

struct Pass;
impl Callbacks for Pass {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = !out.is_empty()
        && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target)
        && !args.iter().any(|a| a == "--test");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Pass);
    }
}
