// mirdump: rustc driver that compiles one crate exactly as cargo asks for it and, after analysis,
// writes the optimisation-level-0, monomorphic MIR of every function of that crate (and of every
// function those reach, as far as the follow list allows) as JSON.  Nothing is rewritten.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_json: Vec<Option<String>>,
    queue: VecDeque<Instance>,
    follow: Vec<String>,
    stop: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(js(&format!("{:?}", c.eval_target_usize()))),
                _ => {}
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let name = js(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#""k":"bool""#.to_string(),
                RigidTy::Char => r#""k":"char""#.to_string(),
                RigidTy::Int(i) => format!(r#""k":"int","signed":true,"bits":{}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#""k":"int","signed":false,"bits":{}"#, i.num_bytes() * 8),
                RigidTy::Float(f) => format!(r#""k":"float","f":{}"#, js(&format!("{:?}", f))),
                RigidTy::Str => r#""k":"str""#.to_string(),
                RigidTy::Never => r#""k":"never""#.to_string(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!(r#""k":"tuple","elems":{}"#, arr(v))
                }
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|n| n as i64).unwrap_or(-1);
                    format!(r#""k":"array","elem":{e},"len":{n}"#)
                }
                RigidTy::Slice(e) => format!(r#""k":"slice","elem":{}"#, self.ty(e)),
                RigidTy::Ref(_, e, m) => format!(r#""k":"ref","mut":{},"to":{}"#, m == Mutability::Mut, self.ty(e)),
                RigidTy::RawPtr(e, m) => format!(r#""k":"ptr","mut":{},"to":{}"#, m == Mutability::Mut, self.ty(e)),
                RigidTy::Adt(def, ref args) => {
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(args);
                            let fid = self.ty(fty);
                            fs.push(format!("[{},{}]", js(&f.name.to_string()), fid));
                        }
                        let d = if def.kind().is_enum() { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!(r#"{{"name":{},"discr":{},"fields":{}}}"#, js(&v.name()), d, arr(fs)));
                    }
                    let a = self.args(args);
                    format!(r#""k":"adt","def":{},"akind":{},"args":{},"variants":{}"#, js(&def.name()), js(&format!("{:?}", def.kind())), a, arr(vs))
                }
                RigidTy::FnDef(def, ref args) => {
                    let inst = Instance::resolve(def, args).ok();
                    let i = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    let a = self.args(args);
                    format!(r#""k":"fndef","decl":{},"args":{},"inst":{}"#, js(&def.name()), a, i)
                }
                RigidTy::Closure(def, ref args) => {
                    let mut inst = None;
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(def, args, k) {
                            inst = Some(i);
                            break;
                        }
                    }
                    let i = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    let up = args.0.iter().rev().find_map(|a| a.ty().copied());
                    let up = up.map(|u| self.ty(u).to_string()).unwrap_or("null".into());
                    format!(r#""k":"closure","def":{},"inst":{},"upvars":{}"#, js(&def.name()), i, up)
                }
                RigidTy::FnPtr(_) => r#""k":"fnptr""#.to_string(),
                RigidTy::Dynamic(..) => r#""k":"dyn""#.to_string(),
                _ => r#""k":"other""#.to_string(),
            },
            _ => r#""k":"nonrigid""#.to_string(),
        };
        self.ty_json[id] = format!(r#"{{"id":{id},"name":{name},{body}}}"#);
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.inst_json.len();
        self.insts.insert(i, k);
        self.inst_json.push(None);
        self.queue.push_back(i);
        k
    }

    fn want_body(&self, name: &str, i: &Instance) -> bool {
        if i.def.krate().is_local {
            return true;
        }
        // closure shims (a closure taken as a function pointer or by FnOnce) only call the closure
        if i.kind == InstanceKind::Shim && name.starts_with("<{closure") {
            return true;
        }
        if self.stop.iter().any(|s| name.contains(s.as_str())) {
            return false;
        }
        self.follow.iter().any(|s| name.contains(s.as_str()))
    }

    // --- constants
    fn dec_alloc(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        self.dec(t, a, off, depth).unwrap_or_else(|| r#"{"k":"unknown"}"#.to_string())
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() { return None; }
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            v = (v << 8) | (a.bytes[off + i]? as u128);
        }
        Some(v)
    }
    fn prov(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| GlobalAlloc::from(p.0))
    }
    fn dec_ptr_to(&mut self, to: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        let meta_len = self.rd(a, off + 8, 8);
        let g = self.prov(a, off);
        match g {
            None => {
                // dangling pointer (e.g. to an empty slice or a ZST)
                match to.kind() {
                    TyKind::RigidTy(RigidTy::Slice(_)) if meta_len == Some(0) => Some(format!(r#"{{"k":"slice","ty":{},"elems":[]}}"#, self.ty(to))),
                    TyKind::RigidTy(RigidTy::Str) if meta_len == Some(0) => Some(r#"{"k":"str","v":""}"#.into()),
                    _ => {
                        if to.layout().ok().map(|l| l.shape().size.bytes()) == Some(0) {
                            Some(format!(r#"{{"k":"zst","ty":{}}}"#, self.ty(to)))
                        } else { None }
                    }
                }
            }
            Some(GlobalAlloc::Memory(m)) => {
                let base = self.rd(a, off, 8)? as usize;
                match to.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = meta_len? as usize;
                        let b: Option<Vec<u8>> = (0..n).map(|i| m.bytes[base + i]).collect();
                        let s = String::from_utf8(b?).ok()?;
                        Some(format!(r#"{{"k":"str","v":{}}}"#, js(&s)))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = meta_len? as usize;
                        let sz = e.layout().ok()?.shape().size.bytes();
                        let mut v = vec![];
                        for i in 0..n { v.push(self.dec(e, &m, base + i * sz, depth + 1)?); }
                        Some(format!(r#"{{"k":"slice","ty":{},"elems":{}}}"#, self.ty(to), arr(v)))
                    }
                    _ => self.dec(to, &m, base, depth + 1),
                }
            }
            Some(GlobalAlloc::Function(i)) => Some(format!(r#"{{"k":"fn","inst":{}}}"#, self.inst(i))),
            Some(GlobalAlloc::Static(s)) => Some(format!(r#"{{"k":"static","name":{}}}"#, js(&s.name()))),
            _ => None,
        }
    }
    fn dec(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 40 { return None; }
        let tid = self.ty(t);
        let TyKind::RigidTy(r) = t.kind() else { return None };
        match r {
            RigidTy::Bool => Some(format!(r#"{{"k":"bool","v":{}}}"#, self.rd(a, off, 1)? != 0)),
            RigidTy::Char => Some(format!(r#"{{"k":"char","v":{}}}"#, self.rd(a, off, 4)?)),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = self.rd(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                let v = ((v << sh) as i128) >> sh;
                Some(format!(r#"{{"k":"int","ty":{tid},"v":{v}}}"#))
            }
            RigidTy::Uint(i) => Some(format!(r#"{{"k":"int","ty":{tid},"v":{}}}"#, self.rd(a, off, i.num_bytes())?)),
            RigidTy::Float(_) => {
                let n = t.layout().ok()?.shape().size.bytes();
                Some(format!(r#"{{"k":"float","ty":{tid},"bits":{},"sz":{n}}}"#, self.rd(a, off, n)?))
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let x = self.dec_ptr_to(to, a, off, depth)?;
                Some(format!(r#"{{"k":"ref","ty":{tid},"to":{x}}}"#))
            }
            RigidTy::FnPtr(_) => match self.prov(a, off)? {
                GlobalAlloc::Function(i) => Some(format!(r#"{{"k":"fn","inst":{}}}"#, self.inst(i))),
                _ => None,
            },
            RigidTy::FnDef(..) => Some(format!(r#"{{"k":"zst","ty":{tid}}}"#)),
            RigidTy::Tuple(ts) => {
                let offs = match t.layout().ok()?.shape().fields { FieldsShape::Arbitrary { offsets } => offsets, _ => if ts.is_empty() { vec![] } else { return None } };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.dec(*ft, a, off + offs[i].bytes(), depth + 1)?); }
                Some(format!(r#"{{"k":"agg","ty":{tid},"variant":0,"fields":{}}}"#, arr(v)))
            }
            RigidTy::Closure(_, ref args) => {
                let up = args.0.iter().rev().find_map(|a| a.ty().copied())?;
                let TyKind::RigidTy(RigidTy::Tuple(ts)) = up.kind() else { return None };
                let offs = match t.layout().ok()?.shape().fields { FieldsShape::Arbitrary { offsets } => offsets, _ => if ts.is_empty() { vec![] } else { return None } };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.dec(*ft, a, off + offs[i].bytes(), depth + 1)?); }
                Some(format!(r#"{{"k":"agg","ty":{tid},"variant":0,"fields":{}}}"#, arr(v)))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n { v.push(self.dec(e, a, off + i * sz, depth + 1)?); }
                Some(format!(r#"{{"k":"array","ty":{tid},"elems":{}}}"#, arr(v)))
            }
            RigidTy::Adt(def, ref args) => {
                let sh = t.layout().ok()?.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), FieldsShape::Union(_) => return None, _ => vec![0; 64] };
                        (rustc_public_idx(index), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let prim = match tag { rustc_public::abi::Scalar::Initialized { value, .. } => *value, rustc_public::abi::Scalar::Union { value } => *value };
                        let n = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = self.rd(a, off + toff, n)?;
                                let mut found = None;
                                let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                for v in def.variants_iter() {
                                    if def.discriminant_for_variant(v.idx()).val & mask == raw { found = Some(rustc_public_idx(&v.idx())); }
                                }
                                found?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr { rustc_public_idx(untagged_variant) } else {
                                    let raw = self.rd(a, off + toff, n)?;
                                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let s = rustc_public_idx(niche_variants.start()) as u128;
                                    let e = rustc_public_idx(niche_variants.end()) as u128;
                                    if rel <= e - s { (s + rel) as usize } else { rustc_public_idx(untagged_variant) }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    _ => return None,
                };
                let var = def.variants()[vi].clone();
                let mut v = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let ft = f.ty_with_args(args);
                    let o = *offs.get(i)?;
                    v.push(self.dec_alloc(ft, a, off + o, depth + 1));
                }
                Some(format!(r#"{{"k":"agg","ty":{tid},"variant":{vi},"fields":{}}}"#, arr(v)))
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!(r#"{{"k":"zst","ty":{tid}}}"#),
            ConstantKind::Allocated(a) => self.dec_alloc(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => { let (ty, a) = (*ty, a.clone()); self.dec_alloc(ty, &a, 0, 0) }
                TyConstKind::ZSTValue(ty) => format!(r#"{{"k":"zst","ty":{}}}"#, self.ty(*ty)),
                _ => r#"{"k":"unknown"}"#.into(),
            },
            k => format!(r#"{{"k":"unknown","why":{}}}"#, js(&format!("{:?}", k))),
        }
    }

    // --- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                ProjectionElem::Field(i, t) => format!(r#"["field",{},{}]"#, i, self.ty(*t)),
                ProjectionElem::Index(l) => format!(r#"["index",{}]"#, l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["cindex",{offset},{min_length},{from_end}]"#),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["subslice",{from},{to},{from_end}]"#),
                ProjectionElem::Downcast(v) => format!(r#"["downcast",{}]"#, rustc_public_idx(v)),
                ProjectionElem::OpaqueCast(t) => format!(r#"["opaque",{}]"#, self.ty(*t)),
            });
        }
        format!(r#"{{"l":{},"p":{}}}"#, p.local, arr(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["copy",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["move",{}]"#, self.place(p)),
            Operand::Constant(c) => format!(r#"["const",{}]"#, self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!(r#"["rtcheck",{}]"#, js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!(r#"["addrof",{},{}]"#, matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!(r#"["array",{}]"#, self.ty(*t)),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(r#"["adt",{},{},{}]"#, t, rustc_public_idx(v), active.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => format!(r#"["closure",{}]"#, self.ty(Ty::new_closure(*d, a.clone()))),
                    AggregateKind::RawPtr(t, _) => format!(r#"["rawptr",{}]"#, self.ty(*t)),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{k},{}]"#, arr(o))
            }
            Rvalue::BinaryOp(b, x, y) => format!(r#"["bin",{},{},{}]"#, js(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(r#"["chk",{},{},{}]"#, js(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => format!(r#"["cast",{},{},{}]"#, js(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!(r#"["reborrow",{},{}]"#, *m == Mutability::Mut, self.place(p)),
            Rvalue::Repeat(o, n) => format!(r#"["repeat",{},{}]"#, self.operand(o), n.eval_target_usize().map(|n| n as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(i) => format!(r#"["tls",{}]"#, js(&i.name())),
            Rvalue::UnaryOp(u, o) => format!(r#"["un",{},{}]"#, js(&format!("{:?}", u)), self.operand(o)),
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let mut locals = vec![];
        for l in b.locals() { locals.push(self.ty(l.ty).to_string()); }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", js(&v.name.to_string()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => format!(r#"["assign",{},{}"#, self.place(p), self.rvalue(r)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(r#"["setdiscr",{},{}"#, self.place(place), rustc_public_idx(variant_index)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => format!(r#"["assume",{}"#, self.operand(o)),
                    StatementKind::Intrinsic(_) => r#"["copynonoverlapping""#.to_string(),
                    _ => continue,
                };
                ss.push(format!("{},{}]", x, s.source_info.span.get_lines().start_line));
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{target}"#),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!(r#"["switch",{},{},{}"#, self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => r#"["resume""#.into(),
                TerminatorKind::Abort => r#"["abort""#.into(),
                TerminatorKind::Return => r#"["return""#.into(),
                TerminatorKind::Unreachable => r#"["unreachable""#.into(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"["drop",{},{target}"#, self.place(place)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    format!(r#"["call",{f},{},{d},{}"#, arr(a), target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!(r#"["assert",{},{expected},{},{target}"#, self.operand(cond), js(&m))
                }
                TerminatorKind::InlineAsm { .. } => r#"["asm""#.into(),
            };
            blocks.push(format!(r#"{{"s":{},"t":{},{}]}}"#, arr(ss), t, bb.terminator.source_info.span.get_lines().start_line));
        }
        format!(r#""argc":{},"spread":{},"locals":{},"dbg":{},"blocks":{}"#, b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(locals), arr(dbg), arr(blocks))
    }

    fn drain(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let k = self.insts[&i];
            let name = i.name().to_string();
            let dname = i.def.name().to_string();
            let local = i.def.krate().is_local;
            let sp = i.def.span();
            let file = sp.get_filename().to_string();
            let (l0, l1) = { let l = sp.get_lines(); (l.start_line, l.end_line) };
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let args = i.args();
            let args = self.args(&args);
            let body = if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && self.want_body(&name, &i) && (i.has_body() || (i.kind == InstanceKind::Shim && name.starts_with("<{closure"))) {
                match i.body() { Some(b) => format!(",{}", self.body(&b)), None => String::new() }
            } else { String::new() };
            self.inst_json[k] = Some(format!(
                r#"{{"id":{k},"name":{},"def":{},"kind":"{kind}","local":{local},"file":{},"l0":{l0},"l1":{l1},"args":{args}{body}}}"#,
                js(&name), js(&dname), js(&file)));
        }
    }
}

fn rustc_public_idx(v: &VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

fn roots(d: &mut Dump<'_>) {
    let tcx = d.tcx;
    let krate = rustc_public::local_crate();
    let expr_ty = krate.adts().into_iter().find(|a| { let n = a.name().to_string(); n.ends_with("atom::Expr") || n == "Expr" }).map(|a| a.ty());
    for f in krate.fn_defs() {
        let did = rustc_internal::internal(tcx, f.def_id());
        let gens = tcx.generics_of(did);
        let needs = gens.requires_monomorphization(tcx);
        if !needs {
            let args = GenericArgs(rustc_identity(tcx, did));
            if let Ok(i) = Instance::resolve(f, &args) { if i.has_body() { d.inst(i); } }
        } else if let Some(e) = expr_ty {
            // instantiate every type parameter with &Expr (then Expr, then two pairs of expressions) when the bounds allow it
            use rustc_middle::ty;
            let ie = rustc_internal::internal(tcx, e);
            let re = ty::Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, ie);
            let pair = ty::Ty::new_tup(tcx, &[re, re]);
            for cand in [re, ie, ty::Ty::new_array(tcx, pair, 2)] {
                let mut ok = true;
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => cand.into(),
                    _ => { ok = false; cand.into() }
                });
                if !ok { continue; }
                if tcx.instantiate_and_check_impossible_clauses((did, args)) { continue; }
                let pargs = stable_args(tcx, did, args);
                if let Ok(i) = Instance::resolve(f, &pargs) { if i.has_body() { d.inst(i); } }
                break;
            }
        }
    }
}

fn rustc_identity(tcx: TyCtxt<'_>, did: rustc_span::def_id::DefId) -> Vec<GenericArgKind> {
    use rustc_middle::ty;
    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        _ => unreachable!(),
    });
    stable_args(tcx, did, args).0
}

fn stable_args<'tcx>(tcx: TyCtxt<'tcx>, did: rustc_span::def_id::DefId, args: rustc_middle::ty::GenericArgsRef<'tcx>) -> GenericArgs {
    let t = rustc_internal::stable(rustc_middle::ty::Ty::new_fn_def(tcx, did, rustc_middle::ty::Binder::dummy(args)));
    match t.kind() {
        TyKind::RigidTy(RigidTy::FnDef(_, a)) => a,
        _ => unreachable!(),
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let list = |v: &str| -> Vec<String> {
        std::env::var(v).ok().and_then(|f| std::fs::read_to_string(f).ok()).map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()).unwrap_or_default()
    };
    let mut d = Dump { tcx, tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), inst_json: vec![], queue: VecDeque::new(), follow: list("MIRDUMP_FOLLOW"), stop: list("MIRDUMP_STOP") };
    let nroots = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!({
        roots(&mut d);
        let n = d.inst_json.len();
        d.drain();
        n
    }));
    let fns: Vec<String> = d.inst_json.iter().map(|x| x.clone().unwrap()).collect();
    let s = format!("{{\"nroots\":{nroots},\"types\":[\n{}\n],\"fns\":[\n{}\n]}}\n", d.ty_json.join(",\n"), fns.join(",\n"));
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "calcu_rs".into());
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib")
        && !args.iter().any(|a| a == "--test");
    if !is {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1); }
    }
}
