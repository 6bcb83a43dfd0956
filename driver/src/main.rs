//! MIR dumper: a rustc driver that, after type checking, writes the MIR of every
//! body of the crate (resolved callees, types, constants, spans) as one JSON file.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct J(String);
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, Option<String>>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        format!("[{},{},{}]", esc(&f), loc.line, loc.col.0 + 1)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, id);
        let s = self.ty_json(t);
        self.types[id] = s;
        id
    }
    fn tys<I: IntoIterator<Item = Ty<'tcx>>>(&mut self, it: I) -> String {
        let v: Vec<String> = it.into_iter().map(|t| self.ty(t).to_string()).collect();
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        use rustc_middle::ty::*;
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            Bool => "\"k\":\"bool\"".into(),
            Char => "\"k\":\"char\"".into(),
            Str => "\"k\":\"str\"".into(),
            Never => "\"k\":\"never\"".into(),
            Int(i) => format!("\"k\":\"int\",\"n\":{}", esc(i.name_str())),
            Uint(i) => format!("\"k\":\"uint\",\"n\":{}", esc(i.name_str())),
            Float(i) => format!("\"k\":\"float\",\"n\":{}", esc(i.name_str())),
            Adt(def, args) => {
                let d = def.did();
                if !self.adts.contains_key(&d) {
                    self.adts.insert(d, None);
                    self.adt_queue.push(d);
                }
                let p = self.path(d);
                let a = self.tys(args.types());
                format!("\"k\":\"adt\",\"path\":{},\"args\":{}", esc(&p), a)
            }
            Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), i)
            }
            RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), i)
            }
            Slice(e) => {
                let i = self.ty(*e);
                format!("\"k\":\"slice\",\"t\":{}", i)
            }
            Array(e, n) => {
                let i = self.ty(*e);
                let l = n.try_to_target_usize(self.tcx);
                format!("\"k\":\"array\",\"t\":{},\"len\":{}", i, l.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Tuple(ts) => {
                let a = self.tys(ts.iter());
                format!("\"k\":\"tuple\",\"args\":{}", a)
            }
            Closure(d, args) => {
                let ups = args.as_closure().upvar_tys();
                let a = self.tys(ups.iter());
                let p = self.path(*d);
                format!("\"k\":\"closure\",\"path\":{},\"args\":{}", esc(&p), a)
            }
            FnDef(d, args) => {
                let a = self.tys(args.skip_binder().types());
                let p = self.path(*d);
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", esc(&p), a)
            }
            FnPtr(..) => "\"k\":\"fnptr\"".into(),
            Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            Dynamic(..) => "\"k\":\"dyn\"".into(),
            Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{},\"s\":{}}}", body, esc(&disp))
    }

    fn bytes_of(&self, cv: &ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        // &str / &[u8] slices, and &[u8; N]
        let inner = match t.kind() {
            ty::Ref(_, i, _) => *i,
            _ => return None,
        };
        match (cv, inner.kind()) {
            (ConstValue::Slice { alloc_id, meta }, _) => {
                match self.tcx.global_alloc(*alloc_id) {
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let n = *meta as usize;
                        let ok = match inner.kind() {
                            ty::Str => true,
                            ty::Slice(e) => *e == self.tcx.types.u8,
                            _ => false,
                        };
                        if !ok {
                            return None;
                        }
                        if n > a.len() {
                            return None;
                        }
                        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec())
                    }
                    _ => None,
                }
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Array(e, n)) if *e == self.tcx.types.u8 => {
                let n = n.try_to_target_usize(self.tcx)? as usize;
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let o = off.bytes() as usize;
                        if o + n > a.len() {
                            return None;
                        }
                        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec())
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = self.path(d);
        let a = self.tys(args.types());
        let tr = tcx
            .trait_of_assoc(d)
            .map(|t| esc(&self.path(t)))
            .unwrap_or("null".into());
        let mut inst = "null".to_string();
        let mut ikind = "null".to_string();
        let mut iargs = "[]".to_string();
        let mut local = d.is_local();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                inst = esc(&self.path(i.def_id()));
                local = i.def_id().is_local();
                ikind = esc(match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                });
                iargs = self.tys(i.args.types());
            }
        }
        format!(
            "{{\"decl\":{},\"args\":{},\"trait\":{},\"inst\":{},\"ikind\":{},\"iargs\":{},\"local\":{}}}",
            esc(&decl), a, tr, inst, ikind, iargs, local
        )
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(*d, args.skip_binder(), env);
            return format!("{{\"o\":\"c\",\"ty\":{},\"fn\":{}}}", tid, cal);
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let p = self.path(u.def);
            let _ = write!(
                extra,
                ",\"uneval\":{},\"promoted\":{}",
                esc(&p),
                u.promoted.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
            );
            use rustc_middle::ty::TypeVisitableExt;
            if c.const_.has_param() {
                return format!("{{\"o\":\"c\",\"ty\":{}{}}}", tid, extra);
            }
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(cv) => {
                if let Some(b) = self.bytes_of(&cv, t) {
                    match std::str::from_utf8(&b) {
                        Ok(s) if t.builtin_deref(true).map_or(false, |i| i.is_str()) => {
                            return format!("{{\"o\":\"c\",\"ty\":{}{},\"str\":{}}}", tid, extra, esc(s));
                        }
                        _ => {
                            let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("{{\"o\":\"c\",\"ty\":{}{},\"bytes\":[{}]}}", tid, extra, l.join(","));
                        }
                    }
                }
                match cv {
                    ConstValue::Scalar(Scalar::Int(si)) => {
                        let v = match t.kind() {
                            ty::Int(_) => si.to_int(si.size()).to_string(),
                            _ => si.to_bits(si.size()).to_string(),
                        };
                        format!("{{\"o\":\"c\",\"ty\":{}{},\"int\":{}}}", tid, extra, esc(&v))
                    }
                    ConstValue::ZeroSized => {
                        format!("{{\"o\":\"c\",\"ty\":{}{},\"zst\":true}}", tid, extra)
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        // a reference to a single integer/char/&str
                        let mut e2 = String::new();
                        let (prov, off) = p.prov_and_relative_offset();
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Memory(a) => {
                                let a = a.inner();
                                let o = off.bytes() as usize;
                                if let ty::Ref(_, inner, _) = t.kind() {
                                    if matches!(inner.kind(), ty::Char | ty::Bool | ty::Int(_) | ty::Uint(_)) {
                                        if let Ok(l) = tcx.layout_of(env.as_query_input(*inner)) {
                                            let n = l.size.bytes() as usize;
                                            if o + n <= a.len() {
                                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                                let mut v: u128 = 0;
                                                for (i, x) in b.iter().enumerate() {
                                                    v |= (*x as u128) << (8 * i);
                                                }
                                                let _ = write!(e2, ",\"refint\":{}", esc(&v.to_string()));
                                            }
                                        }
                                    }
                                }
                            }
                            GlobalAlloc::Static(d) => {
                                let p = self.path(d);
                                let _ = write!(e2, ",\"static\":{}", esc(&p));
                            }
                            _ => {}
                        }
                        format!("{{\"o\":\"c\",\"ty\":{}{}{},\"ptr\":true}}", tid, extra, e2)
                    }
                    _ => format!("{{\"o\":\"c\",\"ty\":{}{},\"opaque\":true}}", tid, extra),
                }
            }
            Err(_) => format!("{{\"o\":\"c\",\"ty\":{}{}}}", tid, extra),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{},[]]", p.local.as_usize());
        }
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"p\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"p\",\"m\":true,\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            other => format!("{{\"o\":\"rt\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let l = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                    self.operand(o, env),
                    l.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(k, p) => {
                let _ = k;
                format!("{{\"r\":\"ref\",\"raw\":true,\"mut\":true,\"p\":{}}}", self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ti = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"ty\":{}}}", esc(&ks), self.operand(o, env), ti)
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(&ab.0, env),
                self.operand(&ab.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"r\":\"un\",\"op\":{},\"a\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(a, env)
            ),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kd = match &**k {
                    AggregateKind::Array(t) => format!("\"k\":\"array\",\"ty\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".into(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        if !self.adts.contains_key(d) {
                            self.adts.insert(*d, None);
                            self.adt_queue.push(*d);
                        }
                        let a = self.tys(args.types());
                        format!(
                            "\"k\":\"adt\",\"path\":{},\"v\":{},\"args\":{}{}",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            a,
                            active.map(|f| format!(",\"active\":{}", f.as_usize())).unwrap_or_default()
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"k\":\"closure\",\"path\":{}", esc(&self.path(*d))),
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".into(),
                    _ => "\"k\":\"other\"".into(),
                };
                format!("{{\"r\":\"agg\",{},\"ops\":[{}]}}", kd, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"p\",\"p\":{}}}}}", self.place(p)),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut out = String::new();
        let locals: Vec<String> = b
            .local_decls
            .iter()
            .map(|d| {
                let t = self.ty(d.ty);
                t.to_string()
            })
            .collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(
            out,
            "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[",
            b.arg_count,
            locals.join(","),
            names.join(",")
        );
        for (i, (_bb, data)) in b.basic_blocks.iter_enumerated().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let mut ss = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pl = self.place(p);
                        let rv = self.rvalue(r, env);
                        let sp = self.span(s.source_info.span);
                        ss.push(format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"sp\":{}}}", pl, rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        ss.push(format!("{{\"s\":\"setd\",\"p\":{},\"v\":{}}}", pl, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| -> String {
                match u {
                    UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                    _ => "null".into(),
                }
            };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, bb)| format!("[{},{}]", esc(&v.to_string()), bb.as_usize()))
                        .collect();
                    format!(
                        "\"t\":\"switch\",\"d\":{},\"dty\":{},\"ts\":[{}],\"else\":{}",
                        d, dt, ts.join(","), targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"t\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pti = self.ty(pt);
                    format!(
                        "\"t\":\"drop\",\"p\":{},\"pty\":{},\"to\":{},\"uw\":{}",
                        self.place(place), pti, target.as_usize(), uw(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    format!(
                        "\"t\":\"call\",\"f\":{},\"args\":[{}],\"dst\":{},\"to\":{},\"uw\":{}",
                        f, a.join(","), self.place(destination),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                        uw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len, env), self.operand(index, env)])
                        }
                        AssertKind::Overflow(op, a, c) => {
                            (format!("overflow:{:?}", op), vec![self.operand(a, env), self.operand(c, env)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a, env)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a, env)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a, env)]),
                        o => (format!("other:{:?}", std::mem::discriminant(o)), vec![]),
                    };
                    format!(
                        "\"t\":\"assert\",\"c\":{},\"exp\":{},\"k\":{},\"ops\":[{}],\"to\":{},\"uw\":{}",
                        self.operand(cond, env), expected, esc(&mk), ops.join(","), target.as_usize(), uw(unwind)
                    )
                }
                TerminatorKind::UnwindResume => "\"t\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "\"t\":\"abort\"".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                o => format!("\"t\":\"other\",\"s\":{}", esc(&format!("{:?}", o))),
            };
            let _ = write!(
                out,
                "{{\"cl\":{},\"ss\":[{}],\"tm\":{{{},\"sp\":{}}}}}",
                data.is_cleanup,
                ss.join(","),
                tj,
                sp
            );
        }
        out.push(']');
        out
    }

    fn drain_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let tcx = self.tcx;
            let def = tcx.adt_def(d);
            let krate = tcx.crate_name(d.krate).to_string();
            let want_fields = d.is_local() || (def.is_enum() && !matches!(krate.as_str(), "std" | "alloc"))
                || krate == "toon" || krate == "toon_rs";
            let mut vs = vec![];
            for v in def.variants() {
                let mut fs = vec![];
                for f in &v.fields {
                    let t = if want_fields {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        self.ty(ft).to_string()
                    } else {
                        "null".into()
                    };
                    fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
                }
                vs.push(format!("{{\"n\":{},\"f\":[{}]}}", esc(v.name.as_str()), fs.join(",")));
            }
            let discrs: Vec<String> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, x)| esc(&x.val.to_string())).collect()
            } else {
                vec![]
            };
            let gens: Vec<String> = {
                let g = tcx.generics_of(d);
                g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| esc(p.name.as_str())).collect()
            };
            self.adts.insert(
                d,
                Some(format!(
                    "{{\"path\":{},\"krate\":{},\"local\":{},\"enum\":{},\"variants\":[{}],\"discr\":[{}],\"generics\":[{}]}}",
                    esc(&self.path(d)),
                    esc(&krate),
                    d.is_local(),
                    def.is_enum(),
                    vs.join(","),
                    discrs.join(","),
                    gens.join(",")
                )),
            );
        }
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), adt_queue: vec![] };
    let mut fns: Vec<String> = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if matches!(kind, DefKind::Ctor(..)) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let is_const_fn_only = !is_fn;
        let body: &Body<'tcx> = if is_const_fn_only { tcx.mir_for_ctfe(ld) } else { tcx.optimized_mir(ld) };
        let mut s = String::new();
        let parent_impl = tcx.impl_of_assoc(d);
        let mut impl_trait = "null".to_string();
        let mut self_ty = "null".to_string();
        if let Some(i) = parent_impl {
            if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                impl_trait = esc(&cx.path(tr.instantiate_identity().skip_norm_wip().def_id));
            }
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            self_ty = cx.ty(st).to_string();
        }
        let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        let from_exp = tcx.def_span(d).from_expansion();
        let parent = tcx.opt_parent(d).map(|p| cx.path(p)).unwrap_or_default();
        let root = cx.path(tcx.typeck_root_def_id(d));
        let gens: Vec<String> = {
            let mut v = vec![];
            let mut g = Some(tcx.generics_of(d));
            while let Some(gg) = g {
                let mut own: Vec<String> = gg.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| esc(p.name.as_str())).collect();
                own.append(&mut v);
                v = own;
                g = gg.parent.map(|p| tcx.generics_of(p));
            }
            v
        };
        let _ = write!(
            s,
            "{{\"path\":{},\"name\":{},\"kind\":{},\"vis\":{},\"exp\":{},\"parent\":{},\"root\":{},\"impl_trait\":{},\"self_ty\":{},\"generics\":[{}],\"span\":{},",
            esc(&cx.path(d)), esc(&name), esc(&format!("{:?}", kind)), vis, from_exp, esc(&parent), esc(&root), impl_trait, self_ty, gens.join(","), cx.span(tcx.def_span(d))
        );
        if matches!(kind, DefKind::Closure) {
            let caps: Vec<String> = tcx
                .closure_captures(ld)
                .iter()
                .map(|c| esc(&c.var_ident.name.as_str().to_string()))
                .collect();
            let _ = write!(s, "\"captures\":[{}],", caps.join(","));
        }
        s.push_str(&cx.body(body, env));
        if is_fn || true {
            let proms = tcx.promoted_mir(d);
            let mut ps = vec![];
            for pb in proms.iter() {
                ps.push(format!("{{{}}}", cx.body(pb, env)));
            }
            let _ = write!(s, ",\"promoted\":[{}]", ps.join(","));
        }
        s.push('}');
        fns.push(s);
    }
    // trait impls of the crate
    let mut impls = vec![];
    for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
        for i in ids {
            let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            let items: Vec<String> = tcx
                .associated_items(i.to_def_id())
                .in_definition_order()
                .map(|a| esc(&cx.path(a.def_id)))
                .collect();
            impls.push(format!("{{\"trait\":{},\"self\":{},\"items\":[{}],\"span\":{}}}", esc(&cx.path(*tr)), sti, items.join(","), cx.span(tcx.def_span(i.to_def_id()))));
        }
    }
    impls.sort();
    let mut uv = UnsafeV { tcx, found: vec![] };
    tcx.hir_walk_toplevel_module(&mut uv);
    let us: Vec<String> = uv.found.iter().map(|s| {
        format!("{{\"exp\":{},\"sp\":{}}}", s.from_expansion(), cx.span(*s))
    }).collect();
    cx.drain_adts();
    let mut adts: Vec<String> = cx.adts.values().flatten().cloned().collect();
    adts.sort();
    let feats: Vec<String> = {
        let mut v: Vec<String> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").filter_map(|(_, v)| v.map(|x| esc(x.as_str()))).collect();
        v.sort();
        v
    };
    let j = J(format!(
        "{{\"crate\":{},\"features\":[{}],\"types\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"unsafe\":[{}],\n\"fns\":[{}]}}",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        feats.join(","),
        cx.types.join(",\n"),
        adts.join(",\n"),
        impls.join(",\n"),
        us.join(","),
        fns.join(",\n")
    ));
    std::fs::write(out, j.0).expect("write dump");
}

struct Cb {
    dir: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let p = format!("{}/{}.json", self.dir, name);
        dump(tcx, &p);
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let dir = std::env::var("MIRDUMP_DIR").unwrap_or_default();
    let has_crate = args.iter().any(|a| a == "--crate-name");
    let is_build_script = args.iter().any(|a| a == "build_script_build" || a == "___");
    let is_print = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    if dir.is_empty() || !has_crate || is_build_script || is_print {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { dir });
}
