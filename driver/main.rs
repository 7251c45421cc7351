// MIR extraction driver: dumps the built MIR of every body of a workspace crate as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        format!("{}:{}", name, lo.line)
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push(d);
        }
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let p = self.path(def.did());
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&p), a)
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                format!("{{\"k\":\"slice\",\"t\":{}}}", x)
            }
            ty::Array(x, n) => {
                let x = self.ty(*x);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", x, esc(&format!("{}", n)))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let c = self.callee(*d, args, None);
                format!("{{\"k\":\"fndef\",\"f\":{}}}", c)
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&p))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Bool
            | ty::Char
            | ty::Int(_)
            | ty::Uint(_)
            | ty::Float(_)
            | ty::Str
            | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&t.to_string()))
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&t.to_string())),
        };
        self.ty_out[i] = s;
        i
    }
    fn callee(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<TypingEnv<'tcx>>,
    ) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let pretty = tcx.def_path_str(d);
        let name = tcx
            .opt_item_name(d)
            .map(|s| s.to_string())
            .unwrap_or_default();
        let mut s = format!(
            "{{\"p\":{},\"pp\":{},\"n\":{}",
            esc(&p),
            esc(&pretty),
            esc(&name)
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
            if let Some(t) = args.types().next() {
                let i = self.ty(t);
                let _ = write!(s, ",\"self\":{}", i);
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let i = self.ty(st);
            let _ = write!(s, ",\"impl_self\":{}", i);
        }
        let a = self.args(args);
        let _ = write!(s, ",\"a\":{}", a);
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(s, ",\"ctor\":true");
            let par = tcx.parent(d);
            // variant or struct
            let _ = write!(s, ",\"ctor_of\":{}", esc(&self.path(par)));
            let (adt_did, vidx) = match tcx.def_kind(par) {
                DefKind::Variant => {
                    let adt = tcx.parent(par);
                    let ad = tcx.adt_def(adt);
                    (adt, ad.variant_index_with_id(par).as_usize())
                }
                _ => (par, 0),
            };
            self.adt(adt_did);
            let _ = write!(
                s,
                ",\"ctor_adt\":{},\"ctor_var\":{}",
                esc(&self.path(adt_did)),
                vidx
            );
        }
        if let Some(env) = env {
            if tcx.trait_of_assoc(d).is_some() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "other",
                    };
                    let _ = write!(
                        s,
                        ",\"res\":{},\"resk\":{}",
                        esc(&self.path(rd)),
                        esc(kind)
                    );
                    if let Some(tr) = tcx.trait_of_assoc(rd) {
                        let _ = write!(s, ",\"res_default\":true");
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = t.kind() {
                    return "{\"c\":\"zst\"}".to_string();
                }
                "{\"c\":\"zst\"}".to_string()
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let s = match t.kind() {
                    ty::Int(_) => {
                        let sh = 128 - size.bits();
                        (((bits << sh) as i128) >> sh).to_string()
                    }
                    ty::Float(fty) if size.bytes() == 4 => {
                        format!("\"f:{}\"", f32::from_bits(bits as u32))
                    }
                    ty::Float(fty) if size.bytes() == 8 => {
                        format!("\"f:{}\"", f64::from_bits(bits as u64))
                    }
                    _ => bits.to_string(),
                };
                format!("{{\"c\":\"int\",\"v\":{}}}", s)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => {
                        format!("{{\"c\":\"static\",\"p\":{}}}", esc(&self.path(d)))
                    }
                    Some(GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        let n = a.len();
                        if a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(v))
                        } else {
                            "{\"c\":\"mem\"}".to_string()
                        }
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        format!("{{\"c\":\"fnptr\",\"p\":{}}}", esc(&self.path(instance.def_id())))
                    }
                    _ => "{\"c\":\"ptr\"}".to_string(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                    if is_str {
                        return format!(
                            "{{\"c\":\"str\",\"v\":{}}}",
                            esc(&String::from_utf8_lossy(b))
                        );
                    }
                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(v));
                }
                "{\"c\":\"slice\"}".to_string()
            }
            ConstValue::Indirect { .. } => "{\"c\":\"indirect\"}".to_string(),
        }
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let inner = match t.kind() {
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let cs = self.callee(*d, a, Some(env));
                format!("{{\"c\":\"fn\",\"f\":{}}}", cs)
            }
            _ => match c {
                Const::Val(v, t) => self.const_val(*v, *t),
                Const::Unevaluated(uv, t) => {
                    let p = self.path(uv.def);
                    let mut s = format!("{{\"c\":\"named\",\"p\":{}", esc(&p));
                    let a = self.args(uv.args);
                    let _ = write!(s, ",\"a\":{}", a);
                    if let Some(pr) = uv.promoted {
                        let _ = write!(s, ",\"promoted\":{}", pr.as_usize());
                    }
                    if let Some(tr) = tcx.trait_of_assoc(uv.def) {
                        let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
                    }
                    s.push('}');
                    s
                }
                Const::Ty(_, c) => {
                    format!("{{\"c\":\"tyconst\",\"v\":{}}}", esc(&format!("{}", c)))
                }
            },
        };
        format!("{{\"o\":\"k\",\"t\":{},\"v\":{}}}", ti, inner)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => {
                    let b = pt.ty.is_box();
                    format!("{{\"k\":\"deref\",\"box\":{}}}", b)
                }
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let var = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => {
                                    unreachable!()
                                }
                                None => def.non_enum_variant(),
                            };
                            var.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let of = match pt.ty.kind() {
                        ty::Adt(def, _) => format!(",\"p\":{}", esc(&self.path(def.did()))),
                        _ => String::new(),
                    };
                    format!("{{\"k\":\"f\",\"n\":{},\"i\":{}{}}}", esc(&name), f.as_usize(), of)
                }
                ProjectionElem::Index(l) => format!("{{\"k\":\"idx\",\"l\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => format!(
                    "{{\"k\":\"cidx\",\"o\":{},\"m\":{},\"e\":{}}}",
                    offset, min_length, from_end
                ),
                ProjectionElem::Subslice { from, to, from_end } => format!(
                    "{{\"k\":\"sub\",\"from\":{},\"to\":{},\"e\":{}}}",
                    from, to, from_end
                ),
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("{{\"k\":\"down\",\"n\":{},\"i\":{}}}", esc(&name), v.as_usize())
                }
                _ => format!("{{\"k\":\"cast\"}}"),
            };
            v.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        let ti = self.ty(pt.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(v), ti)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"c\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"m\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(&c.const_, env),
            _ => "{\"o\":\"rt\"}".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(body, o, env),
                esc(&format!("{}", n))
            ),
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => {
                format!("{{\"r\":\"tls\",\"d\":{}}}", esc(&self.path(*d)))
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{}}}",
                    esc(&format!("{:?}", k)),
                    self.operand(body, o, env),
                    ti
                )
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(body, &ab.0, env),
                self.operand(body, &ab.1, env)
            ),
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"r\":\"un\",\"op\":{},\"a\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(body, a, env)
            ),
            Rvalue::Discriminant(p) => {
                format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(body, p))
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(body, o, env)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> = var
                            .fields
                            .iter()
                            .map(|f| esc(f.name.as_str()))
                            .collect();
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"vi\":{},\"fs\":{},\"enum\":{}}}",
                            esc(&self.path(*d)),
                            esc(var.name.as_str()),
                            v.as_usize(),
                            arr(names),
                            def.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&self.path(*d)))
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"f\":{}}}", kind, arr(f))
            }
            Rvalue::CopyForDeref(p) => format!(
                "{{\"r\":\"use\",\"o\":{{\"o\":\"c\",\"p\":{}}}}}",
                self.place(body, p)
            ),
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }
    fn body(&mut self, did: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d));
        let mut s = String::new();
        let kind = match tcx.def_kind(d) {
            DefKind::Closure => "closure",
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let _ = write!(
            s,
            "{{\"path\":{},\"pretty\":{},\"kind\":{},\"span\":{},\"args\":{}",
            esc(&self.path(d)),
            esc(&tcx.def_path_str(d)),
            esc(kind),
            esc(&self.span(tcx.def_span(d))),
            body.arg_count
        );
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(s, ",\"name\":{}", esc(&name));
        let from_exp = tcx.def_span(d).from_expansion();
        let _ = write!(s, ",\"exp\":{}", from_exp);
        if kind == "closure" {
            let par = tcx.parent(d);
            let _ = write!(s, ",\"parent\":{}", esc(&self.path(par)));
            let ups: Vec<String> = tcx
                .closure_captures(did)
                .iter()
                .map(|c| {
                    esc(&format!(
                        "{}{}",
                        if c.is_by_ref() { "&" } else { "" },
                        c.to_symbol()
                    ))
                })
                .collect();
            let _ = write!(s, ",\"upvars\":{}", arr(ups));
        }
        if let Some(im) = tcx.impl_of_assoc(tcx.typeck_root_def_id(d)) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let i = self.ty(st);
            let _ = write!(s, ",\"impl_self\":{}", i);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                let a = self.args(tr.args);
                let _ = write!(s, ",\"impl_trait_args\":{}", a);
            }
        }
        if matches!(kind, "fn" | "method") {
            let vis = tcx.visibility(d);
            let _ = write!(s, ",\"pub\":{}", vis.is_public());
        }
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty).to_string())
            .collect();
        let _ = write!(s, ",\"locals\":{}", arr(locals));
        let names: Vec<String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())))
                }
                _ => None,
            })
            .collect();
        let _ = write!(s, ",\"names\":{}", arr(names));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let e = match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!(
                            "{{\"s\":\"=\",\"p\":{},\"v\":{},\"sp\":{}}}",
                            self.place(body, p),
                            self.rvalue(body, r, env),
                            esc(&self.span(x.source_info.span))
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"s\":\"setd\",\"p\":{},\"i\":{}}}", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => {
                        format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())
                    }
                    StatementKind::StorageLive(l) => {
                        format!("{{\"s\":\"live\",\"l\":{}}}", l.as_usize())
                    }
                    _ => continue,
                };
                st.push(e);
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let te = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    let dt = discr.ty(body, tcx);
                    let di = self.ty(dt);
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"ts\":{},\"else\":{}}}",
                        self.operand(body, discr, env),
                        di,
                        arr(ts),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreach\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"t\":\"drop\",\"p\":{},\"to\":{}}}",
                    self.place(body, place),
                    target.as_usize()
                ),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let a: Vec<String> = args
                        .iter()
                        .map(|x| self.operand(body, &x.node, env))
                        .collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{}}}",
                        self.operand(body, func, env),
                        arr(a),
                        self.place(body, destination),
                        target
                            .map(|t| t.as_usize().to_string())
                            .unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "{{\"t\":\"assert\",\"o\":{},\"e\":{},\"m\":{},\"to\":{}}}",
                    self.operand(body, cond, env),
                    expected,
                    esc(&format!("{:?}", msg).chars().take(60).collect::<String>()),
                    target.as_usize()
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                _ => "{\"t\":\"other\"}".to_string(),
            };
            bbs.push(format!(
                "{{\"s\":{},\"t\":{},\"sp\":{},\"cu\":{}}}",
                arr(st),
                te,
                sp,
                bb.is_cleanup
            ));
        }
        let _ = write!(s, ",\"bbs\":{}}}", arr(bbs));
        s
    }
    fn drain_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let tcx = self.tcx;
            let def = tcx.adt_def(d);
            let kn = tcx.crate_name(d.krate).to_string();
            let interesting = d.is_local()
                || kn.starts_with("swc_ecma_ast")
                || kn.starts_with("swc_common")
                || kn.starts_with("istanbul")
                || kn.starts_with("swc_coverage")
                || kn == "core"
                || kn == "indexmap"
                || kn == "alloc";
            let mut vs = vec![];
            for (i, v) in def.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = if interesting {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        self.ty(t).to_string()
                    } else {
                        "null".to_string()
                    };
                    fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
                }
                let discr = if def.is_enum() {
                    def.discriminant_for_variant(tcx, i).val.to_string()
                } else {
                    "0".to_string()
                };
                vs.push(format!(
                    "{{\"n\":{},\"d\":{},\"f\":{}}}",
                    esc(v.name.as_str()),
                    discr,
                    arr(fs)
                ));
            }
            let gp: Vec<String> = tcx
                .generics_of(d)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| esc(p.name.as_str()))
                .collect();
            self.adt_out.push(format!(
                "{{\"p\":{},\"enum\":{},\"g\":{},\"v\":{}}}",
                esc(&self.path(d)),
                def.is_enum(),
                arr(gp),
                arr(vs)
            ));
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRX_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        for d in owners {
            match tcx.def_kind(d) {
                DefKind::Fn
                | DefKind::AssocFn
                | DefKind::Closure
                | DefKind::Static { .. }
                | DefKind::Const { .. }
                | DefKind::AssocConst { .. } => {}
                _ => continue,
            }
            if tcx.is_coroutine(d.to_def_id()) {
                continue;
            }
            let b = tcx.mir_built(d).borrow().clone();
            bodies.push((d, b));
        }
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            adts: HashMap::new(),
            adt_out: vec![],
            adt_queue: vec![],
        };
        let mut bs = vec![];
        for (d, b) in &bodies {
            let s = cx.body(*d, b);
            bs.push(s);
        }
        cx.drain_adts();
        let s = format!(
            "{{\"crate\":{},\"types\":{},\n\"adts\":{},\n\"bodies\":[\n{}\n]}}",
            esc(&krate),
            arr(cx.ty_out.clone()),
            arr(cx.adt_out.clone()),
            bs.join(",\n")
        );
        let p = format!("{}/{}.json", out, krate);
        let tmp = format!("{}.{}.tmp", p, std::process::id());
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &p).unwrap();
        Compilation::Continue
    }
}

fn main() {
    rustc_driver::install_ice_hook("https://invalid", |_| ());
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
