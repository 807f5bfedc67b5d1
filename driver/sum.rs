// Path summaries of MIR bodies: acyclic path enumeration over the CFG with term-valued dataflow.
use rustc_abi::VariantIdx;
use rustc_hir::def::{CtorKind, DefKind};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::HashMap;
use std::rc::Rc;

pub type T<'tcx> = Rc<N<'tcx>>;

#[derive(Clone)]
pub enum AggK<'tcx> {
    Tuple,
    Array,
    Adt(String, String),
    Closure(DefId, GenericArgsRef<'tcx>),
    Other(String),
}

pub enum N<'tcx> {
    Arg(String),
    Const(String),
    Str(String),
    Bytes(Vec<u8>),
    Int(u128, Ty<'tcx>),
    FnDef(DefId, GenericArgsRef<'tcx>),
    Field(T<'tcx>, Option<String>, usize, String),
    Deref(T<'tcx>),
    Ref(T<'tcx>),
    Agg(AggK<'tcx>, Vec<T<'tcx>>),
    Call(DefId, GenericArgsRef<'tcx>, Vec<T<'tcx>>),
    CallPtr(T<'tcx>, Vec<T<'tcx>>),
    Cast(String, T<'tcx>, String),
    Op(String, Vec<T<'tcx>>),
    Discr(T<'tcx>, Ty<'tcx>),
    Upd(T<'tcx>, String, T<'tcx>),
    Unsize(T<'tcx>, Ty<'tcx>),
}
use N::*;

pub struct Path<'tcx> {
    pub cons: Vec<(String, String)>,
    pub effects: Vec<T<'tcx>>,
    pub ret: T<'tcx>,
}

#[derive(Clone, Default)]
struct G<'tcx> {
    cons: Vec<(String, String)>,
    effects: Vec<T<'tcx>>,
}

pub struct Sum<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub budget: usize,
    pub overflow: bool,
    pub bodies_followed: Vec<String>,
}

fn field<'tcx>(t: T<'tcx>, variant: Option<String>, idx: usize, name: String) -> T<'tcx> {
    match &*t {
        Agg(AggK::Adt(_, _) | AggK::Tuple | AggK::Closure(..), xs) if idx < xs.len() => xs[idx].clone(),
        Upd(base, k, v) => {
            if *k == format!("{}", idx) {
                v.clone()
            } else {
                field(base.clone(), variant, idx, name)
            }
        }
        _ => Rc::new(Field(t, variant, idx, name)),
    }
}
pub fn deref<'tcx>(t: T<'tcx>) -> T<'tcx> {
    match &*t {
        Ref(x) => x.clone(),
        Unsize(x, ty) => Rc::new(Unsize(deref(x.clone()), *ty)),
        _ => Rc::new(Deref(t)),
    }
}
pub fn mkref<'tcx>(t: T<'tcx>) -> T<'tcx> {
    match &*t {
        Unsize(x, ty) => Rc::new(Unsize(mkref(x.clone()), *ty)),
        Deref(x) => x.clone(),
        _ => Rc::new(Ref(t)),
    }
}

impl<'tcx> Sum<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>) -> Self {
        Sum { tcx, env, budget: 20000, overflow: false, bodies_followed: vec![] }
    }

    pub fn name(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let a = self.tcx.erase_and_anonymize_regions(a);
        self.tcx.def_path_str_with_args(d, a)
    }
    /// The path of a definition without generic arguments.
    pub fn plain(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        let mut out = String::new();
        let mut depth = 0;
        let b: Vec<char> = p.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if depth == 0 && i > 0 && b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
                depth = 1;
                i += 3;
                continue;
            }
            if depth > 0 {
                if b[i] == '<' {
                    depth += 1;
                }
                if b[i] == '>' && b[i - 1] != '-' {
                    depth -= 1;
                }
            } else {
                out.push(b[i]);
            }
            i += 1;
        }
        out
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        format!("{}", t)
    }

    pub fn body(&self, d: DefId) -> Option<mir::Body<'tcx>> {
        if let Some(l) = d.as_local() {
            let st = self.tcx.mir_built(l);
            if st.is_stolen() {
                return None;
            }
            let b = st.borrow().clone();
            if b.tainted_by_errors.is_some() {
                return None;
            }
            Some(b)
        } else if self.tcx.is_mir_available(d) {
            Some(self.tcx.optimized_mir(d).clone())
        } else {
            None
        }
    }

    pub fn run_root(&mut self, d: DefId, names: &[&str]) -> Option<Vec<Path<'tcx>>> {
        let b = self.body(d)?;
        let args: Vec<T<'tcx>> = (0..b.arg_count)
            .map(|i| Rc::new(Arg(names.get(i).map(|s| s.to_string()).unwrap_or(format!("arg{}", i)))))
            .collect();
        let r = self.run(&b, args, G::default(), 0);
        Some(r.into_iter().map(|(g, ret)| Path { cons: g.cons, effects: g.effects, ret }).collect())
    }

    pub fn run_inst(&mut self, d: DefId, a: GenericArgsRef<'tcx>, args: Vec<T<'tcx>>) -> Option<Vec<Path<'tcx>>> {
        let b = self.inst_body(d, a)?;
        if b.arg_count != args.len() {
            return None;
        }
        let r = self.run(&b, args, G::default(), 1);
        Some(r.into_iter().map(|(g, ret)| Path { cons: g.cons, effects: g.effects, ret }).collect())
    }

    fn inst_body(&self, d: DefId, a: GenericArgsRef<'tcx>) -> Option<mir::Body<'tcx>> {
        let b = self.body(d)?;
        let eb = ty::EarlyBinder::bind(self.tcx, b);
        let u = eb.instantiate(self.tcx, a);
        match self.tcx.try_normalize_erasing_regions(self.env, u) {
            Ok(b) => Some(b),
            Err(_) => None,
        }
    }

    fn run(&mut self, body: &mir::Body<'tcx>, args: Vec<T<'tcx>>, g: G<'tcx>, depth: usize) -> Vec<(G<'tcx>, T<'tcx>)> {
        let mut env: HashMap<Local, T<'tcx>> = HashMap::new();
        for (i, a) in args.into_iter().enumerate() {
            env.insert(Local::from_usize(i + 1), a);
        }
        let mut out = vec![];
        self.go(body, START_BLOCK, env, g, vec![], depth, &mut out);
        out
    }

    fn place(&self, body: &mir::Body<'tcx>, env: &HashMap<Local, T<'tcx>>, p: &Place<'tcx>) -> T<'tcx> {
        let mut t = env.get(&p.local).cloned().unwrap_or_else(|| Rc::new(Const(format!("uninit"))));
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => t = deref(t),
                ProjectionElem::Field(i, _) => {
                    let (v, n) = self.field_name(pty, i.as_usize());
                    t = field(t, v, i.as_usize(), n);
                }
                ProjectionElem::Downcast(..) => {}
                ProjectionElem::Index(l) => {
                    let i = env.get(&l).cloned().unwrap_or_else(|| Rc::new(Const("uninit".into())));
                    t = Rc::new(Op("index".into(), vec![t, i]));
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    if let (Agg(AggK::Array, xs), false) = (&*t, from_end) {
                        if (offset as usize) < xs.len() {
                            t = xs[offset as usize].clone();
                            pty = pty.projection_ty(self.tcx, elem);
                            continue;
                        }
                    }
                    t = Rc::new(Op(format!("cindex{}{}", if from_end { "-" } else { "" }, offset), vec![t]));
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    t = Rc::new(Op(format!("subslice{}..{}{}", from, if from_end { "-" } else { "" }, to), vec![t]))
                }
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
            }
            pty = pty.projection_ty(self.tcx, elem);
        }
        t
    }

    fn field_name(&self, pty: PlaceTy<'tcx>, i: usize) -> (Option<String>, String) {
        if let ty::Adt(adt, _) = pty.ty.kind() {
            if adt.is_enum() {
                let v = adt.variant(pty.variant_index.unwrap_or(VariantIdx::from_usize(0)));
                return (Some(v.name.to_string()), v.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string());
            }
            if adt.is_struct() || adt.is_union() {
                let v = adt.non_enum_variant();
                return (None, v.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string());
            }
        }
        (None, i.to_string())
    }

    fn operand(&self, body: &mir::Body<'tcx>, env: &HashMap<Local, T<'tcx>>, o: &Operand<'tcx>) -> T<'tcx> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place(body, env, p),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => Rc::new(Const(format!("{:?}", r))),
        }
    }

    fn konst(&self, c: &mir::Const<'tcx>) -> T<'tcx> {
        let ty = c.ty();
        if let ty::FnDef(d, a) = ty.kind() {
            return Rc::new(FnDef(*d, a.skip_binder()));
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                match self.tcx.def_kind(u.def) {
                    DefKind::AnonConst => {}
                    _ => return Rc::new(Const(self.name(u.def, u.args))),
                }
            }
        }
        if let mir::Const::Ty(_, ct) = c {
            if let ty::ConstKind::Param(_) = ct.kind() {
                return Rc::new(Const(format!("{}", ct)));
            }
        }
        let v = match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return Rc::new(Const(format!("{}", c))),
        };
        match ty.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return Rc::new(Str(String::from_utf8_lossy(b).into_owned()));
                }
            }
            ty::Ref(_, inner, _) => {
                if let ty::Array(el, n) = inner.kind() {
                    if *el == self.tcx.types.u8 {
                        if let Some(n) = n.try_to_target_usize(self.tcx) {
                            if let Some(b) = self.read_ptr(v, n as usize) {
                                return Rc::new(Bytes(b));
                            }
                        }
                    }
                }
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    return Rc::new(Int(i.to_bits_unchecked(), ty));
                }
            }
            _ => {}
        }
        let c2 = mir::Const::Val(v, ty);
        let c2 = self.tcx.erase_and_anonymize_regions(c2);
        let text = format!("{}", c2);
        if let ty::Adt(adt, a) = ty.kind() {
            // `None` of an option of a reference to a type parameter is printed as the bits of a null pointer.
            if tcx_is_option(self.tcx, adt.did()) && a.type_at(0).is_ref() {
                if v.try_to_scalar_int().is_some_and(|i| i.is_null()) {
                    return Rc::new(Agg(AggK::Adt(self.name(adt.did(), a), "None".to_string()), vec![]));
                }
            }
            // A fieldless variant of an enum, printed as a path ending in the variant's name.
            if adt.is_enum() {
                let last = text.rsplit("::").next().unwrap_or("");
                if let Some(v) = adt.variants().iter().find(|v| v.name.as_str() == last && v.fields.is_empty()) {
                    return Rc::new(Agg(AggK::Adt(self.name(adt.did(), a), v.name.to_string()), vec![]));
                }
            } else if adt.is_struct() && adt.non_enum_variant().fields.is_empty() {
                let v = adt.non_enum_variant();
                return Rc::new(Agg(AggK::Adt(self.name(adt.did(), a), v.name.to_string()), vec![]));
            }
        }
        if let ty::Tuple(ts) = ty.kind() {
            if ts.is_empty() {
                return Rc::new(Agg(AggK::Tuple, vec![]));
            }
        }
        Rc::new(Const(text))
    }

    fn read_ptr(&self, v: ConstValue, n: usize) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let (id, off) = match v {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off.bytes() as usize)
            }
            _ => return None,
        };
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
            }
            _ => None,
        }
    }

    fn rvalue(&self, body: &mir::Body<'tcx>, env: &HashMap<Local, T<'tcx>>, r: &Rvalue<'tcx>) -> T<'tcx> {
        match r {
            Rvalue::Use(o, ..) => self.operand(body, env, o),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => self.place(body, env, p),
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => mkref(self.place(body, env, p)),
            Rvalue::Repeat(o, n) => Rc::new(Op(format!("repeat{}", n), vec![self.operand(body, env, o)])),
            Rvalue::Cast(k, o, ty) => {
                let t = self.operand(body, env, o);
                match k {
                    CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => {
                        let from = o.ty(&body.local_decls, self.tcx);
                        match (from.kind(), ty.kind()) {
                            (ty::Ref(_, s, _), ty::Ref(_, d, _)) if matches!(d.kind(), ty::Dynamic(..)) && !matches!(s.kind(), ty::Dynamic(..)) => {
                                Rc::new(Unsize(t, *s))
                            }
                            _ => t,
                        }
                    }
                    CastKind::PointerCoercion(..) | CastKind::Subtype => t,
                    CastKind::PtrToPtr => t,
                    _ => Rc::new(Cast(format!("{:?}", k), t, self.ty(*ty))),
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, env, &ab.0);
                let b = self.operand(body, env, &ab.1);
                let r: T<'tcx> = Rc::new(Op(format!("{:?}", op), vec![a, b]));
                r
            }
            Rvalue::UnaryOp(op, o) => {
                let a = self.operand(body, env, o);
                if let (UnOp::Not, Int(v, ty)) = (op, &*a) {
                    if ty.is_bool() {
                        return Rc::new(Int(1 - *v, *ty));
                    }
                }
                Rc::new(Op(format!("{:?}", op), vec![a]))
            }
            Rvalue::Discriminant(p) => {
                let ty = p.ty(&body.local_decls, self.tcx).ty;
                Rc::new(Discr(self.place(body, env, p), ty))
            }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<_> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => AggK::Array,
                    AggregateKind::Tuple => AggK::Tuple,
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        AggK::Adt(self.name(*d, a), adt.variant(*v).name.to_string())
                    }
                    AggregateKind::Closure(d, a) => AggK::Closure(*d, a),
                    other => AggK::Other(format!("{:?}", other)),
                };
                Rc::new(Agg(kk, xs))
            }
            Rvalue::ThreadLocalRef(d) => Rc::new(Const(self.tcx.def_path_str(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(body, env, o),
        }
    }

    fn assign(&self, body: &mir::Body<'tcx>, env: &mut HashMap<Local, T<'tcx>>, g: &mut G<'tcx>, p: &Place<'tcx>, v: T<'tcx>) {
        if p.projection.is_empty() {
            env.insert(p.local, v);
            return;
        }
        if p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
            let pl = self.place(body, env, p);
            g.effects.push(Rc::new(Op("store".into(), vec![pl, v])));
            return;
        }
        let base = env.get(&p.local).cloned().unwrap_or_else(|| Rc::new(Const("uninit".into())));
        let mut key = String::new();
        let mut single = None;
        let mut nf = 0;
        for e in p.projection.iter() {
            if let ProjectionElem::Field(i, _) = e {
                if nf > 0 {
                    key.push('.');
                }
                key.push_str(&i.as_usize().to_string());
                single = Some(i.as_usize());
                nf += 1;
            }
        }
        if nf == 1 {
            if let Agg(k, xs) = &*base {
                let mut xs = xs.clone();
                if let Some(i) = single {
                    if i < xs.len() {
                        xs[i] = v;
                        env.insert(p.local, Rc::new(Agg(k.clone(), xs)));
                        return;
                    }
                }
            }
        }
        env.insert(p.local, Rc::new(Upd(base, key, v)));
    }

    fn go(
        &mut self,
        body: &mir::Body<'tcx>,
        mut bb: BasicBlock,
        mut env: HashMap<Local, T<'tcx>>,
        mut g: G<'tcx>,
        mut seen: Vec<BasicBlock>,
        depth: usize,
        out: &mut Vec<(G<'tcx>, T<'tcx>)>,
    ) {
        loop {
            if self.budget == 0 {
                self.overflow = true;
                return;
            }
            self.budget -= 1;
            if seen.contains(&bb) {
                g.effects.push(Rc::new(Const("loop-back-edge".into())));
                out.push((g, Rc::new(Const("loop".into()))));
                return;
            }
            seen.push(bb);
            let data = &body.basic_blocks[bb];
            for st in &data.statements {
                if let StatementKind::Assign(a) = &st.kind {
                    let v = self.rvalue(body, &env, &a.1);
                    self.assign(body, &mut env, &mut g, &a.0, v);
                }
            }
            let term = data.terminator();
            match &term.kind {
                TerminatorKind::Goto { target, .. } => bb = *target,
                TerminatorKind::FalseEdge { real_target, .. } => bb = *real_target,
                TerminatorKind::FalseUnwind { real_target, .. } => bb = *real_target,
                TerminatorKind::Drop { target, .. } => bb = *target,
                TerminatorKind::Assert { target, .. } => bb = *target,
                TerminatorKind::Return => {
                    let r = env.get(&RETURN_PLACE).cloned().unwrap_or_else(|| Rc::new(Agg(AggK::Tuple, vec![])));
                    out.push((g, r));
                    return;
                }
                TerminatorKind::Unreachable
                | TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => return,
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, &env, discr);
                    let ch = self.choices(&d, targets, &g);
                    for (con, t) in ch {
                        if matches!(body.basic_blocks[t].terminator().kind, TerminatorKind::Unreachable)
                            && body.basic_blocks[t].statements.is_empty()
                        {
                            continue;
                        }
                        let mut g2 = g.clone();
                        if let Some(c) = con {
                            g2.cons.push(c);
                        }
                        self.go(body, t, env.clone(), g2, seen.clone(), depth, out);
                    }
                    return;
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, &env, func);
                    let a: Vec<_> = args.iter().map(|x| self.operand(body, &env, &x.node)).collect();
                    let rs = self.call(f, a, g.clone(), depth);
                    match target {
                        None => {
                            for (mut g2, _) in rs {
                                g2.effects.push(Rc::new(Const("diverges".into())));
                                out.push((g2, Rc::new(Const("!".into()))));
                            }
                            return;
                        }
                        Some(t) => {
                            if rs.len() == 1 {
                                let (g2, r) = rs.into_iter().next().unwrap();
                                g = g2;
                                self.assign(body, &mut env, &mut g, destination, r);
                                bb = *t;
                            } else {
                                for (mut g2, r) in rs {
                                    let mut e2 = env.clone();
                                    self.assign(body, &mut e2, &mut g2, destination, r);
                                    self.go(body, *t, e2, g2, seen.clone(), depth, out);
                                }
                                return;
                            }
                        }
                    }
                }
                other => {
                    g.effects.push(Rc::new(Const(format!("unsupported terminator {:?}", other))));
                    out.push((g, Rc::new(Const("?".into()))));
                    return;
                }
            }
        }
    }

    fn choices(&self, d: &T<'tcx>, targets: &SwitchTargets, g: &G<'tcx>) -> Vec<(Option<(String, String)>, BasicBlock)> {
        match &**d {
            Discr(t, ty) => {
                if let ty::Adt(adt, _) = ty.kind() {
                    let known = if let Agg(AggK::Adt(_, v), _) = &**t {
                        Some(v.clone())
                    } else {
                        let key = self.canon(t);
                        g.cons.iter().find(|c| c.0 == key).map(|c| c.1.clone())
                    };
                    let mut res = vec![];
                    for (vi, disc) in adt.discriminants(self.tcx) {
                        let vname = adt.variant(vi).name.to_string();
                        if let Some(k) = &known {
                            if *k != vname {
                                continue;
                            }
                        }
                        let mut tgt = targets.otherwise();
                        for (val, t2) in targets.iter() {
                            if val == disc.val {
                                tgt = t2;
                            }
                        }
                        let con = if known.is_some() { None } else { Some((self.canon(t), vname)) };
                        res.push((con, tgt));
                    }
                    return res;
                }
            }
            Int(v, _) => {
                for (val, t2) in targets.iter() {
                    if val == *v {
                        return vec![(None, t2)];
                    }
                }
                return vec![(None, targets.otherwise())];
            }
            _ => {}
        }
        let key = self.canon(d);
        let mut res = vec![];
        let mut vals = vec![];
        if let Some(c) = g.cons.iter().find(|c| c.0 == key) {
            for (val, t2) in targets.iter() {
                if c.1 == format!("{}", val) {
                    return vec![(None, t2)];
                }
            }
        }
        for (val, t2) in targets.iter() {
            res.push((Some((key.clone(), format!("{}", val))), t2));
            vals.push(format!("{}", val));
        }
        res.push((Some((key, format!("!{}", vals.join("|")))), targets.otherwise()));
        res
    }

    fn is_pure(&self, n: &str) -> bool {
        n.starts_with("core::fmt::rt::")
            || n.starts_with("std::fmt::rt::")
            || n.starts_with("core::fmt::Arguments::")
            || n.starts_with("std::fmt::Arguments::")
            || n == "core::ops::Deref::deref"
            || n == "std::ops::Deref::deref"
            || n == "std::path::Path::display"
    }

    fn resolve(&self, d: DefId, a: GenericArgsRef<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let a = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a) {
            return match inst.def {
                InstanceKind::Item(rd) => Some((rd, inst.args)),
                _ => None,
            };
        }
        // A method called on a type parameter can still have a single applicable impl.
        let tr = tcx.trait_of_assoc(d)?;
        if tcx.crate_name(tr.krate).as_str() != "thiserror" {
            return None;
        }
        let tref = ty::TraitRef::from_assoc(tcx, tr, a);
        match tcx.codegen_select_candidate(self.env.as_query_input(tref)) {
            Ok(rustc_middle::traits::ImplSource::UserDefined(i)) => {
                let rd = *tcx.impl_item_implementor_ids(i.impl_def_id).get(&d)?;
                Some((rd, a.rebase_onto(tcx, tr, i.args)))
            }
            _ => None,
        }
    }

    fn inlineable(&self, d: DefId) -> bool {
        let krate = self.tcx.crate_name(d.krate);
        let k = krate.as_str();
        if k == "thiserror" {
            return true;
        }
        let p = self.tcx.def_path_str(d);
        if k == "core" || k == "std" {
            let p2 = p.strip_prefix("core::").or(p.strip_prefix("std::")).unwrap_or(&p);
            return p2.starts_with("option::")
                || p.contains("::option::Option<")
                || p.contains("::result::Result<")
                || p.contains("::ops::ControlFlow<")
                || p.contains("as core::convert::From<T>>::from") && p.starts_with("<T as")
                || p.contains("as std::convert::From<T>>::from") && p.starts_with("<T as")
                || p.contains("as std::convert::Into<U>>::into") && p.starts_with("<T as");
        }
        false
    }

    /// The ways of the standard library to write `Deref::deref`, for the types whose deref is known to be that.
    fn borrowed(&self, d: DefId, a: GenericArgsRef<'tcx>, xs: &[T<'tcx>]) -> Option<T<'tcx>> {
        let tcx = self.tcx;
        if xs.len() != 1 || !matches!(tcx.def_kind(d), DefKind::AssocFn) {
            return None;
        }
        let deref_trait = tcx.lang_items().deref_trait()?;
        let n = self.plain(d);
        let n = n.strip_prefix("core::").or(n.strip_prefix("std::")).or(n.strip_prefix("alloc::")).unwrap_or(&n);
        let (from, to) = match n {
            "path::PathBuf::as_path" | "string::String::as_str" => {
                let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_normalization().skip_binder();
                (sig.inputs()[0].builtin_deref(true)?, Some(sig.output().builtin_deref(true)?))
            }
            "convert::AsRef::as_ref" | "borrow::Borrow::borrow" => (a.type_at(0), Some(a.type_at(1))),
            "ops::Deref::deref" => (a.type_at(0), None),
            "path::Path::new" => (a.type_at(0), Some(tcx.fn_sig(d).instantiate(tcx, a).skip_normalization().skip_binder().output().builtin_deref(true)?)),
            _ => return None,
        };
        if to == Some(from) {
            return Some(xs[0].clone());
        }
        if let ty::Ref(_, inner, _) = from.kind() {
            if to.is_none() || to == Some(*inner) {
                return Some(deref(xs[0].clone()));
            }
            return None;
        }
        if let Some(inner) = from.boxed_ty() {
            if to.is_none() || to == Some(inner) {
                return Some(mkref(deref(deref(xs[0].clone()))));
            }
            return None;
        }
        let ty::Adt(adt, args) = from.kind() else { return None };
        let name = self.plain(adt.did());
        let name = name.strip_prefix("core::").or(name.strip_prefix("std::")).or(name.strip_prefix("alloc::")).unwrap_or(&name);
        let same = match (name, to) {
            (_, None) => return None,
            ("path::PathBuf", Some(t)) => matches!(t.kind(), ty::Adt(p, _) if self.plain(p.did()).ends_with("path::Path")),
            ("string::String", Some(t)) => t.is_str(),
            ("sync::Arc" | "rc::Rc", Some(t)) => args.type_at(0) == t,
            _ => false,
        };
        if !same {
            return None;
        }
        let m = tcx.associated_items(deref_trait).in_definition_order().find(|i| i.name().as_str() == "deref")?.def_id;
        Some(Rc::new(Call(m, tcx.mk_args(&[from.into()]), xs.to_vec())))
    }

    fn call(&mut self, f: T<'tcx>, args: Vec<T<'tcx>>, mut g: G<'tcx>, depth: usize) -> Vec<(G<'tcx>, T<'tcx>)> {
        let (d, a) = match &*f {
            FnDef(d, a) => (*d, *a),
            _ => {
                let t: T<'tcx> = Rc::new(CallPtr(f, args));
                g.effects.push(t.clone());
                return vec![(g, t)];
            }
        };
        let tcx = self.tcx;
        // A method of a trait object whose concrete type is known is that type's method.
        if let (Some(_), Some(first)) = (tcx.trait_of_assoc(d), args.first()) {
            if a.len() > 0 && a[0].as_type().is_some_and(|t| matches!(t.kind(), ty::Dynamic(..))) {
                if let Unsize(x, s) = &**first {
                    let mut aa: Vec<ty::GenericArg<'tcx>> = a.iter().collect();
                    aa[0] = (*s).into();
                    let mut xs = args.clone();
                    xs[0] = x.clone();
                    return self.call(Rc::new(FnDef(d, tcx.mk_args(&aa))), xs, g, depth);
                }
            }
        }
        if let Some(t) = self.borrowed(d, a, &args) {
            return vec![(g, t)];
        }
        if let DefKind::Ctor(_, CtorKind::Fn) = tcx.def_kind(d) {
            let (adt, vname) = {
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                    _ => (parent, tcx.item_name(parent).to_string()),
                }
            };
            return vec![(g, Rc::new(Agg(AggK::Adt(self.name(adt, a), vname), args)))];
        }
        // Calls of closures and function items through Fn* traits.
        if let Some(tr) = tcx.trait_of_assoc(d) {
            if tcx.fn_trait_kind_from_def_id(tr).is_some() && args.len() == 2 && depth < 12 {
                let self_term = match &*args[0] {
                    Ref(x) => x.clone(),
                    _ => args[0].clone(),
                };
                let spread: Option<Vec<T<'tcx>>> = match &*args[1] {
                    Agg(AggK::Tuple, xs) => Some(xs.clone()),
                    _ => None,
                };
                if let Some(xs) = spread {
                    match &*self_term {
                        Agg(AggK::Closure(cd, ca), _) => {
                            if let Some(b) = self.inst_body(*cd, *ca) {
                                let by_ref = b.local_decls[Local::from_usize(1)].ty.is_ref();
                                let mut aa = vec![if by_ref { mkref(self_term.clone()) } else { self_term.clone() }];
                                aa.extend(xs);
                                if b.arg_count == aa.len() {
                                    return self.run(&b, aa, g, depth + 1);
                                }
                            }
                        }
                        FnDef(..) => return self.call(self_term.clone(), xs, g, depth + 1),
                        _ => {}
                    }
                }
            }
        }
        if depth < 12 {
            if let Some((rd, rargs)) = self.resolve(d, a) {
                {
                    if self.inlineable(rd) {
                        let nested = self.inst_body(rd, rargs);
                        if let Some(b) = nested {
                            if b.arg_count == args.len() {
                                self.bodies_followed.push(tcx.def_path_str(rd));
                                let r = self.run(&b, args.clone(), g.clone(), depth + 1);
                                let bad = r.iter().any(|(g2, t)| {
                                    matches!(&**t, Const(s) if s == "loop" || s == "?")
                                        || g2.effects.iter().any(|e| matches!(&**e, Const(s) if s == "loop-back-edge"))
                                });
                                if !bad && !r.is_empty() {
                                    return r;
                                }
                            }
                        }
                    }
                }
            }
        }
        let t: T<'tcx> = Rc::new(Call(d, a, args));
        let n = tcx.def_path_str(d);
        if !self.is_pure(&n) {
            g.effects.push(t.clone());
        }
        vec![(g, t)]
    }

    // ---------------------------------------------------------------- canonical text

    pub fn canon(&self, t: &T<'tcx>) -> String {
        match &**t {
            Arg(s) => s.clone(),
            Const(s) => s.clone(),
            Str(s) => format!("{:?}", s),
            Bytes(b) => format!("b{:?}", b),
            Int(v, ty) => format!("{}_{}", v, ty),
            FnDef(d, a) => format!("fn {}", self.name(*d, a)),
            Field(b, v, _, n) => match v {
                Some(v) => format!("({} as {}).{}", self.canon(b), v, n),
                None => format!("{}.{}", self.canon(b), n),
            },
            Deref(b) => format!("*{}", self.canon(b)),
            Ref(b) => format!("&{}", self.canon(b)),
            Agg(k, xs) => {
                let xs = xs.iter().map(|x| self.canon(x)).collect::<Vec<_>>().join(", ");
                match k {
                    AggK::Tuple => format!("({})", xs),
                    AggK::Array => format!("[{}]", xs),
                    AggK::Adt(a, v) => format!("{}::{}{{{}}}", a, v, xs),
                    AggK::Closure(d, a) => format!("closure{{{}}}", self.closure(*d, a, t)),
                    AggK::Other(s) => format!("{}({})", s, xs),
                }
            }
            Call(d, a, xs) => self.canon_call(*d, a, xs),
            CallPtr(f, xs) => {
                format!("({})({})", self.canon(f), xs.iter().map(|x| self.canon(x)).collect::<Vec<_>>().join(", "))
            }
            Cast(k, x, ty) => format!("({} as {} [{}])", self.canon(x), ty, k),
            Op(o, xs) => format!("{}({})", o, xs.iter().map(|x| self.canon(x)).collect::<Vec<_>>().join(", ")),
            Discr(x, _) => format!("discr({})", self.canon(x)),
            Unsize(x, _) => self.canon(x),
            Upd(b, k, v) => format!("{{{} with .{} = {}}}", self.canon(b), k, self.canon(v)),
        }
    }

    /// What a closure does. Its captures are seen through: how much of a variable is captured, and by what, is the
    /// compiler's choice and depends on the edition.
    fn closure(&self, d: DefId, a: GenericArgsRef<'tcx>, this: &T<'tcx>) -> String {
        let Some(b) = self.inst_body(d, a) else { return "?".into() };
        let mut s = Sum { tcx: self.tcx, env: self.env, budget: 4000, overflow: false, bodies_followed: vec![] };
        let mut args: Vec<T<'tcx>> = (0..b.arg_count).map(|i| Rc::new(Arg(format!("c{}", i))) as T<'tcx>).collect();
        if let Some(first) = args.first_mut() {
            *first = if b.local_decls[Local::from_usize(1)].ty.is_ref() { mkref(this.clone()) } else { this.clone() };
        }
        let r = s.run(&b, args, G::default(), 3);
        let mut v: Vec<String> = r
            .into_iter()
            .map(|(g, ret)| {
                format!(
                    "[{}]{{{}}}->{}",
                    g.cons.iter().map(|(a, b)| format!("{}={}", a, b)).collect::<Vec<_>>().join("&"),
                    g.effects.iter().map(|e| s.canon(e)).collect::<Vec<_>>().join(";"),
                    s.canon(&ret)
                )
            })
            .collect();
        v.sort();
        v.join(" | ")
    }

    fn canon_call(&self, d: DefId, a: GenericArgsRef<'tcx>, xs: &[T<'tcx>]) -> String {
        let tcx = self.tcx;
        let n = self.plain(d);
        // A formatted message.
        if n.ends_with("fmt::Formatter::write_fmt") || n.ends_with("fmt::Write::write_fmt") {
            if let Some(p) = self.pieces(&xs[1]) {
                return format!("msg({}, {})", self.canon(&xs[0]), p);
            }
        }
        if n.ends_with("fmt::Formatter::write_str") || n.ends_with("fmt::Write::write_str") {
            if let Str(s) = &*xs[1] {
                return format!("msg({}, {})", self.canon(&xs[0]), if s.is_empty() { "[]".into() } else { format!("[{:?}]", s) });
            }
        }
        if n.ends_with("fmt::Arguments::new") || n.ends_with("fmt::Arguments::from_str") {
            let t: T<'tcx> = Rc::new(Call(d, a, xs.to_vec()));
            if let Some(p) = self.pieces(&t) {
                return format!("format_args({})", p);
            }
        }
        // <&T as Display>::fmt(&&x, f) is <T as Display>::fmt(&x, f).
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let trn = self.plain(tr);
            if let Some(short) = trn.strip_prefix("core::fmt::").or(trn.strip_prefix("std::fmt::")) {
                if short != "Pointer" && short != "Write" && xs.len() == 2 {
                    let (ty, t) = self.peel(a.type_at(0), deref(xs[0].clone()));
                    return format!("<{} as fmt::{}>::fmt({}, {})", self.ty(ty), short, self.canon(&mkref(t)), self.canon(&xs[1]));
                }
            }
        }
        format!("{}({})", self.name(d, a), xs.iter().map(|x| self.canon(x)).collect::<Vec<_>>().join(", "))
    }

    fn peel(&self, mut ty: Ty<'tcx>, mut t: T<'tcx>) -> (Ty<'tcx>, T<'tcx>) {
        loop {
            if let ty::Ref(_, inner, _) = ty.kind() {
                ty = *inner;
                t = deref(t);
            } else if let Some(inner) = ty.boxed_ty() {
                ty = inner;
                t = deref(t);
            } else {
                return (ty, t);
            }
        }
    }

    /// The pieces of a `fmt::Arguments` value, or None if it is not built in place.
    pub fn pieces(&self, t: &T<'tcx>) -> Option<String> {
        let Call(d, _, xs) = &**t else { return None };
        let n = self.plain(*d);
        if n.ends_with("fmt::Arguments::from_str") || n.ends_with("fmt::Arguments::from_str_nonconst") {
            return match &*xs[0] {
                Str(s) => Some(if s.is_empty() { "[]".into() } else { format!("[{:?}]", s) }),
                _ => None,
            };
        }
        if !n.ends_with("fmt::Arguments::new") {
            return None;
        }
        let Bytes(b) = &*xs[0] else { return None };
        let args = match &*xs[1] {
            Ref(x) => match &**x {
                Agg(AggK::Array, v) => v.clone(),
                _ => return None,
            },
            _ => return None,
        };
        let mut out: Vec<String> = vec![];
        let mut lit = String::new();
        let mut i = 0;
        let mut next = 0usize;
        let u16at = |i: usize| b[i] as usize | (b[i + 1] as usize) << 8;
        loop {
            let c = b[i];
            i += 1;
            if c == 0 {
                break;
            } else if c < 0x80 {
                lit.push_str(std::str::from_utf8(&b[i..i + c as usize]).ok()?);
                i += c as usize;
            } else if c == 0x80 {
                let len = u16at(i);
                i += 2;
                lit.push_str(std::str::from_utf8(&b[i..i + len]).ok()?);
                i += len;
            } else {
                if !lit.is_empty() {
                    out.push(format!("{:?}", lit));
                    lit.clear();
                }
                let mut opts = String::new();
                if c & 1 != 0 {
                    let fl = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
                    i += 4;
                    opts.push_str(&format!(" flags={:x}", fl));
                }
                if c & 2 != 0 {
                    let w = u16at(i);
                    i += 2;
                    if c & 16 != 0 {
                        opts.push_str(&format!(" width=({})", self.fmt_arg(&args, w)?));
                    } else {
                        opts.push_str(&format!(" width={}", w));
                    }
                }
                if c & 4 != 0 {
                    let w = u16at(i);
                    i += 2;
                    if c & 32 != 0 {
                        opts.push_str(&format!(" prec=({})", self.fmt_arg(&args, w)?));
                    } else {
                        opts.push_str(&format!(" prec={}", w));
                    }
                }
                if c & 8 != 0 {
                    next = u16at(i);
                    i += 2;
                }
                let a = self.fmt_arg(&args, next)?;
                next += 1;
                out.push(format!("{{{}{}}}", a, opts));
            }
        }
        if !lit.is_empty() {
            out.push(format!("{:?}", lit));
        }
        Some(format!("[{}]", out.join(" ")))
    }

    fn fmt_arg(&self, args: &[T<'tcx>], i: usize) -> Option<String> {
        let t = args.get(i)?;
        let Call(d, a, xs) = &**t else { return Some(self.canon(t)) };
        let n = self.plain(*d);
        let last = n.rsplit("::").next().unwrap_or("");
        let tr = match last {
            "new_display" => "Display",
            "new_debug" => "Debug",
            "new_octal" => "Octal",
            "new_lower_hex" => "LowerHex",
            "new_upper_hex" => "UpperHex",
            "new_pointer" => "Pointer",
            "new_binary" => "Binary",
            "new_lower_exp" => "LowerExp",
            "new_upper_exp" => "UpperExp",
            "from_usize" => return Some(format!("usize {}", self.canon(&deref(xs[0].clone())))),
            _ => return Some(self.canon(t)),
        };
        let mut ty = a.types().last()?;
        let mut v = deref(xs[0].clone());
        let mut tr = tr.to_string();
        for _ in 0..4 {
            if tr != "Pointer" {
                (ty, v) = self.peel(ty, v);
            }
            // A formatting helper defined by the analysed runtime crate: follow its fmt method.
            let ty::Adt(adt, _) = ty.kind() else { break };
            if self.tcx.crate_name(adt.did().krate).as_str() != "thiserror" {
                break;
            }
            let Some((t2, ty2, v2)) = self.follow_fmt(&tr, ty, &v) else { break };
            tr = t2;
            ty = ty2;
            v = v2;
        }
        Some(format!("{} {} {}", tr, self.ty(ty), self.canon(&v)))
    }

    fn follow_fmt(&self, tr: &str, ty: Ty<'tcx>, v: &T<'tcx>) -> Option<(String, Ty<'tcx>, T<'tcx>)> {
        let tcx = self.tcx;
        let trait_did = tcx.all_traits_including_private().find(|d| {
            tcx.crate_name(d.krate).as_str() == "core" && {
                let p = tcx.def_path_str(*d);
                p == format!("core::fmt::{}", tr) || p == format!("std::fmt::{}", tr)
            }
        })?;
        let m = tcx.associated_items(trait_did).in_definition_order().find(|i| i.name().as_str() == "fmt")?.def_id;
        let ga = tcx.mk_args(&[ty.into()]);
        let inst = Instance::try_resolve(tcx, self.env, m, tcx.erase_and_anonymize_regions(ga)).ok()??;
        let InstanceKind::Item(rd) = inst.def else { return None };
        let mut s = Sum::new(tcx, self.env);
        let fmt: T<'tcx> = Rc::new(Arg("FMT".into()));
        let ps = s.run_inst(rd, inst.args, vec![mkref(v.clone()), fmt])?;
        if ps.len() != 1 || ps[0].effects.len() != 1 {
            return None;
        }
        let e = &ps[0].effects[0];
        if s.canon(e) != s.canon(&ps[0].ret) {
            return None;
        }
        if let Call(d, a, xs) = &**e {
            let t2 = tcx.trait_of_assoc(*d)?;
            let tn = self.plain(t2);
            let short = tn.strip_prefix("core::fmt::").or(tn.strip_prefix("std::fmt::"))?.to_string();
            if xs.len() == 2 && matches!(&*xs[1], Arg(s) if s == "FMT") {
                return Some((short, a.type_at(0), deref(xs[0].clone())));
            }
        }
        None
    }
}

fn tcx_is_option(tcx: TyCtxt<'_>, d: DefId) -> bool {
    tcx.lang_items().option_type() == Some(d)
}
