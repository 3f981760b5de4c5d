use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Item<'tcx> {
    Fn(Instance<'tcx>),
    /// const / static initialiser
    Const(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: Vec<(String, J)>,
    adt_seen: HashSet<String>,
    queue: VecDeque<Item<'tcx>>,
    seen: HashSet<Item<'tcx>>,
    keys: HashMap<String, Item<'tcx>>,
}

/// external functions whose (small, pure) bodies the analysis interprets
fn inline_external(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::", "core::result::", "core::mem::take", "core::mem::replace", "core::mem::swap",
        "core::ops::control_flow", "core::cmp::", "core::bool::", "core::ops::function", "core::ops::range",
        "core::convert::", "core::tuple", "core::default",
        "std::option::", "std::result::", "std::mem::take", "std::mem::replace", "std::mem::swap",
        "std::ops::ControlFlow", "std::cmp::", "std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn",
        "std::convert::", "std::ops::Range", "std::default",
    ];
    P.iter().any(|p| path.contains(p))
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(dump_inner(tcx)))
}

fn dump_inner<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut d = Dumper {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        adts: vec![],
        adt_seen: HashSet::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        keys: HashMap::new(),
    };
    let mut items = vec![];
    for &def in tcx.mir_keys(()) {
        let id = def.to_def_id();
        let kind = tcx.def_kind(id);
        items.push(J::O(vec![
            ("path", s(tcx.def_path_str(id))),
            ("kind", s(format!("{:?}", kind))),
            ("span", d.span(tcx.def_span(id))),
            ("vis", s(if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..}) { format!("{:?}", tcx.effective_visibilities(()).is_exported(def)) } else { "".into() })),
        ]));
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let g = tcx.generics_of(id);
                if g.requires_monomorphization(tcx) {
                    let args = ty::GenericArgs::identity_for_item(tcx, id);
                    let args = tcx.erase_and_anonymize_regions(args);
                    d.push(Item::Fn(Instance::new_raw(id, args)));
                } else {
                    d.push(Item::Fn(Instance::mono(tcx, id)));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let g = tcx.generics_of(id);
                if !g.requires_monomorphization(tcx) {
                    d.push(Item::Const(Instance::mono(tcx, id)));
                }
            }
            _ => {}
        }
    }
    let mut bodies = vec![];
    while let Some(it) = d.queue.pop_front() {
        if let Some(j) = d.body(it) {
            bodies.push(j);
        }
    }
    let attrs = d.attrs();
    let impls = d.impls();
    // every type mentioned must be described; new types may be interned while describing
    J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE))),
        ("items", J::A(items)),
        ("bodies", J::M(bodies)),
        ("types", J::A(std::mem::take(&mut d.ty_out))),
        ("adts", J::M(std::mem::take(&mut d.adts))),
        ("attrs", attrs),
        ("impls", impls),
    ])
}

impl<'tcx> Dumper<'tcx> {
    fn push(&mut self, it: Item<'tcx>) -> String {
        let mut key = self.base_key(it);
        let mut i = 0;
        loop {
            match self.keys.get(&key) {
                None => {
                    self.keys.insert(key.clone(), it);
                    break;
                }
                Some(o) if *o == it => break,
                _ => {
                    i += 1;
                    key = format!("{}~{}", self.base_key(it), i);
                }
            }
        }
        if self.seen.insert(it) {
            self.queue.push_back(it);
        }
        key
    }
    fn key_of(&self, it: Item<'tcx>) -> String {
        let base = self.base_key(it);
        let mut key = base.clone();
        let mut i = 0;
        loop {
            match self.keys.get(&key) {
                Some(o) if *o == it => return key,
                None => return key,
                _ => {
                    i += 1;
                    key = format!("{}~{}", base, i);
                }
            }
        }
    }
    fn inst_str(&self, i: Instance<'tcx>) -> String {
        let base = self.tcx.def_path_str_with_args(i.def_id(), i.args);
        match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => base,
            InstanceKind::Virtual(..) => format!("{}#virtual", base),
            InstanceKind::Shim(k) => {
                let k = format!("{:?}", k);
                let short = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                format!("{}#{}#{}", base, short, k.len())
            }
        }
    }
    fn base_key(&self, it: Item<'tcx>) -> String {
        match it {
            Item::Fn(i) => {
                let s = self.inst_str(i);
                if self.tcx.is_closure_like(i.def_id()) {
                    let sp = self.tcx.def_span(i.def_id());
                    let lo = self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
                    format!("{}@{}:{}", s, lo.line, lo.col.0)
                } else {
                    s
                }
            }
            Item::Const(i) => format!("const {}", self.inst_str(i)),
            Item::Promoted(i, p) => format!("promoted[{}] {}", p.as_usize(), self.base_key(Item::Fn(i))),
        }
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![s(name), n(lo.line), n(lo.col.0), n(hi.line), n(hi.col.0)])
    }
    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        n(lo.line)
    }
    fn def_kind_str(&self, id: DefId) -> String {
        format!("{:?}", self.tcx.def_kind(id))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(t))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                let path = self.tcx.def_path_str(def.did());
                o.push(("path", s(&path)));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
                let key = format!("{}", t);
                if self.adt_seen.insert(key.clone()) {
                    let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                    let discrs: HashMap<usize, u128> = if def.is_enum() && !t.has_param() {
                        def.discriminants(self.tcx).map(|(i, d)| (i.as_usize(), d.val)).collect()
                    } else if def.is_enum() {
                        def.discriminants(self.tcx).map(|(i, d)| (i.as_usize(), d.val)).collect()
                    } else {
                        HashMap::new()
                    };
                    let pos = self.adts.len();
                    self.adts.push((key, J::Null));
                    let mut vs = vec![];
                    let skip_fields = path.starts_with("regex") ;
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        if !skip_fields {
                            for f in v.fields.iter() {
                                let fty = f.ty(self.tcx, args);
                                let fty = fty.skip_norm_wip();
                                let fty = self
                                    .tcx
                                    .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(fty))
                                    .unwrap_or(fty);
                                let tj = if def.did().krate == LOCAL_CRATE || !def.is_struct() || path.starts_with("prost_types") || path.contains("ops::Range") {
                                    self.ty(fty)
                                } else {
                                    J::Null
                                };
                                fs.push(J::A(vec![s(f.name), tj, J::B(f.vis.is_public())]));
                            }
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name)),
                            ("discr", match discrs.get(&vi.as_usize()) { Some(d) => J::N(*d as i128), None => J::Null }),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    self.adts[pos].1 = J::O(vec![
                        ("path", s(path)),
                        ("kind", s(kind)),
                        ("local", J::B(def.did().is_local())),
                        ("variants", J::A(vs)),
                    ]);
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(inner);
                o.push(("inner", i));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                let i = self.ty(inner);
                o.push(("inner", i));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                let i = self.ty(inner);
                o.push(("inner", i));
                o.push(("len", match len.try_to_target_usize(self.tcx) { Some(l) => n(l as usize), None => J::Null }));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let i = self.ty(inner);
                o.push(("inner", i));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.tcx.def_path_str(did))));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let c = self.callee(did, args, TypingEnv::fully_monomorphized());
                o.push(("callee", c));
            }
            ty::Closure(did, _) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.tcx.def_path_str(did))));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::O(o);
        id
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o: Vec<(&'static str, J)> = vec![];
        let path = tcx.def_path_str(did);
        o.push(("path", s(&path)));
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            o.push(("key", s(&path)));
            return J::O(o);
        }
        if let DefKind::Ctor(..) = kind {
            o.push(("ctor", J::B(true)));
        }
        let targs: Vec<J> = args.types().map(|t| s(t)).collect();
        o.push(("targs", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(tcx.def_path_str(tr))));
            o.push(("method", s(tcx.item_name(did))));
        }
        let mut resolved = None;
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, args) {
                resolved = Some(i);
            }
        }
        match resolved {
            Some(i) => {
                let key = self.base_key(Item::Fn(i));
                let rp = tcx.def_path_str(i.def_id());
                o.push(("rpath", s(&rp)));
                o.push(("local", J::B(i.def_id().is_local())));
                if let Some(imp) = tcx.impl_of_assoc(i.def_id()) {
                    if tcx.is_automatically_derived(imp) {
                        o.push(("derived", J::B(true)));
                    }
                    o.push(("impl_ty", s(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
                }
                match i.def {
                    InstanceKind::Item(_) => o.push(("ik", s("item"))),
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => o.push(("ik", s("intrinsic"))),
                    InstanceKind::Virtual(..) => o.push(("ik", s("virtual"))),
                    InstanceKind::Shim(k) => {
                        let f = format!("{:?}", k);
                        let short = f.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                        o.push(("ik", s(short)));
                    }
                }
                let want = match i.def {
                    InstanceKind::Item(id) => {
                        !matches!(tcx.def_kind(id), DefKind::Ctor(..))
                            && (id.is_local() && tcx.is_mir_available(id)
                                || (tcx.is_mir_available(id)
                                    && (inline_external(&rp) || inline_external(&key) && matches!(tcx.def_kind(id), DefKind::Closure))))
                    }
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
                    _ => false,
                };
                let key = if want { self.push(Item::Fn(i)) } else { key };
                o.push(("key", s(key)));
            }
            None => {
                o.push(("key", s(tcx.def_path_str_with_args(did, args))));
                o.push(("ik", s("unresolved")));
            }
        }
        J::O(o)
    }

    fn env_of(&self, i: Instance<'tcx>) -> TypingEnv<'tcx> {
        if i.args.has_param() {
            TypingEnv::post_analysis(self.tcx, i.def_id())
        } else {
            TypingEnv::fully_monomorphized()
        }
    }

    fn body(&mut self, it: Item<'tcx>) -> Option<(String, J)> {
        let tcx = self.tcx;
        let key = self.key_of(it);
        let (inst, raw): (Instance<'tcx>, &Body<'tcx>) = match it {
            Item::Fn(i) => match i.def {
                InstanceKind::Item(id) => {
                    if !tcx.is_mir_available(id) {
                        return None;
                    }
                    (i, tcx.instance_mir(i.def))
                }
                _ => (i, tcx.instance_mir(i.def)),
            },
            Item::Const(i) => (i, tcx.mir_for_ctfe(i.def_id())),
            Item::Promoted(i, p) => (i, &tcx.promoted_mir(i.def_id())[p]),
        };
        let env = self.env_of(inst);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => raw.clone(),
        };
        let did = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(tcx.def_path_str(did))));
        o.push(("kind", s(match it { Item::Fn(_) => self.def_kind_str(did), Item::Const(_) => "ConstInit".into(), Item::Promoted(..) => "Promoted".into() })));
        o.push(("local", J::B(did.is_local())));
        o.push(("poly", J::B(inst.args.has_param())));
        if let Some(p) = tcx.opt_parent(did) {
            o.push(("parent", s(tcx.def_path_str(p))));
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                o.push(("impl_ty", s(tcx.type_of(p).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    o.push(("impl_trait", s(tcx.def_path_str(tr.skip_binder().def_id))));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(p))));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("exported", J::B(did.as_local().map_or(false, |l| tcx.effective_visibilities(()).is_exported(l)))));
            o.push(("unsafe", J::B(tcx.fn_sig(did).skip_binder().safety().is_unsafe())));
        }
        o.push(("span", self.span(body.span)));
        o.push(("args", n(body.arg_count)));
        if let Some(sp) = body.spread_arg {
            o.push(("spread", n(sp.as_usize())));
        }
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        for (l, ld) in body.local_decls.iter_enumerated() {
            let t = self.ty(ld.ty);
            locals.push(J::A(vec![t, match names.get(&l.as_usize()) { Some(x) => s(x), None => J::Null }]));
        }
        o.push(("locals", J::A(locals)));
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !p.projection.is_empty() {
                    upv.push(J::A(vec![s(v.name), self.place(&p)]));
                }
            }
        }
        o.push(("dbg", J::A(upv)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(x, inst, env, it) {
                    st.push(j);
                }
            }
            let t = self.term(bb.terminator(), inst, env, it);
            blocks.push(J::A(vec![J::A(st), t]));
        }
        o.push(("blocks", J::A(blocks)));
        Some((key, J::O(o)))
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn operand(&mut self, op: &Operand<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, it: Item<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, inst, env, it, c.span)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("int", J::N(1)), ("rtchk", J::B(true))])]),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, _it: Item<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        match *t.kind() {
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let j = self.callee(did, args, env);
                o.push(("fn", j));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // promoted of the enclosing item
                let i = Instance::new_raw(u.def, u.args);
                let _ = inst;
                let key = self.push(Item::Promoted(i, p));
                o.push(("body", s(key)));
                return J::O(o);
            }
            let id = u.def;
            o.push(("cpath", s(tcx.def_path_str(id))));
            // scalars / strings are evaluated below; everything else refers to the initialiser
            let scalar = t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point();
            let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
            if !(scalar || is_str) {
                if id.is_local() && !u.args.has_param() {
                    let args = tcx.erase_and_anonymize_regions(u.args);
                    let key = self.push(Item::Const(Instance::new_raw(id, args)));
                    o.push(("body", s(key)));
                    return J::O(o);
                }
            }
        }
        let v = match c.eval(tcx, env, sp) {
            Ok(v) => v,
            Err(_) => {
                o.push(("uneval", s(format!("{:?}", c))));
                return J::O(o);
            }
        };
        self.const_value(v, t, &mut o);
        J::O(o)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                if t.is_floating_point() {
                    let f = if size.bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                    o.push(("float", s(format!("{:?}", f))));
                    return;
                }
                let val: i128 = if t.is_signed() { size.sign_extend(bits) } else { bits as i128 };
                o.push(("int", J::N(val)));
                if matches!(t.kind(), ty::Adt(..)) {
                    o.push(("scalar_adt", J::B(true)));
                }
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                // reference to an allocation
                let (prov, off) = p.into_raw_parts();
                let alloc = tcx.global_alloc(prov.alloc_id());
                match (alloc, t.kind()) {
                    (GlobalAlloc::Memory(m), ty::Ref(_, inner, _)) => {
                        let a = m.inner();
                        match inner.kind() {
                            ty::Array(e, _) if *e == tcx.types.u8 => {
                                let start = off.bytes() as usize;
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(start..a.size().bytes() as usize);
                                o.push(("bytes", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                            }
                            _ => o.push(("opaque", s(format!("alloc {:?}", inner)))),
                        }
                    }
                    (GlobalAlloc::Function { instance }, _) => o.push(("fnptr", s(self.inst_str(instance)))),
                    (GlobalAlloc::Static(did), _) => o.push(("static", s(tcx.def_path_str(did)))),
                    _ => o.push(("opaque", s("ptr"))),
                }
            }
            ConstValue::Slice { .. } => {
                let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) if is_str => o.push(("str", s(String::from_utf8_lossy(b)))),
                    Some(b) => o.push(("bytes", J::A(b.iter().map(|b| n(*b as usize)).collect()))),
                    None => o.push(("opaque", s("slice"))),
                }
            }
            ConstValue::Indirect { .. } => {
                let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if is_str {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b))));
                        return;
                    }
                }
                o.push(("opaque", s("indirect")));
            }
        }
    }

    fn stmt(&mut self, x: &Statement<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, it: Item<'tcx>) -> Option<J> {
        let line = self.line(x.source_info.span);
        match &x.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pj = self.place(p);
                let rj = self.rvalue(r, inst, env, it);
                Some(J::A(vec![s("="), pj, rj, line]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(place);
                Some(J::A(vec![s("sd"), pj, n(variant_index.as_usize()), line]))
            }
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), n(l.as_usize())])),
            StatementKind::Intrinsic(i) => Some(J::A(vec![s("intr"), s(format!("{:?}", i))])),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, it: Item<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, inst, env, it)]),
            Rvalue::Repeat(o, c) => {
                let oj = self.operand(o, inst, env, it);
                let l = match c.try_to_target_usize(self.tcx) { Some(l) => n(l as usize), None => J::Null };
                J::A(vec![s("repeat"), oj, l])
            }
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(matches!(bk, BorrowKind::Mut { .. }))])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true), s("raw")]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(o, inst, env, it);
                let tj = self.ty(*t);
                let ks = format!("{:?}", k);
                J::A(vec![s("cast"), s(ks.split('(').next().unwrap()), oj, tj, s(ks)])
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(&b.0, inst, env, it);
                let rr = self.operand(&b.1, inst, env, it);
                J::A(vec![s("bin"), s(format!("{:?}", op)), l, rr])
            }
            Rvalue::UnaryOp(op, o) => {
                let l = self.operand(o, inst, env, it);
                J::A(vec![s("un"), s(format!("{:?}", op)), l])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o, inst, env, it)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(did, v, args, _, active) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        let tj = self.ty(t);
                        J::A(vec![s("adt"), tj, n(v.as_usize()), match active { Some(a) => n(a.as_usize()), None => J::Null }])
                    }
                    AggregateKind::Closure(did, args) => {
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let i = Instance::new_raw(*did, args);
                        let key = self.push(Item::Fn(i));
                        J::A(vec![s("closure"), s(key)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(p), J::B(m.is_mut())]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, it: Item<'tcx>) -> J {
        let line = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(discr, inst, env, it);
                let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::N(v as i128), n(b.as_usize())])).collect();
                J::A(vec![s("switch"), d, J::A(ts), n(targets.otherwise().as_usize()), line])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(place);
                J::A(vec![s("drop"), p, n(target.as_usize()), line])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(func, inst, env, it);
                let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, inst, env, it)).collect();
                let d = self.place(destination);
                J::A(vec![s("call"), f, J::A(a), d, match target { Some(t) => n(t.as_usize()), None => J::Null }, line])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond, inst, env, it);
                let (k, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".into(), vec![self.operand(len, inst, env, it), self.operand(index, inst, env, it)])
                    }
                    AssertKind::Overflow(op, a, b) => {
                        (format!("overflow:{:?}", op), vec![self.operand(a, inst, env, it), self.operand(b, inst, env, it)])
                    }
                    AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a, inst, env, it)]),
                    AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a, inst, env, it)]),
                    AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a, inst, env, it)]),
                    other => (format!("other:{:?}", other), vec![]),
                };
                J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(ops), n(target.as_usize()), line])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn attrs(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_free_items() {
            let item = tcx.hir_item(id);
            match &item.kind {
                rustc_hir::ItemKind::Enum(_, _, def) => {
                    let did = item.owner_id.to_def_id();
                    let mut vs = vec![];
                    for v in def.variants {
                        let a = self.attr_list(v.hir_id);
                        let mut fs = vec![];
                        for f in v.data.fields() {
                            fs.push(J::A(vec![s(f.ident), self.attr_list(f.hir_id)]));
                        }
                        vs.push(J::A(vec![s(v.ident), a, J::A(fs)]));
                    }
                    let ia = self.attr_list(item.hir_id());
                    out.push(J::O(vec![
                        ("path", s(tcx.def_path_str(did))),
                        ("attrs", ia),
                        ("variants", J::A(vs)),
                    ]));
                }
                rustc_hir::ItemKind::Struct(_, _, data) => {
                    let did = item.owner_id.to_def_id();
                    let mut fs = vec![];
                    for f in data.fields() {
                        fs.push(J::A(vec![s(f.ident), self.attr_list(f.hir_id)]));
                    }
                    let ia = self.attr_list(item.hir_id());
                    out.push(J::O(vec![
                        ("path", s(tcx.def_path_str(did))),
                        ("attrs", ia),
                        ("fields", J::A(fs)),
                    ]));
                }
                _ => {}
            }
        }
        J::A(out)
    }

    fn attr_list(&mut self, id: rustc_hir::HirId) -> J {
        let mut out = vec![];
        for a in self.tcx.hir_attrs(id) {
            let (path, args, span) = match a {
                rustc_attr_ir::Attribute::DeriveHelper(i) | rustc_attr_ir::Attribute::Tool(i) => (i.path.to_string(), &i.args, i.span),
                _ => continue,
            };
            let (txt, sp) = match args {
                rustc_attr_ir::AttrArgs::Empty => (String::new(), span),
                rustc_attr_ir::AttrArgs::Delimited(d) => (rustc_ast_pretty::pprust::tts_to_string(&d.tokens), d.dspan.entire()),
                rustc_attr_ir::AttrArgs::Eq { expr, .. } => (format!("= {:?}", expr.symbol), span),
            };
            // string literals, decoded by the compiler's own lexer
            let mut lits = vec![];
            if let rustc_attr_ir::AttrArgs::Delimited(d) = args {
                for t in d.tokens.iter() {
                    if let rustc_ast::tokenstream::TokenTree::Token(tok, _) = t {
                        if let rustc_ast::token::TokenKind::Literal(l) = tok.kind {
                            if let Ok(k) = rustc_ast::ast::LitKind::from_token_lit(l) {
                                if let Some(sym) = k.str() {
                                    lits.push(s(sym));
                                }
                            }
                        }
                    }
                }
            }
            let sj = self.span(sp);
            out.push(J::O(vec![("name", s(path)), ("args", s(txt)), ("strs", J::A(lits)), ("span", sj)]));
        }
        J::A(out)
    }

    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
            for id in ids {
                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                out.push(J::O(vec![
                    ("trait", s(tcx.def_path_str(*tr))),
                    ("for", s(t)),
                    ("derived", J::B(tcx.is_automatically_derived(id.to_def_id()))),
                ]));
            }
        }
        J::A(out)
    }
}
