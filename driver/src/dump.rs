use crate::json::{i, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

/// The positions of the type arguments among all generic arguments.
fn places(a: GenericArgsRef<'_>) -> J {
    J::A(a.iter().enumerate().filter(|(_, g)| g.as_type().is_some()).map(|(n, _)| i(n)).collect())
}

pub struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
}

impl<'tcx> Dumper<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper { tcx, types: HashMap::new(), type_out: vec![], adts: HashMap::new(), adt_out: vec![] }
    }

    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(self
            .tcx
            .def_path_str(d))))
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), i(loc.line)])
    }

    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        i(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line)
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<Ty<'tcx>> = a.types().collect();
        J::A(v.into_iter().map(|t| i(self.ty(t))).collect())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(n) = self.types.get(&t) {
            return *n;
        }
        let n = self.type_out.len();
        self.types.insert(t, n);
        self.type_out.push(J::Null);
        let text = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(
            t.to_string()
        )));
        let mut o = vec![("s", s(text))];
        match t.kind() {
            ty::Adt(def, a) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.path(def.did()))));
                o.push(("a", self.args(a)));
                self.adt(def.did());
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", i(self.ty(*t))));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", i(self.ty(*t))));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("t", i(self.ty(*t))));
            }
            ty::Array(t, len) => {
                o.push(("k", s("array")));
                o.push(("t", i(self.ty(*t))));
                if let Some(n) = len.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                o.push(("a", J::A(ts.iter().map(|t| i(self.ty(t))).collect())));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.id(*d))));
                let u = a.as_closure().upvar_tys().iter().collect::<Vec<_>>();
                o.push(("a", J::A(u.into_iter().map(|t| i(self.ty(t))).collect())));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                o.push(("d", s(self.id(*d))));
                let u = a.as_coroutine().upvar_tys().iter().collect::<Vec<_>>();
                o.push(("a", J::A(u.into_iter().map(|t| i(self.ty(t))).collect())));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(self.path(*d))));
                o.push(("i", s(self.id(*d))));
                let a: GenericArgsRef<'tcx> = a.skip_binder();
                o.push(("a", self.args(a)));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    o.push(("d", s(self.path(d))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("ix", i(p.index as usize)));
                o.push(("d", s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("prim"))),
        }
        self.type_out[n] = J::O(o);
        n
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_struct() {
            "struct"
        } else {
            "union"
        };
        let mut vs = vec![];
        let discrs: Vec<Option<u128>> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| Some(d.val)).collect()
        } else {
            def.variants().iter().map(|_| None).collect()
        };
        for (n, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if d.is_local() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    i(self.ty(t))
                } else {
                    J::Null
                };
                fs.push(J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("t", t),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![
                ("n", s(v.name.to_string())),
                ("discr", discrs[n].map_or(J::Null, |x| J::I(x as i128))),
                ("f", J::A(fs)),
            ]));
        }
        let o = J::O(vec![
            ("d", s(self.path(d))),
            ("i", s(self.id(d))),
            ("kind", s(kind)),
            ("local", J::B(d.is_local())),
            ("v", J::A(vs)),
        ]);
        self.adt_out.push(o);
    }

    pub fn dump_crate(&mut self, name: &str) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // Force MIR of everything before anything else may steal it.
        for &d in &owners {
            if self.wanted(d) {
                let _ = tcx.mir_promoted(d);
            }
        }
        for &d in &owners {
            if self.wanted(d) {
                if let Some(j) = self.body_owner(d) {
                    fns.push(j);
                }
            }
        }
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let st = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                let mut o = vec![("i", s(self.id(id.to_def_id()))), ("self", i(self.ty(st)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    o.push(("targs", self.args(tr.args)));
                }
                let items: Vec<J> = tcx
                    .associated_items(id.to_def_id())
                    .in_definition_order()
                    .map(|a| J::A(vec![s(a.name().to_string()), s(self.id(a.def_id))]))
                    .collect();
                o.push(("items", J::A(items)));
                o.push(("span", self.span(tcx.def_span(id))));
                impls.push(J::O(o));
            }
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                self.adt(id.to_def_id());
            }
        }
        let unsafe_blocks = self.unsafe_uses();
        let o = J::O(vec![
            ("crate", s(name)),
            ("fns", J::A(fns)),
            ("impls", J::A(impls)),
            ("unsafe", unsafe_blocks),
            ("adts", J::A(std::mem::take(&mut self.adt_out))),
            ("types", J::A(std::mem::take(&mut self.type_out))),
        ]);
        let mut text = String::new();
        o.write(&mut text);
        text
    }

    /// The crate that defines the macro a span comes from, or the empty string.
    fn macro_crate(&self, sp: Span) -> String {
        if !sp.from_expansion() {
            return String::new();
        }
        match sp.ctxt().outer_expn_data().macro_def_id {
            Some(m) => self.tcx.crate_name(m.krate).to_string(),
            None => "?".to_string(),
        }
    }

    fn unsafe_uses(&mut self) -> J {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<(String, Span, bool)>,
            cur: String,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                        let exp = b.span.from_expansion();
                        self.out.push((self.cur.clone(), b.span, exp));
                    }
                }
                intravisit::walk_block(self, b);
            }
        }
        let tcx = self.tcx;
        let mut out = vec![];
        for d in tcx.hir_body_owners() {
            let cur = self.path(d.to_def_id());
            let body = tcx.hir_body_owned_by(d);
            let mut v = V { tcx, out: &mut out, cur };
            v.visit_expr(body.value);
        }
        let mut js: Vec<J> = vec![];
        for (f, sp, exp) in out {
            js.push(J::O(vec![
                ("in", s(f)),
                ("span", self.span(sp)),
                ("expansion", J::B(exp)),
                ("macro_crate", s(self.macro_crate(sp))),
                ("kind", s("block")),
            ]));
        }
        for d in tcx.hir_crate_items(()).definitions() {
            let unsafe_item = match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    tcx.fn_sig(d.to_def_id()).skip_binder().skip_binder().safety().is_unsafe()
                }
                DefKind::Impl { of_trait: true } => {
                    tcx.impl_trait_header(d.to_def_id()).safety.is_unsafe()
                }
                DefKind::ForeignMod | DefKind::Union => true,
                DefKind::Static { mutability, .. } => mutability.is_mut(),
                _ => false,
            };
            if unsafe_item {
                let sp = tcx.def_span(d);
                js.push(J::O(vec![
                    ("in", s(self.path(d.to_def_id()))),
                    ("span", self.span(sp)),
                    ("expansion", J::B(sp.from_expansion())),
                    ("macro_crate", s(self.macro_crate(sp))),
                    ("kind", s("item")),
                ]));
            }
        }
        J::A(js)
    }

    fn wanted(&self, d: LocalDefId) -> bool {
        matches!(
            self.tcx.def_kind(d),
            DefKind::Fn
                | DefKind::AssocFn
                | DefKind::Closure
                | DefKind::SyntheticCoroutineBody
                | DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::Static { .. }
        )
    }

    fn body_owner(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let (body, promoted) = tcx.mir_promoted(d);
        if body.is_stolen() {
            // Constants evaluated while building other bodies.
            let b = tcx.mir_for_ctfe(did);
            return Some(self.one(d, b, None));
        }
        let b = body.borrow().clone();
        let pr = if promoted.is_stolen() { None } else { Some(promoted.borrow().clone()) };
        Some(self.one(d, &b, pr))
    }

    fn one(
        &mut self,
        d: LocalDefId,
        body: &Body<'tcx>,
        promoted: Option<rustc_index::IndexVec<mir::Promoted, Body<'tcx>>>,
    ) -> J {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let kind = match tcx.def_kind(d) {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::SyntheticCoroutineBody => "coroutine",
            DefKind::Static { .. } => "static",
            _ => "const",
        };
        let mut o = vec![
            ("i", s(self.id(did))),
            ("p", s(self.path(did))),
            ("kind", s(kind)),
            ("span", self.span(tcx.def_span(d))),
            ("exp", J::B(tcx.def_span(d).from_expansion())),
        ];
        if let Some(par) = tcx.opt_parent(did) {
            o.push(("parent", s(self.id(par))));
        }
        if matches!(kind, "fn" | "method") {
            let eff = tcx.effective_visibilities(());
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            o.push(("reach", J::B(eff.is_reachable(d))));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            o.push(("name", s(tcx.item_name(did).to_string())));
            if let Some(im) = tcx.impl_of_assoc(did) {
                o.push(("impl", s(self.id(im))));
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", i(self.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    o.push(("targs", self.args(tr.args)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("intrait", s(self.path(tr))));
            }
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("ret", i(self.ty(sig.output()))));
            let names: Vec<J> = tcx
                .fn_arg_idents(did)
                .iter()
                .map(|x| x.map_or(J::Null, |n| s(n.name.to_string())))
                .collect();
            o.push(("params", J::A(names)));
        }
        if matches!(kind, "closure" | "coroutine") && tcx.is_closure_like(did) {
            let caps: Vec<J> = tcx
                .closure_captures(d)
                .iter()
                .map(|c| s(c.to_symbol().to_string()))
                .collect();
            o.push(("upvars", J::A(caps)));
        }
        if kind == "coroutine" {
            if let Some(w) = tcx.mir_coroutine_witnesses(did) {
                let mut saved = vec![];
                for (variant, fields) in w.variant_fields.iter_enumerated() {
                    let line = self.line(w.variant_source_info[variant].span);
                    let ts: Vec<J> = fields
                        .iter()
                        .map(|f| {
                            let t = w.field_tys[*f].ty;
                            let l = self.line(w.field_tys[*f].source_info.span);
                            J::A(vec![i(self.ty(t)), l])
                        })
                        .collect();
                    saved.push(J::A(vec![line, J::A(ts)]));
                }
                o.push(("saved", J::A(saved)));
            }
        }
        o.push(("body", self.body(body, env)));
        if let Some(pr) = promoted {
            let v: Vec<J> = pr.iter().map(|b| self.body(b, env)).collect();
            o.push(("promoted", J::A(v)));
        }
        J::O(o)
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upnames.push(J::A(vec![s(v.name.to_string()), self.place(&p, b)]));
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(n, d)| {
                let mut v = vec![i(self.ty(d.ty))];
                if let Some(x) = names.get(&n.as_usize()) {
                    v.push(s(x.clone()));
                }
                J::A(v)
            })
            .collect();
        let blocks: Vec<J> = b
            .basic_blocks
            .iter()
            .map(|bb| {
                let mut st = vec![];
                for x in &bb.statements {
                    if let Some(j) = self.stmt(x, b, env) {
                        st.push(j);
                    }
                }
                let t = self.term(bb.terminator(), b, env);
                let mut o = vec![("s", J::A(st)), ("t", t)];
                if bb.is_cleanup {
                    o.push(("c", J::B(true)));
                }
                J::O(o)
            })
            .collect();
        J::O(vec![
            ("n", i(b.arg_count)),
            ("l", J::A(locals)),
            ("b", J::A(blocks)),
            ("u", J::A(upnames)),
        ])
    }

    fn stmt(&mut self, x: &mir::Statement<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        Some(match &x.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                J::A(vec![
                    s("="),
                    self.place(p, b),
                    self.rvalue(r, b, env),
                    self.line(x.source_info.span),
                ])
            }
            StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                s("setd"),
                self.place(place, b),
                i(variant_index.as_usize()),
            ]),
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), i(l.as_usize())]),
            _ => return None,
        })
    }

    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut v = vec![s("f"), i(f.as_usize())];
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let var = match pt.variant_index {
                            Some(vi) => Some(def.variant(vi)),
                            None if !def.is_enum() => Some(def.non_enum_variant()),
                            None => None,
                        };
                        if let Some(var) = var {
                            if let Some(fd) = var.fields.get(f) {
                                v.push(s(fd.name.to_string()));
                            }
                        }
                    }
                    J::A(v)
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, vi) => {
                    let name = n.map(|x| x.to_string()).unwrap_or_default();
                    J::A(vec![s("v"), i(vi.as_usize()), s(name)])
                }
                _ => s("?"),
            };
            pr.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }

    fn place_ty(&mut self, p: &Place<'tcx>, b: &Body<'tcx>) -> usize {
        let t = p.ty(b, self.tcx).ty;
        self.ty(t)
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p, b)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p, b)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, env, c.span)]),
            _ => J::A(vec![s("?")]),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("t", i(self.ty(t)))];
        if let ty::FnDef(d, a) = t.kind() {
            let a: GenericArgsRef<'tcx> = a.skip_binder();
            self.callee(*d, a, env, &mut o);
            return J::O(o);
        }
        let mut val: Option<ConstValue> = None;
        match c {
            Const::Unevaluated(u, _) => {
                o.push(("u", s(self.id(u.def))));
                o.push(("up", s(self.path(u.def))));
                if let Some(p) = u.promoted {
                    o.push(("pr", i(p.as_usize())));
                } else {
                    // Assoc consts of impls resolved through the trait.
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, tcx.erase_and_anonymize_regions(u.args)) {
                        if inst.def_id() != u.def {
                            o.push(("ui", s(self.id(inst.def_id()))));
                        }
                    }
                }
            }
            Const::Val(v, _) => val = Some(*v),
            Const::Ty(_, ct) => {
                if let Some(sc) = ct.try_to_leaf() {
                    o.push(("n", J::I(sc.to_bits(sc.size()) as i128)));
                } else {
                    o.push(("p", s(format!("{ct:?}"))));
                }
            }
        }
        let _ = span;
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(x)) => {
                    let bits = x.to_bits(x.size());
                    let signed = matches!(t.kind(), ty::Int(_));
                    let n: i128 = if signed {
                        x.to_int(x.size())
                    } else {
                        bits as i128
                    };
                    o.push(("n", J::I(n)));
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(mir::interpret::GlobalAlloc::Static(d)) => {
                            o.push(("st", s(self.id(d))));
                        }
                        Some(mir::interpret::GlobalAlloc::Memory(m)) => {
                            let al = m.inner();
                            if al.provenance().ptrs().is_empty() && al.len() <= 256 && off.bytes() == 0 {
                                let by = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                                o.push(("b", J::A(by.iter().map(|x| J::I(*x as i128)).collect())));
                            } else {
                                o.push(("x", s("mem")));
                            }
                        }
                        _ => o.push(("x", s("ptr"))),
                    }
                }
                ConstValue::ZeroSized => o.push(("z", J::B(true))),
                ConstValue::Slice { .. } => {
                    if let Some(by) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let is_str = matches!(t.kind(), ty::Ref(_, inner, _) if inner.is_str());
                        if is_str {
                            o.push(("s", s(String::from_utf8_lossy(by).to_string())));
                        } else {
                            o.push(("b", J::A(by.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
                ConstValue::Indirect { .. } => o.push(("x", s("indirect"))),
            }
        }
        J::O(o)
    }

    fn callee(
        &mut self,
        d: DefId,
        a: GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
        o: &mut Vec<(&'static str, J)>,
    ) {
        let tcx = self.tcx;
        o.push(("f", s(self.path(d))));
        o.push(("fi", s(self.id(d))));
        o.push(("ga", self.args(a)));
        o.push(("gx", places(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            o.push(("ctor", J::A(vec![s(self.path(adt)), s(var)])));
            self.adt(adt);
            return;
        }
        let a = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let rd = inst.def_id();
            let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
            if virt {
                o.push(("virt", J::B(true)));
            } else if rd != d {
                o.push(("r", s(self.path(rd))));
                o.push(("ri", s(self.id(rd))));
                o.push(("rga", self.args(inst.args)));
                o.push(("rgx", places(inst.args)));
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, b, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or(J::Null, |x| J::I(x as i128));
                J::A(vec![s("rep"), self.operand(o, b, env), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, mir::BorrowKind::Mut { .. })),
                self.place(p, b),
                i(self.place_ty(p, b)),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ptr"), self.place(p, b)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.id(*d))]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                self.operand(o, b, env),
                i(self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, bx) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(&bx.0, b, env),
                self.operand(&bx.1, b, env),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o, b, env)])
            }
            Rvalue::Discriminant(p) => {
                J::A(vec![s("disc"), self.place(p, b), i(self.place_ty(p, b))])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, b, env)).collect();
                let h = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let fs: Vec<J> =
                            var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            s(var.name.to_string()),
                            i(vi.as_usize()),
                            J::A(fs),
                            self.args(a),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("coroutine"), s(self.id(*d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), h, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p, b)])]),
            _ => J::A(vec![s("?"), s(format!("{r:?}"))]),
        }
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let bb = |x: BasicBlock| i(x.as_usize());
        let ln = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let t0 = discr.ty(b, self.tcx);
                let signed = matches!(t0.kind(), ty::Int(_));
                let v: Vec<J> = targets
                    .iter()
                    .map(|(n, x)| {
                        let n = if signed { n as i128 } else { n as i128 };
                        J::A(vec![J::I(n), bb(x)])
                    })
                    .collect();
                J::A(vec![
                    s("switch"),
                    self.operand(discr, b, env),
                    J::A(v),
                    bb(targets.otherwise()),
                    i(self.ty(t0)),
                    ln,
                ])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                J::A(vec![s("drop"), self.place(place, b), bb(*target), i(self.place_ty(place, b)), ln])
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let f = self.operand(func, b, env);
                let v: Vec<J> = args.iter().map(|a| self.operand(&a.node, b, env)).collect();
                let exp = fn_span.from_expansion();
                let mac = if exp {
                    let mut data = fn_span.ctxt().outer_expn_data();
                    let mut name = String::new();
                    loop {
                        match data.kind {
                            rustc_span::hygiene::ExpnKind::Macro(_, sym) => name = sym.to_string(),
                            rustc_span::hygiene::ExpnKind::Desugaring(k) => {
                                if name.is_empty() {
                                    name = format!("desugar:{}", k.descr());
                                }
                            }
                            _ => {}
                        }
                        let cs = data.call_site;
                        if cs.ctxt().is_root() || !cs.from_expansion() {
                            break;
                        }
                        data = cs.ctxt().outer_expn_data();
                    }
                    s(name)
                } else {
                    J::Null
                };
                J::A(vec![
                    s("call"),
                    f,
                    J::A(v),
                    self.place(destination, b),
                    target.map_or(J::Null, bb),
                    ln,
                    mac,
                    i(self.place_ty(destination, b)),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                let kind = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "bounds",
                    mir::AssertKind::Overflow(..) => "overflow",
                    mir::AssertKind::OverflowNeg(..) => "overflow",
                    mir::AssertKind::DivisionByZero(..) => "div0",
                    mir::AssertKind::RemainderByZero(..) => "rem0",
                    _ => "other",
                };
                J::A(vec![
                    s("assert"),
                    self.operand(cond, b, env),
                    J::B(*expected),
                    bb(*target),
                    s(kind),
                    s(m),
                    ln,
                ])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => J::A(vec![
                s("yield"),
                self.operand(value, b, env),
                bb(*resume),
                self.place(resume_arg, b),
                ln,
            ]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::A(vec![s("goto"), bb(*real_target)])
            }
            TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![s("terminate")]),
            TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
            TerminatorKind::CoroutineDrop => J::A(vec![s("cordrop")]),
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
        }
    }
}
