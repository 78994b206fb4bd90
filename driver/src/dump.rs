use crate::json::{i, s, J};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BorrowKind, CastKind, Const, ConstValue, Operand, Place, PlaceElem,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

/// Standard-library modules whose (generic, small) bodies are exported so that the analyser
/// reads the combinators themselves instead of trusting a table about them.
const STD_BODY_PREFIXES: &[&str] = &[
    "::option::",
    "::result::",
    "::bool::",
    "::ops::control_flow::",
    "::ops::try_trait::",
    "::tuple::",
];

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = Dumper {
        tcx,
        types: HashMap::new(),
        type_rows: vec![],
        queue: VecDeque::new(),
        seen: HashSet::new(),
        fns: vec![],
        adts: HashMap::new(),
        adt_rows: vec![],
        cur_env: TypingEnv::fully_monomorphized(),
    };
    let j = with_no_trimmed_paths!(d.run());
    let mut o = String::new();
    j.write(&mut o);
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_rows: Vec<J>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<String>,
    fns: Vec<J>,
    adts: HashMap<DefId, usize>,
    adt_rows: Vec<J>,
    cur_env: TypingEnv<'tcx>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn inst_sym(&self, inst: Instance<'tcx>) -> String {
        let base = self.tcx.def_path_str_with_args(inst.def_id(), inst.args);
        match inst.def {
            InstanceKind::Item(_) => {
                if self.tcx.is_closure_like(inst.def_id()) {
                    // closures: parent path + index + full args for uniqueness
                    format!(
                        "{}@{}<{}>",
                        self.tcx.def_path(inst.def_id()).to_string_no_crate_verbose(),
                        base.len(),
                        inst.args
                            .iter()
                            .take(self.tcx.generics_of(inst.def_id()).parent_count)
                            .map(|a| a.to_string())
                            .collect::<Vec<_>>()
                            .join(",")
                    )
                } else {
                    base
                }
            }
            other => format!("{}#{}", base, kind_name(&other)),
        }
    }

    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", l.file.name.prefer_local_unconditionally());
        J::A(vec![s(name), i(l.line as i128)])
    }

    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        i(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.ty_id(t) as i128)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&k) = self.types.get(&t) {
            return k;
        }
        let id = self.type_rows.len();
        self.types.insert(t, id);
        self.type_rows.push(J::Null);
        let txt = format!("{}", t);
        let mut o = vec![("s", s(txt))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s(if m.is_mut() { "mut" } else { "ref" })));
                let a = self.ty(*x);
                o.push(("args", J::A(vec![a])));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("raw")));
                let a = self.ty(*x);
                o.push(("args", J::A(vec![a])));
            }
            ty::Array(x, n) => {
                o.push(("k", s("array")));
                let a = self.ty(*x);
                o.push(("args", J::A(vec![a])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", i(n)));
                }
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let a = self.ty(*x);
                o.push(("args", J::A(vec![a])));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                let v = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
                let cs: Vec<J> = args
                    .consts()
                    .map(|c| match c.try_to_target_usize(self.tcx) {
                        Some(n) => i(n),
                        None => s(c.to_string()),
                    })
                    .collect();
                o.push(("consts", J::A(cs)));
                o.push(("enum", J::B(def.is_enum())));
                self.adt(*def);
                // field types of this instantiation
                let mut vars = vec![];
                if def.is_enum() || def.is_struct() {
                    for v in def.variants() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(self.tcx, args);
                                let ft = self
                                    .tcx
                                    .try_normalize_erasing_regions(self.cur_env, ft);
                                match ft {
                                    Ok(ft) => {
                                        // do not expand the private insides of foreign types
                                        if def.did().is_local()
                                            || matches!(
                                                self.path(def.did()).as_str(),
                                                "std::option::Option" | "std::result::Result"
                                                    | "std::ops::ControlFlow"
                                            )
                                        {
                                            self.ty(ft)
                                        } else {
                                            J::Null
                                        }
                                    }
                                    Err(_) => J::Null,
                                }
                            })
                            .collect();
                        vars.push(J::A(fs));
                    }
                }
                o.push(("fields", J::A(vars)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.skip_binder();
                let c = self.callee(*d, args);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(*d, args);
                o.push(("sym", s(self.inst_sym(inst))));
                o.push(("mode", s(format!("{:?}", args.as_closure().kind()))));
                let v = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
                self.enqueue(inst);
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("path", s(self.path(p))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            _ => o.push(("k", s("other"))),
        }
        self.type_rows[id] = J::O(o);
        id
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        let id = self.adt_rows.len();
        self.adts.insert(def.did(), id);
        self.adt_rows.push(J::Null);
        let mut vars = vec![];
        if def.is_enum() || def.is_struct() {
            let discrs: Vec<String> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
            } else {
                vec!["0".into()]
            };
            for (k, v) in def.variants().iter().enumerate() {
                let fs = v
                    .fields
                    .iter()
                    .map(|f| {
                        J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("vis", s(format!("{:?}", f.vis))),
                            ("attrs", self.attrs(f.did)),
                        ])
                    })
                    .collect();
                vars.push(J::O(vec![
                    ("name", s(v.name.to_string())),
                    ("discr", s(discrs[k].clone())),
                    ("attrs", self.attrs(v.def_id)),
                    ("fields", J::A(fs)),
                ]));
            }
        }
        self.adt_rows[id] = J::O(vec![
            ("path", s(self.path(def.did()))),
            ("local", J::B(def.did().is_local())),
            ("enum", J::B(def.is_enum())),
            ("loc", self.loc(self.tcx.def_span(def.did()))),
            ("attrs", self.attrs(def.did())),
            ("variants", J::A(vars)),
        ]);
    }

    fn attrs(&self, d: DefId) -> J {
        let Some(l) = d.as_local() else { return J::A(vec![]) };
        let hid = self.tcx.local_def_id_to_hir_id(l);
        let sm = self.tcx.sess.source_map();
        let v = self
            .tcx
            .hir_attrs(hid)
            .iter()
            .filter_map(|a| match a {
                rustc_attr_ir::Attribute::Tool(item) | rustc_attr_ir::Attribute::DeriveHelper(item) => {
                    let name = item
                        .path
                        .segments
                        .iter()
                        .map(|x| x.to_string())
                        .collect::<Vec<_>>()
                        .join("::");
                    let snip = sm.span_to_snippet(item.span).unwrap_or_default();
                    Some(J::A(vec![s(name), s(snip)]))
                }
                _ => None,
            })
            .collect();
        J::A(v)
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) {
        let sym = self.inst_sym(inst);
        if self.seen.insert(sym) {
            self.queue.push_back(inst);
        }
    }

    fn wanted(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {}
            _ => return false,
        }
        if !matches!(
            self.tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
        ) {
            return false;
        }
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        let krate = self.tcx.crate_name(d.krate);
        if krate.as_str() != "core" {
            return false;
        }
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        STD_BODY_PREFIXES.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.path(d))), ("local", J::B(d.is_local()))];
        let krate = tcx.crate_name(d.krate).to_string();
        o.push(("crate", s(krate)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", s(n.to_string())));
        }
        let v = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(v)));
        let cs: Vec<J> = args
            .consts()
            .map(|c| match c.try_to_target_usize(tcx) {
                Some(n) => i(n),
                None => s(c.to_string()),
            })
            .collect();
        if !cs.is_empty() {
            o.push(("consts", J::A(cs)));
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        let args_n = tcx.try_normalize_erasing_regions(self.cur_env, ty::Unnormalized::new(args));
        let args_e = match args_n {
            Ok(a) => a,
            Err(_) => args,
        };
        if args_e.has_escaping_bound_vars() {
            return J::O(o);
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.cur_env, d, args_e) {
            let mut r = vec![
                ("sym", s(self.inst_sym(inst))),
                ("def", s(self.path(inst.def_id()))),
                ("kind", s(kind_name(&inst.def))),
                ("local", J::B(inst.def_id().is_local())),
            ];
            if let Some(imp) = tcx.impl_of_assoc(inst.def_id()) {
                r.push(("derived", J::B(tcx.is_automatically_derived(imp))));
            }
            if self.wanted(inst) {
                r.push(("body", J::B(true)));
                self.enqueue(inst);
            }
            o.push(("res", J::O(r)));
        }
        J::O(o)
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut elems = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let e: PlaceElem<'tcx> = e;
            match e {
                ProjectionElem::Deref => {
                    let k = match pty.ty.kind() {
                        ty::Ref(_, _, m) => {
                            if m.is_mut() {
                                "mut"
                            } else {
                                "ref"
                            }
                        }
                        ty::RawPtr(..) => "raw",
                        _ => "box",
                    };
                    elems.push(J::A(vec![s("*"), s(k)]));
                }
                ProjectionElem::Field(f, t) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() {
                                def.variant(v).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = self.ty(pty.ty);
                    let ft = self.ty(t);
                    elems.push(J::A(vec![s("f"), i(f.as_usize() as i128), s(name), ft, owner]));
                }
                ProjectionElem::Index(l) => {
                    elems.push(J::A(vec![s("i"), i(l.as_usize() as i128)]))
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => elems.push(J::A(
                    vec![s("ci"), i(offset), i(min_length), J::B(from_end)],
                )),
                ProjectionElem::Subslice { from, to, from_end } => {
                    elems.push(J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]))
                }
                ProjectionElem::Downcast(_, v) => {
                    elems.push(J::A(vec![s("d"), i(v.as_usize() as i128)]))
                }
                _ => elems.push(J::A(vec![s("?")])),
            }
            pty = pty.projection_ty(tcx, e);
        }
        let t = self.ty(pty.ty);
        J::A(vec![i(p.local.as_usize() as i128), J::A(elems), t])
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let x = self.place(body, p);
                J::A(vec![s("c"), x])
            }
            Operand::Move(p) => {
                let x = self.place(body, p);
                J::A(vec![s("m"), x])
            }
            Operand::Constant(c) => {
                let x = self.constant(&c.const_);
                J::A(vec![s("k"), x])
            }
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("rt")]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        if let ty::FnDef(..) = t.kind() {
            o.push(("fn", J::B(true)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                o.push(("name", s(self.path(u.def))));
            }
        }
        match c.eval(self.tcx, self.cur_env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                o.push(("v", j));
            }
            Err(_) => o.push(("v", J::A(vec![s("opaque"), s(format!("{:?}", c))]))),
        }
        J::O(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let opaque = |why: &str| J::A(vec![s("opaque"), s(format!("{}: {}", t, why))]);
        if depth > 12 {
            return opaque("depth");
        }
        if t.has_param() {
            return opaque("param");
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(x)) => Some(x.to_bits_unchecked()),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = match t.kind() {
                            ty::Bool => 1,
                            ty::Char => 4,
                            ty::Int(x) => x.bit_width().unwrap_or(64) / 8,
                            ty::Uint(x) => x.bit_width().unwrap_or(64) / 8,
                            ty::Float(x) => x.bit_width() / 8,
                            _ => unreachable!(),
                        } as usize;
                        self.bytes(alloc_id, offset.bytes() as usize, sz).map(|b| {
                            let mut n: u128 = 0;
                            for (k, x) in b.iter().enumerate() {
                                n |= (*x as u128) << (8 * k);
                            }
                            n
                        })
                    }
                    _ => None,
                };
                let Some(n) = sc else { return opaque("scalar") };
                match t.kind() {
                    ty::Bool => J::A(vec![s("bool"), J::B(n != 0)]),
                    ty::Char => J::A(vec![
                        s("char"),
                        s(char::from_u32(n as u32).unwrap_or('?').to_string()),
                    ]),
                    ty::Int(x) => {
                        let bits = x.bit_width().unwrap_or(64);
                        let sh = 128 - bits as u32;
                        J::A(vec![s("int"), i(((n << sh) as i128) >> sh)])
                    }
                    ty::Uint(_) => J::A(vec![s("int"), J::S(n.to_string())]),
                    ty::Float(x) => {
                        let f = if x.bit_width() == 32 {
                            f32::from_bits(n as u32) as f64
                        } else {
                            f64::from_bits(n as u64)
                        };
                        J::A(vec![s("float"), s(format!("{:?}", f))])
                    }
                    _ => unreachable!(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let (aid, off, meta) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                match self.fat_ptr(alloc_id, offset.bytes() as usize) {
                                    Some(x) => x,
                                    None => return opaque("fat"),
                                }
                            }
                            _ => return opaque("slice"),
                        };
                        if inner.is_str() {
                            match self.bytes(aid, off, meta as usize) {
                                Some(b) => {
                                    J::A(vec![s("str"), s(String::from_utf8_lossy(&b).to_string())])
                                }
                                None => opaque("str"),
                            }
                        } else {
                            let ty::Slice(el) = inner.kind() else { unreachable!() };
                            let at = Ty::new_array(tcx, *el, meta);
                            self.cval(
                                ConstValue::Indirect {
                                    alloc_id: aid,
                                    offset: rustc_abi::Size::from_bytes(off),
                                },
                                at,
                                depth + 1,
                            )
                        }
                    }
                    ty::Dynamic(..) | ty::FnPtr(..) => opaque("dyn"),
                    _ => {
                        let (aid, off) = match v {
                            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                                let (prov, off) = p.prov_and_relative_offset();
                                (prov.alloc_id(), off.bytes() as usize)
                            }
                            ConstValue::Indirect { alloc_id, offset } => {
                                match self.thin_ptr(alloc_id, offset.bytes() as usize) {
                                    Some(x) => x,
                                    None => return opaque("ptr"),
                                }
                            }
                            _ => return opaque("ref"),
                        };
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Memory(_) => self.cval(
                                ConstValue::Indirect {
                                    alloc_id: aid,
                                    offset: rustc_abi::Size::from_bytes(off),
                                },
                                *inner,
                                depth + 1,
                            ),
                            GlobalAlloc::Static(d) => {
                                J::A(vec![s("static"), s(self.path(d)), J::B(tcx.is_mutable_static(d))])
                            }
                            _ => opaque("alloc"),
                        }
                    }
                }
            }
            ty::Adt(def, _) if def.is_union() => opaque("union"),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.variants().is_empty() {
                        return opaque("empty");
                    }
                }
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).unwrap_or(1 << 30) > 256 {
                        return opaque("long");
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let mut fs = vec![];
                        for (fv, ft) in dc.fields.iter() {
                            fs.push(self.cval(*fv, *ft, depth + 1));
                        }
                        let k = match t.kind() {
                            ty::Adt(..) => "adt",
                            ty::Tuple(_) => "tuple",
                            _ => "array",
                        };
                        let vi = dc.variant.map(|x| x.as_usize()).unwrap_or(0);
                        let tj = self.ty(t);
                        J::A(vec![s(k), tj, i(vi as i128), J::A(fs)])
                    }
                    None => opaque("destructure"),
                }
            }
            ty::Closure(..) | ty::FnDef(..) => {
                let tj = self.ty(t);
                J::A(vec![s("zst"), tj])
            }
            _ => opaque("kind"),
        }
    }

    fn bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, n: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if off + n > m.len() {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
            }
            _ => None,
        }
    }

    fn thin_ptr(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: usize,
    ) -> Option<(rustc_middle::mir::interpret::AllocId, usize)> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let prov = m.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
                let b = self.bytes(id, off, 8)?;
                let a = u64::from_le_bytes(b.try_into().ok()?) as usize;
                Some((prov.alloc_id(), a))
            }
            _ => None,
        }
    }

    fn fat_ptr(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: usize,
    ) -> Option<(rustc_middle::mir::interpret::AllocId, usize, u64)> {
        let meta = u64::from_le_bytes(self.bytes(id, off + 8, 8)?.try_into().ok()?);
        match self.thin_ptr(id, off) {
            Some((a, o)) => Some((a, o, meta)),
            None if meta == 0 => Some((id, 0, 0)),
            None => None,
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => {
                let x = self.operand(body, op);
                J::A(vec![s("use"), x])
            }
            Rvalue::Repeat(op, n) => {
                let x = self.operand(body, op);
                let n = n.try_to_target_usize(self.tcx).map(|n| i(n)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), x, n])
            }
            Rvalue::Ref(_, bk, p) => {
                let x = self.place(body, p);
                let k = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::A(vec![s("ref"), s(k), x])
            }
            Rvalue::RawPtr(k, p) => {
                let x = self.place(body, p);
                J::A(vec![s("rawptr"), s(format!("{:?}", k)), x])
            }
            Rvalue::Cast(k, op, t) => {
                let x = self.operand(body, op);
                let from = self.ty(op.ty(&body.local_decls, self.tcx));
                let t = self.ty(*t);
                let kn = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                J::A(vec![s("cast"), s(kn), x, from, t])
            }
            Rvalue::BinaryOp(op, b) => {
                let (l, r) = (&b.0, &b.1);
                let lt = self.ty(l.ty(&body.local_decls, self.tcx));
                let l = self.operand(body, l);
                let r = self.operand(body, r);
                J::A(vec![s("bin"), s(format!("{:?}", op)), l, r, lt])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = self.ty(x.ty(&body.local_decls, self.tcx));
                let x = self.operand(body, x);
                J::A(vec![s("un"), s(format!("{:?}", op)), x, t])
            }
            Rvalue::Discriminant(p) => {
                let x = self.place(body, p);
                J::A(vec![s("discr"), x])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let tj = self.ty(t);
                let (kn, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, active) => {
                        if active.is_some() {
                            ("union", 0)
                        } else {
                            ("adt", v.as_usize())
                        }
                    }
                    AggregateKind::Closure(d, a) => {
                        self.enqueue(Instance::new_raw(*d, a));
                        ("closure", 0)
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                J::A(vec![s("agg"), s(kn), tj, i(vi as i128), J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => {
                let x = self.place(body, p);
                J::A(vec![s("use"), J::A(vec![s("c"), x])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let x = self.place(body, p);
                J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), x])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(op, _) => {
                let x = self.operand(body, op);
                J::A(vec![s("use"), x])
            }
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, body: &mir::Body<'tcx>, generic: bool) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            match names.get(&l.as_usize()) {
                Some(n) => locals.push(J::A(vec![t, s(n.clone())])),
                None => locals.push(J::A(vec![t])),
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            if !bb.is_cleanup {
                for st in &bb.statements {
                    match &st.kind {
                        StatementKind::Assign(b) => {
                            let p = self.place(body, &b.0);
                            let r = self.rvalue(body, &b.1);
                            stmts.push(J::A(vec![s("="), p, r, self.line(st.source_info.span)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(body, place);
                            stmts.push(J::A(vec![
                                s("setd"),
                                p,
                                i(variant_index.as_usize() as i128),
                            ]));
                        }
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let term = match &t.kind {
                _ if bb.is_cleanup => J::A(vec![s("cleanup")]),
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), i(target.as_usize() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.ty(discr.ty(&body.local_decls, tcx));
                    let x = self.operand(body, discr);
                    let v = targets
                        .iter()
                        .map(|(v, b)| {
                            J::A(vec![J::S(v.to_string()), i(b.as_usize() as i128)])
                        })
                        .collect();
                    J::A(vec![
                        s("switch"),
                        x,
                        J::A(v),
                        i(targets.otherwise().as_usize() as i128),
                        t,
                        ln,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(body, place);
                    J::A(vec![s("drop"), i(target.as_usize() as i128), p])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => {
                            let x = self.operand(body, func);
                            J::O(vec![("ptr", x)])
                        }
                    };
                    let av = args
                        .iter()
                        .map(|a| {
                            let x = self.operand(body, &a.node);
                            let t = self.ty(a.node.ty(&body.local_decls, tcx));
                            J::A(vec![x, t])
                        })
                        .collect();
                    let dp = self.place(body, destination);
                    let tg = target.map(|b| i(b.as_usize() as i128)).unwrap_or(J::Null);
                    J::A(vec![s("call"), f, J::A(av), dp, tg, self.line(*fn_span)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, cond);
                    let kind = format!("{:?}", msg);
                    let kind = kind.split('(').next().unwrap_or("").to_string();
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(kind),
                        i(target.as_usize() as i128),
                        ln,
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize() as i128)])
                }
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![("s", J::A(stmts)), ("t", term)]));
        }
        let impl_of = if tcx.is_closure_like(d) { None } else { tcx.impl_of_assoc(d) };
        let derived = impl_of.map(|x| tcx.is_automatically_derived(x)).unwrap_or(false);
        let mut o = vec![
            ("sym", s(self.inst_sym(inst))),
            ("def", s(self.path(d))),
            ("dp", s(tcx.def_path(d).to_string_no_crate_verbose())),
            ("local", J::B(d.is_local())),
            ("generic", J::B(generic)),
            ("closure", J::B(tcx.is_closure_like(d))),
            ("derived", J::B(derived)),
            ("loc", self.loc(tcx.def_span(d))),
            ("argc", i(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        if d.is_local() && !tcx.is_closure_like(d) {
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        self.fns.push(J::O(o));
    }

    fn do_instance(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        if !self.wanted(inst) {
            return;
        }
        if matches!(tcx.def_kind(inst.def_id()), DefKind::Ctor(..)) {
            return;
        }
        if inst.args.has_param() {
            return; // handled as generic body
        }
        self.cur_env = TypingEnv::fully_monomorphized();
        let body = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.cur_env,
            ty::EarlyBinder::bind(tcx, body.clone()),
        );
        self.body(inst, &body, false);
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut sigs = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut generics = vec![];
        let mut adt_defs = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let id_args = ty::GenericArgs::identity_for_item(tcx, d);
                    self.cur_env = TypingEnv::post_analysis(tcx, d);
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sig = tcx.instantiate_bound_regions_with_erased(sig);
                    let sig = tcx
                        .try_normalize_erasing_regions(self.cur_env, ty::Unnormalized::new(sig))
                        .unwrap_or(sig);
                    let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                    let out = sig.output();
                    let is_iter = self.is_iterator(out);
                    let outj = self.ty(out);
                    let requires_mono = tcx.generics_of(d).requires_monomorphization(tcx);
                    let mut o = vec![
                        ("def", s(self.path(d))),
                        ("name", s(tcx.item_name(d).to_string())),
                        ("vis", s(format!("{:?}", tcx.visibility(d)))),
                        ("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
                        ("in", J::A(ins)),
                        ("out", outj),
                        ("out_is_iterator", J::B(is_iter)),
                        ("generic", J::B(requires_mono)),
                        ("loc", self.loc(tcx.def_span(d))),
                    ];
                    if let Some(im) = tcx.impl_of_assoc(d) {
                        o.push(("impl_self", self_ty(tcx, im)));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            o.push(("trait", s(self.path(tr.def_id))));
                        }
                        o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                    }
                    sigs.push(J::O(o));
                    let inst = Instance::new_raw(d, id_args);
                    if requires_mono {
                        generics.push((d, inst));
                    } else {
                        self.cur_env = TypingEnv::fully_monomorphized();
                        let e = tcx.erase_and_anonymize_regions(id_args);
                        self.enqueue(Instance::new_raw(d, e));
                    }
                }
                DefKind::Impl { .. } => {
                    let self_t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    self.cur_env = TypingEnv::post_analysis(tcx, d);
                    let st = self.ty(self_t);
                    let mut o = vec![
                        ("self", st),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("trait_ref", s(tr.to_string())));
                    }
                    let ms: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
                        .map(|a| J::A(vec![s(a.name().to_string()), s(self.path(a.def_id))]))
                        .collect();
                    o.push(("methods", J::A(ms)));
                    impls.push(J::O(o));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    self.cur_env = TypingEnv::fully_monomorphized();
                    let fz = t.is_freeze(tcx, self.cur_env);
                    let tj = self.ty(t);
                    statics.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(fz)),
                        ("ty", tj),
                    ]));
                }
                DefKind::Struct | DefKind::Enum => {
                    self.cur_env = TypingEnv::post_analysis(tcx, d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let fz = t.is_freeze(tcx, self.cur_env);
                    let tj = self.ty(t);
                    adt_defs.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("ty", tj),
                        ("freeze", J::B(fz)),
                    ]));
                }
                _ => {}
            }
        }
        while let Some(inst) = self.queue.pop_front() {
            self.do_instance(inst);
        }
        // bodies of generic functions, read with their own parameter environment
        for (d, inst) in generics {
            self.cur_env = TypingEnv::post_analysis(tcx, d);
            let body = tcx.optimized_mir(d).clone();
            self.body(inst, &body, true);
            // closures of the generic function
            while let Some(c) = self.queue.pop_front() {
                if c.def_id().is_local() && c.args.has_param() && tcx.is_closure_like(c.def_id()) {
                    let pd = tcx.typeck_root_def_id(c.def_id());
                    self.cur_env = TypingEnv::post_analysis(tcx, pd);
                    let b = tcx.optimized_mir(c.def_id()).clone();
                    self.body(c, &b, true);
                } else {
                    self.do_instance(c);
                }
            }
        }
        let unsafe_n = crate::dump::unsafe_blocks(tcx);
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("types", J::A(std::mem::take(&mut self.type_rows))),
            ("adts", J::A(std::mem::take(&mut self.adt_rows))),
            ("fns", J::A(std::mem::take(&mut self.fns))),
            ("sigs", J::A(sigs)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("local_adts", J::A(adt_defs)),
            ("unsafe_blocks", J::A(unsafe_n)),
        ])
    }

    fn is_iterator(&self, t: Ty<'tcx>) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return false };
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(self.cur_env);
        let t = tcx.erase_and_anonymize_regions(t);
        infcx.type_implements_trait(it, [t], penv).must_apply_modulo_regions()
    }
}

fn self_ty(tcx: TyCtxt<'_>, im: DefId) -> J {
    let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
    s(t.to_string())
}

fn kind_name(k: &InstanceKind<'_>) -> String {
    let t = format!("{:?}", k);
    t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

pub fn unsafe_blocks(tcx: TyCtxt<'_>) -> Vec<J> {
    use rustc_hir::intravisit::{self, Visitor};
    struct V<'tcx> {
        tcx: TyCtxt<'tcx>,
        out: Vec<J>,
    }
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) =
                b.rules
            {
                let exp = b.span.from_expansion();
                let l = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
                let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
                let ext = exp && {
                    let d = b.span.ctxt().outer_expn_data();
                    d.macro_def_id.map(|m| !m.is_local()).unwrap_or(false)
                };
                self.out.push(J::O(vec![
                    ("owner", s(self.tcx.def_path_str(owner.to_def_id()))),
                    ("line", i(l.line as i128)),
                    ("external_macro", J::B(ext)),
                ]));
            }
            intravisit::walk_block(self, b);
        }
    }
    let mut v = V { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    let _ = with_no_visible_paths!(0);
    v.out
}
