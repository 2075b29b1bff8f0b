use std::collections::VecDeque;
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: FxHashMap<Ty<'tcx>, usize>,
    type_list: Vec<Ty<'tcx>>,
    insts: FxHashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    vtables: FxHashSet<(Ty<'tcx>, Ty<'tcx>)>,
    vtable_out: Vec<String>,
    reified: FxHashSet<usize>,
    body: Option<&'tcx Body<'tcx>>,
    inst: Option<Instance<'tcx>>,
    files: FxHashMap<String, usize>,
    file_list: Vec<String>,
    statics: FxHashMap<DefId, String>,
    static_queue: VecDeque<DefId>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut d = D {
        tcx, types: Default::default(), type_list: vec![], insts: Default::default(), inst_list: vec![], queue: Default::default(),
        vtables: Default::default(), vtable_out: vec![], reified: Default::default(), body: None, inst: None,
        files: Default::default(), file_list: vec![], statics: Default::default(), static_queue: Default::default(),
    };
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut roots = vec![];
    for ld in tcx.hir_body_owners() {
        let id = ld.to_def_id();
        if !matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) { continue; }
        if tcx.generics_of(id).requires_monomorphization(tcx) { continue; }
        let args = ty::GenericArgs::for_item(tcx, id, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => unreachable!(),
        });
        let inst = Instance::new_raw(id, args);
        roots.push(d.inst_id(inst));
    }
    let mut bodies: Vec<String> = vec![];
    let mut consts: Vec<String> = vec![];
    for ld in tcx.hir_body_owners() {
        let id = ld.to_def_id();
        match tcx.def_kind(id) {
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(id).requires_monomorphization(tcx) { continue; }
                if let Ok(val) = tcx.const_eval_poly(id) {
                    let ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let ty = tcx.erase_and_anonymize_regions(ty);
                    if ty.has_param() { continue; }
                    let ty = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new(ty));
                    let v = d.const_val(val, ty, 0);
                    let t = d.ty(ty);
                    consts.push(format!("{{\"p\":{},\"t\":{},\"v\":{}}}", esc(&d.path(id)), t, v));
                }
            }
            DefKind::Static { .. } => { d.static_queue.push_back(id); }
            _ => {}
        }
    }
    // the HIR is not dumped; but const items of the crate and their values are
    while let Some(i) = d.queue.pop_front() {
        let inst = d.inst_list[i];
        if let Some(s) = d.dump_body(i, inst) { bodies.push(s); }
    }
    let mut k = 0;
    let mut type_out: Vec<String> = vec![];
    loop {
        while k < d.type_list.len() { let t = d.type_list[k]; let s = d.dump_type(t); type_out.push(s); k += 1; }
        if let Some(i) = d.queue.pop_front() {
            let inst = d.inst_list[i];
            if let Some(s) = d.dump_body(i, inst) { bodies.push(s); }
            continue;
        }
        if let Some(s) = d.static_queue.pop_front() {
            if d.statics.contains_key(&s) { continue; }
            let ty = tcx.type_of(s).instantiate_identity().skip_norm_wip();
            let ty = tcx.erase_and_anonymize_regions(ty);
            let ty = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new(ty));
            let t = d.ty(ty);
            let mutable = matches!(tcx.def_kind(s), DefKind::Static { mutability: ty::Mutability::Mut, .. });
            let v = if s.is_local() && !mutable {
                match tcx.eval_static_initializer(s) {
                    Ok(alloc) => { let id = tcx.reserve_and_set_memory_alloc(alloc); d.const_val(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, ty, 0) }
                    Err(_) => "null".into(),
                }
            } else { "null".into() };
            let txt = format!("{{\"p\":{},\"t\":{},\"m\":{},\"v\":{}}}", esc(&d.path(s)), t, mutable, v);
            d.statics.insert(s, txt);
            continue;
        }
        if k == d.type_list.len() && d.queue.is_empty() { break; }
    }
    let mut insts = vec![];
    for i in 0..d.inst_list.len() { let inst = d.inst_list[i]; insts.push(d.dump_inst(i, inst)); }
    while k < d.type_list.len() { let t = d.type_list[k]; let s = d.dump_type(t); type_out.push(s); k += 1; }
    let st: Vec<String> = d.statics.values().cloned().collect();
    let mut re: Vec<usize> = d.reified.iter().cloned().collect(); re.sort();
    write!(f, "{{\"crate\":{},\n\"types\":[{}],\n\"insts\":[{}],\n\"bodies\":[{}],\n\"vtables\":[{}],\n\"reified\":{:?},\n\"roots\":{:?},\n\"consts\":[{}],\n\"statics\":[{}],\n\"files\":[{}]}}\n",
        esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
        type_out.join(",\n"), insts.join(",\n"), bodies.join(",\n"), d.vtable_out.join(",\n"), re, roots, consts.join(",\n"), st.join(",\n"),
        d.file_list.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")).unwrap();
    f.flush().unwrap();
}

impl<'tcx> D<'tcx> {
    fn path(&self, id: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(id));
        if id.is_local() { format!("{}::{}", self.tcx.crate_name(id.krate), p) } else { p }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(format!("{}", t)) }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(t);
        i
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(k) = self.insts.get(&i) { return *k; }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.queue.push_back(k);
        k
    }

    fn has_mir(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(id) => {
                if self.tcx.is_foreign_item(id) { return false; }
                match self.tcx.def_kind(id) {
                    DefKind::Ctor(..) => true,
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => self.tcx.is_mir_available(id),
                    _ => false
                }
            }
            InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => false,
            InstanceKind::Shim(_) => true,
        }
    }

    fn dump_inst(&mut self, i: usize, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let id = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(_) => "shim",
        };
        let p = self.path(id);
        let krate = tcx.crate_name(id.krate).to_string();
        let substs: Vec<String> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
        let mut extra = String::new();
        let parent = if tcx.is_closure_like(id) { tcx.typeck_root_def_id(id) } else { id };
        if let Some(impl_id) = tcx.impl_of_assoc(parent) {
            let self_ty = self.tystr(tcx.type_of(impl_id).instantiate_identity().skip_norm_wip());
            let _ = write!(extra, ",\"self\":{}", esc(&self_ty));
            if let Some(tr) = tcx.impl_opt_trait_ref(impl_id) {
                let trp = self.path(tr.skip_binder().def_id);
                let _ = write!(extra, ",\"trait\":{}", esc(&trp));
            }
        } else if let Some(t) = tcx.trait_of_assoc(parent) {
            let trp = self.path(t);
            let _ = write!(extra, ",\"traitdef\":{}", esc(&trp));
        }
        let drop_ty = if let InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) = inst.def { self.ty(t) as isize } else { -1 };
        if drop_ty >= 0 { let _ = write!(extra, ",\"dropty\":{}", drop_ty); }
        let name = tcx.opt_item_name(id).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        let span = self.span(tcx.def_span(id));
        format!("{{\"i\":{},\"p\":{},\"n\":{},\"c\":{},\"k\":\"{}\",\"s\":[{}],\"sp\":{}{}}}", i, esc(&p), esc(&name), esc(&krate), kind, substs.join(","), span, extra)
    }

    fn span(&mut self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() { return "null".into(); }
        let loc = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        let n = self.file_list.len();
        let fid = *self.files.entry(name.clone()).or_insert(n);
        if fid == n { self.file_list.push(name); }
        format!("[{},{}]", fid, loc.line)
    }

    fn dump_type(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let s = esc(&self.tystr(t));
        let k = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":\"{}\"", i.name_str()),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":\"{}\"", i.name_str()),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            ty::Array(e, n) => format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(*e), n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1)),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), m.is_mut()),
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), m.is_mut()),
            ty::Tuple(ts) => format!("\"k\":\"tuple\",\"f\":[{}]", ts.iter().map(|x| self.ty(x).to_string()).collect::<Vec<_>>().join(",")),
            ty::FnDef(d, args) => {
                let inst = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *d, args.no_bound_vars().unwrap()).ok().flatten();
                let id = inst.map(|i| self.inst_id(i) as isize).unwrap_or(-1);
                format!("\"k\":\"fndef\",\"d\":{},\"i\":{}", esc(&self.path(*d)), id)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(preds, _) => format!("\"k\":\"dyn\",\"d\":{}", preds.principal_def_id().map(|d| esc(&self.path(d))).unwrap_or("null".into())),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"d\":{},\"f\":[{}]", esc(&self.path(*d)), ups.join(","))
            }
            ty::Adt(def, args) => {
                let gargs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|x| self.ty(x).to_string()).collect();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { let d = def.discriminant_for_variant(tcx, vi); d.val } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let raw = f.ty(tcx, args);
                        let fty = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), raw).unwrap_or_else(|_| tcx.types.unit);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(fty)));
                    }
                    vs.push(format!("[{},\"{}\",[{}]]", esc(v.name.as_str()), discr, fs.join(",")));
                }
                let mut lay = String::new();
                let kn = tcx.crate_name(def.did().krate).to_string();
                if kn.starts_with("cordy") {
                    if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                        let offs: Vec<String> = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                        lay = format!(",\"sz\":{},\"al\":{},\"off\":[{}],\"reprc\":{}", l.size.bytes(), l.align.abi.bytes(), offs.join(","), def.repr().c());
                    }
                }
                let ds = tcx.def_span(def.did());
                format!("\"k\":\"adt\",\"d\":{},\"a\":[{}],\"ak\":\"{}\",\"dty\":{},\"v\":[{}],\"sp\":{}{}", esc(&self.path(def.did())), gargs.join(","),
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
                    if def.is_enum() { self.ty(t.discriminant_ty(tcx)) as isize } else { -1 },
                    vs.join(","), self.span(ds), lay)
            }
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"s\":{},{}}}", s, k)
    }

    fn mono<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, v: T) -> T {
        let inst = self.inst.unwrap();
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, TypingEnv::fully_monomorphized(), ty::EarlyBinder::bind(self.tcx, v))
    }

    fn dump_body(&mut self, idx: usize, inst: Instance<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if !self.has_mir(inst) { return None; }
        let body: &'tcx Body<'tcx> = tcx.instance_mir(inst.def);
        let id = inst.def_id();
        let krate = tcx.crate_name(id.krate).to_string();
        self.body = Some(body);
        self.inst = Some(inst);
        let _ = &krate;
        let s = self.body_str(body, &format!("\"i\":{}", idx));
        Some(s)
    }

    fn body_str(&mut self, body: &'tcx Body<'tcx>, head: &str) -> String {
        let mut locals = vec![];
        for l in body.local_decls.iter() { let t = self.mono(l.ty); locals.push(self.ty(t).to_string()); }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value { names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p))); }
        }
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let sp = self.line(s.source_info.span);
                        let pl = self.place(*p);
                        let rv = self.rvalue(r);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(**place), variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"x\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(b) => if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**b {
                        st.push(format!("[\"cpy\",{},{}]", self.operand(&c.src), self.operand(&c.dst)));
                    },
                    _ => {}
                }
            }
            let t = self.term(bb.terminator());
            bbs.push(format!("{{\"s\":[{}],\"t\":{}{}}}", st.join(","), t, if bb.is_cleanup { ",\"c\":1" } else { "" }));
        }
        let sp = self.span(body.span);
        format!("{{{},\"ac\":{},\"sp\":{},\"l\":[{}],\"n\":[{}],\"b\":[{}]}}", head, body.arg_count, sp, locals.join(","), names.join(","), bbs.join(",\n"))
    }

    fn line(&mut self, sp: Span) -> String {
        let sp = sp.source_callsite();
        if sp.is_dummy() { return "0".into(); }
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", loc.line)
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => { let _ = write!(o, ",{}", f.as_u32()); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, ",[\"d\",{}]", v.as_u32()); }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_u32()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, ",[\"c\",{},{}]", offset, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"sub\",{},{},{}]", from, to, from_end); }
                _ => o.push_str(",[\"o\"]"),
            }
        }
        o.push(']');
        o
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => { let s = self.konst(&c.const_); format!("[\"k\",{}]", s) }
            _ => "[\"k\",{\"rt\":1}]".into(),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let c = self.mono(*c);
        let ty = c.ty();
        let t = self.ty(ty);
        if let ty::FnDef(..) = ty.kind() { return format!("{{\"t\":{}}}", t); }
        let mut from = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() { from = format!(",\"from\":{}", esc(&self.path(u.def))); }
        }
        match c.eval(self.tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
            Ok(v) => { let s = self.const_val(v, ty, 0); format!("{{\"t\":{},\"v\":{}{}}}", t, s, from) }
            Err(_) => format!("{{\"t\":{}{}}}", t, from),
        }
    }

    /// int: number or "string" for > i53; str: {"s":..}; adt: {"vr":idx,"f":[..]}; ref: {"r":val,"t"}; fn: {"fn":inst}
    fn const_val(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 8 { return "null".into(); }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = self.scalar(v, ty).and_then(|s| s.try_to_scalar_int().ok());
                match sc {
                    Some(s) => {
                        let bits = s.to_bits_unchecked();
                        if let ty::Int(_) = ty.kind() { let x = s.to_int(s.size()); format!("{}", x) } else { format!("{}", bits) }
                    }
                    None => "null".into()
                }
            }
            ty::FnDef(..) => { let t = self.ty(ty); format!("{{\"fd\":{}}}", t) }
            ty::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = self.scalar(v, ty) {
                    if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                        let i = self.inst_id(instance); self.reified.insert(i);
                        return format!("{{\"fn\":{}}}", i);
                    }
                }
                "null".into()
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b))); }
                        if let Some((a, off, len)) = self.fat(v) {
                            if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(a) {
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                                return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b)));
                            }
                        }
                        "null".into()
                    }
                    ty::Slice(e) => {
                        let r = match v { ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)), _ => self.fat(v) };
                        if let Some((a, off, len)) = r {
                            if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*e)) {
                                let mut el = vec![];
                                for i in 0..len.min(600) {
                                    el.push(self.const_val(ConstValue::Indirect { alloc_id: a, offset: rustc_abi::Size::from_bytes(off + i * l.size.bytes()) }, *e, depth + 1));
                                }
                                return format!("{{\"r\":{{\"f\":[{}]}}}}", el.join(","));
                            }
                        }
                        "null".into()
                    }
                    ty::Dynamic(..) => "null".into(),
                    _ => {
                        if let Some(Scalar::Ptr(p, _)) = self.scalar(v, ty) {
                            let (prov, off) = p.into_raw_parts();
                            let a = prov.alloc_id();
                            match tcx.try_get_global_alloc(a) {
                                Some(GlobalAlloc::Memory(_)) => {
                                    let s = self.const_val(ConstValue::Indirect { alloc_id: a, offset: off }, *inner, depth + 1);
                                    return format!("{{\"r\":{}}}", s);
                                }
                                Some(GlobalAlloc::Static(d)) => { self.static_queue.push_back(d); return format!("{{\"static\":{}}}", esc(&self.path(d))); }
                                Some(GlobalAlloc::Function { instance }) => { let i = self.inst_id(instance); self.reified.insert(i); return format!("{{\"fn\":{}}}", i); }
                                _ => {}
                            }
                        }
                        "null".into()
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let (ty::Array(e, n), ConstValue::Indirect { alloc_id, offset }) = (ty.kind(), v) {
                    if let (Some(n), Ok(l)) = (n.try_to_target_usize(tcx), tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*e))) {
                        let mut el = vec![];
                        for i in 0..n.min(600) {
                            el.push(self.const_val(ConstValue::Indirect { alloc_id, offset: offset + rustc_abi::Size::from_bytes(i * l.size.bytes()) }, *e, depth + 1));
                        }
                        return format!("{{\"f\":[{}]}}", el.join(","));
                    }
                }
                if let ty::Adt(d, _) = ty.kind() { if d.is_union() || d.variants().is_empty() { return "null".into(); } }
                match tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    Some(dc) => {
                        let fs: Vec<String> = dc.fields.iter().take(600).map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                        match dc.variant { Some(vi) => format!("{{\"vr\":{},\"f\":[{}]}}", vi.as_u32(), fs.join(",")), None => format!("{{\"f\":[{}]}}", fs.join(",")) }
                    }
                    None => "null".into(),
                }
            }
            _ => "null".into()
        }
    }

    /// the scalar of a constant, wherever it lives
    fn scalar(&self, v: ConstValue, ty: Ty<'tcx>) -> Option<Scalar> {
        match v {
            ConstValue::Scalar(s) => Some(s),
            ConstValue::Indirect { alloc_id, offset } => {
                let l = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(ty)).ok()?;
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let rng = rustc_middle::mir::interpret::alloc_range(offset, l.size);
                    return m.inner().read_scalar(&self.tcx, rng, matches!(ty.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..))).ok();
                }
                None
            }
            _ => None
        }
    }

    /// decode a fat pointer held in memory
    fn fat(&self, v: ConstValue) -> Option<(rustc_middle::mir::interpret::AllocId, u64, u64)> {
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                let a = m.inner();
                let rng = rustc_middle::mir::interpret::alloc_range(offset, rustc_abi::Size::from_bytes(8));
                let ptr = a.read_scalar(&self.tcx, rng, true).ok()?;
                let rng2 = rustc_middle::mir::interpret::alloc_range(offset + rustc_abi::Size::from_bytes(8), rustc_abi::Size::from_bytes(8));
                let len = a.read_scalar(&self.tcx, rng2, false).ok()?;
                if let Scalar::Ptr(p, _) = ptr {
                    let (prov, off) = p.into_raw_parts();
                    let len = len.try_to_scalar_int().ok()?.to_bits_unchecked() as u64;
                    return Some((prov.alloc_id(), off.bytes(), len));
                }
            }
        }
        None
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }) as u8, self.place(*p)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let src = { let t0 = o.ty(&self.body.unwrap().local_decls, self.tcx); self.mono(t0) };
                let tgt = self.mono(*t);
                let mut extra = String::new();
                let kn = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize, _) => { self.unsize(src, tgt); "unsize".to_string() }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => {
                        if let ty::FnDef(d, args) = src.kind() {
                            if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, TypingEnv::fully_monomorphized(), *d, args.no_bound_vars().unwrap()) {
                                let id = self.inst_id(i); self.reified.insert(id); extra = format!(",{}", id);
                            }
                        }
                        "reify".into()
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => {
                        if let ty::Closure(d, args) = src.kind() {
                            let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                            let id = self.inst_id(i); self.reified.insert(id); extra = format!(",{}", id);
                        }
                        "reify".into()
                    }
                    k => format!("{:?}", k).split('(').next().unwrap().to_string(),
                };
                let op = self.operand(o);
                format!("[\"cast\",{},{},{}{}]", esc(&kn), op, self.ty(tgt), extra)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(&ops.0), self.operand(&ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{}\",{}]", format!("{:?}", u), self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let args = self.mono(*args);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.as_u32(), f.map(|x| x.as_u32() as i32).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.mono(*args);
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", head, o.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn unsize(&mut self, src: Ty<'tcx>, tgt: Ty<'tcx>) {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let pair = match (src.kind(), tgt.kind()) {
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => Some(tcx.struct_lockstep_tails_for_codegen(*a, *b, env)),
            _ => match (src.boxed_ty(), tgt.boxed_ty()) {
                (Some(a), Some(b)) => Some(tcx.struct_lockstep_tails_for_codegen(a, b, env)),
                _ => if let (ty::Adt(d1, a1), ty::Adt(_, a2)) = (src.kind(), tgt.kind()) {
                    for f in d1.all_fields() {
                        let x = tcx.normalize_erasing_regions(env, f.ty(tcx, a1));
                        let y = tcx.normalize_erasing_regions(env, f.ty(tcx, a2));
                        if x != y { return self.unsize(x, y); }
                    }
                    None
                } else { None }
            }
        };
        if let Some((s, t)) = pair {
            if !t.is_trait() || !self.vtables.insert((s, t)) { return; }
            if let ty::Dynamic(preds, _) = t.kind() {
                if let Some(pr) = preds.principal() {
                    let pr = tcx.instantiate_bound_regions_with_erased(pr);
                    let tr = pr.with_self_ty(tcx, s);
                    let entries = tcx.vtable_entries(tr);
                    let mut ids = vec![];
                    for e in entries.iter() {
                        if let ty::VtblEntry::Method(m) = e { ids.push(self.inst_id(*m) as isize); } else { ids.push(-1); }
                    }
                    let st = self.ty(s);
                    let dp = self.path(tr.def_id);
                    let drop = Instance::resolve_drop_glue(tcx, s);
                    let dg = self.inst_id(drop);
                    self.vtable_out.push(format!("{{\"trait\":{},\"t\":{},\"m\":{:?},\"drop\":{}}}", esc(&dp), st, ids, dg));
                }
            }
        }
    }

    fn unw(&self, u: &UnwindAction) -> String {
        match u { UnwindAction::Cleanup(b) => b.as_u32().to_string(), _ => "-1".into() }
    }

    fn term(&mut self, t: &Terminator<'tcx>) -> String {
        let tcx = self.tcx;
        let sp = self.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                let op = self.operand(discr);
                format!("[\"switch\",{},[{}],{},{}]", op, v.join(","), targets.otherwise().as_u32(), sp)
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = { let x = place.ty(&self.body.unwrap().local_decls, tcx).ty; self.mono(x) };
                let inst = Instance::resolve_drop_glue(tcx, pt);
                let id = if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def { -1 } else { self.inst_id(inst) as isize };
                format!("[\"drop\",{},{},{},{},{}]", self.place(*place), target.as_u32(), self.unw(unwind), id, sp)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let ft = { let x = func.ty(&self.body.unwrap().local_decls, tcx); self.mono(x) };
                let callee = self.callee(ft, func);
                let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                format!("[\"call\",{},[{}],{},{},{},{}]", callee, a.join(","), self.place(*destination), target.map(|b| b.as_u32() as i64).unwrap_or(-1), self.unw(unwind), sp)
            }
            TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
            TerminatorKind::Assert { cond, expected, target, msg, unwind } => {
                let m = format!("{:?}", msg);
                let m = m.split(|c: char| !c.is_alphanumeric() && c != ' ').next().unwrap_or("").to_string();
                let op = self.operand(cond);
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                    AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "divzero", _ => m.as_str() };
                format!("[\"assert\",{},{},{},{},{},{}]", op, expected, target.as_u32(), esc(kind), self.unw(unwind), sp)
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn callee(&mut self, ft: Ty<'tcx>, func: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        match ft.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                match Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *d, args) {
                    Ok(Some(i)) => {
                        let id = self.inst_id(i);
                        match i.def {
                            InstanceKind::Virtual(_, n) => {
                                let tr = tcx.trait_of_assoc(*d).map(|t| self.path(t)).unwrap_or_default();
                                format!("{{\"i\":{},\"virt\":{},\"n\":{}}}", id, esc(&tr), n)
                            }
                            _ => format!("{{\"i\":{}}}", id),
                        }
                    }
                    _ => format!("{{\"u\":{}}}", esc(&self.path(*d))),
                }
            }
            _ => { let o = self.operand(func); format!("{{\"ptr\":{},\"t\":{}}}", o, self.ty(ft)) }
        }
    }
}
