// mirdump: a rustc driver that writes, as JSON, the MIR the compiler itself builds for every
// function of the crate under verification (and for the library generics those functions call),
// with callees resolved.  It adds nothing and leaves nothing out: macros and derives are expanded,
// trait calls resolved, closures kept.  The deductive verifier (../mirv) reads this file.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    queue: VecDeque<(String, Body<'tcx>, Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    opaque: usize,
    inline: Vec<String>,
    noinline: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let tcx = self.tcx;
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(it) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Uint(it) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Pat(base, _) if let ty::Int(it) = base.kind() => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Pat(base, _) if let ty::Uint(it) = base.kind() => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64)),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e, env)),
            ty::Array(e, n) => {
                let len = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(*e, env), len)
            }
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(*e, env), m.is_mut()),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(*e, env), m.is_mut()),
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let args: Vec<String> = a.types().map(|x| self.ty(x, env).to_string()).collect();
                let r = self.resolve(*d, a, env);
                format!("\"k\":\"fndef\",\"path\":{},\"args\":{},{}", js(&self.path(*d)), arr(args), r)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, a) => {
                let up: Vec<String> =
                    a.as_closure().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let kind = format!("{:?}", a.as_closure().kind());
                let inst = Instance::new_raw(*d, a);
                let key = self.enqueue(inst, env);
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"kind\":{},\"body\":{}", js(&self.path(*d)), arr(up), js(&kind), js(&key))
            }
            ty::Adt(def, args) => {
                let targs: Vec<String> = args.types().map(|x| self.ty(x, env).to_string()).collect();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        format!("{}", def.discriminant_for_variant(tcx, vi))
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fty = tcx
                            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(fty))
                            .unwrap_or(fty);
                        fs.push(format!("[{},{}]", js(f.name.as_str()), self.ty(fty, env)));
                    }
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), js(&discr), arr(fs)));
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"args\":{},\"enum\":{},\"local\":{},\"variants\":{}",
                    js(&self.path(def.did())), arr(targs), def.is_enum(), def.did().is_local(), arr(vs)
                )
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_out[i] = format!("{{{},\"s\":{}}}", body, js(&s));
        i
    }

    fn key_of(&self, inst: Instance<'tcx>) -> String {
        with_no_trimmed_paths!(match inst.def {
            InstanceKind::Item(d) => {
                // the path carries no impl generics; add a disambiguator and the args
                format!("{}|{}|{:?}", self.tcx.def_path_str_with_args(d, inst.args), self.tcx.def_path(d).to_string_no_crate_verbose(), self.tcx.crate_name(d.krate))
            }
            _ => format!("{:?}|{:?}", inst.def, inst.args),
        })
    }

    fn want_inline(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let cr = self.tcx.crate_name(d.krate);
        let p = format!("{}::{}", cr, self.path(d));
        let dp = format!("{}{}", cr, self.tcx.def_path(d).to_string_no_crate_verbose());
        if self.noinline.iter().any(|x| dp.starts_with(x.as_str()) || p.contains(x.as_str())) {
            return false;
        }
        self.inline.iter().any(|x| dp.starts_with(x.as_str()) || p.starts_with(x.as_str()) || self.path(d).starts_with(x.as_str()))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let key = self.key_of(inst);
        if self.seen.contains(&key) {
            return key;
        }
        let tcx = self.tcx;
        let body = match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_constructor(d) || tcx.is_mir_available(d) {
                    tcx.instance_mir(inst.def)
                } else {
                    return String::new();
                }
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..)) => tcx.instance_mir(inst.def),
            _ => return String::new(),
        };
        self.seen.insert(key.clone());
        let eb = ty::EarlyBinder::bind(tcx, body.clone());
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, eb);
        self.queue.push_back((key.clone(), body, inst, env));
        key
    }

    /// JSON members describing what a call to (d, args) resolves to.
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let inst = Instance::new_raw(d, args);
            let key = self.enqueue(inst, env);
            return format!("\"kind\":\"item\",\"rpath\":{},\"body\":{}", js(&self.path(d)), js(&key));
        }
        let args = tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let shim = with_no_trimmed_paths!(if kind == "shim" { format!("{:?}", inst.def) } else { String::new() });
                let want = match inst.def {
                    InstanceKind::Item(d) => self.want_inline(d),
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..)) => true,
                    _ => false,
                };
                let body = if want { self.enqueue(inst, env) } else { String::new() };
                let rargs: Vec<String> = inst.args.types().map(|x| self.ty(x, env).to_string()).collect();
                let full = with_no_trimmed_paths!(match inst.def {
                    InstanceKind::Item(d) => tcx.def_path_str_with_args(d, inst.args),
                    _ => String::new(),
                });
                format!(
                    "\"kind\":{},\"rpath\":{},\"rfull\":{},\"rargs\":{},\"body\":{},\"shim\":{}",
                    js(kind), js(&self.path(rd)), js(&full), arr(rargs), js(&body), js(&shim)
                )
            }
            _ => "\"kind\":\"abstract\",\"rpath\":\"\",\"body\":\"\"".to_string(),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        // an opaque constant is a value of its own: two of them are not known to be equal
        self.opaque += 1;
        let no = self.opaque;
        let opaque = |t: Ty<'tcx>| with_no_trimmed_paths!(format!("{{\"k\":\"opaque\",\"s\":{}}}", js(&format!("{}#{}", t, no))));
        if depth > 8 {
            return opaque(t);
        }
        match t.kind() {
            ty::Pat(base, _) => return self.cval(v, *base, env, depth + 1),
            ty::FnDef(..) | ty::Closure(..) => {
                let i = self.ty(t, env);
                return format!("{{\"k\":\"zst\",\"t\":{}}}", i);
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    let val = if let ty::Int(_) = t.kind() { format!("{}", size.sign_extend(bits)) } else { format!("{}", bits) };
                    return format!("{{\"k\":\"int\",\"v\":{}}}", js(&val));
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        let bits = match t.kind() {
                            ty::Bool => 8,
                            ty::Char => 32,
                            ty::Int(i) => i.bit_width().unwrap_or(64),
                            ty::Uint(i) => i.bit_width().unwrap_or(64),
                            _ => 8,
                        };
                        let n = (bits / 8) as usize;
                        let o = offset.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        let val = if let ty::Int(_) = t.kind() {
                            let sh = 128 - bits as u32;
                            format!("{}", ((x << sh) as i128) >> sh)
                        } else {
                            format!("{}", x)
                        };
                        return format!("{{\"k\":\"int\",\"v\":{}}}", js(&val));
                    }
                }
                return opaque(t);
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                // wide pointer to str / slice
                if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                    let (alloc_id, start, len) = match v {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, 0usize, meta as usize),
                        ConstValue::Indirect { alloc_id, offset } => {
                            let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) else { return opaque(t) };
                            let o = offset.bytes() as usize;
                            let inner_a = a.inner();
                            let prov = inner_a.provenance().ptrs().iter().find(|(k, _)| k.bytes() as usize == o).map(|(_, p)| *p);
                            let raw = inner_a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                            let addr = u64::from_le_bytes(raw[..8].try_into().unwrap());
                            let len = u64::from_le_bytes(raw[8..].try_into().unwrap());
                            match prov {
                                Some(p) => (p.alloc_id(), addr as usize, len as usize),
                                None => {
                                    if len == 0 {
                                        return if matches!(inner.kind(), ty::Str) { "{\"k\":\"str\",\"v\":\"\"}".into() } else { "{\"k\":\"slice\",\"v\":[]}".into() };
                                    }
                                    return opaque(t);
                                }
                            }
                        }
                        _ => return opaque(t),
                    };
                    let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) else { return opaque(t) };
                    match inner.kind() {
                        ty::Str => {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(start..start + len);
                            return format!("{{\"k\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                        ty::Slice(e) => {
                            let Ok(l) = tcx.layout_of(env.as_query_input(*e)) else { return opaque(t) };
                            let sz = l.size.bytes() as usize;
                            let mut out = vec![];
                            for i in 0..len {
                                let cv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::from_bytes((start + i * sz) as u64) };
                                out.push(self.cval(cv, *e, env, depth + 1));
                            }
                            return format!("{{\"k\":\"slice\",\"v\":{}}}", arr(out));
                        }
                        _ => unreachable!(),
                    }
                }
                if matches!(inner.kind(), ty::Dynamic(..)) {
                    return opaque(t);
                }
                let (alloc_id, off) = match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) else { return opaque(t) };
                        let o = offset.bytes() as usize;
                        let inner_a = a.inner();
                        let prov = inner_a.provenance().ptrs().iter().find(|(k, _)| k.bytes() as usize == o).map(|(_, p)| *p);
                        let raw = inner_a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
                        let addr = u64::from_le_bytes(raw[..8].try_into().unwrap());
                        match prov {
                            Some(p) => (p.alloc_id(), rustc_abi::Size::from_bytes(addr)),
                            None => return opaque(t),
                        }
                    }
                    _ => return opaque(t),
                };
                match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Static(d)) => {
                        let i = self.ty(*inner, env);
                        return format!("{{\"k\":\"static\",\"path\":{},\"t\":{}}}", js(&self.path(d)), i);
                    }
                    Some(GlobalAlloc::Memory(_)) => {
                        let cv = ConstValue::Indirect { alloc_id, offset: off };
                        let x = self.cval(cv, *inner, env, depth + 1);
                        let i = self.ty(*inner, env);
                        return format!("{{\"k\":\"ref\",\"v\":{},\"t\":{}}}", x, i);
                    }
                    _ => return opaque(t),
                }
            }
            ty::Adt(def, _) if def.is_union() => return opaque(t),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.variants().is_empty() {
                        return opaque(t);
                    }
                    let p = self.path(def.did());
                    if p.contains("Atomic") || p.contains("UnsafeCell") || p.contains("tracing") {
                        return opaque(t);
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                    let fs: Vec<String> = fields.into_iter().map(|(v, t)| self.cval(v, t, env, depth + 1)).collect();
                    let vi = dc.variant.map(|x| x.as_usize() as i64).unwrap_or(0);
                    return format!("{{\"k\":\"agg\",\"variant\":{},\"fields\":{}}}", vi, arr(fs));
                }
                return opaque(t);
            }
            _ => {}
        }
        opaque(t)
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t, env);
        let tcx = self.tcx;
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let args: Vec<String> = a.types().map(|x| self.ty(x, env).to_string()).collect();
            let r = self.resolve(*d, a, env);
            return format!("{{\"k\":\"fn\",\"t\":{},\"path\":{},\"args\":{},{}}}", ti, js(&self.path(*d)), arr(args), r);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                // a promoted: dump its body, the verifier evaluates it
                let key = format!("promoted {:?} of {}", p, with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args)));
                if !self.seen.contains(&key) {
                    let pm = tcx.promoted_mir(u.def);
                    let b = pm[p].clone();
                    let inst = Instance::new_raw(u.def, u.args);
                    let b: Body<'tcx> = tcx.instantiate_and_normalize_erasing_regions(u.args, env, ty::EarlyBinder::bind(tcx, b));
                    self.seen.insert(key.clone());
                    self.queue.push_back((key.clone(), b, inst, env));
                }
                return format!("{{\"k\":\"promoted\",\"t\":{},\"fn\":{}}}", ti, js(&key));
            }
        }
        if rustc_middle::ty::TypeVisitableExt::has_param(c) {
            let s = with_no_trimmed_paths!(format!("{}", c));
            return format!("{{\"k\":\"opaque\",\"t\":{},\"s\":{}}}", ti, js(&s));
        }
        match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let x = self.cval(v, t, env, 0);
                format!("{{\"k\":\"val\",\"t\":{},\"v\":{}}}", ti, x)
            }
            Err(_) => {
                let s = with_no_trimmed_paths!(format!("{}", c));
                format!("{{\"k\":\"opaque\",\"t\":{},\"s\":{}}}", ti, js(&s))
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![];
        for e in p.projection.iter() {
            let nt = pt.projection_ty(self.tcx, e);
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t, env);
                    format!("[\"field\",{},{}]", f.as_usize(), ti)
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"downcast\",{}]", vi.as_usize()),
                _ => "[\"other\"]".to_string(),
            };
            v.push(s);
            pt = nt;
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p, body, env)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p, body, env)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.constant(&c.const_, env)),
            other => format!("{{\"o\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, body, env)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p, body, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, body, env), n)
            }
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(p, body, env)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"mut\":true,\"p\":{}}}", self.place(p, body, env)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t, env);
                let from = o.ty(body, self.tcx);
                let fi = self.ty(from, env);
                format!("{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"t\":{},\"from\":{}}}", js(&format!("{:?}", k)), self.operand(o, body, env), ti, fi)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                let ti = self.ty(t, env);
                format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"t\":{}}}", js(&format!("{:?}", op)), self.operand(&b.0, body, env), self.operand(&b.1, body, env), ti)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(body, self.tcx);
                let ti = self.ty(t, env);
                format!("{{\"r\":\"un\",\"op\":{},\"o\":{},\"t\":{}}}", js(&format!("{:?}", op)), self.operand(o, body, env), ti)
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p, body, env)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let t = r.ty(body, self.tcx);
                let ti = self.ty(t, env);
                let (kind, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, ..) => ("adt", vi.as_usize()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("{{\"r\":\"agg\",\"kind\":{},\"variant\":{},\"t\":{},\"ops\":{}}}", js(kind), vi, ti, arr(os))
            }
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"other\",\"s\":\"threadlocal\"}".into(),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, key: &str, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let mut vars = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                vars.push(format!("[{},{}]", js(v.name.as_str()), self.place(p, body, env)));
            }
        }
        let mut blocks = vec![];
        for (_bi, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !b.is_cleanup {
                for s in &b.statements {
                    let x = match &s.kind {
                        StatementKind::Assign(a) => {
                            let (p, r) = &**a;
                            format!("{{\"s\":\"=\",\"p\":{},\"v\":{}}}", self.place(p, body, env), self.rvalue(r, body, env))
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            format!("{{\"s\":\"setdiscr\",\"p\":{},\"v\":{}}}", self.place(place, body, env), variant_index.as_usize())
                        }
                        StatementKind::StorageDead(l) => format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize()),
                        StatementKind::Intrinsic(i) => format!("{{\"s\":\"intrinsic\",\"d\":{}}}", js(&format!("{:?}", i))),
                        _ => continue,
                    };
                    st.push(x);
                }
            }
            let t = b.terminator();
            let line = tcx.sess.source_map().lookup_char_pos(t.source_info.span.source_callsite().lo()).line;
            let tj = if b.is_cleanup {
                "{\"t\":\"cleanup\"}".to_string()
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let ty_ = discr.ty(body, tcx);
                        let ti = self.ty(ty_, env);
                        let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())).collect();
                        format!("{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"vals\":{},\"else\":{}}}", self.operand(discr, body, env), ti, arr(vs), targets.otherwise().as_usize())
                    }
                    TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                    TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                    TerminatorKind::Drop { place, target, .. } => format!("{{\"t\":\"drop\",\"p\":{},\"to\":{}}}", self.place(place, body, env), target.as_usize()),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(func, body, env);
                        let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                        let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(body, tcx); self.ty(t, env).to_string() }).collect();
                        let dt = destination.ty(body, tcx).ty;
                        let dti = self.ty(dt, env);
                        format!(
                            "{{\"t\":\"call\",\"f\":{},\"args\":{},\"argtys\":{},\"dest\":{},\"destty\":{},\"to\":{},\"line\":{}}}",
                            f, arr(a), arr(at), self.place(destination, body, env), dti,
                            target.map(|x| x.as_usize() as i64).unwrap_or(-1), line
                        )
                    }
                    TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                        let m = format!("{:?}", msg);
                        format!("{{\"t\":\"assert\",\"o\":{},\"expected\":{},\"to\":{},\"msg\":{},\"line\":{}}}", self.operand(cond, body, env), expected, target.as_usize(), js(&m), line)
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                    TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                    other => format!("{{\"t\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
                }
            };
            blocks.push(format!("{{\"st\":{},\"term\":{}}}", arr(st), tj));
        }
        let span = tcx.def_span(d);
        let loc = tcx.sess.source_map().lookup_char_pos(span.lo());
        let file = format!("{:?}", loc.file.name);
        let spread = body.spread_arg.map(|x| x.as_usize() as i64).unwrap_or(-1);
        format!(
            "{{\"key\":{},\"path\":{},\"crate\":{},\"argc\":{},\"spread\":{},\"file\":{},\"line\":{},\"locals\":{},\"vars\":{},\"blocks\":{}}}",
            js(key), js(&self.path(d)), js(tcx.crate_name(d.krate).as_str()), body.arg_count, spread, js(&file), loc.line, arr(locals), arr(vars), arr(blocks)
        )
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let list = |v: &str| -> Vec<String> {
            std::env::var(v).unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
        };
        let mut cx = Cx { tcx, types: HashMap::new(), type_out: vec![], queue: VecDeque::new(), seen: HashSet::new(), opaque: 0, inline: list("MIRDUMP_INLINE"), noinline: list("MIRDUMP_NOINLINE") };
        let mut impls = vec![];
        let mut roots: HashMap<LocalDefIdW, String> = HashMap::new();
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.hir_maybe_body_owned_by(*ld).is_none() {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
            let key = cx.enqueue(inst, env);
            roots.insert(LocalDefIdW(d), key.clone());
            let mut parent = String::new();
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(st)).unwrap_or(st);
                let si = cx.ty(st, env);
                let (tr, targs) = match tcx.impl_opt_trait_ref(im) {
                    Some(t) => {
                        let t = t.instantiate_identity().skip_norm_wip();
                        let ta: Vec<String> = t.args.types().skip(1).map(|x| cx.ty(x, env).to_string()).collect();
                        (cx.path(t.def_id), ta)
                    }
                    None => (String::new(), vec![]),
                };
                parent = format!(",\"self\":{},\"trait\":{},\"targs\":{}", si, js(&tr), arr(targs));
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                parent = format!(",\"in_trait\":{}", js(&cx.path(tr)));
            }
            let vis = tcx.visibility(d).is_public();
            impls.push(format!("{{\"name\":{},\"key\":{},\"path\":{},\"pub\":{}{}}}", js(tcx.item_name(d).as_str()), js(&key), js(&cx.path(d)), vis, parent));
        }
        let mut fns = vec![];
        while let Some((key, b, inst, env)) = cx.queue.pop_front() {
            let x = cx.body(&key, &b, inst, env);
            fns.push(x);
        }
        let out = format!("{{\"crate\":{},\"items\":{},\"fns\":{},\"types\":{}}}", js(&name), arr(impls), arr(fns), arr(cx.type_out.clone()));
        let test = tcx.sess.opts.test;
        let f = format!("{}/{}{}.json", dir, name, if test { "-test" } else { "" });
        std::fs::write(&f, out).expect("write dump");
        Compilation::Continue
    }
}
#[derive(PartialEq, Eq, Hash)]
struct LocalDefIdW(DefId);

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
