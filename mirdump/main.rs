// mirdump: a rustc driver (rustc_public) that compiles one crate and writes, as JSON, the
// monomorphic MIR of every function of the crate and of everything those functions call
// (library bodies included, up to the stop list), plus the type, allocation and vtable tables
// a verification-condition generator needs.  It changes nothing in the program it reads.
//
// usage: MIRDUMP_OUT=<file> mirdump <rustc arguments>
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::Body;
use rustc_public::ty::*;
use rustc_public::rustc_internal;
use rustc_public::CompilerError;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

fn id<T: serde::Serialize>(t: &T) -> u64 {
    match serde_json::to_value(t).unwrap() {
        Value::Number(n) => n.as_u64().unwrap(),
        v => panic!("not an index: {v}"),
    }
}

// serde_json's Value holds no integer above 64 bits: those become strings of digits.
fn wide<T: serde::Serialize>(t: &T) -> Value {
    let s = serde_json::to_string(t).unwrap();
    let mut out = String::with_capacity(s.len());
    let (mut quoted, mut escaped, mut digits) = (false, false, String::new());
    for c in s.chars().chain(std::iter::once(' ')) {
        if !quoted && c.is_ascii_digit() {
            digits.push(c);
            continue;
        }
        if digits.parse::<u64>().is_ok() || digits.is_empty() {
            out.push_str(&digits);
        } else {
            out.push_str(&format!("\"{digits}\""));
        }
        digits.clear();
        if quoted && !escaped && c == '\\' {
            escaped = true;
        } else {
            if c == '"' && !escaped {
                quoted = !quoted;
            }
            escaped = false;
        }
        out.push(c);
    }
    serde_json::from_str(&out).unwrap()
}

// Library functions whose bodies are never needed: formatting, panicking, allocation, IO.
fn stop(name: &str) -> bool {
    const P: &[&str] = &[
        "core::fmt", "std::fmt", "alloc::fmt", "std::io", "core::panicking", "std::panicking",
        "alloc::alloc", "std::alloc", "core::alloc", "std::thread", "core::str", "std::process", "std::env", "std::sys",
        "alloc::vec", "alloc::raw_vec", "alloc::string", "std::time", "core::slice::sort",
        "core::unicode", "core::num::flt2dec", "core::num::dec2flt", "core::num::imp::flt2dec",
        "core::num::imp::dec2flt", "std::sync", "alloc::sync", "std::collections",
        "alloc::collections", "core::result::unwrap_failed", "core::option::unwrap_failed",
        "core::option::expect_failed",
    ];
    let n = name.trim_start_matches('<');
    P.iter().any(|p| n.starts_with(p))
}

// Owning pointers: the generator uses axioms for them; the bodies are only for checking the axioms.
fn owner(name: &str) -> bool {
    const P: &[&str] = &["alloc::rc", "std::rc", "alloc::boxed", "std::boxed"];
    let n = name.trim_start_matches('<');
    P.iter().any(|p| n.starts_with(p))
}

#[derive(Default)]
struct Collect {
    tys: Vec<Ty>,
    seen: HashSet<Ty>,
    allocs: Vec<AllocId>,
    seen_allocs: HashSet<AllocId>,
}
impl Collect {
    fn ty(&mut self, t: Ty) {
        if self.seen.insert(t) {
            self.tys.push(t);
        }
    }
    fn alloc(&mut self, a: &Allocation) {
        for (_, p) in &a.provenance.ptrs {
            if self.seen_allocs.insert(p.0) {
                self.allocs.push(p.0);
            }
        }
    }
}
impl MirVisitor for Collect {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        if let ConstantKind::Allocated(a) = c.kind() {
            self.alloc(a);
        }
        self.ty(c.ty());
        self.super_mir_const(c, l);
    }
}

struct Dump {
    col: Collect,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
}

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        let n = self.insts.len();
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        self.insts.insert(i, n);
        self.queue.push_back(i);
        n
    }

    fn args_json(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for k in &a.0 {
            match k {
                GenericArgKind::Type(t) => {
                    self.col.ty(*t);
                    v.push(json!({"ty": id(t)}));
                }
                GenericArgKind::Const(c) => {
                    v.push(json!({"const": c.eval_target_usize().ok()}));
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }

    fn ty_json(&mut self, t: Ty) -> Value {
        let k = t.kind();
        let Some(r) = k.rigid().cloned() else {
            return json!({"k": "other", "s": format!("{k:?}")});
        };
        let size = t.layout().ok().map(|l| l.shape().size.bytes());
        let mut v = match r {
            RigidTy::Bool => json!({"k": "bool"}),
            RigidTy::Char => json!({"k": "char"}),
            RigidTy::Int(i) => json!({"k": "int", "signed": true, "bytes": i.num_bytes()}),
            RigidTy::Uint(i) => json!({"k": "int", "signed": false, "bytes": i.num_bytes()}),
            RigidTy::Float(_) => json!({"k": "float"}),
            RigidTy::Str => json!({"k": "str"}),
            RigidTy::Never => json!({"k": "never"}),
            RigidTy::Adt(def, args) => {
                let a = self.args_json(&args);
                let mut vs = vec![];
                for var in def.variants_iter() {
                    let fields: Vec<Value> = var
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(&args);
                            self.col.ty(ft);
                            json!({"name": f.name.clone(), "ty": id(&ft)})
                        })
                        .collect();
                    let d = if def.kind().is_enum() {
                        Some(def.discriminant_for_variant(var.idx()).val.to_string())
                    } else {
                        None
                    };
                    vs.push(json!({"name": var.name(), "fields": fields, "discr": d}));
                }
                let drop = (def.name() == "std::rc::Rc").then(|| self.inst(Instance::resolve_drop_in_place(t)));
                json!({"k": "adt", "name": def.name(), "kind": format!("{:?}", def.kind()),
                       "args": a, "variants": vs, "is_box": def.is_box(), "drop": drop})
            }
            RigidTy::Array(e, n) => {
                self.col.ty(e);
                json!({"k": "array", "elem": id(&e), "len": n.eval_target_usize().ok()})
            }
            RigidTy::Slice(e) => {
                self.col.ty(e);
                json!({"k": "slice", "elem": id(&e)})
            }
            RigidTy::RawPtr(e, _) => {
                self.col.ty(e);
                json!({"k": "ptr", "elem": id(&e)})
            }
            RigidTy::Ref(_, e, m) => {
                self.col.ty(e);
                json!({"k": "ref", "elem": id(&e), "mut": format!("{m:?}") == "Mut"})
            }
            RigidTy::Pat(e, _) => {
                self.col.ty(e);
                json!({"k": "pat", "elem": id(&e)})
            }
            RigidTy::Tuple(ts) => {
                for e in &ts {
                    self.col.ty(*e);
                }
                json!({"k": "tuple", "elems": ts.iter().map(id).collect::<Vec<_>>()})
            }
            RigidTy::FnDef(def, args) => {
                let a = self.args_json(&args);
                let i = Instance::resolve(def, &args).ok().map(|i| self.inst(i));
                json!({"k": "fndef", "name": def.name(), "args": a, "inst": i})
            }
            RigidTy::Closure(def, args) => {
                let i = Instance::resolve_closure(def, &args, ClosureKind::FnOnce)
                    .ok()
                    .map(|i| self.inst(i));
                let mut ups = vec![];
                // the last generic argument of a closure is the tuple of its captures
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let Some(RigidTy::Tuple(ts)) = t.kind().rigid() {
                        for e in ts {
                            self.col.ty(*e);
                            ups.push(id(e));
                        }
                    }
                }
                json!({"k": "closure", "name": def.name(), "inst": i, "upvars": ups})
            }
            RigidTy::FnPtr(_) => json!({"k": "fnptr"}),
            RigidTy::Dynamic(preds, _) => {
                let mut names = vec![];
                for p in preds {
                    if let ExistentialPredicate::Trait(t) = p.value {
                        names.push(t.def_id.name());
                    }
                }
                json!({"k": "dyn", "traits": names})
            }
            o => json!({"k": "other", "s": format!("{o:?}")}),
        };
        if v["k"] == "adt" || v["k"] == "tuple" {
            v["layout"] = match t.layout() {
                Ok(l) => wide(&l.shape()),
                Err(_) => Value::Null,
            };
        }
        v["size"] = json!(size);
        v["s"] = json!(format!("{}", t));
        v
    }

    fn body_json(&mut self, body: &Body) -> Value {
        self.col.visit_body(body);
        let mut v = wide(body);
        // replace span ids by file:line
        let mut spans = Map::new();
        let mut add = |s: &Span| {
            let k = id(s).to_string();
            if !spans.contains_key(&k) {
                let l = s.get_lines();
                spans.insert(k, json!(format!("{}:{}", s.get_filename(), l.start_line)));
            }
        };
        for b in &body.blocks {
            add(&b.terminator.source_info.span);
            for s in &b.statements {
                add(&s.source_info.span);
            }
        }
        add(&body.span);
        v["spans"] = Value::Object(spans);
        v
    }
}

fn callback(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut d = Dump {
        col: Collect::default(),
        insts: HashMap::new(),
        queue: VecDeque::new(),
    };
    let mut roots = vec![];
    let mut public = vec![];
    let vis = tcx.effective_visibilities(());
    for item in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(item) {
            if matches!(item.kind(), rustc_public::ItemKind::Fn) {
                let n = d.inst(i);
                roots.push(n);
                let did = rustc_internal::internal(tcx, item.def_id());
                if did.as_local().map_or(false, |l| vis.is_reachable(l)) {
                    public.push(n);
                }
            }
        }
    }
    // trait impls of the local crate, for the closed-world list of implementors
    let mut impls = vec![];
    for im in rustc_public::all_trait_impls() {
        let tr = im.trait_impl().value;
        if im.krate().is_local {
            let st = tr.self_ty();
            impls.push(json!({"trait": tr.def_id.name(), "self": format!("{}", st)}));
        }
    }
    let mut funcs: Map<String, Value> = Map::new();
    let mut types: Map<String, Value> = Map::new();
    let mut allocs: Map<String, Value> = Map::new();
    let (mut ti, mut ai) = (0, 0);
    loop {
        let mut progress = false;
        while let Some(i) = d.queue.pop_front() {
            progress = true;
            let n = d.insts[&i];
            let name = i.name();
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let dname = i.def.name();
            let local = i.def.krate().is_local;
            let args = i.args();
            let a = d.args_json(&args);
            let stopped = !local && (stop(&name) || stop(&dname));
            let body = if stopped || kind == "virtual" || kind == "intrinsic" {
                None
            } else {
                i.body()
            };
            let b = body.as_ref().map(|b| d.body_json(b));
            let owned = !local && (owner(&name) || owner(&dname) || name.starts_with("std::ptr::drop_in_place::<std::rc::Rc<") || name.starts_with("std::ptr::drop_glue::<std::rc::Rc<"));
            let (b, lb) = if owned { (None, b) } else { (b, None) };
            funcs.insert(
                n.to_string(),
                json!({"name": name, "def": dname, "kind": kind, "local": local,
                       "intrinsic": i.intrinsic_name(), "args": a, "body": b, "lib_body": lb,
                       "track_caller": i.requires_caller_location()}),
            );
        }
        while ti < d.col.tys.len() {
            progress = true;
            let t = d.col.tys[ti];
            ti += 1;
            let v = d.ty_json(t);
            types.insert(id(&t).to_string(), v);
        }
        while ai < d.col.allocs.len() {
            progress = true;
            let a = d.col.allocs[ai];
            ai += 1;
            let v = match GlobalAlloc::from(a) {
                GlobalAlloc::Memory(m) => {
                    d.col.alloc(&m);
                    json!({"k": "mem", "alloc": m})
                }
                GlobalAlloc::Function(i) => json!({"k": "fn", "inst": d.inst(i)}),
                GlobalAlloc::Static(s) => {
                    let did = rustc_internal::internal(tcx, s.def_id());
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                    json!({"k": "static", "name": s.name(), "mut": tcx.is_mutable_static(did),
                           "thread_local": tcx.is_thread_local_static(did), "freeze": freeze})
                }
                GlobalAlloc::VTable(..) => json!({"k": "vtable"}),
                _ => json!({"k": "other"}),
            };
            allocs.insert(id(&a).to_string(), v);
        }
        if !progress {
            break;
        }
    }
    let v = json!({"roots": roots, "funcs": funcs, "types": types, "allocs": allocs,
                   "impls": impls, "public": public});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r: Result<(), CompilerError<()>> = run_with_tcx!(&args, callback);
    match r {
        Ok(()) => {}
        Err(CompilerError::Skipped) => {}
        Err(e) => {
            eprintln!("mirdump: {e:?}");
            std::process::exit(3);
        }
    }
}
