// rustc driver that writes the monomorphic MIR of the crate's functions, with types and constants, as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER; the output goes to $MIRDUMP_OUT when the crate is $MIRDUMP_CRATE (lib).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde;
extern crate serde_json;

use rustc_public::{CrateDef, CrateDefType};
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use serde_json::{Map, Value, json};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    types: Map<String, Value>,
    consts: Map<String, Value>,
    fns: Map<String, Value>,
    statics: Map<String, Value>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    statics_queue: VecDeque<StaticDef>,
    statics_seen: HashSet<String>,
    allocs: HashMap<usize, Value>,
    depth: usize,
    models: HashSet<String>,
    deep: bool,
}

// The name the runtime knows a function by: "Iterator::map", "str::len", "Vec::push".
fn short(def: &str) -> String {
    let mut out = String::new();
    let mut d = 0;
    let b: Vec<char> = def.chars().collect();
    // outermost <X as T>::m -> T::m ; other <...> dropped, except <impl X>
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '<' {
            let mut j = i;
            d = 0;
            loop {
                if b[j] == '<' { d += 1; }
                if b[j] == '>' && b[j - 1] != '-' { d -= 1; if d == 0 { break; } }
                j += 1;
            }
            let inner: String = b[i + 1..j].iter().collect();
            let inner = inner.strip_prefix("impl ").unwrap_or(&inner).to_string();
            if out.is_empty() || b[i + 1..j].starts_with(&['i', 'm', 'p', 'l', ' ']) {
                // split at the top-level " as " or " for "
                let cs: Vec<char> = inner.chars().collect();
                let mut dep = 0;
                let mut cut: Option<(usize, bool)> = None;
                for k in 0..cs.len() {
                    if "<([".contains(cs[k]) { dep += 1; }
                    if ")]".contains(cs[k]) || cs[k] == '>' && (k == 0 || cs[k - 1] != '-') { dep -= 1; }
                    let rest: String = cs[k..].iter().take(5).collect();
                    if dep == 0 && rest.starts_with(" as ") { cut = Some((k, true)); break; }
                    if dep == 0 && rest.starts_with(" for ") { cut = Some((k, false)); break; }
                }
                out = match cut {
                    Some((k, true)) => short(&cs[k + 4..].iter().collect::<String>()),
                    Some((k, false)) => short(&cs[..k].iter().collect::<String>()),
                    None => short(&inner),
                };
            }
            i = j + 1;
            continue;
        }
        out.push(c);
        i += 1;
    }
    let _ = d;
    let out = out.replace("::::", "::");
    let out = out.trim_end_matches("::");
    if out.starts_with('[') { return "slice".into(); }
    // keep the last two parts
    let parts: Vec<&str> = out.split("::").filter(|p| !p.is_empty()).collect();
    let n = parts.len();
    let r = if n >= 2 { format!("{}::{}", parts[n - 2], parts[n - 1]) } else { out.to_string() };
    if r.starts_with('[') { if let Some((_, m)) = r.split_once("]::") { return format!("slice::{m}"); } }
    r
}

struct Vis<'a> {
    d: &'a mut Dump,
}

impl MirVisitor for Vis<'_> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.d.ty(*ty);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, _l: Location) {
        self.d.constant(&c.const_);
    }
}

fn uint(b: &[Option<u8>]) -> Option<u128> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        v |= ((*x)? as u128) << (8 * i);
    }
    Some(v)
}

impl Dump {
    fn instance(&mut self, i: Instance) -> Value {
        let key = i.mangled_name().to_string();
        let local = i.def.krate().is_local;
        let wanted = local || (self.deep && matches!(i.kind, InstanceKind::Item) && i.has_body() && !self.models.contains(&short(&i.def.name())) && self.seen.len() < 4000);
        if wanted && self.seen.insert(key.clone()) {
            self.queue.push_back(i);
        }
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let args: Vec<Value> = i.args().0.iter().map(|a| match a {
            GenericArgKind::Type(t) => { self.ty(*t); json!(t.to_index()) }
            _ => Value::Null,
        }).collect();
        json!({"key": key, "short": short(&i.def.name()), "name": i.name().to_string(), "def": i.def.name().to_string(), "local": local, "kind": kind, "args": args})
    }

    fn ty(&mut self, t: Ty) {
        let id = t.to_index().to_string();
        if self.types.contains_key(&id) || self.depth > 60 {
            return;
        }
        self.types.insert(id.clone(), Value::Null);
        self.depth += 1;
        let mut o = Map::new();
        o.insert("s".into(), json!(t.to_string()));
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!(["bool"]),
                RigidTy::Char => json!(["char"]),
                RigidTy::Int(i) => json!(["int", i.num_bytes() * 8]),
                RigidTy::Uint(i) => json!(["uint", i.num_bytes() * 8]),
                RigidTy::Float(_) => json!(["float"]),
                RigidTy::Str => json!(["str"]),
                RigidTy::Never => json!(["never"]),
                RigidTy::Slice(x) => { self.ty(x); json!(["slice", x.to_index()]) }
                RigidTy::Array(x, n) => { self.ty(x); json!(["array", x.to_index(), n.eval_target_usize().ok()]) }
                RigidTy::RawPtr(x, _) => { self.ty(x); json!(["ptr", x.to_index()]) }
                RigidTy::Ref(_, x, m) => { self.ty(x); json!(["ref", x.to_index(), m == Mutability::Mut]) }
                RigidTy::Tuple(xs) => {
                    for x in &xs { self.ty(*x); }
                    json!(["tuple", xs.iter().map(|x| x.to_index()).collect::<Vec<_>>()])
                }
                RigidTy::FnDef(def, ref args) => {
                    let args2: Vec<Value> = args.0.iter().map(|a| match a {
                        GenericArgKind::Type(x) => { self.ty(*x); json!(x.to_index()) }
                        _ => Value::Null,
                    }).collect();
                    let inst = match Instance::resolve(def, args) { Ok(i) => self.instance(i), Err(_) => Value::Null };
                    json!(["fndef", def.name().to_string(), args2, inst])
                }
                RigidTy::FnPtr(_) => json!(["fnptr"]),
                RigidTy::Closure(def, ref args) => {
                    let inst = match Instance::resolve_closure(def, args, ClosureKind::FnOnce) {
                        Ok(_) => {
                            // the body itself, whatever the kind it is called as
                            let k = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce].into_iter().find_map(|k| {
                                let i = Instance::resolve_closure(def, args, k).ok()?;
                                if matches!(i.kind, InstanceKind::Item) && i.has_body() { Some(i) } else { None }
                            });
                            match k { Some(i) => self.instance(i), None => Value::Null }
                        }
                        Err(_) => Value::Null,
                    };
                    json!(["closure", def.name().to_string(), inst])
                }
                RigidTy::Adt(def, ref args) => {
                    let mut vs = vec![];
                    let few = def.krate().is_local || ["Option", "Result", "ControlFlow", "Range", "Ordering", "Bound", "Cow"].iter().any(|n| def.trimmed_name().to_string().contains(n));
                    if few || def.kind() == AdtKind::Enum {
                        for v in def.variants() {
                            let fs: Vec<Value> = v.fields().iter().map(|f| {
                                if !few { return json!([f.name.to_string(), null]); }
                                let ft = f.ty_with_args(args);
                                self.ty(ft);
                                json!([f.name.to_string(), ft.to_index()])
                            }).collect();
                            let discr = if def.kind() == AdtKind::Enum { Some(def.discriminant_for_variant(v.idx()).val.to_string()) } else { None };
                            vs.push(json!([v.name().to_string(), fs, discr]));
                        }
                    }
                    let args2: Vec<Value> = args.0.iter().map(|a| match a {
                        GenericArgKind::Type(x) => { self.ty(*x); json!(x.to_index()) }
                        _ => Value::Null,
                    }).collect();
                    json!(["adt", def.name().to_string(), format!("{:?}", def.kind()), args2, vs, def.krate().is_local])
                }
                RigidTy::Dynamic(..) => json!(["dyn"]),
                _ => json!(["other"]),
            },
            _ => json!(["unknown"]),
        };
        o.insert("k".into(), k);
        self.types.insert(id, Value::Object(o));
        self.depth -= 1;
    }

    fn constant(&mut self, c: &MirConst) {
        self.ty(c.ty());
        let v = serde_json::to_value(c).unwrap();
        let id = v["id"].to_string();
        if self.consts.contains_key(&id) {
            return;
        }
        self.consts.insert(id.clone(), Value::Null);
        let val = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0),
            ConstantKind::ZeroSized => json!(["zst"]),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => json!(["int", n.to_string()]),
                Err(_) => json!(["unknown"]),
            },
            _ => json!(["unknown"]),
        };
        self.consts.insert(id, json!({"ty": c.ty().to_index(), "v": val}));
    }

    // The value at an offset of an allocation.
    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> Value {
        self.ty(ty);
        let Ok(layout) = ty.layout() else { return json!(["unknown"]) };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let bytes = |o: usize, n: usize| a.bytes.get(o..o + n);
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => {
                    match bytes(off, size).and_then(uint) { Some(n) => json!(["int", n.to_string()]), None => json!(["unknown"]) }
                }
                RigidTy::Int(_) => match bytes(off, size).and_then(uint) {
                    Some(n) => {
                        let bits = 8 * size as u32;
                        let s = if bits < 128 && n >> (bits - 1) & 1 == 1 { n as i128 - (1i128 << bits) } else { n as i128 };
                        json!(["int", s.to_string()])
                    }
                    None => json!(["unknown"]),
                },
                RigidTy::Tuple(xs) => {
                    if let FieldsShape::Arbitrary { offsets } = &shape.fields {
                        let vs: Vec<Value> = xs.iter().zip(offsets).map(|(x, o)| self.decode(*x, a, off + o.bytes())).collect();
                        return json!(["tuple", vs]);
                    }
                    json!(["tuple", []])
                }
                RigidTy::Array(x, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let step = match &shape.fields { FieldsShape::Array { stride, .. } => stride.bytes(), _ => 0 };
                    let vs: Vec<Value> = (0..n).map(|i| self.decode(x, a, off + i * step)).collect();
                    json!(["array", vs])
                }
                RigidTy::Ref(_, x, _) | RigidTy::RawPtr(x, _) => self.pointer(x, a, off),
                RigidTy::FnDef(..) | RigidTy::Closure(..) if size == 0 => json!(["zst"]),
                RigidTy::FnPtr(_) => {
                    let Some(p) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return json!(["unknown"]) };
                    match GlobalAlloc::from(p.1.0) {
                        GlobalAlloc::Function(i) => { let v = self.instance(i); json!(["fnptr", v]) }
                        _ => json!(["unknown"]),
                    }
                }
                RigidTy::Adt(def, args) => {
                    let (idx, offsets) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                            (*index, offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let tag_off = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let tsize = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                }
                            };
                            let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + tag_off);
                            let raw = bytes(off + tag_off, tsize).and_then(uint);
                            let idx = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(raw) = raw else { return json!(["unknown"]) };
                                    def.variants_iter().map(|v| v.idx()).find(|v| def.discriminant_for_variant(*v).val & ((1u128 << (8 * tsize - 1) << 1).wrapping_sub(1)) == raw)
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_ptr { Some(*untagged_variant) } else {
                                        let Some(raw) = raw else { return json!(["unknown"]) };
                                        let mask = (1u128 << (8 * tsize - 1) << 1).wrapping_sub(1);
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        let lo = niche_variants.start().to_index() as u128;
                                        let n = niche_variants.end().to_index() as u128 - lo;
                                        if rel <= n { Some(VariantIdx::to_val((lo + rel) as usize)) } else { Some(*untagged_variant) }
                                    }
                                }
                            };
                            let Some(idx) = idx else { return json!(["unknown"]) };
                            (idx, variants[idx.to_index()].offsets.clone())
                        }
                        VariantsShape::Empty => return json!(["unknown"]),
                    };
                    let Some(var) = def.variant(idx) else { return json!(["unknown"]) };
                    let vs: Vec<Value> = var.fields().iter().zip(&offsets).map(|(f, o)| {
                        let ft = f.ty_with_args(&args);
                        self.decode(ft, a, off + o.bytes())
                    }).collect();
                    json!(["adt", idx.to_index(), vs])
                }
                _ if size == 0 => json!(["zst"]),
                _ => json!(["unknown"]),
            },
            _ => json!(["unknown"]),
        }
    }

    fn pointer(&mut self, to: Ty, a: &Allocation, off: usize) -> Value {
        let Some(p) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
            // a dangling pointer: only for zero-sized or empty things
            return match to.kind() {
                TyKind::RigidTy(RigidTy::Str) => json!(["str", []]),
                TyKind::RigidTy(RigidTy::Slice(_)) => json!(["slice", []]),
                _ => json!(["ref", ["zst"]]),
            };
        };
        let base = a.bytes.get(off..off + 8).and_then(uint).unwrap_or(0) as usize;
        let len = a.bytes.get(off + 8..off + 16).and_then(uint).unwrap_or(0) as usize;
        let id: AllocId = p.1.0;
        match GlobalAlloc::from(id) {
            GlobalAlloc::Static(s) => {
                let n = s.name().to_string();
                if self.statics_seen.insert(n.clone()) {
                    self.statics_queue.push_back(s);
                }
                json!(["static", n])
            }
            GlobalAlloc::Function(i) => { let v = self.instance(i); json!(["fnptr", v]) }
            GlobalAlloc::Memory(m) => match to.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let b: Vec<u8> = m.bytes[base..base + len].iter().map(|x| x.unwrap_or(0)).collect();
                    json!(["str", b])
                }
                TyKind::RigidTy(RigidTy::Slice(x)) => {
                    let step = x.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let vs: Vec<Value> = (0..len).map(|i| self.decode(x, &m, base + i * step)).collect();
                    json!(["slice", vs])
                }
                _ => { let v = self.decode(to, &m, base); json!(["ref", v]) }
            },
            _ => json!(["unknown"]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        {
            let mut v = Vis { d: self };
            v.visit_body(b);
        }
        for l in b.locals() {
            self.ty(l.ty);
        }
        let mut v = serde_json::to_value(b).unwrap();
        strip(&mut v);
        v
    }

    fn run(&mut self) {
        for item in rustc_public::all_local_items() {
            if item.kind() == ItemKind::Fn && !item.requires_monomorphization() {
                if let Ok(i) = Instance::try_from(item) {
                    self.instance(i);
                }
            }
            if item.kind() == ItemKind::Static {
                if let Ok(s) = StaticDef::try_from(item) {
                    if self.statics_seen.insert(s.name().to_string()) {
                        self.statics_queue.push_back(s);
                    }
                }
            }
        }
        loop {
            if let Some(i) = self.queue.pop_front() {
                let key = i.mangled_name().to_string();
                if let Some(b) = i.body() {
                    let v = self.body(&b);
                    let span = i.def.span();
                    self.fns.insert(key, json!({"name": i.name().to_string(), "def": i.def.name().to_string(), "file": span.get_filename().to_string(), "line": span.get_lines().start_line, "body": v}));
                }
                continue;
            }
            if let Some(s) = self.statics_queue.pop_front() {
                self.ty(s.ty());
                let i: Instance = s.into();
                let v = match i.body() {
                    Some(b) => self.body(&b),
                    None => CrateItem::try_from(i).ok().and_then(|c| c.body()).map(|b| self.body(&b)).unwrap_or(Value::Null),
                };
                self.statics.insert(s.name().to_string(), json!({"ty": s.ty().to_index(), "body": v}));
                continue;
            }
            break;
        }
    }
}

// Removes spans and what else is not needed.
fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for k in ["span", "source_info", "var_debug_info", "source_scopes", "unwind", "user_ty"] {
                m.remove(k);
            }
            // constants are in a table by id
            if m.contains_key("kind") && m.contains_key("id") && m.contains_key("ty") {
                m.remove("kind");
            }
            for x in m.values_mut() { strip(x); }
        }
        Value::Array(a) => for x in a { strip(x); },
        _ => {}
    }
}

fn analyze() -> ControlFlow<(), ()> {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if out.is_empty() || rustc_public::local_crate().name.to_string() != want || rustc_public::entry_fn().is_some() {
        return ControlFlow::Continue(());
    }
    let mut d = Dump::default();
    if let Ok(f) = std::env::var("MIRDUMP_MODELS") {
        d.deep = true;
        d.models = std::fs::read_to_string(f).unwrap().split_whitespace().map(String::from).collect();
    }
    d.run();
    let v = json!({"types": d.types, "consts": d.consts, "fns": d.fns, "statics": d.statics});
    std::fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
    let _ = d.allocs;
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // argv[1] is the rustc it wraps
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Zmir-opt-level=1".into());
    let r = run!(&args, analyze);
    if matches!(r, Err(rustc_public::CompilerError::Failed)) {
        std::process::exit(1);
    }
}
