//! Dumps the monomorphised MIR of the workspace crates as JSON facts.
//!
//! Injected with RUSTC_WORKSPACE_WRAPPER: argv = [factdump, rustc, args...].
//! One file per compiled crate is written to $RUDIS_FACTS_DIR.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_transform;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

thread_local! {
    static COROUTINES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc-shim.sh")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let out = std::env::var("RUDIS_FACTS_DIR").ok();
    let probing = crate_name.as_deref() == Some("___") || args.iter().any(|a| a.starts_with("--print"));
    let mut cb = Cb { out: if probing { None } else { out } };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.out.is_none() {
            return;
        }
        config.override_queries = Some(|_s, providers| {
            providers.queries.mir_drops_elaborated_and_const_checked = |tcx, def| {
                if tcx.is_coroutine(def.to_def_id()) {
                    tcx.ensure_done().mir_coroutine_witnesses(def);
                    let body: Body<'_> = tcx.mir_promoted(def).0.borrow().clone();
                    // SAFETY: only read again in after_analysis, under the same tcx
                    let body: Body<'static> = unsafe { std::mem::transmute(body) };
                    COROUTINES.with(|c| c.borrow_mut().insert(def, body));
                }
                let mut p = rustc_middle::util::Providers::default();
                rustc_mir_transform::provide(&mut p);
                (p.queries.mir_drops_elaborated_and_const_checked)(tcx, def)
            };
        });
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(dir) = &self.out {
            let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}").contains("Executable"));
            let s = rustc_middle::ty::print::with_resolve_crate_name!(
                rustc_middle::ty::print::with_no_visible_paths!(
                    rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, &krate, is_bin))
                )
            );
            let name = format!("{dir}/{krate}{}.json", if is_bin { "-bin" } else { "" });
            std::fs::write(&name, s).expect("write facts");
        }
        rustc_driver::Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const WORKSPACE: &[&str] = &["common", "dict", "db", "server", "pd", "keys", "rudis"];
const EXT_PREFIX: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::cmp", "core::convert", "core::bool",
    "core::iter", "core::future", "core::borrow", "core::default", "core::clone",
    "core::slice::cmp", "nom::", "core::mem::take", "core::mem::replace",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    seen: HashSet<(Instance<'tcx>, Option<Promoted>)>,
    queue: VecDeque<(Instance<'tcx>, Option<Promoted>)>,
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, krate: &str, is_bin: bool) -> String {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: HashMap::new(),
        type_json: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
    };
    let mut items = vec![];
    for def in tcx.hir_body_owners() {
        let did = def.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. }) {
            continue;
        }
        items.push(did);
        let g = tcx.generics_of(did);
        let generic = if matches!(kind, DefKind::Closure) {
            tcx.generics_of(tcx.typeck_root_def_id(did)).requires_monomorphization(tcx)
        } else {
            g.requires_monomorphization(tcx)
        };
        if generic {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        if matches!(kind, DefKind::Closure) {
            // closures: take the args from the type of the closure expression
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            match t.kind() {
                ty::Closure(d, a) => cx.enqueue(Instance::new_raw(*d, a), None),
                ty::Coroutine(d, a) => cx.enqueue(Instance::new_raw(*d, a), None),
                _ => {}
            }
            continue;
        }
        cx.enqueue(Instance::new_raw(did, args), None);
    }
    let mut out = String::new();
    let _ = write!(out, "{{\"crate\":{},\"bin\":{},\"fns\":{{", esc(krate), is_bin);
    let mut first = true;
    let mut names = HashSet::new();
    while let Some((inst, promoted)) = cx.queue.pop_front() {
        let key = cx.inst_key(inst, promoted);
        if !names.insert(key.clone()) {
            continue;
        }
        if let Some(j) = cx.body_json(inst, promoted) {
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let _ = write!(out, "{}:{}", esc(&key), j);
        }
    }
    out.push_str("},\n\"items\":[");
    for (i, d) in items.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&esc(&tcx.def_path_str(*d)));
    }
    out.push_str("],\n\"poly\":[");
    let mut first = true;
    for d in items.iter() {
        let p = tcx.def_path_str(*d);
        if !p.contains("serde::") || !matches!(tcx.def_kind(*d), DefKind::AssocFn | DefKind::Fn) {
            continue;
        }
        if !first {
            out.push_str(",\n");
        }
        first = false;
        out.push_str(&poly(tcx, *d, &p));
    }
    out.push_str("],\n\"types\":[");
    // types may grow while being printed, so they are all materialised already
    for (i, t) in cx.type_json.iter().enumerate() {
        if i > 0 {
            out.push_str(",\n");
        }
        out.push_str(t);
    }
    out.push_str("]}");
    out
}

/// calls of a generic body in control-flow order: callee, type arguments, constant arguments
fn poly(tcx: TyCtxt<'_>, d: DefId, p: &str) -> String {
    let body = tcx.optimized_mir(d);
    let mut calls = vec![];
    for (_, bb) in traversal::reverse_postorder(body) {
        let Some(t) = &bb.terminator else { continue };
        if let TerminatorKind::Call { func, args, .. } = &t.kind {
            if let Some((cd, ca)) = func.const_fn_def() {
                let tys: Vec<String> = ca.types().map(|t| esc(&t.to_string())).collect();
                let mut cs = vec![];
                for a in args.iter() {
                    cs.push(match &a.node {
                        Operand::Constant(c) => esc(&format!("{}", c.const_)),
                        o => {
                            let t = o.ty(&body.local_decls, tcx);
                            format!("[{}]", esc(&t.to_string()))
                        }
                    });
                }
                calls.push(format!("[{},[{}],[{}]]", esc(&tcx.def_path_str(cd)), tys.join(","), cs.join(",")));
            }
        }
    }
    let im = impl_of(tcx, d);
    format!(
        "{{\"path\":{},\"tr\":{},\"self\":{},\"calls\":[{}]}}",
        esc(p),
        esc(&im.as_ref().map(|i| i.tr.clone()).unwrap_or_default()),
        esc(&im.as_ref().map(|i| i.ty.clone()).unwrap_or_default()),
        calls.join(",")
    )
}

impl<'tcx> Cx<'tcx> {
    fn enqueue(&mut self, i: Instance<'tcx>, p: Option<Promoted>) {
        if self.seen.insert((i, p)) {
            self.queue.push_back((i, p));
        }
    }

    fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }

    fn wanted(&self, d: DefId) -> bool {
        if WORKSPACE.contains(&self.crate_of(d).as_str()) {
            return true;
        }
        let p = self.tcx.def_path_str(d);
        let p = p.trim_start_matches('<');
        let q = {
            // impls print as `<impl X for Y>::f`; use the raw def path
            let dp = self.tcx.def_path(d);
            format!("{}{}", self.crate_of(d), dp.to_string_no_crate_verbose())
        };
        EXT_PREFIX.iter().any(|e| p.starts_with(e) || q.starts_with(e))
    }

    fn inst_key(&self, i: Instance<'tcx>, p: Option<Promoted>) -> String {
        let mut s = match i.def {
            InstanceKind::Item(d) | InstanceKind::Intrinsic(d) => {
                self.tcx.def_path_str_with_args(d, i.args)
            }
            InstanceKind::Virtual(d, n) => {
                format!("virtual#{}:{}", n, self.tcx.def_path_str_with_args(d, i.args))
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => format!("drop_glue<{t}>"),
            InstanceKind::Shim(ShimKind::Clone(_, t)) => format!("clone_shim<{t}>"),
            InstanceKind::Shim(ShimKind::FnPtr(_, t)) => format!("fnptr_shim<{t}>"),
            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                format!("closure_once:{}", self.tcx.def_path_str_with_args(closure, i.args))
            }
            other => format!("{:?}|{}", other, self.tcx.def_path_str_with_args(i.def_id(), i.args)),
        };
        if let Some(p) = p {
            let _ = write!(s, "::promoted[{}]", p.as_usize());
        }
        s
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let s = esc(&format!("{t}"));
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"s\":{s}}}")
            }
            ty::Adt(def, args) => {
                let path = self.tcx.def_path_str(def.did());
                let krate = self.crate_of(def.did());
                let mut targs = vec![];
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        targs.push(self.ty(t).to_string());
                    }
                }
                let expand = WORKSPACE.contains(&krate.as_str()) || krate.starts_with("crc")
                    || (krate == "nix" && def.is_enum())
                    || ((krate == "core" || krate == "nom" || krate == "std" || krate == "alloc" || krate == "flume")
                        && (def.is_enum()
                            || path.contains("ops::range")
                            || path.starts_with("core::iter")
                            || path.contains("Reverse")));
                let mut vs = vec![];
                if expand {
                    let discrs: Vec<String> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
                    } else {
                        vec!["0".into()]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                            esc(v.name.as_str()),
                            esc(discrs.get(vi.as_usize()).map(|s| s.as_str()).unwrap_or("?")),
                            fs.join(",")
                        ));
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"s\":{s},\"p\":{},\"e\":{},\"a\":[{}],\"v\":[{}],\"x\":{}}}",
                    esc(&path),
                    def.is_enum(),
                    targs.join(","),
                    vs.join(","),
                    expand
                )
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"s\":{s},\"t\":{i},\"m\":{}}}", m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"s\":{s},\"t\":{i},\"m\":{}}}", m.is_mut())
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"s\":{s},\"t\":{i}}}")
            }
            ty::Array(t, n) => {
                let i = self.ty(*t);
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"s\":{s},\"t\":{i},\"n\":{n}}}")
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{s},\"a\":[{}]}}", v.join(","))
            }
            ty::FnDef(d, args) => {
                let r = self.callee(*d, args.no_bound_vars().unwrap());
                format!("{{\"k\":\"fndef\",\"s\":{s},\"fn\":{r}}}")
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                self.enqueue(inst, None);
                let key = esc(&self.inst_key(inst, None));
                let k = args.as_closure().kind();
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"closure\",\"s\":{s},\"fn\":{key},\"kind\":{},\"up\":[{}]}}", esc(&format!("{k:?}")), up.join(","))
            }
            ty::Coroutine(d, args) => {
                let inst = Instance::new_raw(*d, args);
                self.enqueue(inst, None);
                let key = esc(&self.inst_key(inst, None));
                let up: Vec<String> =
                    args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"coroutine\",\"s\":{s},\"fn\":{key},\"up\":[{}]}}", up.join(","))
            }
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.type_json[id] = j;
        id
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T) -> T {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    /// describes a callee: declared path, resolved path, instance key, kind
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = self.norm(args);
        let decl = tcx.def_path_str(d);
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                targs.push(esc(&format!("{c}")));
            }
        }
        let mut res = String::from("null");
        let mut key = String::from("null");
        let mut kind = "unresolved";
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let p2 = if matches!(tcx.def_kind(parent), DefKind::Variant) { tcx.parent(parent) } else { parent };
            let idx = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                tcx.adt_def(p2).variant_index_with_ctor_id(d).as_usize()
            } else {
                0
            };
            return format!(
                "{{\"d\":{},\"k\":\"ctor\",\"adt\":{},\"vi\":{},\"a\":[{}]}}",
                esc(&decl),
                esc(&tcx.def_path_str(p2)),
                idx,
                targs.join(",")
            );
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            res = match inst.def {
                InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => esc(&format!("drop_glue<{t}>")),
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => esc(&tcx.def_path_str(closure)),
                _ => esc(&tcx.def_path_str(inst.def_id())),
            };
            kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                _ => "shim",
            };
            let inst = match inst.def {
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    // self type of FnOnce::call_once is the closure type
                    match args.type_at(0).kind() {
                        ty::Closure(d2, a2) => Instance::new_raw(*d2, a2),
                        _ => Instance::new_raw(closure, inst.args),
                    }
                }
                InstanceKind::Shim(ShimKind::FnPtr(..)) => {
                    // FnDef passed as impl Fn: force its type to be described
                    self.ty(args.type_at(0));
                    inst
                }
                _ => inst,
            };
            key = esc(&self.inst_key(inst, None));
            if let InstanceKind::Item(id) = inst.def {
                if self.wanted(id) && tcx.is_mir_available(id) && !tcx.is_coroutine(id) {
                    self.enqueue(inst, None);
                }
                if tcx.is_coroutine(id) {
                    if id.is_local() {
                        self.enqueue(inst, None);
                    }
                }
            }
        }
        format!(
            "{{\"d\":{},\"r\":{res},\"i\":{key},\"k\":\"{kind}\",\"a\":[{}]}}",
            esc(&decl),
            targs.join(",")
        )
    }

    fn body_json(&mut self, inst: Instance<'tcx>, promoted: Option<Promoted>) -> Option<String> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut phase = "runtime";
        let body: Body<'tcx> = if let Some(p) = promoted {
            tcx.promoted_mir(did).get(p)?.clone()
        } else if tcx.is_coroutine(did) {
            let l = did.as_local()?;
            phase = "analysis";
            let b = COROUTINES.with(|c| c.borrow().get(&l).cloned())?;
            // SAFETY: same tcx as when it was stored
            unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) }
        } else if matches!(tcx.def_kind(did), DefKind::Static { .. }) {
            did.as_local()?;
            tcx.mir_for_ctfe(did).clone()
        } else {
            if !tcx.is_mir_available(did) {
                return None;
            }
            tcx.instance_mir(inst.def).clone()
        };
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body),
        );
        let mut o = String::new();
        let fnkey = self.inst_key(inst, None);
        let _ = write!(
            o,
            "{{\"path\":{},\"crate\":{},\"span\":{},\"phase\":\"{phase}\",\"argc\":{},\"spread\":{},\"local\":{}",
            esc(&tcx.def_path_str(did)),
            esc(&self.crate_of(did)),
            self.span(body.span),
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            did.is_local()
        );
        if let Some(ImplOf { tr, ty: st }) = impl_of(tcx, did) {
            let _ = write!(o, ",\"impl_trait\":{},\"impl_self\":{}", esc(&tr), esc(&st));
        }
        if tcx.is_closure_like(did) {
            let _ = write!(o, ",\"parent\":{}", esc(&tcx.def_path_str(tcx.typeck_root_def_id(did))));
        }
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}]", locals.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p)));
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        o.push_str(",\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut firsts = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pt = self.place(p);
                        let rv = self.rvalue(r, &fnkey, inst, &body);
                        format!("[\"=\",{pt},{rv},{}]", self.span(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize())
                    }
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", esc(&format!("{i:?}"))),
                    _ => continue,
                };
                if !firsts {
                    o.push(',');
                }
                firsts = false;
                o.push_str(&j);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let j = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&body, tcx);
                    let dt = self.ty(dt);
                    format!(
                        "[\"switch\",{},[{}],{},{sp},{dt}]",
                        self.operand(discr, &fnkey, inst),
                        v.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::CoroutineDrop => "[\"codrop\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body, tcx).ty;
                    let pt = self.ty(pt);
                    format!(
                        "[\"drop\",{},{},{},{pt},{sp}]",
                        self.place(place),
                        target.as_usize(),
                        uw(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.func(func, &fnkey, inst, &body);
                    let a: Vec<String> =
                        args.iter().map(|a| self.operand(&a.node, &fnkey, inst)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&body, tcx).ty;
                    let dt = self.ty(dt);
                    format!(
                        "[\"call\",{f},[{}],{},{},{},{sp},[{}],{dt}]",
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        uw(unwind),
                        at.join(",")
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (m, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![len.clone(), index.clone()])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow {op:?}"), vec![a.clone(), b.clone()])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow Neg".into(), vec![a.clone()]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a.clone()]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a.clone()]),
                        other => (format!("other {:?}", std::mem::discriminant(other)), vec![]),
                    };
                    let ops: Vec<String> = ops.iter().map(|x| self.operand(x, &fnkey, inst)).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{},[{}],{sp}]",
                        self.operand(cond, &fnkey, inst),
                        expected,
                        esc(&m),
                        target.as_usize(),
                        uw(unwind),
                        ops.join(",")
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, drop, .. } => format!(
                    "[\"yield\",{},{},{},{sp}]",
                    resume.as_usize(),
                    self.place(resume_arg),
                    drop.map(|d| d.as_usize().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::InlineAsm { targets, .. } => {
                    let v: Vec<String> = targets.iter().map(|b| b.as_usize().to_string()).collect();
                    format!("[\"asm\",[{}]]", v.join(","))
                }
            };
            o.push_str(&j);
            if bb.is_cleanup {
                o.push_str(",\"c\":1");
            }
            o.push('}');
        }
        o.push_str("]}");
        Some(o)
    }

    fn func(&mut self, f: &Operand<'tcx>, fnkey: &str, inst: Instance<'tcx>, body: &Body<'tcx>) -> String {
        let t = f.ty(body, self.tcx);
        if let ty::FnDef(d, args) = t.kind() {
            return self.callee(*d, args.no_bound_vars().unwrap());
        }
        format!("{{\"k\":\"indirect\",\"op\":{}}}", self.operand(f, fnkey, inst))
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => {
                    let ti = self.ty(t);
                    format!("[\"f\",{},{ti}]", i.as_usize())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{offset},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => continue,
            };
            o.push(',');
            o.push_str(&s);
        }
        o.push(']');
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>, fnkey: &str, inst: Instance<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                format!("[\"k\",{},{t}]", self.constant(&c.const_, inst, c.span))
            }
            Operand::RuntimeChecks(r) => format!("[\"k\",{{\"rtc\":{}}},0]", esc(&format!("{r:?}"))),
        }
        .replace("@@FN@@", fnkey)
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, inst: Instance<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        match t.kind() {
            ty::FnDef(d, args) => return format!("{{\"fn\":{}}}", self.callee(*d, args.no_bound_vars().unwrap())),
            ty::Closure(..) => return "{\"z\":1}".into(),
            _ => {}
        }
        if let mir::Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                let i2 = Instance::new_raw(uv.def, uv.args);
                let i2 = if uv.def == inst.def_id() { inst } else { i2 };
                if self.wanted(uv.def) {
                    self.enqueue(i2, Some(p));
                    return format!("{{\"prom\":{}}}", esc(&self.inst_key(i2, Some(p))));
                }
            }
        }
        let named = if let mir::Const::Unevaluated(uv, _) = c {
            Some(tcx.def_path_str(uv.def))
        } else {
            None
        };
        let v = match c.eval(tcx, self.env, span) {
            Ok(v) => self.constval(v, t, 0),
            Err(_) => format!("{{\"o\":{}}}", esc(&format!("{c}"))),
        };
        match named {
            Some(n) => format!("{{\"named\":{},\"v\":{v}}}", esc(&n)),
            None => v,
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 4 {
            return "{\"o\":\"deep\"}".into();
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let ConstValue::Scalar(mir::interpret::Scalar::Int(s)) = v {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    return match t.kind() {
                        ty::Int(_) => format!("{{\"n\":\"{}\"}}", size.sign_extend(bits)),
                        ty::Float(ty::FloatTy::F64) => format!("{{\"fl\":\"{:?}\"}}", f64::from_bits(bits as u64)),
                        _ => format!("{{\"n\":\"{bits}\"}}"),
                    };
                }
                "{\"o\":\"scalar\"}".into()
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match (inner.kind(), v) {
                    (ty::Str, ConstValue::Slice { .. }) => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                    (ty::Slice(e), ConstValue::Slice { .. }) if e.is_integral() => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"bytes\":{:?}}}", b);
                        }
                    }
                    (_, ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        match tcx.global_alloc(prov.alloc_id()) {
                            mir::interpret::GlobalAlloc::Static(d) => {
                                return format!("{{\"static\":{}}}", esc(&tcx.def_path_str(d)));
                            }
                            mir::interpret::GlobalAlloc::Memory(_) => {
                                if let ty::Array(e, n) = inner.kind() {
                                    if *e == tcx.types.u8 {
                                        if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                            let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                            let o = off.bytes() as usize;
                                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                            return format!("{{\"bytes\":{:?}}}", b);
                                        }
                                    }
                                }
                                // reference to a constant: describe the pointee
                                let pv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let sized = !matches!(inner.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..));
                                if sized {
                                    let ti = self.ty(*inner);
                                    let sv = self.constval(pv, *inner, depth + 1);
                                    return format!("{{\"refto\":{sv},\"t\":{ti}}}");
                                }
                            }
                            _ => {}
                        }
                    }
                    (_, ConstValue::Indirect { .. }) => {
                        // a (fat) reference stored in memory
                        if matches!(inner.kind(), ty::Str) {
                            if let Some(s) = read_indirect_str(tcx, v) {
                                return format!("{{\"str\":{}}}", esc(&s));
                            }
                        }
                    }
                    _ => {}
                }
                format!("{{\"o\":{}}}", esc(&format!("{v:?}")))
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return "{\"o\":\"union\"}".into();
                    }
                }
                let simple = match t.kind() {
                    ty::Array(_, n) => n.try_to_target_usize(tcx).is_some_and(|n| n <= 64),
                    ty::Adt(d, _) => WORKSPACE.contains(&self.crate_of(d.did()).as_str()) || d.is_enum() || matches!(v, ConstValue::ZeroSized)
                        || self.crate_of(d.did()).starts_with("crc"),
                    _ => true,
                };
                if !simple {
                    return "{\"o\":\"big\"}".into();
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in dc.fields.iter() {
                        let ti = self.ty(*ft);
                        fs.push(format!("[{},{ti}]", self.constval(*fv, *ft, depth + 1)));
                    }
                    return format!(
                        "{{\"adt\":[{}],\"vi\":{}}}",
                        fs.join(","),
                        dc.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into())
                    );
                }
                format!("{{\"o\":{}}}", esc(&format!("{v:?}")))
            }
            _ => match v {
                ConstValue::ZeroSized => "{\"z\":1}".into(),
                _ => format!("{{\"o\":{}}}", esc(&format!("{v:?}"))),
            },
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, fnkey: &str, inst: Instance<'tcx>, body: &Body<'tcx>) -> String {
        let _ = body;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, fnkey, inst)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{n}]", self.operand(o, fnkey, inst))
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                };
                format!("[\"ref\",\"{m}\",{}]", self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.tcx.def_path_str(*d))),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(body, self.tcx);
                let fi = self.ty(from);
                format!("[\"cast\",{},{},{ti},{fi}]", esc(&format!("{k:?}")), self.operand(o, fnkey, inst))
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                let ti = self.ty(t);
                format!(
                    "[\"bin\",\"{op:?}\",{},{},{ti}]",
                    self.operand(&b.0, fnkey, inst),
                    self.operand(&b.1, fnkey, inst)
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, self.tcx);
                let ti = self.ty(t);
                format!("[\"un\",\"{op:?}\",{},{ti}]", self.operand(a, fnkey, inst))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{ti}]", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, fnkey, inst)).collect();
                let kd = match &**k {
                    AggregateKind::Array(t) => {
                        let ti = self.ty(*t);
                        format!("\"array\",{ti}")
                    }
                    AggregateKind::Tuple => "\"tuple\",null".into(),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let n = self.tcx.adt_def(*d).variant(*vi).name.to_string();
                        format!(
                            "\"adt\",[{},{},{},{}]",
                            esc(&self.tcx.def_path_str(*d)),
                            vi.as_usize(),
                            esc(&n),
                            af.map(|f| f.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        self.enqueue(i, None);
                        format!("\"closure\",{}", esc(&self.inst_key(i, None)))
                    }
                    AggregateKind::Coroutine(d, a) | AggregateKind::CoroutineClosure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        self.enqueue(i, None);
                        format!("\"coroutine\",{}", esc(&self.inst_key(i, None)))
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\",null".into(),
                };
                format!("[\"agg\",{kd},[{}]]", v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, fnkey, inst)),
        }
    }
}

fn read_indirect_str(tcx: TyCtxt<'_>, v: ConstValue) -> Option<String> {
    if let ConstValue::Indirect { alloc_id, offset } = v {
        let a = tcx.global_alloc(alloc_id).unwrap_memory();
        let ptr_size = 8u64;
        let o = offset.bytes() as usize;
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
        let addr = u64::from_le_bytes(b[0..8].try_into().ok()?);
        let len = u64::from_le_bytes(b[8..16].try_into().ok()?) as usize;
        let _ = ptr_size;
        let prov = a.inner().provenance().get_ptr(offset)?;
        if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
            let s = addr as usize;
            let bytes = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + len);
            return Some(String::from_utf8_lossy(bytes).into_owned());
        }
    }
    None
}

fn uw(u: &UnwindAction) -> String {
    match u {
        UnwindAction::Cleanup(b) => b.as_usize().to_string(),
        UnwindAction::Continue => "\"cont\"".into(),
        UnwindAction::Unreachable => "null".into(),
        UnwindAction::Terminate(_) => "\"abort\"".into(),
    }
}

struct ImplOf {
    tr: String,
    ty: String,
}

fn impl_of(tcx: TyCtxt<'_>, d: DefId) -> Option<ImplOf> {
    let root = tcx.typeck_root_def_id(d);
    let imp = tcx.impl_of_assoc(root)?;
    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
    let tr = if tcx.impl_is_of_trait(imp) {
        tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip().to_string()
    } else {
        String::new()
    };
    Some(ImplOf { tr, ty: st.to_string() })
}
