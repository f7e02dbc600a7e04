// Dumps what rustc knows about a type-checked crate: types, impls, signatures, visibilities.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet};

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    todo: BTreeSet<(u32, u32)>,
    ids: BTreeMap<(u32, u32), DefId>,
    seen: BTreeSet<(u32, u32)>,
}
impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn want(&mut self, d: DefId) {
        let k = (d.krate.as_u32(), d.index.as_u32());
        self.ids.insert(k, d);
        if !self.seen.contains(&k) {
            self.todo.insert(k);
        }
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            v.push(match x.kind() {
                GenericArgKind::Lifetime(r) => format!("{{\"k\":\"lt\",\"name\":{}}}", q(&r.to_string())),
                GenericArgKind::Type(t) => self.ty(t),
                GenericArgKind::Const(c) => format!("{{\"k\":\"const\",\"name\":{}}}", q(&c.to_string())),
                #[allow(unreachable_patterns)]
                _ => format!("{{\"k\":\"lt\",\"name\":\"?\"}}"),
            });
        }
        list(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        use rustc_middle::ty::*;
        match t.kind() {
            Adt(d, a) => {
                self.want(d.did());
                format!("{{\"k\":\"adt\",\"id\":{},\"args\":{}}}", q(&self.key(d.did())), self.args(a))
            }
            Ref(r, t, m) => format!("{{\"k\":\"ref\",\"lt\":{},\"mut\":{},\"ty\":{}}}", q(&r.to_string()), m.is_mut(), self.ty(*t)),
            RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"mut\":{},\"ty\":{}}}", m.is_mut(), self.ty(*t)),
            Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                format!("{{\"k\":\"tuple\",\"tys\":{}}}", list(v))
            }
            Pat(t, _) => self.ty(*t),
            Array(t, n) => format!("{{\"k\":\"array\",\"ty\":{},\"len\":{}}}", self.ty(*t), q(&n.to_string())),
            Slice(t) => format!("{{\"k\":\"slice\",\"ty\":{}}}", self.ty(*t)),
            Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", q(p.name.as_str())),
            Bool | Char | Int(_) | Uint(_) | Float(_) | Str | Never => format!("{{\"k\":\"prim\",\"name\":{}}}", q(&t.to_string())),
            FnPtr(..) => format!("{{\"k\":\"fnptr\",\"name\":{}}}", q(&t.to_string())),
            Dynamic(preds, ..) => {
                let autos: Vec<String> = preds.auto_traits().map(|d| q(&self.key(d))).collect();
                let supers: Vec<String> = match preds.principal_def_id() {
                    Some(d) => self.tcx.supertrait_def_ids(d).map(|d| q(&self.key(d))).collect(),
                    None => vec![],
                };
                format!("{{\"k\":\"dyn\",\"name\":{},\"autos\":{},\"supers\":{}}}", q(&t.to_string()), list(autos), list(supers))
            }
            Alias(_, al) => match al.kind {
                AliasTyKind::Projection { def_id } => {
                    let d: DefId = def_id.into();
                    let tr = self.tcx.parent(d);
                    format!("{{\"k\":\"alias\",\"trait\":{},\"assoc\":{},\"args\":{},\"name\":{}}}", q(&self.key(tr)), q(&self.key(d)), self.args(al.args), q(&t.to_string()))
                }
                _ => format!("{{\"k\":\"other\",\"name\":{}}}", q(&t.to_string())),
            },
            _ => format!("{{\"k\":\"other\",\"name\":{}}}", q(&t.to_string())),
        }
    }
    fn vis(&self, d: DefId) -> String {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => "\"pub\"".to_string(),
            ty::Visibility::Restricted(m) => q(&self.key(m.into())),
        }
    }
    fn preds(&mut self, d: DefId) -> String {
        let ps = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        let mut v = vec![];
        for p in ps.clauses {
            let p = p.skip_norm_wip();
            match p.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => {
                    let tr = t.trait_ref;
                    v.push(format!(
                        "{{\"k\":\"trait\",\"trait\":{},\"args\":{},\"positive\":{},\"hr\":{}}}",
                        q(&self.key(tr.def_id.into())),
                        self.args(tr.args),
                        t.polarity == ty::ClausePolarity::Positive,
                        !p.kind().bound_vars().is_empty()
                    ));
                }
                ty::ClauseKind::Projection(t) => {
                    v.push(format!("{{\"k\":\"proj\",\"name\":{}}}", q(&format!("{:?}", t))));
                }
                other => v.push(format!("{{\"k\":\"other\",\"name\":{}}}", q(&format!("{:?}", other)))),
            }
        }
        list(v)
    }
    fn generics(&self, d: DefId) -> String {
        let mut v = vec![];
        let mut g = Some(self.tcx.generics_of(d));
        let mut parts = vec![];
        while let Some(x) = g {
            parts.push(x);
            g = x.parent.map(|p| self.tcx.generics_of(p));
        }
        for x in parts.iter().rev() {
            for p in &x.own_params {
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => "lt",
                    ty::GenericParamDefKind::Type { .. } => "type",
                    ty::GenericParamDefKind::Const { .. } => "const",
                };
                v.push(format!("[{},{}]", q(k), q(p.name.as_str())));
            }
        }
        list(v)
    }
    fn defaults(&self, d: DefId) -> String {
        let mut v = vec![];
        for p in &self.tcx.generics_of(d).own_params {
            v.push(match p.kind {
                ty::GenericParamDefKind::Type { has_default: true, .. } => q(&self.tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip().to_string()),
                ty::GenericParamDefKind::Const { has_default: true, .. } => q(&self.tcx.const_param_default(p.def_id).instantiate_identity().skip_norm_wip().to_string()),
                _ => "null".to_string(),
            });
        }
        list(v)
    }
    fn adt(&mut self, d: DefId) -> String {
        let a = self.tcx.adt_def(d);
        let mut vs = vec![];
        for v in a.variants() {
            let mut fs = vec![];
            for f in &v.fields {
                let did: DefId = f.did.into();
                let t = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                fs.push(format!("{{\"name\":{},\"ty\":{},\"vis\":{},\"show\":{}}}", q(f.name.as_str()), self.ty(t), self.vis(did), q(&t.to_string())));
            }
            vs.push(format!("{{\"name\":{},\"fields\":{}}}", q(v.name.as_str()), list(fs)));
        }
        format!(
            "{{\"id\":{},\"name\":{},\"local\":{},\"kind\":{},\"phantom\":{},\"manuallydrop\":{},\"expansion\":{},\"vis\":{},\"parent\":{},\"generics\":{},\"defaults\":{},\"preds\":{},\"variants\":{}}}",
            q(&self.key(d)),
            q(self.tcx.item_name(d).as_str()),
            d.is_local(),
            q(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" }),
            a.is_phantom_data(),
            a.is_manually_drop(),
            self.tcx.def_span(d).from_expansion(),
            self.vis(d),
            q(&self.key(self.tcx.parent(d))),
            self.generics(d),
            self.defaults(d),
            self.preds(d),
            list(vs)
        )
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, todo: Default::default(), ids: Default::default(), seen: Default::default() };
        let mut traits: BTreeMap<String, DefId> = BTreeMap::new();
        let (mut fns, mut mods, mut impls) = (vec![], vec![], vec![]);
        for t in tcx.all_traits_including_private() {
            let krate = tcx.crate_name(t.krate);
            let lang = Some(t) == tcx.lang_items().unpin_trait() || Some(t) == tcx.lang_items().drop_trait();
            if t.krate == LOCAL_CRATE || krate.as_str() == "pin_project" || lang || (krate.as_str() == "core" && tcx.item_name(t).as_str() == "Allocator") {
                traits.insert(d.key(t), t);
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let id = id.to_def_id();
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => d.want(id),
                DefKind::Mod => mods.push(format!("{{\"id\":{},\"parent\":{},\"vis\":{}}}", q(&d.key(id)), match tcx.opt_parent(id) {
                    Some(p) => q(&d.key(p)),
                    None => "null".to_string(),
                }, d.vis(id))),
                k @ (DefKind::Fn | DefKind::AssocFn) => {
                    let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip().skip_binder();
                    let ins: Vec<String> = sig.inputs().iter().map(|t| d.ty(*t)).collect();
                    let out = d.ty(sig.output());
                    let parent = tcx.parent(id);
                    let (mut of, mut tr) = ("null".to_string(), "null".to_string());
                    if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                        of = d.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip());
                        if of_trait {
                            tr = q(&d.key(tcx.impl_trait_ref(parent).skip_binder().def_id.into()));
                        }
                    }
                    fns.push(format!(
                        "{{\"id\":{},\"name\":{},\"assoc\":{},\"self\":{},\"trait\":{},\"unsafe\":{},\"vis\":{},\"expansion\":{},\"inputs\":{},\"output\":{},\"generics\":{},\"preds\":{}}}",
                        q(&d.key(id)),
                        q(tcx.item_name(id).as_str()),
                        k == DefKind::AssocFn,
                        of,
                        tr,
                        sig.safety().is_unsafe(),
                        d.vis(id),
                        tcx.def_span(id).from_expansion(),
                        list(ins),
                        out,
                        d.generics(id),
                        d.preds(id)
                    ));
                }
                _ => {}
            }
        }
        let mut trs = vec![];
        for (k, t) in traits.clone() {
            let assoc: Vec<String> = tcx.associated_item_def_ids(t).iter().map(|x| q(&d.key(*x))).collect();
            let fns: Vec<String> = tcx.associated_items(t).in_definition_order().filter(|a| a.is_fn()).map(|a| {
                let sig = tcx.fn_sig(a.def_id).instantiate_identity().skip_norm_wip().skip_binder();
                format!("{{\"name\":{},\"unsafe\":{}}}", q(a.name().as_str()), sig.safety().is_unsafe())
            }).collect();
            trs.push(format!("{{\"id\":{},\"auto\":{},\"local\":{},\"unsafe\":{},\"fundamental\":{},\"assoc\":{},\"fns\":{}}}", q(&k), tcx.trait_is_auto(t), t.is_local(), tcx.trait_def(t).safety.is_unsafe(), tcx.trait_def(t).is_fundamental, list(assoc), list(fns)));
            for i in tcx.all_impls(t) {
                let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                let mut tys = vec![];
                for a in tcx.associated_items(i).in_definition_order() {
                    if a.is_type() {
                        let of = match a.trait_item_def_id() {
                            Some(x) => d.key(x),
                            None => continue,
                        };
                        let ty = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                        tys.push(format!("[{},{}]", q(&of), d.ty(ty)));
                    }
                }
                impls.push(format!(
                    "{{\"id\":{},\"trait\":{},\"local\":{},\"expansion\":{},\"positive\":{},\"args\":{},\"generics\":{},\"preds\":{},\"assoc\":{}}}",
                    q(&d.key(i)),
                    q(&k),
                    i.is_local(),
                    tcx.def_span(i).from_expansion(),
                    tcx.impl_polarity(i) != ty::ImplPolarity::Negative,
                    d.args(tr.args),
                    d.generics(i),
                    d.preds(i),
                    list(tys)
                ));
            }
        }
        let mut adts = vec![];
        while let Some(k) = d.todo.pop_first() {
            d.seen.insert(k);
            let id = d.ids[&k];
            adts.push(d.adt(id));
        }
        let s = format!("{{\"adts\":{},\"traits\":{},\"impls\":{},\"fns\":{},\"mods\":{}}}", list(adts), list(trs), list(impls), list(fns), list(mods));
        std::fs::write(&self.out, s).unwrap();
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
