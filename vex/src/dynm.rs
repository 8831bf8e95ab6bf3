//! Trait objects of the user's target: an opaque struct per extension trait whose
//! methods record the call (arguments and result) in the target's history and
//! say nothing else about what the user's code does.
use crate::Res;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::*;

#[derive(Default)]
pub struct Model {
    pub events: Vec<String>,
    pub caps: BTreeSet<String>,
}

fn s<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// a type as the model writes it
pub fn ty(t: &Type) -> String {
    match t {
        Type::Reference(r) => {
            let l = r.lifetime.as_ref().map(|l| format!("{l} ")).unwrap_or_default();
            format!("&{l}{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty(&r.elem))
        }
        Type::Slice(x) => format!("[{}]", ty(&x.elem)),
        Type::Tuple(x) => format!("({})", x.elems.iter().map(|e| ty(e) + ",").collect::<String>()),
        Type::Path(p) => {
            let last = p.path.segments.last().unwrap();
            let n = last.ident.to_string();
            if p.qself.is_some() {
                // <Self::Arch as Arch>::Usize
                return format!("A{n}");
            }
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                return format!("Vx{n}");
            }
            let args: Vec<&GenericArgument> = match &last.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().collect(),
                _ => vec![],
            };
            let tyarg = |a: &&GenericArgument| match a {
                GenericArgument::Type(t) => Some(ty(t)),
                GenericArgument::Lifetime(l) => Some(l.to_string()),
                _ => None,
            };
            match n.as_str() {
                "TargetResult" => format!("Result<{}, TargetError<VxError>>", tyarg(&args[0]).unwrap()),
                "HostIoResult" => format!("Result<{}, HostIoError<VxError>>", tyarg(&args[0]).unwrap()),
                x if x.ends_with("Ops") => {
                    // XOps<'_, [Tid,] Self>
                    let g: Vec<String> = args.iter().filter_map(tyarg).filter(|x| x != "'_" && x != "Self").collect();
                    let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(",")) };
                    format!("&mut {}Dyn{}", &x[..x.len() - 3], g)
                }
                _ => {
                    let v: Vec<String> = args.iter().filter_map(tyarg).collect();
                    n + &(if v.is_empty() { String::new() } else { format!("<{}>", v.join(",")) })
                }
            }
        }
        t => s(t),
    }
}

/// (event field type, event field expression) of a parameter
fn ev(name: &str, t: &Type, tid: bool) -> (String, String) {
    let x = ty(t);
    match x.as_str() {
        "&[u8]" => ("Seq<u8>".into(), format!("{name}@")),
        "&mut [u8]" => ("Seq<u8>".into(), format!("final({name})@")),
        "Option<&[u8]>" => ("Option<Seq<u8>>".into(), format!("oview({name})")),
        "Tid" if tid => ("Option<int>".into(), format!("{name}.vx_tid()")),
        _ => match t {
            Type::Reference(r) if r.mutability.is_some() => (ty(&r.elem), format!("*final({name})")),
            Type::Reference(r) => (ty(&r.elem), format!("*{name}")),
            _ => (x, name.into()),
        },
    }
}

impl Model {
    pub fn gen(&mut self, t: &ItemTrait, stru: &str, skip: &[String], extra: &BTreeMap<String, String>) -> Res<String> {
        let tr = t.ident.to_string();
        let generic = t.generics.type_params().next().map(|g| g.ident.to_string());
        let (g, gi) = match &generic {
            Some(g) => (format!("<{g}>"), format!("<{g}: VxTid>")),
            None => Default::default(),
        };
        let mut o = String::new();
        let ph = generic.as_ref().map(|g| format!(", pub g: {g}")).unwrap_or_default();
        let _ = writeln!(o, "#[verifier::external_body]{}\npub struct {stru}{g} {{ pub _p: u8{ph} }}", if generic.is_some() { format!("\n#[verifier::reject_recursive_types({})]", generic.as_ref().unwrap()) } else { String::new() });
        let _ = writeln!(o, "impl{gi} {stru}{g} {{\n    pub uninterp spec fn view(&self) -> St;");
        let mut used = BTreeSet::new();
        for it in &t.items {
            let TraitItem::Fn(f) = it else { continue };
            let n = f.sig.ident.to_string();
            if skip.contains(&n) {
                used.insert(n);
                continue;
            }
            let params: Vec<(String, &Type)> = f.sig.inputs.iter().filter_map(|a| match a {
                FnArg::Typed(p) => Some((s(&p.pat), &*p.ty)),
                _ => None,
            }).collect();
            let ret = match &f.sig.output {
                ReturnType::Default => "()".to_string(),
                ReturnType::Type(_, t) => ty(t).replace("CallbackToken<'a>", "()"),
            };
            let more = extra.get(&n).cloned().unwrap_or_default();
            used.insert(n.clone());
            if n.starts_with("support_") {
                self.caps.insert(n.clone());
                let _ = writeln!(o, "    #[verifier::external_body]\n    pub fn {n}(&mut self) -> (r: {ret})\n        ensures r is Some <==> old(self)@.has.{n},\n            r is Some ==> (r->0)@ == old(self)@ && final(self)@ == final(r->0)@,\n            r is None ==> final(self)@ == old(self)@,\n{more}    {{ unimplemented!() }}");
                continue;
            }
            if ret == "bool" && params.is_empty() {
                self.caps.insert(n.clone());
                let _ = writeln!(o, "    #[verifier::external_body]\n    pub fn {n}(&self) -> (r: bool)\n        ensures r == self@.has.{n},\n{more}    {{ unimplemented!() }}");
                continue;
            }
            let mut sig = String::new();
            let mut et = vec![];
            let mut ex = vec![];
            let mut len = String::new();
            let mut cb = None;
            for (p, t) in &params {
                if let Type::Reference(r) = t {
                    if let Type::TraitObject(d) = &*r.elem {
                        // &mut dyn FnMut(X)
                        let TypeParamBound::Trait(b) = &d.bounds[0] else { return Err(format!("{tr}::{n}: {p}")) };
                        let PathArguments::Parenthesized(a) = &b.path.segments.last().unwrap().arguments else { return Err(format!("{tr}::{n}: {p}")) };
                        cb = Some(a.inputs.iter().map(ty).collect::<Vec<_>>().join(","));
                        continue;
                    }
                }
                if let Type::Path(q) = t {
                    // a wrapper around such a callback
                    let x = match q.path.segments.last().unwrap().ident.to_string().as_str() {
                        "ConsoleOutput" => Some("&'static [u8]"),
                        "Callback" => Some("Option<Register<'static>>"),
                        _ => None,
                    };
                    if let Some(x) = x {
                        cb = Some(x.to_string());
                        continue;
                    }
                }
                let _ = write!(sig, ", {p}: {}", ty(t));
                let (a, b) = ev(p, t, generic.is_some());
                if b == format!("final({p})@") {
                    let _ = writeln!(len, "            final({p})@.len() == old({p})@.len(),");
                }
                et.push(a);
                ex.push(b);
            }
            let out = match &cb {
                Some(x) => {
                    et.push(format!("Seq<{x}>"));
                    ex.push("r.all()".into());
                    ex.push("r.result()".into());
                    len.push_str("            r.pos() == 0,\n");
                    format!("VxCb<{x}, {ret}>")
                }
                None => {
                    ex.push("r".into());
                    ret.clone()
                }
            };
            et.push(ret);
            let e = format!("{tr}_{n}");
            let _ = writeln!(o, "    #[verifier::external_body]\n    pub fn {n}(&mut self{sig}) -> (r: {out})\n        ensures final(self)@ == old(self)@.did(Ev::{e}({})),\n{len}{more}    {{ unimplemented!() }}", ex.join(", "));
            self.events.push(format!("{e}({})", et.join(", ")));
        }
        for k in skip.iter().chain(extra.keys()) {
            if !used.contains(k) {
                return Err(format!("lost anchor: {tr}::{k}"));
            }
        }
        o.push_str("}\n");
        Ok(o)
    }
}

/// `crate::a::b::X` => `X`, `crate::a::Enum::Var` => `Enum::Var`
pub struct Flatten(pub usize);
impl visit_mut::VisitMut for Flatten {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let l = p.path.segments.last().unwrap();
            let n = l.ident.to_string();
            if n.ends_with("Ops") && n != "BaseOps" && n != "ResumeOps" && !n.starts_with("Reverse") && !l.arguments.is_empty() {
                // XOps<'_, T> => &mut XDyn
                let mut p = p.clone();
                p.qself = None;
                let l = p.path.segments.last_mut().unwrap();
                if let PathArguments::AngleBracketed(a) = &mut l.arguments {
                    a.args = a.args.iter().filter(|x| s(x) != "T").cloned().collect();
                }
                if let Ok(n) = parse_str::<Type>(&ty(&Type::Path(p))) {
                    *t = n;
                    self.0 += 1;
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.segments.len() > 1 && matches!(first.as_str(), "crate" | "super") {
            let v: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let lower = |s: &PathSegment| s.ident.to_string().starts_with(|c: char| c.is_lowercase());
            let k = v.iter().position(|s| !lower(s)).unwrap_or(v.len() - 1);
            p.leading_colon = None;
            p.segments = v[k..].iter().cloned().collect();
            self.0 += 1;
        }
    }
}
