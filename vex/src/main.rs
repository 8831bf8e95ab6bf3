//! vex: mechanical extraction of functions from /repo's current source into a
//! Verus file, splicing in contracts.  See /verif/DESIGN.md ("Extraction").
mod dynm;
mod inline;
mod print;
mod rewrite;

use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub type Res<T> = Result<T, String>;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    pub ats: BTreeMap<String, String>,
    pub opts: BTreeMap<String, String>,
    pub subst: Vec<(String, String)>,
    pub attrs: String,
}

struct Ctx {
    repo: String,
    files: BTreeMap<String, Vec<syn::Item>>,
    features: BTreeSet<String>,
    subst: Vec<(String, String)>,
    out: String,
    // string literals whose bytes are needed (opt lits)
    lits: Vec<String>,
    plain: bool,
    fns: Vec<String>,
    log: BTreeMap<String, usize>,
    // contract only: the body is proved in the named unit
    assume: Option<String>,
    structural: BTreeSet<String>,
    flatten: bool,
    model: dynm::Model,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn toks<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

impl Ctx {
    fn load(&mut self, file: &str) -> Res<()> {
        if self.files.contains_key(file) {
            return Ok(());
        }
        // the crate after macro expansion by rustc itself
        let p = match file {
            "@expanded" => std::env::var("VEX_EXPANDED").map_err(|_| "lost anchor: no expanded source")?,
            f => format!("{}/{}", self.repo, f),
        };
        let src = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: {p}: {e}"))?;
        let f = syn::parse_file(&src).map_err(|e| format!("cannot parse {p}: {e}"))?;
        let mut items = f.items;
        rewrite::cfg_items(&mut items, &self.features);
        inline::items(&mut items);
        self.files.insert(file.to_string(), items);
        Ok(())
    }

    /// `name = file!macro k=v ...`: expand one repetition of a macro_rules.
    fn load_macro(&mut self, name: &str, file: &str, mac: &str, subs: &[(String, String)]) -> Res<()> {
        self.load(file)?;
        let it = self.files[file]
            .iter()
            .find_map(|i| match i {
                syn::Item::Macro(m) if m.ident.as_ref().map_or(false, |x| x == mac) => Some(m),
                _ => None,
            })
            .ok_or(format!("lost anchor: macro {mac} in {file}"))?;
        let tts: Vec<TokenTree> = it.mac.tokens.clone().into_iter().collect();
        // ( pattern ) => { transcriber }
        let body = tts
            .iter()
            .filter_map(|t| match t {
                TokenTree::Group(g) => Some(g.stream()),
                _ => None,
            })
            .nth(1)
            .ok_or("macro shape")?;
        let body: Vec<TokenTree> = body.into_iter().collect();
        let inner = match body.as_slice() {
            [TokenTree::Punct(d), TokenTree::Group(g), ..] if d.as_char() == '$' => g.stream(),
            // one item, no repetition
            b => b.iter().cloned().collect(),
        };
        let inner = subst_dollar(inner, subs)?;
        let f: syn::File = syn::parse2(inner).map_err(|e| format!("macro {mac}: {e}"))?;
        let mut items = f.items;
        rewrite::cfg_items(&mut items, &self.features);
        self.files.insert(name.to_string(), items);
        Ok(())
    }

    fn find_item(&self, file: &str, path: &str) -> Res<syn::Item> {
        let (mods, name) = split_mods(path);
        let mut items: &Vec<syn::Item> = &self.files[file];
        for m in mods {
            items = items
                .iter()
                .find_map(|i| match i {
                    syn::Item::Mod(x) if x.ident == m => x.content.as_ref().map(|c| &c.1),
                    _ => None,
                })
                .ok_or(format!("lost anchor: mod {m} in {file}"))?;
        }
        items
            .iter()
            .find(|i| match i {
                syn::Item::Fn(x) => x.sig.ident == name,
                syn::Item::Struct(x) => x.ident == name,
                syn::Item::Enum(x) => x.ident == name,
                syn::Item::Const(x) => x.ident == name,
                syn::Item::Static(x) => x.ident == name,
                syn::Item::Type(x) => x.ident == name,
                syn::Item::Trait(x) => x.ident == name,
                _ => false,
            })
            .cloned()
            .ok_or(format!("lost anchor: item {path} in {file}"))
    }

    /// impl header (normalised text with generics removed from `impl<..>`), e.g.
    /// `TryFrom<&[u8]> for ThreadId`, or a type name prefix, e.g. `PacketBuf<'a>`.
    fn find_impls(&self, file: &str, path: &str) -> Res<Vec<syn::ItemImpl>> {
        let (mods, hdr) = split_mods(path);
        let want = norm(&hdr);
        let mut items: &Vec<syn::Item> = &self.files[file];
        for m in mods {
            items = items
                .iter()
                .find_map(|i| match i {
                    syn::Item::Mod(x) if x.ident == m => x.content.as_ref().map(|c| &c.1),
                    _ => None,
                })
                .ok_or(format!("lost anchor: mod {m} in {file}"))?;
        }
        let v: Vec<_> = items
            .iter()
            .filter_map(|i| match i {
                syn::Item::Impl(x) => {
                    let h = match &x.trait_ {
                        Some((_, p, _)) => format!("{}for{}", toks(p), toks(&x.self_ty)),
                        None => toks(&x.self_ty),
                    };
                    (h == want).then(|| x.clone())
                }
                _ => None,
            })
            .collect();
        if v.is_empty() {
            return Err(format!("lost anchor: impl {hdr} in {file}"));
        }
        Ok(v)
    }

    fn emit_fn(&mut self, who: &str, vis: &syn::Visibility, sig: &syn::Signature, block: &syn::Block, fs: &FnSpec) -> Res<()> {
        let mut sig = sig.clone();
        let mut block = block.clone();
        for (n, i) in sig.inputs.iter_mut().enumerate() {
            if let syn::FnArg::Typed(t) = i {
                if let syn::Pat::Wild(_) = *t.pat {
                    let id = quote::format_ident!("vx_p{n}");
                    *t.pat = syn::parse_quote!(#id);
                    *self.log.entry("parameter `_` named".into()).or_default() += 1;
                }
            }
        }
        if let Some(k) = fs.opts.get("closure") {
            // the K-th closure of the function, as a function of its own with the given signature
            let k: usize = k.parse().map_err(|_| "opt closure")?;
            let c = rewrite::nth_closure(&block, k).ok_or(format!("lost anchor: closure {k} of {who}"))?;
            let want: syn::Signature = syn::parse_str(fs.opts.get("sig").ok_or("opt sig")?).map_err(|e| format!("opt sig: {e}"))?;
            let body = &c.body;
            let names: Vec<_> = want.inputs.iter().filter_map(|i| match i { syn::FnArg::Typed(t) => Some(t.pat.clone()), _ => None }).collect();
            if names.len() != c.inputs.len() {
                return Err(format!("lost anchor: closure {k} of {who}: parameters"));
            }
            let binds = c.inputs.iter().zip(&names).filter(|(a, b)| toks(a) != toks(b)).map(|(a, b)| -> syn::Stmt { syn::parse_quote!(let #a = #b;) });
            block = syn::parse_quote!({ #(#binds)* #body });
            sig = want;
            *self.log.entry("closure extracted as a function of its own".into()).or_default() += 1;
        }
        for (key, l) in fs.opts.iter().filter(|(k, _)| k.starts_with("lift")) {
            // `X.map(<closure K>)` => `vx_map_NAME(X)`, the closure having been extracted as NAME
            let _ = key;
            let (k, name) = l.split_once(' ').ok_or("opt lift")?;
            let k: usize = k.trim().parse().map_err(|_| "opt lift")?;
            if !rewrite::lift(&mut block, k, name.trim()) {
                return Err(format!("lost anchor: {who}: X.map(closure {k})"));
            }
            *self.log.entry("X.map(closure) => vx_map_NAME(X), the closure extracted as NAME".into()).or_default() += 1;
        }
        let lm = inline::local_macros(&mut block)?;
        if lm > 0 && self.assume.is_none() {
            *self.log.entry("local macro_rules! expanded".into()).or_default() += lm;
        }
        if let Some(a) = fs.opts.get("arm") {
            // a match arm, as a function of its own with the given signature
            block = inline::arm_body(&block, a, fs.opts.get("tail").map(|t| t.as_str())).ok_or(format!("lost anchor: arm {a} of {who}"))?;
            sig = syn::parse_str(fs.opts.get("sig").ok_or("opt sig")?).map_err(|e| format!("opt sig: {e}"))?;
            *self.log.entry("match arm extracted as a function of its own".into()).or_default() += 1;
        }
        if let Some(l) = fs.opts.get("seg") {
            // a run of statements, as a function of its own with the given signature
            let (from, to) = l.split_once(" => ").ok_or("opt seg")?;
            let mut g = inline::Seg { from, to, new: None, got: None };
            syn::visit_mut::VisitMut::visit_block_mut(&mut g, &mut block);
            let v = g.got.ok_or(format!("lost anchor: statements {from} .. {to} of {who}"))?;
            block = match fs.opts.get("segret") {
                // falls through: Ok(what it changed); returns from the whole function: Err(its value)
                Some(x) => {
                    let x: syn::Expr = syn::parse_str(x).map_err(|e| format!("opt segret: {e}"))?;
                    let mut b: syn::Block = syn::parse_quote!({ #(#v)* });
                    syn::visit_mut::VisitMut::visit_block_mut(&mut inline::SegRet { q: fs.opts.contains_key("q") }, &mut b);
                    b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(Ok(#x)), None));
                    b
                }
                None => syn::parse_quote!({ #(#v)* Ok(()) }),
            };
            sig = syn::parse_str(fs.opts.get("sig").ok_or("opt sig")?).map_err(|e| format!("opt sig: {e}"))?;
            *self.log.entry("statements extracted as a function of their own".into()).or_default() += 1;
        }
        for (_, l) in fs.opts.iter().filter(|(k, _)| k.starts_with("cut") && k[3..].chars().all(|c| c.is_ascii_digit())) {
            // `S; ..` => `call?;`, the statements having been extracted (opt seg)
            let v: Vec<&str> = l.split(" => ").collect();
            let (from, to, call, var) = match v[..] {
                [from, to, call] => (from, to, call, None),
                [from, to, call, var] => (from, to, call, Some(syn::parse_str::<proc_macro2::TokenStream>(var.trim()).map_err(|e| format!("opt cut: {e}"))?)),
                _ => return Err("opt cut".into()),
            };
            let call: syn::Expr = syn::parse_str(call).map_err(|e| format!("opt cut: {e}"))?;
            let new: syn::Stmt = match var {
                // the extracted part may return from the whole function (opt segret)
                Some(x) if fs.opts.contains_key("segret") => syn::parse_quote!(#x = match #call { Ok(x) => x, Err(x) => return Err(x) };),
                Some(x) => syn::parse_quote!(#x = match #call { Ok(x) => x, Err(x) => return x };),
                None => syn::parse_quote!(#call?;),
            };
            let mut g = inline::Seg { from, to, new: Some(new), got: None };
            syn::visit_mut::VisitMut::visit_block_mut(&mut g, &mut block);
            g.got.ok_or(format!("lost anchor: statements {from} .. {to} of {who}"))?;
        }
        if let Some(k) = fs.opts.get("iife_fn") {
            // the K-th `(|| B)()`, as a function of its own with the given signature
            let k: usize = k.parse().map_err(|_| "opt iife_fn")?;
            block = inline::nth_iife(&mut block, k, None).ok_or(format!("lost anchor: immediately invoked closure {k} of {who}"))?;
            sig = syn::parse_str(fs.opts.get("sig").ok_or("opt sig")?).map_err(|e| format!("opt sig: {e}"))?;
            *self.log.entry("(|| { .. })() extracted as a function of its own".into()).or_default() += 1;
        }
        if let Some(l) = fs.opts.get("iife") {
            let (k, call) = l.split_once(" => ").ok_or("opt iife")?;
            let k: usize = k.trim().parse().map_err(|_| "opt iife")?;
            let call: syn::Expr = syn::parse_str(call).map_err(|e| format!("opt iife: {e}"))?;
            inline::nth_iife(&mut block, k, Some(call)).ok_or(format!("lost anchor: immediately invoked closure {k} of {who}"))?;
        }
        for (_, l) in fs.opts.iter().filter(|(k, _)| k.starts_with("call") && k[4..].chars().all(|c| c.is_ascii_digit())) {
            // `P => body` => `P => call?`, the body having been extracted (opt arm)
            let (a, call) = l.split_once(" => ").ok_or("opt call")?;
            inline::lift_arm(&mut block, a, call, fs.opts.get("tail").map(|t| t.as_str())).ok_or(format!("lost anchor: arm {a} of {who}"))?;
        }
        if let Some(t) = fs.opts.get("retty") {
            let t: syn::Type = syn::parse_str(t).map_err(|e| format!("opt retty: {e}"))?;
            sig.output = syn::parse_quote!(-> #t);
        }
        if self.assume.is_none() {
            let mut n = |k: &str, v: usize| {
                if v > 0 {
                    *self.log.entry(k.into()).or_default() += v;
                }
            };
            if let Some(l) = fs.opts.get("callbacks") {
                let l: Vec<String> = l.split(',').map(|x| x.trim().to_string()).collect();
                n("X.m(a, &mut |p| B) => loop over what m delivers", inline::callbacks(&mut block, &l));
            }
            n("(|| { .. })() => nested matches", inline::iife(&mut block)?);
            let mut o = inline::Opt { and_then: fs.opts.contains_key("and_then"), map: fs.opts.contains_key("map"), res: fs.opts.get("and_then").is_some_and(|v| v == "result"), hits: 0 };
            syn::visit_mut::VisitMut::visit_block_mut(&mut o, &mut block);
            n("Option map / and_then => match", o.hits);
            if fs.opts.contains_key("ref_pats") {
                let mut g = inline::RefPats(0);
                syn::visit_mut::VisitMut::visit_block_mut(&mut g, &mut block);
                n("match X.as_ref() { Some(&P) => .. } => match copy of X { Some(P) => .. }", g.0);
            }
            if fs.opts.contains_key("guards") {
                let mut g = inline::Guards(0);
                syn::visit_mut::VisitMut::visit_block_mut(&mut g, &mut block);
                n("match with effectful guards => if chain", g.0);
            }
            if fs.opts.contains_key("const_if") {
                let mut f = inline::ConstIf(0);
                syn::visit_mut::VisitMut::visit_block_mut(&mut f, &mut block);
                n("if true => its branch", f.0);
            }
            if fs.opts.contains_key("hoist_if") {
                let mut f = inline::HoistIf(0);
                syn::visit_mut::VisitMut::visit_block_mut(&mut f, &mut block);
                n("if match => let; if", f.0);
            }
            if fs.opts.contains_key("for_next") {
                let mut f = inline::ForNext(0);
                syn::visit_mut::VisitMut::visit_block_mut(&mut f, &mut block);
                n("for => loop over next()", f.0);
            }
            if fs.opts.contains_key("drop_items") {
                block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(_)));
            }
        }
        if self.flatten {
            let mut fl = dynm::Flatten(0);
            syn::visit_mut::VisitMut::visit_block_mut(&mut fl, &mut block);
            syn::visit_mut::VisitMut::visit_signature_mut(&mut fl, &mut sig);
        }
        let mut rw = rewrite::Rewriter::new(&self.features, &fs.opts);
        rw.run(&mut sig, &mut block)?;
        for (k, v) in &rw.log {
            *self.log.entry(k.clone()).or_default() += v;
        }
        if fs.opts.contains_key("q") {
            let mut q = inline::Q(0);
            syn::visit_mut::VisitMut::visit_block_mut(&mut q, &mut block);
            *self.log.entry("E? => match E { Ok(v) => v, Err(e) => return Err(From::from(e)) }".into()).or_default() += q.0;
        }
        if let Some(u) = &self.assume {
            block = syn::parse_quote!({ unimplemented!() });
            let _ = u;
        }
        let nloops = if self.assume.is_some() { 0 } else { rewrite::annotate(&mut block, fs)? };
        if let Some(want) = fs.opts.get("loops") {
            let want: usize = want.parse().map_err(|_| "opt loops")?;
            if want != nloops && self.assume.is_none() {
                return Err(format!("lost anchor: {who}: {nloops} loops, contract expects {want}"));
            }
        }
        if let Some(n) = fs.opts.get("rename") {
            sig.ident = syn::Ident::new(n, sig.ident.span());
        }
        let mut fs2;
        let mut fs = fs;
        if fs.opts.contains_key("lits") && self.assume.is_none() {
            // string literals are ASCII, and their bytes
            let mut l = inline::Lits::default();
            l.3 = fs.opts["lits"] == "bytes";
            self.plain |= !l.3;
            syn::visit::Visit::visit_block(&mut l, &block);
            fs2 = fs.clone();
            let h: String = l.0.iter().map(|x| {
                let i = self.lits.iter().position(|y| y == x).unwrap_or_else(|| {
                    self.lits.push(x.clone());
                    self.lits.len() - 1
                });
                format!("    crate::vx_lit_{i}();\n")
            }).collect();
            let h = l.2.iter().fold(h, |h, v| {
                let t = String::from_utf8(v.clone()).unwrap();
                let c: Vec<String> = v.iter().enumerate().map(|(i, x)| format!("vx_a[{i}] == {x}u8")).collect();
                format!("{h}    reveal_strlit({t:?}); assert forall|vx_a: Seq<u8>| #![trigger vx_a.len()] vx_a.len() == {} && {} implies vx_a == ascii({t:?}@) by {{ assert(vx_a =~= ascii({t:?}@)); }}\n", v.len(), c.join(" && "))
            });
            let had = fs.ats.contains_key("start");
            let e = fs2.ats.entry("start".into()).or_default();
            *e = format!("    proof {{\n{h}    }}\n{e}");
            fs = &fs2;
            if !had {
                block.stmts.insert(0, syn::parse_quote!(__vx_at!("start");));
            }
        }
        let mut t = String::new();
        if let Some(u) = &self.assume {
            let _ = writeln!(t, "#[verifier::external_body] /* proved in unit {u} */");
        }
        for m in fs.attrs.lines() {
            let _ = writeln!(t, "{m}");
        }
        let vis = if fs.opts.contains_key("novis") { String::new() } else {
            let s = vis.to_token_stream().to_string();
            if s.is_empty() || fs.opts.contains_key("keepvis") { s } else { "pub".into() }
        };
        let _ = write!(t, "{} ", vis);
        if sig.unsafety.is_some() {
            t.push_str("unsafe ");
        }
        let g = &sig.generics;
        let mut gen = String::new();
        if let Some(over) = fs.opts.get("generics") {
            gen = over.clone();
        } else if !g.params.is_empty() {
            gen = format!("<{}>", g.params.to_token_stream());
        }
        let _ = write!(t, "fn {}{}(", sig.ident, gen);
        let _ = write!(t, "{})", sig.inputs.to_token_stream());
        match &sig.output {
            syn::ReturnType::Default => {}
            syn::ReturnType::Type(_, ty) => {
                let r = fs.ret.clone().unwrap_or("ret".into());
                let _ = write!(t, " -> ({r}: {})", ty.to_token_stream());
            }
        }
        if let Some(w) = &g.where_clause {
            if !fs.opts.contains_key("nowhere") {
                let _ = write!(t, " {}", w.to_token_stream());
            }
        }
        t.push('\n');
        t.push_str(&fs.spec);
        t.push('\n');
        t.push_str(&print::print(block.to_token_stream(), fs));
        t.push('\n');
        let mut t2 = t;
        for (a, b) in self.subst.iter().chain(fs.subst.iter()) {
            let (n, c) = print::subst(&t2, a, b);
            if c > 0 {
                *self.log.entry(format!("subst `{a}` => `{b}`")).or_default() += c;
            }
            t2 = n;
        }
        let start = self.out.lines().count() + 1;
        self.out.push_str(&t2);
        if self.assume.is_some() {
            return Ok(());
        }
        let end = self.out.lines().count();
        self.fns.push(format!(
            "{{\"fn\":{:?},\"start\":{},\"end\":{},\"hash\":\"{:x}\"}}",
            who,
            start,
            end,
            fnv(&norm(&(sig.to_token_stream().to_string() + &block.to_token_stream().to_string())))
        ));
        Ok(())
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn split_mods(path: &str) -> (Vec<String>, String) {
    // leading `mod a / mod b / name`
    let mut parts: Vec<String> = path.split(" / ").map(|s| s.trim().to_string()).collect();
    let last = parts.pop().unwrap();
    (parts.into_iter().map(|p| p.trim_start_matches("mod ").to_string()).collect(), last)
}

fn subst_dollar(ts: TokenStream, subs: &[(String, String)]) -> Res<TokenStream> {
    let mut out: Vec<TokenTree> = vec![];
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let id = match v.get(i + 1) {
                    Some(TokenTree::Ident(id)) => id.to_string(),
                    _ => return Err("macro: nested repetition".into()),
                };
                let (_, r) = subs.iter().find(|(k, _)| *k == id).ok_or(format!("macro: unknown ${id}"))?;
                let r: TokenStream = r.parse().map_err(|_| "macro sub")?;
                out.extend(r);
                i += 2;
                continue;
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_dollar(g.stream(), subs)?);
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Ok(out.into_iter().collect())
}

fn const_int(e: &syn::Expr) -> Res<u128> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(n) => n.base10_parse().map_err(|e| e.to_string()),
            _ => Err("bitflags: literal".into()),
        },
        syn::Expr::Paren(p) => const_int(&p.expr),
        syn::Expr::Binary(b) => {
            let (x, y) = (const_int(&b.left)?, const_int(&b.right)?);
            match b.op {
                syn::BinOp::Shl(_) => Ok(x << y),
                syn::BinOp::BitOr(_) => Ok(x | y),
                _ => Err("bitflags: operator".into()),
            }
        }
        _ => Err("bitflags: expression".into()),
    }
}

fn bitflags(items: &[syn::Item], name: &str) -> Res<(String, Vec<(String, u128)>)> {
    for it in items {
        let syn::Item::Macro(m) = it else { continue };
        if !m.mac.path.segments.last().map_or(false, |s| s.ident == "bitflags") {
            continue;
        }
        let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let Some(k) = v.iter().position(|t| matches!(t, TokenTree::Ident(i) if *i == name)) else { continue };
        let ty = v.get(k + 2).map(|t| t.to_string()).ok_or("bitflags shape")?;
        let Some(TokenTree::Group(g)) = v.get(k + 3) else { return Err("bitflags shape".into()) };
        let mut all = vec![];
        let mut cur: Vec<TokenTree> = vec![];
        for t in g.stream() {
            if matches!(&t, TokenTree::Punct(p) if p.as_char() == ';') {
                let c = cur.iter().rposition(|t| matches!(t, TokenTree::Ident(i) if *i == "const")).ok_or("bitflags shape")?;
                let ex: TokenStream = cur[c + 3..].iter().cloned().collect();
                let e: syn::Expr = syn::parse2(ex).map_err(|e| format!("bitflags: {e}"))?;
                all.push((cur[c + 1].to_string(), const_int(&e)?));
                cur.clear();
            } else {
                cur.push(t);
            }
        }
        return Ok((ty, all));
    }
    Err(format!("lost anchor: bitflags {name}"))
}

/// `//@ each A B = x y ; z w` ... `//@ endeach`: the lines between, once per tuple, `@A@` replaced.
fn each(t: &str) -> Res<String> {
    let mut o = String::new();
    let ls: Vec<&str> = t.lines().collect();
    let mut i = 0;
    while i < ls.len() {
        let Some(d) = ls[i].trim_start().strip_prefix("//@ each ") else {
            o.push_str(ls[i]);
            o.push('\n');
            i += 1;
            continue;
        };
        let (names, vals) = d.split_once('=').ok_or("each")?;
        let names: Vec<&str> = names.split_whitespace().collect();
        let end = (i..ls.len()).find(|k| ls[*k].trim() == "//@ endeach").ok_or("unterminated each")?;
        let body = ls[i + 1..end].join("\n") + "\n";
        for v in vals.split(';') {
            let mut b = body.clone();
            for (n, x) in names.iter().zip(v.split_whitespace()) {
                b = b.replace(&format!("@{n}@"), &x.replace("_[", " [").replace("a_mut ", "a mut "));
            }
            o.push_str(&b);
        }
        i = end + 1;
    }
    Ok(o)
}

fn run() -> Res<()> {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        return Err("usage: vex REPO UNIT.vx OUT.rs [features,..]".into());
    }
    let unit = std::fs::read_to_string(&a[2]).map_err(|e| format!("{}: {e}", a[2]))?;
    let mut c = Ctx {
        repo: a[1].clone(),
        files: BTreeMap::new(),
        features: a.get(4).map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default(),
        subst: vec![],
        out: String::new(),
        lits: vec![],
        plain: false,
        fns: vec![],
        log: BTreeMap::new(),
        assume: None,
        structural: BTreeSet::new(),
        flatten: false,
        model: Default::default(),
    };
    let dir = std::path::Path::new(&a[2]).parent().map(|p| p.to_path_buf()).unwrap_or_default();
    fn include(dir: &std::path::Path, t: &str) -> Res<String> {
        let mut o = String::new();
        for l in t.lines() {
            if let Some(p) = l.trim_start().strip_prefix("//@ include ") {
                let p = dir.join(p.trim());
                let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
                o.push_str(&include(dir, &t)?);
            } else {
                o.push_str(l);
                o.push('\n');
            }
        }
        Ok(o)
    }
    let unit = each(&include(&dir, &unit)?)?;
    let lines: Vec<&str> = unit.lines().collect();
    let mut i = 0;
    // inside `//@ impl`: the matching impls
    let mut cur: Option<(String, Vec<syn::ItemImpl>)> = None;
    while i < lines.len() {
        let l = lines[i];
        let Some(d) = l.trim_start().strip_prefix("//@ ") else {
            c.out.push_str(l);
            c.out.push('\n');
            i += 1;
            continue;
        };
        let d = d.trim();
        let (kw, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim();
        match kw {
            "file" => {
                // //@ file alias = path   |   //@ file alias = path!macro k=v
                let (al, p) = rest.split_once('=').ok_or("file directive")?;
                let (al, p) = (al.trim(), p.trim());
                let mut ws = p.split_whitespace();
                let p = ws.next().unwrap();
                if let Some((f, m)) = p.split_once('!') {
                    let subs: Vec<(String, String)> =
                        ws.filter_map(|w| w.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
                    c.load_macro(al, f, m, &subs)?;
                } else {
                    c.load(p)?;
                    let v = c.files[p].clone();
                    c.files.insert(al.to_string(), v);
                }
                i += 1;
            }
            // //@ inner alias = file HEADER :: fn     (items declared inside a method)
            "inner" => {
                let (al, p) = rest.split_once('=').ok_or("inner directive")?;
                let (f, p) = p.trim().split_once(' ').ok_or("inner directive")?;
                let (h, n) = p.rsplit_once("::").ok_or("inner directive")?;
                if !c.files.contains_key(f) {
                    c.load(f)?;
                }
                let its: Vec<syn::Item> = c
                    .find_impls(f, h.trim())?
                    .into_iter()
                    .flat_map(|x| x.items)
                    .find_map(|x| match x {
                        syn::ImplItem::Fn(x) if x.sig.ident == n.trim() => Some(x),
                        _ => None,
                    })
                    .ok_or(format!("lost anchor: {p} in {f}"))?
                    .block
                    .stmts
                    .into_iter()
                    .filter_map(|s| match s {
                        syn::Stmt::Item(i) => Some(i),
                        _ => None,
                    })
                    .collect();
                c.files.insert(al.trim().to_string(), its);
                i += 1;
            }
            "flatten" => {
                c.flatten = true;
                i += 1;
            }
            // //@ dyn file Trait ==> Struct [skip a b]   followed by `//@ method m` blocks, `//@ enddyn`
            "dyn" => {
                let (f, p) = rest.split_once(' ').ok_or("dyn")?;
                let (p, skip) = p.split_once(" skip ").unwrap_or((p, ""));
                let (tr, st) = p.split_once("==>").ok_or("dyn")?;
                if !c.files.contains_key(f) {
                    c.load(f)?;
                }
                let skip: Vec<String> = skip.split_whitespace().map(String::from).collect();
                let syn::Item::Trait(t) = c.find_item(f, tr.trim())? else { return Err(format!("lost anchor: trait {tr}")) };
                let mut extra = BTreeMap::new();
                let mut key = String::new();
                i += 1;
                while let Some(l) = lines.get(i) {
                    i += 1;
                    match l.trim_start().strip_prefix("//@ ") {
                        Some("enddyn") => break,
                        Some(d) => {
                            key = d.strip_prefix("method ").ok_or("dyn method")?.trim().to_string();
                            extra.insert(key.clone(), String::new());
                        }
                        None => {
                            let e = extra.get_mut(&key).ok_or("dyn method")?;
                            e.push_str(l);
                            e.push('\n');
                        }
                    }
                }
                let t = c.model.gen(&t, st.trim(), &skip, &extra)?;
                c.out.push_str(&t);
            }
            // the events and capabilities the `dyn` traits gave rise to, plus the listed ones
            "dynend" => {
                let mut ev = c.model.events.clone();
                i += 1;
                while let Some(l) = lines.get(i) {
                    i += 1;
                    if l.trim() == "//@ enddynend" {
                        break;
                    }
                    ev.push(l.trim().trim_end_matches(',').to_string());
                }
                let caps: String = c.model.caps.iter().map(|x| format!("    pub {x}: bool,\n")).collect();
                let _ = writeln!(c.out, "pub ghost struct Caps {{\n{caps}    pub multi: bool,\n}}\npub ghost enum Ev {{\n    {}\n}}", ev.join(",\n    "));
            }
            "subst" => {
                let (x, y) = rest.split_once("=>").ok_or("subst")?;
                c.subst.push((x.trim().into(), y.trim().into()));
                i += 1;
            }
            "item" => {
                let (f, p) = rest.split_once(' ').ok_or("item")?;
                let f2 = f.to_string();
                if !c.files.contains_key(f) {
                    c.load(f)?;
                }
                let mut it = c.find_item(&f2, p.trim())?;
                if c.flatten {
                    syn::visit_mut::VisitMut::visit_item_mut(&mut dynm::Flatten(0), &mut it);
                }
                let at: &[syn::Attribute] = match &it {
                    syn::Item::Struct(x) => &x.attrs,
                    syn::Item::Enum(x) => &x.attrs,
                    _ => &[],
                };
                let derives = |d: &str| at.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == d));
                if derives("Copy") {
                    c.out.push_str("#[derive(Clone, Copy)]\n");
                }
                let eq = derives("PartialEq");
                rewrite::strip_item(&mut it, &c.features);
                // a derived `==` over plain fields is structural equality
                if eq {
                    let ok = |fs: &syn::Fields| fs.iter().all(|f| {
                        let t = f.ty.to_token_stream().to_string();
                        matches!(t.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool" | "char" | "NonZeroUsize" | "core :: num :: NonZeroUsize" | "Tid" | "Pid")
                            || c.structural.contains(&t)
                    });
                    let (id, plain) = match &it {
                        syn::Item::Struct(x) => (x.ident.to_string(), x.generics.params.is_empty() && ok(&x.fields)),
                        syn::Item::Enum(x) => (x.ident.to_string(), x.generics.params.is_empty() && x.variants.iter().all(|v| ok(&v.fields))),
                        _ => (String::new(), false),
                    };
                    if plain {
                        c.out.push_str("#[derive(PartialEq, Eq, Structural)]\n");
                        c.structural.insert(id);
                    }
                }
                let mut t = print::print(it.to_token_stream(), &FnSpec::default());
                for (a, b) in c.subst.iter() {
                    t = print::subst(&t, a, b).0;
                }
                // privacy is irrelevant to the proof; open fields up for specs
                c.out.push_str(&t);
                c.out.push('\n');
                i += 1;
            }
            // `bitflags! { impl NAME: T {..} }`: `from_bits` / `bits` as the macro
            // defines them (no unknown bit), over the flags the source lists
            "bitflags" => {
                let (f, n) = rest.split_once(' ').ok_or("bitflags")?;
                if !c.files.contains_key(f) {
                    c.load(f)?;
                }
                let (ty, fl) = bitflags(&c.files[f], n.trim())?;
                let n = n.trim();
                let all = fl.iter().fold(0, |a, (_, v)| a | v);
                let consts: String = fl.iter().filter(|(k, _)| k != "_").map(|(k, v)| format!(" pub const {k}: {n} = {n}({v:#x});\n")).collect();
                let _ = writeln!(c.out, "#[derive(Clone, Copy)]\npub struct {n}(pub {ty});\nimpl {n} {{\n{consts} pub open spec fn vbits(&self) -> {ty} {{ self.0 }}\n pub fn from_bits(b: {ty}) -> (r: Option<{n}>)\n  ensures b & !{all:#x}{ty} == 0 ==> r is Some && r->0.vbits() == b, b & !{all:#x}{ty} != 0 ==> r is None,\n {{ if b & !{all:#x}{ty} == 0 {{ Some({n}(b)) }} else {{ None }} }}\n pub fn bits(&self) -> (r: {ty}) ensures r == self.vbits() {{ self.0 }}\n pub fn empty() -> (r: {n}) ensures r.vbits() == 0 {{ {n}(0) }}\n pub open spec fn has(&self, f: {n}) -> bool {{ self.0 & f.0 == f.0 }}\n pub fn contains(&self, f: {n}) -> (r: bool) ensures r == self.has(f) {{ self.0 & f.0 == f.0 }}\n pub fn set(&mut self, f: {n}, v: bool) ensures final(self).vbits() == (if v {{ old(self).0 | f.0 }} else {{ old(self).0 & !f.0 }}) {{ if v {{ self.0 = self.0 | f.0; }} else {{ self.0 = self.0 & !f.0; }} }}\n}}");
                i += 1;
            }
            "impl" => {
                // //@ impl file header   [hdr: replacement header]
                let (f, h) = rest.split_once(' ').ok_or("impl")?;
                if !c.files.contains_key(f) {
                    c.load(f)?;
                }
                let (h, over) = match h.split_once(" ==> ") {
                    Some((a, b)) => (a, Some(b)),
                    None => (h, None),
                };
                let im = c.find_impls(f, h)?;
                let x = &im[0];
                let mut hdr = match over {
                    Some(o) => o.to_string(),
                    None => {
                        let g = &x.generics;
                        let mut s = String::from("impl");
                        if !g.params.is_empty() {
                            let _ = write!(s, "<{}>", g.params.to_token_stream());
                        }
                        if let Some((_, p, _)) = &x.trait_ {
                            let _ = write!(s, " {} for", p.to_token_stream());
                        }
                        let _ = write!(s, " {}", x.self_ty.to_token_stream());
                        if let Some(w) = &g.where_clause {
                            let _ = write!(s, " {}", w.to_token_stream());
                        }
                        s
                    }
                };
                for (a, b) in c.subst.iter() {
                    hdr = print::subst(&hdr, a, b).0;
                }
                let _ = writeln!(c.out, "{hdr} {{");
                if over.is_none() {
                    for it in &x.items {
                        if let syn::ImplItem::Type(t) = it {
                            let mut t = t.clone();
                            t.attrs.clear();
                            let _ = writeln!(c.out, "{}", t.to_token_stream());
                        }
                    }
                }
                cur = Some((format!("{f}::<{h}>"), im));
                i += 1;
            }
            // `assume UNIT` ... `assume -`: contracts only in between
            "assume" => {
                c.assume = (rest != "-").then(|| rest.to_string());
                i += 1;
            }
            // dropped while assuming
            "proofonly" => {
                i += 1;
                if c.assume.is_some() {
                    while lines.get(i).map_or(false, |l| l.trim() != "//@ endproofonly") {
                        i += 1;
                    }
                }
            }
            "endproofonly" => i += 1,
            // next definition: opaque where only the contracts are used
            "opaque" => {
                if c.assume.is_some() {
                    let _ = writeln!(c.out, "#[verifier::opaque]");
                }
                i += 1;
            }
            // an associated constant of the current impl
            "const" => {
                let im = &cur.as_ref().ok_or("const outside impl")?.1;
                // `const *`: every constant of the impl
                let ks: Vec<syn::ImplItemConst> = im.iter().flat_map(|x| &x.items).filter_map(|x| match x {
                    syn::ImplItem::Const(k) if rest.trim() == "*" || k.ident == rest.trim() => Some(k.clone()),
                    _ => None,
                }).collect();
                if ks.is_empty() {
                    return Err(format!("lost anchor: const {rest}"));
                }
                for mut k in ks {
                    k.attrs.clear();
                    let _ = writeln!(c.out, "{}", k.to_token_stream());
                    if rest.trim() != "*" {
                        break;
                    }
                }
                i += 1;
            }
            "endimpl" => {
                c.out.push_str("}\n");
                cur = None;
                i += 1;
            }
            "fn" => {
                let mut fs = FnSpec::default();
                let mut sect: Option<String> = None;
                i += 1;
                loop {
                    let Some(l) = lines.get(i) else { return Err(format!("unterminated fn {rest}")) };
                    i += 1;
                    if let Some(d) = l.trim_start().strip_prefix("//@ ") {
                        let d = d.trim();
                        let (kw, r) = d.split_once(' ').unwrap_or((d, ""));
                        let r = r.trim();
                        sect = None;
                        match kw {
                            "end" => break,
                            "ret" => fs.ret = Some(r.into()),
                            "opt" => {
                                let (k, v) = r.split_once('=').unwrap_or((r, ""));
                                fs.opts.insert(k.trim().into(), v.trim().into());
                            }
                            "subst" => {
                                let (x, y) = r.split_once("=>").ok_or("subst")?;
                                fs.subst.push((x.trim().into(), y.trim().into()));
                            }
                            "attr" => {
                                fs.attrs.push_str(r);
                                fs.attrs.push('\n');
                            }
                            "spec" => sect = Some("spec".into()),
                            "loop" => {
                                let mut w = r.split_whitespace();
                                let n: usize = w.next().and_then(|x| x.parse().ok()).ok_or("loop n")?;
                                let it = w.next().map(String::from);
                                fs.loops.insert(n, (it, String::new()));
                                sect = Some(format!("loop {n}"));
                            }
                            "at" => {
                                fs.ats.insert(r.into(), String::new());
                                sect = Some(format!("at {r}"));
                            }
                            _ => return Err(format!("unknown directive {kw}")),
                        }
                        continue;
                    }
                    match sect.as_deref() {
                        Some("spec") => {
                            fs.spec.push_str(l);
                            fs.spec.push('\n');
                        }
                        Some(s) if s.starts_with("loop ") => {
                            let n: usize = s[5..].parse().unwrap();
                            let e = fs.loops.get_mut(&n).unwrap();
                            e.1.push_str(l);
                            e.1.push('\n');
                        }
                        Some(s) => {
                            let e = fs.ats.get_mut(&s[3..]).unwrap();
                            e.push_str(l);
                            e.push('\n');
                        }
                        None => {}
                    }
                }
                if let Some((who, ims)) = &cur {
                    let (who, ims) = (who.clone(), ims.clone());
                    let f = ims
                        .iter()
                        .flat_map(|x| x.items.iter())
                        .find_map(|it| match it {
                            syn::ImplItem::Fn(f) if f.sig.ident == rest => Some(f.clone()),
                            _ => None,
                        });
                    let f = match (f, fs.opts.get("default")) {
                        (Some(f), _) => f,
                        // not overridden: what runs is the trait's default
                        (None, Some(d)) => {
                            let (tf, tr) = d.split_once(' ').ok_or("opt default")?;
                            c.load(tf)?;
                            let syn::Item::Trait(t) = c.find_item(tf, tr.trim())? else { return Err(format!("lost anchor: trait {tr}")) };
                            let m = t.items.iter().find_map(|it| match it {
                                syn::TraitItem::Fn(m) if m.sig.ident == rest => Some(m.clone()),
                                _ => None,
                            });
                            let m = m.ok_or(format!("lost anchor: method {rest} in {who}"))?;
                            let block = m.default.ok_or(format!("lost anchor: method {rest} in {who}"))?;
                            *c.log.entry("method not overridden: the trait's default extracted".into()).or_default() += 1;
                            syn::ImplItemFn { attrs: m.attrs, vis: syn::Visibility::Inherited, defaultness: None, sig: m.sig, block }
                        }
                        (None, None) => return Err(format!("lost anchor: method {rest} in {who}")),
                    };
                    c.emit_fn(&format!("{who}::{rest}"), &f.vis, &f.sig, &f.block, &fs)?;
                } else {
                    let (file, p) = rest.split_once(' ').ok_or("fn file path")?;
                    if !c.files.contains_key(file) {
                        c.load(file)?;
                    }
                    match c.find_item(file, p.trim())? {
                        syn::Item::Fn(f) => c.emit_fn(&format!("{file}::{p}"), &f.vis, &f.sig, &f.block, &fs)?,
                        _ => return Err(format!("lost anchor: {p} is not a fn")),
                    }
                }
            }
            _ => return Err(format!("unknown directive: {d}")),
        }
    }
    for (i, x) in c.lits.iter().enumerate() {
        let n = syn::parse_str::<syn::LitStr>(x).map_err(|e| e.to_string())?.value().len();
        let _ = writeln!(c.out, "pub proof fn vx_lit_{i}() ensures {x}.spec_bytes() == ascii({x}@), ascii({x}@).len() == {n}{} {{ {} reveal_strlit({x}); lemma_ascii({x}); }}", if c.plain { format!(", plain(ascii({x}@))") } else { String::new() }, if c.plain { "reveal(plain);" } else { "" });
    }
    std::fs::write(&a[3], &c.out).map_err(|e| e.to_string())?;
    let log: Vec<String> = c.log.iter().map(|(k, v)| format!("{k:?}:{v}")).collect();
    println!("{{\"fns\":[{}],\"rewrites\":{{{}}}}}", c.fns.join(","), log.join(","));
    Ok(())
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vex: {e}");
        std::process::exit(3);
    }
}
