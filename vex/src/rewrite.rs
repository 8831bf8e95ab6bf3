//! The mechanical rewrites applied to extracted text (all counted in evidence).
use crate::{norm, FnSpec, Res};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse_quote;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- cfg / attrs
fn cfg_ok(attrs: &[Attribute], feats: &BTreeSet<String>) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        match &a.meta {
            Meta::List(l) => eval_cfg(&l.tokens.to_string(), feats),
            _ => true,
        }
    })
}

fn eval_cfg(s: &str, feats: &BTreeSet<String>) -> bool {
    let s = norm(s);
    fn args(s: &str) -> Vec<String> {
        let (mut d, mut cur, mut v) = (0, String::new(), vec![]);
        for c in s.chars() {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                ',' if d == 0 => {
                    v.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
            cur.push(c);
        }
        if !cur.is_empty() {
            v.push(cur);
        }
        v
    }
    if let Some(x) = s.strip_prefix("not(").and_then(|x| x.strip_suffix(')')) {
        return !eval_cfg(x, feats);
    }
    if let Some(x) = s.strip_prefix("any(").and_then(|x| x.strip_suffix(')')) {
        return args(x).iter().any(|a| eval_cfg(a, feats));
    }
    if let Some(x) = s.strip_prefix("all(").and_then(|x| x.strip_suffix(')')) {
        return args(x).iter().all(|a| eval_cfg(a, feats));
    }
    if let Some(x) = s.strip_prefix("feature=\"").and_then(|x| x.strip_suffix('"')) {
        return feats.contains(x);
    }
    false // test, kani, gdbstub_verif, ...
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

pub fn cfg_items(items: &mut Vec<Item>, feats: &BTreeSet<String>) {
    items.retain(|i| cfg_ok(item_attrs(i), feats));
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, c)) = &mut m.content {
                    cfg_items(c, feats)
                }
            }
            Item::Impl(im) => im.items.retain(|x| match x {
                ImplItem::Fn(f) => cfg_ok(&f.attrs, feats),
                ImplItem::Const(f) => cfg_ok(&f.attrs, feats),
                _ => true,
            }),
            _ => {}
        }
    }
}

struct Strip<'a>(&'a BTreeSet<String>, bool);
impl VisitMut for Strip<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        f.named = f.named.clone().into_iter().filter(|x| cfg_ok(&x.attrs, self.0)).collect();
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        e.variants = e.variants.clone().into_iter().filter(|x| cfg_ok(&x.attrs, self.0)).collect();
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        e.fields = e.fields.clone().into_iter().filter(|x| cfg_ok(&x.attrs, self.0)).collect();
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        e.arms.retain(|x| cfg_ok(&x.attrs, self.0));
        visit_mut::visit_expr_match_mut(self, e);
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        if self.1 {
            *v = parse_quote!(pub);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => cfg_ok(&l.attrs, self.0),
            Stmt::Item(i) => cfg_ok(item_attrs(i), self.0),
            Stmt::Expr(e, _) => expr_cfg_ok(e, self.0),
            Stmt::Macro(m) => cfg_ok(&m.attrs, self.0),
        });
        visit_mut::visit_block_mut(self, b);
    }
}

fn expr_cfg_ok(e: &Expr, f: &BTreeSet<String>) -> bool {
    let a: &[Attribute] = match e {
        Expr::Unsafe(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Reference(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Path(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        _ => &[],
    };
    cfg_ok(a, f)
}

pub fn strip_item(i: &mut Item, f: &BTreeSet<String>) {
    // enum variants take no `pub`
    if let Item::Enum(e) = i {
        Strip(f, true).visit_item_enum_mut(e);
        for v in e.variants.iter_mut() {
            for fl in v.fields.iter_mut() {
                fl.vis = Visibility::Inherited;
            }
        }
        return;
    }
    Strip(f, true).visit_item_mut(i);
    if let Item::Trait(_) = i {}
}

// ------------------------------------------------------------------- rewriter
pub struct Rewriter {
    feats: BTreeSet<String>,
    opts: BTreeMap<String, String>,
    pub log: BTreeMap<String, usize>,
    n: usize,
    err: Option<String>,
}

const LOGS: &[&str] = &["trace", "debug", "info", "warn", "error", "__dead_code_marker"];

impl Rewriter {
    pub fn new(f: &BTreeSet<String>, opts: &BTreeMap<String, String>) -> Self {
        Rewriter { feats: f.clone(), opts: opts.clone(), log: Default::default(), n: 0, err: None }
    }
    fn hit(&mut self, k: &str) {
        *self.log.entry(k.into()).or_default() += 1;
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("vx_{}{}", p, self.n)
    }
    pub fn run(&mut self, sig: &mut Signature, b: &mut Block) -> Res<()> {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                struct S;
                impl VisitMut for S {
                    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                        if p.path.is_ident("self") {
                            *p = parse_quote!(vx_self);
                        }
                    }
                }
                S.visit_block_mut(b);
                b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
                self.hit("`mut self` parameter => let mut vx_self = self");
            }
        }
        let feats = self.feats.clone();
        Strip(&feats, false).visit_signature_mut(sig);
        Strip(&feats, false).visit_block_mut(b);
        // `mut self` parameters: Verus takes them, nothing to do
        tail_break(b, self);
        self.visit_block_mut(b);
        match self.err.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }

    fn for_chain(&mut self, f: &mut ExprForLoop) -> Vec<Stmt> {
        // peel adaptors off the iterated expression
        let mut pre: Vec<Stmt> = vec![];
        loop {
            let mc = match &*f.expr {
                Expr::MethodCall(m) => m.clone(),
                _ => break,
            };
            let name = mc.method.to_string();
            match name.as_str() {
                "copied" | "cloned" if is_iter_chain(&mc.receiver) => {
                    let p = f.pat.clone();
                    *f.pat = parse_quote!(& #p);
                    *f.expr = (*mc.receiver).clone();
                    self.hit("for PAT in X.copied() => for &PAT in X");
                }
                "skip_while" => {
                    let cl = match mc.args.first() {
                        Some(Expr::Closure(c)) if c.inputs.len() == 1 => c.clone(),
                        _ => break,
                    };
                    let cp = match &cl.inputs[0] {
                        Pat::Reference(r) => (*r.pat).clone(),
                        _ => break,
                    };
                    let flag = self.fresh("skip");
                    let v = self.fresh("e");
                    let p = f.pat.clone();
                    let cb = &cl.body;
                    let body = f.body.clone();
                    // at this point the element type is by value
                    *f.pat = parse_quote!(#v);
                    let st = &body.stmts;
                    f.body = parse_quote!({
                        let #p = #v;
                        if !#flag || !{ let #cp = #v; #cb } {
                            #flag = false;
                            #(#st)*
                        }
                    });
                    pre.push(parse_quote!(let mut #flag = true;));
                    *f.expr = (*mc.receiver).clone();
                    self.hit("for PAT in X.skip_while(P) => flag variable");
                }
                "rev" => {
                    // X.iter().rev() / X.iter().copied().rev()
                    let (inner, by_val) = match &*mc.receiver {
                        Expr::MethodCall(m) if m.method == "copied" => ((*m.receiver).clone(), true),
                        e => (e.clone(), false),
                    };
                    let x = match &inner {
                        Expr::MethodCall(m) if m.method == "iter" => (*m.receiver).clone(),
                        _ => break,
                    };
                    let i = self.fresh("i");
                    let p = f.pat.clone();
                    let body = f.body.clone();
                    *f.pat = parse_quote!(#i);
                    *f.expr = parse_quote!(0..#x.len());
                    f.body = if by_val {
                        parse_quote!({ let #p = #x[#x.len() - 1 - #i]; #body })
                    } else {
                        parse_quote!({ let #p = &#x[#x.len() - 1 - #i]; #body })
                    };
                    self.hit("for PAT in X.iter().rev() => index loop");
                    break;
                }
                "iter" => {
                    if let Expr::Array(a) = &*mc.receiver {
                        let v = self.fresh("arr");
                        pre.push(parse_quote!(let #v = #a;));
                        *f.expr = parse_quote!(#v.iter());
                        self.hit("for PAT in [..].iter() => array hoisted to a local");
                    }
                    break;
                }
                _ => break,
            }
        }
        if let Pat::Reference(r) = &*f.pat {
            let p = (*r.pat).clone();
            let v = self.fresh("r");
            let body = f.body.clone();
            *f.pat = parse_quote!(#v);
            let st = &body.stmts;
            f.body = parse_quote!({ let #p = *#v; #(#st)* });
            self.hit("for &PAT in X => let PAT = *x");
        }
        pre
    }

    fn match_slices(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn top(p: &Pat) -> bool {
            match p {
                Pat::Slice(_) => true,
                Pat::Lit(l) => matches!(l.lit, Lit::ByteStr(_)),
                Pat::Or(o) => o.cases.iter().any(top),
                _ => false,
            }
        }
        if !m.arms.iter().any(|a| top(&a.pat)) {
            return None;
        }
        self.hit("match on slice / byte-string patterns => if-chain");
        let mutable = self.opts.contains_key("mut_slices");
        let simple = matches!(&*m.expr, Expr::Path(_));
        let s: Ident = self.fresh("s");
        let sv: Expr = if simple { (*m.expr).clone() } else { parse_quote!(#s) };
        let mut chain: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            let (cond, binds) = match self.slice_cond(&sv, &arm.pat, mutable) {
                Some(x) => x,
                None => {
                    self.err = Some(format!("unsupported slice pattern: {}", arm.pat.to_token_stream()));
                    return None;
                }
            };
            let body = &arm.body;
            let blk: Block = parse_quote!({ #(#binds)* #body });
            let cond = match (&cond, &arm.guard) {
                (Some(c), Some((_, g))) if binds.is_empty() => Some(parse_quote!(#c && #g)),
                (None, Some((_, g))) if binds.is_empty() => Some(parse_quote!(#g)),
                (_, Some(_)) => {
                    self.err = Some("slice arm guard with bindings".into());
                    return None;
                }
                (c, None) => c.clone(),
            };
            chain = Some(match (cond, chain) {
                (None, _) => Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }),
                (Some(c), Some(e)) => {
                    let e: Expr = match e {
                        Expr::If(_) | Expr::Block(_) => e,
                        e => parse_quote!({ #e }),
                    };
                    parse_quote!(if #c #blk else #e)
                }
                (Some(c), None) => parse_quote!(if #c #blk else { vx_unreachable() }),
            });
        }
        let chain = chain?;
        let sc = &m.expr;
        Some(if simple { chain } else { parse_quote!({ let #s = #sc; #chain }) })
    }

    /// `Some(&x) => B` => `Some(v) => { let x = *v; B }`
    fn arm_refs(&mut self, a: &mut Arm) {
        struct R<'a>(&'a mut Rewriter, Vec<Stmt>);
        impl VisitMut for R<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let Pat::Ident(i) = &*r.pat {
                        let (v, i) = (self.0.fresh("p"), i.clone());
                        self.1.push(parse_quote!(let #i = *#v;));
                        *p = parse_quote!(#v);
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        if a.guard.is_some() {
            return;
        }
        let mut r = R(self, vec![]);
        r.visit_pat_mut(&mut a.pat);
        let st = r.1;
        if !st.is_empty() {
            let b = &a.body;
            a.body = Box::new(parse_quote!({ #(#st)* #b }));
            self.hit("&x inside a match pattern => let x = *v");
        }
    }

    /// `Some([..]) => B` => `Some(v) if <lengths and bytes of v> => { let ..; B }`
    fn arm_slices(&mut self, a: &mut Arm) {
        let Pat::TupleStruct(t) = &mut a.pat else { return };
        if t.elems.len() != 1 || a.guard.is_some() || !matches!(&t.elems[0], Pat::Slice(_)) {
            return;
        }
        let v = self.fresh("p");
        let mutable = self.opts.contains_key("mut_slices");
        let ve: Expr = parse_quote!(#v);
        let Some((cond, binds)) = self.slice_cond(&ve, &t.elems[0], mutable) else { return };
        let Some(cond) = cond else { return };
        t.elems[0] = parse_quote!(#v);
        a.guard = Some((Default::default(), Box::new(cond)));
        if !binds.is_empty() {
            let b = &a.body;
            a.body = Box::new(parse_quote!({ #(#binds)* #b }));
        }
        self.hit("slice pattern inside Some(..) => guard");
    }

    fn slice_cond(&mut self, s: &Expr, p: &Pat, mutable: bool) -> Option<(Option<Expr>, Vec<Stmt>)> {
        match p {
            Pat::Wild(_) => Some((None, vec![])),
            Pat::Ident(i) if i.subpat.is_none() => {
                let id = &i.ident;
                Some((None, if norm(&s.to_token_stream().to_string()) == id.to_string() { vec![] } else { vec![parse_quote!(let #id = #s;)] }))
            }
            Pat::Lit(l) => match &l.lit {
                Lit::ByteStr(b) => {
                    let v = b.value();
                    let n = v.len();
                    let mut c: Expr = parse_quote!(#s.len() == #n);
                    for (i, x) in v.iter().enumerate() {
                        c = parse_quote!(#c && #s[#i] == #x);
                    }
                    Some((Some(c), vec![]))
                }
                _ => None,
            },
            Pat::Or(o) => {
                let mut c: Option<Expr> = None;
                for k in &o.cases {
                    let (kc, b) = self.slice_cond(s, k, mutable)?;
                    if !b.is_empty() {
                        return None;
                    }
                    let kc = kc?;
                    c = Some(match c {
                        None => parse_quote!((#kc)),
                        Some(c) => parse_quote!(#c || (#kc)),
                    });
                }
                let c = c?;
                Some((Some(parse_quote!((#c))), vec![]))
            }
            Pat::Slice(sl) => {
                let el: Vec<&Pat> = sl.elems.iter().collect();
                let rest = el.iter().position(|p| {
                    matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.as_ref().map_or(false, |s| matches!(&*s.1, Pat::Rest(_))))
                });
                let n = el.len();
                let mut binds: Vec<Stmt> = vec![];
                let mut c: Expr = match rest {
                    None => parse_quote!(#s.len() == #n),
                    Some(_) => {
                        let k = n - 1;
                        parse_quote!(#s.len() >= #k)
                    }
                };
                for (i, p) in el.iter().enumerate() {
                    let idx: Expr = match rest {
                        Some(r) if i > r => {
                            let back = n - i;
                            parse_quote!(#s.len() - #back)
                        }
                        _ => parse_quote!(#i),
                    };
                    match p {
                        Pat::Rest(_) | Pat::Wild(_) => {}
                        Pat::Lit(l) => c = parse_quote!(#c && #s[#idx] == #l),
                        Pat::Ident(id) if id.subpat.is_some() => {
                            let name = &id.ident;
                            let after = n - 1 - i;
                            let rng: Expr = if after == 0 {
                                parse_quote!(#i..)
                            } else {
                                let e = self.fresh("e");
                                binds.push(parse_quote!(let #e = #s.len() - #after;));
                                parse_quote!(#i..#e)
                            };
                            binds.push(if mutable { parse_quote!(let #name = &mut #s[#rng];) } else { parse_quote!(let #name = &#s[#rng];) });
                        }
                        Pat::Ident(id) => {
                            let name = &id.ident;
                            binds.push(parse_quote!(let #name = &#s[#idx];));
                        }
                        _ => return None,
                    }
                }
                Some((Some(c), binds))
            }
            _ => None,
        }
    }

    fn split_call(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "split" | "split_mut" | "splitn" | "splitn_mut") {
            return None;
        }
        let cl = match m.args.last() {
            Some(Expr::Closure(c)) if c.inputs.len() == 1 => c,
            _ => return None,
        };
        let (p, pre) = match &cl.inputs[0] {
            Pat::Reference(r) => (norm(&r.pat.to_token_stream().to_string()), ""),
            p => (norm(&p.to_token_stream().to_string()), "*"),
        };
        let body = norm(&cl.body.to_token_stream().to_string());
        let mut lits: Vec<String> = vec![];
        for t in body.split("||") {
            if let Some(r) = t.strip_prefix(&format!("{pre}{p}==")) {
                lits.push(r.to_string());
            } else if let Some(r) = t.strip_prefix(&format!("matches!({pre}{p},")).and_then(|r| r.strip_suffix(')')) {
                lits.extend(r.split('|').map(String::from));
            } else {
                return None;
            }
        }
        if lits.iter().any(|l| !l.starts_with("b'")) || lits.is_empty() || lits.len() > 2 {
            return None;
        }
        let lits: Vec<Expr> = lits.iter().filter_map(|l| parse_str::<Expr>(l).ok()).collect();
        let f = format_ident!("vx_{}{}", name, if lits.len() > 1 { lits.len().to_string() } else { String::new() });
        let recv = &m.receiver;
        let recv: Expr = match &**recv {
            Expr::Index(_) if name.ends_with("_mut") => parse_quote!(&mut #recv),
            Expr::Index(_) => parse_quote!(&#recv),
            _ => (**recv).clone(),
        };
        self.hit("X.split*(|b| *b == L) => stand-in vx_split*(X, L)");
        Some(if name.starts_with("splitn") {
            let n = &m.args[0];
            parse_quote!(#f(#recv, #n, #(#lits),*))
        } else {
            parse_quote!(#f(#recv, #(#lits),*))
        })
    }
}

fn is_iter_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "iter" | "rev" | "skip_while" | "copied"),
        _ => false,
    }
}

fn tail_break(b: &mut Block, rw: &mut Rewriter) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail_expr(e, rw);
    }
}
fn tail_expr(e: &mut Expr, rw: &mut Rewriter) {
    match e {
        Expr::Block(b) => tail_break(&mut b.block, rw),
        Expr::If(i) => {
            tail_break(&mut i.then_branch, rw);
            if let Some((_, e)) = &mut i.else_branch {
                tail_expr(e, rw)
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                tail_expr(&mut a.body, rw)
            }
        }
        Expr::Loop(l) => {
            struct B<'a>(&'a mut Rewriter);
            impl VisitMut for B<'_> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    match e {
                        Expr::Break(b) if b.label.is_none() && b.expr.is_some() => {
                            let x = b.expr.take().unwrap();
                            *e = parse_quote!(return #x);
                            self.0.hit("tail loop: break EXPR => return EXPR");
                        }
                        Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
                        _ => visit_mut::visit_expr_mut(self, e),
                    }
                }
            }
            let mut v = B(rw);
            v.visit_block_mut(&mut l.body);
        }
        _ => {}
    }
}

impl VisitMut for Rewriter {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            match &mut s {
                Stmt::Macro(m) => {
                    let last = m.mac.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                    if LOGS.contains(&last.as_str()) {
                        self.hit("log / dead-code-marker macro dropped");
                        continue;
                    }
                }
                Stmt::Expr(Expr::Macro(m), _) => {
                    let last = m.mac.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                    if LOGS.contains(&last.as_str()) {
                        self.hit("log / dead-code-marker macro dropped");
                        continue;
                    }
                }
                Stmt::Item(Item::Use(_)) if self.opts.contains_key("drop_use") => {
                    self.hit("local `use` dropped");
                    continue;
                }
                _ => {}
            }
            b.stmts.push(s);
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            let pre = self.for_chain(f);
            visit_mut::visit_expr_for_loop_mut(self, f);
            if !pre.is_empty() {
                let f = f.clone();
                *e = parse_quote!({ #(#pre)* #f });
            }
            return;
        }
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                self.arm_refs(a);
                self.arm_slices(a);
            }
            if let Some(n) = self.match_slices(m) {
                *e = n;
                return self.visit_expr_mut(e);
            }
        }
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
            let v = b.value();
            if !v.is_empty() {
                self.hit("b\"..\" => &[bytes]");
                *e = parse_quote!((&[#(#v),*]));
                return;
            }
        }
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::MethodCall(m) = &**expr {
                if m.method == "get_unchecked" && m.args.len() == 1 {
                    let (x, i) = (&m.receiver, &m.args[0]);
                    self.hit("get_unchecked(i) => [i], in-bounds to be proved");
                    *e = parse_quote!(#x[#i]);
                    return self.visit_expr_mut(e);
                }
            }
        }
        if let Expr::Unsafe(u) = e {
            let b = &u.block;
            *e = match b.stmts.as_slice() {
                [Stmt::Expr(x, None)] => x.clone(),
                _ => parse_quote!(#b),
            };
            return self.visit_expr_mut(e);
        }
        if let Expr::MethodCall(m) = e {
            if (m.method == "get_unchecked" || m.method == "get_unchecked_mut") && m.args.len() == 1 {
                let (x, i) = (&m.receiver, &m.args[0]);
                self.hit("get_unchecked(i) => [i], in-bounds to be proved");
                *e = if m.method == "get_unchecked" { parse_quote!((&#x[#i])) } else { parse_quote!((&mut #x[#i])) };
                return self.visit_expr_mut(e);
            }
            if let Some(n) = self.split_call(m) {
                *e = n;
                return self.visit_expr_mut(e);
            }
            let name = m.method.to_string();
            if name == "map_err" && m.args.len() == 1 {
                if let Expr::Path(p) = &m.args[0] {
                    let up = p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()));
                    let v = self.fresh("c");
                    if p.path.is_ident("drop") {
                        m.args[0] = parse_quote!(|#v| ());
                    } else if up {
                        let p = p.clone();
                        m.args[0] = parse_quote!(|#v| #p(#v));
                    }
                }
                if let Expr::Closure(c) = &m.args[0] {
                    let t = c.body.to_token_stream().to_string();
                    if c.inputs.len() == 1 && !t.contains('?') && !t.contains("return") {
                        let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        let v = self.fresh("ok");
                        self.hit("X.map_err(|P| E) => match X { Ok(v) => Ok(v), Err(P) => Err(E) }");
                        *e = parse_quote!((match #x { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }));
                        return self.visit_expr_mut(e);
                    }
                }
            }
            if (name == "get" || name == "get_mut") && m.args.len() == 1 {
                let mu = if name == "get" { "" } else { "_mut" };
                if let Expr::Range(ExprRange { start, end, limits: RangeLimits::HalfOpen(_), .. }) = &m.args[0] {
                    let (w, a): (&str, Vec<Expr>) = match (start.clone(), end.clone()) {
                        (None, Some(b)) => ("vx_get_to", vec![*b]),
                        (Some(a), None) => ("vx_get_from", vec![*a]),
                        (Some(a), Some(b)) => ("vx_get_range", vec![*a, *b]),
                        (None, None) => ("", vec![]),
                    };
                    if !w.is_empty() {
                        self.hit("X.get(A..B) => X.vx_get_*(A, B)");
                        m.method = format_ident!("{}{}", w, mu);
                        m.args = a.into_iter().collect();
                    }
                }
            }
            if (name == "map_err" || name == "map") && m.args.len() == 1 {
                if let Expr::Path(p) = &m.args[0] {
                    let up = p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()));
                    if up {
                        let p = p.clone();
                        let v = self.fresh("c");
                        self.hit("map(Ctor) => map(|x| Ctor(x))");
                        m.args[0] = parse_quote!(|#v| #p(#v));
                    }
                }
            }
            if name == "any" && m.args.len() == 1 {
                if let (Expr::MethodCall(r), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                    if r.method == "iter" && c.inputs.len() == 1 {
                        let x = &r.receiver;
                        let acc = self.fresh("any");
                        let v = self.fresh("r");
                        let p = &c.inputs[0];
                        let bind: Stmt = match p {
                            Pat::Reference(r) => {
                                let p = &r.pat;
                                parse_quote!(let #p = *#v;)
                            }
                            p => parse_quote!(let #p = #v;),
                        };
                        let body = &c.body;
                        self.hit("X.iter().any(P) => accumulator loop");
                        *e = parse_quote!({
                            let mut #acc = false;
                            for #v in #x.iter() { #bind if !#acc && (#body) { #acc = true; } }
                            #acc
                        });
                        return visit_mut::visit_expr_mut(self, e);
                    }
                }
            }
            if name == "fold" && m.args.len() == 2 {
                if let (Expr::MethodCall(r), Expr::Closure(c)) = (&*m.receiver, &m.args[1]) {
                    if r.method == "iter" && c.inputs.len() == 2 {
                        let x = &r.receiver;
                        let (a, p) = (&c.inputs[0], &c.inputs[1]);
                        let init = &m.args[0];
                        let body = &c.body;
                        self.hit("X.iter().fold(I, F) => accumulator loop");
                        *e = parse_quote!({ let mut #a = #init; for #p in #x.iter() { #a = #body; } #a });
                        return visit_mut::visit_expr_mut(self, e);
                    }
                }
            }
        }
        if self.opts.contains_key("index_set") {
            if let Expr::Assign(a) = e {
                if let Expr::Index(x) = &*a.left {
                    let (b, i, v) = (&x.expr, &x.index, &a.right);
                    self.hit("X[I] = V through DerefMut => X.vx_set(I, V)");
                    *e = parse_quote!(#b.vx_set(#i, #v));
                }
            }
        }
        if let Expr::Binary(b) = e {
            if let (Expr::Try(t), BinOp::BitXor(_) | BinOp::BitAnd(_) | BinOp::BitOr(_)) = (&*b.left, &b.op) {
                if matches!(&*t.expr, Expr::MethodCall(m) if m.method == "get") {
                    let l = &b.left;
                    self.hit("X.get(i)? ^ n => *X.get(i)? ^ n");
                    *b.left = parse_quote!((*#l));
                }
            }
        }
        if let Expr::Cast(c) = e {
            if norm(&c.ty.to_token_stream().to_string()) == "&[u8]" {
                let x = &c.expr;
                self.hit("X as &[u8] => &*X");
                *e = parse_quote!((&*#x));
                return self.visit_expr_mut(e);
            }
        }
        if let Expr::Closure(c) = e {
            for p in c.inputs.iter_mut() {
                if matches!(p, Pat::Wild(_)) {
                    let v = self.fresh("w");
                    *p = parse_quote!(#v);
                    self.hit("|_| => |x|");
                }
            }
        }
        if let Expr::If(i) = e {
            // `if let Some([..]) = X { B }` => `if let Some(v) = X { if <lengths and bytes of v> { let ..; B } }`
            if let (Expr::Let(l), None) = (&*i.cond, &i.else_branch) {
                if let Pat::TupleStruct(t) = &*l.pat {
                    if t.elems.len() == 1 && matches!(&t.elems[0], Pat::Slice(_)) {
                        let v = self.fresh("p");
                        let ve: Expr = parse_quote!(#v);
                        if let Some((Some(cond), binds)) = self.slice_cond(&ve, &t.elems[0], false) {
                            let (path, x, b) = (&t.path, &l.expr, &i.then_branch.stmts);
                            *e = parse_quote!(if let #path(#v) = #x { if #cond { #(#binds)* #(#b)* } });
                            self.hit("slice pattern inside if let => length test");
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
            if let (Expr::Macro(m), None) = (&*i.cond, &i.else_branch) {
                if m.mac.path.segments.last().is_some_and(|x| x.ident == "log_enabled") {
                    self.hit("if log_enabled!() { .. } dropped");
                    *e = parse_quote!({});
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            let last = m.mac.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if last == "log_enabled" {
                self.hit("log_enabled!() => false");
                *e = parse_quote!(false);
                return;
            }
            if last == "unreachable" {
                self.hit("unreachable!() => vx_unreachable() (requires false)");
                *e = parse_quote!(vx_unreachable());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ------------------------------------------------------------------ annotate
struct Ann<'a> {
    fs: &'a FnSpec,
    n: usize,
    used: BTreeSet<String>,
}

fn at(k: &str) -> Stmt {
    parse_quote!(__vx_at!(#k);)
}

impl Ann<'_> {
    fn slot(&mut self, k: String, v: &mut Vec<Stmt>) {
        if self.fs.ats.contains_key(&k) {
            v.push(at(&k));
            self.used.insert(k);
        }
    }
    fn body(&mut self, n: usize, b: &mut Block) {
        self.visit_block_mut(b);
        let mut v = vec![];
        if self.fs.loops.contains_key(&n) {
            v.push(parse_quote!(__vx_inv!(#n);));
            // literal suffix: print() parses the number back
            let lit = proc_macro2::Literal::usize_unsuffixed(n);
            v[0] = parse_quote!(__vx_inv!(#lit););
        }
        self.slot(format!("loop{n}.start"), &mut v);
        v.extend(std::mem::take(&mut b.stmts));
        let k = format!("loop{n}.end");
        if self.fs.ats.contains_key(&k) {
            // before a trailing unit expression it would change nothing; append
            if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                *semi = Some(Default::default());
            }
            self.slot(k, &mut v);
        }
        b.stmts = v;
    }
}

impl VisitMut for Ann<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let n = self.n;
                self.n += 1;
                visit_mut::visit_expr_mut(self, &mut f.expr);
                self.body(n, &mut f.body);
                if let Some((Some(name), _)) = self.fs.loops.get(&n) {
                    let id = format_ident!("{}", name);
                    let x = &f.expr;
                    *f.expr = parse_quote!(__vx_named!(#id, #x));
                }
            }
            Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.body(n, &mut w.body);
            }
            Expr::Loop(l) => {
                let n = self.n;
                self.n += 1;
                self.body(n, &mut l.body);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut v = vec![];
        for mut s in old {
            let text = norm(&s.to_token_stream().to_string());
            // rewrites wrap statements in `(match ..`
            let text = text.trim_start_matches('(').strip_prefix("match").map_or(text.clone(), |x| x.trim_start().to_string());
            let n = self.n;
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            self.visit_stmt_mut(&mut s);
            if is_loop {
                self.slot(format!("loop{n}.before"), &mut v);
            }
            for (k, _) in self.fs.ats.iter() {
                if let Some(p) = k.strip_prefix("before:") {
                    if text.starts_with(&norm(p)) && !self.used.contains(k) {
                        v.push(at(k));
                        self.used.insert(k.clone());
                    }
                }
            }
            v.push(s);
            for (k, _) in self.fs.ats.iter() {
                if let Some(p) = k.strip_prefix("after:") {
                    if text.starts_with(&norm(p)) && !self.used.contains(k) {
                        v.push(at(k));
                        self.used.insert(k.clone());
                    }
                }
            }
            if is_loop {
                let k = format!("loop{n}.after");
                if self.fs.ats.contains_key(&k) {
                    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                        *semi = Some(Default::default());
                    }
                    self.slot(k, &mut v);
                }
            }
        }
        b.stmts = v;
    }
}

pub fn annotate(b: &mut Block, fs: &FnSpec) -> Res<usize> {
    let mut a = Ann { fs, n: 0, used: Default::default() };
    a.visit_block_mut(b);
    if fs.ats.contains_key("start") {
        b.stmts.insert(0, at("start"));
        a.used.insert("start".into());
    }
    if fs.ats.contains_key("end") {
        let n = match b.stmts.last() {
            Some(Stmt::Expr(_, None)) => b.stmts.len() - 1,
            _ => b.stmts.len(),
        };
        b.stmts.insert(n, at("end"));
        a.used.insert("end".into());
    }
    for k in fs.ats.keys() {
        if !a.used.contains(k) {
            return Err(format!("lost anchor: proof hint position `{k}`"));
        }
    }
    for k in fs.loops.keys() {
        if *k >= a.n {
            return Err(format!("lost anchor: loop {k}"));
        }
    }
    let _ = quote!();
    Ok(a.n)
}

pub fn nth_closure(b: &Block, k: usize) -> Option<ExprClosure> {
    struct C(Vec<ExprClosure>);
    impl<'a> syn::visit::Visit<'a> for C {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            self.0.push(c.clone());
            syn::visit::visit_expr_closure(self, c);
        }
    }
    let mut c = C(vec![]);
    syn::visit::Visit::visit_block(&mut c, b);
    c.0.into_iter().nth(k)
}

pub fn lift(b: &mut Block, k: usize, name: &str) -> bool {
    struct L<'a>(String, &'a str, bool);
    impl VisitMut for L<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::MethodCall(m) = e {
                if m.method == "map" && m.args.len() == 1 && m.args[0].to_token_stream().to_string() == self.0 {
                    let f = format_ident!("vx_map_{}", self.1);
                    let r = &m.receiver;
                    *e = parse_quote!(#f(#r));
                    self.2 = true;
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let Some(c) = nth_closure(b, k) else { return false };
    let mut l = L(c.to_token_stream().to_string(), name, false);
    l.visit_block_mut(b);
    l.2
}
