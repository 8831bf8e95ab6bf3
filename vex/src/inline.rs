//! Local macros, immediately invoked closures and callbacks, unfolded in place.
use crate::Res;
use proc_macro2::{TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Rules = Vec<(TokenStream, TokenStream)>;

/// the arms of a `macro_rules!`
pub fn rules(ts: TokenStream) -> Rules {
    let v: Vec<TokenTree> = ts.into_iter().filter(|t| !matches!(t, TokenTree::Punct(p) if matches!(p.as_char(), ';' | '=' | '>'))).collect();
    v.chunks(2)
        .filter_map(|c| match c {
            [TokenTree::Group(a), TokenTree::Group(b)] => Some((a.stream(), b.stream())),
            _ => None,
        })
        .collect()
}

type Binds = BTreeMap<String, TokenStream>;

fn matcher(pat: &[TokenTree], inp: ParseStream, b: &mut Binds) -> Result<()> {
    let mut i = 0;
    while i < pat.len() {
        if let (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(f))) =
            (&pat[i], pat.get(i + 1), pat.get(i + 2), pat.get(i + 3))
        {
            if d.as_char() == '$' && c.as_char() == ':' {
                let t: TokenStream = match f.to_string().as_str() {
                    "ident" => inp.call(ext::IdentExt::parse_any).map(|x: Ident| x.to_token_stream())?,
                    "expr" => {
                        let e = inp.parse::<Expr>()?;
                        quote!((#e))
                    }
                    "block" => inp.parse::<Block>()?.to_token_stream(),
                    "ty" => inp.parse::<Type>()?.to_token_stream(),
                    "pat" => Pat::parse_multi(inp)?.to_token_stream(),
                    "literal" => inp.parse::<Lit>()?.to_token_stream(),
                    "lifetime" => inp.parse::<Lifetime>()?.to_token_stream(),
                    "tt" => inp.parse::<TokenTree>()?.to_token_stream(),
                    _ => return Err(inp.error("fragment")),
                };
                b.insert(n.to_string(), t);
                i += 4;
                continue;
            }
        }
        match &pat[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => return Err(inp.error("repetition")),
            TokenTree::Group(g) => match inp.parse::<TokenTree>()? {
                TokenTree::Group(h) if h.delimiter() == g.delimiter() => {
                    let p: Vec<TokenTree> = g.stream().into_iter().collect();
                    (|s: ParseStream| matcher(&p, s, b)).parse2(h.stream())?;
                }
                _ => return Err(inp.error("group")),
            },
            t => {
                let got = inp.parse::<TokenTree>()?;
                if got.to_string() != t.to_string() {
                    return Err(inp.error("token"));
                }
            }
        }
        i += 1;
    }
    Ok(())
}

fn subst(ts: TokenStream, b: &Binds) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let TokenTree::Ident(n) = v.get(i + 1)? else { return None };
                if n == "crate" {
                    out.push(v[i + 1].clone());
                } else {
                    out.extend(b.get(&n.to_string())?.clone());
                }
                i += 2;
                continue;
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), b)?))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Some(out.into_iter().collect())
}

pub fn expand(r: &Rules, args: &TokenStream) -> Option<TokenStream> {
    for (p, t) in r {
        let mut b = Binds::new();
        let pat: Vec<TokenTree> = p.clone().into_iter().collect();
        if (|s: ParseStream| matcher(&pat, s, &mut b)).parse2(args.clone()).is_ok() {
            return subst(t.clone(), &b);
        }
    }
    None
}

/// macros a file defines and invokes itself at item level
pub fn items(items: &mut Vec<Item>) {
    let mut m: BTreeMap<String, Rules> = BTreeMap::new();
    let mut out = vec![];
    for i in items.drain(..) {
        if let Item::Macro(x) = &i {
            if let Some(id) = &x.ident {
                m.insert(id.to_string(), rules(x.mac.tokens.clone()));
            } else if let Some(r) = x.mac.path.get_ident().and_then(|p| m.get(&p.to_string())) {
                if let Some(f) = expand(r, &x.mac.tokens).and_then(|t| parse2::<File>(t).ok()) {
                    out.extend(f.items);
                    continue;
                }
            }
        }
        out.push(i);
    }
    *items = out;
}

pub struct Locals {
    m: BTreeMap<String, Rules>,
    pub hits: usize,
    pub err: Option<String>,
}

impl VisitMut for Locals {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Macro(x)) if x.ident.is_some() && x.mac.path.is_ident("macro_rules") => {
                    self.m.insert(x.ident.unwrap().to_string(), rules(x.mac.tokens));
                }
                Stmt::Macro(x) if x.mac.path.get_ident().map_or(false, |i| self.m.contains_key(&i.to_string())) => {
                    let r = &self.m[&x.mac.path.get_ident().unwrap().to_string()];
                    match expand(r, &x.mac.tokens).and_then(|t| parse2::<Expr>(t).ok()) {
                        Some(e) => {
                            self.hits += 1;
                            out.push(Stmt::Expr(e, x.semi_token));
                        }
                        None => self.err = Some(format!("cannot expand {}", x.mac.path.to_token_stream())),
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(x) = e {
            if let Some(r) = x.mac.path.get_ident().and_then(|i| self.m.get(&i.to_string())) {
                match expand(r, &x.mac.tokens).and_then(|t| parse2::<Expr>(t).ok()) {
                    Some(n) => {
                        self.hits += 1;
                        *e = parse_quote!((#n));
                    }
                    None => self.err = Some(format!("cannot expand {}", x.mac.path.to_token_stream())),
                }
            }
        }
        // concat!("..", "..")
        if let Expr::Macro(x) = e {
            if x.mac.path.is_ident("concat") {
                let p = punctuated::Punctuated::<LitStr, Token![,]>::parse_terminated;
                if let Ok(l) = p.parse2(x.mac.tokens.clone()) {
                    let s: String = l.iter().map(|l| l.value()).collect();
                    *e = parse_quote!(#s);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn local_macros(b: &mut Block) -> Res<usize> {
    let mut l = Locals { m: Default::default(), hits: 0, err: None };
    l.visit_block_mut(b);
    match l.err {
        Some(e) => Err(e),
        None => Ok(l.hits),
    }
}

// ------------------------------------------------------- `(|| { .. ? .. })()`
struct Ctl {
    q: bool,
    ret: bool,
}
impl<'a> Visit<'a> for Ctl {
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn ctl_s(s: &Stmt) -> bool {
    let mut c = Ctl { q: false, ret: false };
    c.visit_stmt(s);
    c.q || c.ret
}
fn ctl_e(e: &Expr) -> bool {
    let mut c = Ctl { q: false, ret: false };
    c.visit_expr(e);
    c.q || c.ret
}
fn ends_in_return(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

/// statements as an expression of type Result; `unit`: falling off the end is Ok(())
fn conv(st: &[Stmt], unit: bool) -> Option<Expr> {
    let Some(s) = st.first() else { return unit.then(|| parse_quote!(Ok(()))) };
    let rest = &st[1..];
    if rest.is_empty() {
        if let Stmt::Expr(e, None) = s {
            return tail(e, unit);
        }
    }
    if let Stmt::Expr(Expr::Return(r), _) = s {
        return r.expr.as_ref().filter(|e| !ctl_e(e)).map(|e| (**e).clone());
    }
    if !ctl_s(s) {
        let r = conv(rest, unit)?;
        return Some(parse_quote!({ #s #r }));
    }
    match s {
        Stmt::Expr(Expr::Try(t), _) if !ctl_e(&t.expr) => {
            let (x, r) = (&t.expr, conv(rest, unit)?);
            Some(parse_quote!(match #x { Ok(_) => { #r } Err(vx_x) => Err(vx_from(vx_x)) }))
        }
        Stmt::Local(l) => {
            let (p, i) = (&l.pat, l.init.as_ref().filter(|i| i.diverge.is_none())?);
            let Expr::Try(t) = &*i.expr else { return None };
            if ctl_e(&t.expr) {
                return None;
            }
            let (x, r) = (&t.expr, conv(rest, unit)?);
            Some(parse_quote!(match #x { Ok(#p) => { #r } Err(vx_x) => Err(vx_from(vx_x)) }))
        }
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && ends_in_return(&i.then_branch) => {
            let (c, a, r) = (&i.cond, conv(&i.then_branch.stmts, true)?, conv(rest, unit)?);
            if ctl_e(c) {
                return None;
            }
            Some(parse_quote!(if #c { #a } else { #r }))
        }
        Stmt::Expr(Expr::ForLoop(f), _) if !ctl_e(&f.expr) => {
            let (p, x, b, r) = (&f.pat, &f.expr, conv(&f.body.stmts, true)?, conv(rest, unit)?);
            Some(parse_quote!({
                let mut vx_stop = Ok(());
                for #p in #x { if vx_stop.is_ok() { vx_stop = #b; } }
                match vx_stop { Ok(_) => { #r } Err(vx_x) => Err(vx_x) }
            }))
        }
        Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_)), _) => {
            let (x, r) = (tail(e, true)?, conv(rest, unit)?);
            Some(parse_quote!(match #x { Ok(_) => { #r } Err(vx_x) => Err(vx_x) }))
        }
        _ => None,
    }
}

fn tail(e: &Expr, unit: bool) -> Option<Expr> {
    if !ctl_e(e) {
        return Some(if unit { parse_quote!({ #e; Ok(()) }) } else { e.clone() });
    }
    match e {
        Expr::Try(t) if unit && !ctl_e(&t.expr) => {
            let x = &t.expr;
            Some(parse_quote!(match #x { Ok(_) => Ok(()), Err(vx_x) => Err(vx_from(vx_x)) }))
        }
        Expr::Return(r) => r.expr.as_ref().filter(|e| !ctl_e(e)).map(|e| (**e).clone()),
        Expr::Block(b) => {
            let x = conv(&b.block.stmts, unit)?;
            Some(parse_quote!({ #x }))
        }
        Expr::If(i) => {
            if ctl_e(&i.cond) {
                return None;
            }
            let (c, a) = (&i.cond, conv(&i.then_branch.stmts, unit)?);
            let b = match &i.else_branch {
                Some((_, b)) => tail(b, unit)?,
                None if unit => parse_quote!({ Ok(()) }),
                None => return None,
            };
            Some(parse_quote!(if #c { #a } else { #b }))
        }
        Expr::Match(m) => {
            if ctl_e(&m.expr) {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let b = tail(&a.body, unit)?;
                a.body = Box::new(parse_quote!({ #b }));
                a.comma = None;
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}

fn iife_of(e: &Expr) -> Option<&ExprClosure> {
    let Expr::Call(c) = e else { return None };
    let mut f = &*c.func;
    while let Expr::Paren(p) = f {
        f = &p.expr;
    }
    match f {
        Expr::Closure(cl) if cl.inputs.is_empty() && c.args.is_empty() => Some(cl),
        _ => None,
    }
}
/// the body of the K-th `(|| B)()`; with `call`, that expression is replaced by it
pub fn nth_iife(b: &mut Block, k: usize, call: Option<Expr>) -> Option<Block> {
    struct N(usize, Option<Expr>, Option<Block>);
    impl VisitMut for N {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Some(c) = iife_of(e) {
                if self.0 == 0 && self.2.is_none() {
                    let x = &c.body;
                    self.2 = Some(match &*c.body {
                        Expr::Block(b) => b.block.clone(),
                        _ => parse_quote!({ #x }),
                    });
                    if let Some(c) = self.1.take() {
                        *e = c;
                        return;
                    }
                }
                self.0 = self.0.wrapping_sub(1);
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut n = N(k, call, None);
    n.visit_block_mut(b);
    n.2
}

struct Iife(usize, Option<String>);
impl VisitMut for Iife {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let mut f = &*c.func;
            while let Expr::Paren(p) = f {
                f = &p.expr;
            }
            if let Expr::Closure(cl) = f {
                if cl.inputs.is_empty() && c.args.is_empty() {
                    let st = match &*cl.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        x => vec![Stmt::Expr(x.clone(), None)],
                    };
                    match conv(&st, false) {
                        Some(x) => {
                            self.0 += 1;
                            *e = x;
                        }
                        None => self.1 = Some("immediately invoked closure of an unsupported shape".into()),
                    }
                }
            }
        }
    }
}

pub fn iife(b: &mut Block) -> Res<usize> {
    let mut i = Iife(0, None);
    i.visit_block_mut(b);
    match i.1 {
        Some(e) => Err(e),
        None => Ok(i.0),
    }
}

// ------------------------------------------------------------------- callbacks
/// `return` at the closure's own level => `continue`
struct Ret;
impl VisitMut for Ret {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if r.expr.is_none() {
                *e = parse_quote!(continue);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

fn closure_of(e: &Expr, vars: &BTreeMap<String, ExprClosure>) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Reference(r) => closure_of(&r.expr, vars),
        Expr::Paren(r) => closure_of(&r.expr, vars),
        Expr::Path(p) => p.path.get_ident().and_then(|i| vars.get(&i.to_string())).cloned(),
        // ConsoleOutput::new(&mut callback), Callback { cb, token }
        Expr::Call(c) if c.args.len() == 1 => closure_of(&c.args[0], vars),
        Expr::Struct(s) => s.fields.iter().find_map(|f| closure_of(&f.expr, vars)),
        _ => None,
    }
}

struct Cb {
    names: Vec<String>,
    vars: BTreeMap<String, ExprClosure>,
    hits: usize,
}
impl VisitMut for Cb {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    let mut e = &*init.expr;
                    if let Expr::Reference(r) = e {
                        e = &r.expr;
                    }
                    if let Expr::Closure(c) = e {
                        self.vars.insert(i.ident.to_string(), c.clone());
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if self.names.iter().any(|n| m.method == n) {
                if let Some(c) = m.args.last().and_then(|a| closure_of(a, &self.vars)) {
                    let mut m2 = m.clone();
                    m2.args = m.args.iter().take(m.args.len() - 1).cloned().collect();
                    let (p, mut body) = (pat_ty(&c.inputs[0]), c.body.clone());
                    Ret.visit_expr_mut(&mut body);
                    self.hits += 1;
                    *e = parse_quote!({
                        let mut vx_cb = #m2;
                        while vx_cb.vx_more() {
                            let #p = vx_cb.vx_item();
                            #body;
                        }
                        vx_cb.vx_done()
                    });
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let (Some(cl), Some(a)) = (p.path.get_ident().and_then(|i| self.vars.get(&i.to_string())), c.args.first()) {
                    let (p, body) = (pat_ty(&cl.inputs[0]), &cl.body);
                    self.hits += 1;
                    *e = parse_quote!({ let #p = #a; #body; });
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn pat_ty(p: &Pat) -> TokenStream {
    p.to_token_stream()
}

/// `X.m(a, &mut |p| B)` with m one of `names`: the calls `m` makes to its
/// argument become the iterations of a loop over what `m` delivers
pub fn callbacks(b: &mut Block, names: &[String]) -> usize {
    let mut c = Cb { names: names.to_vec(), vars: Default::default(), hits: 0 };
    c.visit_block_mut(b);
    c.hits
}

// --------------------------------------------------------- `E?` on a Result
pub struct Q(pub usize);
impl VisitMut for Q {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            self.0 += 1;
            *e = parse_quote!((match #x { Ok(vx_v) => vx_v, Err(vx_x) => return Err(vx_from(vx_x)) }));
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// `match (X.as_ref(), ..) { (Some(&P), ..) => .. }` => `match (vx_copied(X.as_ref()), ..) { (Some(P), ..) => .. }`:
/// what P binds is Copy, or the original would not compile
pub struct RefPats(pub usize);
struct DropRef(usize);
impl VisitMut for DropRef {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            *p = (*r.pat).clone();
            self.0 += 1;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl VisitMut for RefPats {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let wrap = |e: &mut Expr| match e {
            Expr::MethodCall(c) if c.method == "as_ref" && c.args.is_empty() => {
                let c = c.clone();
                *e = parse_quote!(vx_copied(#c));
                true
            }
            _ => false,
        };
        let hit = match &mut *m.expr {
            Expr::Tuple(t) => t.elems.iter_mut().fold(false, |h, e| wrap(e) | h),
            e => wrap(e),
        };
        if hit {
            let mut d = DropRef(0);
            for a in m.arms.iter_mut() {
                d.visit_pat_mut(&mut a.pat);
            }
            self.0 += d.0;
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
}

/// `X.map(drop)`, and with `opt and_then`: `X.and_then(|p| E)` on an Option
pub struct Opt {
    pub and_then: bool,
    /// and_then on a Result
    pub res: bool,
    pub map: bool,
    pub hits: usize,
}
impl VisitMut for Opt {
    // `A | B if g => e` => `A if g => e, B if g => e`
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let mut v = vec![];
        for a in m.arms.drain(..) {
            match (&a.pat, &a.guard) {
                (Pat::Or(o), Some(_)) => {
                    for c in &o.cases {
                        let mut b = a.clone();
                        b.pat = c.clone();
                        b.comma = Some(Default::default());
                        v.push(b);
                    }
                }
                _ => v.push(a),
            }
        }
        m.arms = v;
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.args.len() != 1 {
                return;
            }
            let x = &m.receiver;
            if m.method == "map" && m.args[0].to_token_stream().to_string() == "drop" {
                self.hits += 1;
                *e = parse_quote!((match #x { Some(_vx_d) => Some(()), None => None }));
                return;
            }
            let two = match (m.method.to_string().as_str(), &m.args[0]) {
                ("and_then", Expr::Closure(c)) if self.and_then && c.inputs.len() == 1 => {
                    let (p, b) = (&c.inputs[0], &c.body);
                    Some((quote!(#p), quote!(#b)))
                }
                ("and_then", Expr::Path(p)) if self.and_then => Some((quote!(vx_a), quote!(#p(vx_a)))),
                ("map", Expr::Closure(c)) if self.map && c.inputs.len() == 1 => {
                    let (p, b) = (&c.inputs[0], &c.body);
                    Some((quote!(#p), quote!(Some(#b))))
                }
                _ => None,
            };
            if let Some((p, b)) = two {
                self.hits += 1;
                *e = if self.res && m.method == "and_then" {
                    parse_quote!((match #x { Ok(#p) => { #b } Err(vx_e) => Err(vx_e) }))
                } else {
                    parse_quote!((match #x { Some(#p) => { #b } None => None }))
                };
            }
        }
    }
}

/// `opt guards`: `match X { P if G => A, .. Q => B }` => `if (X matches P) && G { A } else ..`,
/// for arms without bindings (guards which have effects)
pub struct Guards(pub usize);
fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, _: &'a PatIdent) {
            self.0 = true;
        }
    }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn constr(p: &Pat) -> Option<Vec<String>> {
    let p = match p {
        Pat::Path(p) => &p.path,
        Pat::TupleStruct(p) => &p.path,
        Pat::Struct(p) => &p.path,
        _ => return None,
    };
    Some(p.segments.iter().map(|s| s.ident.to_string()).collect())
}
/// matches whatever has this constructor
fn wide(p: &Pat) -> bool {
    let all = |p: &Pat| matches!(p, Pat::Wild(_) | Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_none());
    match p {
        Pat::Path(_) => true,
        Pat::TupleStruct(p) => p.elems.iter().all(all),
        Pat::Struct(p) => p.fields.iter().all(|f| all(&f.pat)),
        _ => false,
    }
}
/// two variants of one enum, by name
fn disjoint(a: &Pat, b: &Pat) -> bool {
    if let Pat::Or(o) = b {
        return o.cases.iter().all(|c| disjoint(a, c));
    }
    match (constr(a), constr(b)) {
        (Some(a), Some(b)) => a.len() > 1 && a.len() == b.len() && a[..a.len() - 1] == b[..b.len() - 1] && a.last() != b.last(),
        _ => false,
    }
}
/// `if match .. {..} { A }` => `let vx_c = match .. {..}; if vx_c { A }`
pub struct HoistIf(pub usize);
impl VisitMut for HoistIf {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut v = vec![];
        for mut s in b.stmts.drain(..) {
            if let Stmt::Expr(Expr::If(i), _) = &mut s {
                if let Expr::Match(m) = &*i.cond {
                    self.0 += 1;
                    let c = quote::format_ident!("vx_c{}", self.0);
                    v.push(parse_quote!(let #c = #m;));
                    i.cond = parse_quote!(#c);
                }
            }
            v.push(s);
        }
        b.stmts = v;
    }
}
/// `for P in E { B }` => `{ let mut it = E; loop { match it.next() { Some(P) => B, None => break } } }`
pub struct ForNext(pub usize);
impl VisitMut for ForNext {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            self.0 += 1;
            let (p, x, b) = (&f.pat, &f.expr, &f.body);
            *e = parse_quote!({ let mut vx_it = #x; loop { match vx_it.next() { Some(#p) => #b, None => break, } } });
        }
    }
}
impl VisitMut for Guards {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Match(m) = e else { return };
        let Some(k) = m.arms.iter().rposition(|a| a.guard.is_some()) else { return };
        if m.arms[..=k].iter().any(|a| binds(&a.pat)) || place(&m.expr) && m.arms.iter().any(|a| binds(&a.pat)) {
            // `match v { .., P if G => A, rest }` => `.., P => if G { A } else { match v { rest } }`
            if !place(&m.expr) {
                return;
            }
            while let Some(k) = m.arms.iter().rposition(|a| a.guard.is_some()) {
                self.0 += 1;
                let x = &m.expr;
                let pk = m.arms[k].pat.clone();
                let rest: Vec<Arm> = m.arms[k + 1..].iter().filter(|a| !disjoint(&pk, &a.pat)).cloned().collect();
                let more: TokenStream = if rest.iter().any(|a| matches!(a.pat, Pat::Wild(_) | Pat::Ident(_))) { quote!() } else { quote!(_ => vx_unreachable(),) };
                let rest = rest.iter().map(|a| {
                    let (p, b) = (&a.pat, &a.body);
                    quote!(#p => #b,)
                });
                let (g, b) = (m.arms[k].guard.take().unwrap().1, m.arms[k].body.clone());
                m.arms[k].body = parse_quote!({ if #g { #b } else { match #x { #(#rest)* #more } } });
            }
            // `P => A, P => B`: the second is never reached
            let mut seen: Vec<String> = vec![];
            m.arms.retain(|a| match constr(&a.pat) {
                Some(c) if wide(&a.pat) => {
                    let t = c.join("::");
                    if seen.contains(&t) { false } else { seen.push(t); true }
                }
                _ => true,
            });
            return;
        }
        self.0 += 1;
        let x = &m.expr;
        let rest = &m.arms[k + 1..];
        let more: TokenStream = if rest.iter().any(|a| a.guard.is_none() && matches!(a.pat, Pat::Wild(_) | Pat::Ident(_))) { quote!() } else { quote!(_ => vx_unreachable(),) };
        let rest = rest.iter().map(|a| {
            let (p, b) = (&a.pat, &a.body);
            quote!(#p => #b,)
        });
        let mut r: TokenStream = quote!({ match vx_m { #(#rest)* #more } });
        for a in m.arms[..=k].iter().rev() {
            let (p, b) = (&a.pat, &a.body);
            let g = a.guard.as_ref().map(|(_, g)| quote!(&& (#g)));
            r = quote!({ if (match vx_m { #p => true, _ => false }) #g { #b } else #r });
        }
        *e = parse_quote!({ let vx_m = #x; #r });
    }
}

// ------------------------------------------------ match arms as functions of their own
fn arm_is(p: &Pat, want: &str) -> bool {
    let t = crate::norm(&p.to_token_stream().to_string());
    t == want || t.starts_with(&format!("{want}(")) || t.starts_with(&format!("{want}|")) || t.starts_with(&format!("{want}{{"))
}
struct FindArm<'w>(&'w str, Option<Arm>);
impl<'a, 'w> Visit<'a> for FindArm<'w> {
    fn visit_arm(&mut self, a: &'a Arm) {
        if self.1.is_none() && arm_is(&a.pat, self.0) {
            self.1 = Some(a.clone());
            return;
        }
        visit::visit_arm(self, a);
    }
}
/// body of the arm `want`, as a block whose value is Ok(arm)
/// `tail` Some("fn"): the match is the last but one statement of the function, whose last
/// expression then follows the arm
pub fn arm_body(b: &Block, want: &str, tail: Option<&str>) -> Option<Block> {
    let w = crate::norm(want);
    if tail == Some("fn") {
        let [.., Stmt::Expr(Expr::Match(m), _), Stmt::Expr(end, None)] = &b.stmts[..] else { return None };
        let a = m.arms.iter().find(|a| a.guard.is_none() && arm_is(&a.pat, &w))?;
        let body = &a.body;
        return Some(match &**body {
            Expr::Block(x) => {
                let mut st = x.block.stmts.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                    *semi = Some(Default::default());
                    parse_quote!({ #(#st)* #end })
                } else if let Some(Stmt::Expr(Expr::Return(_), Some(_))) = st.last() {
                    parse_quote!({ #(#st)* })
                } else {
                    parse_quote!({ #(#st)* #end })
                }
            }
            e => parse_quote!({ #e; #end }),
        });
    }
    let tail = tail.is_some();
    let mut f = FindArm(&w, None);
    f.visit_block(b);
    // a guard is evaluated by the function the arm was taken from (opt call), which keeps it
    let a = f.1?;
    Some(match &*a.body {
        // the arm's value is the value of the whole function
        Expr::Block(x) if tail => x.block.clone(),
        e if tail => parse_quote!({ #e }),
        Expr::Block(x) => {
            let mut st = x.block.stmts.clone();
            match st.pop() {
                Some(Stmt::Expr(e, None)) => parse_quote!({ #(#st)* Ok(#e) }),
                // ends in a diverging statement
                Some(s) => parse_quote!({ #(#st)* #s }),
                None => return None,
            }
        }
        e => parse_quote!({ Ok(#e) }),
    })
}
struct LiftArm<'w>(&'w str, Expr, usize, Option<&'w str>);
impl<'w> VisitMut for LiftArm<'w> {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if self.2 == 0 && arm_is(&a.pat, self.0) {
            let e = &self.1;
            a.body = Box::new(match self.3 { Some("fn") => parse_quote!(return #e), Some(_) => parse_quote!(#e), None => parse_quote!(#e?) });
            a.comma = Some(Default::default());
            self.2 = 1;
            return;
        }
        visit_mut::visit_arm_mut(self, a);
    }
}
pub fn lift_arm(b: &mut Block, want: &str, call: &str, tail: Option<&str>) -> Option<()> {
    let w = crate::norm(want);
    let mut l = LiftArm(&w, parse_str(call).ok()?, 0, tail);
    l.visit_block_mut(b);
    (l.2 == 1).then_some(())
}

/// string literals handed to write_str
#[derive(Default)]
pub struct Lits(pub std::collections::BTreeSet<String>, bool, pub std::collections::BTreeSet<Vec<u8>>, pub bool);
impl<'a> Visit<'a> for Lits {
    fn visit_expr_array(&mut self, a: &'a ExprArray) {
        let v: Option<Vec<u8>> = a.elems.iter().map(|e| match e {
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.suffix() == "u8" => n.base10_parse::<u8>().ok().filter(|c| (0x20..0x7f).contains(c) || *c == b'\n'),
            _ => None,
        }).collect();
        if let Some(v) = v.filter(|v| v.len() > 1) {
            self.2.insert(v);
        }
        visit::visit_expr_array(self, a);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let old = self.1;
        self.1 |= if self.3 { m.method == "as_bytes" } else { m.method == "write_str" };
        visit::visit_expr_method_call(self, m);
        self.1 = old;
    }
    fn visit_lit_str(&mut self, l: &'a LitStr) {
        if self.1 {
            self.0.insert(l.to_token_stream().to_string());
        }
    }
}

/// The statements from the first that starts with `from` up to the first after it that starts with
/// `to` (which is not included), of one block; replaced by `new` if given.
pub struct Seg<'w> {
    pub from: &'w str,
    pub to: &'w str,
    pub new: Option<Stmt>,
    pub got: Option<Vec<Stmt>>,
}
impl VisitMut for Seg<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.got.is_some() {
            return;
        }
        let at = |s: &Stmt, w: &str| {
            let t = crate::norm(&s.to_token_stream().to_string());
            let mut t = t.as_str();
            // attributes
            while t.starts_with('#') {
                t = t.split_once(']').map_or("", |x| x.1).trim_start();
            }
            t.starts_with(&crate::norm(w))
        };
        if let Some(i) = b.stmts.iter().position(|s| at(s, self.from)) {
            // `$`: up to the end of the block
            if let Some(n) = if self.to == "$" { Some(b.stmts.len() - i) } else { b.stmts[i..].iter().position(|s| at(s, self.to)) } {
                let v: Vec<Stmt> = match self.new.take() {
                    Some(s) => b.stmts.splice(i..i + n, [s]).collect(),
                    None => b.stmts[i..i + n].to_vec(),
                };
                self.got = Some(v);
                return;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// `return X` => `return Err(X)`, `E?` on an Option => `match E { Some(v) => v, None => return Err(None) }`
pub struct SegRet {
    /// `?` is on a Result whose error is converted
    pub q: bool,
}
impl VisitMut for SegRet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let n: Expr = match e {
            Expr::Return(r) => {
                let x = r.expr.take().unwrap_or_else(|| parse_quote!(()));
                parse_quote!(return Err(#x))
            }
            Expr::Try(t) => {
                let x = &t.expr;
                if self.q {
                    parse_quote!((match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(Err(vx_from(vx_e))) }))
                } else {
                    parse_quote!((match #x { Some(v) => v, None => return Err(None) }))
                }
            }
            _ => return,
        };
        *e = n;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `if true { A } else { B }` => `{ A }`
pub struct ConstIf(pub usize);
impl VisitMut for ConstIf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::If(i) = e {
            if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &*i.cond {
                let n: Option<Expr> = if b.value {
                    let t = &i.then_branch;
                    Some(parse_quote!(#t))
                } else {
                    i.else_branch.as_ref().map(|x| (*x.1).clone())
                };
                if let Some(n) = n {
                    *e = n;
                    self.0 += 1;
                }
            }
        }
    }
}
