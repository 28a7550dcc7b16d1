//! Normalisation of a source text before it is extracted: calls of helper functions
//! that have no contract of their own are replaced by the bodies of the helpers, and
//! a few combinators by the `match` they stand for. Every step is an equality of Rust
//! programs; a call for which this is not obvious is left alone (its host is then
//! reported as calling an unknown helper).
use std::collections::{BTreeMap, BTreeSet};

use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

use crate::contract::FileContract;
use crate::{is_test, rng};

#[derive(Clone)]
struct Helper {
    params: Vec<(syn::Pat, syn::Type)>,
    recv: bool,
    /// `self` as it is declared
    recv_kind: String,
    asy: bool,
    /// the names of its type parameters
    generic: Vec<String>,
    ret: String,
    body: syn::Block,
    owner: String,
}

fn ret_of(sig: &syn::Signature) -> String {
    match &sig.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => t.to_token_stream().to_string().replace(' ', ""),
    }
}

/// The error type of a result, as it is written.
fn err_of(ret: &str) -> Option<String> {
    let r = ret.trim_end_matches('>');
    if let Some(x) = ret.strip_prefix("anyhow::Result<") {
        let _ = x;
        return Some("anyhow::Error".into());
    }
    if !ret.starts_with("Result<") {
        return None;
    }
    let inner = &ret["Result<".len()..ret.len() - 1];
    let mut depth = 0;
    let mut at = None;
    for (i, c) in inner.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => at = Some(i),
            _ => {}
        }
    }
    let _ = r;
    at.map(|i| inner[i + 1..].to_string())
}

/// Exits of a body: `return` and `?` outside of closures and async blocks.
#[derive(Default)]
struct Exits {
    ret: bool,
    q: bool,
    odd: bool,
    bare_self: bool,
    macros: String,
    bound: BTreeSet<String>,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        match e {
            syn::Expr::Return(_) => {
                self.ret = true;
                visit::visit_expr(self, e)
            }
            syn::Expr::Try(_) => {
                self.q = true;
                visit::visit_expr(self, e)
            }
            syn::Expr::Closure(_) | syn::Expr::Async(_) => {
                let mut x = Exits::default();
                visit::visit_expr(&mut x, e);
                self.bare_self |= x.bare_self;
                self.macros.push_str(&x.macros);
                self.bound.extend(x.bound);
            }
            syn::Expr::Field(f) => {
                if let syn::Expr::Path(p) = &*f.base {
                    if p.path.is_ident("self") {
                        return;
                    }
                }
                visit::visit_expr(self, e)
            }
            syn::Expr::MethodCall(m) => {
                if let syn::Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        for a in &m.args {
                            self.visit_expr(a);
                        }
                        return;
                    }
                }
                visit::visit_expr(self, e)
            }
            syn::Expr::Path(p) => {
                if p.path.is_ident("self") {
                    self.bare_self = true;
                }
            }
            syn::Expr::Yield(_) | syn::Expr::Unsafe(_) => self.odd = true,
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let t = m.tokens.to_string();
        if n == "bail" || n == "ensure" || t.contains("return") || t.contains('?') {
            self.odd = true;
        }
        self.macros.push_str(&t);
        self.macros.push(' ');
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {
        self.odd = true;
    }
}

fn word(text: &str, w: &str) -> bool {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}

struct Subst<'a>(&'a BTreeMap<String, syn::Expr>);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(x) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Expr::Path(p) = &f.expr {
                if p.path.segments.len() == 1 && self.0.contains_key(&p.path.segments[0].ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

/// `tail` of a function that returns a result, as the value of `f()?`.
/// A value whose type its text leaves open, with its type.
fn typed(text: &str, ret: &str) -> String {
    let open = text.contains(". into ()") || text.contains(". parse (") || text.contains(". collect (");
    if !open || ret.contains("impl") || ret.contains('\'') || word(ret, "Self") {
        return format!("({})", text);
    }
    format!("{{ let __t: {} = {}; __t }}", ret, text)
}

fn push_try(e: syn::Expr, ret: &str) -> syn::Expr {
    match e {
        syn::Expr::Block(mut b) if b.label.is_none() => {
            b.block = push_try_block(b.block, ret);
            syn::Expr::Block(b)
        }
        syn::Expr::If(mut i) if i.else_branch.is_some() => {
            i.then_branch = push_try_block(i.then_branch, ret);
            let (t, x) = i.else_branch.take().unwrap();
            i.else_branch = Some((t, Box::new(push_try(*x, ret))));
            syn::Expr::If(i)
        }
        syn::Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let b = std::mem::replace(&mut *a.body, syn::Expr::Verbatim(Default::default()));
                *a.body = push_try(b, ret);
                if a.comma.is_none() {
                    a.comma = Some(Default::default());
                }
            }
            syn::Expr::Match(m)
        }
        syn::Expr::Return(_) => e,
        syn::Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string();
            if f == "Ok" && c.args.len() == 1 {
                let a = c.args[0].clone();
                return a;
            }
            if f == "Err" && c.args.len() == 1 {
                return parse(&format!("return {}", c.to_token_stream()));
            }
            parse(&format!("{}?", typed(&c.to_token_stream().to_string(), ret)))
        }
        x => parse(&format!("{}?", typed(&x.to_token_stream().to_string(), ret))),
    }
}

fn parse(s: &str) -> syn::Expr {
    syn::parse_str(s).unwrap_or_else(|_| syn::Expr::Verbatim(s.parse().unwrap_or_default()))
}

fn push_try_block(mut b: syn::Block, ret: &str) -> syn::Block {
    match b.stmts.pop() {
        Some(syn::Stmt::Expr(e, None)) => {
            let e = push_try(e, ret);
            b.stmts.push(syn::Stmt::Expr(e, None));
            b
        }
        Some(s) => {
            b.stmts.push(s);
            b
        }
        None => b,
    }
}

fn exits_of(s: &syn::Stmt) -> Exits {
    let mut x = Exits::default();
    x.visit_stmt(s);
    x
}
fn exits_of_expr(e: &syn::Expr) -> Exits {
    let mut x = Exits::default();
    x.visit_expr(e);
    x
}
fn diverges(b: &syn::Block) -> bool {
    b.stmts.last().map(|s| matches!(s, syn::Stmt::Expr(e, _) if diverges_expr(e))).unwrap_or(false)
}
fn diverges_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => diverges(&b.block),
        syn::Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map(|x| diverges_expr(&x.1)).unwrap_or(false),
        syn::Expr::Match(m) => m.arms.iter().all(|a| diverges_expr(&a.body)),
        _ => false,
    }
}
fn block_of(stmts: Vec<syn::Stmt>) -> syn::Block {
    syn::Block { brace_token: Default::default(), stmts }
}
fn eblock(stmts: Vec<syn::Stmt>) -> syn::Expr {
    syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: block_of(stmts) })
}
/// The same expression, in the place of the value of a function, without `return`.
fn unret_expr(e: &syn::Expr) -> Option<syn::Expr> {
    if !exits_of_expr(e).ret {
        return Some(e.clone());
    }
    match e {
        syn::Expr::Return(r) => match &r.expr {
            Some(x) if exits_of_expr(x).ret => None,
            Some(x) => Some((**x).clone()),
            None => Some(parse("()")),
        },
        syn::Expr::Block(b) if b.label.is_none() => Some(eblock(unret(&b.block.stmts)?)),
        syn::Expr::If(i) if !exits_of_expr(&i.cond).ret => {
            let mut i = i.clone();
            let (t, x) = i.else_branch.take()?;
            i.then_branch = block_of(unret(&i.then_branch.stmts)?);
            i.else_branch = Some((t, Box::new(unret_expr(&x)?)));
            Some(syn::Expr::If(i))
        }
        syn::Expr::Match(m) if !exits_of_expr(&m.expr).ret => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = unret_expr(&a.body)?;
                a.comma = Some(Default::default());
            }
            Some(syn::Expr::Match(m))
        }
        _ => None,
    }
}
/// A pattern with the copies `&x` taken out of it, and the statements that make them.
fn unref(p: &syn::Pat) -> Option<(String, String)> {
    struct R(Vec<String>);
    impl VisitMut for R {
        fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
            if let syn::Pat::Reference(r) = p {
                if let syn::Pat::Ident(i) = &*r.pat {
                    if i.subpat.is_none() && i.mutability.is_none() && i.by_ref.is_none() {
                        let n = i.ident.to_string();
                        *p = syn::Pat::Ident(syn::PatIdent {
                            attrs: vec![],
                            by_ref: None,
                            mutability: None,
                            ident: syn::Ident::new(&format!("__p_{}", n), proc_macro2::Span::call_site()),
                            subpat: None,
                        });
                        self.0.push(n);
                        return;
                    }
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut q = p.clone();
    let mut r = R(vec![]);
    r.visit_pat_mut(&mut q);
    if r.0.is_empty() {
        return None;
    }
    let lets = r.0.iter().map(|n| format!("let {} = * __p_{}; ", n, n)).collect::<String>();
    Some((q.to_token_stream().to_string(), lets))
}
fn names(p: &syn::Pat) -> BTreeSet<String> {
    let mut x = Exits::default();
    x.visit_pat(p);
    x.bound
}
/// The `?` that an expression evaluates first, innermost first.
fn first_try(e: &mut syn::Expr) -> Option<&mut syn::Expr> {
    fn has(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Try(_) => true,
            syn::Expr::MethodCall(m) => has(&m.receiver),
            syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(_)) && c.args.first().map(has).unwrap_or(false),
            syn::Expr::Field(f) => has(&f.base),
            syn::Expr::Paren(p) => has(&p.expr),
            syn::Expr::Reference(r) => has(&r.expr),
            syn::Expr::Unary(u) => has(&u.expr),
            syn::Expr::Cast(c) => has(&c.expr),
            syn::Expr::Binary(b) => has(&b.left),
            syn::Expr::If(i) => has(&i.cond),
            syn::Expr::Match(m) => has(&m.expr),
            _ => false,
        }
    }
    if !has(e) {
        return None;
    }
    if matches!(&*e, syn::Expr::Try(t) if !has(&t.expr)) {
        return Some(e);
    }
    match e {
        syn::Expr::Try(t) => first_try(&mut t.expr),
        syn::Expr::MethodCall(m) => first_try(&mut m.receiver),
        syn::Expr::Call(c) => first_try(c.args.first_mut()?),
        syn::Expr::Field(f) => first_try(&mut f.base),
        syn::Expr::Paren(p) => first_try(&mut p.expr),
        syn::Expr::Reference(r) => first_try(&mut r.expr),
        syn::Expr::Unary(u) => first_try(&mut u.expr),
        syn::Expr::Cast(c) => first_try(&mut c.expr),
        syn::Expr::Binary(b) => first_try(&mut b.left),
        syn::Expr::If(i) => first_try(&mut i.cond),
        syn::Expr::Match(m) => first_try(&mut m.expr),
        _ => None,
    }
}
/// The same body with `?` on an option written as a match that returns, at the level of its statements.
fn option_tries(b: &syn::Block) -> syn::Block {
    let mut out: Vec<syn::Stmt> = vec![];
    let mut n = 0;
    for s in &b.stmts {
        let mut s = s.clone();
        loop {
            let e = match &mut s {
                syn::Stmt::Local(l) => match &mut l.init {
                    Some(i) => &mut *i.expr,
                    None => break,
                },
                syn::Stmt::Expr(e, _) => e,
                _ => break,
            };
            let Some(t) = first_try(e) else { break };
            let inner = match &*t {
                syn::Expr::Try(t) => t.expr.to_token_stream().to_string(),
                _ => break,
            };
            let text = format!("{{ let __q{} = match {} {{ Some(__v) => __v, None => return None }}; }}", n, inner);
            let Ok(x) = syn::parse_str::<syn::Block>(&text) else { break };
            *t = parse(&format!("__q{}", n));
            n += 1;
            out.extend(x.stmts);
        }
        out.push(s);
    }
    block_of(out)
}
/// The same statements without `return`, when every `return` ends a branch.
fn unret(stmts: &[syn::Stmt]) -> Option<Vec<syn::Stmt>> {
    let Some(k) = stmts.iter().position(|s| exits_of(s).ret) else { return Some(stmts.to_vec()) };
    let mut out: Vec<syn::Stmt> = stmts[..k].to_vec();
    let rest = &stmts[k + 1..];
    let rest_text = rest.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
    let clash = |p: &syn::Pat| names(p).iter().any(|n| word(&rest_text, n));
    // what follows, after a value was bound
    let bind = |first: Option<syn::Stmt>| -> Option<Vec<syn::Stmt>> {
        let mut v: Vec<syn::Stmt> = first.into_iter().collect();
        v.extend(unret(rest)?);
        Some(v)
    };
    let tail = |e: syn::Expr| syn::Stmt::Expr(e, None);
    match &stmts[k] {
        syn::Stmt::Expr(e, semi) => {
            if rest.is_empty() && semi.is_none() || diverges_expr(e) {
                out.push(tail(unret_expr(e)?));
                return Some(out);
            }
            match e {
                syn::Expr::If(i) if !exits_of_expr(&i.cond).ret => {
                    let mut i = i.clone();
                    let els = i.else_branch.take();
                    if diverges(&i.then_branch) {
                        i.then_branch = block_of(unret(&i.then_branch.stmts)?);
                        let first = match els {
                            None => None,
                            Some((_, x)) if !exits_of_expr(&x).ret => Some(syn::Stmt::Expr(*x, Some(Default::default()))),
                            Some(_) => return None,
                        };
                        i.else_branch = Some((Default::default(), Box::new(eblock(bind(first)?))));
                        out.push(tail(syn::Expr::If(i)));
                        return Some(out);
                    }
                    None
                }
                syn::Expr::Match(m) if !exits_of_expr(&m.expr).ret => {
                    let live: Vec<usize> = (0..m.arms.len()).filter(|j| !diverges_expr(&m.arms[*j].body)).collect();
                    if live.len() != 1 || clash(&m.arms[live[0]].pat) || exits_of_expr(&m.arms[live[0]].body).ret {
                        return None;
                    }
                    let mut m = m.clone();
                    for (j, a) in m.arms.iter_mut().enumerate() {
                        *a.body = if j == live[0] {
                            eblock(bind(Some(syn::Stmt::Expr((*a.body).clone(), Some(Default::default()))))?)
                        } else {
                            unret_expr(&a.body)?
                        };
                        a.comma = Some(Default::default());
                    }
                    out.push(tail(syn::Expr::Match(m)));
                    Some(out)
                }
                _ => None,
            }
        }
        syn::Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = l.pat.to_token_stream().to_string();
            if let Some((_, d)) = &init.diverge {
                if exits_of_expr(&init.expr).ret || !diverges_expr(d) {
                    return None;
                }
                let d = unret_expr(d)?;
                let r = eblock(bind(None)?);
                out.push(tail(parse(&format!(
                    "match {} {{ {} => {}, _ => {} }}",
                    init.expr.to_token_stream(), pat, r.to_token_stream(), d.to_token_stream()
                ))));
                return Some(out);
            }
            let to_let = |v: &syn::Expr| -> Option<syn::Stmt> {
                let mut l = l.clone();
                *l.init.as_mut()?.expr = v.clone();
                Some(syn::Stmt::Local(l))
            };
            match &*init.expr {
                syn::Expr::Match(m) if !exits_of_expr(&m.expr).ret => {
                    let live: Vec<usize> = (0..m.arms.len()).filter(|j| !diverges_expr(&m.arms[*j].body)).collect();
                    if live.len() != 1 {
                        return None;
                    }
                    let a = &m.arms[live[0]];
                    let mine = names(&l.pat);
                    if exits_of_expr(&a.body).ret || names(&a.pat).iter().any(|n| !mine.contains(n) && word(&rest_text, n)) {
                        return None;
                    }
                    let mut m = m.clone();
                    for (j, a) in m.arms.iter_mut().enumerate() {
                        *a.body = if j == live[0] { eblock(bind(Some(to_let(&a.body)?))?) } else { unret_expr(&a.body)? };
                        a.comma = Some(Default::default());
                    }
                    out.push(tail(syn::Expr::Match(m)));
                    Some(out)
                }
                syn::Expr::If(i) if !exits_of_expr(&i.cond).ret => {
                    let (_, x) = i.else_branch.as_ref()?;
                    let mut i2 = i.clone();
                    let then_e = eblock(i.then_branch.stmts.clone());
                    if diverges_expr(x) && !exits_of_expr(&then_e).ret {
                        if let syn::Expr::Let(c) = &*i.cond {
                            let mine = names(&l.pat);
                            if names(&c.pat).iter().any(|n| !mine.contains(n) && word(&rest_text, n)) {
                                return None;
                            }
                        }
                        i2.then_branch = block_of(bind(Some(to_let(&then_e)?))?);
                        i2.else_branch = Some((Default::default(), Box::new(unret_expr(x)?)));
                    } else if diverges_expr(&then_e) && !exits_of_expr(x).ret {
                        i2.then_branch = block_of(unret(&i.then_branch.stmts)?);
                        i2.else_branch = Some((Default::default(), Box::new(eblock(bind(Some(to_let(x)?))?))));
                    } else {
                        return None;
                    }
                    out.push(tail(syn::Expr::If(i2)));
                    Some(out)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// A call that can be replaced.
struct Site {
    at: (usize, usize),
    text: String,
}

struct Finder<'a> {
    src: &'a str,
    helpers: &'a BTreeMap<String, Helper>,
    ty: String,
    ret: String,
    /// inside of a closure or an async block
    inner: usize,
    /// the calls whose value is the value of the function
    tails: BTreeSet<(usize, usize)>,
    /// the expressions under `?` / `.await`, with the extent of the whole
    tries: BTreeMap<(usize, usize), (usize, usize)>,
    awaits: BTreeMap<(usize, usize), (usize, usize)>,
    host_self: String,
    host: String,
    site: Option<Site>,
}

fn tails(e: &syn::Expr, out: &mut BTreeSet<(usize, usize)>) {
    match e {
        syn::Expr::Block(b) if b.label.is_none() => tails_b(&b.block, out),
        syn::Expr::If(i) => {
            if let Some((_, x)) = &i.else_branch {
                tails_b(&i.then_branch, out);
                tails(x, out);
            }
        }
        syn::Expr::Match(m) => {
            for a in &m.arms {
                tails(&a.body, out)
            }
        }
        syn::Expr::Await(a) => {
            out.insert(rng(e.span()));
            tails(&a.base, out)
        }
        _ => {
            out.insert(rng(e.span()));
        }
    }
}
fn tails_b(b: &syn::Block, out: &mut BTreeSet<(usize, usize)>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tails(e, out)
    }
}

impl<'a> Finder<'a> {
    fn function(&mut self, sig: &syn::Signature, b: &syn::Block) {
        self.ret = ret_of(sig);
        self.host = sig.ident.to_string();
        self.host_self = sig.receiver().map(|r| r.to_token_stream().to_string()).unwrap_or_default();
        self.tails.clear();
        tails_b(b, &mut self.tails);
        self.visit_block(b);
    }

    fn call(&mut self, h: &Helper, recv: Option<&syn::Expr>, args: Vec<syn::Expr>, at: (usize, usize)) -> Option<Site> {
        let mut whole = at;
        if h.asy {
            whole = *self.awaits.get(&at)?;
        }
        let mut ex = Exits::default();
        ex.visit_block(&h.body);
        if ex.odd || args.len() != h.params.len() {
            return None;
        }
        let mut body = h.body.clone();
        if ex.q && h.ret.starts_with("Option<") {
            let b = option_tries(&body);
            let mut x = Exits::default();
            x.visit_block(&b);
            if unret(&b.stmts).is_some() && !x.q {
                ex = x;
                body = b;
            }
        }
        if ex.ret {
            if let Some(b) = unret(&body.stmts) {
                body.stmts = b;
                ex = Exits::default();
                ex.visit_block(&body);
            }
        }
        // where the value of the call goes
        let mut under_try = None;
        if ex.ret || ex.q {
            if self.inner > 0 {
                return None;
            }
            if let Some(t) = self.tries.get(&whole) {
                if err_of(&h.ret).is_none() || err_of(&h.ret) != err_of(&self.ret) {
                    return None;
                }
                if ex.ret {
                    // only errors may be returned early
                    struct R(bool);
                    impl<'x> Visit<'x> for R {
                        fn visit_expr_return(&mut self, r: &'x syn::ExprReturn) {
                            let ok = match &r.expr {
                                Some(e) => matches!(&**e, syn::Expr::Call(c) if c.func.to_token_stream().to_string() == "Err"),
                                None => false,
                            };
                            self.0 |= !ok;
                        }
                    }
                    // a `return` in the place of the value is dealt with by `push_try`
                    let mut r = R(false);
                    r.visit_block(&body);
                    if r.0 {
                        return None;
                    }
                }
                under_try = Some(*t);
            } else if self.tails.contains(&whole) && self.ret == h.ret {
                // its exits are exits of the host
            } else {
                return None;
            }
        }
        if under_try.is_none() && self.inner == 0 && err_of(&h.ret).is_some() && err_of(&h.ret) == err_of(&self.ret) {
            under_try = self.tries.get(&whole).copied();
        }
        if let Some(t) = under_try {
            body = push_try_block(body, &h.ret);
            whole = t;
        }
        let mut sub: BTreeMap<String, syn::Expr> = BTreeMap::new();
        let mut lets = vec![];
        if h.recv {
            let r = recv?;
            let is_self = matches!(r, syn::Expr::Path(p) if p.path.is_ident("self"));
            if is_self {
                if ex.bare_self && self.host_self != h.recv_kind {
                    return None;
                }
            } else {
                if ex.bare_self || word(&ex.macros, "self") {
                    return None;
                }
                // a chain of fields from a variable, or a value that is looked at
                let mut x = r;
                let chain = loop {
                    match x {
                        syn::Expr::Field(f) => x = &f.base,
                        syn::Expr::Path(p) if p.path.segments.len() == 1 => {
                            break !ex.bound.contains(&p.path.segments[0].ident.to_string());
                        }
                        _ => break false,
                    }
                };
                if chain {
                    sub.insert("self".into(), r.clone());
                } else if h.recv_kind.replace(' ', "") == "&self" {
                    lets.push(("__s".to_string(), String::new(), format!("& ({})", r.to_token_stream())));
                    sub.insert("self".into(), parse("__s"));
                } else {
                    return None;
                }
            }
        } else if recv.is_some() {
            return None;
        }
        for ((pat, ty), arg) in h.params.iter().zip(args.iter()) {
            let simple = match pat {
                syn::Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()),
                _ => None,
            };
            let tt = ty.to_token_stream().to_string();
            // an argument that is a variable, or a reference to one
            let plain = |e: &syn::Expr| match e {
                syn::Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
                syn::Expr::Reference(r) => match &*r.expr {
                    syn::Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
                    _ => None,
                },
                _ => None,
            };
            if let (Some(n), Some(v)) = (&simple, plain(arg)) {
                let is_ref = matches!(arg, syn::Expr::Reference(_));
                if !word(&ex.macros, n) && !ex.bound.contains(n) && !ex.bound.contains(&v) {
                    if *n != v || is_ref {
                        let x = if is_ref { parse(&format!("({})", arg.to_token_stream())) } else { arg.clone() };
                        sub.insert(n.clone(), x);
                    }
                    continue;
                }
            }
            if tt.contains("impl ") || h.generic.iter().any(|g| word(&tt, g)) {
                lets.push((pat.to_token_stream().to_string(), String::new(), arg.to_token_stream().to_string()));
            } else {
                lets.push((pat.to_token_stream().to_string(), tt, arg.to_token_stream().to_string()));
            }
        }
        Subst(&sub).visit_block_mut(&mut body);
        let mut t = String::from("{ ");
        if lets.len() == 1 {
            let (p, ty, a) = &lets[0];
            let ty = if ty.is_empty() { String::new() } else { format!(": {}", ty) };
            t.push_str(&format!("let {}{} = {}; ", p, ty, a));
        } else if !lets.is_empty() {
            // evaluated in order, before any of the names is bound
            for (k, (_, _, a)) in lets.iter().enumerate() {
                t.push_str(&format!("let __a{} = {}; ", k, a));
            }
            for (k, (p, ty, _)) in lets.iter().enumerate() {
                let ty = if ty.is_empty() { String::new() } else { format!(": {}", ty) };
                t.push_str(&format!("let {}{} = __a{}; ", p, ty, k));
            }
        }
        let b = body.to_token_stream().to_string();
        let inner = b.trim().trim_start_matches('{');
        let inner = &inner[..inner.rfind('}')?];
        t.push_str(inner);
        t.push_str(" }");
        let _ = &h.owner;
        Some(Site { at: whole, text: t })
    }
}

impl<'a, 'x> Visit<'x> for Finder<'a> {
    fn visit_item_mod(&mut self, m: &'x syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_fn(&mut self, f: &'x syn::ItemFn) {
        if !is_test(&f.attrs) {
            self.function(&f.sig, &f.block);
        }
    }
    fn visit_item_impl(&mut self, i: &'x syn::ItemImpl) {
        if is_test(&i.attrs) {
            return;
        }
        self.ty = type_name(&i.self_ty);
        for x in &i.items {
            if let syn::ImplItem::Fn(f) = x {
                if !is_test(&f.attrs) {
                    self.function(&f.sig, &f.block);
                }
            }
        }
        self.ty.clear();
    }
    fn visit_expr(&mut self, e: &'x syn::Expr) {
        if self.site.is_some() {
            return;
        }
        let at = rng(e.span());
        match e {
            syn::Expr::Try(t) => {
                self.tries.insert(rng(t.expr.span()), at);
            }
            syn::Expr::Await(t) => {
                self.awaits.insert(rng(t.base.span()), at);
            }
            syn::Expr::Return(r) if self.inner == 0 => {
                if let Some(x) = &r.expr {
                    tails(x, &mut self.tails);
                }
            }
            syn::Expr::Closure(_) | syn::Expr::Async(_) => {
                if let syn::Expr::Closure(c) = e {
                    let x = exits_of_expr(&c.body);
                    if let (true, syn::Expr::Block(b)) = (x.ret && !x.q && !x.odd, &*c.body) {
                        if let Some(v) = unret(&b.block.stmts) {
                            self.site = Some(Site { at: rng(c.body.span()), text: eblock(v).to_token_stream().to_string() });
                            return;
                        }
                    }
                }
                if let syn::Expr::Closure(c) = e {
                    if let (1, Some(p)) = (c.inputs.len(), c.inputs.first()) {
                        if let (Some((p, lets)), true) = (unref(p), c.output == syn::ReturnType::Default) {
                            let head = if c.capture.is_some() { "move " } else { "" };
                            let text = format!("{}| {} | {{ {} {} }}", head, p, lets, c.body.to_token_stream());
                            self.site = Some(Site { at, text });
                            return;
                        }
                    }
                }
                self.inner += 1;
                visit::visit_expr(self, e);
                self.inner -= 1;
                return;
            }
            _ => {}
        }
        // `spawn(f(x))`: the task is the body of `f`
        if let syn::Expr::Call(c) = e {
            let spawn = matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "spawn").unwrap_or(false));
            if let (true, Some(syn::Expr::Call(f))) = (spawn && c.args.len() == 1, c.args.first()) {
                if let syn::Expr::Path(p) = &*f.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = if segs.len() == 2 && segs[0] == "Self" { format!("{}::{}", self.ty, segs[1]) } else { segs.join("::") };
                    let plain = f.args.iter().all(|a| matches!(a, syn::Expr::Path(p) if p.path.get_ident().is_some()));
                    if plain && self.helpers.get(&key).map(|h| h.asy && !h.recv).unwrap_or(false) {
                        self.site = Some(Site { at: rng(f.span()), text: format!("async move {{ {} . await }}", f.to_token_stream()) });
                        return;
                    }
                }
            }
        }
        // what is evaluated first is replaced first
        visit::visit_expr(self, e);
        if self.site.is_some() {
            return;
        }
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = match segs.len() {
                        1 => segs[0].clone(),
                        2 if segs[0] == "Self" && !self.ty.is_empty() => format!("{}::{}", self.ty, segs[1]),
                        2 => format!("{}::{}", segs[0], segs[1]),
                        _ => return,
                    };
                    if let Some(h) = self.helpers.get(&key).cloned() {
                        if h.recv || h.owner == self.host && self.ty.is_empty() {
                            return;
                        }
                        self.site = self.call(&h, None, c.args.iter().cloned().collect(), at);
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let is_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                let h = if is_self {
                    self.helpers.get(&format!("{}::{}", self.ty, n)).cloned()
                } else {
                    let mut c = self.helpers.iter().filter(|(k, h)| h.recv && k.ends_with(&format!("::{}", n)));
                    match (c.next(), c.next()) {
                        (Some((_, h)), None) => Some(h.clone()),
                        _ => None,
                    }
                };
                if let Some(h) = h {
                    self.site = self.call(&h, Some(&m.receiver), m.args.iter().cloned().collect(), at);
                    if self.site.is_some() {
                        return;
                    }
                }
                self.combinator(m, at);
            }
            syn::Expr::ForLoop(l) => {
                if let Some((p, lets)) = unref(&l.pat) {
                    let label = l.label.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                    let body = l.body.to_token_stream().to_string();
                    let body = body.trim_start().trim_start_matches('{');
                    let text = format!("{} for {} in {} {{ {} {}", label, p, l.expr.to_token_stream(), lets, body);
                    self.site = Some(Site { at, text });
                }
            }
            _ => {}
        }
    }
}

impl<'a> Finder<'a> {
    /// A function given by its name becomes a closure, and combinators without a
    /// rule of their own the `match` they stand for.
    fn combinator(&mut self, m: &syn::ExprMethodCall, at: (usize, usize)) {
        let n = m.method.to_string();
        let t = |e: &dyn ToTokens| e.to_token_stream().to_string();
        let r = || t(&m.receiver);
        let path = |e: &syn::Expr| matches!(e, syn::Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().chars().next().unwrap().is_uppercase() || p.path.segments.len() > 1);
        // `|p| e`, without exits
        let clo = |e: &syn::Expr| -> Option<(String, String)> {
            if let syn::Expr::Closure(c) = e {
                let mut x = Exits::default();
                x.visit_expr(&c.body);
                if x.ret || x.q || x.odd || c.inputs.len() > 1 {
                    return None;
                }
                let p = c.inputs.first().map(|p| match p {
                    syn::Pat::Type(t) => t.pat.to_token_stream().to_string(),
                    p => p.to_token_stream().to_string(),
                });
                return Some((p.unwrap_or_default(), t(&c.body)));
            }
            if path(e) {
                return Some(("__v".into(), format!("{}(__v)", t(e))));
            }
            None
        };
        let text = match (n.as_str(), m.args.len()) {
            ("map" | "map_err" | "and_then" | "or_else", 1) if path(&m.args[0]) => {
                let (p, b) = clo(&m.args[0]).unwrap();
                format!("{} . {} (| {} | {})", r(), n, p, b)
            }
            ("map_or", 2) => match clo(&m.args[1]) {
                Some((p, b)) => {
                    let d = t(&m.args[0]);
                    if matches!(m.args[0], syn::Expr::Lit(_) | syn::Expr::Path(_)) {
                        format!("(match crate :: shim :: Open_ :: open_({}) {{ Ok({}) => {}, Err(_) => {} }})", r(), p, b, d)
                    } else {
                        format!("({{ let __r = crate :: shim :: Open_ :: open_({}); let __d = {}; match __r {{ Ok({}) => {}, Err(_) => __d }} }})", r(), d, p, b)
                    }
                }
                None => return,
            },
            ("map_or_else", 2) => match (clo(&m.args[0]), clo(&m.args[1])) {
                (Some((q, c)), Some((p, b))) => {
                    let q = if q.is_empty() { "_".into() } else { q };
                    format!("(match crate :: shim :: Open_ :: open_({}) {{ Ok({}) => {}, Err({}) => {} }})", r(), p, b, q, c)
                }
                _ => return,
            },
            ("is_some_and" | "is_ok_and", 1) => match clo(&m.args[0]) {
                Some((p, b)) => format!("(match crate :: shim :: Open_ :: open_({}) {{ Ok({}) => {}, Err(_) => false }})", r(), p, b),
                None => return,
            },
            ("is_none_or", 1) => match clo(&m.args[0]) {
                Some((p, b)) => format!("(match crate :: shim :: Open_ :: open_({}) {{ Ok({}) => {}, Err(_) => true }})", r(), p, b),
                None => return,
            },
            ("unwrap_or_default", 0) => {
                format!("(match crate :: shim :: Open_ :: open_({}) {{ Ok(__v) => __v, Err(_) => crate :: shim :: default_() }})", r())
            }
            ("filter", 1) => match (&*m.receiver, clo(&m.args[0])) {
                (syn::Expr::Call(c), Some((p, b))) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Some" => {
                    format!("({{ let __f = {}; if {{ let {} = & __f; {} }} {{ Some(__f) }} else {{ None }} }})", t(&c.args[0]), p, b)
                }
                _ => return,
            },
            ("then", 1) => match clo(&m.args[0]) {
                Some((p, b)) if p.is_empty() => format!("(if {} {{ Some({}) }} else {{ None }})", r(), b),
                _ => return,
            },
            ("then_some", 1) if matches!(m.args[0], syn::Expr::Lit(_) | syn::Expr::Path(_)) => {
                format!("(if {} {{ Some({}) }} else {{ None }})", r(), t(&m.args[0]))
            }
            _ => return,
        };
        self.site = Some(Site { at, text });
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}

fn helper(sig: &syn::Signature, body: &syn::Block, owner: &str) -> Option<Helper> {
    // a body that names a parameter of its type is left alone
    let generic: Vec<String> = sig
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Lifetime(_) => None,
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            syn::GenericParam::Const(c) => Some(c.ident.to_string()),
        })
        .collect();
    let text = body.to_token_stream().to_string();
    if sig.unsafety.is_some() || generic.iter().any(|g| word(&text, g)) {
        return None;
    }
    let mut params = vec![];
    let mut recv = false;
    let mut recv_kind = String::new();
    for i in &sig.inputs {
        match i {
            syn::FnArg::Receiver(r) => {
                recv = true;
                recv_kind = r.to_token_stream().to_string();
            }
            syn::FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
        }
    }
    // of itself
    struct Calls(String, bool);
    impl<'x> Visit<'x> for Calls {
        fn visit_path(&mut self, p: &'x syn::Path) {
            self.1 |= p.segments.last().map(|s| s.ident == self.0).unwrap_or(false);
            visit::visit_path(self, p);
        }
        fn visit_expr_method_call(&mut self, m: &'x syn::ExprMethodCall) {
            self.1 |= m.method == self.0;
            visit::visit_expr_method_call(self, m);
        }
        fn visit_macro(&mut self, m: &'x syn::Macro) {
            self.1 |= m.tokens.to_string().contains(&format!("{} (", self.0));
        }
    }
    let mut c = Calls(sig.ident.to_string(), false);
    c.visit_block(body);
    if c.1 {
        return None;
    }
    Some(Helper {
        params,
        recv,
        recv_kind,
        generic,
        asy: sig.asyncness.is_some(),
        ret: ret_of(sig),
        body: body.clone(),
        owner: owner.to_string(),
    })
}

fn helpers(file: &syn::File, con: &FileContract) -> BTreeMap<String, Helper> {
    let mut m = BTreeMap::new();
    let known = |id: &str| con.fns.contains_key(id) || con.drop_fns.contains(id) || con.drop_fns.contains(id.rsplit("::").next().unwrap());
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                let n = f.sig.ident.to_string();
                if !known(&n) && !con.keep.contains(&n) {
                    if let Some(h) = helper(&f.sig, &f.block, &n) {
                        m.insert(n, h);
                    }
                }
            }
            syn::Item::Impl(i) if i.trait_.is_none() && !is_test(&i.attrs) => {
                let ty = type_name(&i.self_ty);
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let id = format!("{}::{}", ty, f.sig.ident);
                        if is_test(&f.attrs) || known(&id) || con.keep.contains(&id) {
                            continue;
                        }
                        if let Some(h) = helper(&f.sig, &f.block, &id) {
                            m.insert(id, h);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    m
}

/// The normalised text, and how many steps led to it.
pub fn prepare(src: &str, con: &FileContract) -> (String, usize) {
    let mut text = src.to_string();
    let mut n = 0;
    while n < 60 {
        let file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(_) => break,
        };
        let hs = helpers(&file, con);
        let mut f = Finder {
            src: &text,
            helpers: &hs,
            ty: String::new(),
            ret: String::new(),
            inner: 0,
            tails: Default::default(),
            tries: Default::default(),
            awaits: Default::default(),
            host_self: String::new(),
            host: String::new(),
            site: None,
        };
        f.visit_file(&file);
        let _ = f.src;
        let Some(s) = f.site else { break };
        let old = &text[s.at.0..s.at.1];
        let lines = old.matches('\n').count();
        let mine = s.text.matches('\n').count();
        let pad = "\n".repeat(lines.saturating_sub(mine));
        let next = format!("{}{}{}{}", &text[..s.at.0], s.text, pad, &text[s.at.1..]);
        if syn::parse_file(&next).is_err() {
            break;
        }
        text = next;
        n += 1;
    }
    (text, n)
}
