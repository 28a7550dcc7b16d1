//! Mechanical extraction of the functions of /repo that are under contract.
//!
//! Every output file is the text of a source file of the repository, with
//!   * the items that are not under contract removed,
//!   * a fixed set of local rewritings (see `rules` in the report, one entry per
//!     application), each of which replaces a construct the verifier does not
//!     accept by an equivalent one, and
//!   * the contracts of /verif/contracts spliced in.
//! Nothing of an executable body is written by hand.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

use proc_macro2::Span;
use quote::ToTokens;
use serde_json::json;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod contract;
mod edits;
mod inline;
use contract::*;
use edits::*;

/// Crates whose paths are replaced by the modules of `crate::shim`.
const ROOTS: &[&str] = &[
    "std", "core", "bytes", "bytestring", "indexmap", "anyhow", "monoio", "scc",
    "coarsetime", "futures_locks", "local_sync", "atoi_simd", "crc",
    "sharded_thread", "tracing", "thiserror", "rustc_hash", "futures",
];
/// Traits whose implementations are turned into inherent ones.
const INHERENT: &[&str] = &["CommandExecution", "SubcommandRegistry"];
/// Methods of the standard library which get a contract under another name.
const RENAMED: &[&str] = &[
    "to_string", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
    "eq_ignore_ascii_case", "bytes", "chars", "into_iter", "cloned", "pow", "split_terminator", "lines", "as_bytes", "min", "max", "clamp", "to_vec",
    "starts_with", "ends_with", "strip_prefix", "strip_suffix", "trim", "trim_start", "trim_end", "trim_matches",
    "trim_start_matches", "trim_end_matches", "parse", "is_char_boundary",
];
/// Methods that are steps on what is shared, wherever they are called.
const STEPS: &[&str] = &[
    "set_name", "format_conn", "get_normal_connection", "get_async", "set_async", "stop", "assign_new_connection", "name", "now",
    "compare_exchange", "compare_exchange_weak", "fetch_sub", "fetch_max", "fetch_min", "fetch_or", "fetch_and", "fetch_xor",
    "try_read", "try_write",
];
/// Comparisons with literals, put together: the same in code and in a specification.
fn simple_test(e: &syn::Expr) -> bool {
    fn lit(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Byte(_) | syn::Lit::Char(_) | syn::Lit::Bool(_)),
            syn::Expr::Paren(p) => lit(&p.expr),
            syn::Expr::Reference(r) => lit(&r.expr),
            _ => false,
        }
    }
    fn place(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().is_some(),
            syn::Expr::Field(f) => place(&f.base),
            syn::Expr::Paren(p) => place(&p.expr),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && place(&u.expr),
            syn::Expr::Reference(r) => place(&r.expr),
            _ => false,
        }
    }
    match e {
        syn::Expr::Paren(p) => simple_test(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && simple_test(&u.expr),
        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => simple_test(e),
            _ => false,
        },
        syn::Expr::Binary(b) => match b.op {
            syn::BinOp::And(_) | syn::BinOp::Or(_) => simple_test(&b.left) && simple_test(&b.right),
            syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) => {
                place(&b.left) && lit(&b.right) || lit(&b.left) && place(&b.right)
            }
            _ => false,
        },
        _ => false,
    }
}
const DROP_MACROS: &[&str] =
    &["dbg", "info", "debug", "trace", "warn", "error", "println", "eprintln"];

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

struct FnOut {
    id: String,
    file: String,
    status: String,
    src_lines: (usize, usize),
    src_range: (usize, usize),
    gen_range: (usize, usize),
    problems: Vec<String>,
    rules: Vec<String>,
    helpers: Vec<String>,
}

struct FileCx<'a> {
    rel: String,
    src: &'a str,
    contract: &'a FileContract,
    known_fns: BTreeSet<String>,
    consts: BTreeSet<String>,
    /// constants written out where they are used
    inlined: BTreeMap<String, syn::Expr>,
}

struct Rw<'a, 'b> {
    cx: &'b FileCx<'a>,
    fc: Option<&'b FnContract>,
    ed: Edits,
    loops: usize,
    /// what goes before the loop being rewritten
    pre: String,
    post: String,
    asyncs: usize,
    problems: Vec<String>,
    rules: Vec<String>,
    helpers: BTreeSet<String>,
    subst: BTreeMap<String, String>,
    lifted: Vec<(usize, syn::ExprAsync)>,
    loop_kinds: Vec<String>,
    lift_names: BTreeMap<usize, String>,
    closures: usize,
    thread_names: BTreeMap<usize, String>,
    want_async: Option<usize>,
    /// the function has a parameter `&mut`
    mut_params: bool,
    /// the parameters behind a mutable reference, and the world
    mut_names: Vec<String>,
    touched: BTreeSet<usize>,
    mut_self: bool,
}

fn txt<'a>(src: &'a str, s: Span) -> &'a str {
    let (a, b) = rng(s);
    &src[a..b]
}

fn lit_bytes(s: &[u8]) -> String {
    let v: Vec<String> = s.iter().map(|b| format!("{}u8", b)).collect();
    format!("&[{}]", v.join(", "))
}

fn is_str_lit(e: &syn::Expr) -> Option<String> {
    if let syn::Expr::Lit(l) = e {
        if let syn::Lit::Str(s) = &l.lit {
            return Some(s.value());
        }
    }
    None
}

fn pat_has_str(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        syn::Pat::Or(o) => o.cases.iter().any(pat_has_str),
        syn::Pat::Paren(o) => pat_has_str(&o.pat),
        syn::Pat::TupleStruct(t) => t.elems.iter().any(pat_has_str),
        syn::Pat::Tuple(t) => t.elems.iter().any(pat_has_str),
        syn::Pat::Reference(r) => pat_has_str(&r.pat),
        _ => false,
    }
}

struct PatStr {
    /// (range of the literal in the source, value)
    lits: Vec<((usize, usize), String)>,
}
impl<'ast> Visit<'ast> for PatStr {
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if let syn::Pat::Lit(l) = p {
            if let syn::Lit::Str(s) = &l.lit {
                self.lits.push((rng(l.span()), s.value()));
            }
        }
        visit::visit_pat(self, p);
    }
}

/// Does the expression leave the closure it is the body of?
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Return(_) | syn::Expr::Try(_) => self.0 = true,
            syn::Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
struct HasAwait(bool);
impl<'ast> Visit<'ast> for HasAwait {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if let syn::Expr::Await(_) = e {
            self.0 = true
        }
        visit::visit_expr(self, e);
    }
}

impl<'a, 'b> Rw<'a, 'b> {
    fn new(cx: &'b FileCx<'a>, fc: Option<&'b FnContract>) -> Self {
        Rw {
            cx,
            fc,
            ed: Edits::default(),
            loops: 0,
            pre: String::new(),
            post: String::new(),
            asyncs: 0,
            problems: vec![],
            rules: vec![],
            helpers: BTreeSet::new(),
            subst: BTreeMap::new(),
            lifted: vec![],
            loop_kinds: vec![],
            lift_names: BTreeMap::new(),
            closures: 0,
            thread_names: BTreeMap::new(),
            want_async: None,
            mut_params: false,
            mut_names: vec![],
            touched: BTreeSet::new(),
            mut_self: false,
        }
    }
    fn rule(&mut self, name: &str, s: Span) {
        self.rules.push(format!("{}@{}", name, s.start().line));
    }
    fn problem(&mut self, what: &str, s: Span) {
        self.problems.push(format!("{} (line {})", what, s.start().line));
    }
    fn fc_text(&self, t: &str) -> String {
        subst_idents(t, &self.subst)
    }
    fn world_call(&self, name: &str) -> bool {
        self.cx.contract.world_calls.contains(name)
            || self.fc.map(|f| f.world_calls.contains(name)).unwrap_or(false)
    }
    fn by_ref(&self, e: &syn::Expr) -> Option<(String, &'b Vec<String>)> {
        let f = self.fc?;
        match e {
            syn::Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => {
                let n = p.path.segments[0].ident.to_string();
                f.by_ref.iter().find(|(k, _)| self.subst.get(*k).unwrap_or(*k) == &n).map(|(_, v)| (n, v))
            }
            _ => None,
        }
    }
    fn append_arg(&mut self, paren_close: usize, empty: bool, arg: &str, trailing_comma: bool) {
        let t = if empty || trailing_comma { arg.to_string() } else { format!(", {}", arg) };
        self.ed.insert(paren_close, t);
    }
    /// Root renaming of a path.
    fn path(&mut self, p: &syn::Path, is_type: bool) {
        let first = match p.segments.first() {
            Some(f) => f,
            None => return,
        };
        let name = first.ident.to_string();
        let (a, _) = rng(first.ident.span());
        if p.leading_colon.is_none()
            && p.segments.len() > 1
            && ROOTS.contains(&name.as_str())
        {
            self.ed.insert(a, "crate::shim::".into());
        } else if p.segments.len() == 1 && name == "ToString" {
            self.ed.insert(a + name.len(), "_".into());
        } else if is_type && p.segments.len() == 1 && name == "String" {
            self.ed.insert(a, "crate::shim::".into());
        } else if !is_type && p.segments.len() == 2 && name == "String" {
            self.ed.insert(a, "crate::shim::".into());
        }
        for s in &p.segments {
            match &s.arguments {
                syn::PathArguments::AngleBracketed(x) => {
                    for g in &x.args {
                        self.visit_generic_argument(g)
                    }
                }
                syn::PathArguments::Parenthesized(x) => {
                    visit::visit_parenthesized_generic_arguments(self, x)
                }
                _ => {}
            }
        }
    }
    fn loop_text(&mut self, idx: usize, kind: &str, s: Span) -> (String, String, String) {
        self.loop_kinds.push(kind.to_string());
        let none = (String::new(), String::new(), String::new());
        let fc = match self.fc {
            Some(f) => f,
            None => return none,
        };
        match fc.loops.get(&idx) {
            None => {
                self.problem("loop without an invariant", s);
                none
            }
            Some(l) => {
                // every `while` is written as a `loop`
                let k = if l.kind == "while" { "loop" } else { &l.kind[..] };
                if !k.is_empty() && k != kind {
                    self.problem(
                        &format!("loop {} is a `{}` loop, the invariant is for `{}`", idx, kind, l.kind),
                        s,
                    );
                }
                self.pre = self.fc_text(&l.pre);
                self.post = self.fc_text(&l.post);
                (self.fc_text(&l.inv), self.fc_text(&l.head), self.fc_text(&l.tail))
            }
        }
    }
    /// `format!`-like arguments: (pieces) as calls on the formatting shim.
    fn fmt_pieces(&mut self, toks: proc_macro2::TokenStream, s: Span) -> Option<String> {
        use syn::parse::Parser;
        use syn::punctuated::Punctuated;
        let args = Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
            .parse2(toks)
            .ok()?;
        let mut it = args.iter();
        let fmt = is_str_lit(it.next()?)?;
        let mut pos: Vec<String> = vec![];
        let mut named: BTreeMap<String, String> = BTreeMap::new();
        for e in it {
            if let syn::Expr::Assign(a) = e {
                let r = self.render_sub(&a.right);
                named.insert(a.left.to_token_stream().to_string(), r);
            } else {
                let r = self.render_sub(e);
                pos.push(r);
            }
        }
        let mut out = String::from("crate::shim::fmt::Fmt::new()");
        let b: Vec<char> = fmt.chars().collect();
        let mut lit = String::new();
        let mut i = 0;
        let mut next = 0;
        let flush = |lit: &mut String, out: &mut String| {
            if !lit.is_empty() {
                out.push_str(&format!(".lit({})", lit_bytes(lit.as_bytes())));
                lit.clear();
            }
        };
        while i < b.len() {
            if b[i] == '{' && i + 1 < b.len() && b[i + 1] == '{' {
                lit.push('{');
                i += 2;
            } else if b[i] == '}' {
                lit.push('}');
                i += if i + 1 < b.len() && b[i + 1] == '}' { 2 } else { 1 };
            } else if b[i] == '{' {
                let end = (i..b.len()).find(|k| b[*k] == '}')?;
                let inner: String = b[i + 1..end].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((n, sp)) => (n.to_string(), sp.to_string()),
                    None => (inner, String::new()),
                };
                flush(&mut lit, &mut out);
                let m = match spec.as_str() {
                    "" => "arg",
                    "?" => "dbg",
                    _ => return None,
                };
                let a = if name.is_empty() {
                    next += 1;
                    pos.get(next - 1)?.clone()
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n)?.clone()
                } else if let Some(x) = named.get(&name) {
                    x.clone()
                } else {
                    name.clone()
                };
                out.push_str(&format!(".{}(&({}))", m, a));
                i = end + 1;
            } else {
                lit.push(b[i]);
                i += 1;
            }
        }
        flush(&mut lit, &mut out);
        self.rule("format", s);
        Some(out)
    }
    /// Render a sub-expression with the edits it needs.
    fn render_sub(&mut self, e: &syn::Expr) -> String {
        let saved = std::mem::take(&mut self.ed);
        self.visit_expr(e);
        let sub = std::mem::replace(&mut self.ed, saved);
        let (a, b) = rng(e.span());
        sub.apply(self.cx.src, a, b).0
    }
    fn mac(&mut self, m: &syn::Macro, whole: Span, stmt: bool) -> bool {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = rng(whole);
        let out = match name.as_str() {
            "panic" | "unimplemented" | "todo" | "unreachable" => {
                self.rule("panic-macro", whole);
                Some("crate::shim::abort_()".to_string())
            }
            "assert" | "debug_assert" => {
                use syn::parse::Parser;
                use syn::punctuated::Punctuated;
                let args = Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                    .parse2(m.tokens.clone());
                match args {
                    Ok(args) if !args.is_empty() => {
                        let c = self.render_sub(&args[0]);
                        self.rule("assert-macro", whole);
                        Some(format!("crate::shim::must_({})", c))
                    }
                    _ => None,
                }
            }
            "vec" => {
                let toks = m.tokens.to_string();
                if let Ok(r) = syn::parse2::<RepeatArgs>(m.tokens.clone()) {
                    let x = self.render_sub(&r.a);
                    let n = self.render_sub(&r.n);
                    self.rule("vec-macro", whole);
                    Some(format!("crate::shim::vec_from_elem({}, {})", x, n))
                } else if toks.trim().is_empty() {
                    Some("Vec::new()".into())
                } else {
                    None
                }
            }
            "format" => self
                .fmt_pieces(m.tokens.clone(), whole)
                .map(|p| format!("{}.done()", p)),
            "write" | "writeln" => {
                // write!(dst, "..", ..)
                use syn::parse::Parser;
                use syn::punctuated::Punctuated;
                let args = Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                    .parse2(m.tokens.clone())
                    .ok();
                args.and_then(|args| {
                    let dst = self.render_sub(args.first()?);
                    let rest: Punctuated<syn::Expr, syn::Token![,]> =
                        args.iter().skip(1).cloned().collect();
                    let p = self.fmt_pieces(rest.to_token_stream(), whole)?;
                    if name == "writeln" {
                        return None;
                    }
                    Some(format!("crate::shim::fmt::write_to({}, {})", dst, p))
                })
            }
            "anyhow" => {
                self.rule("anyhow-macro", whole);
                Some("crate::shim::anyhow::Error::any_()".into())
            }
            "bail" => {
                self.rule("anyhow-macro", whole);
                Some("return Err(crate::shim::anyhow::Error::any_())".into())
            }
            "matches" => return false, // a match, understood by the verifier
            "select" => match syn::parse2::<Select>(m.tokens.clone()) {
                Ok(sel) => {
                    let mut t = format!("match crate::shim::which_({}) {{", sel.0.len());
                    for (k, (p, f, body)) in sel.0.iter().enumerate() {
                        let f = self.render_sub(f);
                        let body = self.render_sub(body);
                        let p = txt(self.cx.src, p.span());
                        t.push_str(&format!(" {k} => {{ let {p} = crate::shim::done_({f}); {body} }}"));
                    }
                    t.push_str(" _ => crate::shim::abort_() }");
                    self.rule("select", whole);
                    Some(t)
                }
                Err(_) => None,
            },
            x if DROP_MACROS.contains(&x) && stmt => {
                self.rule("drop-log-macro", whole);
                Some("()".into())
            }
            _ => None,
        };
        match out {
            Some(t) => {
                self.ed.replace(a, b, t);
                true
            }
            None => {
                self.problem(&format!("macro {}!", name), whole);
                true
            }
        }
    }
}

/// The branches of `select!`.
struct Select(Vec<(syn::Pat, syn::Expr, syn::Expr)>);
impl syn::parse::Parse for Select {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            let p = syn::Pat::parse_single(input)?;
            let _: syn::Token![=] = input.parse()?;
            let f: syn::Expr = input.call(syn::Expr::parse_without_eager_brace)?;
            let _: syn::Token![=>] = input.parse()?;
            let b: syn::Expr = input.parse()?;
            let _: Option<syn::Token![,]> = input.parse()?;
            v.push((p, f, b));
        }
        Ok(Select(v))
    }
}

struct RepeatArgs {
    a: syn::Expr,
    n: syn::Expr,
}
impl syn::parse::Parse for RepeatArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let a = i.parse()?;
        i.parse::<syn::Token![;]>()?;
        let n = i.parse()?;
        Ok(RepeatArgs { a, n })
    }
}

fn closure_of(e: &syn::Expr) -> Option<&syn::ExprClosure> {
    match e {
        syn::Expr::Closure(c) => Some(c),
        _ => None,
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for Rw<'a, 'b> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        if !a.path().is_ident("doc") {
            let (x, y) = rng(a.span());
            self.ed.replace(x, y, String::new());
        }
    }
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        self.path(&t.path, true);
        if let Some(q) = &t.qself {
            self.visit_type(&q.ty);
        }
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        self.path(p, false);
    }
    fn visit_visibility(&mut self, _v: &'ast syn::Visibility) {}
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        // local `use`
        use_edits(&mut self.ed, &u.tree, u.leading_colon.is_some());
    }
    fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
        if let (Some(fc), (a, b)) = (self.fc, rng(st.span())) {
            if !fc.ats.is_empty() {
                let t = squash(&self.cx.src[a..b]);
                for (k, at) in fc.ats.iter().enumerate() {
                    if t.starts_with(&squash(&at.pat)) && !self.rules.contains(&format!("at#{}", k)) {
                        self.rules.push(format!("at#{}", k));
                        let text = self.fc_text(&at.text);
                        if at.after {
                            self.ed.insert_late(b, format!("\n{}\n", text));
                        } else {
                            self.ed.insert_early(a, format!("\n{}\n", text));
                        }
                    }
                }
            }
        }
        match st {
            syn::Stmt::Macro(m) => {
                let (_, b) = rng(st.span());
                let mspan = m.mac.span();
                if self.mac(&m.mac, mspan, true) && m.semi_token.is_none() {
                    let _ = b;
                }
            }
            syn::Stmt::Item(syn::Item::Const(c)) => {
                // local constant -> let
                let (a, _) = rng(c.const_token.span());
                let (_, b) = rng(c.const_token.span());
                self.ed.replace(a, b, "let".into());
                self.rule("local-const", c.span());
                self.visit_type(&c.ty);
                self.visit_expr(&c.expr);
            }
            _ => visit::visit_stmt(self, st),
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        use syn::Expr::*;
        let (a, b) = rng(e.span());
        match e {
            Await(x) => {
                if let Path(_) = &*x.base {
                    let t = self.render_sub(&x.base);
                    self.ed.replace(a, b, format!("crate::shim::done_({})", t));
                    return;
                }
                self.visit_expr(&x.base);
                let (_, be) = rng(x.base.span());
                self.ed.replace(be, b, String::new());
            }
            Macro(m) => {
                if !self.mac(&m.mac, e.span(), false) {
                    // matches!
                }
            }
            Path(_) if self.by_ref(e).is_some() => {
                self.problem("captured variable moved", e.span());
            }
            Path(p) => {
                if p.path.segments.len() == 1 && p.qself.is_none() {
                    let n = p.path.segments[0].ident.to_string();
                    if self.cx.consts.contains(&n) {
                        self.ed.insert(b, "()".into());
                        self.rule("const-fn", e.span());
                        return;
                    }
                }
                if p.path.segments.len() <= 2 && p.qself.is_none() {
                    let n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if let Some(x) = self.cx.inlined.get(&n).cloned() {
                        let t = self.render_sub(&x);
                        self.ed.replace(a, b, format!("({})", t));
                        self.rule("const-inlined", e.span());
                        return;
                    }
                }
                visit::visit_expr(self, e)
            }
            Lit(l) => {
                if let syn::Lit::ByteStr(x) = &l.lit {
                    self.ed.replace(a, b, format!("({})", lit_bytes(&x.value())));
                    self.rule("byte-string", e.span());
                }
                if let syn::Lit::Str(x) = &l.lit {
                    self.ed.replace(a, b, format!("crate::shim::lit_({})", lit_bytes(x.value().as_bytes())));
                    self.rule("string", e.span());
                }
            }
            Call(c) => {
                let mut name = String::new();
                if let Path(p) = &*c.func {
                    name = p.path.segments.last().unwrap().ident.to_string();
                    if p.path.segments.len() == 2
                        && p.path.segments[0].ident == "Vec"
                        && name == "with_capacity"
                    {
                        let (x, y) = rng(p.path.segments[0].ident.span());
                        let (_, y2) = rng(p.path.segments[1].ident.span());
                        let _ = y;
                        self.ed.replace(x, y2, "crate::shim::vec_with_capacity".into());
                        self.rule("vec-capacity", e.span());
                    }
                    if p.path.segments.len() == 1
                        || (p.path.segments.len() == 2
                            && p.path.segments[0].ident == "Self")
                    {
                        self.helpers.insert(name.clone());
                    }
                }
                let full = c.func.to_token_stream().to_string().replace(' ', "");
                if full == "Default::default" && c.args.is_empty() {
                    self.ed.replace(a, b, "crate::shim::default_()".into());
                    self.rule("default", e.span());
                    return;
                }
                visit::visit_expr(self, e);
                let full = c.func.to_token_stream().to_string().replace(' ', "");
                if self.world_call(&name) || self.world_call(&full) {
                    self.append_arg(b - 1, c.args.is_empty(), "w", c.args.trailing_punct());
                }
            }
            MethodCall(m) => self.method(m, a, b),
            Match(m)
                if m.arms.iter().any(|x| x.guard.is_some() || pat_has_str(&x.pat)) && !self.touched.contains(&a) && self.untouched(&m.expr) =>
            {
                // what is mutable is looked at in every arm: the verifier loses the
                // ones that an arm after a guard does not use
                let names = self.mut_names.iter().map(|n| format!("crate::shim::touch_({}); ", n)).collect::<String>();
                for arm in &m.arms {
                    let (x, y) = rng(arm.body.span());
                    self.ed.insert(x, format!("{{ {}", names));
                    self.ed.insert_late(y, " }".into());
                }
                self.rule("guarded-match", e.span());
                self.touched.insert(a);
                self.visit_expr(e);
                self.touched.remove(&a);
            }
            Match(m)
                if self.mut_params
                    && matches!(&*m.expr, Call(_) | MethodCall(_) | Await(_))
                    && m.arms.iter().any(|x| x.guard.is_some() || pat_has_str(&x.pat)) =>
            {
                self.two_step_match(m, a, b)
            }
            Match(m) if m.arms.iter().any(|x| pat_has_str(&x.pat)) => self.str_match(m),
            Binary(x)
                if matches!(x.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_))
                    && (is_str_lit(&x.left).is_some() || is_str_lit(&x.right).is_some()) =>
            {
                let (lit, other) = match is_str_lit(&x.right) {
                    Some(l) => (l, &x.left),
                    None => (is_str_lit(&x.left).unwrap(), &x.right),
                };
                let o = self.render_sub(other);
                let neg = if matches!(x.op, syn::BinOp::Ne(_)) { "!" } else { "" };
                self.ed.replace(
                    a,
                    b,
                    format!("{}crate::shim::str_is(&({}), {})", neg, o, lit_bytes(lit.as_bytes())),
                );
                self.rule("str-eq", e.span());
            }
            Reference(r) if r.mutability.is_some() && self.by_ref(&r.expr).is_some() => {
                let (n, _) = self.by_ref(&r.expr).unwrap();
                self.ed.replace(a, b, format!("(&mut *{})", n));
                self.rule("captured", e.span());
            }
            Reference(r) => {
                if let Index(ix) = &*r.expr {
                    if let Range(rg) = &*ix.index {
                        if rg.start.is_none() && rg.end.is_none() {
                            let o = self.render_sub(&ix.expr);
                            self.ed.replace(a, b, format!("({}).full_()", o));
                            self.rule("full-slice", e.span());
                            return;
                        }
                    }
                }
                visit::visit_expr(self, e)
            }
            Assign(s) => {
                if let Unary(u) = &*s.left {
                    if let (syn::UnOp::Deref(_), Await(_)) = (&u.op, &*u.expr) {
                        if self.cx.contract.guards {
                            // the value is computed before the lock is taken
                            let g = self.render_sub(&u.expr);
                            let rhs = self.render_sub(&s.right);
                            self.ed.replace(a, b, format!("{{ let __v = {}; let mut __g = {}; __g.store_(__v, w) }}", rhs, g));
                            self.rule("guard-assign", e.span());
                            return;
                        }
                    }
                    if let (syn::UnOp::Deref(_), Path(p)) = (&u.op, &*u.expr) {
                        if self.cx.contract.guards {
                            let id = p.path.to_token_stream().to_string();
                            let rhs = self.render_sub(&s.right);
                            self.ed.replace(a, b, format!("{}.store_({}, w)", id, rhs));
                            self.rule("guard-assign", e.span());
                            return;
                        }
                    }
                }
                visit::visit_expr(self, e)
            }
            ForLoop(f) => self.for_loop(f),
            While(w) => {
                let idx = self.loops;
                self.loops += 1;
                let (inv, head, tail) = self.loop_text(idx, "loop", e.span());
                let (ba, bb) = rng(w.body.span());
                let (_, ca) = rng(w.while_token.span());
                if !matches!(&*w.cond, Let(_)) {
                    // while C { B }  ->  loop { if C { B } else { break; } }
                    let (wa, _) = rng(w.while_token.span());
                    self.ed.replace(wa, ca, format!("loop {inv} {{ {head} if"));
                    self.visit_expr(&w.cond);
                    self.visit_block(&w.body);
                    self.ed.insert_late(bb, format!(" else {{ break; }} {tail} }}"));
                    self.rule("while", e.span());
                    return;
                }
                self.visit_expr(&w.cond);
                self.ed.insert(ba, inv);
                self.ed.insert(ba + 1, head);
                self.visit_block(&w.body);
                self.ed.insert_late(bb - 1, tail);
                if let Let(l) = &*w.cond {
                    // while let P = E { B }  ->  loop { match E { P => { B } _ => { break; } } }
                    let (wa, _) = rng(w.while_token.span());
                    let pat_t = txt(self.cx.src, l.pat.span()).to_string();
                    let mut sub = std::mem::take(&mut self.ed);
                    let _ = &mut sub;
                    self.ed = sub;
                    self.rule("while-let", e.span());
                    // redo from scratch: drop what was recorded inside
                    self.ed.clear_in(wa, bb);
                    let ex = self.render_sub(&l.expr);
                    let (inv, head, tail) = match self.fc.and_then(|f| f.loops.get(&idx)) {
                        Some(x) => (self.fc_text(&x.inv), self.fc_text(&x.head), self.fc_text(&x.tail)),
                        None => Default::default(),
                    };
                    let saved = std::mem::take(&mut self.ed);
                    let n = self.loops;
                    self.loops = idx + 1;
                    self.visit_block(&w.body);
                    self.loops = n;
                    let subed = std::mem::replace(&mut self.ed, saved);
                    let body = subed.apply(self.cx.src, ba, bb).0;
                    let lbl = w.label.as_ref().map(|l| txt(self.cx.src, l.span()).to_string()).unwrap_or_default();
                    let sa = w.label.as_ref().map(|l| rng(l.span()).0).unwrap_or(wa);
                    self.ed.replace(
                        sa,
                        bb,
                        format!(
                            "{lbl} loop {inv} {{ {head} match {ex} {{ {pat_t} => {body} _ => {{ break; }} }} {tail} }}"
                        ),
                    );
                }
            }
            Loop(l) => {
                let idx = self.loops;
                self.loops += 1;
                let (inv, head, tail) = self.loop_text(idx, "loop", e.span());
                let (ba, bb) = rng(l.body.span());
                self.ed.insert(ba, inv);
                self.ed.insert(ba + 1, head);
                self.visit_block(&l.body);
                self.ed.insert_late(bb - 1, tail);
            }
            Async(x) => {
                let idx = self.asyncs;
                self.asyncs += 1;
                self.lifted.push((idx, x.clone()));
                if let Some(t) = self.lift_names.get(&idx).cloned() {
                    // replaced by a token; its contents are verified on their own
                    let n = count_async(&x.block);
                    self.asyncs += n;
                    let t = self.fc_text(&t);
                    self.ed.replace(a, b, t);
                    self.rule("lifted-block", e.span());
                } else {
                    visit::visit_expr(self, e);
                    if self.want_async.is_none() {
                        self.problem("async block", e.span());
                    }
                }
            }
            Closure(x) => {
                if is_block_closure(x) {
                    let idx = self.closures;
                    self.closures += 1;
                    if let Some(t) = self.thread_names.get(&idx).cloned() {
                        let (n, m) = count_blocks(&x.body);
                        self.asyncs += n;
                        self.closures += m;
                        let t = self.fc_text(&t);
                        self.ed.replace(a, b, t);
                        self.rule("lifted-block", e.span());
                        return;
                    }
                }
                self.problem("closure", e.span());
                visit::visit_expr(self, e)
            }
            _ => visit::visit_expr(self, e),
        }
    }
}

/// `move || { … }`
fn is_block_closure(c: &syn::ExprClosure) -> bool {
    c.inputs.is_empty() && c.capture.is_some() && matches!(&*c.body, syn::Expr::Block(_))
}
/// Async blocks and closures that could be lifted, in an expression.
fn count_blocks(e: &syn::Expr) -> (usize, usize) {
    struct C(usize, usize);
    impl<'a> Visit<'a> for C {
        fn visit_expr_async(&mut self, e: &'a syn::ExprAsync) {
            self.0 += 1;
            visit::visit_expr_async(self, e);
        }
        fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
            if is_block_closure(e) { self.1 += 1 }
            visit::visit_expr_closure(self, e);
        }
    }
    let mut c = C(0, 0);
    c.visit_expr(e);
    (c.0, c.1)
}
fn count_async(b: &syn::Block) -> usize {
    struct C(usize);
    impl<'a> Visit<'a> for C {
        fn visit_expr_async(&mut self, e: &'a syn::ExprAsync) {
            self.0 += 1;
            visit::visit_expr_async(self, e);
        }
    }
    let mut c = C(0);
    c.visit_block(b);
    c.0
}

impl<'a, 'b> Rw<'a, 'b> {
    fn closure_parts(&mut self, c: &syn::ExprClosure) -> Option<(Vec<String>, String)> {
        let mut l = Leaves(false);
        l.visit_expr(&c.body);
        if l.0 {
            return None;
        }
        let ps = c
            .inputs
            .iter()
            .map(|p| txt(self.cx.src, p.span()).to_string())
            .collect();
        Some((ps, self.render_sub(&c.body)))
    }
    fn method(&mut self, m: &syn::ExprMethodCall, a: usize, b: usize) {
        let name = m.method.to_string();
        // X.split..(..).map(|p| E).collect()  /  X.iter().map(|p| E).collect()
        if name == "collect" {
            if let syn::Expr::MethodCall(mm) = &*m.receiver {
                if mm.method == "map" && mm.args.len() == 1 {
                    if let Some(c) = closure_of(&mm.args[0]) {
                        if let Some((ps, body)) = self.closure_parts(c) {
                            let idx = self.loops;
                            self.loops += 1;
                            let (inv, head, tail) = self.loop_text(idx, "collect", m.span());
                            let pre = std::mem::take(&mut self.pre);
                            let post = std::mem::take(&mut self.post);
                            let it = match &*mm.receiver {
                                syn::Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty() => {
                                    format!("&({})", self.render_sub(&r.receiver))
                                }
                                r => self.render_sub(r),
                            };
                            self.ed.replace(
                                a,
                                b,
                                format!(
                                    "{{ let mut __it{idx} = ({it}).__iter(); let mut __out{idx} = Vec::new();\n {pre} loop {inv} {{ {head} match __it{idx}.next() {{ Some({p}) => {{ __out{idx}.push({body}); }} None => {{ break; }} }} {tail} }} {post}\n __out{idx} }}",
                                    p = ps[0],
                                ),
                            );
                            self.rule("map-collect", m.span());
                            return;
                        }
                    }
                }
            }
        }
        // X.iter().any(|p| E), with a simple E and no invariant for it: a call whose closure says what it answers
        if matches!(name.as_str(), "all" | "any" | "position" | "retain") && m.args.len() == 1 {
            let own = self.fc.and_then(|f| f.loops.get(&self.loops)).map(|l| l.kind == "all").unwrap_or(false);
            if let Some(c) = closure_of(&m.args[0]).filter(|c| !own && simple_test(&c.body)) {
                if let Some((ps, body)) = self.closure_parts(c) {
                    let n = 1;
                    let (mut p, mut stars) = (ps[0].trim().to_string(), 0);
                    while let Some(q) = p.strip_prefix('&') {
                        p = q.trim().to_string();
                        stars += 1;
                    }
                    if ps.len() == 1 && stars <= n && p.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        let r = match &*m.receiver {
                            syn::Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty() => format!("({}).iter_()", self.render_sub(&r.receiver)),
                            r => self.render_sub(r),
                        };
                        let (q, open) = if stars == 0 { (p.clone(), String::new()) } else { ("__c".to_string(), format!("let {p} = {}__c; ", "*".repeat(stars))) };
                        self.ed.replace(a, b, format!("({r}).{name}_(|{q}| -> (__t: bool) ensures ({{ {open}__t == ({body}) }}) {{ {open}{body} }})"));
                        self.rule("quantified", m.span());
                        return;
                    }
                }
            }
        }
        // X.bytes().all(|p| E)
        if (name == "all" || name == "any") && m.args.len() == 1 {
            if let Some(c) = closure_of(&m.args[0]) {
                if let Some((ps, body)) = self.closure_parts(c) {
                    let idx = self.loops;
                    self.loops += 1;
                    let (inv, head, tail) = self.loop_text(idx, "all", m.span());
                    let pre = std::mem::take(&mut self.pre);
                    let post = std::mem::take(&mut self.post);
                    let it = match &*m.receiver {
                        syn::Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty() => {
                            format!("&({})", self.render_sub(&r.receiver))
                        }
                        r => self.render_sub(r),
                    };
                    // `any` is the negation of an `all`
                    let test = if name == "all" { "!" } else { "" };
                    let neg = if name == "all" { "" } else { "!" };
                    self.ed.replace(
                        a,
                        b,
                        format!(
                            "{{ let mut __it{idx} = ({it}).__iter(); let mut __all{idx} = true;\n {pre} loop {inv} {{ {head} match __it{idx}.next() {{ Some({p}) => {{ if {test}({body}) {{ __all{idx} = false; break; }} }} None => {{ break; }} }} {tail} }} {post}\n {neg}__all{idx} }}",
                            p = ps[0],
                        ),
                    );
                    self.rule("all-loop", m.span());
                    return;
                }
            }
        }
        // X.scan_async(|k, v| { B })
        if (name == "scan_async" || name == "scan" || name == "for_each") && m.args.len() == 1 {
            if let Some(c) = closure_of(&m.args[0]) {
                if let Some((ps, body)) = self.closure_parts(c) {
                    let idx = self.loops;
                    self.loops += 1;
                    let (inv, head, tail) = self.loop_text(idx, "scan", m.span());
                    let pre = std::mem::take(&mut self.pre);
                    let post = std::mem::take(&mut self.post);
                    let it = self.render_sub(&m.receiver);
                    let p = if ps.len() == 1 { ps[0].clone() } else { format!("({})", ps.join(", ")) };
                    self.ed.replace(
                        a,
                        b,
                        format!(
                            "{{ let mut __it{idx} = ({it}).__scan(w);\n {pre} loop {inv} {{ {head} match __it{idx}.next() {{ Some({p}) => {{ {body}; }} None => {{ break; }} }} {tail} }} {post} }}",
                        ),
                    );
                    self.rule("scan-loop", m.span());
                    return;
                }
            }
        }
        if m.args.len() == 1 {
            if let Some(c) = closure_of(&m.args[0]) {
                let known = matches!(
                    name.as_str(),
                    "map" | "map_err" | "and_then" | "unwrap_or_else" | "or_else" | "ok_or_else"
                );
                if known {
                    if let Some((ps, body)) = self.closure_parts(c) {
                        let r = self.render_sub(&m.receiver);
                        let p = ps.first().cloned().unwrap_or_default();
                        let t = match name.as_str() {
                            "map" => format!(
                                "crate::shim::rebuild_(match crate::shim::Open_::open_({r}) {{ Ok({p}) => Ok({body}), Err(__e) => Err(__e) }})"
                            ),
                            "map_err" => format!(
                                "(match {r} {{ Ok(__v) => Ok(__v), Err({p}) => Err({body}) }})"
                            ),
                            "and_then" => format!(
                                "(match crate::shim::Open_::open_({r}) {{ Ok({p}) => {body}, Err(__e) => crate::shim::reopen_(__e) }})"
                            ),
                            "unwrap_or_else" => {
                                let p = if p.is_empty() { "_".to_string() } else { p };
                                format!(
                                    "(match crate::shim::Open_::open_({r}) {{ Ok(__v) => __v, Err({p}) => {body} }})"
                                )
                            }
                            "ok_or_else" => format!(
                                "(match {r} {{ Some(__v) => Ok(__v), None => Err({body}) }})"
                            ),
                            _ => format!(
                                "(match {r} {{ Ok(__v) => Ok(__v), Err({p}) => {body} }})"
                            ),
                        };
                        self.ed.replace(a, b, t);
                        self.rule(&format!("inline-{}", name), m.span());
                        return;
                    }
                }
            }
        }
        // (a..=b).contains(&x)
        if name == "contains" && m.args.len() == 1 {
            let mut r = &*m.receiver;
            while let syn::Expr::Paren(p) = r {
                r = &p.expr;
            }
            if let syn::Expr::Range(g) = r {
                if let (Some(lo), Some(hi)) = (&g.start, &g.end) {
                    let (l, h, x) = (self.render_sub(lo), self.render_sub(hi), self.render_sub(&m.args[0]));
                    let op = if matches!(g.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                    self.ed.replace(a, b, format!("({{ let __x = {x}; {l} <= *__x && *__x {op} {h} }})"));
                    self.rule("range-contains", m.span());
                    return;
                }
            }
        }
        if name == "borrow_mut" && m.args.is_empty() && self.cx.contract.refcells {
            let r = match self.by_ref(&m.receiver) {
                Some((n, _)) => n,
                None => self.render_sub(&m.receiver),
            };
            self.ed.replace(a, b, r);
            self.rule("refcell", m.span());
            return;
        }
        if name == "clone" && m.args.is_empty() && !self.world_call("clone") {
            let (x, y) = rng(m.method.span());
            self.ed.replace(x, y, "dup_".into());
            self.rule("clone", m.span());
        }
        if RENAMED.contains(&name.as_str()) {
            let (x, y) = rng(m.method.span());
            self.ed.replace(x, y, format!("{}_", if name == "bytes" { "each_byte" } else { &name }));
        }
        // receiver `self`: a helper of the same type
        if let syn::Expr::Path(p) = &*m.receiver {
            if p.path.is_ident("self") {
                self.helpers.insert(name.clone());
            }
        }
        match self.by_ref(&m.receiver) {
            Some((n, consumed)) => {
                if consumed.contains(&name) {
                    let (x, y) = rng(m.receiver.span());
                    self.ed.replace(x, y, format!("crate::shim::taken_({})", n));
                }
            }
            None => self.visit_expr(&m.receiver),
        }
        if let Some(t) = &m.turbofish {
            for g in &t.args {
                self.visit_generic_argument(g);
            }
        }
        for x in &m.args {
            self.visit_expr(x);
        }
        if let Some(arg) = self.cx.contract.method_args.get(&name).cloned() {
            self.append_arg(b - 1, m.args.is_empty(), &arg, m.args.trailing_punct());
        } else if self.world_call(&name) || (STEPS.contains(&name.as_str()) && self.fc.map(|f| f.world || f.lift_sig.contains("w: &mut")).unwrap_or(false)) {
            self.append_arg(b - 1, m.args.is_empty(), "w", m.args.trailing_punct());
        }
    }
    fn for_loop(&mut self, f: &syn::ExprForLoop) {
        let idx = self.loops;
        self.loops += 1;
        let mut iter = &*f.expr;
        while let syn::Expr::Paren(p) = iter {
            iter = &p.expr;
        }
        let (fa, _) = rng(f.for_token.span());
        let sa = f.label.as_ref().map(|l| rng(l.span()).0).unwrap_or(fa);
        let lbl = f
            .label
            .as_ref()
            .map(|l| txt(self.cx.src, l.span()).to_string())
            .unwrap_or_default();
        let (ba, bb) = rng(f.body.span());
        let pat = txt(self.cx.src, f.pat.span()).to_string();
        if let syn::Expr::Range(r) = iter {
            if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() {
                let (inv, head, tail) = self.loop_text(idx, "for-range", f.span());
                let pre = std::mem::take(&mut self.pre);
                let post = std::mem::take(&mut self.post);
                let cur = format!("__r{}.cur", idx);
                let inv = inv.replace("__i", &cur);
                let head = head.replace("__i", &cur);
                let tail = tail.replace("__i", &cur);
                let lo = self.render_sub(r.start.as_ref().unwrap());
                let hi = self.render_sub(r.end.as_ref().unwrap());
                let saved = std::mem::take(&mut self.ed);
                self.visit_block(&f.body);
                let sub = std::mem::replace(&mut self.ed, saved);
                let body = sub.apply(self.cx.src, ba, bb).0;
                self.ed.replace(
                    sa,
                    bb,
                    format!(
                        "{{ let mut __r{idx} = crate::shim::range_({lo}, {hi});\n {pre} {lbl} loop {inv} {{ {head} match __r{idx}.next() {{ Some({pat}) => {body} None => {{ break; }} }} {tail} }} {post} }}"
                    ),
                );
                self.rule("for-range", f.span());
                return;
            }
        }
        // (a..b).step_by(k)
        if let syn::Expr::MethodCall(m) = iter {
            if m.method == "step_by" && m.args.len() == 1 {
                let mut r = &*m.receiver;
                while let syn::Expr::Paren(p) = r {
                    r = &p.expr;
                }
                if let syn::Expr::Range(r) = r {
                    if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                        let (inv, head, tail) = self.loop_text(idx, "for-step", f.span());
                        let pre = std::mem::take(&mut self.pre);
                        let post = std::mem::take(&mut self.post);
                        let lo = self.render_sub(lo);
                        let hi = self.render_sub(hi);
                        let k = self.render_sub(&m.args[0]);
                        let saved = std::mem::take(&mut self.ed);
                        self.visit_block(&f.body);
                        let sub = std::mem::replace(&mut self.ed, saved);
                        let body = sub.apply(self.cx.src, ba, bb).0;
                        self.ed.replace(
                            sa,
                            bb,
                            format!(
                                "{{ let mut __s{idx} = crate::shim::step_range({lo}, {hi}, {k});\n {pre} {lbl} loop {inv} {{ {head} match __s{idx}.next() {{ Some({pat}) => {body} None => {{ break; }} }} {tail} }} {post} }}"
                            ),
                        );
                        self.rule("for-step", f.span());
                        return;
                    }
                }
            }
        }
        // x.iter()
        let mut by_iter = false;
        if let syn::Expr::MethodCall(m) = iter {
            if m.method == "iter" && m.args.is_empty() {
                iter = &m.receiver;
                by_iter = true;
            }
        }
        // &**x -> x
        if let syn::Expr::Reference(r) = iter {
            if let syn::Expr::Unary(u) = &*r.expr {
                if let (syn::UnOp::Deref(_), syn::Expr::Unary(u2)) = (&u.op, &*u.expr) {
                    if let syn::UnOp::Deref(_) = u2.op {
                        iter = &u2.expr;
                    }
                }
            }
        }
        let (inv, head, tail) = self.loop_text(idx, "for-iter", f.span());
        let pre = std::mem::take(&mut self.pre);
        let post = std::mem::take(&mut self.post);
        let it = self.render_sub(iter);
        let it = if by_iter { format!("({}).iter_()", it) } else { it };
        let saved = std::mem::take(&mut self.ed);
        self.visit_block(&f.body);
        let sub = std::mem::replace(&mut self.ed, saved);
        let body = sub.apply(self.cx.src, ba, bb).0;
        self.ed.replace(
            sa,
            bb,
            format!(
                "{{ let mut __it{idx} = ({it}).__iter();\n {pre} {lbl} loop {inv} {{ {head} match __it{idx}.next() {{ Some({pat}) => {body} None => {{ break; }} }} {tail} }} {post} }}"
            ),
        );
        self.rule("for-iter", f.span());
    }
    fn render_pat(&mut self, p: &syn::Pat, wild: bool) -> (String, Vec<String>) {
        let mut ps = PatStr { lits: vec![] };
        ps.visit_pat(p);
        let saved = std::mem::take(&mut self.ed);
        let mut gs = vec![];
        if ps.lits.is_empty() {
            self.visit_pat(p);
        }
        for (n, ((x, y), v)) in ps.lits.iter().enumerate() {
            if wild {
                self.ed.replace(*x, *y, "_".into());
            } else {
                self.ed.replace(*x, *y, format!("__s{}", n));
                gs.push(format!("crate::shim::str_is(__s{}, {})", n, lit_bytes(v.as_bytes())));
            }
        }
        let sub = std::mem::replace(&mut self.ed, saved);
        let (a, b) = rng(p.span());
        (sub.apply(self.cx.src, a, b).0, gs)
    }
    /// Whether there is something mutable, which the expression does not mention.
    fn untouched(&self, e: &syn::Expr) -> bool {
        let t = e.to_token_stream().to_string();
        let mut ws = t.split(|c: char| !(c.is_alphanumeric() || c == '_'));
        !self.mut_names.is_empty() && !ws.any(|w| w == "self" && self.mut_self || self.mut_names.iter().any(|n| n == w && n != "w"))
    }
    /// A match with guards, where a mutable reference is a parameter: first which
    /// arm it is, then the arm.
    fn two_step_match(&mut self, m: &syn::ExprMatch, a: usize, b: usize) {
        self.rule("two-step-match", m.span());
        if m.arms.iter().any(|x| pat_has_str(&x.pat) && matches!(x.pat, syn::Pat::Or(_))) {
            self.problem("string alternatives in a pattern", m.span());
        }
        let scrut = self.render_sub(&m.expr);
        let mut first = String::new();
        let mut second = String::new();
        for (k, arm) in m.arms.iter().enumerate() {
            let (p1, mut gs) = self.render_pat(&arm.pat, false);
            let (p2, _) = self.render_pat(&arm.pat, true);
            if let Some((_, g)) = &arm.guard {
                let g = self.render_sub(g);
                gs.push(format!("({})", g));
            }
            let g = if gs.is_empty() { String::new() } else { format!(" if {}", gs.join(" && ")) };
            let body = self.render_sub(&arm.body);
            first.push_str(&format!("{p1}{g} => {k}u8,\n"));
            second.push_str(&format!("({k}u8, {p2}) => {body},\n"));
        }
        self.ed.replace(
            a,
            b,
            format!(
                "{{ let __m = {scrut}; let __k = match &__m {{ {first} }};\n match (__k, __m) {{ {second} _ => crate::shim::abort_() }} }}"
            ),
        );
    }
    /// A match with string literals: the literals become bindings and a guard.
    fn str_match(&mut self, m: &syn::ExprMatch) {
        self.rule("str-match", m.span());
        self.visit_expr(&m.expr);
        let mut n = 0;
        for arm in &m.arms {
            // one arm per alternative
            let alts: Vec<&syn::Pat> = match &arm.pat {
                syn::Pat::Or(o) => o.cases.iter().collect(),
                p => vec![p],
            };
            if alts.len() > 1 && pat_has_str(&arm.pat) {
                // bind the scrutinee as a whole
                let all: Option<Vec<String>> = alts
                    .iter()
                    .map(|p| match p {
                        syn::Pat::Lit(l) => match &l.lit {
                            syn::Lit::Str(s) => Some(s.value()),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect();
                match all {
                    Some(v) => {
                        let (pa, pb) = rng(arm.pat.span());
                        let g: Vec<String> = v
                            .iter()
                            .map(|s| format!("crate::shim::str_is(__s, {})", lit_bytes(s.as_bytes())))
                            .collect();
                        self.ed.replace(pa, pb, "__s".into());
                        self.ed.insert(pb, format!(" if {}", g.join(" || ")));
                        if arm.guard.is_some() {
                            self.problem("guard on a string pattern", arm.span());
                        }
                    }
                    None => self.problem("string alternatives in a pattern", arm.span()),
                }
                self.visit_expr(&arm.body);
                continue;
            }
            let mut ps = PatStr { lits: vec![] };
            ps.visit_pat(&arm.pat);
            if ps.lits.is_empty() {
                self.visit_pat(&arm.pat);
                if let Some((_, g)) = &arm.guard {
                    self.visit_expr(g);
                }
                self.visit_expr(&arm.body);
                continue;
            }
            let mut gs = vec![];
            for ((x, y), v) in &ps.lits {
                let nm = format!("__s{}", n);
                n += 1;
                self.ed.replace(*x, *y, nm.clone());
                gs.push(format!("crate::shim::str_is({}, {})", nm, lit_bytes(v.as_bytes())));
            }
            let g = gs.join(" && ");
            match &arm.guard {
                Some((_, ge)) => {
                    let (ga, gb) = rng(ge.span());
                    self.ed.insert(ga, format!("{} && (", g));
                    self.visit_expr(ge);
                    self.ed.insert(gb, ")".into());
                }
                None => {
                    let (_, pb) = rng(arm.pat.span());
                    self.ed.insert(pb, format!(" if {}", g));
                }
            }
            self.visit_expr(&arm.body);
        }
    }
}

fn squash(s: &str) -> String {
    s.split_whitespace().collect()
}

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// `use` trees: rename the roots.
fn use_edits(ed: &mut Edits, t: &syn::UseTree, _lead: bool) {
    match t {
        syn::UseTree::Path(p) => {
            if ROOTS.contains(&p.ident.to_string().as_str()) {
                ed.insert(rng(p.ident.span()).0, "crate::shim::".into());
            }
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                use_edits(ed, x, false);
            }
        }
        _ => {}
    }
}

struct Gen<'a> {
    cx: FileCx<'a>,
    out: String,
    fns: Vec<FnOut>,
    stubs: &'a BTreeSet<String>,
    only: &'a Option<BTreeSet<String>>,
    dropped: Vec<String>,
    taken: BTreeSet<String>,
    mods: Vec<String>,
}

impl<'a> Gen<'a> {
    fn push_fn(
        &mut self,
        id: &str,
        attrs_vis: &str,
        sig: &syn::Signature,
        block: Option<&syn::Block>,
        span: Span,
        helper: bool,
    ) {
        let fc = self.cx.contract.fns.get(id).cloned();
        let stub = helper
            || self.stubs.contains(id)
            || self.only.as_ref().map(|o| !o.contains(id)).unwrap_or(false)
            || fc.as_ref().map(|f| f.trusted).unwrap_or(false);
        self.taken.insert(id.to_string());
        let mut rw = Rw::new(&self.cx, fc.as_ref());
        if let Some(f) = &fc {
            // parameters
            let actual: Vec<String> = sig
                .inputs
                .iter()
                .map(|i| match i {
                    syn::FnArg::Receiver(_) => "self".to_string(),
                    syn::FnArg::Typed(t) => {
                        let mut s = t.pat.to_token_stream().to_string();
                        if let Some(r) = s.strip_prefix("mut ") {
                            s = r.to_string();
                        }
                        s
                    }
                })
                .collect();
            if actual.len() != f.params.len() {
                rw.problems.push(format!(
                    "the function has {} parameters, its contract {}",
                    actual.len(),
                    f.params.len()
                ));
            }
            for (c, x) in f.params.iter().zip(actual.iter()) {
                if c != x {
                    rw.subst.insert(c.clone(), x.clone());
                }
            }
            if let Some(b) = block {
                for l in &f.locals {
                    match find_local(self.cx.src, b, l) {
                        Some(x) if x != l.name => {
                            rw.subst.insert(l.name.clone(), x);
                        }
                        Some(_) => {}
                        None => rw.problems.push(format!("local `{}` not found", l.name)),
                    }
                }
            }
            for (i, n) in &f.lift_names {
                rw.lift_names.insert(*i, n.clone());
            }
            for (i, n) in &f.thread_names {
                rw.thread_names.insert(*i, n.clone());
            }
        }
        rw.mut_params = sig.inputs.iter().any(|i| match i {
            syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
            syn::FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(),
        });
        for i in &sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                if matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) {
                    rw.mut_names.push(t.pat.to_token_stream().to_string());
                }
            }
        }
        if fc.as_ref().map(|f| f.world).unwrap_or(false) {
            rw.mut_names.push("w".into());
        }
        rw.mut_self = sig.receiver().map(|r| r.reference.is_some() && r.mutability.is_some()).unwrap_or(false);
        // signature
        let (sa, _) = rng(sig.span());
        if let Some(x) = &sig.asyncness {
            let (p, q) = rng(x.span());
            rw.ed.replace(p, q, String::new());
        }
        if let Some(x) = &sig.constness {
            let (p, q) = rng(x.span());
            rw.ed.replace(p, q, String::new());
        }
        for i in &sig.inputs {
            match i {
                syn::FnArg::Typed(t) => rw.visit_type(&t.ty),
                syn::FnArg::Receiver(_) => {}
            }
        }
        for p in &sig.generics.params {
            rw.visit_generic_param(p);
        }
        if let Some(wc) = &sig.generics.where_clause {
            rw.visit_where_clause(wc);
        }
        let paren_close = rng(sig.paren_token.span.close()).0;
        if let Some(f) = &fc {
            if f.world {
                let e = sig.inputs.is_empty();
                let tr = sig.inputs.trailing_punct();
                rw.append_arg(paren_close, e, "w: &mut crate::shim::World", tr);
            }
        }
        let mut sig_end = paren_close + 1;
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            let (ta, tb) = rng(ty.span());
            if let Some(f) = &fc {
                rw.ed.insert(ta, format!("({}: ", f.ret));
                rw.visit_type(ty);
                rw.ed.insert(tb, ")".into());
            } else {
                rw.visit_type(ty);
            }
            sig_end = tb;
        }
        if let Some(wc) = &sig.generics.where_clause {
            sig_end = sig_end.max(rng(wc.span()).1);
        }
        let sig_ed = std::mem::take(&mut rw.ed);
        let (sig_txt, _) = sig_ed.apply(self.cx.src, sa, sig_end);
        let spec = fc.as_ref().map(|f| rw.fc_text(&f.spec)).unwrap_or_default();
        let gen_start = self.out.len();
        let mut status = "verified";
        let body = match block {
            None => ";".to_string(),
            Some(b) => {
                let (ba, bb) = rng(b.span());
                rw.visit_block(b);
                if let Some(f) = &fc {
                    let mut h = rw.fc_text(&f.head);
                    if vacuity() { h = format!(" proof {{ assert(false); }} {}", h) }
                    rw.ed.insert_early(ba + 1, h);
                    let t = rw.fc_text(&f.tail);
                    rw.ed.insert_early(tail_at(b, bb), t);
                    for (k, at) in f.ats.iter().enumerate() {
                        if !rw.rules.contains(&format!("at#{}", k)) {
                            rw.problems.push(format!("statement `{}` not found", at.pat));
                        }
                    }
                    for (k, l) in &f.loops {
                        if *k >= rw.loops {
                            rw.problems.push(format!("loop {} ({}) not found", k, l.kind));
                        }
                    }
                }
                rw.ed.apply(self.cx.src, ba, bb).0
            }
        };
        if stub {
            status = if helper {
                "helper"
            } else if fc.as_ref().map(|f| f.trusted).unwrap_or(false) {
                "trusted"
            } else {
                "stub"
            };
            self.out.push_str(&format!(
                "#[verifier::external_body]\n{} {}\n{}\n{{ unimplemented!() }}\n\n",
                attrs_vis, sig_txt, strip_decreases(&spec)
            ));
        } else {
            let attrs = fc.as_ref().map(|f| f.attrs.clone()).unwrap_or_default();
            self.out.push_str(&format!(
                "{}\n{} {}\n{}\n{}\n\n",
                attrs, attrs_vis, sig_txt, spec, body
            ));
        }
        let helpers: Vec<String> = rw.helpers.iter().cloned().collect();
        let lifted = std::mem::take(&mut rw.lifted);
        let problems = rw.problems.clone();
        let rules = rw.rules.iter().filter(|r| !r.starts_with("at#")).cloned().collect();
        drop(rw);
        self.fns.push(FnOut {
            id: id.to_string(),
            file: self.cx.rel.clone(),
            status: status.to_string(),
            src_lines: (span.start().line, span.end().line),
            src_range: rng(span),
            gen_range: (gen_start, self.out.len()),
            problems,
            rules,
            helpers,
        });
        let _ = lifted;
    }

    /// Blocks lifted out of a function: verified as functions of their own.
    fn push_lifts(&mut self, host: &str, block: &syn::Block) {
        let lifts: Vec<(String, FnContract)> = self
            .cx
            .contract
            .fns
            .iter()
            .filter(|(_, f)| f.lift_host.as_deref() == Some(host))
            .map(|(a, b)| (a.clone(), b.clone()))
            .collect();
        if lifts.is_empty() {
            return;
        }
        // blocks, and how many of the other kind come before each
        struct Coll(Vec<(syn::Block, usize)>, Vec<(syn::Block, usize)>);
        impl<'x> Visit<'x> for Coll {
            fn visit_expr_async(&mut self, e: &'x syn::ExprAsync) {
                self.0.push((e.block.clone(), self.1.len()));
                visit::visit_expr_async(self, e);
            }
            fn visit_expr_closure(&mut self, e: &'x syn::ExprClosure) {
                if is_block_closure(e) {
                    if let syn::Expr::Block(b) = &*e.body { self.1.push((b.block.clone(), self.0.len())); }
                }
                visit::visit_expr_closure(self, e);
            }
        }
        let mut c = Coll(vec![], vec![]);
        c.visit_block(block);
        for (id, f) in lifts {
            self.taken.insert(id.clone());
            let idx = f.lift_index;
            let (lifted, before) = match (if f.lift_closure { &c.1 } else { &c.0 }).get(idx) {
                Some((e, n)) => (e.clone(), *n),
                None => {
                    self.fns.push(FnOut {
                        id: id.clone(),
                        file: self.cx.rel.clone(),
                        status: "missing".into(),
                        src_lines: (0, 0),
                        src_range: (0, 0),
                        gen_range: (0, 0),
                        problems: vec![format!("{} {} of {} not found", if f.lift_closure { "closure" } else { "async block" }, idx, host)],
                        rules: vec![],
                        helpers: vec![],
                    });
                    continue;
                }
            };
            let stub = self.stubs.contains(&id)
                || self.only.as_ref().map(|o| !o.contains(&id)).unwrap_or(false);
            let mut rw = Rw::new(&self.cx, Some(&f));
            if f.lift_closure {
                rw.closures = idx + 1;
                rw.asyncs = before;
            } else {
                rw.want_async = Some(idx);
                rw.asyncs = idx + 1;
                rw.closures = before;
            }
            for (i, n) in &f.lift_names {
                rw.lift_names.insert(*i, n.clone());
            }
            for (i, n) in &f.thread_names {
                rw.thread_names.insert(*i, n.clone());
            }
            for l in &f.locals {
                match find_local(self.cx.src, &lifted, l) {
                    Some(x) if x != l.name => {
                        rw.subst.insert(l.name.clone(), x);
                    }
                    Some(_) => {}
                    None => rw.problems.push(format!("local `{}` not found", l.name)),
                }
            }
            let (ba, bb) = rng(lifted.span());
            rw.visit_block(&lifted);
            let mut h = rw.fc_text(&f.head);
            if vacuity() { h = format!(" proof {{ assert(false); }} {}", h) }
            rw.ed.insert_early(ba + 1, h);
            let t = rw.fc_text(&f.tail);
            rw.ed.insert_early(tail_at(&lifted, bb), t);
            for (k, at) in f.ats.iter().enumerate() {
                if !rw.rules.contains(&format!("at#{}", k)) {
                    rw.problems.push(format!("statement `{}` not found", at.pat));
                }
            }
            for (k, l) in &f.loops {
                if *k >= rw.loops {
                    rw.problems.push(format!("loop {} ({}) not found", k, l.kind));
                }
            }
            let ed = std::mem::take(&mut rw.ed);
            let body = ed.apply(self.cx.src, ba, bb).0;
            let gs = self.out.len();
            let spec = rw.fc_text(&f.spec);
            let method = f.lift_sig.contains("(self") || f.lift_sig.contains("(mut self") || f.lift_sig.contains("(&self");
            if method {
                self.out.push_str(&format!("impl {} {{\n", host.rsplit_once("::").map(|x| x.0).unwrap_or("")));
            }
            if stub {
                self.out.push_str(&format!(
                    "#[verifier::external_body]\npub {}\n{}\n{{ unimplemented!() }}\n\n",
                    f.lift_sig, strip_decreases(&spec)
                ));
            } else {
                self.out.push_str(&format!("{}\npub {}\n{}\n{}\n\n", f.attrs, f.lift_sig, spec, body));
            }
            if method {
                self.out.push_str("}\n\n");
            }
            let problems = rw.problems.clone();
            let mut rules: Vec<String> =
                rw.rules.iter().filter(|r| !r.starts_with("at#")).cloned().collect();
            rules.push(format!("lift@{}", lifted.span().start().line));
            let helpers = rw.helpers.iter().cloned().collect();
            drop(rw);
            self.fns.push(FnOut {
                id,
                file: self.cx.rel.clone(),
                status: if stub { "stub".into() } else { "verified".into() },
                src_lines: (lifted.span().start().line, lifted.span().end().line),
                src_range: (ba, bb),
                gen_range: (gs, self.out.len()),
                problems,
                rules,
                helpers,
            });
        }
    }

    fn items(&mut self, items: &[syn::Item]) {
        let contract = self.cx.contract;
        // default methods of the traits made inherent
        for it in items {
            match it {
                syn::Item::Use(u) => {
                    if is_test(&u.attrs) {
                        continue;
                    }
                    let mut ed = Edits::default();
                    use_edits(&mut ed, &u.tree, false);
                    let (a, b) = rng(u.span());
                    let us = rng(u.use_token.span()).0;
                    let _ = a;
                    let t = ed.apply(self.cx.src, us, b).0;
                    let flat = norm(&t);
                    if contract.drop_uses.iter().any(|d| flat.contains(d.as_str())) {
                        self.dropped.push(format!("use: {}", flat));
                        continue;
                    }
                    self.out.push_str("#[allow(unused_imports)] ");
                    self.out.push_str(&t);
                    self.out.push('\n');
                }
                syn::Item::Mod(m) => {
                    let n = m.ident.to_string();
                    if m.content.is_none() && contract.mods.contains(&n) {
                        self.mods.push(n);
                    } else {
                        self.dropped.push(format!("mod {}", n));
                    }
                }
                syn::Item::Const(c) => self.constant(&c.ident.to_string(), &c.ty, &c.expr, c.span()),
                syn::Item::Static(c) => self.constant(&c.ident.to_string(), &c.ty, &c.expr, c.span()),
                syn::Item::Struct(s) => {
                    let n = s.ident.to_string();
                    if !contract.keep.contains(&n) {
                        self.dropped.push(format!("struct {}", n));
                        continue;
                    }
                    let mut rw = Rw::new(&self.cx, None);
                    for f in s.fields.iter() {
                        for a in &f.attrs {
                            let (x, y) = rng(a.span());
                            rw.ed.replace(x, y, String::new());
                        }
                        rw.visit_type(&f.ty);
                        pub_edit(&mut rw.ed, &f.vis, match &f.ident {
                            Some(i) => rng(i.span()).0,
                            None => rng(f.ty.span()).0,
                        });
                    }
                    let st = rng(s.struct_token.span()).0;
                    let (_, b) = rng(s.span());
                    let ed = std::mem::take(&mut rw.ed);
                    let t = ed.apply(self.cx.src, st, b).0;
                    drop(rw);
                    self.out.push_str(&format!("{}\npub {}\n\n", contract.type_attrs(&n), t));
                    self.derived_default(s);
                    self.derived_clone(s);
                }
                syn::Item::Enum(s) => {
                    let n = s.ident.to_string();
                    if !contract.keep.contains(&n) {
                        self.dropped.push(format!("enum {}", n));
                        continue;
                    }
                    let mut rw = Rw::new(&self.cx, None);
                    for v in &s.variants {
                        for a in &v.attrs {
                            let (x, y) = rng(a.span());
                            rw.ed.replace(x, y, String::new());
                        }
                        for f in v.fields.iter() {
                            for a in &f.attrs {
                                let (x, y) = rng(a.span());
                                rw.ed.replace(x, y, String::new());
                            }
                            rw.visit_type(&f.ty);
                        }
                    }
                    let st = rng(s.enum_token.span()).0;
                    let (_, b) = rng(s.span());
                    let ed = std::mem::take(&mut rw.ed);
                    let t = ed.apply(self.cx.src, st, b).0;
                    drop(rw);
                    self.out.push_str(&format!("{}\npub {}\n\n", contract.type_attrs(&n), t));
                }
                syn::Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let n = f.sig.ident.to_string();
                    if contract.fns.contains_key(&n) {
                        self.push_fn(&n, "pub", &f.sig, Some(&f.block), f.span(), false);
                        self.push_lifts(&n, &f.block);
                    } else if contract.fns.values().any(|c| c.lift_host.as_deref() == Some(&n)) {
                        self.push_lifts(&n, &f.block);
                    } else if !contract.drop_fns.contains(&n) && !contract.fns.is_empty() {
                        self.push_fn(&n, "pub", &f.sig, Some(&f.block), f.span(), true);
                    } else {
                        self.dropped.push(format!("fn {}", n));
                    }
                }
                syn::Item::Impl(i) => self.impl_(i),
                syn::Item::Trait(t) => {
                    self.dropped.push(format!("trait {}", t.ident));
                    if INHERENT.contains(&t.ident.to_string().as_str()) {
                        self.out.push_str(&format!("pub trait {} {{}}\n", t.ident));
                    }
                }
                syn::Item::Macro(m) => self.dropped.push(format!(
                    "macro {}",
                    m.mac.path.to_token_stream()
                )),
                syn::Item::Type(t) => {
                    let n = t.ident.to_string();
                    if contract.keep.contains(&n) {
                        let mut rw = Rw::new(&self.cx, None);
                        rw.visit_type(&t.ty);
                        let (a, b) = rng(t.span());
                        let _ = a;
                        let st = rng(t.type_token.span()).0;
                        let ed = std::mem::take(&mut rw.ed);
                        let x = ed.apply(self.cx.src, st, b).0;
                        drop(rw);
                        self.out.push_str(&format!("pub {}\n", x));
                    } else {
                        self.dropped.push(format!("type {}", n));
                    }
                }
                _ => self.dropped.push("item".into()),
            }
        }
    }
    /// `#[derive(Clone)]`, of the structures the contract names: field by field.
    fn derived_clone(&mut self, s: &syn::ItemStruct) {
        let n = s.ident.to_string();
        let derives = s.attrs.iter().any(|a| {
            a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Clone")
        });
        let eq = self.cx.contract.clone_eq.contains(&n);
        let world = self.cx.contract.clone_world.get(&n);
        if !derives || !(eq || world.is_some()) {
            return;
        }
        let tuple = matches!(s.fields, syn::Fields::Unnamed(_));
        let mut init = vec![];
        for (k, f) in s.fields.iter().enumerate() {
            let name = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string());
            let cell = f.ty.to_token_stream().to_string().contains("Cell <");
            let c = if cell && world.is_some() {
                format!("self.{name}.dup_w(w)")
            } else {
                format!("crate::shim::Dup_::dup_(&self.{name})")
            };
            init.push(if tuple { c } else { format!("{name}: {c}") });
        }
        let body = if tuple {
            format!("{n}({})", init.join(", "))
        } else {
            format!("{n} {{ {} }}", init.join(", "))
        };
        match world {
            None => self.out.push_str(&format!(
                "impl Clone for {n} {{ fn clone(&self) -> (r: {n}) ensures r == *self {{ {body} }} }}\nimpl crate::shim::Dup_ for {n} {{ fn dup_(&self) -> (r: {n}) {{ {body} }} }}\n\n"
            )),
            Some(spec) => self.out.push_str(&format!(
                "impl {n} {{ pub fn clone(&self, w: &mut crate::shim::World) -> (r: {n}) {spec} {{ {body} }} }}\n\n"
            )),
        }
    }
    /// `#[derive(Default)]` of a structure whose fields are all options.
    fn derived_default(&mut self, s: &syn::ItemStruct) {
        let derives = s.attrs.iter().any(|a| {
            a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Default")
        });
        let options = s.fields.iter().all(|f| {
            f.ident.is_some() && f.ty.to_token_stream().to_string().starts_with("Option")
        });
        if !derives || !options {
            return;
        }
        let names: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
        let init: Vec<String> = names.iter().map(|n| format!("{}: None", n)).collect();
        let ens: Vec<String> = names.iter().map(|n| format!("r.{} is None", n)).collect();
        let ens = if ens.is_empty() { "true".to_string() } else { ens.join(", ") };
        self.out.push_str(&format!(
            "impl {} {{ pub fn default() -> (r: {0}) ensures {} {{ {0} {{ {} }} }} }}\n\n",
            s.ident, ens, init.join(", ")
        ));
    }
    fn constant(&mut self, name: &str, ty: &syn::Type, e: &syn::Expr, span: Span) {
        let contract = self.cx.contract;
        let mut rw = Rw::new(&self.cx, None);
        let t = {
            let saved = std::mem::take(&mut rw.ed);
            rw.visit_type(ty);
            let sub = std::mem::replace(&mut rw.ed, saved);
            let (a, b) = rng(ty.span());
            sub.apply(self.cx.src, a, b).0
        };
        let t = if matches!(ty, syn::Type::Reference(r) if r.lifetime.is_none()) { t.replacen('&', "&'static ", 1) } else { t };
        let ex = rw.render_sub(e);
        let problems = rw.problems.clone();
        drop(rw);
        if self.cx.consts.contains(name) {
            let id = format!("const {}", name);
            match contract.fns.get(&id) {
                Some(f) => {
                    let gs = self.out.len();
                    self.taken.insert(id.clone());
                    let stub = self.stubs.contains(&id)
                        || self.only.as_ref().map(|o| !o.contains(&id)).unwrap_or(false);
                    if f.trusted || stub {
                        self.out.push_str(&format!(
                            "#[verifier::external_body]\n#[allow(non_snake_case)]\npub fn {}() -> ({}: {})\n{}\n{{ unimplemented!() }}\n\n",
                            name, f.ret, t, f.spec
                        ));
                    } else {
                        self.out.push_str(&format!(
                            "#[allow(non_snake_case)]\npub fn {}() -> ({}: {})\n{}\n{{ {} {} }}\n\n",
                            name, f.ret, t, f.spec, f.head, ex
                        ));
                    }
                    self.fns.push(FnOut {
                        id,
                        file: self.cx.rel.clone(),
                        status: if f.trusted { "trusted".into() } else if stub { "stub".into() } else { "verified".into() },
                        src_lines: (span.start().line, span.end().line),
                        src_range: rng(span),
                        gen_range: (gs, self.out.len()),
                        problems,
                        rules: vec![format!("const-fn@{}", span.start().line)],
                        helpers: vec![],
                    });
                }
                None => self.dropped.push(format!("const {}", name)),
            }
        } else if self.cx.inlined.contains_key(name) {
        } else if contract.keep.contains(name) || is_prim(ty) {
            self.out.push_str(&format!("pub const {}: {} = {};\n", name, t, ex));
        } else {
            self.dropped.push(format!("const {}", name));
        }
    }
    fn impl_(&mut self, i: &syn::ItemImpl) {
        let contract = self.cx.contract;
        if is_test(&i.attrs) {
            return;
        }
        let ty = i.self_ty.to_token_stream().to_string().replace(' ', "");
        let tr = i.trait_.as_ref().map(|(_, p, _)| {
            p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "")
        });
        let inherent = match &tr {
            None => true,
            Some(t) => INHERENT.contains(&t.as_str()),
        };
        let tshort = ty.split('<').next().unwrap().to_string();
        let prefix = match &tr {
            Some(t) if !inherent => format!("{} as {}::", ty, t),
            _ => format!("{}::", tshort),
        };
        let wanted: Vec<&syn::ImplItemFn> = i
            .items
            .iter()
            .filter_map(|x| match x {
                syn::ImplItem::Fn(f) => Some(f),
                _ => None,
            })
            .collect();
        let any = wanted
            .iter()
            .any(|f| {
                let id = format!("{}{}", prefix, f.sig.ident);
                contract.fns.contains_key(&id)
                    || contract.fns.values().any(|c| c.lift_host.as_deref() == Some(id.as_str()))
            })
            || (inherent && tr.is_some() && contract.defaults.iter().any(|d| tr.as_deref() == Some(d.0.as_str()) && contract.fns.contains_key(&format!("{}{}", prefix, d.1))));
        if !any {
            self.dropped.push(format!("impl {} {}", tr.unwrap_or_default(), ty));
            return;
        }
        // header
        let mut rw = Rw::new(&self.cx, None);
        rw.visit_type(&i.self_ty);
        for p in &i.generics.params {
            rw.visit_generic_param(p);
        }
        if let Some((_, p, fort)) = &i.trait_ {
            if inherent {
                let (a, _) = rng(p.span());
                let (_, b) = rng(fort.span());
                rw.ed.replace(a, b, String::new());
            } else {
                rw.path(p, false);
            }
        }
        let (a, _) = rng(i.impl_token.span());
        let (b, _) = rng(i.brace_token.span.open());
        let ed = std::mem::take(&mut rw.ed);
        let head = ed.apply(self.cx.src, a, b).0;
        drop(rw);
        self.out.push_str(&format!("{}{{\n", head));
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    let id = format!("{}{}", prefix, n);
                    let vis = if inherent { "pub" } else { "" };
                    if contract.fns.contains_key(&id) {
                        self.push_fn(&id, vis, &f.sig, Some(&f.block), f.span(), false);
                    } else if !contract.drop_fns.contains(&id) && inherent {
                        self.push_fn(&id, vis, &f.sig, Some(&f.block), f.span(), true);
                    } else {
                        self.dropped.push(format!("fn {}", id));
                    }
                }
                syn::ImplItem::Type(t) if !inherent => {
                    let mut rw = Rw::new(&self.cx, None);
                    rw.visit_type(&t.ty);
                    let (a, b) = rng(t.span());
                    let ed = std::mem::take(&mut rw.ed);
                    let x = ed.apply(self.cx.src, a, b).0;
                    drop(rw);
                    self.out.push_str(&x);
                    self.out.push('\n');
                }
                _ => self.dropped.push(format!("item of impl {}", ty)),
            }
        }
        // inherited default methods
        if inherent && tr.is_some() {
            for (of, name, text) in &contract.defaults {
                if tr.as_deref() != Some(of.as_str()) {
                    continue;
                }
                let id = format!("{}{}", prefix, name);
                if contract.fns.contains_key(&id)
                    && !wanted.iter().any(|f| f.sig.ident == name.as_str())
                {
                    // text of the default method, from the trait definition
                    let f: syn::ImplItemFn = match syn::parse_str(text) {
                        Ok(f) => f,
                        Err(_) => continue,
                    };
                    let fcx = FileCx {
                        rel: self.cx.rel.clone(),
                        src: text,
                        contract,
                        known_fns: Default::default(),
                        consts: Default::default(),
                        inlined: Default::default(),
                    };
                    let mut g = Gen {
                        cx: fcx,
                        out: std::mem::take(&mut self.out),
                        fns: vec![],
                        stubs: self.stubs,
                        only: self.only,
                        dropped: vec![],
                        taken: Default::default(),
                        mods: vec![],
                    };
                    g.push_fn(&id, "pub", &f.sig, Some(&f.block), f.span(), false);
                    self.out = g.out;
                    let mut fns = g.fns;
                    for x in fns.iter_mut() {
                        x.rules.push("inherited-default".into());
                        x.src_range = (0, 0);
                    }
                    self.fns.extend(fns);
                    self.taken.insert(id);
                }
            }
        }
        let ekey = match &tr {
            None => tshort.clone(),
            Some(t) => format!("{} as {}", ty, t),
        };
        if let Some(x) = contract.impl_extra.get(&ekey) {
            self.out.push_str(x);
        }
        self.out.push_str("}\n\n");
        for it in &i.items {
            if let syn::ImplItem::Fn(f) = it {
                let id = format!("{}{}", prefix, f.sig.ident);
                self.push_lifts(&id, &f.block);
            }
        }
    }
}

/// `--vacuity`: every function starts with an assertion that must fail.
fn vacuity() -> bool {
    std::env::args().any(|a| a == "--vacuity")
}

/// Where the text of `tail` goes: before the value of the block.
fn tail_at(b: &syn::Block, end: usize) -> usize {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_)) => rng(e.span()).0,
        _ => end - 1,
    }
}

/// The clauses after `decreases` do not apply to a function without a body.
fn strip_decreases(s: &str) -> String {
    match s.find("decreases") {
        Some(i) => s[..i].to_string(),
        None => s.to_string(),
    }
}

fn pub_edit(ed: &mut Edits, vis: &syn::Visibility, at: usize) {
    match vis {
        syn::Visibility::Public(_) => {}
        syn::Visibility::Inherited => ed.insert(at, "pub ".into()),
        syn::Visibility::Restricted(r) => {
            let (a, b) = rng(r.span());
            ed.replace(a, b, "pub".into());
        }
    }
}

/// The constants that are written out where they are used: those that have no
/// contract, and that the verifier could not evaluate.
fn inlined(file: &syn::File, con: &FileContract) -> BTreeMap<String, syn::Expr> {
    let mut m = BTreeMap::new();
    let plain = |ty: &syn::Type, e: &syn::Expr| {
        let t = e.to_token_stream().to_string();
        is_prim(ty) && !t.contains('(')
    };
    for it in &file.items {
        let (n, ty, e, attrs) = match it {
            syn::Item::Const(c) => (c.ident.to_string(), &c.ty, &c.expr, &c.attrs),
            syn::Item::Static(c) => (c.ident.to_string(), &c.ty, &c.expr, &c.attrs),
            syn::Item::Impl(i) if !is_test(&i.attrs) => {
                let t = i.self_ty.to_token_stream().to_string();
                for x in &i.items {
                    if let syn::ImplItem::Const(c) = x {
                        if !is_test(&c.attrs) {
                            m.insert(format!("Self::{}", c.ident), c.expr.clone());
                            m.insert(format!("{}::{}", t, c.ident), c.expr.clone());
                        }
                    }
                }
                continue;
            }
            _ => continue,
        };
        if is_test(attrs) || con.keep.contains(&n) || con.fns.contains_key(&format!("const {}", n)) || plain(ty, e) {
            continue;
        }
        m.insert(n, (**e).clone());
    }
    m
}

fn is_prim(t: &syn::Type) -> bool {
    let s = t.to_token_stream().to_string();
    matches!(
        s.as_str(),
        "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool"
    )
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("cfg(roster_verif)") || s == "#[test]"
    })
}

fn find_local(src: &str, b: &syn::Block, l: &Local) -> Option<String> {
    struct F<'s> {
        src: &'s str,
        l: &'s Local,
        found: Option<String>,
        seen_for: usize,
    }
    impl<'s, 'x> Visit<'x> for F<'s> {
        fn visit_local(&mut self, n: &'x syn::Local) {
            if self.found.is_none() && self.l.kind == "let" {
                if let Some(init) = &n.init {
                    let t = squash(txt(self.src, init.expr.span()));
                    if t.contains(&squash(&self.l.pat)) {
                        let mut p = &n.pat;
                        if let syn::Pat::Type(t) = p {
                            p = &t.pat;
                        }
                        if let syn::Pat::Ident(i) = p {
                            self.found = Some(i.ident.to_string());
                        }
                    }
                }
            }
            visit::visit_local(self, n);
        }
        fn visit_expr_for_loop(&mut self, n: &'x syn::ExprForLoop) {
            if self.l.kind == "for" && self.l.pat == self.seen_for.to_string() {
                if let syn::Pat::Ident(i) = &*n.pat {
                    self.found = Some(i.ident.to_string());
                }
            }
            self.seen_for += 1;
            visit::visit_expr_for_loop(self, n);
        }
    }
    let mut f = F { src, l, found: None, seen_for: 0 };
    f.visit_block(b);
    f.found
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let src_root = PathBuf::from(get("--src").expect("--src"));
    let con_root = PathBuf::from(get("--contracts").expect("--contracts"));
    let out_root = PathBuf::from(get("--out").expect("--out"));
    let set = |k: &str| -> BTreeSet<String> {
        get(k)
            .map(|f| {
                fs::read_to_string(f)
                    .unwrap()
                    .lines()
                    .map(|l| l.trim().to_string())
                    .filter(|l| !l.is_empty())
                    .collect()
            })
            .unwrap_or_default()
    };
    let stubs = set("--stub");
    let only = get("--only").map(|_| set("--only"));
    let mut report = vec![];
    let mut files = vec![];
    collect(&con_root, &con_root, &mut files);
    files.sort();
    let mut fatal = vec![];
    for rel in files {
        let con = FileContract::load(&con_root.join(&rel));
        let rel_rs = rel.strip_suffix(".vc").unwrap().to_string() + ".rs";
        let module = rel_rs
            .strip_suffix(".rs")
            .unwrap()
            .trim_end_matches("/mod")
            .replace('/', "::");
        // qualified ids: module::id
        let q = |s: &str| format!("{}::{}", module, s);
        let local = |s: &BTreeSet<String>| -> BTreeSet<String> {
            s.iter()
                .filter_map(|x| x.strip_prefix(&format!("{}::", module)).map(|y| y.to_string()))
                .collect()
        };
        let stubs_l = local(&stubs);
        let only_l = only.as_ref().map(|o| local(o));
        let path = src_root.join(&rel_rs);
        let src = match fs::read_to_string(&path) {
            Ok(s) => s,
            Err(e) => {
                fatal.push(format!("{}: {}", rel_rs, e));
                continue;
            }
        };
        let (src, steps) = inline::prepare(&src, &con);
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                fatal.push(format!("{}: {}", rel_rs, e));
                continue;
            }
        };
        let mut con = con;
        // default methods of the inherent traits: their text comes from the source
        if let Some(from) = &con.defaults_from {
            let p = src_root.join(from);
            if let Ok(s) = fs::read_to_string(&p) {
                if let Ok(f) = syn::parse_file(&s) {
                    for it in &f.items {
                        if let syn::Item::Trait(t) = it {
                            if INHERENT.contains(&t.ident.to_string().as_str()) {
                                for x in &t.items {
                                    if let syn::TraitItem::Fn(tf) = x {
                                        if let Some(b) = &tf.default {
                                            let (a, _) = rng(tf.sig.span());
                                            let (_, e) = rng(b.span());
                                            con.defaults.push((
                                                t.ident.to_string(),
                                                tf.sig.ident.to_string(),
                                                s[a..e].to_string(),
                                            ));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let consts: BTreeSet<String> = con
            .fns
            .keys()
            .filter_map(|k| k.strip_prefix("const ").map(|x| x.to_string()))
            .collect();
        let cx = FileCx {
            rel: rel_rs.clone(),
            src: &src,
            contract: &con,
            known_fns: con.fns.keys().cloned().collect(),
            consts,
            inlined: inlined(&file, &con),
        };
        let _ = &cx.known_fns;
        let mut g = Gen {
            cx,
            out: format!(
                "// Extracted from {} -- do not edit.\n#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\nverus! {{\nbroadcast use {{vstd::std_specs::control_flow::group_control_flow_axioms, crate::shim::axiom_question_mark}};\n{}\n",
                rel_rs, con.top
            ),
            fns: vec![],
            stubs: &stubs_l,
            only: &only_l,
            dropped: vec![],
            taken: Default::default(),
            mods: vec![],
        };
        g.items(&file.items);
        g.out.push_str(&con.bottom);
        g.out.push_str("\n} // verus!\n");
        // outside of the macro, where Verus finds their errors
        for n in g.mods.clone() {
            g.out.push_str(&format!("pub mod {};\n", n));
        }
        for k in con.fns.keys() {
            if !g.taken.contains(k) {
                g.fns.push(FnOut {
                    id: k.clone(),
                    file: rel_rs.clone(),
                    status: "missing".into(),
                    src_lines: (0, 0),
                    src_range: (0, 0),
                    gen_range: (0, 0),
                    problems: vec!["function not found in the source".into()],
                    rules: vec![],
                    helpers: vec![],
                });
            }
        }
        let outp = out_root.join(&rel_rs);
        fs::create_dir_all(outp.parent().unwrap()).unwrap();
        fs::write(&outp, &g.out).unwrap();
        let line_of = |p: usize| g.out[..p].matches('\n').count() + 1;
        let helper_ids: BTreeSet<String> = g
            .fns
            .iter()
            .filter(|f| f.status == "helper")
            .map(|f| f.id.rsplit("::").next().unwrap().to_string())
            .collect();
        for f in &g.fns {
            let unk: Vec<&String> = f.helpers.iter().filter(|h| helper_ids.contains(*h)).collect();
            report.push(json!({
                "id": q(&f.id), "file": f.file, "status": f.status,
                "props": con.fns.get(&f.id).map(|c| c.props.clone()).unwrap_or_default(),
                "src_lines": [f.src_lines.0, f.src_lines.1],
                "src_text": if f.src_range.1 > f.src_range.0 { &src[f.src_range.0..f.src_range.1] } else { "" },
                "gen_lines": [line_of(f.gen_range.0), line_of(f.gen_range.1)],
                "problems": f.problems, "rules": f.rules, "unknown_helpers": unk,
            }));
        }
        report.push(json!({"module": module, "dropped": g.dropped, "inlined": steps}));
    }
    fs::create_dir_all(&out_root).unwrap();
    fs::write(
        out_root.join("report.json"),
        serde_json::to_string_pretty(&json!({"items": report, "fatal": fatal})).unwrap(),
    )
    .unwrap();
    for f in &fatal {
        eprintln!("fatal: {}", f);
    }
}

fn collect(root: &Path, d: &Path, out: &mut Vec<String>) {
    for e in fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            collect(root, &p, out);
        } else if p.extension().map(|x| x == "vc").unwrap_or(false) {
            out.push(p.strip_prefix(root).unwrap().to_str().unwrap().to_string());
        }
    }
}
