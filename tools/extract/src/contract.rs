//! The contract files: see /verif/contracts/README.md for the format.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Default, Clone)]
pub struct LoopSpec {
    pub kind: String,
    pub inv: String,
    pub pre: String,
    pub post: String,
    pub head: String,
    pub tail: String,
}
#[derive(Clone)]
pub struct At {
    pub pat: String,
    pub after: bool,
    pub text: String,
}
#[derive(Clone)]
pub struct Local {
    pub name: String,
    pub kind: String,
    pub pat: String,
}
#[derive(Default, Clone)]
pub struct FnContract {
    pub params: Vec<String>,
    pub ret: String,
    pub world: bool,
    pub trusted: bool,
    pub props: Vec<String>,
    pub attrs: String,
    pub spec: String,
    pub head: String,
    pub tail: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub ats: Vec<At>,
    pub locals: Vec<Local>,
    pub lift_host: Option<String>,
    pub lift_index: usize,
    /// lifted from a closure without parameters, instead of an async block
    pub lift_closure: bool,
    pub thread_names: BTreeMap<usize, String>,
    pub lift_sig: String,
    pub lift_names: BTreeMap<usize, String>,
    /// calls that get the world, in this function only
    pub world_calls: BTreeSet<String>,
    /// captured by value in the source, a reference here; methods that consume it
    pub by_ref: BTreeMap<String, Vec<String>>,
}
#[derive(Default)]
pub struct FileContract {
    pub mods: BTreeSet<String>,
    pub keep: BTreeSet<String>,
    pub clone_eq: BTreeSet<String>,
    pub clone_world: BTreeMap<String, String>,
    pub world_calls: BTreeSet<String>,
    pub method_args: BTreeMap<String, String>,
    pub drop_fns: BTreeSet<String>,
    pub drop_uses: Vec<String>,
    pub guards: bool,
    pub refcells: bool,
    pub defaults_from: Option<String>,
    pub defaults: Vec<(String, String, String)>,
    pub impl_extra: BTreeMap<String, String>,
    pub tattrs: BTreeMap<String, String>,
    pub top: String,
    pub bottom: String,
    pub fns: BTreeMap<String, FnContract>,
}

impl FileContract {
    pub fn type_attrs(&self, n: &str) -> String {
        self.tattrs.get(n).cloned().unwrap_or_default()
    }
    pub fn load(p: &Path) -> FileContract {
        let text = fs::read_to_string(p).unwrap();
        let mut fc = FileContract::default();
        let names = spec_names(p, &text);
        let mut lines = text.lines().peekable();
        let mut cur: Option<String> = None;
        let die = |m: &str| -> ! { panic!("{}: {}", p.display(), m) };
        while let Some(raw) = lines.next() {
            let line = raw.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let mut head = line.to_string();
            let mut block = String::new();
            if line.ends_with("{{{") {
                head = line.trim_end_matches("{{{").trim().to_string();
                loop {
                    match lines.next() {
                        Some(l) if l.trim() == "}}}" => break,
                        Some(l) => {
                            block.push_str(l);
                            block.push('\n');
                        }
                        None => die("unterminated block"),
                    }
                }
            }
            let (kw, rest) = match head.split_once(' ') {
                Some((a, b)) => (a.to_string(), b.trim().to_string()),
                None => (head.clone(), String::new()),
            };
            if !matches!(kw.as_str(), "top" | "bottom") {
                block = qualify(&block, &names);
            }
            let words: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
            match kw.as_str() {
                "mods" => fc.mods.extend(words),
                "keep" => fc.keep.extend(words),
                "clone-eq" => fc.clone_eq.extend(words),
                "clone-world" => {
                    fc.clone_world.insert(rest, block);
                }
                "world-calls" => fc.world_calls.extend(words),
                "method-arg" => {
                    fc.method_args.insert(words[0].clone(), words[1..].join(" "));
                }
                "drop-fns" => fc.drop_fns.extend(words),
                "drop-use" => fc.drop_uses.push(rest),
                "guards" => fc.guards = true,
                "refcells" => fc.refcells = true,
                "defaults-from" => fc.defaults_from = Some(rest),
                "impl-extra" => {
                    fc.impl_extra.insert(rest, block);
                }
                "type-attr" => {
                    fc.tattrs.entry(words[0].clone()).or_default().push_str(&words[1..].join(" "));
                }
                "top" => fc.top.push_str(&block),
                "bottom" => fc.bottom.push_str(&block),
                "fn" | "lift" => {
                    // fn NAME(params) -> ret +w +trusted [C01 C02] {{{ spec }}}
                    let mut f = FnContract { ret: "r".into(), ..Default::default() };
                    let (open, close) = match (rest.find('('), rest.find(')')) {
                        (Some(a), Some(b)) => (a, b),
                        _ => die(&format!("bad fn line: {}", line)),
                    };
                    let name = rest[..open].trim().to_string();
                    f.params = rest[open + 1..close]
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect();
                    let after = &rest[close + 1..];
                    let mut toks = after.split_whitespace().peekable();
                    while let Some(t) = toks.next() {
                        match t {
                            "->" => f.ret = toks.next().unwrap().to_string(),
                            "+w" => f.world = true,
                            "+trusted" => f.trusted = true,
                            x if x.starts_with('[') => {
                                let mut s = x.to_string();
                                while !s.ends_with(']') {
                                    s.push(' ');
                                    s.push_str(toks.next().unwrap());
                                }
                                f.props = s
                                    .trim_matches(|c| c == '[' || c == ']')
                                    .split_whitespace()
                                    .map(|x| x.to_string())
                                    .collect();
                            }
                            x => die(&format!("bad token {} in {}", x, line)),
                        }
                    }
                    f.spec = block;
                    if fc.fns.contains_key(&name) {
                        die(&format!("duplicate {}", name));
                    }
                    fc.fns.insert(name.clone(), f);
                    cur = Some(name);
                }
                _ => {
                    let c = match &cur {
                        Some(c) => fc.fns.get_mut(c).unwrap(),
                        None => die(&format!("unknown directive {}", line)),
                    };
                    match kw.as_str() {
                        "attr" => {
                            c.attrs.push_str(&rest);
                            c.attrs.push('\n');
                        }
                        "world" => c.world_calls.extend(words),
                        "by-ref" => {
                            c.by_ref.insert(words[0].clone(), words[1..].to_vec());
                        }
                        "head" => c.head = block,
                        "tail" => c.tail = block,
                        "loop" => {
                            let e = c.loops.entry(words[0].parse().unwrap()).or_default();
                            e.kind = words.get(1).cloned().unwrap_or_default();
                            e.inv = block;
                        }
                        "loop-head" => {
                            c.loops.entry(words[0].parse().unwrap()).or_default().head = block
                        }
                        "loop-pre" => {
                            c.loops.entry(words[0].parse().unwrap()).or_default().pre = block
                        }
                        "loop-post" => {
                            c.loops.entry(words[0].parse().unwrap()).or_default().post = block
                        }
                        "loop-tail" => {
                            c.loops.entry(words[0].parse().unwrap()).or_default().tail = block
                        }
                        "before" | "after" => c.ats.push(At {
                            pat: rest.split_whitespace().collect::<Vec<_>>().join(" "),
                            after: kw == "after",
                            text: block,
                        }),
                        "local" => {
                            // local NAME = let~TEXT | for N
                            let (n, d) = rest.split_once('=').unwrap();
                            let d = d.trim();
                            let (kind, pat) = if let Some(x) = d.strip_prefix("let~") {
                                ("let", x.to_string())
                            } else if let Some(x) = d.strip_prefix("for ") {
                                ("for", x.trim().to_string())
                            } else {
                                die(&format!("bad local: {}", line))
                            };
                            c.locals.push(Local {
                                name: n.trim().to_string(),
                                kind: kind.into(),
                                pat,
                            });
                        }
                        "from" => {
                            // from HOST async N | from HOST closure N
                            c.lift_closure = words[1] == "closure";
                            c.lift_host = Some(words[0].clone());
                            c.lift_index = words[2].parse().unwrap();
                        }
                        "sig" => c.lift_sig = rest,
                        "task" => {
                            let t = if block.is_empty() { "crate::shim::Task_".to_string() } else { block.trim().to_string() };
                            c.lift_names.insert(words[0].parse().unwrap(), t);
                        }
                        "thread" => {
                            c.thread_names.insert(words[0].parse().unwrap(), block.trim().to_string());
                        }
                        _ => die(&format!("unknown directive {}", line)),
                    }
                }
            }
        }
        fc
    }
}

/// Replace whole identifiers.
/// Where the specification functions are: a variable of the code may have the name of one.
fn spec_names(p: &Path, own: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let mut put = |text: &str, at: &str| {
        for l in text.lines() {
            if let Some(i) = l.find("fn ").filter(|_| l.contains("spec fn ") || l.contains("proof fn ")) {
                if l.starts_with(' ') {
                    continue;
                }
                let n: String = l[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                out.insert(n.clone(), format!("{}::{}", at, n));
            }
        }
    };
    for a in p.ancestors() {
        let d = a.join("verus/spec");
        if d.is_dir() {
            let mut fs_: Vec<_> = fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
            fs_.sort();
            for f in fs_ {
                let m = f.file_stem().unwrap().to_string_lossy().to_string();
                if m != "mod" {
                    put(&fs::read_to_string(&f).unwrap(), &format!("crate::spec::{}", m));
                }
            }
            break;
        }
    }
    put(own, "self");
    out
}
/// Calls of specification functions, by their full names.
fn qualify(t: &str, names: &BTreeMap<String, String>) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let j = (i..b.len()).find(|k| !(b[*k].is_alphanumeric() || b[*k] == '_')).unwrap_or(b.len());
            let w: String = b[i..j].iter().collect();
            let call = b.get(j) == Some(&'(') || (b.get(j) == Some(&':') && b.get(j + 1) == Some(&':') && b.get(j + 2) == Some(&'<'));
            let prev = b[..i].iter().rev().find(|c| !c.is_whitespace());
            let def = b[..i].iter().rev().skip_while(|c| c.is_whitespace()).take(2).collect::<String>() == "nf";
            match names.get(&w) {
                Some(q) if call && !def && prev != Some(&'.') && prev != Some(&':') => out.push_str(q),
                _ => out.push_str(&w),
            }
            i = j;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn subst_idents(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return t.to_string();
    }
    let mut out = String::new();
    let mut id = String::new();
    let mut prev_dot = false;
    let flush = |id: &mut String, out: &mut String, prev_dot: bool| {
        if !id.is_empty() {
            match m.get(id.as_str()) {
                Some(x) if !prev_dot => out.push_str(x),
                _ => out.push_str(id),
            }
            id.clear();
        }
    };
    let mut last = ' ';
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' {
            if id.is_empty() {
                prev_dot = last == '.';
            }
            id.push(c);
        } else {
            flush(&mut id, &mut out, prev_dot);
            out.push(c);
        }
        last = c;
    }
    flush(&mut id, &mut out, prev_dot);
    out
}
