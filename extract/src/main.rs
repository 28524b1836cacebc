//! Mechanical extraction of functions and type definitions of /repo into Verus units.
//!
//! usage: vextract <repo root> <template.vrs> <out.rs> <out.json>
//! exit 0: unit written; exit 3: an anchor was lost (reason on stdout as JSON).
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::exit;

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn lost(msg: String) -> ! {
    println!("{}", json!({"lost": msg}));
    exit(3)
}

// ------------------------------------------------------------------ printing
fn lost_in(path: &str, msg: String) -> ! {
    println!("{}", json!({"lost": msg, "fn": path}));
    std::process::exit(3)
}
fn print_ts(ts: TokenStream) -> String {
    let mut out = String::new();
    let mut indent = 0usize;
    pr(ts, &mut out, &mut indent, false);
    out
}
fn nl(out: &mut String, indent: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..indent {
        out.push_str("    ");
    }
}
fn pr(ts: TokenStream, out: &mut String, indent: &mut usize, inparen: bool) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    for t in toks {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    out.push('{');
                    *indent += 1;
                    nl(out, *indent);
                    pr(g.stream(), out, indent, false);
                    *indent -= 1;
                    nl(out, *indent);
                    out.push_str("} ");
                    if !inparen {
                        nl(out, *indent);
                    }
                } else {
                    if g.delimiter() != Delimiter::None {
                        // no space between an identifier and its argument list is needed
                    }
                    out.push_str(o);
                    pr(g.stream(), out, indent, true);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
                if p.as_char() == ';' && !inparen {
                    nl(out, *indent);
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}
fn norm(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(ts) => norm_ts(ts),
        Err(_) => s.split_whitespace().collect(),
    }
}
/// Canonical token text: no attributes, no trailing commas.
fn norm_ts(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    out.push(o.into());
                    go(g.stream(), out);
                    if out.last().map(|s| s == ",").unwrap_or(false) {
                        out.pop();
                    }
                    out.push(c.into());
                }
                t => out.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    go(ts, &mut v);
    v.join(" ")
}

// ------------------------------------------------------------------ lookup
struct Repo {
    root: PathBuf,
    files: HashMap<PathBuf, File>,
}
impl Repo {
    fn file(&mut self, rel: &str) -> Option<&File> {
        let p = self.root.join(rel);
        if !self.files.contains_key(&p) {
            let src = fs::read_to_string(&p).ok()?;
            let f = match syn::parse_file(&src) {
                Ok(f) => f,
                Err(e) => lost(format!("cannot parse {rel}: {e}")),
            };
            self.files.insert(p.clone(), f);
        }
        self.files.get(&p)
    }
    fn all(&self) -> Vec<String> {
        let mut v = vec![];
        fn walk(d: &Path, root: &Path, v: &mut Vec<String>) {
            let Ok(rd) = fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, root, v)
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    v.push(p.strip_prefix(root).unwrap().to_string_lossy().to_string())
                }
            }
        }
        walk(&self.root.join("src"), &self.root, &mut v);
        v.sort();
        v
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| norm_ts(a.to_token_stream()).contains("cfg ( test )"))
}
fn strip_generics(s: &str) -> String {
    // textual: everything before the first '<'
    s.split('<').next().unwrap().trim().to_string()
}
fn last_seg(s: &str) -> String {
    // drop leading path segments outside generics
    let head = s.split('<').next().unwrap();
    match head.rfind("::") {
        Some(i) => s[i + 2..].trim().to_string(),
        None => s.trim().to_string(),
    }
}
fn matches_ty(pattern: &str, actual: &Type) -> bool {
    let a = norm_ts(actual.to_token_stream());
    let a1 = last_seg(&a);
    let p = norm(pattern);
    p == a || p == a1 || (!p.contains('<') && p == strip_generics(&a1))
}
fn matches_trait(pattern: &str, actual: &syn::Path) -> bool {
    let a = norm_ts(actual.to_token_stream());
    let a1 = last_seg(&a);
    let p = norm(pattern);
    p == a || p == a1 || (!p.contains('<') && p == strip_generics(&a1))
}

#[derive(Clone)]
enum Found {
    Method(ImplItemFn),
    Free(ItemFn),
    TraitM(TraitItemFn),
}

fn find_fn(items: &[Item], ty: Option<&str>, tr: Option<&str>, name: &str, out: &mut Vec<Found>) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    find_fn(its, ty, tr, name, out)
                }
            }
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => out.push(Found::Free(f.clone())),
            Item::Trait(t) if ty.map(|x| x == t.ident.to_string()).unwrap_or(false) && tr.is_none() => {
                for m in &t.items {
                    if let TraitItem::Fn(f) = m {
                        if f.sig.ident == name && f.default.is_some() {
                            out.push(Found::TraitM(f.clone()))
                        }
                    }
                }
            }
            Item::Impl(i) if ty.is_some() => {
                if !matches_ty(ty.unwrap(), &i.self_ty) {
                    continue;
                }
                match (&i.trait_, tr) {
                    (Some((_, p, _)), Some(t)) if matches_trait(t, p) => {}
                    (None, None) => {}
                    _ => continue,
                }
                for m in &i.items {
                    if let ImplItem::Fn(f) = m {
                        if f.sig.ident == name && !is_test(&f.attrs) {
                            out.push(Found::Method(f.clone()))
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
/// "Type::f", "<Type as Trait>::f", "f"
fn parse_path(p: &str) -> (Option<String>, Option<String>, String) {
    let p = p.trim();
    if let Some(rest) = p.strip_prefix('<') {
        let i = rest.rfind(">::").unwrap();
        let (inner, name) = (&rest[..i], &rest[i + 3..]);
        let j = inner.find(" as ").unwrap();
        (Some(inner[..j].into()), Some(inner[j + 4..].into()), name.into())
    } else if let Some(i) = p.rfind("::") {
        (Some(p[..i].into()), None, p[i + 2..].into())
    } else {
        (None, None, p.into())
    }
}
fn lookup_fn(repo: &mut Repo, file: &str, path: &str) -> (String, Found) {
    let (ty, tr, name) = parse_path(path);
    let mut v = vec![];
    if let Some(f) = repo.file(file) {
        find_fn(&f.items.clone(), ty.as_deref(), tr.as_deref(), &name, &mut v);
    }
    let mut wh = file.to_string();
    if v.is_empty() {
        for f in repo.all() {
            let mut w = vec![];
            let items = repo.file(&f).unwrap().items.clone();
            find_fn(&items, ty.as_deref(), tr.as_deref(), &name, &mut w);
            if !w.is_empty() {
                wh = f.clone();
                v.extend(w);
            }
        }
    }
    match v.len() {
        0 => lost(format!("function {path} not found")),
        1 => (wh, v.pop().unwrap()),
        n => lost(format!("function {path} is defined {n} times")),
    }
}

// ------------------------------------------------------------------ rewriting
#[derive(Default, Debug, Clone)]
struct FnSpec {
    file: String,
    path: String,
    newname: Option<String>,
    sig: Option<(String, String)>,
    ret: Option<String>,
    spec: String,
    attrs: String,
    loops: BTreeMap<usize, String>,
    closures: BTreeMap<usize, String>,
    at: Vec<(String, String)>,
    subst: Vec<(String, String)>,
    /// Substitutions in the signature.
    sigsub: Vec<(String, String)>,
    noclosures: bool,
    /// methods which call the closure they are given exactly once, at their end, with what FN yields
    once: Vec<(String, String)>,
    /// Condition under which the function may refuse (panic!).
    refuse: Option<String>,
    /// Methods with a specification twin `spec_<name>`, usable in the postconditions of closures.
    twins: Vec<String>,
    /// `.iter()` / `.into_iter()` mean the stand-in iterators (`v_iter`, `v_into_iter`), also on `Vec`.
    veciter: bool,
}

struct Rw<'a> {
    spec: &'a FnSpec,
    nloop: usize,
    nclos: usize,
    /// Closures and loops about which the verifier knows nothing afterwards.
    open: usize,
    rules: BTreeMap<&'static str, usize>,
    marks: HashMap<String, String>,
    selfname: bool,
    /// Return type of the function.
    output: TokenStream,
    used: std::collections::HashSet<String>,
}
impl Rw<'_> {
    fn rule(&mut self, r: &'static str) { *self.rules.entry(r).or_default() += 1; }
    /// Binds each value the expression may evaluate to to `__v` and marks the place.
    fn mark_tails(&mut self, e: &mut Expr, key: &str) {
        if !self.spec.at.iter().any(|(k, _)| k == key) {
            return;
        }
        match e {
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.mark_tails(&mut a.body, key)),
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() {
                    self.mark_tails(e, key)
                }
                if let Some((_, e)) = &mut i.else_branch {
                    self.mark_tails(e, key)
                }
            }
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                    self.mark_tails(e, key)
                }
            }
            Expr::Return(_) => {}
            e => {
                let m = self.mark(key);
                let mut b: Block = parse_quote!({ let __v = #e; __v });
                if let Some(m) = m {
                    b.stmts.insert(1, m);
                }
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
        }
    }
    fn mark(&mut self, key: &str) -> Option<Stmt> {
        let txt: Vec<String> =
            self.spec.at.iter().filter(|(k, _)| k == key).map(|(_, t)| t.clone()).collect();
        if txt.is_empty() {
            return None;
        }
        self.used.insert(key.to_string());
        let id = format_ident!("__verif_mark_{}__", self.marks.len());
        self.marks.insert(id.to_string(), txt.join("\n"));
        Some(Stmt::Expr(Expr::Verbatim(quote!(#id)), None))
    }
}
struct Brk {
    found: bool,
}
impl<'ast> Visit<'ast> for Brk {
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) { self.found = true }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        let mut b = Lbl { found: false };
        b.visit_expr_while(e);
        self.found |= b.found
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        let mut b = Lbl { found: false };
        b.visit_expr_loop(e);
        self.found |= b.found
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        let mut b = Lbl { found: false };
        b.visit_expr_for_loop(e);
        self.found |= b.found
    }
}
struct Lbl {
    found: bool,
}
impl<'ast> Visit<'ast> for Lbl {
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) { self.found |= b.label.is_some() }
}

thread_local! { static TWINS: std::cell::RefCell<Vec<String>> = Default::default(); }
fn twin(m: &Ident) -> bool { TWINS.with(|t| t.borrow().iter().any(|x| m == x)) }

/// Expression forms that mean the same in Verus' specification language.
/// `ITER.map(|PAT| BODY).collect::<Result<_, _>>()?` as a loop; `?` leaves the function at the first error both ways.
fn fallible_collect(e: &Expr) -> Option<Expr> {
    let Expr::Try(t) = e else { return None };
    let Expr::MethodCall(c) = &*t.expr else { return None };
    if c.method != "collect" || !c.turbofish.as_ref()?.to_token_stream().to_string().contains("Result") {
        return None;
    }
    let Expr::MethodCall(m) = &*c.receiver else { return None };
    let (true, Some(Expr::Closure(f))) = (m.method == "map" && m.args.len() == 1, m.args.first()) else { return None };
    if f.inputs.len() != 1 {
        return None;
    }
    let pat = &f.inputs[0];
    let mut body = (*f.body).clone();
    struct Ret(bool);
    impl<'a> Visit<'a> for Ret {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
    }
    let mut r = Ret(false);
    r.visit_expr(&body);
    if r.0 {
        return None;
    }
    let (stmts, last) = match &mut body {
        Expr::Block(b) => {
            let Some(Stmt::Expr(last, None)) = b.block.stmts.pop() else { return None };
            (b.block.stmts.clone(), last)
        }
        x => (vec![], x.clone()),
    };
    let item = match &last {
        Expr::Call(k) if k.args.len() == 1 && matches!(&*k.func, Expr::Path(p) if p.path.is_ident("Ok")) => k.args[0].clone(),
        x => parse_quote!(#x?),
    };
    let it = &m.receiver;
    Some(parse_quote!({
        let mut __items = Vec::new();
        for #pat in #it {
            #(#stmts)*
            __items.push(#item);
        }
        __items.v_into_iter().collect()
    }))
}
/// Where the line starting with `key` begins.
fn section(s: &str, key: &str) -> Option<usize> {
    let mut at = 0;
    for l in s.split_inclusive('\n') {
        let t = l.trim_start();
        if t.strip_prefix(key).is_some_and(|r| r.is_empty() || r.starts_with(char::is_whitespace)) {
            return Some(at + (l.len() - t.len()));
        }
        at += l.len();
    }
    None
}
/// The patterns without alternatives which together match the same values.
fn alternatives(p: &Pat) -> Vec<Pat> {
    fn product(ps: Vec<Vec<Pat>>) -> Vec<Vec<Pat>> {
        let mut out: Vec<Vec<Pat>> = vec![vec![]];
        for alts in ps {
            out = out.into_iter().flat_map(|o| alts.iter().map(move |a| { let mut o = o.clone(); o.push(a.clone()); o }).collect::<Vec<_>>()).collect();
        }
        out
    }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(q) => alternatives(&q.pat),
        Pat::Tuple(t) => product(t.elems.iter().map(alternatives).collect())
            .into_iter().map(|e| { let mut t = t.clone(); t.elems = e.into_iter().collect(); if t.elems.len() == 1 { t.elems.push_punct(Default::default()) } Pat::Tuple(t) }).collect(),
        Pat::TupleStruct(t) => product(t.elems.iter().map(alternatives).collect())
            .into_iter().map(|e| { let mut t = t.clone(); t.elems = e.into_iter().collect(); Pat::TupleStruct(t) }).collect(),
        Pat::Struct(t) => product(t.fields.iter().map(|f| alternatives(&f.pat)).collect())
            .into_iter().map(|e| { let mut t = t.clone(); for (f, e) in t.fields.iter_mut().zip(e) { f.pat = Box::new(e) } Pat::Struct(t) }).collect(),
        Pat::Reference(r) => alternatives(&r.pat).into_iter().map(|q| { let mut r = r.clone(); r.pat = Box::new(q); Pat::Reference(r) }).collect(),
        Pat::Ident(i) => match &i.subpat {
            Some((at, q)) => alternatives(q).into_iter().map(|q| { let mut i = i.clone(); i.subpat = Some((*at, Box::new(q))); Pat::Ident(i) }).collect(),
            None => vec![p.clone()],
        },
        _ => vec![p.clone()],
    }
}
fn specable(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => specable(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && specable(&r.expr),
        Expr::Paren(p) => specable(&p.expr),
        Expr::Unary(u) => !matches!(u.op, UnOp::Neg(_)) && specable(&u.expr),
        Expr::Binary(b) => {
            matches!(
                b.op,
                BinOp::Eq(_)
                    | BinOp::Ne(_)
                    | BinOp::And(_)
                    | BinOp::Or(_)
                    | BinOp::Lt(_)
                    | BinOp::Le(_)
                    | BinOp::Gt(_)
                    | BinOp::Ge(_)
            ) && specable(&b.left)
                && specable(&b.right)
        }
        Expr::Tuple(t) => t.elems.iter().all(specable),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| specable(&f.expr)),
        Expr::Call(c) => {
            let callee_ctor = match &*c.func {
                Expr::Path(p) => p
                    .path
                    .segments
                    .last()
                    .map(|s| s.ident.to_string().chars().next().unwrap().is_uppercase())
                    .unwrap_or(false),
                _ => false,
            };
            callee_ctor && c.args.iter().all(specable)
        }
        Expr::MethodCall(m) => {
            (twin(&m.method) && m.args.iter().all(specable) && specable(&m.receiver))
                || ((m.method == "clone" || m.method == "as_ty" || m.method == "is_some" || m.method == "is_none") && m.args.is_empty())
                && specable(&m.receiver)
        }
        Expr::Match(m) => specable(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() && specable(&a.body)),
        Expr::Block(b) => {
            b.block.stmts.len() == 1
                && matches!(&b.block.stmts[0], Stmt::Expr(e, None) if specable(e))
        }
        _ => false,
    }
}

/// The form of an expression used inside a specification (`.clone()` becomes its spec twin).
fn spec_form(e: &Expr) -> Expr {
    struct S;
    impl VisitMut for S {
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
            visit_mut::visit_expr_method_call_mut(self, m);
            if twin(&m.method) {
                m.method = format_ident!("spec_{}", m.method);
            } else if m.method == "clone" {
                m.method = format_ident!("sclone");
            } else if m.method == "as_ty" {
                m.method = format_ident!("spec_as_ty");
            }
        }
    }
    let mut e = e.clone();
    S.visit_expr_mut(&mut e);
    e
}

/// `RECV.method(args, |p| body)` of a method which calls the closure once with what FN yields: `{ let p = FN(RECV, args); body }`.
/// An error of the closure is the error of the whole, provided that `?` is applied to the call itself.
fn called_once(e: &Expr, once: &[(String, String)]) -> Option<Expr> {
    struct Leaves {
        ret: bool,
        err: bool,
    }
    impl VisitMut for Leaves {
        fn visit_expr_return_mut(&mut self, _: &mut syn::ExprReturn) {
            self.ret = true;
        }
        fn visit_expr_try_mut(&mut self, t: &mut syn::ExprTry) {
            self.err = true;
            visit_mut::visit_expr_try_mut(self, t);
        }
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    }
    let (call, fallible) = match e {
        Expr::Try(t) => (&*t.expr, true),
        e => (e, false),
    };
    let Expr::MethodCall(m) = call else { return None };
    let f = &once.iter().find(|(o, _)| m.method == o.as_str())?.1;
    let Some(Expr::Closure(c)) = m.args.last() else { return None };
    if c.inputs.len() != 1 {
        return None;
    }
    let mut body = (*c.body).clone();
    let mut l = Leaves { ret: false, err: false };
    l.visit_expr_mut(&mut body);
    if l.ret || l.err && !fallible {
        return None;
    }
    let f: TokenStream = f.parse().ok()?;
    let (recv, pat) = (&m.receiver, &c.inputs[0]);
    let args: Vec<_> = m.args.iter().take(m.args.len() - 1).collect();
    let q = if fallible { quote!(?) } else { quote!() };
    let stmts = match &body {
        Expr::Block(b) if b.label.is_none() => {
            let s = &b.block.stmts;
            quote!(#(#s)*)
        }
        b => quote!(#b),
    };
    syn::parse2(quote!({ let #pat = #f(#recv, #(#args),*) #q; #stmts } #q)).ok()
}

impl VisitMut for Rw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        if !a.is_empty() {
            self.rule("attributes and doc comments dropped");
        }
        a.clear()
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if self.selfname && i == "self" {
            *i = format_ident!("__self");
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a)
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let mut arms = vec![];
        for a in m.arms.drain(..) {
            if a.guard.is_some() {
                let alts = alternatives(&a.pat);
                if alts.len() > 1 {
                    self.rule("match arm with a guard and an or-pattern turned into one arm per alternative");
                    for pat in alts {
                        let mut b = a.clone();
                        b.pat = pat;
                        b.comma = Some(Default::default());
                        arms.push(b);
                    }
                    continue;
                }
            }
            arms.push(a)
        }
        m.arms = arms;
        visit_mut::visit_expr_match_mut(self, m)
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // marks after named lets and around loops
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // macro statements
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "eprintln" || name == "println" {
                    self.rule("diagnostic output macro dropped");
                    continue;
                }
                let e = self.expand_macro(&m.mac);
                s = Stmt::Expr(e, Some(Default::default()));
            }
            let bound = match &s {
                Stmt::Local(l) => {
                    struct Bound(Vec<String>);
                    impl<'a> syn::visit::Visit<'a> for Bound {
                        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                            let n = i.ident.to_string();
                            if n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                                self.0.push(n);
                            }
                        }
                    }
                    let mut v = Bound(vec![]);
                    syn::visit::Visit::visit_pat(&mut v, &l.pat);
                    v.0
                }
                _ => vec![],
            };
            let n0 = self.nloop + 1;
            let isloop =
                matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            if isloop {
                out.extend(self.mark(&format!("before loop {n0}")));
            }
            self.visit_stmt_mut(&mut s);
            if let (Stmt::Local(l), [n]) = (&mut s, &bound[..]) {
                if let Some(init) = &mut l.init {
                    self.mark_tails(&mut init.expr, &format!("tails of {n}"));
                }
            }
            out.push(s);
            if isloop {
                out.extend(self.mark(&format!("after loop {n0}")));
            }
            for n in bound {
                out.extend(self.mark(&format!("after let {n}")));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = fallible_collect(e) {
            self.rule("ITER.map(closure).collect::<Result<_, _>>()? turned into a for loop collecting the items up to the first error");
            *e = n;
        }
        if let Some(n) = called_once(e, &self.spec.once) {
            self.rule("closure passed to a method which calls it exactly once turned into a block");
            *e = n;
        }
        match e {
            Expr::ForLoop(f) => {
                self.nloop += 1;
                let n = self.nloop;
                self.rule("for loop desugared to loop + match on next()");
                let mut brk = Brk { found: false };
                brk.visit_block(&f.body);
                let start = self.mark(&format!("at loop {n} start"));
                let end = self.mark(&format!("at loop {n} end"));
                let exit = self.mark(&format!("at loop {n} exit"));
                self.visit_expr_mut(&mut f.expr);
                self.visit_pat_mut(&mut f.pat);
                self.visit_block_mut(&mut f.body);
                let it = format_ident!("__it{}", n);
                let all = format_ident!("__all{}", n);
                let inv = format_ident!("__verif_inv_{}__", n);
                let pre = self.mark(&format!("pre loop {n}"));
                let (pat, ex) = (&f.pat, &f.expr);
                let body = &f.body.stmts;
                let label = &f.label;
                let mut user = self.spec.loops.get(&n).cloned().unwrap_or_default();
                let mut txt = String::from("invariant\n");
                txt.push_str(&format!(
                    "  {it}.all() == {all}, 0 <= {it}.pos() <= {all}.len(),\n"
                ));
                let mut dec = format!("decreases {all}.len() - {it}.pos()");
                let mut ens = if brk.found {
                    String::new()
                } else {
                    format!("ensures {it}.pos() == {all}.len(),\n")
                };
                if user.trim().is_empty() || brk.found && section(&user, "ensures").is_none() {
                    self.open += 1;
                }
                // the user text may hold "ensures"/"decreases" sections
                if let Some(i) = section(&user, "decreases") {
                    dec = user[i..].to_string();
                    user.truncate(i);
                }
                if let Some(i) = section(&user, "ensures") {
                    ens = user[i..].to_string();
                    user.truncate(i);
                }
                txt.push_str(&user);
                txt.push('\n');
                txt.push_str(&ens);
                txt.push_str(&dec);
                txt.push('\n');
                self.marks.insert(inv.to_string(), txt);
                *e = Expr::Verbatim(quote! {{
                    let mut #it = VIntoIter::viter(#ex);
                    let ghost #all = #it.all();
                    #pre
                    #label loop #inv {
                        match #it.next() {
                            Some(__x) => { let #pat = __x; #start #(#body)* #end }
                            None => { #exit break }
                        }
                    }
                }});
            }
            Expr::While(w) => {
                self.nloop += 1;
                let n = self.nloop;
                let start = self.mark(&format!("at loop {n} start"));
                let end = self.mark(&format!("at loop {n} end"));
                let inv = format_ident!("__verif_inv_{}__", n);
                let user = self.spec.loops.get(&n).cloned().unwrap_or_default();
                let mut brk = Brk { found: matches!(&*w.cond, Expr::Let(_)) };
                brk.visit_block(&w.body);
                if user.trim().is_empty() || brk.found && section(&user, "ensures").is_none() {
                    self.open += 1;
                }
                self.marks.insert(inv.to_string(), user);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let body = &w.body.stmts;
                let label = &w.label;
                if let Expr::Let(l) = &*w.cond {
                    self.rule("while let desugared to loop + match");
                    let (pat, ex) = (&l.pat, &l.expr);
                    let exit = self.mark(&format!("at loop {n} exit"));
                    *e = Expr::Verbatim(quote! {
                        #label loop #inv {
                            match #ex {
                                #pat => { #start #(#body)* #end }
                                _ => { #exit break }
                            }
                        }
                    });
                } else {
                    let cond = &w.cond;
                    *e = Expr::Verbatim(quote! {
                        #label while #cond #inv { #start #(#body)* #end }
                    });
                }
            }
            Expr::Loop(l) => {
                self.nloop += 1;
                let n = self.nloop;
                let start = self.mark(&format!("at loop {n} start"));
                let end = self.mark(&format!("at loop {n} end"));
                let inv = format_ident!("__verif_inv_{}__", n);
                let user = self.spec.loops.get(&n).cloned().unwrap_or_default();
                let mut brk = Brk { found: false };
                brk.visit_block(&l.body);
                if user.trim().is_empty() || brk.found && section(&user, "ensures").is_none() {
                    self.open += 1;
                }
                self.marks.insert(inv.to_string(), user);
                self.visit_block_mut(&mut l.body);
                let body = &l.body.stmts;
                let label = &l.label;
                *e = Expr::Verbatim(quote! { #label loop #inv { #start #(#body)* #end } });
            }
            Expr::Closure(c) => {
                self.nclos += 1;
                let n = self.nclos;
                let refuses = self.spec.refuse.is_some()
                    && matches!(&*c.body, Expr::Macro(m) if m.mac.path.is_ident("panic"));
                self.visit_expr_mut(&mut c.body);
                let mv = &c.capture;
                let mut params = vec![];
                let mut lets = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let (pat, ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                        p => (p.clone(), None),
                    };
                    let name = match &pat {
                        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                            i.ident.clone()
                        }
                        Pat::Wild(_) => format_ident!("__w{}", i),
                        other => {
                            self.rule("pattern parameter of a closure bound by a let");
                            let id = format_ident!("__a{}", i);
                            lets.push(quote!(let #other = #id;));
                            id
                        }
                    };
                    params.push(match ty {
                        Some(t) => quote!(#name: #t),
                        None => quote!(#name),
                    });
                }
                let body = &c.body;
                let spec = self.spec.closures.get(&n).cloned();
                match spec {
                    Some(s) if s.trim() == "none" => {
                        *e = Expr::Verbatim(quote! { #mv |#(#params),*| { #(#lets)* #body } });
                    }
                    Some(s) => {
                        let id = format_ident!("__verif_clos_{}__", n);
                        let own_type = s.trim_start().starts_with("->");
                        self.marks.insert(id.to_string(), s);
                        let rt = match &c.output {
                            ReturnType::Type(_, t) => quote!(#t),
                            _ => quote!(_),
                        };
                        *e = Expr::Verbatim(if own_type {
                            quote! { #mv |#(#params),*| #id { #(#lets)* #body } }
                        } else {
                            quote! { #mv |#(#params),*| -> (__r: #rt) #id { #(#lets)* #body } }
                        });
                    }
                    None if refuses => {
                        let id = format_ident!("__verif_refuse_{}__", self.marks.len());
                        self.marks.insert(id.to_string(), self.spec.refuse.clone().unwrap());
                        let rt = &self.output;
                        *e = Expr::Verbatim(quote! {
                            #mv |#(#params),*| -> (__r: #rt) requires (#id) ensures false { #(#lets)* #body }
                        });
                    }
                    None if !self.spec.noclosures && specable(body) => {
                        self.rule("closure annotated with its own body as postcondition");
                        let rt = match &c.output {
                            ReturnType::Type(_, t) => quote!(#t),
                            _ => quote!(_),
                        };
                        let sbody = spec_form(body);
                        *e = Expr::Verbatim(quote! {
                            #mv |#(#params),*| -> (__r: #rt) ensures ({ #(#lets)* ceq(__r, #sbody) }) { #(#lets)* #body }
                        });
                    }
                    None => {
                        self.open += 1;
                        *e = Expr::Verbatim(quote! { #mv |#(#params),*| { #(#lets)* #body } });
                    }
                }
            }
            Expr::Macro(m) => {
                let mut n = self.expand_macro(&m.mac.clone());
                if !matches!(n, Expr::Macro(_)) {
                    self.visit_expr_mut(&mut n);
                }
                *e = n;
            }
            Expr::MethodCall(m)
                if self.spec.veciter && m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") =>
            {
                self.rule("iter()/into_iter() turned into the stand-in iterator of the same sequence");
                m.method = format_ident!("v_{}", m.method);
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::MethodCall(m) if self.spec.veciter && m.args.len() == 1 && m.method == "all" => {
                m.method = format_ident!("all_");
                visit_mut::visit_expr_mut(self, e)
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl Rw<'_> {
    fn expand_macro(&mut self, mac: &Macro) -> Expr {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let toks = mac.tokens.clone();
        let args = || -> Vec<Expr> {
            use syn::parse::Parser;
            syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated
                .parse2(toks.clone())
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        match name.as_str() {
            "panic" | "todo" | "unreachable" | "unimplemented" if self.spec.refuse.is_some() => {
                self.rule("panic! turned into a call that must be proved to happen only when the contract lets the function refuse");
                let id = format_ident!("__verif_refuse_{}__", self.marks.len());
                self.marks.insert(id.to_string(), self.spec.refuse.clone().unwrap());
                Expr::Verbatim(quote!(verif_refuse(Ghost(#id))))
            }
            "panic" | "todo" | "unreachable" | "unimplemented" => {
                self.rule("panicking macro turned into a call that must be proved unreachable");
                Expr::Verbatim(quote!(verif_unreached()))
            }
            "assert" | "debug_assert" => {
                self.rule("assert!/debug_assert! turned into a call whose precondition is the condition");
                let a = args();
                let mut c = a.into_iter().next().unwrap_or_else(|| lost("assert! arguments".into()));
                self.visit_expr_mut(&mut c);
                Expr::Verbatim(quote!(verif_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                self.rule("assert!/debug_assert! turned into a call whose precondition is the condition");
                let mut a = args();
                if a.len() < 2 {
                    lost("assert_eq! arguments".into());
                }
                self.visit_expr_mut(&mut a[0]);
                self.visit_expr_mut(&mut a[1]);
                let (x, y) = (&a[0], &a[1]);
                Expr::Verbatim(quote!(verif_assert((#x) == (#y))))
            }
            "format" => {
                self.rule("format! turned into an unspecified string");
                Expr::Verbatim(quote!(verif_string()))
            }
            "vname" | "fname" | "tn" | "libname" | "s" => {
                self.rule("name literal macro turned into a call of its stand-in");
                let mut a = args();
                for x in a.iter_mut() {
                    self.visit_expr_mut(x);
                }
                let f = format_ident!("verif_{}", name);
                Expr::Verbatim(quote!(#f(#(#a),*)))
            }
            "empty" | "none" | "default" => {
                self.rule("default-value macro turned into a call of its stand-in");
                Expr::Verbatim(quote!(VDefault::vdefault()))
            }
            "vec" => {
                let mut a = args();
                if a.is_empty() && !toks.is_empty() {
                    return Expr::Macro(ExprMacro { attrs: vec![], mac: mac.clone() });
                }
                self.rule("vec! turned into a call of its stand-in");
                for x in a.iter_mut() {
                    self.visit_expr_mut(x);
                }
                if a.is_empty() {
                    Expr::Verbatim(quote!(Vec::new()))
                } else {
                    Expr::Verbatim(quote!(vec![#(#a),*]))
                }
            }
            "eprintln" | "println" => {
                self.rule("diagnostic output macro dropped");
                Expr::Verbatim(quote!(()))
            }
            "matches" => {
                // matches!(e, pat if guard) -> match
                self.rule("matches! expanded to match");
                use syn::parse::{ParseStream, Parser};
                let p = |input: ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                };
                match p.parse2(toks.clone()) {
                    Ok((ex, pat, g)) => {
                        let guard = g.map(|g| quote!(if #g));
                        let mut m: ExprMatch =
                            parse_quote!(match #ex { #pat #guard => true, _ => false });
                        self.visit_expr_match_mut(&mut m);
                        Expr::Match(m)
                    }
                    Err(e) => lost(format!("matches! arguments: {e}")),
                }
            }
            _ => Expr::Macro(ExprMacro { attrs: vec![], mac: mac.clone() }),
        }
    }
}

// ---------------------------------------------------------------- token substitution
fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push(o.into());
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    out.push(c.into());
                }
            }
            TokenTree::Punct(p) => out.push(format!(
                "{}{}",
                p.as_char(),
                if p.spacing() == Spacing::Joint { "\u{1}" } else { "" }
            )),
            t => out.push(t.to_string()),
        }
    }
}
fn unflat(v: &[String]) -> TokenStream {
    let mut s = String::new();
    for t in v {
        if let Some(p) = t.strip_suffix('\u{1}') {
            s.push_str(p);
        } else {
            s.push_str(t);
            s.push(' ');
        }
    }
    s.parse().unwrap_or_else(|e| lost(format!("substitution produced unparsable tokens: {e}: {s}")))
}
fn substitute(ts: TokenStream, from: &str, to: &str, who: &str) -> TokenStream {
    let (optional, from) = match from.strip_prefix('?') {
        Some(f) => (true, f),
        None => (false, from),
    };
    let strip = |v: Vec<String>| -> Vec<String> {
        v.into_iter().map(|s| s.replace('\u{1}', "")).collect()
    };
    let mut a = vec![];
    flat(ts, &mut a);
    let mut f = vec![];
    flat(from.parse().unwrap_or_else(|_| panic!("bad subst {from}")), &mut f);
    let f = strip(f);
    let mut t = vec![];
    flat(to.parse().unwrap_or_else(|_| panic!("bad subst {to}")), &mut t);
    let mut out = vec![];
    let mut i = 0;
    let mut hits = 0;
    while i < a.len() {
        if i + f.len() <= a.len()
            && a[i..i + f.len()].iter().map(|s| s.replace('\u{1}', "")).eq(f.iter().cloned())
        {
            out.extend(t.iter().cloned());
            i += f.len();
            hits += 1;
        } else {
            out.push(a[i].clone());
            i += 1;
        }
    }
    if hits == 0 && !optional {
        lost_in(who, format!("{who}: expected code `{from}` not found"));
    }
    unflat(&out)
}

// ---------------------------------------------------------------- main
fn strip_attrs_item(it: &mut Item) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
    }
    S.visit_item_mut(it)
}

#[derive(Default)]
struct Opts {
    trust: Vec<String>,
    probe: bool,
}
thread_local! { static OPTS: std::cell::RefCell<Opts> = Default::default(); }

fn emit_fn(repo: &mut Repo, fs: &FnSpec) -> (String, serde_json::Value) {
    let (wh, found) = lookup_fn(repo, &fs.file, &fs.path);
    let (vis, mut sig, block) = match found {
        Found::Method(m) => (Some(m.vis), m.sig, m.block),
        Found::Free(m) => (Some(m.vis), m.sig, *m.block),
        Found::TraitM(m) => (None, m.sig, m.default.unwrap()),
    };
    let line = sig.ident.span().start().line;
    let srcline_end = block.brace_token.span.close().end().line;
    let trusted = OPTS.with(|o| o.borrow().trust.contains(&fs.path));
    let probe = OPTS.with(|o| o.borrow().probe) && !fs.attrs.contains("external_body");
    let block: Block = if trusted { parse_quote!({ unimplemented!() }) } else { block };
    let mut ts = block.to_token_stream();
    let srctext = norm_ts(ts.clone());
    for (a, b) in fs.subst.iter().filter(|_| !trusted) {
        ts = substitute(ts, a, b, &fs.path);
    }
    let mut block: Block =
        syn::parse2(ts).unwrap_or_else(|e| lost_in(&fs.path, format!("{}: after substitution: {e}", fs.path)));
    for inp in sig.inputs.iter_mut() {
        match inp {
            FnArg::Receiver(r) => r.attrs.clear(),
            FnArg::Typed(t) => t.attrs.clear(),
        }
    }
    let origsig = norm_ts(sig.to_token_stream());
    let mut pre: Vec<TokenStream> = vec![];
    TWINS.with(|t| *t.borrow_mut() = fs.twins.clone());
    let mut rw = Rw {
        spec: fs,
        nloop: 0,
        nclos: 0,
        open: 0,
        rules: Default::default(),
        marks: Default::default(),
        selfname: false,
        output: match &sig.output {
            ReturnType::Type(_, t) => quote!(#t),
            _ => quote!(()),
        },
        used: Default::default(),
    };
    let visible = matches!(vis, Some(Visibility::Public(_)));
    let _ = visible;
    for inp in sig.inputs.iter_mut() {
        match inp {
            FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
                r.mutability = None;
                rw.selfname = true;
                rw.rule("`mut self` rebound to a local");
                pre.push(quote!(let mut __self = self;));
            }
            FnArg::Typed(t) => {
                if let Pat::Ident(i) = &mut *t.pat {
                    if i.mutability.is_some() {
                        i.mutability = None;
                        let id = &i.ident;
                        // nothing to rebind where the reference itself is never assigned
                        let assigned = !matches!(&*t.ty, Type::Reference(_)) || quote!(#block).to_string().contains(&format!(" {id} = "));
                        if assigned {
                            rw.rule("`mut` parameter rebound to a local");
                            pre.push(quote!(let mut #id = #id;));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if !trusted {
        rw.visit_block_mut(&mut block);
    }
    // sanity of the annotations
    let maxloop = fs.loops.keys().max().copied().unwrap_or(0);
    if !trusted && !fs.loops.is_empty() && maxloop != rw.nloop {
        lost_in(&fs.path, format!("{}: {} loops found, annotations for {}", fs.path, rw.nloop, maxloop));
    }
    if let Some(m) = fs.closures.keys().max() {
        if !trusted && *m > rw.nclos {
            lost_in(&fs.path, format!("{}: {} closures found, annotation for {}", fs.path, rw.nclos, m));
        }
    }
    // start / end marks
    let start = if trusted { None } else { rw.mark("start") };
    let endm = if trusted { None } else { rw.mark("end") };
    let mut stmts: Vec<TokenStream> = pre;
    stmts.extend(start.map(|s| s.to_token_stream()));
    let mut bs: Vec<Stmt> = block.stmts.clone();
    if let Some(endm) = endm {
        match bs.pop() {
            Some(Stmt::Expr(e, None)) => {
                stmts.extend(bs.iter().map(|s| s.to_token_stream()));
                stmts.push(quote!(let __ret = #e;));
                stmts.push(endm.to_token_stream());
                stmts.push(quote!(__ret));
            }
            Some(s) => {
                stmts.extend(bs.iter().map(|s| s.to_token_stream()));
                stmts.push(s.to_token_stream());
                stmts.push(endm.to_token_stream());
            }
            None => stmts.push(endm.to_token_stream()),
        }
    } else {
        stmts.extend(bs.iter().map(|s| s.to_token_stream()));
    }
    for (k, _) in &fs.at {
        if !trusted && !rw.used.contains(k) {
            lost_in(&fs.path, format!("{}: no place for annotation `{k}`", fs.path));
        }
    }
    let body = quote!({ #(#stmts)* });
    let mut text = print_ts(body);
    if probe && !trusted {
        // must-fail probe: reaching the end of the function with `false` provable means that the
        // precondition or an assumed contract is contradictory
        text = format!("{{ proof {{ assert(false); }} {text} }}");
    }
    // the signature
    let mut sigtext = match &fs.sig {
        Some((o, n)) => {
            if norm(o) != origsig {
                lost_in(&fs.path, format!("{}: signature changed to `{origsig}`", fs.path));
            }
            n.clone()
        }
        None => {
            let rn = fs.ret.clone().unwrap_or_else(|| "r".into());
            for (o, n) in &fs.sigsub {
                let t = substitute(sig.to_token_stream(), o, n, &fs.path);
                sig = syn::parse2(t).unwrap_or_else(|e| lost_in(&fs.path, format!("{}: signature: {e}", fs.path)));
            }
            let out = sig.output.clone();
            sig.output = ReturnType::Default;
            if let Some(n) = &fs.newname {
                sig.ident = format_ident!("{}", n);
            }
            let wherec = sig.generics.where_clause.take();
            let mut s = print_ts(sig.to_token_stream()).trim().to_string();
            if let ReturnType::Type(_, t) = out {
                s.push_str(&format!(" -> ({rn}: {})", print_ts(t.to_token_stream()).trim()));
            }
            if let Some(w) = wherec {
                s.push(' ');
                s.push_str(&print_ts(w.to_token_stream()));
            }
            s
        }
    };
    sigtext.push('\n');
    sigtext.push_str(&fs.spec);
    sigtext.push('\n');
    // marks (nested marks resolve by repetition)
    for _ in 0..3 {
        for (k, v) in &rw.marks {
            text = text.replace(k.as_str(), &format!("\n{v}\n"));
        }
    }
    let ispub = match &vis {
        Some(Visibility::Inherited) | None => "",
        _ => "pub ",
    };
    let ispub = if fs.path.contains(" as ") || fs.sig.is_some() { "" } else { ispub };
    let mut attrs = if fs.attrs.is_empty() { String::new() } else { format!("{}\n", fs.attrs) };
    if trusted && !attrs.contains("external_body") {
        attrs.push_str("#[verifier::external_body]\n");
    }
    let out = format!("{attrs}{ispub}{sigtext}{text}\n");
    let meta = json!({
        "path": fs.path, "file": wh, "line": line, "line_end": srcline_end,
        "rules": rw.rules, "loops": rw.nloop, "open": rw.open, "trusted": trusted, "probed": probe && !trusted, "annotated": fs.attrs, "subst": fs.subst, "sig_override": fs.sig.is_some(), "sigsub": fs.sigsub,
        "src_hash": format!("{:x}", fnv(&srctext)),
    });
    (out, meta)
}
fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// `//@item file name [subst a ==> b]*` emits an enum/struct/const definition without attributes.
fn emit_item(repo: &mut Repo, file: &str, name: &str, subst: &[(String, String)], derive: &str) -> String {
    fn find<'a>(items: &'a [Item], name: &str) -> Option<&'a Item> {
        for it in items {
            let id = match it {
                Item::Enum(e) => e.ident.to_string(),
                Item::Struct(e) => e.ident.to_string(),
                Item::Const(e) => e.ident.to_string(),
                _ => continue,
            };
            if id == name {
                return Some(it);
            }
        }
        None
    }
    let mut it = None;
    if let Some(f) = repo.file(file) {
        it = find(&f.items, name).cloned();
    }
    if it.is_none() {
        for f in repo.all() {
            it = find(&repo.file(&f).unwrap().items, name).cloned();
            if it.is_some() {
                break;
            }
        }
    }
    let Some(mut it) = it else { lost(format!("definition of {name} not found")) };
    strip_attrs_item(&mut it);
    // all fields and the item itself become public in the unit
    match &mut it {
        Item::Struct(s) => {
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(s) => s.vis = parse_quote!(pub),
        Item::Const(s) => s.vis = parse_quote!(pub),
        _ => {}
    }
    let mut ts = it.to_token_stream();
    for (a, b) in subst {
        ts = substitute(ts, a, b, name);
    }
    format!("{derive}\n{}\n", print_ts(ts))
}

fn expand_includes(dir: &Path, text: &str, depth: usize) -> String {
    let mut out = String::new();
    for l in text.lines() {
        if let Some(r) = l.trim_start().strip_prefix("//@include ") {
            let p = dir.join(r.trim());
            let t = fs::read_to_string(&p).unwrap_or_else(|_| panic!("include {p:?}"));
            if depth > 8 {
                panic!("include depth")
            }
            out.push_str(&expand_includes(dir, &t, depth + 1));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    for w in a[5.min(a.len())..].iter() {
        if w == "--probe" {
            OPTS.with(|o| o.borrow_mut().probe = true);
        } else {
            OPTS.with(|o| o.borrow_mut().trust.push(w.clone()));
        }
    }
    let mut repo = Repo { root: PathBuf::from(&a[1]), files: Default::default() };
    let tpath = PathBuf::from(&a[2]);
    let text = expand_includes(
        tpath.parent().unwrap(),
        &fs::read_to_string(&tpath).expect("template"),
        0,
    );
    let lines: Vec<&str> = text.lines().collect();
    // `//@taken <unit> <path>`: the contract of that function is discharged in another unit and used here.
    for l in &lines {
        if let Some(r) = l.trim_start().strip_prefix("//@taken ") {
            let p = r.trim().split_once(' ').expect("//@taken unit path").1;
            OPTS.with(|o| o.borrow_mut().trust.push(p.trim().to_string()));
        }
    }
    let mut out = String::new();
    let mut metas = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim_start();
        if let Some(r) = t.strip_prefix("//@item ") {
            // //@item file name ;; derive ;; a ==> b ;; ...
            let parts: Vec<&str> = r.split(";;").collect();
            let mut w = parts[0].split_whitespace();
            let file = w.next().unwrap();
            let name = w.next().unwrap();
            let mut derive = String::new();
            let mut subst = vec![];
            for p in &parts[1..] {
                if let Some((x, y)) = p.split_once("==>") {
                    subst.push((x.trim().to_string(), y.trim().to_string()));
                } else {
                    derive.push_str(p.trim());
                }
            }
            let s = emit_item(&mut repo, file, name, &subst, &derive);
            out.push_str(&s);
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("//@fn ") {
            let mut fsx = FnSpec::default();
            let (file, path) = r.trim().split_once(char::is_whitespace).unwrap();
            fsx.file = file.into();
            fsx.path = path.trim().into();
            i += 1;
            let mut cur: Option<String> = None;
            let mut buf = String::new();
            macro_rules! flush {
                () => {
                    if let Some(c) = cur.take() {
                        let b = std::mem::take(&mut buf);
                        if c == "spec" {
                            fsx.spec.push_str(&b);
                        } else if let Some(n) = c.strip_prefix("loop ") {
                            fsx.loops.insert(n.trim().parse().unwrap(), b);
                        } else if let Some(n) = c.strip_prefix("closure ") {
                            fsx.closures.insert(n.trim().parse().unwrap(), b);
                        } else if let Some(n) = c.strip_prefix("at ") {
                            fsx.at.push((n.trim().to_string(), b));
                        } else if c == "sig" {
                            let (o, n) = b.split_once("==>").expect("sig");
                            fsx.sig = Some((o.trim().into(), n.trim().into()));
                        } else if c == "sigsub" {
                            let (o, n) = b.split_once("==>").expect("sigsub");
                            fsx.sigsub.push((o.trim().into(), n.trim().into()));
                        } else if c == "subst" {
                            let (o, n) = b.split_once("==>").expect("subst");
                            fsx.subst.push((o.trim().into(), n.trim().into()));
                        } else {
                            panic!("directive {c}")
                        }
                    }
                    buf.clear();
                };
            }
            loop {
                let l = lines[i];
                let t = l.trim_start();
                i += 1;
                if t.starts_with("//@end") {
                    flush!();
                    break;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    flush!();
                    let d = d.trim();
                    let (k, rest) = match d.split_once(' ') {
                        Some((k, r)) => (k, r.trim()),
                        None => (d, ""),
                    };
                    match k {
                        "ret" => fsx.ret = Some(rest.into()),
                        "attr" => fsx.attrs.push_str(rest),
                        "name" => fsx.newname = Some(rest.into()),
                        "noclosures" => fsx.noclosures = true,
                        "once" => {
                            let (o, n) = rest.split_once("==>").expect("once");
                            fsx.once.push((o.trim().into(), n.trim().into()));
                        }
                        "twin" => fsx.twins.extend(rest.split_whitespace().map(|s| s.to_string())),
                        "veciter" => fsx.veciter = true,
                        "refuse" => fsx.refuse = Some(rest.into()),
                        "spec" => {
                            cur = Some("spec".into());
                            buf.push_str(rest);
                            buf.push('\n')
                        }
                        "sig" | "subst" | "sigsub" => {
                            cur = Some(k.into());
                            buf.push_str(rest);
                            buf.push('\n')
                        }
                        "loop" | "closure" => {
                            let (n, r) = match rest.split_once(' ') {
                                Some((a, b)) => (a, b),
                                None => (rest, ""),
                            };
                            cur = Some(format!("{k} {n}"));
                            buf.push_str(r);
                            buf.push('\n')
                        }
                        "at" => {
                            cur = Some(format!("at {rest}"));
                        }
                        x => panic!("unknown directive {x}"),
                    }
                } else if cur.is_some() {
                    buf.push_str(l);
                    buf.push('\n');
                } else if !t.is_empty() {
                    panic!("stray text in //@fn block: {l}")
                }
            }
            let (s, mut meta) = emit_fn(&mut repo, &fsx);
            let l0 = out.lines().count() + 1;
            out.push_str(&s);
            let l1 = out.lines().count();
            meta["gen_start"] = json!(l0);
            meta["gen_end"] = json!(l1);
            metas.push(meta);
            continue;
        }
        if t.starts_with("//@taken ") {
            i += 1;
            continue;
        }
        if t.starts_with("//@") {
            panic!("unknown directive {t}");
        }
        out.push_str(l);
        out.push('\n');
        i += 1;
    }
    fs::write(&a[3], &out).unwrap();
    fs::write(&a[4], serde_json::to_string_pretty(&json!({"functions": metas})).unwrap()).unwrap();
}
