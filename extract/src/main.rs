//! extract UNIT.vrs SRCDIR OUT.rs META.json
//!
//! Copies the items named by the unit file out of the real source, applies the fixed rewrites below,
//! attaches the contracts of the unit file and writes one Verus file. See DESIGN.md "Extraction".
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;
mod codec;

/// One `//@ fn` block of a unit file.
#[derive(Default, Clone, Debug)]
struct FnAnn {
    file: String,
    path: String,
    rename: Option<String>,
    ret: Option<String>,
    retty: Option<String>,
    spec: String,
    attrs: String,
    bounds: Vec<(String, String)>,         // extra/replacement bound of a type parameter
    loops: BTreeMap<usize, String>,        // invariants
    loop_iter: BTreeMap<usize, String>,    // ghost iterator names
    at: Vec<(String, String)>,             // anchor, text
    closures: BTreeMap<usize, (String, String, String)>, // parameters, result, specification
    subst: Vec<(String, String)>,          // token-text substitutions (listed in evidence)
    opts: BTreeSet<String>,
    sig: Option<String>,                   // signature of a lifted closure
    implhdr: Option<String>,               // impl it is put in
    captures: Vec<String>,                 // captured variables that become fields
}
enum Piece {
    Text(String),
    Fn(FnAnn),
    Item { kind: String, file: String, name: String, opts: Vec<String> },
}

fn die(msg: &str) -> ! {
    println!("LOST {msg}");
    std::process::exit(3)
}

fn parse_unit(path: &str, pieces: &mut Vec<Piece>, trusted: bool) {
    let src = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("unit {path}: {e}")));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut text = String::new();
    let mut cur: Option<FnAnn> = None;
    // where plain lines go inside a fn block
    enum Sink { None, Spec, Attr, Loop(usize), At(usize), Closure(usize) }
    let mut sink = Sink::None;
    for line in src.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@ ") {
            let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            if cur.is_none() {
                match w {
                    "include" => {
                        pieces.push(Piece::Text(std::mem::take(&mut text)));
                        // `include F trusted`: the functions of F by contract only (another unit proves them)
                        let (f, o) = rest.split_once(' ').unwrap_or((rest, ""));
                        parse_unit(dir.join(f).to_str().unwrap(), pieces, trusted || o == "trusted");
                    }
                    "fn" => {
                        pieces.push(Piece::Text(std::mem::take(&mut text)));
                        let mut it = rest.split_whitespace();
                        cur = Some(FnAnn { file: it.next().unwrap().into(), path: it.next().unwrap().into(), opts: it.map(|s| s.to_string()).collect(), ..Default::default() });
                        sink = Sink::None;
                    }
                    "struct" | "enum" | "const" | "type" | "codec" => {
                        pieces.push(Piece::Text(std::mem::take(&mut text)));
                        let mut it = rest.split_whitespace();
                        pieces.push(Piece::Item { kind: w.into(), file: it.next().unwrap().into(), name: it.next().unwrap().into(), opts: it.map(|s| s.to_string()).collect() });
                    }
                    _ => die(&format!("{path}: directive {d}")),
                }
                continue;
            }
            let c = cur.as_mut().unwrap();
            match w {
                "end" => {
                    let mut f = cur.take().unwrap();
                    if trusted {
                        f.opts.insert("trusted".into());
                        f.loops.clear();
                        f.loop_iter.clear();
                        f.at.clear();
                        f.closures.clear();
                        f.subst.clear();
                        f.attrs = "#[verifier::external_body]".into();
                    }
                    pieces.push(Piece::Fn(f));
                }
                "ret" => c.ret = Some(rest.into()),
                "sig" => c.sig = Some(rest.into()),
                "implhdr" => c.implhdr = Some(rest.into()),
                "captures" => c.captures = rest.split_whitespace().map(|x| x.to_string()).collect(),
                "retty" => c.retty = Some(rest.into()),
                "rename" => c.rename = Some(rest.into()),
                "spec" => sink = Sink::Spec,
                "attr" => sink = Sink::Attr,
                "bound" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    c.bounds.push((a.into(), b.into()));
                }
                "loop" => {
                    let mut it = rest.split_whitespace();
                    let k: usize = it.next().unwrap().parse().unwrap();
                    if it.next() == Some("iter") {
                        c.loop_iter.insert(k, it.next().unwrap().into());
                    }
                    c.loops.insert(k, String::new());
                    sink = Sink::Loop(k);
                }
                "closure" => {
                    // closure K params -> name: type
                    let (k, r) = rest.split_once(' ').unwrap();
                    let (a, b) = r.split_once("->").unwrap_or_else(|| die(&format!("{path}: {d}")));
                    let k: usize = k.parse().unwrap();
                    c.closures.insert(k, (a.trim().into(), b.trim().into(), String::new()));
                    sink = Sink::Closure(k);
                }
                "at" => {
                    c.at.push((rest.into(), String::new()));
                    sink = Sink::At(c.at.len() - 1);
                }
                "subst" => {
                    let (a, b) = rest.split_once(" ==> ").unwrap_or_else(|| die(&format!("{path}: {d}")));
                    c.subst.push((a.into(), b.into()));
                }
                _ => die(&format!("{path}: directive {d}")),
            }
            continue;
        }
        match (&mut cur, &sink) {
            (None, _) => {
                text.push_str(line);
                text.push('\n');
            }
            (Some(c), Sink::Spec) => { c.spec.push_str(line); c.spec.push('\n'); }
            (Some(c), Sink::Attr) => { c.attrs.push_str(line); c.attrs.push('\n'); }
            (Some(c), Sink::Loop(k)) => { let s = c.loops.get_mut(k).unwrap(); s.push_str(line); s.push('\n'); }
            (Some(c), Sink::Closure(k)) => { let s = &mut c.closures.get_mut(k).unwrap().2; s.push_str(line); s.push('\n'); }
            (Some(c), Sink::At(i)) => { c.at[*i].1.push_str(line); c.at[*i].1.push('\n'); }
            (Some(_), Sink::None) => {
                if !t.is_empty() {
                    die(&format!("{path}: stray line in fn block: {line}"));
                }
            }
        }
    }
    if cur.is_some() {
        die(&format!("{path}: unterminated fn block"));
    }
    pieces.push(Piece::Text(text));
}

fn type_ident(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_ident(&r.elem),
        _ => None,
    }
}

struct Found {
    imp: Option<ItemImpl>,
    f: ItemFn,
}

fn find_fn(file: &File, path: &str) -> Option<Found> {
    // Type::outer::inner: a function nested in a method
    if path.matches("::").count() == 2 {
        let (outer, name) = path.rsplit_once("::").unwrap();
        let o = find_fn(file, outer)?;
        for s in &o.f.block.stmts {
            if let Stmt::Item(Item::Fn(f)) = s {
                if f.sig.ident == name {
                    return Some(Found { imp: None, f: f.clone() });
                }
            }
        }
        return None;
    }
    if let Some((ty, name)) = path.rsplit_once("::") {
        for it in &file.items {
            if let Item::Impl(im) = it {
                if type_ident(&im.self_ty).as_deref() != Some(ty) {
                    continue;
                }
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            let mut im2 = im.clone();
                            im2.items.clear();
                            im2.attrs.clear();
                            return Some(Found { imp: Some(im2), f: ItemFn { attrs: vec![], vis: f.vis.clone(), sig: f.sig.clone(), block: Box::new(f.block.clone()) } });
                        }
                    }
                }
            }
        }
        None
    } else {
        for it in &file.items {
            if let Item::Fn(f) = it {
                if f.sig.ident == path {
                    return Some(Found { imp: None, f: f.clone() });
                }
            }
        }
        None
    }
}

// ---------------------------------------------------------------------------------------------
// shape of a function: what the annotations were written against
struct Shape {
    loops: Vec<String>,
    calls: BTreeSet<String>,
}
impl<'a> Visit<'a> for Shape {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(_) => self.loops.push("for".into()),
            Expr::While(_) => self.loops.push("while".into()),
            Expr::Loop(_) => self.loops.push("loop".into()),
            Expr::MethodCall(m) => {
                self.calls.insert(format!(".{}", m.method));
            }
            Expr::Call(c) => {
                self.calls.insert(c.func.to_token_stream().to_string().replace(' ', ""));
            }
            Expr::Closure(_) => self.loops.push("closure".into()),
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

// ---------------------------------------------------------------------------------------------
// rewrites

const STREAM: &[&str] = &["Read", "Write", "Seek"];

fn is_stream_bound(b: &TypeParamBound) -> bool {
    matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().map_or(false, |s| STREAM.contains(&s.ident.to_string().as_str())))
}
fn fix_bounds(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    if b.iter().any(is_stream_bound) {
        let mut out: punctuated::Punctuated<TypeParamBound, Token![+]> = punctuated::Punctuated::new();
        for x in b.iter() {
            if !is_stream_bound(x) {
                out.push(x.clone());
            }
        }
        out.push(parse_quote!(Stream));
        *b = out;
    }
}
fn fix_generics(g: &mut Generics, extra: &[(String, String)]) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            fix_bounds(&mut t.bounds);
            for (n, b) in extra {
                if t.ident == n {
                    let bb: TypeParamBound = parse_str(b).unwrap_or_else(|_| die(&format!("bound {b}")));
                    t.bounds = std::iter::once(bb).collect();
                }
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                fix_bounds(&mut t.bounds);
                for (n, b) in extra {
                    if t.bounded_ty.to_token_stream().to_string() == *n {
                        let bb: TypeParamBound = parse_str(b).unwrap();
                        t.bounds = std::iter::once(bb).collect();
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// dropping what only computes and reports progress

/// the variables a function binds with `let`
struct Lets(BTreeSet<String>);
impl<'a> Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a Local) {
        let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let Pat::Ident(i) = p { self.0.insert(i.ident.to_string()); }
        visit::visit_local(self, l);
    }
}
struct Slice { seed: String, s: BTreeSet<String> }
impl Slice {
    fn name(e: &Expr) -> Option<String> {
        match strip_paren(e) { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None }
    }
    /// no effect but its value
    fn pure(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Path(_) => Self::name(e).map_or(true, |n| n != self.seed),
            Expr::Paren(x) => self.pure(&x.expr),
            Expr::Cast(x) => self.pure(&x.expr),
            Expr::Unary(x) => self.pure(&x.expr),
            Expr::Field(x) => self.pure(&x.base),
            Expr::Binary(x) => self.pure(&x.left) && self.pure(&x.right)
                && matches!(x.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)),
            Expr::Call(c) => Self::name(&c.func).map_or(false, |n| n != self.seed && n.starts_with(|x: char| x.is_lowercase())) && c.args.iter().all(|a| self.pure(a)),
            Expr::MethodCall(m) => ["min", "max", "saturating_sub", "saturating_add", "round", "floor", "len"].contains(&m.method.to_string().as_str()) && self.pure(&m.receiver) && m.args.iter().all(|a| self.pure(a)),
            Expr::If(i) => self.pure(&i.cond) && self.pure_block(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| self.pure(&x.1)),
            Expr::Block(b) => self.pure_block(&b.block),
            Expr::Tuple(t) => t.elems.iter().all(|x| self.pure(x)),
            _ => false,
        }
    }
    fn pure_block(&self, b: &Block) -> bool {
        b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(x, None) if self.pure(x))
    }
    fn block(&self, b: &Block) -> bool { b.stmts.iter().all(|s| self.stmt(s)) }
    fn ok_unit(e: &Expr) -> bool { e.to_token_stream().to_string().replace(' ', "") == "Ok(())" }
    fn effect(&self, e: &Expr) -> bool {
        match e {
            Expr::Assign(a) => Self::name(&a.left).map_or(false, |n| self.s.contains(&n)) && self.pure(&a.right),
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) => Self::name(&b.left).map_or(false, |n| self.s.contains(&n)) && self.pure(&b.right),
            Expr::Call(c) if Self::name(&c.func).map_or(false, |n| n == self.seed) => self.s.contains(&self.seed) && c.args.iter().all(|a| self.pure(a)),
            Expr::If(i) => {
                let c = match &*i.cond { Expr::Let(l) => self.pure(&l.expr), c => self.pure(c) };
                c && self.block(&i.then_branch) && i.else_branch.as_ref().map_or(true, |x| self.effect(&x.1))
            }
            Expr::Match(m) => self.pure(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() && self.effect(&a.body)),
            Expr::Block(b) => self.block(&b.block),
            Expr::Paren(p) => self.effect(&p.expr),
            Expr::Tuple(t) => t.elems.is_empty(),
            // tree.callback_all_files(&mut |..| { ..; Ok(()) }).unwrap(): a traversal that only counts
            Expr::MethodCall(m) if m.method == "unwrap" && m.args.is_empty() => self.counting(&m.receiver),
            Expr::Try(t) => self.counting(&t.expr),
            // Python::attach(|py| { let _ = callback.call1(py, (..,)); })
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "") == "Python::attach" && c.args.len() == 1 && self.s.contains(&self.seed) => match &c.args[0] {
                Expr::Closure(f) => match &*f.body {
                    Expr::Block(b) => b.block.stmts.iter().all(|s| match s {
                        Stmt::Local(l) => matches!(&l.pat, Pat::Wild(_)) && l.init.as_ref().map_or(false, |x| match strip_paren(&x.expr) {
                            Expr::MethodCall(m) => m.method == "call1" && Self::name(&m.receiver).map_or(false, |n| n == self.seed) && m.args.iter().all(|a| self.pure(a)),
                            _ => false,
                        }),
                        _ => false,
                    }),
                    _ => false,
                },
                _ => false,
            },
            _ => false,
        }
    }
    fn counting(&self, e: &Expr) -> bool {
        let Expr::MethodCall(c) = strip_paren(e) else { return false };
        if c.method != "callback_all_files" || c.args.len() != 1 || !self.pure(&c.receiver) { return false; }
        let Expr::Reference(r) = strip_paren(&c.args[0]) else { return false };
        let Expr::Closure(f) = strip_paren(&r.expr) else { return false };
        let Expr::Block(b) = &*f.body else { return false };
        match b.block.stmts.split_last() {
            Some((Stmt::Expr(x, None), rest)) => Self::ok_unit(x) && rest.iter().all(|s| self.stmt(s)),
            _ => false,
        }
    }
    fn stmt(&self, s: &Stmt) -> bool {
        match s {
            Stmt::Local(l) => {
                let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                match (p, &l.init) {
                    (Pat::Ident(i), Some(x)) => self.s.contains(&i.ident.to_string()) && x.diverge.is_none() && self.pure(&x.expr),
                    (Pat::Ident(i), None) => self.s.contains(&i.ident.to_string()),
                    _ => false,
                }
            }
            Stmt::Expr(e, _) => self.effect(e),
            _ => false,
        }
    }
}
struct Uses<'b> { sl: &'b Slice, used: BTreeSet<String> }
impl<'a, 'b> Visit<'a> for Uses<'b> {
    fn visit_block(&mut self, b: &'a Block) {
        for s in &b.stmts { if !self.sl.stmt(s) { self.visit_stmt(s); } }
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() { self.used.insert(i.to_string()); }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for t in m.tokens.clone() { if let TokenTree::Ident(i) = t { self.used.insert(i.to_string()); } }
    }
}
struct Cut<'b> { sl: &'b Slice }
impl<'b> VisitMut for Cut<'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !self.sl.stmt(s));
        visit_mut::visit_block_mut(self, b);
    }
}
fn drop_progress(b: &mut Block, seed: &str) {
    let mut l = Lets(BTreeSet::new());
    l.visit_block(b);
    l.0.insert(seed.into());
    let mut sl = Slice { seed: seed.into(), s: l.0 };
    loop {
        let mut u = Uses { sl: &sl, used: BTreeSet::new() };
        u.visit_block(b);
        let n = sl.s.len();
        let used = u.used;
        sl.s.retain(|x| !used.contains(x));
        if sl.s.len() == n { break; }
    }
    Cut { sl: &sl }.visit_block_mut(b);
}

// ---- what the reports of progress depend on, and nothing else ---------------------------------------
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(x) => root(&x.expr),
        Expr::Field(x) => root(&x.base),
        Expr::Index(x) => root(&x.expr),
        Expr::Unary(x) => root(&x.expr),
        Expr::Reference(x) => root(&x.expr),
        _ => None,
    }
}
struct Keep { seed: String, skip: Vec<String>, need: BTreeSet<String> }
struct Touches<'k> { k: &'k Keep, hit: bool, depth: usize }
impl Touches<'_> {
    fn needs(&self, e: &Expr) -> bool {
        match e {
            Expr::Tuple(t) => t.elems.iter().any(|x| self.needs(x)),
            _ => root(e).map_or(false, |n| self.k.need.contains(&n)),
        }
    }
}
impl<'a> Visit<'a> for Touches<'_> {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Assign(a) if self.needs(&a.left) => self.hit = true,
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) && self.needs(&b.left) => self.hit = true,
            Expr::Reference(r) if r.mutability.is_some() && self.needs(&r.expr) => self.hit = true,
            Expr::MethodCall(m) if self.needs(&m.receiver) && !self.k.skip.contains(&m.method.to_string()) => self.hit = true,
            Expr::Call(c) if root(&c.func).map_or(false, |n| n == self.k.seed) => self.hit = true,
            Expr::Call(c) if c.args.iter().any(|a| root(a).map_or(false, |n| n == self.k.seed)) => self.hit = true,
            // an error return only ends the reports
            Expr::Return(r) => if !r.expr.as_ref().map_or(false, |x| x.to_token_stream().to_string().starts_with("Err")) { self.hit = true },
            Expr::Break(b) => if self.depth == 0 || b.label.is_some() { self.hit = true },
            Expr::Continue(b) => if self.depth == 0 || b.label.is_some() { self.hit = true },
            _ => {}
        }
        let l = matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) as usize;
        self.depth += l;
        visit::visit_expr(self, e);
        self.depth -= l;
    }
}
impl Keep {
    fn touches(&self, s: &Stmt) -> bool {
        let mut t = Touches { k: self, hit: false, depth: 0 };
        match s {
            Stmt::Local(l) => if let Some(i) = &l.init { t.visit_expr(&i.expr); if let Some(d) = &i.diverge { t.visit_expr(&d.1); } },
            s => t.visit_stmt(s),
        }
        t.hit
    }
    fn keeps(&self, s: &Stmt, last: bool) -> bool {
        match s {
            Stmt::Local(l) => {
                let mut p = PatIds(vec![]);
                p.visit_pat(&l.pat);
                p.0.iter().any(|i| self.need.contains(&i.to_string())) || self.touches(s)
            }
            Stmt::Item(Item::Const(c)) => self.need.contains(&c.ident.to_string()),
            Stmt::Expr(_, None) if last => true,
            Stmt::Macro(_) | Stmt::Item(_) => false,
            _ => self.touches(s),
        }
    }
}
struct Prune<'k> { k: &'k Keep }
impl VisitMut for Prune<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        let mut i = 0;
        // a loop or conditional at the end of a block is not its value unless it must be
        b.stmts.retain(|s| {
            i += 1;
            let unit = matches!(s, Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), _));
            self.k.keeps(s, i == n && !unit)
        });
        visit_mut::visit_block_mut(self, b);
    }
}
struct Mentions(BTreeSet<String>);
impl<'a> Visit<'a> for Mentions {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); }
    }
}
fn only_progress(b: &mut Block, seed: &str, skip: &[&str]) {
    let mut k = Keep { seed: seed.into(), skip: skip.iter().map(|s| s.to_string()).chain(["len", "as_ref", "min", "max", "clone", "iter", "is_empty"].map(String::from)).collect(), need: BTreeSet::new() };
    k.need.insert(seed.into());
    loop {
        let mut c = b.clone();
        Prune { k: &k }.visit_block_mut(&mut c);
        let mut m = Mentions(k.need.clone());
        m.visit_block(&c);
        if m.0.len() == k.need.len() { *b = c; return; }
        k.need = m.0;
    }
}
/// arithmetic on f64 -> functions over the real numbers with rounding
struct Floats { vars: BTreeSet<String>, used: bool }
impl Floats {
    fn is(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Cast(c) => c.ty.to_token_stream().to_string() == "f64",
            Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.suffix() == "f64",
            Expr::Binary(b) => self.is(&b.left) || self.is(&b.right),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.vars.contains(&i.to_string())),
            Expr::MethodCall(m) => ["floor", "trunc", "round", "ceil"].contains(&m.method.to_string().as_str()) || self.is(&m.receiver),
            _ => false,
        }
    }
}
impl VisitMut for Floats {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &l.init {
            if self.is(&i.expr) {
                if let Pat::Ident(p) = &l.pat { self.vars.insert(p.ident.to_string()); }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let was = self.is(e);
        let fcast = matches!(e, Expr::Cast(c) if c.ty.to_token_stream().to_string() != "f64" && self.is(&c.expr));
        let new: Option<Expr> = match e {
            Expr::Cast(c) if was => { self.visit_expr_mut(&mut c.expr); let x = strip_paren(&c.expr); Some(parse_quote!(vp_f64(#x))) }
            Expr::Cast(c) if fcast => {
                let f = format_ident!("vp_f64_{}", c.ty.to_token_stream().to_string());
                self.visit_expr_mut(&mut c.expr);
                let x = strip_paren(&c.expr);
                Some(parse_quote!(#f(#x)))
            }
            Expr::Lit(ExprLit { lit, .. }) if was => {
                let v: f64 = match lit { Lit::Float(f) => f.base10_parse().unwrap_or(-1.0), Lit::Int(i) => i.base10_digits().parse().unwrap_or(-1.0), _ => -1.0 };
                if v < 0.0 || v > 1e6 || v.fract() != 0.0 { die("a floating-point constant that is no small integer"); }
                let v = v as u32;
                Some(parse_quote!(vp_f64_lit(#v)))
            }
            Expr::Binary(b) if was => {
                let f = match b.op { BinOp::Mul(_) => "vp_f64_mul", BinOp::Div(_) => "vp_f64_div", _ => die("an operation on f64 outside the dialect") };
                let f = format_ident!("{}", f);
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (x, y) = (strip_paren(&b.left), strip_paren(&b.right));
                Some(parse_quote!(#f(#x, #y)))
            }
            Expr::MethodCall(m) if was => {
                if !(m.method == "floor" || m.method == "trunc") || !m.args.is_empty() { die("an operation on f64 outside the dialect"); }
                self.visit_expr_mut(&mut m.receiver);
                let x = &m.receiver;
                Some(parse_quote!(vp_f64_floor(#x)))
            }
            _ => None,
        };
        if let Some(n) = new { self.used = true; *e = n; return; }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// the closure given to the method `name`
struct FindClosure { name: String, found: Vec<ExprClosure>, with: Option<Expr> }
impl VisitMut for FindClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == self.name && m.args.len() == 1 {
                if let Expr::Reference(r) = strip_paren(&m.args[0]) {
                    if let Expr::Closure(c) = strip_paren(&r.expr) {
                        self.found.push(c.clone());
                        if let Some(w) = &self.with {
                            let (r, f) = (&m.receiver, &m.method);
                            *e = parse_quote!(({ let mut vp_v = #w; let vp_r = #r.#f(&mut vp_v); vp_r }));
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Capture { names: Vec<String> }
impl VisitMut for Capture {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Some(i) = match &*c.func { Expr::Path(p) => p.path.get_ident().cloned(), _ => None } {
                if self.names.contains(&i.to_string()) {
                    for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                    let a = &c.args;
                    *e = parse_quote!(self.#i.vp_call(#a));
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.names.contains(&i.to_string()) { let i = i.clone(); *e = parse_quote!(self.#i); return; }
                if self.names.contains(&format!("*{i}")) { let i = i.clone(); *e = parse_quote!((*self.#i)); return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `a.iter_mut()` with any number of `.skip(n)` and `.take(n)` behind it
fn skip_take(e: &Expr) -> Option<(Expr, Vec<(bool, Expr)>)> {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some(((*m.receiver).clone(), vec![])),
        Expr::MethodCall(m) if (m.method == "skip" || m.method == "take") && m.args.len() == 1 => {
            let (r, mut v) = skip_take(&m.receiver)?;
            v.push((m.method == "skip", m.args[0].clone()));
            Some((r, v))
        }
        _ => None,
    }
}
fn has_break(b: &Block) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut x = B(false);
    x.visit_block(b);
    x.0
}

struct Rw {
    tmp: usize,
    result_map: bool,
    used: BTreeSet<&'static str>,
    opts: BTreeSet<String>,
}

/// strip `.into()`, `.as_ref()`, `.as_mut()` and outer references
fn peel(e: &Expr) -> Expr {
    match e {
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "into" || m.method == "as_ref" || m.method == "as_mut") => peel(&m.receiver),
        Expr::Reference(r) => peel(&r.expr),
        Expr::Paren(p) => peel(&p.expr),
        Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) => peel(&i.expr),
        _ => e.clone(),
    }
}

/// the variables bound by `let mut x` and by `let x`
struct Locals { muts: BTreeSet<String>, fixed: BTreeSet<String> }
impl<'a> Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a Local) {
        let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let Pat::Ident(i) = p { if i.mutability.is_some() { self.muts.insert(i.ident.to_string()); } else { self.fixed.insert(i.ident.to_string()); } }
        visit::visit_local(self, l);
    }
}
/// the variables a pattern binds
struct PatIds(Vec<Ident>);
impl<'a> Visit<'a> for PatIds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase() || c == '_') { self.0.push(p.ident.clone()); }
        visit::visit_pat_ident(self, p);
    }
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        _ => e,
    }
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // destructuring assignment, and `let x;` that it initialises
        let mut out = Vec::new();
        for s in b.stmts.drain(..) {
            if let Stmt::Expr(Expr::Assign(a), _) = &s {
                if let Expr::Tuple(t) = &*a.left {
                    self.used.insert("destructuring assignment -> temporary and assignments");
                    let mut rhs = (*a.right).clone();
                    self.visit_expr_mut(&mut rhs);
                    let ids: Vec<_> = t.elems.iter().map(|_| { self.tmp += 1; format_ident!("vp_t{}", self.tmp) }).collect();
                    out.push(parse_quote!(let (#(#ids),*) = #rhs;));
                    for (l, i) in t.elems.iter().zip(&ids) {
                        out.push(parse_quote!(#l = #i;));
                    }
                    continue;
                }
            }
            if let Stmt::Local(l) = &s {
                if let Some(init) = &l.init {
                    if let Some((_, d)) = &init.diverge {
                        let mut ids = PatIds(vec![]);
                        let p = &l.pat;
                        ids.visit_pat(p);
                        let (ids, x) = (ids.0, &init.expr);
                        self.used.insert("`let P = x else { d };` -> `let (vars) = match x { P => (vars), _ => d };`");
                        out.push(if ids.len() == 1 { let i = &ids[0]; parse_quote!(let #i = match #x { #p => #i, _ => #d };) } else { parse_quote!(let (#(#ids),*) = match #x { #p => (#(#ids),*), _ => #d };) });
                        continue;
                    }
                }
            }
            if let Stmt::Item(Item::Const(c)) = &s {
                let (i, t, x) = (&c.ident, &c.ty, &c.expr);
                self.used.insert("a constant in a function body -> let");
                out.push(parse_quote!(let #i: #t = #x;));
                continue;
            }
            if matches!(&s, Stmt::Item(Item::Fn(_))) && self.opts.contains("lift") {
                self.used.insert("a function nested in a method -> top-level function");
                continue;
            }
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if ["print", "println", "eprint", "eprintln"].contains(&n.as_str()) {
                    self.used.insert("printing dropped");
                    continue;
                }
                let neg = n.ends_with("_ne");
                if ["debug_assert", "assert"].contains(&n.as_str()) {
                    let c = m.mac.tokens.clone();
                    let c = split_comma(c.clone()).map(|x| x.0).unwrap_or(c);
                    self.used.insert("(debug_)assert! -> call with the condition as precondition");
                    out.push(parse_quote!(vp_assert(#c);));
                    continue;
                }
                if ["debug_assert_eq", "assert_eq", "debug_assert_ne", "assert_ne"].contains(&n.as_str()) {
                    if let Some((a, b)) = split_comma(m.mac.tokens.clone()) {
                        let b = split_comma(b.clone()).map(|x| x.0).unwrap_or(b);
                        self.used.insert("(debug_)assert_eq! -> call with the condition as precondition");
                        if neg { out.push(parse_quote!(vp_assert((#a) != (#b));)); } else { out.push(parse_quote!(vp_assert((#a) == (#b));)); }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        // `&P { x, .. } => body` -> `P { x, .. } => { let x = *x; body }`
        if let Pat::Reference(r) = &a.pat {
            struct Ids(Vec<Ident>);
            impl VisitMut for Ids {
                fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.0.push(p.ident.clone()); }
                fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
                    if p.colon_token.is_none() {
                        if let Pat::Ident(i) = &*p.pat { self.0.push(i.ident.clone()); return; }
                    }
                    visit_mut::visit_field_pat_mut(self, p);
                }
            }
            let mut p = (*r.pat).clone();
            let mut ids = Ids(vec![]);
            ids.visit_pat_mut(&mut p);
            let ids = ids.0;
            let body = &a.body;
            self.used.insert("`&P { x } => ..` in a match arm -> `P { x } => { let x = *x; .. }`");
            a.body = Box::new(parse_quote!({ #(let #ids = *#ids;)* #body }));
            a.pat = p;
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rb = format_ident!("{}", self.opts.iter().find_map(|o| o.strip_prefix("readas:")).unwrap_or("read_be"));
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("format") && self.opts.contains("fmt") {
                // format!("{}", x), format!("{x}")
                let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                if let Some(TokenTree::Literal(l)) = ts.first() {
                    let l = l.to_string();
                    let x: Option<Expr> = if l == "\"{}\"" && ts.len() > 2 { parse2(ts[2..].iter().cloned().collect()).ok() }
                        else if l.starts_with("\"{") && l.ends_with("}\"") && ts.len() == 1 { parse_str(&l[2..l.len() - 2]).ok().filter(|x| matches!(x, Expr::Path(_))) } else { None };
                    if let Some(x) = x {
                        self.used.insert("`format!(\"{}\", x)` -> vp_fmt(&x)");
                        *e = parse_quote!(vp_fmt(&#x));
                        return;
                    }
                }
            }
        }
        if let (Expr::Match(m), true) = (&*e, self.opts.contains("strmatch")) {
            let lit = |p: &Pat| matches!(p, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }));
            if m.arms.len() > 1 && m.arms.iter().any(|a| lit(&a.pat)) {
                let (last, rest) = m.arms.split_last().unwrap();
                if !matches!(last.pat, Pat::Wild(_)) || rest.iter().any(|a| !lit(&a.pat) || a.guard.is_some()) { die("match on a string"); }
                let x = &m.expr;
                let mut out: Expr = { let b = &last.body; parse_quote!({ #b }) };
                for a in rest.iter().rev() {
                    let (p, b) = (&a.pat, &a.body);
                    out = parse_quote!(if vp_same(vp_s, #p) { #b } else #out);
                    if let Expr::If(i) = &mut out { if let Some((_, eb)) = &mut i.else_branch { if let Expr::Block(_) | Expr::If(_) = &**eb {} else { let y = (**eb).clone(); **eb = parse_quote!({ #y }); } } }
                }
                self.used.insert("`match s { \"a\" => .., _ => .. }` on a string -> if/else with vp_same");
                *e = parse_quote!({ let vp_s = #x; #out });
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "retain_mut" && m.args.len() == 1 && self.opts.contains("retain") {
                if let Expr::Closure(c) = &m.args[0] {
                    struct R(bool);
                    impl<'a> Visit<'a> for R { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; } }
                    let mut r = R(false);
                    r.visit_expr(&c.body);
                    if r.0 { die("return in the closure of retain_mut"); }
                    let (v, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                    self.used.insert("`v.retain_mut(|p| b)` -> `while k < v.len() { if b(&mut v[k]) { k += 1 } else { v.remove(k); } }`");
                    *e = parse_quote!({ let mut vp_k: usize = 0; while vp_k < #v.len() { let vp_keep = { let #p = &mut #v[vp_k]; #b }; if vp_keep { vp_k = vp_k + 1; } else { #v.remove(vp_k); } } });
                    return;
                }
            }
            if m.method == "drain" && m.args.len() == 1 && self.opts.contains("foriter") && m.args[0].to_token_stream().to_string() == ".." {
                let v = &m.receiver;
                self.used.insert("`v.drain(..)` -> vp_drain(&mut v): the elements one after the other, v empty");
                *e = parse_quote!(vp_drain(&mut #v));
                return;
            }
            if m.method == "make_ascii_uppercase" && m.args.is_empty() {
                let v = &m.receiver;
                self.used.insert("make_ascii_uppercase -> vp_upper");
                *e = parse_quote!(vp_upper(&mut #v));
                return;
            }
        }
        if self.opts.contains("stdlib") {
            let txt = |x: &dyn ToTokens| x.to_token_stream().to_string().replace(' ', "");
            if let Expr::Call(c) = e {
                let f = txt(&c.func);
                if f == "Cow::Borrowed" && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.used.insert("`Cow::Borrowed(&v)` -> vp_cow(&v), a copy of the bytes");
                    *e = parse_quote!(vp_cow(#a));
                    return;
                }
                if f == "String::from" && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.used.insert("`String::from(s)`, `s.to_string()`, `s.to_owned()` -> vp_string(s)");
                    *e = parse_quote!(vp_string(#a));
                    return;
                }
            }
            if let Expr::MethodCall(m) = e {
                let name = m.method.to_string();
                let r = m.receiver.clone();
                match (name.as_str(), m.args.len()) {
                    ("to_string", 0) | ("to_owned", 0) => {
                        self.used.insert("`String::from(s)`, `s.to_string()`, `s.to_owned()` -> vp_string(s)");
                        *e = parse_quote!(vp_string(#r));
                        return;
                    }
                    ("unwrap_or_default", 0) => {
                        self.used.insert("Option<&str>::unwrap_or_default -> vp_or_empty");
                        *e = parse_quote!(vp_or_empty(#r));
                        return;
                    }
                    ("try_into", 0) => {
                        self.used.insert("`x.try_into()` from u64 to u32 -> vp_to_u32(x)");
                        *e = parse_quote!(vp_to_u32(#r));
                        return;
                    }
                    ("map", 1) => {
                        match &m.args[0] {
                            Expr::Path(p) if txt(p) == "String::as_str" && matches!(strip_paren(&r), Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty()) => {
                                let Expr::MethodCall(i) = strip_paren(&r) else { unreachable!() };
                                let x = &i.receiver;
                                self.used.insert("`v.iter().map(f)` -> `vp_iter(v.as_slice()).map(f)` (contracts/iter.vrs)");
                                *e = parse_quote!(vp_iter(#x.as_slice()).map(|s| s.as_str()));
                                return;
                            }
                            Expr::Path(p) => {
                                self.used.insert("Option::map with a function -> match");
                                let f: Expr = if txt(p) == "String::from" || txt(p) == "str::to_string" || txt(p) == "str::to_owned" || txt(p) == "ToString::to_string" || txt(p) == "ToOwned::to_owned" { parse_quote!(vp_string) } else { parse_quote!(#p) };
                                *e = parse_quote!((match #r { Some(vp_v) => Some(#f(vp_v)), None => None }));
                                return;
                            }
                            Expr::Closure(c) => {
                                if let Expr::MethodCall(i) = strip_paren(&r) {
                                    if i.method == "iter" && i.args.is_empty() {
                                        let (x, c) = (&i.receiver, c);
                                        self.used.insert("`v.iter().map(f)` -> `vp_iter(v.as_slice()).map(f)` (contracts/iter.vrs)");
                                        *e = parse_quote!(vp_iter(#x.as_slice()).map(#c));
                                        return;
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    ("map_err", 1) => {
                        self.used.insert("Result::map_err -> match");
                        match &m.args[0] {
                            Expr::Path(p) if ["Into::into", "From::from", "PartitionAddError::from", "PartitionAddError::IO"].contains(&txt(p).as_str()) => {
                                *e = parse_quote!((match #r { Ok(vp_v) => Ok(vp_v), Err(vp_e) => Err(VpFrom::vp_from(vp_e)) }));
                                return;
                            }
                            Expr::Path(p) => {
                                *e = parse_quote!((match #r { Ok(vp_v) => Ok(vp_v), Err(vp_e) => Err(#p(vp_e)) }));
                                return;
                            }
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let (p, b) = (&c.inputs[0], &c.body);
                                *e = parse_quote!((match #r { Ok(vp_v) => Ok(vp_v), Err(#p) => Err(#b) }));
                                return;
                            }
                            _ => {}
                        }
                    }
                    ("read_be", 0) if matches!(strip_paren(&r), Expr::Match(_) | Expr::Call(_)) => {
                        self.tmp += 1;
                        let v = format_ident!("vp_t{}", self.tmp);
                        let t = m.turbofish.as_ref().map(|t| t.args.clone());
                        self.used.insert("`s.read_be::<T>()` -> `read_be::<T, _>(&mut s)` (codec contract)");
                        *e = match t {
                            Some(a) => parse_quote!({ let mut #v = #r; #rb::<#a, _>(&mut #v) }),
                            None => parse_quote!({ let mut #v = #r; #rb(&mut #v) }),
                        };
                        return;
                    }
                    _ => {}
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if matches!(&*f.pat, Pat::Wild(_)) {
                self.used.insert("`for _ in` -> `for vp_i in`");
                f.pat = Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: format_ident!("vp_i"), subpat: None }));
            }
        }
        if let Expr::ForLoop(f) = e {
            let x = match strip_paren(&f.expr) {
                Expr::Path(p) if self.opts.contains(&format!("itermut:{}", p.path.to_token_stream())) => Some(strip_paren(&f.expr).clone()),
                Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
                _ => None,
            };
            if let (Some(x), true) = (&x, self.opts.contains("idxmut")) {
                struct Cont(bool);
                impl<'a> Visit<'a> for Cont {
                    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
                }
                let mut c = Cont(false);
                c.visit_block(&f.body);
                if c.0 { die("continue in a loop over mutable elements"); }
                let (p, b, l) = (&f.pat, &f.body.stmts, &f.label);
                let last: Option<Stmt> = match f.body.stmts.last() { Some(Stmt::Expr(_, None)) => Some(parse_quote!(;)), _ => None };
                self.used.insert("`for p in v` with `v: &mut Vec` -> `while k < v.len() { let p = &mut v[k]; ..; k += 1 }` (no continue in the body)");
                *e = parse_quote!({ let mut vp_k: usize = 0; #l while vp_k < #x.len() { let #p = &mut #x[vp_k]; #(#b)* #last vp_k = vp_k + 1; } });
                return;
            }
            if let Some(x) = x {
                self.used.insert("`for p in v` with `v: &mut Vec` -> `for p in v.iter_mut()`");
                f.expr = Box::new(parse_quote!(#x.iter_mut()));
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Some((v, st)) = skip_take(&f.expr) {
                if !st.is_empty() {
                    let mut pre: Vec<Stmt> = vec![];
                    for (sk, a) in &st {
                        pre.push(if *sk { parse_quote!(vp_lo = vp_skip(vp_lo, vp_hi, #a);) } else { parse_quote!(vp_hi = vp_take(vp_lo, vp_hi, #a);) });
                    }
                    let (p, b, l) = (&f.pat, &f.body.stmts, &f.label);
                    self.used.insert("`for p in v.iter_mut().skip(a).take(n)` -> indexed loop over that range");
                    *e = parse_quote!({ let mut vp_lo: usize = 0; let mut vp_hi: usize = #v.len(); #(#pre)* let mut vp_k: usize = vp_lo; #l while vp_k < vp_hi { let #p = &mut #v[vp_k]; vp_k = vp_k + 1; #(#b)* } });
                    return;
                }
            }
        }
        if self.opts.contains("forbreak") {
            if let Expr::ForLoop(f) = e {
                if let Expr::Range(r) = strip_paren(&f.expr) {
                    if let (Some(a), Some(z), RangeLimits::HalfOpen(_), true) = (&r.start, &r.end, &r.limits, has_break(&f.body)) {
                        let (p, b, l) = (&f.pat, &f.body.stmts, &f.label);
                        self.used.insert("`for i in a..z` with a break -> `while n < z { let i = n; n = n + 1; .. }`");
                        *e = parse_quote!({ let mut vp_n = #a; #l while vp_n < #z { let #p = vp_n; vp_n = vp_n + 1; #(#b)* } });
                        return;
                    }
                }
            }
        }
        if self.opts.contains("into") {
            if let Expr::Call(c) = e {
                if c.func.to_token_stream().to_string() == "Err" && c.args.len() == 1 {
                    if let Expr::Call(x) = strip_paren(&c.args[0]) {
                        if x.func.to_token_stream().to_string().replace(' ', "") == "ShiftedU64::from" {
                            let a = x.args[0].clone();
                            *e = parse_quote!(Err(VpFrom::vp_from(#a)));
                            return;
                        }
                    }
                }
            }
            if let Expr::MethodCall(m) = e {
                if m.method == "into" && m.args.is_empty() {
                    let r = &m.receiver;
                    self.used.insert("`x.into()` -> `ShiftedU64::from(x)`, `Err(x.into())` -> the From impl of the error");
                    *e = parse_quote!(ShiftedU64::from(#r));
                    return;
                }
            }
        }
        if self.opts.contains("cowargs") {
            if let Expr::MethodCall(c) = e {
                if matches!(strip_paren(&c.receiver), Expr::Path(_)) && c.args.len() == 1 {
                    if let Expr::Reference(r) = strip_paren(&c.args[0]) {
                        let m = strip_paren(&r.expr);
                        if r.mutability.is_none() && matches!(m, Expr::Match(_) | Expr::Try(_)) {
                            self.tmp += 1;
                            let v = format_ident!("vp_t{}", self.tmp);
                            let (rc, f) = (&c.receiver, &c.method);
                            self.used.insert("`x.f(&g()?)` with a Cow -> temporary, `.as_ref()`");
                            *e = parse_quote!({ let #v = #m; #rc.#f(#v.as_ref()) });
                            return;
                        }
                    }
                }
            }
        }
        if self.opts.contains("shifted") {
            if let Expr::Unary(u) = e {
                if matches!(u.op, UnOp::Deref(_)) && matches!(strip_paren(&u.expr), Expr::Field(_)) {
                    let x = strip_paren(&u.expr);
                    self.used.insert("`*x.field` on an offset (Deref of ShiftedU64) -> `x.field.0`");
                    *e = parse_quote!(#x.0);
                    return;
                }
            }
        }
        if let Expr::Struct(s) = e {
            if s.path.to_token_stream().to_string().replace(' ', "").ends_with("Error::Custom") {
                for f in s.fields.iter_mut() {
                    if matches!(&f.member, Member::Named(n) if n == "err") {
                        self.used.insert("text of a custom error -> unspecified string");
                        f.expr = parse_quote!(Box::new(vp_any_string()));
                    }
                }
            }
        }
        // a.iter().zip(b.iter()), .chain(..) and loops over them
        if let Expr::MethodCall(m) = e {
            let it = |x: &Expr| match strip_paren(x) {
                Expr::MethodCall(r) if r.args.is_empty() && r.method == "iter" => Some((*r.receiver).clone()),
                _ => None,
            };
            let pairs = |x: &Expr| matches!(strip_paren(x), Expr::Call(c) if ["vp_zip", "vp_chain"].contains(&c.func.to_token_stream().to_string().as_str()));
            if m.method == "zip" && m.args.len() == 1 {
                if let (Some(a), Some(b)) = (it(&m.receiver), it(&m.args[0])) {
                    self.used.insert("`a.iter().zip(b.iter())`, `.chain(..)` of such, and `for` over them -> vectors of pairs with the std contract (contracts/iter.vrs), indexed loop");
                    *e = parse_quote!(vp_zip(&#a[..], &#b[..]));
                    return;
                }
            }
            if m.method == "chain" && m.args.len() == 1 && pairs(&m.receiver) && pairs(&m.args[0]) {
                let (a, b) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(vp_chain(#a, #b));
                return;
            }
        }
        if let Expr::ForLoop(f) = e {
            if matches!(strip_paren(&f.expr), Expr::Call(c) if ["vp_zip", "vp_chain"].contains(&c.func.to_token_stream().to_string().as_str())) {
                let (p, x, b, l) = (&f.pat, &f.expr, &f.body.stmts, &f.label);
                *e = parse_quote!({ let vp_pairs = #x; let mut vp_k: usize = 0; #l while vp_k < vp_pairs.len() { let #p = vp_pairs[vp_k]; vp_k = vp_k + 1; #(#b)* } });
                return;
            }
        }
        if self.opts.contains("reborrow") {
            if let Expr::Reference(r) = e {
                if r.mutability.is_some() && matches!(strip_paren(&r.expr), Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "rs")) {
                    let x = &r.expr;
                    self.used.insert("`&mut self.rs` -> `&mut *self.rs` (the stream behind the reference instead of the reference as a stream)");
                    *e = parse_quote!(&mut *#x);
                    return;
                }
            }
        }
        // AES key/iv arguments
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "Aes128CbcEnc::new" || f == "Aes128CbcDec::new" {
                self.used.insert("AES key and IV arguments: conversions dropped, length 16 required instead");
                for a in c.args.iter_mut() {
                    let p = peel(a);
                    *a = parse_quote!(&(#p));
                }
            }
        }
        if self.opts.contains("hoist") {
            if let Expr::MethodCall(c) = e {
                let mut pre: Vec<Stmt> = vec![];
                let simple = matches!(strip_paren(&c.receiver), Expr::Path(_) | Expr::Field(_));
                if simple {
                    for a in c.args.iter_mut() {
                        if matches!(strip_paren(a), Expr::Reference(r) if matches!(strip_paren(&r.expr), Expr::Index(_))) {
                            self.tmp += 1;
                            let v = format_ident!("vp_t{}", self.tmp);
                            pre.push(parse_quote!(let #v = #a;));
                            *a = parse_quote!(#v);
                        }
                    }
                }
                if !pre.is_empty() {
                    self.used.insert("a slice among the arguments of a method call on a place -> temporary before the call");
                    let c = c.clone();
                    *e = parse_quote!({ #(#pre)* #c });
                    return;
                }
            }
            if let Expr::Call(c) = e {
                let mut pre: Vec<Stmt> = vec![];
                for a in c.args.iter_mut() {
                    if matches!(strip_paren(a), Expr::Match(_)) {
                        self.tmp += 1;
                        let v = format_ident!("vp_t{}", self.tmp);
                        pre.push(parse_quote!(let #v = #a;));
                        *a = parse_quote!(#v);
                    }
                }
                if !pre.is_empty() && c.func.to_token_stream().to_string() != "Some" {
                    self.used.insert("a match among the arguments of a call -> temporary before the call");
                    let c = c.clone();
                    *e = parse_quote!({ #(#pre)* #c });
                    return;
                }
            }
        }
        if self.opts.contains("foriter") {
            if let Expr::ForLoop(f) = e {
                let r = matches!(strip_paren(&f.expr), Expr::Range(_));
                if !r {
                    let (p, x, b) = (&f.pat, &f.expr, &f.body.stmts);
                    let l = &f.label;
                    self.used.insert("`for p in iterator` -> `loop { let p = match iterator.next() { Some(x) => x, None => break }; .. }`");
                    *e = if matches!(strip_paren(x), Expr::Path(p) if !self.opts.contains(&format!("local:{}", p.path.to_token_stream()))) {
                        parse_quote!(#l loop { let #p = match #x.next() { Some(vp_x) => vp_x, None => { break; } }; #(#b)* })
                    } else {
                        parse_quote!({ let mut vp_it = #x; #l loop { let #p = match vp_it.next() { Some(vp_x) => vp_x, None => { break; } }; #(#b)* } })
                    };
                    return;
                }
            }
            if let Expr::While(w) = e {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                    self.used.insert("`while let p = x` -> `loop { match x { p => .., _ => break } }`");
                    *e = parse_quote!(#lab loop { match #x { #p => { #(#b)* } _ => { break; } } });
                    return;
                }
            }
        }
        if let Expr::Binary(b) = e {
            let gn = |x: &Expr| matches!(strip_paren(x), Expr::MethodCall(m) if m.method == "get_name");
            let eq = matches!(b.op, BinOp::Eq(_));
            let fl = |x: &Expr| matches!(strip_paren(x), Expr::Field(f) if self.opts.contains(&format!("streq:{}", f.member.to_token_stream())));
            let gt = |x: &Expr| matches!(strip_paren(x), Expr::MethodCall(m) if m.method == "get_type");
            if (eq || matches!(b.op, BinOp::Ne(_))) && self.opts.contains("fieldref") && (gt(&b.left) || gt(&b.right)) {
                self.used.insert("comparison of partition types with == or != -> vp_same_type");
                let (l, r) = (&b.left, &b.right);
                *e = if eq { parse_quote!(vp_same_type(#l, #r)) } else { parse_quote!((!vp_same_type(#l, #r))) };
                return;
            }
            if (eq || matches!(b.op, BinOp::Ne(_))) && (fl(&b.left) || fl(&b.right)) {
                self.used.insert("comparison of names with == or != -> vp_same (content of the strings)");
                let (l, r) = (&b.left, &b.right);
                *e = if eq { parse_quote!(vp_same(&#l, &#r)) } else { parse_quote!((!vp_same(&#l, &#r))) };
                return;
            }
            if (eq || matches!(b.op, BinOp::Ne(_))) && (gn(&b.left) || gn(&b.right)) {
                self.used.insert("comparison of names with == or != -> vp_same (content of the strings)");
                let (l, r) = (&b.left, &b.right);
                *e = if eq { parse_quote!(vp_same(#l, #r)) } else { parse_quote!((!vp_same(#l, #r))) };
                return;
            }
        }
        if self.opts.contains("tryo") {
            if let Expr::Try(t) = e {
                let x = &t.expr;
                self.used.insert("`x?` on an Option -> `match x { Some(v) => v, None => return None }`");
                *e = parse_quote!((match #x { Some(vp_v) => vp_v, None => { return None; } }));
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let inner = match strip_paren(&m.receiver) {
                Expr::MethodCall(r) if r.args.is_empty() && (r.method == "iter" || r.method == "iter_mut") => Some((r.method.to_string(), r.receiver.clone())),
                _ => None,
            };
            let a0 = m.args.first().cloned();
            let inner = inner.map(|(k, x)| if self.opts.contains("fieldref") && matches!(strip_paren(&x), Expr::Field(_)) {
                let y: Expr = if k == "iter" { parse_quote!(&#x) } else { parse_quote!(&mut #x) };
                (k, Box::new(y))
            } else { (k, x) });
            let new: Option<Expr> = match (name.as_str(), inner, m.args.len()) {
                ("find", Some((k, x)), 1) if k == "iter" && self.opts.contains("fieldref") && matches!(strip_paren(&x), Expr::MethodCall(_)) => Some(parse_quote!(vp_find_in(#x, #a0))),
                ("cloned", None, 0) if self.opts.contains("fieldref") => { let x = &m.receiver; Some(parse_quote!(vp_cloned(#x))) }
                ("find", Some((k, x)), 1) => Some(if k == "iter" { parse_quote!(vp_find(#x, #a0)) } else { parse_quote!(vp_find_mut(#x, #a0)) }),
                ("any", Some((k, x)), 1) if k == "iter" => Some(parse_quote!(vp_any(#x, #a0))),
                ("last", Some((k, x)), 0) if k == "iter" => Some(parse_quote!(vp_last(#x))),
                ("position", Some((k, x)), 1) if k == "iter" => Some(parse_quote!(vp_position(#x, #a0))),
                ("split", None, 1) if matches!(a0, Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) => { let x = &m.receiver; Some(parse_quote!(vp_split(#x, #a0))) }
                ("bytes", None, 0) => { let x = &m.receiver; Some(parse_quote!(vp_bytes(#x))) }
                ("binary_search_by", None, 1) => { let x = &m.receiver; Some(parse_quote!(vp_binary_search_by(#x, #a0))) }
                ("sort_unstable_by", None, 1) | ("sort_by", None, 1) => { let x = &m.receiver; Some(parse_quote!(vp_sort_by(#x, #a0))) }
                _ => None,
            };
            if let Some(n) = new {
                self.used.insert("iter().find/position, split, bytes, binary_search_by, sort_(unstable_)by -> functions with the std contract (contracts/iter.vrs)");
                *e = n;
                return;
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if self.opts.contains(&format!("callfn:{}", p.path.to_token_stream())) {
                    let (f, a) = (&c.func, &c.args);
                    self.used.insert("call of the callback `f(..)` -> `f.vp_call(..)` (a trait that records the call)");
                    *e = parse_quote!(#f.vp_call(#a));
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "sum" && m.args.is_empty() {
                if let Expr::MethodCall(mm) = strip_paren(&m.receiver) {
                    if mm.method == "map" && mm.args.len() == 1 {
                        if let Expr::Closure(c) = &mm.args[0] {
                            let (x, p, b) = (&mm.receiver, &c.inputs[0], &c.body);
                            self.used.insert("`i.map(|p| b).sum()` -> `{ let mut acc = 0; for p in i { acc = acc + b; } acc }`");
                            *e = parse_quote!({ let mut vp_acc = 0; for #p in #x { vp_acc = vp_acc + (#b); } vp_acc });
                            return;
                        }
                    }
                }
            }
        }
        if self.opts.contains("tryid") {
            if let Expr::Try(t) = e {
                let x = &t.expr;
                self.used.insert("`x?` with equal error types -> `match x { Ok(v) => v, Err(e) => return Err(e) }`");
                *e = parse_quote!((match #x { Ok(vp_v) => vp_v, Err(vp_e) => { return Err(vp_e); } }));
                return;
            }
        }
        if self.opts.contains("try") {
            if let Expr::Try(t) = e {
                let x = &t.expr;
                self.used.insert("`x?` -> `match x { Ok(v) => v, Err(e) => return Err(vp_from(e)) }`, vp_from being the From impl");
                *e = parse_quote!((match #x { Ok(vp_v) => vp_v, Err(vp_e) => { return Err(VpFrom::vp_from(vp_e)); } }));
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            // conversions of places to slices
            if (name == "as_ref" || name == "as_mut") && m.args.is_empty() && self.opts.contains("asref") {
                let p = peel(&m.receiver);
                self.used.insert("`.as_ref()`/`.as_mut()` on byte arrays -> full-range slices");
                *e = if name == "as_ref" { parse_quote!(&(#p)[..]) } else { parse_quote!(&mut (#p)[..]) };
                return;
            }
            // parts of vectors written to
            if name == "copy_from_slice" && self.opts.contains("vecmut") {
                fn base(x: &mut Expr) -> bool {
                    match x {
                        Expr::Paren(p) => base(&mut p.expr),
                        Expr::Index(i) => match strip_paren(&i.expr) {
                            Expr::Path(_) if matches!(&*i.index, Expr::Range(_)) => {
                                let v = (*i.expr).clone();
                                *i.expr = parse_quote!(#v.as_mut_slice());
                                true
                            }
                            _ => base(&mut i.expr),
                        },
                        _ => false,
                    }
                }
                if base(&mut m.receiver) {
                    self.used.insert("`v[a..]..copy_from_slice` on a vector -> `v.as_mut_slice()[a..]..`");
                }
            }
            // bytes of numbers
            if m.args.is_empty() && (name == "to_be_bytes" || name == "to_ne_bytes" || name == "to_le_bytes") {
                let r = &m.receiver;
                let f = Ident::new(&format!("vp_{name}"), proc_macro2::Span::call_site());
                self.used.insert("`x.to_be_bytes()` and the like -> vp_to_be_bytes(x)");
                *e = parse_quote!(#f(#r));
                return;
            }
            // closures given to map/map_or/and_then
            let clos = |x: &Expr| match x {
                Expr::Closure(c) => Some(c.clone()),
                _ => None,
            };
            let pathlike = |x: &Expr| matches!(x, Expr::Path(_));
            match (name.as_str(), m.args.len()) {
                ("copied", 0) if matches!(strip_paren(&m.receiver), Expr::MethodCall(g) if g.method == "get" && g.args.len() == 1) => {
                    let Expr::MethodCall(g) = strip_paren(&m.receiver) else { unreachable!() };
                    let (x, i) = (&g.receiver, &g.args[0]);
                    self.used.insert("`a.get(i).copied()` -> vp_get_copied(&a, i)");
                    *e = parse_quote!(vp_get_copied(&#x[..], #i));
                }
                ("ok_or_else", 1) if clos(&m.args[0]).is_some() => {
                    let c = clos(&m.args[0]).unwrap();
                    let (b, r) = (&c.body, &m.receiver);
                    self.used.insert("Option::ok_or_else with a closure -> match");
                    *e = parse_quote!((match #r { Some(vp_v) => Ok(vp_v), None => Err(#b) }));
                }
                ("map_or", 2) if clos(&m.args[1]).is_some() => {
                    let c = clos(&m.args[1]).unwrap();
                    let (p, b, r, d) = (&c.inputs[0], &c.body, &m.receiver, &m.args[0]);
                    self.used.insert("Option::map_or with a closure -> match");
                    *e = parse_quote!((match #r { Some(#p) => #b, None => #d }));
                }
                ("map", 1) if clos(&m.args[0]).is_some() && self.opts.contains("optmap") => {
                    let c = clos(&m.args[0]).unwrap();
                    let (p, b) = (&c.inputs[0], &c.body);
                    // `x.as_mut().map(..)`, as rewritten above
                    let r: Expr = match strip_paren(&m.receiver) {
                        Expr::Reference(x) => {
                            let q = peel(&x.expr);
                            if x.mutability.is_some() { parse_quote!(&mut #q) } else { parse_quote!(&#q) }
                        }
                        x => x.clone(),
                    };
                    self.used.insert("Option::map with a closure -> match");
                    *e = parse_quote!((match #r { Some(#p) => Some(#b), None => None }));
                }
                ("map", 1) if pathlike(&m.args[0]) && self.result_map => {
                    let (f, r) = (&m.args[0], &m.receiver);
                    self.used.insert("Result::map with a function -> match");
                    *e = parse_quote!((match #r { Ok(vp_v) => Ok(#f(vp_v)), Err(vp_e) => Err(vp_e) }));
                }
                ("and_then", 1) if clos(&m.args[0]).is_some() => {
                    let c = clos(&m.args[0]).unwrap();
                    let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver);
                    self.used.insert("Option::and_then with a closure -> match");
                    *e = parse_quote!((match #r { Some(#p) => #b, None => None }));
                }
                ("unwrap", 0) => {
                    if let Expr::MethodCall(t) = strip_paren(&m.receiver) {
                        if t.method == "try_into" {
                            match strip_paren(&t.receiver) {
                                Expr::MethodCall(b) if b.method == "into_boxed_slice" => {
                                    let x = &b.receiver;
                                    self.used.insert("`v.into_boxed_slice().try_into().unwrap()` -> vp_box_array(v), the length required instead");
                                    *e = parse_quote!(vp_box_array(#x));
                                }
                                Expr::Reference(x) if x.mutability.is_some() => {
                                    let x = peel(&x.expr);
                                    self.used.insert("`slice.as_mut().try_into().unwrap()` -> vp_arr_mut(slice), the length required instead");
                                    *e = parse_quote!(vp_arr_mut(&mut #x));
                                }
                                _ => {}
                            }
                        }
                    }
                }
                ("map_err", 1) if self.opts.contains("maperr") => {
                    let r = &m.receiver;
                    self.used.insert("Result::map_err -> match with an unspecified error value");
                    *e = parse_quote!((match #r { Ok(vp_v) => Ok(vp_v), Err(_) => Err(vp_any_error()) }));
                }
                ("read_be", 0) => {
                    let r = &m.receiver;
                    self.used.insert("`s.read_be::<T>()` -> `read_be::<T, _>(&mut s)` (codec contract)");
                    let rr: Expr = match &**r {
                        // a receiver that is already a `&mut` variable
                        Expr::Path(_) => parse_quote!(vp_mut!(#r)),
                        _ => parse_quote!(&mut #r),
                    };
                    *e = match &m.turbofish {
                        Some(t) => { let a = &t.args; parse_quote!(#rb::<#a, _>(#rr)) }
                        None => parse_quote!(#rb(#rr)),
                    };
                }
                ("write_be", 1) => {
                    let r = &m.receiver;
                    let a = &m.args[0];
                    self.used.insert("`s.write_be(v)` -> `write_be(&mut s, v)` (codec contract)");
                    let rr: Expr = match &**r {
                        Expr::Path(_) => parse_quote!(vp_mut!(#r)),
                        _ => parse_quote!(&mut #r),
                    };
                    *e = parse_quote!(write_be(#rr, #a));
                }
                _ => {}
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            let mac_toks = m.mac.tokens.clone();
            if n == "format" {
                self.used.insert("format! -> unspecified string");
                *e = parse_quote!(vp_any_string());
            }
            if n == "matches" {
                // matches!(x, P) -> match x { P => true, _ => false }
                let toks = mac_toks;
                if let Some((a, p)) = split_comma(toks) {
                    self.used.insert("matches! -> match");
                    let s = format!("(match {a} {{ {p} => true, _ => false }})");
                    if let Ok(mut x) = parse_str::<Expr>(&s) {
                        self.visit_expr_mut(&mut x);
                        *e = x;
                    }
                }
            }
        }
    }
}
fn split_comma(t: TokenStream) -> Option<(TokenStream, TokenStream)> {
    let mut a = TokenStream::new();
    let mut it = t.into_iter();
    while let Some(x) = it.next() {
        if let TokenTree::Punct(p) = &x {
            if p.as_char() == ',' {
                let mut b: Vec<TokenTree> = it.collect();
                if matches!(b.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') { b.pop(); }
                return Some((a, b.into_iter().collect()));
            }
        }
        a.extend(std::iter::once(x));
    }
    None
}

/// `let x = match y {..}` markers for loops and anchors
struct Mark<'a> {
    n: usize,
    c: usize,
    ann: &'a FnAnn,
    seen: BTreeSet<usize>,
}
fn mark(name: &str) -> Stmt {
    let i = format_ident!("{}", name);
    parse_quote!(vp_mark!(#i);)
}
impl<'a> VisitMut for Mark<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in b.stmts.drain(..) {
            // a loop statement: anchors before and after
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let k = self.n;
            if is_loop {
                for (i, (a, _)) in self.ann.at.iter().enumerate() {
                    if *a == format!("loop {k} before") {
                        self.seen.insert(i);
                        out.push(mark(&format!("at{i}")));
                    }
                }
            }
            let text: String = s.to_token_stream().to_string().split_whitespace().collect();
            let compound = text.contains("{");
            {
                for (i, (a, _)) in self.ann.at.iter().enumerate() {
                    if let Some(p) = a.strip_prefix("before ") {
                        let p = p.replace(' ', "");
                        let head = text.trim_start_matches('(').trim_start_matches("match").trim_start_matches('(');
                        if (if compound { text.starts_with(&p) || head.starts_with(&p) } else { text.contains(&p) }) && !self.seen.contains(&i) {
                            self.seen.insert(i);
                            out.push(mark(&format!("at{i}")));
                        }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let tail = matches!(&s, Stmt::Expr(x, None) if !matches!(x, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_))
                && !matches!(x, Expr::If(i) if i.else_branch.is_none()));
            out.push(s);
            if is_loop {
                for (i, (a, _)) in self.ann.at.iter().enumerate() {
                    if *a == format!("loop {k} after") {
                        self.seen.insert(i);
                        out.push(mark(&format!("at{i}")));
                    }
                }
            }
            if !tail {
                for (i, (a, _)) in self.ann.at.iter().enumerate() {
                    if let Some(p) = a.strip_prefix("each after ") {
                        if !compound && text.contains(&p.replace(' ', "")) {
                            self.seen.insert(i);
                            out.push(mark(&format!("at{i}")));
                        }
                    }
                    if let Some(p) = a.strip_prefix("after ") {
                        if text.contains(&p.replace(' ', "")) && !self.seen.contains(&i) {
                            self.seen.insert(i);
                            out.push(mark(&format!("at{i}")));
                        }
                    }
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.c;
        self.c += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        if let Some((params, res, _)) = self.ann.closures.get(&k) {
            let decl: Vec<(String, String)> = params.split(',').filter_map(|x| x.split_once(':').map(|y| (y.0.trim().to_string(), y.1.trim().to_string()))).collect();
            let mut out: punctuated::Punctuated<Pat, Token![,]> = Default::default();
            let mut lets: Vec<Stmt> = vec![];
            for (src, (n, t)) in c.inputs.iter().zip(&decl) {
                let f: ExprClosure = parse_str(&format!("|{n}: {t}| ()")).unwrap_or_else(|_| die("closure parameter"));
                out.push(f.inputs[0].clone());
                let bare = match src { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                if bare.to_token_stream().to_string() != *n {
                    let id = format_ident!("{}", n);
                    lets.push(parse_quote!(let #bare = #id;));
                }
            }
            c.inputs = out;
            let ty: Type = parse_str(res.split_once(':').unwrap().1.trim()).unwrap();
            c.output = parse_quote!(-> VpRetC<#ty>);
            let b = &c.body;
            let m = mark(&format!("clos{k}"));
            c.body = Box::new(parse_quote!({ #m #(#lets)* #b }));
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is_loop = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        let k = self.n;
        if is_loop {
            self.n += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        if is_loop {
            if let (Expr::ForLoop(f), Some(g)) = (&mut *e, self.ann.loop_iter.get(&k)) {
                let x = &f.expr;
                let id = format_ident!("vp_iter_{}", g);
                f.expr = parse_quote!(#id(#x));
            }
            let body = match e {
                Expr::ForLoop(f) => &mut f.body,
                Expr::While(f) => &mut f.body,
                Expr::Loop(f) => &mut f.body,
                _ => unreachable!(),
            };
            let mut pre = Vec::new();
            if self.ann.loops.contains_key(&k) {
                pre.push(mark(&format!("loopspec{k}")));
            }
            let mut post = Vec::new();
            for (i, (a, _)) in self.ann.at.iter().enumerate() {
                if *a == format!("loop {k} start") {
                    self.seen.insert(i);
                    pre.push(mark(&format!("at{i}")));
                }
                if *a == format!("loop {k} end") {
                    self.seen.insert(i);
                    post.push(mark(&format!("at{i}")));
                }
            }
            if !post.is_empty() {
                // a trailing expression without semicolon must become a statement
                if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            pre.append(&mut body.stmts);
            pre.append(&mut post);
            body.stmts = pre;
        }
    }
}

fn strip_attrs(f: &mut File) {
    // fields that exist only while parsing (`#[br(temp)]`) are not fields of the struct
    for it in f.items.iter_mut() {
        if let Item::Struct(s) = it {
            if let Fields::Named(n) = &mut s.fields {
                let temp = |x: &Field| codec::is_temp(&x.attrs);
                n.named = n.named.iter().filter(|x| !temp(x)).cloned().collect();
            }
        }
    }
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    S.visit_file_mut(f);
}

fn rustfmt(s: &str) -> String {
    use std::process::*;
    let mut c = Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=110"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("rustfmt");
    c.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() {
        // keep the raw text: formatting is cosmetic
        return s.to_string();
    }
    String::from_utf8(o.stdout).unwrap()
}

fn replace_before_brace(s: &mut String, marker: &str, text: &str) -> bool {
    let Some(i) = s.find(marker) else { return false };
    let b = s[..i].rfind('{').unwrap();
    assert!(s[b + 1..i].trim().is_empty());
    let e = i + marker.len();
    *s = format!("{}\n{}\n{{{}", s[..b].trim_end(), text.trim_end(), &s[e..]);
    true
}

fn matching(s: &str, open: usize, o: char, c: char) -> usize {
    let mut d = 0;
    for (i, ch) in s[open..].char_indices() {
        if ch == o { d += 1 }
        if ch == c {
            d -= 1;
            if d == 0 { return open + i; }
        }
    }
    die("unbalanced")
}

fn norm(s: &str) -> String {
    s.parse::<TokenStream>().map(|t| t.to_string()).unwrap_or_else(|_| s.to_string())
}

fn emit_fn(file: &File, ann: &FnAnn, meta: &mut String, used: &mut BTreeSet<&'static str>, substs: &mut Vec<String>) -> String {
    let (fpath, closure) = match ann.path.split_once('@') { Some((a, b)) => (a.to_string(), Some(b.to_string())), None => (ann.path.clone(), None) };
    let Some(mut fnd) = find_fn(file, &fpath) else { die(&format!("function {} not found in {}", ann.path, ann.file)) };
    let trusted = ann.opts.contains("trusted");
    for o in &ann.opts {
        if let Some(seed) = o.strip_prefix("noprogress:") {
            drop_progress(&mut fnd.f.block, seed);
            used.insert("statements that only compute and report progress dropped");
        }
        if let Some(x) = o.strip_prefix("only:") {
            let mut it = x.split(':');
            let seed = it.next().unwrap();
            let skip: Vec<&str> = it.next().map(|l| l.split('+').collect()).unwrap_or_default();
            only_progress(&mut fnd.f.block, seed, &skip);
            used.insert("only the statements that the reports of progress depend on are kept (an error return in a dropped one only cuts the reports short)");
        }
    }
    if let Some(name) = &closure {
        let mut fc = FindClosure { name: name.clone(), found: vec![], with: None };
        fc.visit_block_mut(&mut fnd.f.block);
        if std::env::var("VP_DEBUG").is_ok() { eprintln!("{} {}", fc.found.len(), fnd.f.block.to_token_stream()); }
        if fc.found.len() != 1 { die(&format!("{}: closure not found", ann.path)); }
        let c = fc.found.pop().unwrap();
        let mut f: ItemFn = parse_str(&format!("{} {{ }}", ann.sig.as_ref().unwrap())).unwrap_or_else(|e| die(&format!("sig: {e}")));
        let mut block: Block = match &*c.body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) };
        Capture { names: ann.captures.iter().map(|c| c.trim_start_matches(['&', '=']).to_string()).collect() }.visit_block_mut(&mut block);
        for (a, p) in f.sig.inputs.iter_mut().filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).zip(&c.inputs) {
            if matches!(p, Pat::Wild(_)) { continue; }
            if !matches!(p, Pat::Ident(_)) { die(&format!("{}: closure parameter", ann.path)); }
            a.pat = Box::new(p.clone());
        }
        f.block = Box::new(block);
        let imp: Option<ItemImpl> = ann.implhdr.as_ref().map(|h| parse_str(&format!("{h} {{ }}")).unwrap_or_else(|e| die(&format!("implhdr: {e}"))));
        fnd = Found { imp, f };
        used.insert("a callback closure -> method of a struct that holds the captured variables");
    }
    if let (Some(sig), None) = (&ann.sig, &closure) {
        // `impl Trait` parameters -> type parameters; names and number of the parameters stay
        let f: ItemFn = parse_str(&format!("{sig} {{ }}")).unwrap_or_else(|e| die(&format!("sig: {e}")));
        let names = |s: &Signature| s.inputs.iter().map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() }, FnArg::Receiver(r) => r.to_token_stream().to_string() }).collect::<Vec<_>>();
        if names(&f.sig) != names(&fnd.f.sig) { die(&format!("LOST {}: parameters changed", ann.path)); }
        fnd.f.sig = f.sig;
        used.insert("`impl Trait` in a parameter -> type parameter");
    }
    for o in &ann.opts {
        if let Some(x) = o.strip_prefix("liftclosure:") {
            let (name, ctor) = x.split_once(':').unwrap();
            let (ctor, own) = match ctor.split_once(':') { Some((c, l)) => (c, Some(l.split('+').map(String::from).collect::<Vec<_>>())), None => (ctor, None) };
            let args: Vec<Expr> = own.as_ref().unwrap_or(&ann.captures).iter().map(|c| {
                if let Some(c) = c.strip_prefix('=') { let i = format_ident!("{}", c); return parse_quote!(#i); }
                let c = c.trim_start_matches('*');
                if let Some(c) = c.strip_prefix('&') { let i = format_ident!("{}", c); return parse_quote!(&#i); }
                let i = format_ident!("{}", c);
                let byref = fnd.f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if t.pat.to_token_stream().to_string() == c && matches!(&*t.ty, Type::Reference(_))));
                if byref { parse_quote!(&mut *#i) } else { parse_quote!(&mut #i) }
            }).collect();
            let k = format_ident!("{}", ctor);
            let mut fc = FindClosure { name: name.into(), found: vec![], with: Some(parse_quote!(#k(#(#args),*))) };
            fc.visit_block_mut(&mut fnd.f.block);
            if fc.found.len() != 1 { die(&format!("{}: closure not found", ann.path)); }
        }
    }
    if trusted {
        fnd.f.block = parse_quote!({ unimplemented!() });
        for a in fnd.f.sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &mut *t.pat { i.mutability = None; } }
        }
    }
    let mut sh = Shape { loops: vec![], calls: BTreeSet::new() };
    sh.visit_item_fn(&fnd.f);
    if !trusted { let _ = write!(meta, "{{\"file\":\"{}\",\"path\":\"{}\",\"loops\":\"{}\",\"calls\":{:?}}},\n", ann.file, ann.path, sh.loops.join(","), sh.calls.iter().collect::<Vec<_>>()); }
    // substitutions on the token text
    if !ann.subst.is_empty() {
        let mut t = fnd.f.block.to_token_stream().to_string();
        for (a, b) in &ann.subst {
            let a2 = norm(a);
            if !t.contains(&a2) {
                die(&format!("{}: text `{a}` not found", ann.path));
            }
            t = t.replace(&a2, &norm(b));
            substs.push(format!("{}: `{}` -> `{}`", ann.path, a, b));
        }
        fnd.f.block = Box::new(parse_str(&t).unwrap_or_else(|e| die(&format!("{}: substitution result: {e}", ann.path))));
    }
    if ann.opts.contains("float") && !trusted {
        let mut f = Floats { vars: BTreeSet::new(), used: false };
        f.visit_block_mut(&mut fnd.f.block);
        if f.used { used.insert("arithmetic on f64 -> functions over the real numbers with rounding"); }
    }
    let mut rw = Rw { tmp: 0, result_map: true, used: BTreeSet::new(), opts: ann.opts.clone() };
    let mut locals = Locals { muts: BTreeSet::new(), fixed: BTreeSet::new() };
    locals.visit_block(&fnd.f.block);
    for x in &locals.fixed { rw.opts.insert(format!("local:{x}")); }
    for a in fnd.f.sig.inputs.iter() {
        if let FnArg::Typed(t) = a {
            let ty = t.ty.to_token_stream().to_string().replace(' ', "");
            if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                if r.mutability.is_some() && ty.contains("Vec<") {
                    rw.opts.insert(format!("itermut:{}", i.ident));
                }
            }
        }
    }
    rw.visit_block_mut(&mut fnd.f.block);
    used.extend(rw.used);
    for (n, b) in &ann.bounds {
        if let Some(t) = b.strip_prefix('=') {
            let t: Type = parse_str(t).unwrap_or_else(|_| die(&format!("bound {b}")));
            let g = &mut fnd.f.sig.generics;
            g.params = g.params.clone().into_iter().filter(|p| !matches!(p, GenericParam::Type(x) if x.ident == n)).collect();
            if let Some(w) = &mut g.where_clause {
                w.predicates = w.predicates.clone().into_iter().filter(|p| !matches!(p, WherePredicate::Type(x) if x.bounded_ty.to_token_stream().to_string() == *n)).collect();
            }
            struct Mono<'a> { n: &'a str, t: &'a Type }
            impl VisitMut for Mono<'_> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    let s = t.to_token_stream().to_string();
                    if s == self.n || matches!(t, Type::ImplTrait(_)) { *t = self.t.clone(); return; }
                    visit_mut::visit_type_mut(self, t);
                }
            }
            Mono { n, t: &t }.visit_item_fn_mut(&mut fnd.f);
            used.insert("a generic path parameter -> Path");
        }
    }
    fix_generics(&mut fnd.f.sig.generics, &ann.bounds);
    let mut mk = Mark { n: 0, c: 0, ann, seen: BTreeSet::new() };
    mk.visit_block_mut(&mut fnd.f.block);
    let nloops = mk.n;
    let mut seen = mk.seen;
    for k in ann.loops.keys() {
        if *k >= nloops {
            die(&format!("{}: loop {k} not found ({nloops} loops)", ann.path));
        }
    }
    let mut pre = vec![mark("fnspec")];
    let probe = std::env::var("VP_PROBE").unwrap_or_default();
    let probe = if trusted { String::new() } else { probe };
    for (i, (a, _)) in ann.at.iter().enumerate() {
        if a == "start" {
            seen.insert(i);
            pre.push(mark(&format!("at{i}")));
        }
    }
    if probe == "start" {
        pre.push(mark("probe"));
    }
    let mut stmts = std::mem::take(&mut fnd.f.block.stmts);
    if probe == "end" {
        let tail = matches!(stmts.last(), Some(Stmt::Expr(_, None)));
        let i = stmts.len() - tail as usize;
        stmts.insert(i, mark("probe"));
    }
    let ends: Vec<usize> = (0..ann.at.len()).filter(|i| ann.at[*i].0 == "end").collect();
    if !ends.is_empty() {
        let tail = match stmts.last() {
            Some(Stmt::Expr(_, None)) if !matches!(fnd.f.sig.output, ReturnType::Default) => stmts.pop(),
            _ => None,
        };
        if tail.is_none() {
            if let Some(Stmt::Expr(_, s @ None)) = stmts.last_mut() { *s = Some(Default::default()); }
        }
        if let Some(Stmt::Expr(t, None)) = tail {
            if ann.opts.contains("tailbind") {
                stmts.push(parse_quote!(let vp_ret = #t;));
                for i in &ends { seen.insert(*i); stmts.push(mark(&format!("at{i}"))); }
                stmts.push(Stmt::Expr(parse_quote!(vp_ret), None));
            } else {
                for i in &ends { seen.insert(*i); stmts.push(mark(&format!("at{i}"))); }
                stmts.push(Stmt::Expr(t, None));
            }
        } else {
            for i in &ends { seen.insert(*i); stmts.push(mark(&format!("at{i}"))); }
        }
    }
    for (i, (a, _)) in ann.at.iter().enumerate() {
        if !seen.contains(&i) {
            die(&format!("{}: anchor `{a}` not found", ann.path));
        }
    }
    pre.append(&mut stmts);
    fnd.f.block.stmts = pre;
    fnd.f.vis = parse_quote!(pub);
    if let Some(n) = &ann.rename {
        fnd.f.sig.ident = format_ident!("{}", n);
    }
    if let Some(t) = &ann.retty {
        let ty: Type = parse_str(t).unwrap_or_else(|e| die(&format!("retty {t}: {e}")));
        substs.push(format!("{}: return type `{}` -> `{}`", ann.path, fnd.f.sig.output.to_token_stream(), t));
        fnd.f.sig.output = parse_quote!(-> #ty);
    }
    let ret = ann.ret.clone().unwrap_or("r".into());
    if let ReturnType::Type(_, t) = &mut fnd.f.sig.output {
        let inner = t.clone();
        *t = parse_quote!(VpRet<#inner>);
    }
    let f = &fnd.f;
    let toks = match &mut fnd.imp {
        Some(im) => {
            fix_generics(&mut im.generics, &ann.bounds);
            if im.trait_.is_some() && !ann.opts.contains("keeptrait") {
                used.insert("trait impl methods -> inherent methods");
            }
            if closure.is_some() { im.trait_ = None; }
            let (g, w, t) = (&im.generics, &im.generics.where_clause, &im.self_ty);
            let gp = &g.params;
            quote!(impl<#gp> #t #w { #f })
        }
        None => quote!(#f),
    };
    let mut s = rustfmt(&toks.to_string());
    // contracts back in
    let m = |n: &str| -> Option<String> {
        for v in [format!("vp_mark!({n});"), format!("vp_mark ! ({n}) ;"), format!("vp_mark! ({n}) ;")] {
            if s.contains(&v) { return Some(v); }
        }
        None
    };
    let fm = m("fnspec").unwrap_or_else(|| die("marker"));
    let loops: Vec<(String, String)> = ann.loops.iter().map(|(k, t)| (m(&format!("loopspec{k}")).unwrap_or_else(|| die("loop marker")), t.clone())).collect();
    let ats: Vec<(String, String)> = ann.at.iter().enumerate().map(|(i, (_, t))| (m(&format!("at{i}")).unwrap_or_else(|| die("marker")), t.clone())).collect();
    replace_before_brace(&mut s, &fm, &ann.spec);
    for (mk, t) in loops {
        replace_before_brace(&mut s, &mk, &t);
    }
    for (mk, t) in ats {
        s = s.replace(&mk, &t);
    }
    if let Some(m) = ["vp_mark!(probe);", "vp_mark ! (probe) ;", "vp_mark! (probe) ;"].iter().find(|v| s.contains(**v)) {
        s = s.replacen(*m, "assert(false);", 1);
    }
    for (_, (_, res, spec)) in &ann.closures {
        let Some(i) = s.find("VpRetC<") else { die(&format!("{}: closure not found", ann.path)) };
        let e = matching(&s, i + 6, '<', '>');
        s = format!("{}({}){}", &s[..i], res, &s[e + 1..]);
        // the next closure marker after this point belongs to it
        let j = s[i..].find("vp_mark").map(|x| x + i).unwrap_or_else(|| die("closure marker"));
        let z = s[j..].find(';').unwrap() + j + 1;
        let mk = s[j..z].to_string();
        replace_before_brace(&mut s, &mk, spec);
    }
    // return name
    if let Some(i) = s.find("VpRet<") {
        let e = matching(&s, i + 5, '<', '>');
        s = format!("{}({}: {}){}", &s[..i], ret, &s[i + 6..e], &s[e + 1..]);
    }
    while let Some(i) = s.find("vp_iter_") {
        let o = i + s[i..].find('(').unwrap();
        let e = matching(&s, o, '(', ')');
        s = format!("{}{}: {}{}", &s[..i], &s[i + 8..o], &s[o + 1..e], &s[e + 1..]);
    }
    while let Some(i) = s.find("vp_mut!(").or_else(|| s.find("vp_mut ! (")) {
        let o = i + s[i..].find('(').unwrap();
        let e = matching(&s, o, '(', ')');
        let v = s[o + 1..e].trim().to_string();
        // by-reference parameters are reborrowed, owned locals borrowed
        let owned = ann.opts.contains(&format!("owned:{v}")) || locals.muts.contains(&v);
        let rep = if owned { format!("&mut {v}") } else { v };
        s = format!("{}{}{}", &s[..i], rep, &s[e + 1..]);
    }
    if !ann.attrs.is_empty() {
        // attributes go on the function, inside the impl if there is one
        let i = s.find("pub fn").or_else(|| s.find("pub const fn")).unwrap();
        s = format!("{}{}\n{}", &s[..i], ann.attrs.trim(), &s[i..]);
    }
    s
}

/// `#[derive(Clone, Copy)]` where the source derives Copy
fn copy_attr(raw: &File, name: &str) -> Vec<Attribute> {
    for it in &raw.items {
        let (id, at) = match it { Item::Struct(s) => (&s.ident, &s.attrs), Item::Enum(s) => (&s.ident, &s.attrs), _ => continue };
        if id == name && at.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Copy")) {
            return vec![parse_quote!(#[derive(Clone, Copy)])];
        }
    }
    vec![]
}
fn emit_item(file: &File, raw: &File, kind: &str, name: &str, opts: &[String]) -> String {
    for it in &file.items {
        match it {
            Item::Struct(s) if kind == "struct" && s.ident == name => {
                let mut s = s.clone();
                fix_generics(&mut s.generics, &[]);
                s.attrs = copy_attr(raw, name);
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                return rustfmt(&s.to_token_stream().to_string());
            }
            Item::Enum(s) if kind == "enum" && s.ident == name => {
                let mut s = s.clone();
                s.attrs = copy_attr(raw, name);
                s.vis = parse_quote!(pub);
                return rustfmt(&s.to_token_stream().to_string());
            }
            Item::Const(c) if kind == "const" && c.ident == name => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                let _ = opts;
                return rustfmt(&c.to_token_stream().to_string());
            }
            Item::Type(c) if kind == "type" && c.ident == name => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                return rustfmt(&c.to_token_stream().to_string());
            }
            _ => {}
        }
    }
    die(&format!("{kind} {name} not found"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (unit, src, out, metaf) = (&a[1], &a[2], &a[3], &a[4]);
    let mut pieces = Vec::new();
    parse_unit(unit, &mut pieces, false);
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut raw: BTreeMap<String, File> = BTreeMap::new();
    let mut known = codec::Known::default();
    for p in &pieces {
        let f = match p {
            Piece::Fn(f) => &f.file,
            Piece::Item { file, .. } => file,
            _ => continue,
        };
        if !files.contains_key(f) {
            let t = std::fs::read_to_string(format!("{src}/{f}")).unwrap_or_else(|e| die(&format!("{f}: {e}")));
            let mut x = syn::parse_file(&t).unwrap_or_else(|e| die(&format!("{f}: {e}")));
            raw.insert(f.clone(), x.clone());
            strip_attrs(&mut x);
            files.insert(f.clone(), x);
        }
    }
    let mut o = String::from("// GENERATED from the current source by extract; do not edit\n");
    let mut meta = String::new();
    let mut used = BTreeSet::new();
    let mut substs = Vec::new();
    let mut map = String::new();
    let mut trust: Vec<String> = Vec::new();
    for p in &pieces {
        match p {
            Piece::Text(t) => o.push_str(t),
            Piece::Fn(f) => {
                let t = emit_fn(&files[&f.file], f, &mut meta, &mut used, &mut substs);
                let l0 = o.lines().count() + 1;
                let _ = write!(o, "// ---- from {} : {}\n{}\n", f.file, f.path, t);
                let l1 = o.lines().count();
                if f.opts.contains("trusted") { trust.push(format!("{}:{}", f.file, f.path)); continue; }
                let _ = write!(map, "{{\"fn\":\"{}\",\"file\":\"{}\",\"from\":{l0},\"to\":{l1}}},\n", f.path, f.file);
            }
            Piece::Item { kind, file, name, opts } if kind == "codec" => {
                let _ = write!(o, "// ---- layout of {name} from the binrw attributes in {file}\n{}\n", codec::gen(&raw[file], name, &mut known, opts.iter().any(|o| o == "alone")));
            }
            Piece::Item { kind, file, name, opts } => {
                let _ = write!(o, "// ---- from {file} : {kind} {name}\n{}\n", emit_item(&files[file], &raw[file], kind, name, opts));
            }
        }
    }
    std::fs::write(out, o).unwrap();
    let _ = quote!();
    std::fs::write(
        metaf,
        format!(
            "{{\"shapes\":[{}],\"map\":[{}],\"rewrites\":{:?},\"substitutions\":{:?},\"by_contract\":{:?}}}\n",
            meta.trim_end_matches(",\n"),
            map.trim_end_matches(",\n"),
            used.iter().collect::<Vec<_>>(),
            substs,
            trust
        ),
    )
    .unwrap();
}
