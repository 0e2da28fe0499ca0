//! `//@ codec FILE NAME`: the record NAME and the byte layout its binrw attributes declare, as the
//! specification functions `parses` and `writes` (BeRead, BeWrite of contracts/codec.vrs).
//! Every attribute is either understood here or extraction stops.
use crate::{die, split_comma};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::*;

/// bytes of a record: a number, or a number plus a term in the value
#[derive(Clone, Default)]
pub struct Size { pub c: u64, pub var: Vec<String> }
impl Size {
    /// `@R..@W..@E` in a term: the text for reading and the text for writing
    fn text(&self, base: &str) -> String {
        let mut s = if base.is_empty() { format!("{:#x}", self.c) } else { format!("{base} + {:#x}", self.c) };
        for v in &self.var { s += &format!(" + {v}"); }
        s
    }
}
fn pick(s: &str, read: bool) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("@R") {
        let (w, e) = (r.find("@W").unwrap(), r.find("@E").unwrap());
        o += &r[..i];
        o += if read { &r[i + 2..w] } else { &r[w + 2..e] };
        r = &r[e + 2..];
    }
    o + r
}
#[derive(Default)]
pub struct Known { pub sizes: BTreeMap<String, Size> }

#[derive(Default)]
struct At { pad_before: u64, pad_after: u64, pad_size_to: Option<u64>, temp: bool, count: Option<Expr>, calc: Option<Expr>, try_calc: Option<Expr>, br_try_calc: Option<Expr>, br_calc: Option<Expr>, ignore: bool, br_map: Option<ExprClosure>, bw_map: Option<ExprClosure> }

fn num(t: TokenStream, what: &str) -> u64 {
    let e: Lit = parse2(t).unwrap_or_else(|_| die(&format!("codec: number in {what}")));
    match e { Lit::Int(i) => i.base10_parse().unwrap_or_else(|_| die("codec: number")), _ => die(&format!("codec: number in {what}")) }
}
fn split_all(t: TokenStream) -> Vec<TokenStream> {
    let mut v = vec![];
    let mut t = t;
    while let Some((a, b)) = split_comma(t.clone()) { v.push(a); t = b; }
    if !t.is_empty() { v.push(t); }
    v
}
fn attrs(a: &[Attribute], who: &str) -> At {
    let mut r = At::default();
    for x in a {
        let k = x.path().to_token_stream().to_string();
        if ["doc", "rustfmt :: skip", "allow"].contains(&k.as_str()) { continue; }
        if !["br", "bw", "brw"].contains(&k.as_str()) { die(&format!("codec: attribute {k} of {who}")); }
        let Meta::List(l) = &x.meta else { die(&format!("codec: attribute of {who}")) };
        for it in split_all(l.tokens.clone()) {
            let mut ts = it.clone().into_iter();
            let Some(TokenTree::Ident(n)) = ts.next() else { die(&format!("codec: attribute of {who}")) };
            let rest: TokenStream = match ts.next() {
                None => TokenStream::new(),
                Some(TokenTree::Punct(p)) if p.as_char() == '=' => ts.collect(),
                Some(TokenTree::Group(g)) if ts.next().is_none() => g.stream(),
                _ => die(&format!("codec: attribute of {who}")),
            };
            let expr = || -> Expr { parse2(rest.clone()).unwrap_or_else(|_| die(&format!("codec: expression at {who}"))) };
            match (k.as_str(), n.to_string().as_str()) {
                ("brw", "pad_before") => r.pad_before = num(rest, who),
                ("brw", "pad_after") => r.pad_after = num(rest, who),
                ("brw", "pad_size_to") => r.pad_size_to = Some(num(rest, who)),
                ("br", "temp") => r.temp = true,
                ("br", "count") => r.count = Some(expr()),
                ("bw", "calc") => r.calc = Some(expr()),
                ("bw", "try_calc") => r.try_calc = Some(expr()),
                ("br", "try_calc") => r.br_try_calc = Some(expr()),
                ("br", "calc") => r.br_calc = Some(expr()),
                ("bw", "ignore") => r.ignore = true,
                ("br", "map") | ("bw", "map") => {
                    let c: ExprClosure = parse2(rest.clone()).unwrap_or_else(|_| die(&format!("codec: map at {who}")));
                    if k == "br" { r.br_map = Some(c) } else { r.bw_map = Some(c) }
                }
                (k, n) => die(&format!("codec: {k}({n}) of {who}")),
            }
        }
    }
    r
}
/// whether a field exists only while reading or writing
pub fn is_temp(a: &[Attribute]) -> bool {
    a.iter().any(|x| {
        let t = x.to_token_stream().to_string().replace(' ', "");
        t.starts_with("#[br(temp") || t.starts_with("#[brw(temp") || t.starts_with("#[bw(calc=") || t.starts_with("#[bw(try_calc=")
    })
}

fn prim(t: &str) -> Option<u64> { Some(match t { "u8" => 1, "u16" => 2, "u32" => 4, "u64" => 8, _ => return None }) }
fn be(k: u64, q: &str) -> String { if k == 1 { format!("d[{q}] as int") } else { format!("be{}(d, {q})", 8 * k) } }
fn tyname(t: &Type) -> String { t.to_token_stream().to_string().replace(' ', "") }

/// the source expression over the fields, as a specification over `v` and the temporaries
fn over_fields(e: &Expr, fields: &[(String, String)], temps: &BTreeMap<String, String>, lit: &str) -> String {
    let mut out = String::new();
    fn go(t: TokenStream, fields: &[(String, String)], temps: &BTreeMap<String, String>, lit: &str, out: &mut String) {
        let mut prev = String::new();
        for x in t {
            if matches!(&x, TokenTree::Punct(p) if p.as_char() == '*') && !["0", ")"].contains(&prev.as_str()) { continue; }
            match &x {
                TokenTree::Ident(i) => {
                    let n = i.to_string();
                    if prev != "." && prev != ":" {
                        if let Some(t) = temps.get(&n) { *out += &format!("({t})"); prev = ")".into(); continue; }
                        if fields.iter().any(|f| f.0 == n) { *out += &format!("v.{n}"); prev = ")".into(); continue; }
                    }
                    *out += &format!(" {n} ");
                    prev = n;
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("(", ")") };
                    *out += a;
                    go(g.stream(), fields, temps, lit, out);
                    *out += b;
                    prev = ")".into();
                }
                TokenTree::Literal(l) => { let t = l.to_string(); *out += &(if t.ends_with(|c: char| c.is_ascii_hexdigit()) && !t.contains('u') && !t.contains('i') { t + lit } else { t }); prev = "0".into(); }
                x => { *out += &x.to_string(); prev = x.to_string(); }
            }
        }
    }
    go(e.to_token_stream(), fields, temps, lit, &mut out);
    out
}
/// `f(&a, *b, c)` -> `f_spec(..)`
fn call_spec(e: &Expr, fields: &[(String, String)], temps: &BTreeMap<String, String>) -> String {
    let Expr::Call(c) = e else { die("codec: try_calc that is not a call") };
    let mut a = vec![];
    for x in &c.args {
        let mut x = x;
        loop { match x { Expr::Reference(r) => x = &r.expr, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => x = &u.expr, Expr::Paren(p) => x = &p.expr, _ => break } }
        let n = x.to_token_stream().to_string();
        if let Some(t) = temps.get(&n) { a.push(t.clone()); continue; }
        match fields.iter().find(|f| f.0 == n) {
            Some(f) if f.1.starts_with('[') => a.push(format!("v.{n}@")),
            Some(_) => a.push(format!("v.{n}")),
            None => die("codec: argument of try_calc"),
        }
    }
    format!("{}_spec({})", c.func.to_token_stream(), a.join(", "))
}

pub fn gen(file: &File, name: &str, known: &mut Known, alone: bool) -> String {
    for it in &file.items {
        match it {
            Item::Enum(e) if e.ident == name => {
                let mut repr = false;
                for a in &e.attrs {
                    let t = a.to_token_stream().to_string().replace(' ', "");
                    match t.as_str() { "#[brw(repr=u32)]" => repr = true, "#[binrw]" => {} _ if t.starts_with("#[derive") || t.starts_with("#[doc") => {} _ => die(&format!("codec: {t}")) }
                }
                if !repr { die(&format!("codec: representation of {name}")); }
                let mut next = 0u64;
                let mut arms = String::new();
                for v in &e.variants {
                    let d = match &v.discriminant { Some((_, x)) => num(x.to_token_stream(), name), None => next };
                    let _ = write!(arms, "{name}::{} => {d:#x}int, ", v.ident);
                    next = d + 1;
                }
                known.sizes.insert(name.into(), Size { c: 4, var: vec![] });
                return format!(
                    "pub open spec fn {name}_discr(v: {name}) -> int {{ match v {{ {arms} }} }}\n\
                     impl BeRead for {name} {{ open spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool {{ n == 4 && 0 <= p && p + 4 <= d.len() && be32(d, p) == {name}_discr(v) }}\n open spec fn total() -> bool {{ false }} }}\n\
                     impl BeWrite for {name} {{ open spec fn writes(&self, b: Seq<u8>) -> bool {{ b.len() == 4 && be32(b, 0) == {name}_discr(*self) }} }}\n");
            }
            Item::Struct(s) if s.ident == name => {
                for a in &s.attrs {
                    let t = a.to_token_stream().to_string().replace(' ', "");
                    if !(t == "#[binrw]" || t.starts_with("#[derive") || t.starts_with("#[doc")) { die(&format!("codec: {t} of {name}")); }
                }
                return fields(name, &s.fields, known, alone);
            }
            _ => {}
        }
    }
    die(&format!("codec {name} not found"))
}

fn fields(name: &str, fs: &Fields, known: &mut Known, alone: bool) -> String {
    let list: Vec<(String, String)> = fs.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), tyname(&f.ty))).collect();
    let mut extra = String::new();
    let (mut rd, mut wr) = (vec!["0 <= p".to_string()], vec![]);
    let mut at = Size::default();
    let mut temps: BTreeMap<String, String> = BTreeMap::new();
    let mut last_temp = "int".to_string();
    for (f, (n, ty)) in fs.iter().zip(&list) {
        let who = format!("{name}.{n}");
        let a = attrs(&f.attrs, &who);
        let zero = |wr: &mut Vec<String>, at: &Size, k: u64| {
            if k > 0 { wr.push(format!("zero_run(d, {}, {:#x})", at.text("p"), k)); }
        };
        zero(&mut wr, &at, a.pad_before);
        at.c += a.pad_before;
        let q = at.text("p");
        let start = at.clone();
        let is_tmp = a.temp || a.calc.is_some() || a.try_calc.is_some();
        if let Some(x) = &a.br_try_calc {
            if !a.ignore || is_tmp { die(&format!("codec: try_calc of {who}")); }
            rd.push(format!("{} == Some(v.{n}@)", call_spec(x, &list, &temps)));
            continue;
        }
        if let Some(x) = &a.br_calc {
            if !a.ignore || is_tmp { die(&format!("codec: calc of {who}")); }
            rd.push(format!("v.{n} == ({})", over_fields(x, &list, &temps, &last_temp)));
            continue;
        }
        if a.ignore { die(&format!("codec: ignore of {who}")); }
        let fit = |k: &str| format!("{q} + {k} <= d.len()");
        if let Some(k) = prim(ty) {
            match (&a.br_map, &a.bw_map) {
                (None, None) => {
                    if is_tmp {
                        let Some(c) = &a.calc else { die(&format!("codec: {who}")) };
                        rd.push(fit(&k.to_string()));
                        wr.push(format!("{} == ({})", be(k, &q), over_fields(c, &list, &temps, ty)));
                        temps.insert(n.clone(), format!("({}) as {ty}", be(k, &q)));
                        last_temp = ty.clone();
                    } else {
                        rd.push(fit(&k.to_string()));
                        rd.push(format!("v.{n} == {}", be(k, &q)));
                        wr.push(format!("v.{n} == {}", be(k, &q)));
                    }
                    at.c += k;
                }
                (Some(r), Some(w)) if !is_tmp => {
                    // the stored type is the parameter of one and the result of the other
                    let pt = |c: &ExprClosure| match &c.inputs[0] { Pat::Type(t) => (t.pat.to_token_stream().to_string(), tyname(&t.ty)), _ => die(&format!("codec: map of {who}")) };
                    let ((rn, rt), (wn, wt)) = (pt(r), pt(w));
                    let Some(k) = prim(&rt) else { die(&format!("codec: map of {who}")) };
                    let wout = match &w.output { ReturnType::Type(_, t) => tyname(t), _ => die(&format!("codec: map of {who}")) };
                    if wt != format!("&{ty}") || wout != rt { die(&format!("codec: map of {who}")); }
                    let _ = write!(extra, "pub open spec fn {name}_{n}_br({rn}: {rt}) -> {ty} {{ {} }}\n", r.body.to_token_stream());
                    let _ = write!(extra, "pub open spec fn {name}_{n}_bw({wn}: {ty}) -> {rt} {{ {} }}\n", w.body.to_token_stream());
                    rd.push(fit(&k.to_string()));
                    rd.push(format!("v.{n} == {name}_{n}_br(({}) as {rt})", be(k, &q)));
                    wr.push(format!("{} == {name}_{n}_bw(v.{n})", be(k, &q)));
                    at.c += k;
                }
                _ => die(&format!("codec: map of {who}")),
            }
        } else if ty == "String" {
            let (Some(r), Some(w)) = (&a.br_map, &a.bw_map) else { die(&format!("codec: {who}")) };
            let t = |x: &ExprClosure| x.to_token_stream().to_string().replace(' ', "");
            if t(r) != "|s|NullString::to_string(&s)" || t(w) != "|s|NullString::from(s.clone())" { die(&format!("codec: map of {who}")); }
            let Some(k) = a.pad_size_to else { die(&format!("codec: size of {who}")) };
            // a text that does not fit moves what follows
            rd.push(format!("text_read(d, {q}, v.{n}@)"));
            wr.push(format!("text_written(d, {q}, {k:#x}, v.{n}@)"));
            at.c += k;
            at.var.push(format!("@Rcstr_over(d, {q}, {k:#x})@Wtext_over(v.{n}@, {k:#x})@E"));
        } else if let Type::Array(ar) = &f.ty {
            let Expr::Lit(ExprLit { lit: Lit::Int(len), .. }) = &ar.len else { die(&format!("codec: length of {who}")) };
            let len: u64 = len.base10_parse().unwrap();
            let et = tyname(&ar.elem);
            if et == "u8" {
                rd.push(fit(&format!("{len:#x}")));
                if is_tmp {
                    let Some(c) = &a.try_calc else { die(&format!("codec: {who}")) };
                    wr.push(format!("{} == Some(d.subrange({q}, {q} + {len:#x}))", call_spec(c, &list, &temps)));
                    temps.insert(n.clone(), format!("d.subrange({q}, {q} + {len:#x})"));
                } else {
                    rd.push(format!("v.{n}@ == d.subrange({q}, {q} + {len:#x})"));
                    wr.push(format!("v.{n}@ == d.subrange({q}, {q} + {len:#x})"));
                }
                at.c += len;
            } else if let (Some(k), false) = (prim(&et), is_tmp) {
                rd.push(fit(&format!("{:#x}", k * len)));
                let c = format!("(forall|i: int| 0 <= i < {len} ==> #[trigger] v.{n}@[i] == {})", be(k, &format!("{q} + {k} * i")));
                rd.push(c.clone());
                wr.push(c);
                at.c += k * len;
            } else {
                let Some(sz) = known.sizes.get(&et).filter(|s| s.var.is_empty() && !is_tmp) else { die(&format!("codec: type of {who}")) };
                let k = sz.c;
                rd.push(format!("(forall|i: int| 0 <= i < {len} ==> {et}::parses(d, {q} + {k} * i, #[trigger] v.{n}@[i], {k}))"));
                wr.push(format!("(forall|i: int| 0 <= i < {len} ==> (#[trigger] v.{n}@[i]).writes(d.subrange({q} + {k} * i, {q} + {k} * i + {k})))"));
                at.c += k * len;
            }
        } else if let Some(et) = ty.strip_prefix("Vec<").and_then(|x| x.strip_suffix('>')) {
            let Some(c) = &a.count else { die(&format!("codec: count of {who}")) };
            if is_tmp { die(&format!("codec: {who}")); }
            rd.push(format!("v.{n}@.len() == ({}) as int", over_fields(c, &list, &temps, "int")));
            if et == "u8" {
                rd.push(fit(&format!("v.{n}@.len()")));
                rd.push(format!("v.{n}@ == d.subrange({q}, {q} + v.{n}@.len())"));
                wr.push(format!("v.{n}@ == d.subrange({q}, {q} + v.{n}@.len())"));
                at.var.push(format!("v.{n}@.len()"));
            } else {
                let Some(sz) = known.sizes.get(et).filter(|s| s.var.is_empty()) else { die(&format!("codec: type of {who}")) };
                let k = sz.c;
                rd.push(format!("(forall|i: int| 0 <= i < v.{n}@.len() ==> {et}::parses(d, {q} + {k} * i, #[trigger] v.{n}@[i], {k}))"));
                wr.push(format!("(forall|i: int| 0 <= i < v.{n}@.len() ==> (#[trigger] v.{n}@[i]).writes(d.subrange({q} + {k} * i, {q} + {k} * i + {k})))"));
                at.var.push(format!("{k} * v.{n}@.len()"));
            }
        } else if let Some(sz) = known.sizes.get(ty).cloned() {
            if !sz.var.is_empty() || is_tmp || a.br_map.is_some() { die(&format!("codec: {who}")); }
            rd.push(format!("{ty}::parses(d, {q}, v.{n}, {:#x})", sz.c));
            wr.push(format!("v.{n}.writes(d.subrange({q}, {q} + {:#x}))", sz.c));
            at.c += sz.c;
        } else {
            die(&format!("codec: type of {who}"));
        }
        if let Some(k) = a.pad_size_to {
            if ty != "String" {
                if start.var != at.var || at.c - start.c > k { die(&format!("codec: pad_size_to of {who}")); }
                let done = at.c - start.c;
                zero(&mut wr, &at, k - done);
                at.c = start.c + k;
            }
        }
        zero(&mut wr, &at, a.pad_after);
        at.c += a.pad_after;
    }
    known.sizes.insert(name.into(), at.clone());
    rd.push(format!("n == {}", at.text("")));
    wr.push(format!("b.len() == {}", at.text("")));
    if alone {
        return format!(
            "{extra}pub open spec fn {name}_parses(d: Seq<u8>, p: int, v: {name}, n: int) -> bool {{\n    {}\n}}\n\
             pub open spec fn {name}_writes(v: {name}, b: Seq<u8>) -> bool {{\n    let d = b; let p = 0int;\n    {}\n}}\n",
            pick(&rd.join("\n    && "), true), pick(&wr.join("\n    && "), false));
    }
    format!(
        "{extra}impl BeRead for {name} {{ open spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool {{\n    {}\n}}\n open spec fn total() -> bool {{ false }} }}\n\
         impl BeWrite for {name} {{ open spec fn writes(&self, b: Seq<u8>) -> bool {{ {name}_writes(*self, b) }} }}\n\
         pub open spec fn {name}_writes(v: {name}, b: Seq<u8>) -> bool {{\n    let d = b; let p = 0int;\n    {}\n}}\n",
        pick(&rd.join("\n    && "), true), pick(&wr.join("\n    && "), false))
}
