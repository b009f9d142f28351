//! vh: a line server over the public API of doctor-syn.
//!
//! One request per line, tab-separated fields ("\\", "\n", "\t" escaped with a backslash);
//! one response per line: "OK\t..." | "ERR\t..." | "PANIC\t...".
//! Nothing in here decides anything: it only calls the library and prints what came back.

use doctor_syn::bdmath::{self, BigDecimal};
use doctor_syn::polynomial::Polynomial;
use doctor_syn::{Expression, Name, Parity, VariableList};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<Vec<String>, String>;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some(c) => out.push(c),
                None => (),
            }
        } else {
            out.push(c)
        }
    }
    out
}

fn e2s<E: std::fmt::Display>(e: E) -> String {
    format!("{}", e)
}

fn parse(s: &str) -> Result<Expression, String> {
    s.parse::<Expression>().map_err(|_| format!("harness: cannot parse {}", s))
}

fn name(s: &str) -> Result<Name, String> {
    Ok(Name::from(syn::parse_str::<syn::Path>(s).map_err(e2s)?))
}

fn bd(s: &str) -> Result<BigDecimal, String> {
    s.parse::<BigDecimal>().map_err(|_| format!("harness: bad decimal {}", s))
}

fn int(s: &str) -> Result<i64, String> {
    s.parse::<i64>().map_err(e2s)
}

fn parity(s: &str) -> Parity {
    match s {
        "odd" => Parity::Odd,
        "even" => Parity::Even,
        _ => Parity::Neither,
    }
}

fn vars(fields: &[String]) -> Result<VariableList, String> {
    let mut v = VariableList::new();
    let mut i = 0;
    while i + 1 < fields.len() {
        v.add_var(name(&fields[i])?, parse(&fields[i + 1])?);
        i += 2;
    }
    Ok(v)
}

/// One transformation, written "op arg arg" with "|" between arguments.
fn step(e: &Expression, op: &str) -> Result<Expression, String> {
    let p: Vec<String> = op.split('|').map(str::to_string).collect();
    match p[0].as_str() {
        "expand" => e.expand().map_err(e2s),
        "paren" => e.paren().map_err(e2s),
        "collect" => e.collect_terms(name(&p[1])?).map_err(e2s),
        "subst" => e.subst(vars(&p[1..])?).map_err(e2s),
        "unt" => e.use_number_type(&p[1], int(&p[2])? as usize).map_err(e2s),
        "eval" => e.eval(int(&p[1])?).map_err(e2s),
        // the overloaded operators, with the current expression on the left or on the right
        "op" | "rop" => {
            let other = parse(&p[2])?;
            let (l, r) = if p[0] == "op" { (e.clone(), other) } else { (other, e.clone()) };
            Ok(match p[1].as_str() {
                "+" => l + r,
                "-" => l - r,
                "*" => l * r,
                "/" => l / r,
                _ => return Err("harness: op".into()),
            })
        }
        "reparse" => e.to_string().parse::<Expression>().map_err(|_| format!("cannot read back {}", e)),
        "into" => Ok(Expression::from(e.clone().into_inner())),
        _ => Err(format!("harness: no step {}", op)),
    }
}

/// The tokens of a stream, one per string; a group is its delimiters and contents,
/// and an invisible group is only its contents.
fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push(a.into());
                flat(g.stream(), out);
                out.push(b.into());
            }
            // The spacing is part of what a token is: "+=" is not "+ =".
            TokenTree::Punct(p) => {
                out.push(format!("{}{}", p.as_char(), if p.spacing() == proc_macro2::Spacing::Joint { "&" } else { "" }))
            }
            other => out.push(other.to_string()),
        }
    }
}

fn flat_strings(ts: TokenStream) -> Vec<String> {
    let mut v = Vec::new();
    flat(ts, &mut v);
    // Spacing before anything but another punctuation character means nothing.
    let mut out: Vec<String> = Vec::new();
    for (i, s) in v.iter().enumerate() {
        if s.len() == 2 && s.ends_with('&') {
            let next_is_punct = v.get(i + 1).map_or(false, |n| {
                n.len() <= 2 && n.chars().next().map_or(false, |c| c.is_ascii_punctuation() && !"(){}[]\"'".contains(c))
            });
            // A lifetime's quote is joined to its identifier.
            if next_is_punct || s.starts_with('\'') {
                out.push(s.clone());
            } else {
                out.push(s[..1].to_string());
            }
        } else if !s.is_empty() {
            out.push(s.clone());
        }
    }
    out
}

/// A stream built from parts, as quote! and the rewriters build them:
/// iNAME lLITERAL p+j (joint) p+a (alone) ( ) [ ] { } and < > for an invisible group.
fn build_stream(parts: &mut std::iter::Peekable<std::str::Split<'_, char>>, end: &str) -> Result<TokenStream, String> {
    use proc_macro2::{Group, Ident, Literal, Punct, Spacing, Span};
    let mut out: Vec<TokenTree> = Vec::new();
    loop {
        let p = match parts.next() {
            Some(p) => p,
            None if end.is_empty() => break,
            None => return Err("harness: open group".into()),
        };
        if p == end {
            break;
        }
        let rest = p.get(1..).unwrap_or("");
        out.push(match p.chars().next() {
            Some('i') => TokenTree::Ident(Ident::new(rest, Span::call_site())),
            Some('l') => TokenTree::Literal(rest.parse::<Literal>().map_err(|_| "harness: literal".to_string())?),
            Some('p') => {
                let mut c = rest.chars();
                let ch = c.next().ok_or("harness: punct")?;
                TokenTree::Punct(Punct::new(ch, if c.next() == Some('j') { Spacing::Joint } else { Spacing::Alone }))
            }
            Some('(') => TokenTree::Group(Group::new(Delimiter::Parenthesis, build_stream(parts, ")")?)),
            Some('[') => TokenTree::Group(Group::new(Delimiter::Bracket, build_stream(parts, "]")?)),
            Some('{') => TokenTree::Group(Group::new(Delimiter::Brace, build_stream(parts, "}")?)),
            Some('<') => TokenTree::Group(Group::new(Delimiter::None, build_stream(parts, ">")?)),
            _ => return Err("harness: part".into()),
        });
    }
    Ok(out.into_iter().collect())
}

/// Visitors of our own: one that notes what it is asked to visit, and those that treat one kind of expression.
mod visitors {
    use doctor_syn::error::{Error, Result};
    use doctor_syn::visitor::Visitor;
    use quote::ToTokens;
    use std::cell::RefCell;
    use syn::*;

    pub struct Plain;
    impl Visitor for Plain {}

    pub struct Trace(pub RefCell<Vec<String>>);
    impl Visitor for Trace {
        fn visit_expr(&self, expr: &Expr) -> Result<Expr> {
            self.0.borrow_mut().push(expr.to_token_stream().to_string());
            self.visit_expr_core(expr)
        }
    }

    fn wrap(e: impl ToTokens) -> Result<Expr> {
        let t = e.to_token_stream();
        Ok(parse_quote!(q::r(#t)))
    }

    macro_rules! treat {
        ($($s:ident $f:ident $t:ty),*) => { $(
            pub struct $s;
            impl Visitor for $s {
                fn $f(&self, e: &$t) -> Result<Expr> { wrap(e) }
            }
        )* };
    }
    treat!(Lits visit_lit ExprLit, Paths visit_path ExprPath, Unaries visit_unary ExprUnary, Binaries visit_binary ExprBinary,
           Methods visit_method_call ExprMethodCall, Fields visit_field ExprField, Parens visit_paren ExprParen);

    /// Refuses one literal.
    pub struct Refuse(pub String);
    impl Visitor for Refuse {
        fn visit_lit(&self, e: &ExprLit) -> Result<Expr> {
            if e.to_token_stream().to_string() == self.0 { Err(Error::CouldNotParse(format!("refused {}", self.0))) } else { Ok(e.clone().into()) }
        }
    }
}

fn handle(f: &[String]) -> R {
    let a = |i: usize| -> &str { f.get(i).map_or("", |s| s.as_str()) };
    Ok(match a(0) {
        "parse" => match a(1).parse::<Expression>() {
            Ok(e) => vec![e.to_string(), format!("{}{}", e.is_lit() as u8, e.is_numeric() as u8)],
            Err(e) => return Err(e2s(e)),
        },
        // Print and read back: same tree, same text?
        "roundtrip" => {
            let e = parse(a(1))?;
            let s = e.to_string();
            match s.parse::<Expression>() {
                Ok(e2) => vec![(e == e2).to_string(), s.clone(), e2.to_string()],
                Err(_) => vec!["unreadable".into(), s, String::new()],
            }
        }
        // Two texts: the same tree?
        "same" => vec![(parse(a(1))? == parse(a(2))?).to_string()],
        // What an expression says about itself, as the expression and as the syntax tree.
        "query" => {
            let e = parse(a(1))?;
            let inner: &syn::Expr = e.as_ref();
            let owned = e.clone().into_inner();
            vec![
                e.is_lit().to_string(),
                e.is_numeric().to_string(),
                (inner == &owned && syn::Expr::from(e.clone()) == owned && Expression::from(owned.clone()) == e && e.clone() == e).to_string(),
                e.to_string(),
                format!("{:?}", e),
            ]
        }
        // What each visitor makes of an expression, and what was visited.
        "visit" => {
            use doctor_syn::visitor::Visitor;
            use visitors::*;
            let e = parse(a(1))?;
            let x = e.as_ref();
            let show = |r: doctor_syn::Result<syn::Expr>| match r {
                Ok(e) => quote::ToTokens::to_token_stream(&e).to_string(),
                Err(e) => format!("!{}", if format!("{}", e).contains("refused") { "refused" } else { "error" }),
            };
            let plain = Plain.visit_expr(x);
            let same = plain.as_ref().map_or(false, |p| p == x && Expression::from(p.clone()) == e);
            let t = Trace(Default::default());
            let traced = t.visit_expr(x);
            let mut out = vec![same.to_string(), show(plain), show(traced)];
            for r in [Lits.visit_expr(x), Paths.visit_expr(x), Unaries.visit_expr(x), Binaries.visit_expr(x), Methods.visit_expr(x), Fields.visit_expr(x), Parens.visit_expr(x)] {
                out.push(show(r));
            }
            out.push(show(Refuse("7".into()).visit_expr(x)));
            out.extend(t.0.into_inner());
            out
        }
        // A list of variables: after each addition its position, the list, and what each name finds.
        "vlist" => {
            let show = |v: &VariableList, asked: &str| -> R {
                let mut out = vec![v.to_string(), format!("{:?}", v)];
                for n in asked.split('|') {
                    out.push(v.find(&name(n)?).map_or("-".to_string(), |e| e.to_string()));
                }
                Ok(out)
            };
            let mut v = VariableList::new();
            let mut all = Vec::new();
            let mut out = show(&v, a(1))?;
            for b in &f[2..] {
                let (n, e) = b.split_once('=').ok_or("harness: binding")?;
                let (n, e) = (name(n)?, parse(e)?);
                all.push((n.clone(), e.clone()));
                out.push(v.add_var(n, e).to_string());
                out.extend(show(&v, a(1))?);
            }
            let w = VariableList::from(all);
            out.push((w == v && w.clone() == v).to_string());
            out.extend(show(&w, a(1))?);
            out
        }
        // A list of steps applied in turn; the text after each one.
        "seq" => {
            let mut e = parse(a(1))?;
            let mut out = vec![e.to_string()];
            for op in &f[2..] {
                match step(&e, op) {
                    Ok(n) => e = n,
                    Err(m) => {
                        out.push(format!("!ERR: {}", m));
                        return Ok(out);
                    }
                }
                out.push(e.to_string());
            }
            out
        }
        "eval" => {
            let e = parse(a(1))?.eval(int(a(2))?).map_err(e2s)?;
            vec![e.to_string(), format!("{}{}", e.is_lit() as u8, e.is_numeric() as u8)]
        }
        // Several values in one tree evaluation: substitute then evaluate.
        "subst_eval" => {
            let e = parse(a(1))?.subst(vars(&f[3..])?).map_err(e2s)?;
            vec![e.eval(int(a(2))?).map_err(e2s)?.to_string()]
        }
        "op" => {
            // op, lhs, rhs and what to do to them first ("" or a step)
            let (l, r) = (parse(a(2))?, parse(a(3))?);
            let e = match a(1) {
                "+" => l + r,
                "-" => l - r,
                "*" => l * r,
                "/" => l / r,
                _ => return Err("harness: op".into()),
            };
            let mut out = vec![e.to_string(), format!("{}{}", e.is_lit() as u8, e.is_numeric() as u8)];
            let s = e.to_string();
            out.push(s.parse::<Expression>().map_or("unreadable".into(), |e2| (e2 == e).to_string()));
            out
        }
        "from64" => {
            let x = f64::from_bits(a(1).parse().map_err(e2s)?);
            let e = Expression::from(x);
            let back = f64::try_from(&e).map_err(e2s)?;
            let back2 = f64::try_from(parse(&e.to_string())?.eval(2000).map_err(e2s)?).map_err(e2s)?;
            vec![e.to_string(), back.to_bits().to_string(), back2.to_bits().to_string()]
        }
        "from32" => {
            let x = f32::from_bits(a(1).parse().map_err(e2s)?);
            let e = Expression::from(x);
            let back = f32::try_from(&e).map_err(e2s)?;
            let back2 = f32::try_from(parse(&e.to_string())?.eval(2000).map_err(e2s)?).map_err(e2s)?;
            vec![e.to_string(), back.to_bits().to_string(), back2.to_bits().to_string()]
        }
        "frombd" => {
            let x = bd(a(1))?;
            let e = Expression::from(x.clone());
            let back = BigDecimal::try_from(&e).map_err(e2s)?;
            let back2 = match e.to_string().parse::<Expression>() {
                Ok(r) => r.eval(1000).and_then(|r| BigDecimal::try_from(&r)).map_or("error".into(), |b| (b == x).to_string()),
                Err(_) => "unreadable".into(),
            };
            vec![e.to_string(), (back == x).to_string(), back2]
        }
        // A literal's value as f64 bits, f32 bits and decimal.
        "tonum" => {
            let e = parse(a(1))?;
            let x = f64::try_from(&e).map_or("-".into(), |x| x.to_bits().to_string());
            let y = f32::try_from(&e).map_or("-".into(), |x| x.to_bits().to_string());
            let z = BigDecimal::try_from(&e).map_or("-".into(), |x| x.to_string());
            vec![x, y, z]
        }
        // Every encoding start, start+stride, ... : From, print, read, TryFrom must give it back.
        // Answer: how many, and the first that does not.
        "sweep64" | "sweep32" => {
            let (start, stride, n): (u64, u64, u64) =
                (a(1).parse().map_err(e2s)?, a(2).parse().map_err(e2s)?, a(3).parse().map_err(e2s)?);
            let mut done = 0_u64;
            for i in 0..n {
                let bits = start.wrapping_add(i.wrapping_mul(stride));
                let ok = if a(0) == "sweep64" {
                    let x = f64::from_bits(bits);
                    if !x.is_finite() {
                        continue;
                    }
                    let e = Expression::from(x);
                    let back = f64::try_from(&e).map(|b| b.to_bits());
                    let text = parse(&e.to_string()).and_then(|e| e.eval(2000).map_err(e2s)).and_then(|e| f64::try_from(&e).map_err(e2s));
                    // zero has no sign as a decimal
                    let want = if x == 0.0 { 0 } else { bits };
                    let exact = bdmath::to_nearest_f64(&bdmath::bigdf(x)).to_bits() == want;
                    matches!(back, Ok(b) if b == want) && matches!(text, Ok(b) if b.to_bits() == want) && exact
                } else {
                    let bits = bits as u32;
                    let x = f32::from_bits(bits);
                    if !x.is_finite() {
                        continue;
                    }
                    let e = Expression::from(x);
                    let back = f32::try_from(&e).map(|b| b.to_bits());
                    let text = parse(&e.to_string()).and_then(|e| e.eval(2000).map_err(e2s)).and_then(|e| f32::try_from(&e).map_err(e2s));
                    let want = if x == 0.0 { 0 } else { bits };
                    let exact = bdmath::to_nearest_f32(&bdmath::bigdf32(x)).to_bits() == want;
                    matches!(back, Ok(b) if b == want) && matches!(text, Ok(b) if b.to_bits() == want) && exact
                };
                done += 1;
                if !ok {
                    return Ok(vec![done.to_string(), bits.to_string()]);
                }
            }
            vec![done.to_string()]
        }
        "bdf" => {
            let x = f64::from_bits(a(1).parse().map_err(e2s)?);
            let b = bdmath::bigdf(x);
            vec![b.to_string(), bdmath::to_nearest_f64(&b).to_bits().to_string()]
        }
        "bdf32" => {
            let x = f32::from_bits(a(1).parse().map_err(e2s)?);
            let b = bdmath::bigdf32(x);
            vec![b.to_string(), bdmath::to_nearest_f32(&b).to_bits().to_string()]
        }
        "nearest" => {
            let b = bd(a(1))?;
            vec![bdmath::to_nearest_f64(&b).to_bits().to_string(), bdmath::to_nearest_f32(&b).to_bits().to_string()]
        }
        "round" => vec![bdmath::round(bd(a(1))?, int(a(2))?).to_string()],
        "round_ieee" => vec![bdmath::round_ieee(bd(a(1))?, bd(a(2))?, 40).map_err(e2s)?.to_string()],
        "pi" => vec![bdmath::pi(int(a(1))?).to_string()],
        "approx" => {
            // expr, terms, xmin bits, xmax bits, var, parity, digits
            let e = parse(a(1))?
                .approx(
                    a(2).parse().map_err(e2s)?,
                    f64::from_bits(a(3).parse().map_err(e2s)?),
                    f64::from_bits(a(4).parse().map_err(e2s)?),
                    name(a(5))?,
                    parity(a(6)),
                    int(a(7))?,
                )
                .map_err(e2s)?;
            vec![e.to_string()]
        }
        "poly" => {
            // digits, points "x,y;x,y", evaluation points "x;x"
            let mut xs = Vec::new();
            let mut ys = Vec::new();
            for p in a(2).split(';') {
                let mut q = p.split(',');
                xs.push(bd(q.next().unwrap_or(""))?);
                ys.push(bd(q.next().unwrap_or(""))?);
            }
            let p = Polynomial::from_points(&xs, &ys, int(a(1))?);
            let terms: Vec<String> = p.terms().iter().map(|t| t.to_string()).collect();
            let mut evals = Vec::new();
            for x in a(3).split(';').filter(|s| !s.is_empty()) {
                evals.push(p.eval(bd(x)?).to_string());
            }
            vec![terms.join(";"), evals.join(";")]
        }
        // Print tokens and tokenise again.
        "fmt" | "fmts" => {
            let ts: TokenStream = if a(0) == "fmt" {
                match a(1).parse() {
                    Ok(ts) => ts,
                    Err(_) => return Err("lex".into()),
                }
            } else {
                build_stream(&mut a(1).split(' ').peekable(), "")?
            };
            let text = doctor_syn::codegen::rust::format_token_stream(ts.clone());
            let before = flat_strings(ts);
            match text.parse::<TokenStream>() {
                Ok(ts2) => {
                    let after = flat_strings(ts2);
                    vec![(before == after).to_string(), text, before.join(" "), after.join(" ")]
                }
                Err(_) => vec!["unreadable".into(), text, before.join(" "), String::new()],
            }
        }
        "toc" => {
            let file: syn::File = syn::parse_str(a(1)).map_err(|e| format!("harness: {}", e))?;
            let mut options = doctor_syn::codegen::c::Options::default();
            options.prefix = a(2).to_string();
            options.float_suffix = a(3).to_string();
            vec![doctor_syn::codegen::c::to_c(&file, options)]
        }
        // The items of a Rust source file: for each its kind, its name and its tokens.
        "items" => {
            let file: syn::File = match syn::parse_str(a(1)) {
                Ok(f) => f,
                Err(e) => return Err(format!("parse: {}", e)),
            };
            let mut out = Vec::new();
            for item in &file.items {
                let (kind, name) = match item {
                    syn::Item::Fn(f) => ("fn", f.sig.ident.to_string()),
                    syn::Item::Const(c) => ("const", c.ident.to_string()),
                    syn::Item::Static(c) => ("static", c.ident.to_string()),
                    syn::Item::Type(t) => ("type", t.ident.to_string()),
                    syn::Item::Mod(m) => ("mod", m.ident.to_string()),
                    syn::Item::Use(_) => ("use", String::new()),
                    syn::Item::Trait(t) => ("trait", t.ident.to_string()),
                    syn::Item::Impl(_) => ("impl", String::new()),
                    _ => ("other", String::new()),
                };
                out.push(kind.to_string());
                out.push(name);
                out.push(quote::ToTokens::to_token_stream(item).to_string());
            }
            out
        }
        "tosimd" => {
            let file: syn::File = syn::parse_str(a(1)).map_err(|e| format!("harness: {}", e))?;
            let mut options = doctor_syn::codegen::portable_simd::Options::default();
            options.num_bits = a(2).parse().map_err(e2s)?;
            let new = doctor_syn::codegen::portable_simd::to_simd(&file, options);
            let ts = quote::ToTokens::into_token_stream(new);
            vec![doctor_syn::codegen::rust::format_token_stream(ts)]
        }
        _ => return Err(format!("harness: unknown request {}", a(0))),
    })
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    // Deep trees are printed and read recursively.
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(serve).unwrap();
    t.join().unwrap();
}

fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line == "flush" {
            out.flush().unwrap();
            continue;
        }
        let fields: Vec<String> = line.split('\t').map(unesc).collect();
        let res = catch_unwind(AssertUnwindSafe(|| handle(&fields)));
        let text = match res {
            Ok(Ok(v)) => {
                let v: Vec<String> = v.iter().map(|s| esc(s)).collect();
                format!("OK\t{}", v.join("\t"))
            }
            Ok(Err(e)) => format!("ERR\t{}", esc(&e)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                format!("PANIC\t{}", esc(&m.unwrap_or_default()))
            }
        };
        // stdout belongs to the responses: a line the library prints would be seen as one.
        writeln!(out, "\u{1}{}", text).unwrap();
        out.flush().unwrap();
    }
}
