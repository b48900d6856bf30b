//! R-world: the input and output of a module made explicit.  Every function
//! which reads, prints or exits (itself or through one it calls) takes the
//! world as one more argument, and what it does to the world is a call of a
//! stub of lib/world.rs.
use crate::rewrite::ts;
use proc_macro2::{Span, TokenStream};
use quote::quote;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const PRINTS: [&str; 4] = ["print", "println", "eprint", "eprintln"];

fn path_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => Some(ts(&p.path).replace(' ', "").trim_start_matches("std::").to_string()),
        Expr::Paren(p) => path_of(&p.expr),
        _ => None,
    }
}

fn prim(p: &str) -> Option<&'static str> {
    match p {
        "io::stdin" | "stdin" => Some("vstdin"),
        "io::stdout" | "stdout" => Some("vstdout"),
        "io::stderr" | "stderr" => Some("vstdout"),
        "fs::File::open" | "File::open" => Some("vopen"),
        "fs::read_to_string" => Some("vread_file"),
        "process::exit" | "exit" => Some("vexit"),
        _ => None,
    }
}

fn method(m: &str, args: usize) -> Option<(&'static str, bool)> {
    match (m, args) {
        ("lock", 0) => Some(("v_lock", false)),
        ("flush", 0) => Some(("v_flush", true)),
        ("read_line", 1) => Some(("v_read_line", true)),
        ("read_to_string", 1) => Some(("v_read_to_string", true)),
        _ => None,
    }
}

struct Does {
    io: bool,
    calls: BTreeSet<String>,
}
impl<'a> Visit<'a> for Does {
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.path.segments.last().map_or(false, |s| PRINTS.contains(&s.ident.to_string().as_str())) {
            self.io = true;
            if let Some((_, args)) = format_args(m) {
                for a in &args {
                    self.visit_expr(a);
                }
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Some(p) = path_of(&c.func) {
            if prim(&p).is_some() || p == "ArgumentParser::new" {
                self.io = true;
            }
            if let Some(l) = p.rsplit("::").next() {
                self.calls.insert(l.to_string());
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if method(&m.method.to_string(), m.args.len()).map_or(false, |x| x.1) {
            self.io = true;
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// The functions of a file which read, print or exit.
pub fn io_functions(file: &File, asked: &BTreeSet<String>) -> BTreeSet<String> {
    let mut does: BTreeMap<String, Does> = BTreeMap::new();
    for it in &file.items {
        if let Item::Fn(f) = it {
            let mut d = Does { io: asked.contains(&f.sig.ident.to_string()), calls: BTreeSet::new() };
            d.visit_block(&f.block);
            does.insert(f.sig.ident.to_string(), d);
        }
    }
    loop {
        let io: BTreeSet<String> = does.iter().filter(|(_, d)| d.io).map(|(k, _)| k.clone()).collect();
        let mut more = false;
        for d in does.values_mut() {
            if !d.io && d.calls.iter().any(|c| io.contains(c)) {
                d.io = true;
                more = true;
            }
        }
        if !more {
            return io;
        }
    }
}

/// The format string and the arguments (named ones are appended as `name = e`).
fn format_args(m: &Macro) -> Option<(String, Vec<Expr>)> {
    let args: Vec<Expr> = m
        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()?
        .into_iter()
        .collect();
    let mut it = args.into_iter();
    match it.next() {
        None => Some((String::new(), vec![])),
        Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => Some((s.value(), it.collect())),
        _ => None,
    }
}

enum Piece {
    Text(String),
    Arg(String, String), // which, spec
}

fn pieces(f: &str) -> Option<Vec<Piece>> {
    let mut v = vec![];
    let mut t = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                t.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                t.push('}');
            }
            '{' => {
                let mut a = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => a.push(c),
                    }
                }
                if !t.is_empty() {
                    v.push(Piece::Text(std::mem::take(&mut t)));
                }
                let (n, s) = a.split_once(':').unwrap_or((&a, ""));
                v.push(Piece::Arg(n.trim().to_string(), s.trim().to_string()));
            }
            '}' => return None,
            c => t.push(c),
        }
    }
    if !t.is_empty() {
        v.push(Piece::Text(t));
    }
    Some(v)
}

pub struct World<'a> {
    pub io: &'a BTreeSet<String>,
    pub used: usize,
    pub fresh: usize,
    pub lits: BTreeSet<String>,
    pub errors: Vec<String>,
}

impl<'a> World<'a> {
    fn print(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if !PRINTS.contains(&name.as_str()) {
            return None;
        }
        self.used += 1;
        let r = self.print_body(m, &name);
        if r.is_none() {
            self.errors.push(format!("unsupported `{}!({})`", name, m.tokens));
        }
        r
    }
    fn print_body(&mut self, m: &Macro, name: &str) -> Option<Expr> {
        let (mut f, args) = format_args(m)?;
        if name.ends_with("ln") {
            f.push('\n');
        }
        let mut binds = TokenStream::new();
        let mut pos: Vec<Ident> = vec![];
        let mut named: BTreeMap<String, Ident> = BTreeMap::new();
        for a in &args {
            self.fresh += 1;
            let t = Ident::new(&format!("__p{}", self.fresh), Span::call_site());
            match a {
                Expr::Assign(x) => {
                    let n = ts(&x.left);
                    let v = &x.right;
                    binds.extend(quote!( let #t = &(#v); ));
                    named.insert(n, t);
                }
                v => {
                    binds.extend(quote!( let #t = &(#v); ));
                    pos.push(t);
                }
            }
        }
        let mut body = TokenStream::new();
        let mut next = 0;
        let err = name.starts_with('e');
        let id = |s: &str| Ident::new(&format!("v_{}_{}", if err { "err" } else { "out" }, s), Span::call_site());
        for p in pieces(&f)? {
            match p {
                Piece::Text(t) => {
                    let s = id("str");
                    self.lits.insert(t.clone());
                    body.extend(quote!( __w.#s(#t); ));
                }
                Piece::Arg(n, spec) => {
                    let v: TokenStream = if n.is_empty() {
                        next += 1;
                        let t = pos.get(next - 1)?;
                        quote!(#t)
                    } else if let Ok(k) = n.parse::<usize>() {
                        let t = pos.get(k)?;
                        quote!(#t)
                    } else if let Some(t) = named.get(&n) {
                        quote!(#t)
                    } else {
                        let i: Ident = parse_str(&n).ok()?;
                        quote!(&#i)
                    };
                    let (s, extra) = match spec.as_str() {
                        "" => (id("display"), quote!()),
                        "?" => (id("debug"), quote!(, false)),
                        "#?" => (id("debug"), quote!(, true)),
                        _ => return None,
                    };
                    body.extend(quote!( __w.#s(#v #extra); ));
                }
            }
        }
        parse2(quote!({ #binds #body })).ok()
    }

    /// A block with an ArgumentParser: the variable it refers to gets the argument.
    fn args_block(&mut self, b: &Block) -> Option<Stmt> {
        struct A {
            parser: bool,
            refers: Vec<Expr>,
        }
        impl<'a> Visit<'a> for A {
            fn visit_expr_call(&mut self, c: &'a ExprCall) {
                if path_of(&c.func).as_deref() == Some("ArgumentParser::new") {
                    self.parser = true;
                }
                visit::visit_expr_call(self, c);
            }
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                if m.method == "refer" {
                    self.refers.extend(m.args.iter().cloned());
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut a = A { parser: false, refers: vec![] };
        for s in &b.stmts {
            // only a block which makes the parser itself
            if let Stmt::Local(_) | Stmt::Expr(Expr::MethodCall(_), _) = s {
                a.visit_stmt(s);
            }
        }
        if !a.parser {
            return None;
        }
        self.used += 1;
        if a.refers.len() != 1 {
            self.errors.push("unsupported command line options".into());
            return None;
        }
        let x = &a.refers[0];
        parse2(quote!( __w.v_args(#x); )).ok()
    }
}

impl<'a> VisitMut for World<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Expr(Expr::Block(x), _) = s {
                if let Some(y) = self.args_block(&x.block) {
                    *s = y;
                }
            }
            if let Stmt::Macro(m) = s {
                if let Some(e) = self.print(&m.mac) {
                    let semi = if m.semi_token.is_none() && i + 1 == n { None } else { Some(Default::default()) };
                    *s = Stmt::Expr(e, semi);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.print(&m.mac) {
                *e = n;
            } else if m.mac.path.is_ident("format") {
                // Its text would be unspecified.
                self.errors.push("unsupported `format!`".into());
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Some(p) = path_of(&c.func) {
                    if let Some(f) = prim(&p) {
                        self.used += 1;
                        let f = Ident::new(f, Span::call_site());
                        c.func = Box::new(parse2(quote!(#f)).unwrap());
                        if !["vstdin", "vstdout"].contains(&f.to_string().as_str()) {
                            c.args.push(parse2(quote!(__w)).unwrap());
                        }
                    } else if self.io.contains(&p) {
                        self.used += 1;
                        c.args.push(parse2(quote!(__w)).unwrap());
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some((f, w)) = method(&m.method.to_string(), m.args.len()) {
                    self.used += 1;
                    m.method = Ident::new(f, Span::call_site());
                    if w {
                        m.args.push(parse2(quote!(__w)).unwrap());
                    }
                }
            }
            _ => {}
        }
    }
}

/// R-fmt: Display impls become inherent functions which write to a stub
/// of the formatter (lib/fmt.rs).
pub struct Fmt {
    pub used: usize,
    pub fresh: usize,
    pub lits: BTreeSet<String>,
    pub errors: Vec<String>,
}
fn is_formatter(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Formatter"))
}
impl Fmt {
    pub fn new() -> Fmt {
        Fmt { used: 0, fresh: 0, lits: BTreeSet::new(), errors: vec![] }
    }
    pub fn signature(&mut self, sig: &mut Signature) {
        self.visit_signature_mut(sig);
    }
    fn write(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if !["write", "writeln"].contains(&name.as_str()) {
            return None;
        }
        self.used += 1;
        let r = self.write_body(m, &name);
        if r.is_none() {
            self.errors.push(format!("unsupported `{}!({})`", name, m.tokens));
        }
        r
    }
    fn write_body(&mut self, m: &Macro, name: &str) -> Option<Expr> {
        let mut args: Vec<Expr> = m
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .ok()?
            .into_iter()
            .collect();
        if args.is_empty() {
            return None;
        }
        let f = args.remove(0);
        let mut text = match args.first() {
            None => String::new(),
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => return None,
        };
        if !args.is_empty() {
            args.remove(0);
        }
        if name == "writeln" {
            text.push('\n');
        }
        let mut binds = TokenStream::new();
        let mut pos: Vec<Ident> = vec![];
        let mut named: BTreeMap<String, Ident> = BTreeMap::new();
        for a in &args {
            self.fresh += 1;
            let t = Ident::new(&format!("__f{}", self.fresh), Span::call_site());
            let v = match a {
                Expr::Assign(x) => {
                    named.insert(ts(&x.left), t.clone());
                    &x.right
                }
                v => {
                    pos.push(t.clone());
                    v
                }
            };
            binds.extend(quote!( let #t = &(#v); ));
        }
        let mut steps: Vec<TokenStream> = vec![];
        let mut next = 0;
        for p in pieces(&text)? {
            match p {
                Piece::Text(t) => {
                    self.lits.insert(t.clone());
                    steps.push(quote!( #f.v_write_str(#t) ));
                }
                Piece::Arg(n, spec) => {
                    let v: TokenStream = if n.is_empty() {
                        next += 1;
                        let t = pos.get(next - 1)?;
                        quote!(#t)
                    } else if let Ok(k) = n.parse::<usize>() {
                        let t = pos.get(k)?;
                        quote!(#t)
                    } else if let Some(t) = named.get(&n) {
                        quote!(#t)
                    } else {
                        let i: Ident = parse_str(&n).ok()?;
                        quote!(#i)
                    };
                    match spec.as_str() {
                        "" => steps.push(quote!( #v.v_fmt(#f) )),
                        "?" => steps.push(quote!( #v.v_debug(#f) )),
                        _ => return None,
                    }
                }
            }
        }
        let mut e = match steps.pop() {
            Some(s) => s,
            None => quote!(Ok(())),
        };
        while let Some(s) = steps.pop() {
            e = quote!( match #s { Err(__e) => Err(__e), Ok(_) => #e } );
        }
        parse2(quote!({ #binds #e })).ok()
    }
}
impl VisitMut for Fmt {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Macro(m) = s {
                if let Some(e) = self.write(&m.mac) {
                    let semi = if m.semi_token.is_none() && i + 1 == n { None } else { Some(Default::default()) };
                    *s = Stmt::Expr(e, semi);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.write(&m.mac) {
                *e = n;
            } else if m.mac.path.is_ident("format") {
                // Its text would be unspecified.
                self.errors.push("unsupported `format!`".into());
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let p = path_of(&c.func).unwrap_or_default();
            if c.args.len() == 2 && ["fmt::Display::fmt", "Display::fmt"].contains(&p.as_str()) {
                self.used += 1;
                let (x, f) = (&c.args[0], &c.args[1]);
                *e = parse2(quote!( (#x).v_fmt(#f) )).unwrap();
            } else if c.args.len() == 2 && ["fmt::Debug::fmt", "Debug::fmt"].contains(&p.as_str()) {
                self.used += 1;
                let (x, f) = (&c.args[0], &c.args[1]);
                *e = parse2(quote!( (#x).v_debug(#f) )).unwrap();
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = match (m.method.to_string().as_str(), m.args.len()) {
                ("fmt", 1) => "v_fmt",
                ("write_str", 1) => "v_write_str",
                ("write_char", 1) => "v_write_char",
                _ => return,
            };
            self.used += 1;
            m.method = Ident::new(n, Span::call_site());
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if is_formatter(t) {
            *t = parse2(quote!(VFormatter)).unwrap();
        } else if let Type::Path(p) = t {
            let s = ts(&p.path).replace(' ', "");
            if s == "std::fmt::Result" || s == "fmt::Result" {
                *t = parse2(quote!(Result<(), VFmtError>)).unwrap();
            } else if s == "std::fmt::Error" || s == "fmt::Error" {
                *t = parse2(quote!(VFmtError)).unwrap();
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s = ts(p).replace(' ', "");
        if s == "std::fmt::Error" || s == "fmt::Error" {
            *p = parse2(quote!(VFmtError)).unwrap();
        }
    }
}
