//! Mechanical, semantics-preserving rewrites of the extracted code.  Each rule
//! is listed (with what it assumes) in DESIGN.md, "What the extraction changes".
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn ts(x: &impl ToTokens) -> String {
    x.to_token_stream().to_string()
}

pub struct Rewriter {
    pub statics: BTreeSet<String>,
    pub lits: BTreeSet<String>,
    pub used: BTreeMap<&'static str, usize>,
    pub fresh: usize,
    pub errors: Vec<String>,
    pub exec: bool,
}

impl Rewriter {
    pub fn new(statics: BTreeSet<String>) -> Self {
        Rewriter { statics, lits: BTreeSet::new(), used: BTreeMap::new(), fresh: 0, errors: vec![], exec: false }
    }
    pub fn hit(&mut self, r: &'static str) {
        *self.used.entry(r).or_insert(0) += 1;
    }
    fn id(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        Ident::new(&format!("__{}{}", p, self.fresh), Span::call_site())
    }
}

fn is_str_lit(e: &Expr) -> Option<LitStr> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.clone()),
        Expr::Paren(p) => is_str_lit(&p.expr),
        _ => None,
    }
}

/// String-literal alternatives of a top-level pattern.
fn pat_strs(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(PatLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(pat_strs(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => pat_strs(&p.pat),
        _ => None,
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => is_place(expr),
        _ => false,
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

fn leading_break(e: &Expr) -> Option<Expr> {
    let (label, body) = match e {
        Expr::Loop(l) => (&l.label, &l.body),
        Expr::While(w) if ts(&w.cond) == "true" => (&w.label, &w.body),
        _ => return None,
    };
    let Some(Stmt::Expr(Expr::If(i), _)) = body.stmts.first() else { return None };
    if i.else_branch.is_some() || matches!(&*i.cond, Expr::Let(_)) || i.then_branch.stmts.len() != 1 {
        return None;
    }
    match &i.then_branch.stmts[0] {
        Stmt::Expr(Expr::Break(b), _) if b.expr.is_none() && b.label.is_none() => {}
        _ => return None,
    }
    // Not where the loop is the value of a `break`.
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, b: &'a ExprBreak) {
            self.0 |= b.expr.is_some();
        }
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, body);
    if v.0 {
        return None;
    }
    let cond = match unparen(&i.cond) {
        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(),
        c => parse2(quote!( !(#c) )).ok()?,
    };
    let rest = &body.stmts[1..];
    parse2(quote!( #label while #cond { #(#rest)* } )).ok()
}

impl VisitMut for Rewriter {
    fn visit_lit_str_mut(&mut self, s: &mut LitStr) {
        if s.value().chars().count() <= 10 {
            self.lits.insert(s.value());
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Macros first: they may expand to code containing further sites.
        if let Expr::Macro(m) = e {
            if let Some(n) = self.macro_expr(&m.mac) {
                *e = n;
                return self.visit_expr_mut(e);
            }
        }
        // `loop { if c { break; } .. }` is `while !c { .. }`, and so is `while true`.
        if let Some(n) = leading_break(e) {
            self.hit("R-loop");
            *e = n;
        }
        // `for` loops: rewritten before visiting children.
        if let Expr::ForLoop(f) = e {
            if let Some(n) = self.for_loop(f) {
                self.hit("R-for");
                *e = n;
            } else {
                self.errors.push(format!("unsupported for loop over `{}`", ts(&f.expr)));
            }
        }
        if let Expr::Match(m) = e {
            if let Some(n) = self.entry_match(m) {
                self.hit("R-entry");
                *e = n;
            }
        }
        if let Some(n) = self.entry_chain(e) {
            self.hit("R-entry");
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) => {
                if m.arms.iter().any(|a| pat_strs(&a.pat).is_some()) {
                    match self.str_match(m) {
                        Some(n) => {
                            self.hit("R-strmatch");
                            *e = n
                        }
                        None => self.errors.push("unsupported match on string".into()),
                    }
                }
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                if eq || ne {
                    let (x, l) = if let Some(l) = is_str_lit(&b.right) {
                        ((*b.left).clone(), l)
                    } else if let Some(l) = is_str_lit(&b.left) {
                        ((*b.right).clone(), l)
                    } else {
                        return;
                    };
                    self.hit("R-streq");
                    let neg = if ne { quote!(!) } else { quote!() };
                    *e = parse2(quote!( #neg (#x).vstr_eq(#l) )).unwrap();
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = unparen(&r.expr) {
                    if let Expr::Range(rg) = unparen(&ix.index) {
                        let base = &ix.expr;
                        let new = match (&rg.start, &rg.end, &rg.limits) {
                            (Some(a), Some(b), RangeLimits::HalfOpen(_)) => {
                                Some(quote!( vstr_slice(#base, #a, #b) ))
                            }
                            _ => None,
                        };
                        match new {
                            Some(n) => {
                                self.hit("R-slice");
                                *e = parse2(n).unwrap();
                            }
                            None => self.errors.push("unsupported slice".into()),
                        }
                    }
                }
            }
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                if ["is_alphabetic", "is_alphanumeric", "is_numeric", "is_whitespace", "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_lowercase", "is_uppercase"]
                    .contains(&name.as_str())
                    && mc.args.is_empty()
                {
                    self.hit("R-char");
                    mc.method = Ident::new(&format!("v_{}", name), Span::call_site());
                } else if name == "chars" && mc.args.is_empty() {
                    self.hit("R-chars");
                    mc.method = Ident::new("vchars", Span::call_site());
                } else if name == "parse" && mc.args.is_empty() && ts(&mc.receiver) != "self" && ts(&mc.receiver) != "parser" {
                    self.hit("R-parse");
                    mc.method = Ident::new("vparse_f64", Span::call_site());
                    mc.turbofish = None;
                } else if name == "deref" && mc.args.is_empty() {
                    self.hit("R-deref");
                    mc.method = Ident::new("vderef", Span::call_site());
                } else if name == "contains" && mc.args.len() == 1 {
                    self.hit("R-contains");
                    mc.method = Ident::new("vcontains", Span::call_site());
                } else if name == "map" && mc.args.len() == 1 {
                    if let Expr::Path(p) = &mc.args[0] {
                        let r = &mc.receiver;
                        self.hit("R-mapctor");
                        let p = p.clone();
                        *e = parse2(quote!(
                            (match #r { Ok(__v) => Ok(#p(__v)), Err(__e) => Err(__e) })
                        ))
                        .unwrap();
                    }
                } else if name == "map_or" && mc.args.len() == 2 {
                    if let Expr::Closure(c) = &mc.args[1] {
                        if c.inputs.len() == 1 {
                            let (r, d, p, b) =
                                (&mc.receiver, &mc.args[0], &c.inputs[0], &c.body);
                            self.hit("R-mapor");
                            *e = parse2(quote!(
                                (match #r { Some(#p) => #b, None => #d })
                            ))
                            .unwrap();
                        }
                    }
                } else if name == "unwrap_or_else" && mc.args.len() == 1 {
                    if let Expr::Closure(c) = &mc.args[0] {
                        if c.inputs.len() == 1 {
                            let (r, p, b) = (&mc.receiver, &c.inputs[0], &c.body);
                            self.hit("R-unwrapelse");
                            *e = parse2(quote!(
                                (match #r { Ok(__v) => __v, Err(#p) => #b })
                            ))
                            .unwrap();
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = unparen(&c.func) {
                    let n = ts(&p.path).replace(' ', "");
                    if (n == "mem::take" || n == "std::mem::take") && c.args.len() == 1 {
                        self.hit("R-take");
                        let a = &c.args[0];
                        *e = parse2(quote!( vtake(#a) )).unwrap();
                    } else if (n == "mem::replace" || n == "std::mem::replace") && c.args.len() == 2 {
                        self.hit("R-take");
                        let (a, b) = (&c.args[0], &c.args[1]);
                        *e = parse2(quote!( vreplace(#a, #b) )).unwrap();
                    } else if n == "String::from" && c.args.len() == 1 {
                        self.hit("R-strfrom");
                        let a = &c.args[0];
                        *e = parse2(quote!( (#a).to_owned() )).unwrap();
                    }
                }
            }
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    if self.statics.contains(&id.to_string()) {
                        self.hit("R-lazy");
                        let f = Ident::new(&format!("{}__init", id), Span::call_site());
                        *e = parse2(quote!( #f() )).unwrap();
                    }
                }
            }
            _ => {}
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = self.macro_expr(&m.mac) {
                let semi = m.semi_token;
                *s = Stmt::Expr(n, semi.or(Some(Default::default())));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // `use` items inside bodies are kept; macros in tail position that end
        // a block without `;` must stay expressions.
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Macro(m) = s {
                if let Some(x) = self.macro_expr(&m.mac) {
                    let last = i + 1 == n;
                    let semi = if m.semi_token.is_none() && last {
                        None
                    } else {
                        Some(Default::default())
                    };
                    *s = Stmt::Expr(x, semi);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

impl Rewriter {
    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                if name == "panic" && m.tokens.is_empty() {
                    return None;
                }
                self.hit("R-panic");
                Some(parse2(quote!(panic!())).unwrap())
            }
            "format" => {
                self.hit("R-format");
                let args: Vec<Expr> = m
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?
                    .into_iter()
                    .collect();
                if self.exec {
                    return None;
                }
                // What evaluating the arguments does, they still do.
                fn still(e: &Expr) -> bool {
                    match e {
                        Expr::Lit(_) | Expr::Path(_) => true,
                        Expr::Field(f) => still(&f.base),
                        Expr::Reference(r) => still(&r.expr),
                        Expr::Paren(p) => still(&p.expr),
                        Expr::Assign(a) => still(&a.right),
                        _ => false,
                    }
                }
                let run: Vec<Expr> = args
                    .into_iter()
                    .filter(|e| !still(e))
                    .map(|e| match e {
                        Expr::Assign(a) => *a.right,
                        e => e,
                    })
                    .collect();
                if run.is_empty() {
                    Some(parse2(quote!(vformat())).unwrap())
                } else {
                    Some(parse2(quote!({ #( let _ = #run; )* vformat() })).unwrap())
                }
            }
            "assert" | "debug_assert" => {
                let args: Vec<Expr> = m
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?
                    .into_iter()
                    .collect();
                self.hit("R-assert");
                let c = &args[0];
                Some(parse2(quote!( if !(#c) { panic!() } )).unwrap())
            }
            "assert_eq" | "debug_assert_eq" => {
                let args: Vec<Expr> = m
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?
                    .into_iter()
                    .collect();
                self.hit("R-assert");
                let (a, b) = (&args[0], &args[1]);
                Some(parse2(quote!( if !(#a == #b) { panic!() } )).unwrap())
            }
            "matches" => {
                self.hit("R-matches");
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        if i.peek(Token![,]) {
                            i.parse::<Token![,]>()?;
                        }
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                let g = g.map(|g| quote!(if #g)).unwrap_or_default();
                Some(parse2(quote!( (match #e { #p #g => true, _ => false }) )).unwrap())
            }
            "println" | "eprintln" | "print" | "eprint" | "writeln" | "write" => None,
            _ => None,
        }
    }

    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let tmp = self.id("m");
        let scrut = &m.expr;
        let mut out: Option<TokenStream> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let g = a.guard.as_ref().map(|(_, g)| g);
            let bind = match &a.pat {
                Pat::Wild(_) => Some(quote!()),
                Pat::Ident(pi) if pi.subpat.is_none() => {
                    let i = &pi.ident;
                    Some(quote!(let #i = #tmp;))
                }
                _ => None,
            };
            if let Some(bind) = bind {
                if g.is_some() {
                    return None;
                }
                out = Some(quote!({ #bind #body }));
                continue;
            }
            let strs = pat_strs(&a.pat)?;
            let mut cond = TokenStream::new();
            for (i, s) in strs.iter().enumerate() {
                if i > 0 {
                    cond.extend(quote!(||));
                }
                cond.extend(quote!( (#tmp).vstr_eq(#s) ));
            }
            let cond = match g {
                Some(g) => quote!( (#cond) && (#g) ),
                None => cond,
            };
            out = Some(match out {
                Some(o) => quote!( if #cond { #body } else #o ),
                None => return None,
            });
        }
        let o = out?;
        parse2(quote!({ let #tmp = #scrut; #o })).ok()
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let label = &f.label;
        let pat = &f.pat;
        let body = &f.body.stmts;
        let idx = self.id("i");
        let ex = unparen(&f.expr).clone();
        // a..b
        if let Expr::Range(r) = &ex {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let n = self.id("n");
                return parse2(quote!({
                    let #n = #b;
                    let mut #idx = #a;
                    #label while #idx < #n {
                        let #pat = #idx;
                        #idx += 1;
                        #(#body)*
                    }
                }))
                .ok();
            }
            return None;
        }
        let (place, mutable, pre): (Expr, bool, TokenStream) = match &ex {
            Expr::Reference(r) if is_place(&r.expr) => {
                ((*r.expr).clone(), r.mutability.is_some(), quote!())
            }
            Expr::MethodCall(m)
                if (m.method == "iter_mut" || m.method == "iter") && m.args.is_empty() =>
            {
                let r = unparen(&m.receiver);
                if !is_place(r) {
                    return None;
                }
                (r.clone(), m.method == "iter_mut", quote!())
            }
            Expr::Path(_) | Expr::Field(_) => (ex.clone(), false, quote!()),
            Expr::Call(_) | Expr::MethodCall(_) => {
                let t = self.id("v");
                (parse2(quote!(#t)).unwrap(), false, quote!(let #t = #ex;))
            }
            _ => return None,
        };
        let bind = match &**pat {
            Pat::Tuple(t) if t.elems.len() == 2 => {
                let (k, v) = (&t.elems[0], &t.elems[1]);
                let kb = if matches!(k, Pat::Wild(_)) {
                    quote!()
                } else {
                    quote!( let #k = #place.map.vkey(#idx); )
                };
                if mutable {
                    quote!( #kb let #v = #place.map.vval_mut(#idx); )
                } else {
                    quote!( #kb let #v = #place.map.vval(#idx); )
                }
            }
            _ if mutable => quote!( let #pat = &mut #place[#idx]; ),
            _ => quote!( let #pat = &#place[#idx]; ),
        };
        let len = match &**pat {
            Pat::Tuple(_) => quote!(#place.map.len()),
            _ => quote!(#place.len()),
        };
        parse2(quote!({
            #pre
            let mut #idx: usize = 0;
            #label while #idx < #len {
                #bind
                #idx += 1;
                #(#body)*
            }
        }))
        .ok()
    }

    /// `M.entry(K).and_modify(|p| B).or_insert(V)`
    fn entry_chain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(oi) = e else { return None };
        if oi.method != "or_insert" || oi.args.len() != 1 {
            return None;
        }
        let Expr::MethodCall(am) = unparen(&oi.receiver) else { return None };
        if am.method != "and_modify" || am.args.len() != 1 {
            return None;
        }
        let Expr::Closure(c) = &am.args[0] else { return None };
        if c.inputs.len() != 1 {
            return None;
        }
        let Expr::MethodCall(en) = unparen(&am.receiver) else { return None };
        if en.method != "entry" || en.args.len() != 1 {
            return None;
        }
        let (m, k, v, p, b) = (&en.receiver, &en.args[0], &oi.args[0], &c.inputs[0], &c.body);
        let kk = self.id("k");
        let vv = self.id("v");
        parse2(quote!({
            let #kk = #k;
            match #m.get_mut(&#kk) {
                Some(#p) => { #b; }
                None => { let #vv = #v; #m.insert(#kk, #vv); }
            }
        }))
        .ok()
    }

    /// `match M.entry(K) { n @ Entry::Vacant(_) => n.or_insert(V), Entry::Occupied(_) => B }`
    fn entry_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let Expr::MethodCall(en) = unparen(&m.expr) else { return None };
        if en.method != "entry" || en.args.len() != 1 || m.arms.len() != 2 {
            return None;
        }
        let (recv, key) = (&en.receiver, &en.args[0]);
        let kk = self.id("k");
        let mut vac = None;
        let mut occ = None;
        for a in &m.arms {
            if a.guard.is_some() {
                return None;
            }
            let (name, p) = match &a.pat {
                Pat::Ident(pi) => {
                    (Some(pi.ident.to_string()), pi.subpat.as_ref().map(|(_, p)| (**p).clone())?)
                }
                p => (None, p.clone()),
            };
            let Pat::TupleStruct(t) = &p else { return None };
            if t.elems.len() != 1 {
                return None;
            }
            let v = t.path.segments.last()?.ident.to_string();
            let inner = match &t.elems[0] {
                Pat::Wild(_) => None,
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => return None,
            };
            let binder = name.or(inner);
            if v == "Vacant" {
                struct R {
                    name: String,
                    m: Expr,
                    k: Ident,
                }
                impl VisitMut for R {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::MethodCall(mc) = e {
                            if (mc.method == "or_insert" || mc.method == "insert")
                                && mc.args.len() == 1
                            {
                                if let Expr::Path(p) = unparen(&mc.receiver) {
                                    if p.path.is_ident(&self.name) {
                                        let (m, k, v) = (&self.m, &self.k, &mc.args[0]);
                                        *e = parse2(quote!({ #m.insert(#k, #v); })).unwrap();
                                    }
                                }
                            }
                        }
                    }
                }
                let mut body = (*a.body).clone();
                if let Some(n) = binder {
                    R { name: n, m: (**recv).clone(), k: kk.clone() }.visit_expr_mut(&mut body);
                }
                vac = Some(body);
            } else if v == "Occupied" {
                occ = Some((*a.body).clone());
            } else {
                return None;
            }
        }
        let (vac, occ) = (vac?, occ?);
        parse2(quote!({
            let #kk = #key;
            if #recv.contains_key(&#kk) { #occ } else { #vac }
        }))
        .ok()
    }
}

// ---------------------------------------------------------------------------
// Inlining of helper functions which have no contract (R-inline).

pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub has_self: bool,
}

struct HasExit {
    ret: bool,
    ret_non_err: bool,
    q: bool,
}
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        let ok = match r.expr.as_deref().map(unparen) {
            Some(Expr::Call(c)) => matches!(unparen(&c.func), Expr::Path(p) if p.path.is_ident("Err")),
            _ => false,
        };
        if !ok {
            self.ret_non_err = true;
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}

pub struct Inliner<'h> {
    pub helpers: &'h BTreeMap<String, Helper>,
    pub fresh: usize,
    pub depth: usize,
    pub count: usize,
    pub errors: Vec<String>,
}

impl<'h> Inliner<'h> {
    fn target(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                if let Expr::Path(p) = unparen(&m.receiver) {
                    if p.path.is_ident("self") {
                        let n = m.method.to_string();
                        if self.helpers.get(&n).map(|h| h.has_self) == Some(true) {
                            return Some((n, m.args.iter().cloned().collect()));
                        }
                    }
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = unparen(&c.func) {
                    let n = p.path.segments.last()?.ident.to_string();
                    if let Some(h) = self.helpers.get(&n) {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        if h.has_self {
                            // Self::helper(self, ..)
                            match args.first().map(unparen) {
                                Some(Expr::Path(p)) if p.path.is_ident("self") => {
                                    args.remove(0);
                                }
                                _ => return None,
                            }
                        }
                        return Some((n, args));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn expand(&mut self, name: &str, args: Vec<Expr>, mode: Mode) -> Option<Expr> {
        let h = &self.helpers[name];
        let mut ex = HasExit { ret: false, ret_non_err: false, q: false };
        ex.visit_block(&h.block);
        match mode {
            Mode::Tail => {}
            Mode::Try => {
                if ex.ret_non_err {
                    return None;
                }
            }
            Mode::Value => {
                if ex.ret || ex.q {
                    return None;
                }
            }
        }
        if self.depth > 8 {
            return None;
        }
        self.count += 1;
        let mut pre = TokenStream::new();
        let mut binds = TokenStream::new();
        let mut ai = args.into_iter();
        for p in &h.sig.inputs {
            if let FnArg::Typed(t) = p {
                let a = ai.next()?;
                self.fresh += 1;
                let tmp = Ident::new(&format!("__a{}", self.fresh), Span::call_site());
                let ty = &t.ty;
                let pat = &t.pat;
                let generic = !h.sig.generics.params.is_empty() || ts(ty).contains("impl");
                if generic {
                    pre.extend(quote!(let #tmp = #a;));
                } else {
                    pre.extend(quote!(let #tmp: #ty = #a;));
                }
                binds.extend(quote!(let #pat = #tmp;));
            }
        }
        let stmts = &h.block.stmts;
        let (init, tail): (Vec<Stmt>, Option<Expr>) = match stmts.last() {
            Some(Stmt::Expr(e, None)) => {
                (stmts[..stmts.len() - 1].to_vec(), Some(e.clone()))
            }
            _ => (stmts.clone(), None),
        };
        // A block body in its own scope keeps the helper's locals private.
        let out = match mode {
            Mode::Try => {
                let t = tail?;
                let t2 = match unparen(&t) {
                    Expr::Call(c) if matches!(unparen(&c.func), Expr::Path(p) if p.path.is_ident("Ok")) => {
                        let a = &c.args[0];
                        quote!(#a)
                    }
                    _ => quote!( (#t)? ),
                };
                quote!({ #pre #binds #(#init)* #t2 })
            }
            _ => {
                let t = tail.map(|t| quote!(#t)).unwrap_or_default();
                quote!({ #pre #binds #(#init)* #t })
            }
        };
        let mut e: Expr = parse2(out).ok()?;
        self.depth += 1;
        match mode {
            Mode::Tail => self.tail_expr(&mut e),
            _ => self.visit_expr_mut(&mut e),
        }
        self.depth -= 1;
        Some(e)
    }

    fn tail_expr(&mut self, e: &mut Expr) {
        if let Some((n, args)) = self.target(e) {
            let mut args = args;
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            match self.expand(&n, args, Mode::Tail) {
                Some(x) => *e = x,
                None => self.errors.push(format!("cannot inline helper `{}`", n)),
            }
            return;
        }
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, el)) = &mut i.else_branch {
                    self.tail_expr(el);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Paren(p) => self.tail_expr(&mut p.expr),
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
            _ => self.visit_expr_mut(e),
        }
    }

    pub fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n => self.tail_expr(e),
                _ => self.visit_stmt_mut(s),
            }
        }
    }
}

#[derive(Copy, Clone, PartialEq)]
enum Mode {
    Tail,
    Try,
    Value,
}

impl<'h> VisitMut for Inliner<'h> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some((n, mut args)) = self.target(&t.expr) {
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                match self.expand(&n, args, Mode::Try) {
                    Some(x) => *e = x,
                    None => self.errors.push(format!("cannot inline helper `{}`", n)),
                }
                return;
            }
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                self.tail_expr(x);
            }
            return;
        }
        if let Some((n, mut args)) = self.target(e) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            match self.expand(&n, args, Mode::Value) {
                Some(x) => *e = x,
                None => self.errors.push(format!("cannot inline helper `{}`", n)),
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // `return`/`?` inside closures have another meaning.
        visit_mut::visit_expr_closure_mut(self, c);
    }
}
