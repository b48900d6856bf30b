//! vx: mechanical extraction of /repo's Rust sources into a single Verus file,
//! with the contracts of an overlay attached.  Nothing of a function body is
//! written by hand: bodies come from the working tree on every run.
mod overlay;
mod rewrite;
mod words;
mod world;

use overlay::*;
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use rewrite::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ output

#[derive(Clone)]
struct Region {
    lo: usize,
    hi: usize,
    func: String,
    kind: String,
    origin: String,
    text: String,
}

enum Ann {
    /// Goes before the `{` of the block it heads.
    Header(Vec<(String, Vec<Clause>)>),
    /// Proof text inside a body.
    Inline(String, Vec<Clause>),
}

struct Out {
    s: String,
    line: usize,
    ind: usize,
    bol: bool,
    regions: Vec<Region>,
    anns: Vec<Ann>,
    func: String,
}

impl Out {
    fn raw(&mut self, t: &str) {
        for c in t.chars() {
            if c == '\n' {
                self.line += 1;
                self.bol = true;
            } else {
                self.bol = false;
            }
            self.s.push(c);
        }
    }
    fn tok(&mut self, t: &str) {
        if self.bol {
            let i = "    ".repeat(self.ind);
            self.raw(&i);
        }
        self.raw(t);
    }
    fn nl(&mut self) {
        if !self.bol {
            self.raw("\n");
        }
    }
    fn clause(&mut self, kind: &str, c: &Clause, suffix: &str) {
        let lo = self.line;
        let t = format!("{}{}", c.text, suffix);
        let pad = "    ".repeat(self.ind + 1);
        for l in t.lines() {
            let x = format!("{}{}\n", pad, l);
            self.raw(&x);
        }
        self.regions.push(Region {
            lo,
            hi: self.line - 1,
            func: self.func.clone(),
            kind: kind.into(),
            origin: c.origin.clone(),
            text: c.text.clone(),
        });
    }
    fn emit_ann(&mut self, n: usize) {
        let a = std::mem::replace(&mut self.anns[n], Ann::Header(vec![]));
        match &a {
            Ann::Header(secs) => {
                self.nl();
                for (kw, cls) in secs {
                    if cls.is_empty() {
                        continue;
                    }
                    let pad = "    ".repeat(self.ind);
                    self.raw(&format!("{}{}\n", pad, kw));
                    for c in cls {
                        let sfx = if c.text.trim_end().ends_with(',') { "" } else { "," };
                        self.clause(kw, c, sfx);
                    }
                }
            }
            Ann::Inline(kind, cls) => {
                self.nl();
                for c in cls {
                    self.clause(kind, c, "");
                }
            }
        }
        self.anns[n] = a;
    }

    fn marker(ts: &[TokenTree]) -> Option<usize> {
        if ts.len() >= 4 {
            if let (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g)) =
                (&ts[0], &ts[1], &ts[2])
            {
                if i == "__va" && p.as_char() == '!' {
                    return g.stream().to_string().trim().parse().ok();
                }
            }
        }
        None
    }

    fn pp(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(n) = Self::marker(&v[i..]) {
                self.emit_ann(n);
                i += 4;
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        while let Some(n) = Self::marker(&inner[skip..]) {
                            if matches!(self.anns[n], Ann::Header(_)) {
                                self.emit_ann(n);
                                skip += 4;
                            } else {
                                break;
                            }
                        }
                        if inner.len() == skip {
                            self.tok("{ }");
                        } else {
                            self.tok("{");
                            self.nl();
                            self.ind += 1;
                            self.pp(inner[skip..].iter().cloned().collect());
                            self.ind -= 1;
                            self.nl();
                            self.tok("}");
                        }
                        // newline unless followed by something on the same line
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if ";,.?)".contains(p.as_char()) => {}
                            Some(TokenTree::Ident(id)) if id == "else" => self.raw(" "),
                            _ => self.nl(),
                        }
                    }
                    d => {
                        let (a, b) = match d {
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("(", ")"),
                        };
                        self.tok(a);
                        self.pp(g.stream());
                        self.tok(b);
                        if !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ";,.?".contains(p.as_char())) {
                            self.raw(" ");
                        }
                    }
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.tok(&c.to_string());
                    if c == ';' {
                        self.nl();
                    } else if c == ',' && self.ind > 0 {
                        self.raw(" ");
                    } else if p.spacing() == Spacing::Alone && !"&.!'*".contains(c) {
                        self.raw(" ");
                    }
                }
                TokenTree::Ident(x) => {
                    self.tok(&x.to_string());
                    let glue = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ".,;:?".contains(p.as_char()))
                        || matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char()=='!' && matches!(v.get(i+2), Some(TokenTree::Group(_))))
                        || matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() != Delimiter::Brace);
                    if !glue {
                        self.raw(" ");
                    }
                }
                TokenTree::Literal(l) => {
                    self.tok(&l.to_string());
                    if !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ".,;?".contains(p.as_char())) {
                        self.raw(" ");
                    }
                }
            }
            i += 1;
        }
    }
}

// ------------------------------------------------------------ annotation

struct Annotator<'a> {
    ann: &'a FnAnn,
    out: &'a mut Vec<Ann>,
    loops: usize,
    canary: bool,
    counts: BTreeMap<String, usize>,
    used_hints: BTreeSet<usize>,
    pre: Vec<Clause>,
    func: String,
}

fn marker_stmt(n: usize) -> Stmt {
    let l = proc_macro2::Literal::usize_unsuffixed(n);
    parse2(quote!( __va!(#l); )).unwrap()
}

/// Each in a case of its own: one that fails leaves nothing assumed false.
fn canary_clause(n: usize, w: &str) -> Clause {
    Clause {
        text: format!("proof {{ if crate::canary({}) {{ assert(false); }} }} // canary {}", n, w),
        origin: "canary".into(), always: true,
        line: 0,
    }
}

struct CallNames(Vec<String>);
impl<'a> Visit<'a> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                self.0.push(s.ident.to_string());
            }
        }
    }
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_match(&mut self, m: &'a ExprMatch) {
        self.visit_expr(&m.expr);
    }
    fn visit_expr_if(&mut self, m: &'a ExprIf) {
        self.visit_expr(&m.cond);
    }
}

impl<'a> Annotator<'a> {
    fn push(&mut self, a: Ann) -> Stmt {
        self.out.push(a);
        marker_stmt(self.out.len() - 1)
    }
    fn do_loop(&mut self, body: &mut Block, over: Option<(String, String)>) {
        let k = self.loops;
        self.loops += 1;
        visit_mut::visit_block_mut(self, body);
        let mut la = self.ann.loops.get(&k).cloned().unwrap_or_default();
        if let Some((i, v)) = over {
            // $i: the index, $v: what the loop goes through
            for l in [&mut la.pre, &mut la.inv, &mut la.inx, &mut la.ens, &mut la.dec, &mut la.top, &mut la.end] {
                for c in l.iter_mut() {
                    c.text = c.text.replace("$i", &i).replace("$v", &v);
                }
            }
        }
        let mut dec = la.dec.clone();
        if dec.is_empty() {
            dec = vec![];
        }
        let mut pre = vec![];
        pre.push(self.push(Ann::Header(vec![
            ("invariant_except_break".into(), la.inx.clone()),
            ("invariant".into(), la.inv.clone()),
            ("ensures".into(), la.ens.clone()),
            ("decreases".into(), dec),
        ])));
        if self.canary {
            pre.push(self.push(Ann::Inline("canary".into(), vec![canary_clause(self.out.len(), &format!("loop {}", k))])));
        }
        if !la.top.is_empty() {
            pre.push(self.push(Ann::Inline("hint".into(), la.top.clone())));
        }
        self.pre = la.pre.clone();
        let mut stmts = pre;
        stmts.extend(std::mem::take(&mut body.stmts));
        if !la.end.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                *semi = Some(Default::default());
            }
            stmts.push(self.push(Ann::Inline("hint".into(), la.end.clone())));
        }
        body.stmts = stmts;
    }
}

/// `i < v.len()`
fn walks(e: &Expr) -> Option<(String, String)> {
    if let Expr::Binary(b) = e {
        if let (BinOp::Lt(_), Expr::Path(i), Expr::MethodCall(m)) = (&b.op, &*b.left, &*b.right) {
            if m.method == "len" {
                return Some((ts(i).replace(' ', ""), ts(&m.receiver).replace(' ', "")));
            }
        }
    }
    None
}

impl<'a> VisitMut for Annotator<'a> {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.visit_expr_mut(&mut w.cond);
        self.do_loop(&mut w.body, walks(&w.cond));
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        self.do_loop(&mut w.body, None);
    }
    fn visit_expr_for_loop_mut(&mut self, w: &mut ExprForLoop) {
        self.visit_expr_mut(&mut w.expr);
        self.do_loop(&mut w.body, None);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let name = match &a.pat {
            Pat::TupleStruct(t) => ts(&t.path).replace(' ', ""),
            Pat::Path(t) => ts(&t.path).replace(' ', ""),
            Pat::Struct(t) => ts(&t.path).replace(' ', ""),
            p => ts(p).replace(' ', ""),
        };
        let mut cls = vec![];
        for (i, h) in self.ann.hints.iter().enumerate() {
            if h.kind == "arm" && h.name == name {
                cls.push(h.clause.clone());
                self.used_hints.insert(i);
            }
        }
        if !cls.is_empty() {
            let m = self.push(Ann::Inline("hint".into(), cls));
            let b = &a.body;
            a.body = Box::new(parse2(quote!({ #m #b })).unwrap());
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let mut cn = CallNames(vec![]);
            match &s {
                Stmt::Expr(e, _) => cn.visit_expr(e),
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        cn.visit_expr(&i.expr)
                    }
                }
                _ => {}
            }
            let mut before = vec![];
            let mut after = vec![];
            for n in cn.0 {
                let c = self.counts.entry(n.clone()).or_insert(0);
                let k = *c;
                *c += 1;
                for (i, h) in self.ann.hints.iter().enumerate() {
                    if h.name == n && h.k == k {
                        if h.kind == "before" {
                            before.push(h.clause.clone());
                            self.used_hints.insert(i);
                        } else if h.kind == "after" {
                            after.push(h.clause.clone());
                            self.used_hints.insert(i);
                        }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let pre = std::mem::take(&mut self.pre);
            if !pre.is_empty() && matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _)) {
                out.push(self.push(Ann::Inline("hint".into(), pre)));
            }
            if !before.is_empty() {
                out.push(self.push(Ann::Inline("hint".into(), before)));
            }
            if !after.is_empty() {
                if let Stmt::Expr(_, None) = &mut s {
                    // A tail expression: bind it, so that the hint can follow.
                    let e = match &s {
                        Stmt::Expr(e, _) => e.clone(),
                        _ => unreachable!(),
                    };
                    let isblocky = matches!(
                        e,
                        Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_)
                    );
                    let _ = isblocky;
                    out.push(parse2(quote!( let __tail = #e; )).unwrap());
                    out.push(self.push(Ann::Inline("hint".into(), after)));
                    out.push(Stmt::Expr(parse2(quote!(__tail)).unwrap(), None));
                    continue;
                }
                out.push(s);
                out.push(self.push(Ann::Inline("hint".into(), after)));
                continue;
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

// ------------------------------------------------------------ extraction

struct Ctx {
    ov: Overlay,
    /// Made to be run, not verified.
    exec: bool,
    canary: bool,
    baseline: BTreeMap<String, Vec<String>>, // fn -> binding names (pinned tree)
    out: Out,
    rules: BTreeMap<String, usize>,
    errors: Vec<String>,
    fn_ranges: Vec<(String, usize, usize)>,
    seen: BTreeSet<String>,
    inlined: Vec<String>,
    hashes: BTreeMap<String, String>,
    bindings: BTreeMap<String, Vec<String>>,
    dropped: Vec<String>,
    loops: BTreeMap<String, usize>,
    clause_count: BTreeMap<String, usize>,
    splits: BTreeMap<String, usize>,
    io: BTreeSet<String>,
}

struct Binds(Vec<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !self.0.contains(&n) && n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = ts(&a.meta);
            t.contains("test") || t.contains("wasm32")
        }
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(s) = m.path.segments.last() {
                    v.push(s.ident.to_string());
                }
                Ok(())
            });
        }
    }
    v
}

fn keep_derives(d: &[String], exec: bool) -> TokenStream {
    let has = |x: &str| d.iter().any(|y| y == x);
    let dbg = if exec && has("Debug") { quote!(#[derive(Debug)]) } else { quote!() };
    if has("Copy") && has("Eq") {
        quote!(#dbg #[derive(Copy, Clone, PartialEq, Eq)])
    } else if has("Copy") {
        quote!(#dbg #[derive(Copy, Clone)])
    } else {
        dbg
    }
}

fn strip_attrs(attrs: &mut Vec<Attribute>) {
    attrs.clear();
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

impl Ctx {
    fn emit_fn(
        &mut self,
        module: &str,
        ty: Option<&str>,
        sig: &Signature,
        block: &Block,
        is_trait: bool,
        helpers: &BTreeMap<String, Helper>,
        statics: &BTreeSet<String>,
    ) {
        let name = sig.ident.to_string();
        let key = match ty {
            Some(t) => format!("{}::{}::{}", module, t, name),
            None => format!("{}::{}", module, name),
        };
        if self.ov.drop.contains(&key)
            || self.ov.drop.contains(&format!("{}::*", module)) && !self.ov.fns.contains_key(&key)
        {
            self.dropped.push(key);
            return;
        }
        let mut ann = self.ov.fns.get(&key).cloned().unwrap_or_default();
        self.seen.insert(key.clone());
        let mut sig = sig.clone();
        let mut block = block.clone();
        let io = self.io.contains(&name) && ty.is_none();
        StripAttrs.visit_signature_mut(&mut sig);
        StripAttrs.visit_block_mut(&mut block);
        // T9 inline helpers
        let mut inl = Inliner { helpers, fresh: 0, depth: 0, count: 0, errors: vec![] };
        inl.tail_block(&mut block);
        if inl.count > 0 {
            self.inlined.push(format!("{} ({} site(s))", key, inl.count));
        }
        for e in inl.errors {
            self.errors.push(format!("{}: {}", key, e));
        }
        // bindings (before other rewrites)
        let mut b = Binds(vec![]);
        for i in &sig.inputs {
            b.visit_fn_arg(i);
        }
        b.visit_block(&block);
        self.bindings.insert(key.clone(), b.0.clone());
        // Locals which were renamed: contracts mention the pinned names.
        if let Some(base) = self.baseline.get(&key) {
            if base.len() == b.0.len() {
                let map: Vec<(String, String)> = base
                    .iter()
                    .zip(b.0.iter())
                    .filter(|(x, y)| x != y)
                    .map(|(x, y)| (x.clone(), y.clone()))
                    .collect();
                if !map.is_empty() {
                    rename_ann(&mut ann, &map);
                }
            }
        }
        // R-world: input and output
        let mut wlits = BTreeSet::new();
        if self.ov.fmt.iter().any(|m| m == module) {
            let mut w = world::Fmt::new();
            w.signature(&mut sig);
            w.visit_block_mut(&mut block);
            if ty.is_some() && name == "fmt" {
                sig.ident = Ident::new("v_fmt", sig.ident.span());
            }
            wlits.extend(w.lits);
            *self.rules.entry("R-fmt".into()).or_insert(0) += w.used;
            for e in w.errors {
                self.errors.push(format!("{}: {}", key, e));
            }
        }
        if self.ov.world.iter().any(|m| m == module) {
            let set = self.io.clone();
            let mut w = world::World { io: &set, used: 0, fresh: 0, lits: BTreeSet::new(), errors: vec![] };
            w.visit_block_mut(&mut block);
            wlits.extend(w.lits);
            *self.rules.entry("R-world".into()).or_insert(0) += w.used;
            for e in w.errors {
                self.errors.push(format!("{}: {}", key, e));
            }
            if io {
                sig.inputs.push(parse2(quote!( __w: &mut World )).unwrap());
            }
        }
        // rewrites
        let mut runs = self.exec.then(|| (Rewriter::new(statics.clone()), block.clone()));
        let mut rw = Rewriter::new(statics.clone());
        rw.lits = wlits;
        rw.visit_block_mut(&mut block);
        for (k, n) in &rw.used {
            *self.rules.entry(k.to_string()).or_insert(0) += n;
        }
        for e in &rw.errors {
            self.errors.push(format!("{}: {}", key, e));
        }
        let nclauses0 = ann.req.len() + ann.ens.len() + ann.dec.len();
        let nclauses: usize = nclauses0
            + ann.loops.values().map(|l| l.inv.len() + l.inx.len() + l.ens.len() + l.dec.len()).sum::<usize>();
        self.clause_count.insert(key.clone(), nclauses);
        if let Some(t) = &ann.tryty {
            let ty: Path = syn::parse_str(t).unwrap();
            QuestionMark { ty: ty.clone(), rw: &mut rw }.visit_block_mut(&mut block);
            if let Some((r, b)) = &mut runs {
                r.exec = true;
                r.visit_block_mut(b);
                QuestionMark { ty, rw: r }.visit_block_mut(b);
            }
        } else if let Some((r, b)) = &mut runs {
            r.exec = true;
            r.visit_block_mut(b);
        }
        // The code the proof is about, contracts aside.
        if !ann.external {
            self.hashes.insert(key.clone(), fnv(&format!("{}{}", ts(&sig), ts(&block))));
        }
        if let Some((_, b)) = runs {
            block = b;
            ann.external = true;
            self.emit_body(&key, &sig, block, &ann, BTreeSet::new(), is_trait);
            return;
        }
        if ann.external {
            block = parse2(quote!({ unimplemented!() })).unwrap();
            ann.loops.clear();
            ann.hints.clear();
            ann.entry.clear();
        }
        if ann.split.is_empty() || ann.external {
            self.emit_body(&key, &sig, block, &ann, rw.lits, is_trait);
            return;
        }
        // A case split: the contract once, without its body, for the callers,
        // and a copy of the body per case, the last one for "none of these".
        let mut ext = ann.clone();
        ext.external = true;
        ext.entry.clear();
        ext.attrs.clear();
        ext.hints.clear();
        ext.loops.clear();
        let empty: Block = parse2(quote!({ unimplemented!() })).unwrap();
        self.emit_body(&key, &sig, empty, &ext, BTreeSet::new(), is_trait);
        self.splits.insert(key.clone(), ann.split.len() + 1);
        let name = sig.ident.to_string();
        for k in 0..=ann.split.len() {
            let mut a = ann.clone();
            let mut c = if k < ann.split.len() {
                let mut c = ann.split[k].clone();
                c.text = format!("({})", c.text);
                c
            } else {
                let mut c = ann.split[0].clone();
                c.text = ann.split.iter().map(|x| format!("!({})", x.text)).collect::<Vec<_>>().join(" && ");
                c
            };
            c.origin = "split".into();
            a.req.push(c);
            let mut sg = sig.clone();
            sg.ident = Ident::new(&format!("{}__case{}", name, k), sig.ident.span());
            self.emit_body(&key, &sg, block.clone(), &a, rw.lits.clone(), is_trait);
        }
    }

    fn emit_body(
        &mut self,
        key: &str,
        sig: &Signature,
        mut block: Block,
        ann: &FnAnn,
        lits: BTreeSet<String>,
        is_trait: bool,
    ) {
        let key = key.to_string();
        // annotations
        let mut an = Annotator {
            ann,
            out: &mut self.out.anns,
            loops: 0,
            canary: self.canary,
            counts: BTreeMap::new(),
            used_hints: BTreeSet::new(),
            pre: vec![],
            func: key.clone(),
        };
        an.visit_block_mut(&mut block);
        let nloops = if ann.external { self.loops.get(&key).copied().unwrap_or(0).max(an.loops) } else { an.loops };
        let _ = &an.func;
        self.loops.insert(key.clone(), nloops);
        let mut pre = vec![];
        let mut dec = ann.dec.clone();
        if dec.is_empty() {
            dec = vec![];
        }
        let hdr = Ann::Header(vec![
            ("requires".into(), ann.req.clone()),
            ("ensures".into(), ann.ens.clone()),
            ("decreases".into(), dec),
        ]);
        self.out.anns.push(hdr);
        pre.push(marker_stmt(self.out.anns.len() - 1));
        let (hides, entry): (Vec<Clause>, Vec<Clause>) =
            ann.entry.iter().cloned().partition(|c| c.text.trim_start().starts_with("hide("));
        if !hides.is_empty() {
            self.out.anns.push(Ann::Inline("hint".into(), hides));
            pre.push(marker_stmt(self.out.anns.len() - 1));
        }
        if !lits.is_empty() && !ann.external {
            let mut t = String::from("proof {");
            for l in &lits {
                t.push_str(&format!(" reveal_strlit({:?});", l));
            }
            t.push_str(" }");
            self.out.anns.push(Ann::Inline(
                "auto".into(),
                vec![Clause { text: t, origin: "auto".into(), always: true, line: 0 }],
            ));
            pre.push(marker_stmt(self.out.anns.len() - 1));
        }
        if self.canary && !ann.external {
            self.out.anns.push(Ann::Inline("canary".into(), vec![canary_clause(self.out.anns.len(), "entry")]));
            pre.push(marker_stmt(self.out.anns.len() - 1));
        }
        if !entry.is_empty() {
            self.out.anns.push(Ann::Inline("hint".into(), entry));
            pre.push(marker_stmt(self.out.anns.len() - 1));
        }
        let mut stmts = pre;
        stmts.extend(std::mem::take(&mut block.stmts));
        block.stmts = stmts;

        let ret = Ident::new(ann.ret.as_deref().unwrap_or("r"), Span::call_site());
        let unsafety = &sig.unsafety;
        let id = &sig.ident;
        let gen = &sig.generics;
        let wh = &gen.where_clause;
        let inputs = &sig.inputs;
        let (gi, _, _) = gen.split_for_impl();
        let gparams = &gen.params;
        let g = if gparams.is_empty() { quote!() } else { quote!(<#gparams>) };
        let _ = gi;
        let output = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!( -> (#ret: #t) ),
        };
        let vis = if is_trait { quote!() } else { quote!(pub) };
        self.out.nl();
        self.out.func = key.clone();
        let lo = self.out.line;
        for a in &ann.attrs {
            let t = format!("{}\n", a.text);
            self.out.raw(&t);
        }
        if ann.external {
            self.out.raw("#[verifier::external_body]\n");
        }
        self.out.pp(quote!( #vis #unsafety fn #id #g ( #inputs ) #output #wh #block ));
        self.out.nl();
        let hi = self.out.line - 1;
        self.fn_ranges.push((key.clone(), lo, hi));
        self.out.func = String::new();
    }
}

fn rename_ann(a: &mut FnAnn, map: &[(String, String)]) {
    let f = |c: &mut Clause| {
        if let Ok(t) = c.text.parse::<TokenStream>() {
            fn go(t: TokenStream, map: &[(String, String)]) -> TokenStream {
                let mut prev_dot = false;
                t.into_iter()
                    .map(|x| match x {
                        TokenTree::Ident(i) => {
                            let n = i.to_string();
                            let r = if prev_dot {
                                i
                            } else if let Some((_, y)) = map.iter().find(|(x, _)| *x == n) {
                                Ident::new(y, i.span())
                            } else {
                                i
                            };
                            prev_dot = false;
                            TokenTree::Ident(r)
                        }
                        TokenTree::Group(g) => {
                            prev_dot = false;
                            TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), map)))
                        }
                        TokenTree::Punct(p) => {
                            prev_dot = p.as_char() == '.';
                            TokenTree::Punct(p)
                        }
                        l => {
                            prev_dot = false;
                            l
                        }
                    })
                    .collect()
            }
            c.text = go(t, map).to_string();
        }
    };
    for c in a.req.iter_mut().chain(a.ens.iter_mut()).chain(a.dec.iter_mut()).chain(a.entry.iter_mut()) {
        f(c);
    }
    for l in a.loops.values_mut() {
        for c in l
            .inv
            .iter_mut()
            .chain(l.pre.iter_mut())
            .chain(l.inx.iter_mut())
            .chain(l.ens.iter_mut())
            .chain(l.dec.iter_mut())
            .chain(l.top.iter_mut())
            .chain(l.end.iter_mut())
        {
            f(c);
        }
    }
    for h in a.hints.iter_mut() {
        f(&mut h.clause);
    }
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => ts(t),
    }
}

fn all_pub(f: &mut Fields) {
    for x in f.iter_mut() {
        x.vis = parse2(quote!(pub)).unwrap();
        strip_attrs(&mut x.attrs);
    }
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut repo = PathBuf::from("/repo");
    let mut ovp = None;
    let mut outp = PathBuf::from("out.rs");
    let mut mapp = None;
    let mut canary = false;
    let mut driver: Option<PathBuf> = None;
    let mut props: Option<Vec<String>> = None;
    let mut basep: Option<PathBuf> = None;
    let mut write_base: Option<PathBuf> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap().into(),
            "--overlay" => ovp = Some(PathBuf::from(args.next().unwrap())),
            "--out" => outp = args.next().unwrap().into(),
            "--map" => mapp = Some(PathBuf::from(args.next().unwrap())),
            "--canary" => canary = true,
            "--exec" => driver = args.next().map(|x| x.into()),
            "--props" => props = args.next().map(|x| x.split(',').map(|s| s.to_string()).collect()),
            "--baseline" => basep = args.next().map(|x| x.into()),
            "--words" => return words::print(&repo),
            "--write-baseline" => write_base = args.next().map(|x| x.into()),
            _ => {
                eprintln!("bad arg {}", a);
                std::process::exit(2)
            }
        }
    }
    let mut ov = Overlay::default();
    if let Err(e) = ov.load(&ovp.expect("--overlay")) {
        eprintln!("overlay error: {}", e);
        std::process::exit(2);
    }
    if let Some(p) = &props {
        ov.keep(p);
    }
    let mut baseline = BTreeMap::new();
    if let Some(b) = &basep {
        if let Ok(t) = std::fs::read_to_string(b) {
            for l in t.lines() {
                let mut it = l.split_whitespace();
                if let Some(k) = it.next() {
                    baseline.insert(k.to_string(), it.map(|s| s.to_string()).collect());
                }
            }
        }
    }
    let mut cx = Ctx {
        ov,
        exec: driver.is_some(),
        canary,
        baseline,
        out: Out { s: String::new(), line: 1, ind: 0, bol: true, regions: vec![], anns: vec![], func: String::new() },
        rules: BTreeMap::new(),
        errors: vec![],
        fn_ranges: vec![],
        seen: BTreeSet::new(),
        inlined: vec![],
        hashes: BTreeMap::new(),
        bindings: BTreeMap::new(),
        dropped: vec![],
        loops: BTreeMap::new(),
        clause_count: BTreeMap::new(),
        splits: BTreeMap::new(),
        io: BTreeSet::new(),
    };
    cx.out.raw("// GENERATED by vx from the working tree; do not edit.\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code)]\n#![verifier::exec_allows_no_decreases_clause_off]\n".replace("#![verifier::exec_allows_no_decreases_clause_off]\n", "").as_str());
    cx.out.raw("use vstd::prelude::*;\nverus! {\n");
    if cx.canary {
        cx.out.raw("pub uninterp spec fn canary(n: int) -> bool;\n");
    }
    let libs = cx.ov.libs.clone();
    cx.out.raw("pub mod vlib {\nuse vstd::prelude::*;\nuse vstd::string::*;\n");
    for (n, t) in &libs {
        let lo = cx.out.line;
        cx.out.raw(t);
        cx.out.nl();
        let hi = cx.out.line - 1;
        cx.out.regions.push(Region { lo, hi, func: String::new(), kind: "lib".into(), origin: n.clone(), text: String::new() });
    }
    cx.out.raw("} // vlib\n");
    let files = cx.ov.extract.clone();
    for f in &files {
        let path = repo.join("src").join(f);
        let src = match std::fs::read_to_string(&path) {
            Ok(s) => s,
            Err(e) => {
                cx.errors.push(format!("{}: {}", path.display(), e));
                continue;
            }
        };
        let module = f.trim_end_matches(".rs").to_string();
        let file = match parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                cx.errors.push(format!("{}: parse error {}", path.display(), e));
                continue;
            }
        };
        extract_module(&mut cx, &module, &file);
    }
    match &driver {
        None => cx.out.raw("} // verus!\nfn main() {}\n"),
        Some(d) => {
            cx.out.raw("} // verus!\n");
            cx.out.raw(&std::fs::read_to_string(d).expect("driver"));
        }
    }
    // lost anchors: functions with clauses that were not found
    let mut lost = vec![];
    for (k, a) in &cx.ov.fns {
        let m = k.split("::").next().unwrap();
        if !cx.seen.contains(k) && files.iter().any(|f| f.trim_end_matches(".rs") == m) {
            if !a.req.is_empty() || !a.ens.is_empty() || !a.loops.is_empty() {
                lost.push(k.clone());
            }
        }
    }
    // loops without/with mismatching annotations
    let mut lostloops = vec![];
    for (k, a) in &cx.ov.fns {
        if let Some(n) = cx.loops.get(k) {
            if let Some(m) = a.loops.keys().max() {
                if m + 1 > *n {
                    lostloops.push(format!("{} (contracts for {} loops, found {})", k, m + 1, n));
                }
            }
        }
    }
    std::fs::write(&outp, &cx.out.s).unwrap();
    if let Some(b) = &write_base {
        let mut t = String::new();
        for (k, v) in &cx.bindings {
            t.push_str(&format!("{} {}\n", k, v.join(" ")));
        }
        std::fs::write(b, t).unwrap();
    }
    if let Some(m) = mapp {
        let mut j = String::from("{\n");
        let list = |v: &Vec<String>| {
            format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
        };
        j.push_str(&format!("\"errors\": {},\n", list(&cx.errors)));
        j.push_str(&format!("\"lost\": {},\n", list(&lost)));
        j.push_str(&format!("\"lost_loops\": {},\n", list(&lostloops)));
        j.push_str(&format!("\"inlined\": {},\n", list(&cx.inlined)));
        j.push_str(&format!("\"dropped\": {},\n", list(&cx.dropped)));
        j.push_str(&format!(
            "\"rules\": {{{}}},\n",
            cx.rules.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(
            "\"code\": {{{}}},\n",
            cx.hashes.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(v))).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(
            "\"splits\": {{{}}},\n",
            cx.splits.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(
            "\"functions\": [{}],\n",
            cx.fn_ranges
                .iter()
                .map(|(k, a, b)| format!(
                    "{{\"name\": {}, \"lo\": {}, \"hi\": {}, \"clauses\": {}, \"loops\": {}, \"external\": {}}}",
                    json_str(k), a, b, cx.clause_count[k], cx.loops[k],
                    cx.ov.fns.get(k).map_or(false, |f| f.external)
                ))
                .collect::<Vec<_>>()
                .join(",\n ")
        ));
        j.push_str(&format!(
            "\"regions\": [{}]\n}}\n",
            cx.out
                .regions
                .iter()
                .map(|r| format!(
                    "{{\"lo\": {}, \"hi\": {}, \"fn\": {}, \"kind\": {}, \"origin\": {}, \"text\": {}}}",
                    r.lo, r.hi, json_str(&r.func), json_str(&r.kind), json_str(&r.origin), json_str(&r.text)
                ))
                .collect::<Vec<_>>()
                .join(",\n ")
        ));
        std::fs::write(m, j).unwrap();
    }
}

fn extract_module(cx: &mut Ctx, module: &str, file: &File) {
    // helpers: functions which the pinned tree does not have and the overlay
    // gives no contract; or which the overlay asks to inline.
    let mut helpers: BTreeMap<String, Helper> = BTreeMap::new();
    let mut statics = BTreeSet::new();
    let is_helper = |cx: &Ctx, key: &str| {
        if let Some(a) = cx.ov.fns.get(key) {
            return a.inline;
        }
        !cx.baseline.is_empty()
            && !cx.baseline.contains_key(key)
            && !cx.ov.drop.iter().any(|d| d == key || d.strip_suffix("::*").map_or(false, |m| key.starts_with(&format!("{}::", m))))
    };
    for it in &file.items {
        match it {
            Item::Fn(f) if !is_cfg_test(&f.attrs) => {
                let key = format!("{}::{}", module, f.sig.ident);
                if is_helper(cx, &key) {
                    helpers.insert(
                        f.sig.ident.to_string(),
                        Helper { sig: f.sig.clone(), block: (*f.block).clone(), has_self: false },
                    );
                }
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let ty = type_name(&im.self_ty);
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let key = format!("{}::{}::{}", module, ty, f.sig.ident);
                        if is_helper(cx, &key) {
                            helpers.insert(
                                f.sig.ident.to_string(),
                                Helper {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    has_self: f.sig.receiver().is_some(),
                                },
                            );
                        }
                    }
                }
            }
            Item::Macro(_) if cx.ov.drop.contains(&format!("{}::*", module)) => {}
            Item::Macro(m) if m.mac.path.is_ident("lazy_static") => {
                let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                for w in toks.windows(3) {
                    if let (TokenTree::Ident(a), TokenTree::Ident(b), TokenTree::Ident(c)) = (&w[0], &w[1], &w[2]) {
                        if a == "static" && b == "ref" {
                            statics.insert(c.to_string());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    cx.io = if cx.ov.world.iter().any(|m| m == module) {
        let asked = cx
            .ov
            .fns
            .iter()
            .filter(|(k, a)| k.starts_with(&format!("{}::", module)) && a.req.iter().chain(&a.ens).any(|c| c.text.contains("__w")))
            .map(|(k, _)| k.rsplit("::").next().unwrap().to_string())
            .collect();
        world::io_functions(file, &asked)
    } else {
        BTreeSet::new()
    };
    cx.out.nl();
    cx.out.raw(&format!("pub mod {} {{\n", module));
    cx.out.raw("use vstd::prelude::*;\nuse vstd::string::*;\nuse crate::vlib::*;\n");
    for it in &file.items {
        match it {
            Item::Use(u) => {
                if is_cfg_test(&u.attrs) {
                    continue;
                }
                let t = ts(&u.tree).replace(' ', "");
                let root = t.split("::").next().unwrap_or("").to_string();
                let keep = match root.as_str() {
                    "crate" => {
                        // only modules that are extracted
                        let m = t.split("::").nth(1).unwrap_or("");
                        cx.ov.extract.iter().any(|f| f.trim_end_matches(".rs") == m)
                    }
                    "std" => ["std::cmp::Ordering", "std::ops::Deref"].contains(&t.as_str()),
                    "whitespace" => {
                        let m = t.split("::").nth(1).unwrap_or("");
                        cx.ov.extract.iter().any(|f| f.trim_end_matches(".rs") == m)
                    }
                    _ => !["argparse", "fnv", "indexmap", "lazy_static", "unicode_segmentation", "serde", "wasm_bindgen", "self"]
                        .contains(&root.as_str()),
                };
                if keep {
                    let tree = t.replace("whitespace::", "crate::");
                    cx.out.raw(&format!("pub use {};\n", tree.replace(",", ", ")));
                }
            }
            Item::Const(c) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse2(quote!(pub)).unwrap();
                cx.out.pp(c.to_token_stream());
                cx.out.nl();
            }
            Item::Type(c) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse2(quote!(pub)).unwrap();
                cx.out.pp(c.to_token_stream());
                cx.out.nl();
            }
            Item::Struct(s) => {
                if is_cfg_test(&s.attrs) {
                    continue;
                }
                let key = format!("{}::{}", module, s.ident);
                if cx.ov.drop.contains(&key) {
                    cx.dropped.push(key);
                    continue;
                }
                let d = keep_derives(&derives(&s.attrs), cx.exec);
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse2(quote!(pub)).unwrap();
                all_pub(&mut s.fields);
                cx.out.pp(quote!(#d #s));
                cx.out.nl();
                if ts(&d).contains("PartialEq") {
                    cx.out.raw(&format!("#[verifier::external]\nunsafe impl Structural for {} {{}}\n", s.ident));
                }
            }
            Item::Enum(s) => {
                if is_cfg_test(&s.attrs) {
                    continue;
                }
                let key = format!("{}::{}", module, s.ident);
                if cx.ov.drop.contains(&key) {
                    cx.dropped.push(key);
                    continue;
                }
                let d = keep_derives(&derives(&s.attrs), cx.exec);
                let mut s = s.clone();
                if s.variants.is_empty() {
                    // Verus has no empty enums: a type of which nothing is known.
                    cx.out.raw(&format!("#[verifier::external_body]\npub struct {} {{ x: () }}\n", s.ident));
                    continue;
                }
                s.attrs.clear();
                s.vis = parse2(quote!(pub)).unwrap();
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
                cx.out.pp(quote!(#d #s));
                cx.out.nl();
                if ts(&d).contains("PartialEq") {
                    cx.out.raw(&format!("#[verifier::external]\nunsafe impl Structural for {} {{}}\n", s.ident));
                }
            }
            Item::Fn(f) => {
                if is_cfg_test(&f.attrs) || helpers.contains_key(&f.sig.ident.to_string()) {
                    continue;
                }
                cx.emit_fn(module, None, &f.sig, &f.block, false, &helpers, &statics);
            }
            Item::Impl(im) => {
                if is_cfg_test(&im.attrs) {
                    continue;
                }
                let ty = type_name(&im.self_ty);
                let mut is_trait = false;
                let mut shows = false;
                if let Some((_, p, _)) = &im.trait_ {
                    let n = p.segments.last().unwrap().ident.to_string();
                    if n == "Display" && cx.ov.fmt.iter().any(|m| m == module) {
                        shows = true;
                    } else if !["From", "Default"].contains(&n.as_str()) {
                        cx.dropped.push(format!("{}: impl {} for {}", module, n, ty));
                        continue;
                    }
                    let tk = format!("{}::{}::{}", module, ty, n);
                    if cx.ov.drop.contains(&tk) {
                        cx.dropped.push(tk);
                        continue;
                    }
                    is_trait = !shows;
                }
                if cx.ov.drop.contains(&format!("{}::{}", module, ty)) {
                    continue;
                }
                let g = &im.generics;
                let (gi, _, wh) = g.split_for_impl();
                let st = &im.self_ty;
                let tr = im.trait_.as_ref().filter(|_| is_trait).map(|(_, p, _)| quote!(#p for)).unwrap_or_default();
                cx.out.nl();
                cx.out.pp(quote!(impl #gi #tr #st #wh));
                cx.out.raw(" {\n");
                cx.out.ind += 1;
                for x in &im.items {
                    match x {
                        ImplItem::Fn(f) => {
                            if is_cfg_test(&f.attrs) || (!is_trait && helpers.contains_key(&f.sig.ident.to_string())) {
                                continue;
                            }
                            cx.emit_fn(module, Some(&ty), &f.sig, &f.block, is_trait, &helpers, &statics);
                        }
                        ImplItem::Const(c) => {
                            let mut c = c.clone();
                            c.attrs.clear();
                            cx.out.pp(quote!(#c));
                        }
                        ImplItem::Type(t) => {
                            cx.out.pp(quote!(#t));
                        }
                        _ => {}
                    }
                }
                cx.out.ind -= 1;
                cx.out.nl();
                cx.out.raw("}\n");
            }
            Item::Macro(_) if cx.ov.drop.contains(&format!("{}::*", module)) => {}
            Item::Macro(m) if m.mac.path.is_ident("lazy_static") => {
                // static ref NAME: TY = BLOCK;  (one or more)
                struct S(Vec<(Ident, Type, Expr)>);
                impl parse::Parse for S {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let mut v = vec![];
                        while !i.is_empty() {
                            let _ = i.call(Attribute::parse_outer)?;
                            let _: Visibility = i.parse()?;
                            i.parse::<Token![static]>()?;
                            i.parse::<Token![ref]>()?;
                            let n = i.parse()?;
                            i.parse::<Token![:]>()?;
                            let t = i.parse()?;
                            i.parse::<Token![=]>()?;
                            let e = i.parse()?;
                            i.parse::<Token![;]>()?;
                            v.push((n, t, e));
                        }
                        Ok(S(v))
                    }
                }
                match m.mac.parse_body::<S>() {
                    Ok(S(v)) => {
                        for (n, t, e) in v {
                            let f = Ident::new(&format!("{}__init", n), Span::call_site());
                            let b: Block = match e {
                                Expr::Block(b) => b.block,
                                e => parse2(quote!({ #e })).unwrap(),
                            };
                            let sig: Signature = parse2(quote!( fn #f () -> #t )).unwrap();
                            cx.emit_fn(module, None, &sig, &b, false, &helpers, &statics);
                        }
                    }
                    Err(e) => cx.errors.push(format!("{}: lazy_static: {}", module, e)),
                }
            }
            Item::Mod(_) | Item::Trait(_) | Item::Macro(_) | Item::Static(_) => {}
            _ => {}
        }
    }
    let specs = cx.ov.specs.get(module).cloned().unwrap_or_default();
    for c in specs {
        let lo = cx.out.line;
        cx.out.nl();
        cx.out.raw(&c.text);
        cx.out.nl();
        let hi = cx.out.line - 1;
        cx.out.regions.push(Region { lo, hi, func: String::new(), kind: "spec".into(), origin: c.origin.clone(), text: String::new() });
    }
    cx.out.nl();
    cx.out.raw(&format!("}} // mod {}\n", module));
}

/// `e?` where the error is converted: `match e { Ok(v) => v, Err(e) => return Err(T::from(e)) }`.
struct QuestionMark<'r> {
    ty: Path,
    rw: &'r mut Rewriter,
}
impl<'r> VisitMut for QuestionMark<'r> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let (x, ty) = (&t.expr, &self.ty);
            self.rw.hit("R-try");
            *e = syn::parse_quote!((match #x { Ok(v__) => v__, Err(e__) => return Err(#ty::from(e__)) }));
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
