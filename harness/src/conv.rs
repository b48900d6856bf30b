// Included once per crate under comparison (`w` is the crate).
use super::{Ast, Errs, Scan, Tok};
use w::ast::*;

pub fn scan(src: &str) -> Scan {
    let mut s = w::scanner::Scanner::new(src);
    match s.scan_tokens() {
        Ok(ts) => {
            let base = src.as_ptr() as usize;
            let end = base + src.len();
            Ok(ts
                .iter()
                .map(|t| {
                    let p = t.lexeme.as_ptr() as usize;
                    Tok {
                        kind: format!("{:?}", t.token_type),
                        lex: t.lexeme.to_string(),
                        lo: if p >= base && p <= end { p - base } else { usize::MAX },
                        text: t.string_literal.map(|x| x.to_string()),
                        num: t.float_literal.map(|x| x.to_bits()),
                        line: t.line,
                        col: t.column as u32,
                    }
                })
                .collect())
        }
        Err(e) => Err(errs(&e)),
    }
}

fn errs(e: &w::error::ParseError) -> Errs {
    e.causes
        .iter()
        .map(|c| (c.source_loc.line, c.source_loc.column as u32, c.token.clone(), c.message.clone()))
        .collect()
}

fn loc(l: &w::source_loc::SourceLoc) -> Option<(u32, u32)> {
    Some((l.line, l.column as u32))
}

fn n(name: &'static str, text: Vec<String>, l: Option<(u32, u32)>, slot: Option<String>, kids: Vec<Ast>) -> Ast {
    Ast { name, text, loc: l, slot, kids }
}

pub fn stmts(v: &[Stmt]) -> Vec<Ast> {
    v.iter().map(stmt).collect()
}

fn fun(f: &FunctionDefinition) -> Ast {
    n(
        "fundef",
        vec![format!("{:?}", f.fun_type)],
        loc(&f.source_loc),
        None,
        f.parameters
            .iter()
            .map(|p| n("param", vec![p.name.clone()], loc(&p.source_loc), None, vec![]))
            .chain(std::iter::once(n("body", vec![], None, None, stmts(&f.body))))
            .collect(),
    )
}
fn named(f: &NamedFunctionDefinition) -> Ast {
    n("fun", vec![f.name.clone()], None, None, vec![fun(&f.fun_def)])
}

pub fn stmt(s: &Stmt) -> Ast {
    match s {
        Stmt::Block(v) => n("block", vec![], None, None, stmts(v)),
        Stmt::Break(l) => n("break", vec![], loc(l), None, vec![]),
        Stmt::Class(c) => n(
            "class",
            vec![c.name.clone()],
            loc(&c.source_loc),
            None,
            c.superclass
                .iter()
                .map(|e| n("super", vec![], None, None, vec![expr(e)]))
                .chain(c.methods.iter().map(named))
                .collect(),
        ),
        Stmt::Continue(l) => n("continue", vec![], loc(l), None, vec![]),
        Stmt::Expression(e) => n("expr", vec![], None, None, vec![expr(e)]),
        Stmt::Fun(f) => named(f),
        Stmt::If(c, t, e) => n(
            "if",
            vec![],
            None,
            None,
            std::iter::once(expr(c)).chain(std::iter::once(stmt(t))).chain(e.iter().map(|x| stmt(x))).collect(),
        ),
        Stmt::Print(e) => n("print", vec![], None, None, vec![expr(e)]),
        Stmt::Return(e, l) => n("return", vec![], loc(l), None, vec![expr(e)]),
        Stmt::Var(x, c, e, l) => n("var", vec![x.clone()], loc(l), Some(format!("{:?}", c.get())), vec![expr(e)]),
        Stmt::While(c, b) => n("while", vec![], None, None, vec![expr(c), stmt(b)]),
        Stmt::WhileIncrement(c, b, i) => n("whileinc", vec![], None, None, vec![expr(c), stmt(b), expr(i)]),
    }
}

pub fn expr(e: &Expr) -> Ast {
    match e {
        Expr::Assign(x, c, v, l) => n("assign", vec![x.clone()], loc(l), Some(format!("{:?}", c.get())), vec![expr(v)]),
        Expr::Call(f, a, l) => {
            n("call", vec![], loc(l), None, std::iter::once(expr(f)).chain(a.iter().map(expr)).collect())
        }
        Expr::Binary(a, o, b, l) => n("binary", vec![format!("{:?}", o)], loc(l), None, vec![expr(a), expr(b)]),
        Expr::Function(f) => n("lambda", vec![], None, None, vec![fun(f)]),
        Expr::Get(o, x, l) => n("get", vec![x.clone()], loc(l), None, vec![expr(o)]),
        Expr::GetIndex(o, i, l) => n("getindex", vec![], loc(l), None, vec![expr(o), expr(i)]),
        Expr::Grouping(x) => n("group", vec![], None, None, vec![expr(x)]),
        Expr::LiteralArray(v) => n("array", vec![], None, None, v.iter().map(expr).collect()),
        Expr::LiteralBool(b) => n("bool", vec![b.to_string()], None, None, vec![]),
        Expr::LiteralMap(m) => {
            n("map", vec![], None, None, m.iter().map(|(k, v)| n("entry", vec![k.clone()], None, None, vec![expr(v)])).collect())
        }
        Expr::LiteralNumber(x) => n("number", vec![format!("{:016x}", x.to_bits())], None, None, vec![]),
        Expr::LiteralNil => n("nil", vec![], None, None, vec![]),
        Expr::LiteralString(s) => n("string", vec![s.clone()], None, None, vec![]),
        Expr::Logical(a, o, b) => n("logical", vec![format!("{:?}", o)], None, None, vec![expr(a), expr(b)]),
        Expr::Set(o, x, v, l) => n("set", vec![x.clone()], loc(l), None, vec![expr(o), expr(v)]),
        Expr::SetIndex(o, i, v, l) => n("setindex", vec![], loc(l), None, vec![expr(o), expr(i), expr(v)]),
        Expr::Super(c, x, l) => n("superget", vec![x.clone()], loc(l), Some(format!("{:?}", c.get())), vec![]),
        Expr::Variable(x, c, l) => n("variable", vec![x.clone()], loc(l), Some(format!("{:?}", c.get())), vec![]),
        Expr::Unary(o, x, l) => n("unary", vec![format!("{:?}", o)], loc(l), None, vec![expr(x)]),
    }
}

/// mode: 'p' program, 'r' line of the REPL, 'e' a single expression
pub fn parse(mode: char, src: &str) -> Result<Vec<Ast>, Errs> {
    match mode {
        'p' => w::parser::parse(src).map(|v| stmts(&v)).map_err(|e| errs(&e)),
        'r' => w::parser::parse_repl_line(src).map(|v| stmts(&v)).map_err(|e| errs(&e)),
        _ => w::parser::parse_expression(src).map(|e| vec![expr(&e)]).map_err(|e| errs(&e)),
    }
}

pub struct Session(w::resolver::Resolver);
impl Session {
    pub fn new() -> Session {
        Session(w::resolver::Resolver::new())
    }
    /// Parses and resolves; Err(None) if the text doesn't parse.
    pub fn feed(&mut self, mode: char, src: &str) -> Result<(Vec<Ast>, Result<Vec<Ast>, Errs>), ()> {
        let v = match mode {
            'r' => w::parser::parse_repl_line(src),
            _ => w::parser::parse(src),
        };
        match v {
            Err(_) => Err(()),
            Ok(v) => {
                let before = stmts(&v);
                let r = self.0.resolve(v).map(|c| stmts(&c.statements)).map_err(|e| errs(&e));
                Ok((before, r))
            }
        }
    }
}
pub fn resolve_once(src: &str) -> Result<Result<Vec<Ast>, Errs>, ()> {
    match w::parser::parse(src) {
        Err(_) => Err(()),
        Ok(v) => Ok(w::resolver::resolve(v).map(|c| stmts(&c.statements)).map_err(|e| errs(&e))),
    }
}
