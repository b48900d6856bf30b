//! What each property says about one input: None if it holds, else what was seen.
use super::{real, refr, Ast, Errs, Input, Scan, Tok};
use unicode_segmentation::UnicodeSegmentation;

fn layout(k: &str) -> bool {
    k == "Indent" || k == "Outdent" || k == "Terminator" || k == "Eof"
}
fn diff<T: std::fmt::Debug + PartialEq>(what: &str, got: &T, want: &T) -> Option<String> {
    if got == want {
        None
    } else {
        Some(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}
fn locs(e: &Errs) -> Vec<(u32, u32)> {
    e.iter().map(|x| (x.0, x.1)).collect()
}
fn marks(e: &Errs) -> Vec<(u32, u32, Option<String>)> {
    e.iter().map(|x| (x.0, x.1, x.2.clone())).collect()
}

pub fn reference_only(i: &Input) {
    if i.mode == 'd' {
        return;
    }
    let mut s = refr::Session::new();
    for l in &i.lines {
        let _ = refr::scan(l);
        if i.mode == 's' {
            continue;
        }
        let _ = refr::parse(i.mode, l);
        if i.mode != 'e' {
            let _ = s.feed(i.mode, l);
        }
    }
}

fn strip(a: &Ast, loc: bool, slot: bool) -> Ast {
    Ast {
        name: a.name,
        text: a.text.clone(),
        loc: if loc { a.loc } else { None },
        slot: if slot { a.slot.clone() } else { None },
        kids: a.kids.iter().map(|k| strip(k, loc, slot)).collect(),
    }
}
fn strips(v: &[Ast], loc: bool, slot: bool) -> Vec<Ast> {
    v.iter().map(|x| strip(x, loc, slot)).collect()
}
fn is_stmt(n: &str) -> bool {
    matches!(
        n,
        "block" | "break" | "class" | "continue" | "expr" | "fun" | "if" | "print" | "return" | "var" | "while" | "whileinc"
            | "fundef" | "body" | "param" | "super"
    )
}
/// Statements with their expressions left out.
fn skel(a: &Ast) -> Ast {
    Ast {
        name: a.name,
        text: a.text.clone(),
        loc: None,
        slot: None,
        kids: a
            .kids
            .iter()
            .map(|k| if is_stmt(k.name) { skel(k) } else { Ast { name: "e", text: vec![], loc: None, slot: None, kids: vec![] } })
            .collect(),
    }
}
fn show(v: &[Ast]) -> String {
    fn go(a: &Ast, o: &mut String) {
        o.push('(');
        o.push_str(a.name);
        for t in &a.text {
            o.push(' ');
            o.push_str(t);
        }
        if let Some(l) = a.loc {
            o.push_str(&format!(" @{}:{}", l.0, l.1));
        }
        if let Some(l) = &a.slot {
            o.push_str(&format!(" #{}", l));
        }
        for k in &a.kids {
            o.push(' ');
            go(k, o);
        }
        o.push(')');
    }
    let mut o = String::new();
    for a in v {
        go(a, &mut o);
    }
    o
}
fn tdiff(what: &str, got: &[Ast], want: &[Ast]) -> Option<String> {
    if got == want {
        None
    } else {
        Some(format!("{}: got {}, expected {}", what, show(got), show(want)))
    }
}

pub fn judge(prop: &str, i: &Input) -> Option<String> {
    if prop == "REF" {
        reference_only(i);
        return None;
    }
    match &prop[..1] {
        "S" => scanning(prop, &i.lines[0]),
        "P" => parsing(prop, i.mode, &i.lines[0]),
        "R" => resolving(prop, i),
        "M" => super::cli::judge(i),
        "E" => super::errors::judge(i),
        _ => None,
    }
}

fn scanning(prop: &str, s: &str) -> Option<String> {
    let r = real::scan(s);
    if prop == "S01" {
        return match &r {
            Ok(ts) => {
                let n = ts.iter().filter(|t| t.kind == "Eof").count();
                if n != 1 || ts.last().unwrap().kind != "Eof" {
                    Some(format!("{} end-of-file tokens, last token {:?}", n, ts.last()))
                } else {
                    None
                }
            }
            Err(e) if e.is_empty() => Some("rejected without any error".into()),
            _ => None,
        };
    }
    if prop == "S06" {
        let lf = s.replace("\r\n", "\n");
        if lf.contains('\r') {
            return None;
        }
        let crlf = lf.replace('\n', "\r\n");
        let f = |x: &str| -> (bool, Vec<(String, u32, u32)>) {
            match real::scan(x) {
                Ok(t) => (true, t.iter().map(|t| (t.kind.clone(), t.line, t.col)).collect()),
                Err(e) => (false, e.iter().map(|e| (String::new(), e.0, e.1)).collect()),
            }
        };
        return diff("with CRLF line ends (got) and LF line ends (expected)", &f(&crlf), &f(&lf));
    }
    let f = refr::scan(s);
    if prop == "S04" {
        if let Some(d) = diff("accepted", &r.is_ok(), &f.is_ok()) {
            return Some(d);
        }
    }
    match (&r, &f) {
        (Ok(r), Ok(f)) => {
            let fr = |v: &[Tok], k: &dyn Fn(&Tok) -> bool| -> Vec<Tok> { v.iter().filter(|t| k(t)).cloned().collect() };
            match prop {
                "S02" => {
                    let g = |v: &[Tok]| -> Vec<(String, usize)> {
                        let mut n = 0;
                        let mut o = vec![];
                        for t in v {
                            if t.kind == "Indent" || t.kind == "Outdent" {
                                o.push((t.kind.clone(), n));
                            } else if !layout(&t.kind) {
                                n += 1;
                            }
                        }
                        o
                    };
                    let mut d = 0i64;
                    for t in r {
                        d += (t.kind == "Indent") as i64 - (t.kind == "Outdent") as i64;
                        if d < 0 {
                            return Some("an outdent without an indent".into());
                        }
                    }
                    if d != 0 {
                        return Some(format!("{} indents are not closed", d));
                    }
                    diff("indents and outdents (with the number of tokens before)", &g(r), &g(f))
                }
                "S03" => {
                    for t in r {
                        let (l, c) = place(s, t);
                        if (t.line, t.col) != (l, c) {
                            return Some(format!("{:?} expected at {}:{}", t, l, c));
                        }
                    }
                    None
                }
                "S04" => {
                    let k = |t: &Tok| !layout(&t.kind);
                    let z = |v: Vec<Tok>| -> Vec<_> { v.into_iter().map(|t| (t.kind, t.lex, t.text, t.num)).collect() };
                    diff("tokens", &z(fr(r, &k)), &z(fr(f, &k)))
                }
                "S05" => {
                    let g = |v: &[Tok]| -> Vec<usize> {
                        let mut n = 0;
                        let mut o = vec![];
                        for t in v {
                            if t.kind == "Terminator" {
                                o.push(n);
                            } else if !layout(&t.kind) {
                                n += 1;
                            }
                        }
                        o
                    };
                    diff("numbers of tokens before each terminator", &g(r), &g(f)).or_else(|| blanks(s, r, f))
                }
                _ => None,
            }
        }
        (Err(r), Err(f)) => match prop {
            "S03" => diff("error locations", &locs(r), &locs(f)),
            _ => None,
        },
        (Ok(_), Err(f)) if prop == "S02" && f.iter().all(|e| e.3.starts_with("Outdent does not match")) => {
            Some(format!("a line returns to a width no open block has at {:?}, and yet the text is accepted", locs(f)))
        }
        (Err(r), Ok(_)) if prop == "S02" => {
            // Is it the indentation that is rejected?
            let mut flat = String::new();
            for l in s.split_inclusive('\n') {
                flat.push_str(l.trim_start_matches(' '));
            }
            match real::scan(&flat) {
                Ok(_) => Some(format!("properly indented, and yet rejected at {:?}", locs(r))),
                Err(_) => None,
            }
        }
        _ => None,
    }
}

/// Blank lines and comments put at every line end outside strings change nothing.
fn blanks(s: &str, r: &[Tok], f: &[Tok]) -> Option<String> {
    let mut a = String::new();
    let mut b = String::new();
    let mut code = String::new(); // the current line
    for (o, g) in s.grapheme_indices(true) {
        let nl = (g == "\n" || g == "\r\n") && !f.iter().any(|t| t.kind == "String" && t.lo <= o && o < t.lo + t.lex.len());
        if nl && !code.trim_end_matches(|c| c == ' ' || c == '\r').ends_with('\\') {
            b.push_str(" // c");
        }
        a.push_str(g);
        b.push_str(g);
        code.push_str(g);
        if nl {
            a.push_str("   \n");
            code.clear();
        }
    }
    let kinds = |v: &[Tok]| -> Vec<String> { v.iter().map(|t| t.kind.clone()).collect() };
    for (what, x) in [("blank lines", &a), ("comments", &b)] {
        let got = match real::scan(x) {
            Ok(t) => kinds(&t),
            Err(_) => vec!["rejected".into()],
        };
        if let Some(d) = diff(&format!("with {} put at line ends", what), &got, &kinds(r)) {
            return Some(d);
        }
    }
    None
}

/// Where a token belongs, from the text alone.
fn place(s: &str, t: &Tok) -> (u32, u32) {
    let mut line = 1u32;
    let mut col = 1u32;
    let sat = |x: u32| x.min(65535);
    let mut end = true;
    for (o, g) in s.grapheme_indices(true) {
        if o >= t.lo {
            end = false;
            break;
        }
        if g == "\n" || g == "\r\n" {
            line += 1;
            col = 1;
        } else {
            col = sat(col + 1);
        }
    }
    if end {
        col = sat(col + 1) - 1;
    }
    (line, col)
}

fn count(a: &Ast, n: &str) -> usize {
    (a.name == n) as usize + a.kids.iter().map(|k| count(k, n)).sum::<usize>()
}

fn stray(a: &Ast, in_loop: bool) -> Option<String> {
    match a.name {
        "break" | "continue" if !in_loop => Some(format!("accepted a {} outside of a loop ({:?})", a.name, a.loc)),
        "while" | "whileinc" => a.kids.iter().enumerate().find_map(|(i, k)| stray(k, in_loop || i == 1)),
        "body" => a.kids.iter().find_map(|k| stray(k, false)),
        _ => a.kids.iter().find_map(|k| stray(k, in_loop)),
    }
}

fn limits(a: &Ast) -> Option<String> {
    match a.name {
        "call" if a.kids.len() > 256 => Some(format!("accepted {} arguments", a.kids.len() - 1)),
        "fundef" if a.kids.len() > 256 => Some(format!("accepted {} parameters", a.kids.len() - 1)),
        _ => a.kids.iter().find_map(limits),
    }
}

fn parsing(prop: &str, mode: char, s: &str) -> Option<String> {
    if prop == "P01" {
        return match real::parse(mode, s) {
            Err(e) if e.is_empty() => Some("rejected without any error".into()),
            _ => None,
        };
    }
    // Only differences which the parser makes.
    if real::scan(s) != refr::scan(s) {
        return None;
    }
    let r = real::parse(mode, s);
    let f = refr::parse(mode, s);
    match prop {
        "P02" | "P03" => match (&r, &f) {
            (Ok(r), Ok(f)) => {
                if mode == 'e' {
                    return if prop == "P02" { tdiff("expression", &strips(r, false, false), &strips(f, false, false)) } else { None };
                }
                let (a, b): (Vec<Ast>, Vec<Ast>) = (r.iter().map(skel).collect(), f.iter().map(skel).collect());
                if prop == "P03" {
                    tdiff("statements", &a, &b)
                } else if a == b {
                    tdiff("program", &strips(r, false, false), &strips(f, false, false))
                } else {
                    None
                }
            }
            (Ok(r), Err(f)) if (prop == "P02") == (mode == 'e') => Some(format!("accepted as {}, expected errors {:?}", show(r), f)),
            (Err(r), Ok(f)) if (prop == "P02") == (mode == 'e') => Some(format!("rejected with {:?}, expected {}", r, show(f))),
            _ => None,
        },
        "P04" => {
            if let Ok(r) = &r {
                if let Some(x) = r.iter().find_map(|a| stray(a, false)) {
                    return Some(x);
                }
            }
            let loopy = |e: &Errs| e.iter().any(|x| matches!(x.2.as_deref(), Some("break") | Some("continue")));
            match (&r, &f) {
                (Ok(r), Ok(f)) => {
                    let c = |v: &[Ast]| -> (usize, usize) {
                        (v.iter().map(|a| count(a, "break")).sum(), v.iter().map(|a| count(a, "continue")).sum())
                    };
                    diff("breaks and continues", &c(r), &c(f))
                }
                (Err(r), Ok(f)) if loopy(r) => Some(format!("rejected with {:?}, expected {}", r, show(f))),
                (Ok(r), Err(f)) if loopy(f) => Some(format!("accepted as {}, expected errors {:?}", show(r), f)),
                _ => None,
            }
        }
        "P05" => {
            if let Ok(r) = &r {
                if let Some(x) = r.iter().find_map(limits) {
                    return Some(x);
                }
            }
            match (&r, &f) {
                (Ok(r), Err(f)) => Some(format!("accepted as {}, expected errors {:?}", show(r), f)),
                (Err(r), Ok(f)) => Some(format!("rejected with {:?}, expected {}", r, show(f))),
                _ => None,
            }
        }
        "P06" => match (&r, &f) {
            (Ok(r), Ok(f)) => {
                if strips(r, false, false) == strips(f, false, false) {
                    tdiff("locations", &strips(r, true, false), &strips(f, true, false))
                } else {
                    None
                }
            }
            (Err(r), Err(f)) => diff("errors", &marks(r), &marks(f)),
            _ => None,
        },
        _ => None,
    }
}

fn same_front(mode: char, s: &str) -> bool {
    fn eq(a: &Scan, b: &Scan) -> bool {
        a == b
    }
    eq(&real::scan(s), &refr::scan(s)) && {
        let (a, b) = (real::parse(mode, s), refr::parse(mode, s));
        match (a, b) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        }
    }
}

fn resolving(prop: &str, i: &Input) -> Option<String> {
    for l in &i.lines {
        if !same_front(i.mode, l) {
            return None;
        }
    }
    let mut a = real::Session::new();
    let mut b = refr::Session::new();
    for (k, l) in i.lines.iter().enumerate() {
        let (r, f) = (a.feed(i.mode, l), b.feed(i.mode, l));
        let (Ok((before, r)), Ok((_, f))) = (r, f) else { continue };
        let at = format!("line {} of the session", k + 1);
        if let Err(e) = &r {
            if prop == "R06" && e.is_empty() {
                return Some("rejected without any error".into());
            }
        }
        let d = match prop {
            "R01" | "R02" => match (&r, &f) {
                (Ok(r), Ok(f)) => {
                    let keep = |v: &[Ast], var: bool| -> Vec<Ast> {
                        fn go(a: &Ast, var: bool) -> Ast {
                            let mut b = a.clone();
                            if (a.name == "var") != var {
                                b.slot = None;
                            }
                            b.kids = a.kids.iter().map(|k| go(k, var)).collect();
                            b
                        }
                        v.iter().map(|a| go(a, var)).collect()
                    };
                    tdiff(&at, &keep(r, prop == "R02"), &keep(f, prop == "R02"))
                }
                (Ok(r), Err(f)) if prop == "R02" && f.iter().any(|e| e.3.contains("Too many")) => {
                    Some(format!("{}: accepted as {}, expected {:?}", at, show(r), f))
                }
                (Err(r), Ok(_)) if prop == "R02" && r.iter().any(|e| e.3.contains("Too many")) => {
                    Some(format!("{}: rejected with {:?}", at, r))
                }
                _ => None,
            },
            "R03" => match (&r, &f) {
                (Ok(r), Err(f)) => Some(format!("{}: accepted as {}, expected {:?}", at, show(r), f)),
                (Err(r), Ok(f)) => Some(format!("{}: rejected with {:?}, expected {}", at, r, show(f))),
                (Err(r), Err(f)) => diff(&at, &marks(r), &marks(f)),
                _ => None,
            },
            "R04" => match &r {
                Ok(r) => tdiff(&at, &strips(r, true, false), &strips(&before, true, false)),
                _ => None,
            },
            "R05" if k > 0 => match (&r, &f) {
                (Ok(r), Ok(f)) => tdiff(&at, r, f),
                (Ok(r), Err(f)) => Some(format!("{}: accepted as {}, expected {:?}", at, show(r), f)),
                (Err(r), Ok(f)) => Some(format!("{}: rejected with {:?}, expected {}", at, r, show(f))),
                (Err(r), Err(f)) => diff(&at, &marks(r), &marks(f)),
            },
            _ => None,
        };
        if d.is_some() {
            return d;
        }
    }
    if i.mode == 'p' && i.lines.len() == 1 && prop != "R04" {
        // The one-shot entry point.
        let r = real::resolve_once(&i.lines[0]);
        let f = refr::resolve_once(&i.lines[0]);
        if prop == "R01" || prop == "R03" {
            if r.as_ref().map(|x| x.is_ok()) != f.as_ref().map(|x| x.is_ok()) {
                return Some(format!("resolve: got {:?}, expected {:?}", r, f));
            }
        }
    }
    None
}
