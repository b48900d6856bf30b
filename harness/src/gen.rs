//! Deterministic inputs: case `idx` of seed `seed` for a property.
use super::Input;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ idx.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x5851_F42D_4C95_7F2D);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.below(v.len())]
    }
}

/// Words and numbers in the functions that differ from the ones the contracts
/// were written for (written by check.py): lines "s HEX" and "n NUMBER".
pub struct Dict {
    pub words: Vec<String>,
    pub nums: Vec<usize>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { words: vec![], nums: vec![] };
        let t = std::env::var("VH_WORDS").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        for l in t.lines() {
            match l.split_once(' ') {
                Some(("s", h)) => {
                    let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                    if let Ok(w) = String::from_utf8(b) {
                        d.words.push(w);
                    }
                }
                Some(("n", x)) => {
                    if let Ok(x) = x.parse::<usize>() {
                        d.nums.push(x);
                    }
                }
                _ => {}
            }
        }
        d
    })
}
const MEANT: &[&str] = &["this", "super", "init", "return", "class", "exit", "quit", "help", "print", "nil", "true"];
impl Rng {
    /// A length at which counters wrap, or one that the code names, or near it.
    fn size(&mut self, max: usize) -> usize {
        const USUAL: &[usize] = &[2, 4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024];
        let d = &dict().nums;
        let n = if !d.is_empty() && self.chance(60) {
            let n = d[self.below(d.len())];
            n * [1, 1, 1, 2][self.below(4)]
        } else if self.chance(35) {
            USUAL[self.below(USUAL.len())]
        } else {
            return (250 + self.below(12)).min(max);
        };
        (n + self.below(5)).saturating_sub(2).clamp(1, max)
    }
    fn any_char(&mut self) -> char {
        let m = [0x20u32, 0x80, 0x100, 0x3000, 0x11_0000][self.below(5)];
        char::from_u32(self.below(m as usize) as u32).unwrap_or('\u{fffd}')
    }
    /// Something unusual to find in a text.
    fn odd(&mut self) -> String {
        let d = &dict().words;
        if !d.is_empty() && self.chance(60) {
            let w = &d[self.below(d.len())];
            return match self.below(6) {
                0 => w.to_uppercase(),
                1 => format!("{}{}", w, self.pick(&["x", " ", "\n", "1"])),
                2 => format!("{}{}", self.pick(&["x", " ", "_"]), w),
                _ => w.clone(),
            };
        }
        match self.below(4) {
            0 => self.any_char().to_string(),
            1 => self.odd_name(),
            2 => "\"".to_string() + &self.pick(&["", " ", "a ", "\n", "a\r\nb", "a\n\n", "\t", "{", "é\u{301}", "%s", "\\n", "0"]).repeat(1 + self.below(3)) + "\"",
            _ => {
                let n = self.size(300);
                self.pick(&["x", "é", "1", "(", "\u{301}", " ", "日"]).repeat(n)
            }
        }
    }
    /// A name that means something, or nearly so; a long one; one of the code's words.
    fn odd_name(&mut self) -> String {
        let d = dict();
        let w = if !d.words.is_empty() && self.chance(60) {
            let w: String = d.words[self.below(d.words.len())].chars().filter(|c| c.is_alphanumeric() || *c == '_').take(40).collect();
            if w.is_empty() || w.starts_with(|c: char| c.is_numeric()) { format!("x{}", w) } else { w }
        } else {
            match self.below(5) {
                0 => {
                    let n = self.size(300);
                    let c = self.pick(&["x", "é", "日", "e\u{301}"]);
                    return (if self.chance(50) { "a" } else { "" }).to_string() + &c.repeat(n);
                }
                1 => self.pick(&["_", "__", "é", "日本", "A", "x1", "toString", "length", "clock"]).to_string(),
                _ => self.pick(MEANT).to_string(),
            }
        };
        match self.below(8) {
            0 => w.to_uppercase(),
            1 => w[..1.min(w.len()) * w.is_char_boundary(1.min(w.len())) as usize].to_uppercase() + w.get(1..).unwrap_or("y"),
            2 => w + "x",
            3 => "x".to_string() + &w,
            4 => w + "1",
            5 => w + "_",
            _ => w,
        }
    }
}

const FRAG: &[&str] = &[
    " ", "  ", "\n", "\r\n", "\r", "\t", "\\", "/", "//", "//c", "(", ")", "{", "}", "+", "=", "!", "<", ":", ".", ",", "a", "1", "\"", "\"s\"", "_", "é", "e\u{301}",
    "if", "or", "#", ";", "0.5", "日",
];
const SOUP: &[&str] = &[
    "(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "*", "!", "=", "<", ">", "/", "!=", "==", "<=", ">=", "//", "//x y", "\\", "\\\n", "\\  \n",
    "\\\r\n", "\\ \r\n", "\t", " ", "  ", "    ", "\r", "\n", "\n", "\n  ", "\n    ", "\n      ", "\r\n", "\r\n  ", "\n\n", "\n  \n", "\"\"", "\"ab\"", "\"a\nb\"", "\"",
    "\"a\\\"", "\"é日\"", "0", "1", "12", "1.5", "1.", ".5", "10.25.3", "9a", "a", "b1", "_x", "é", "e\u{301}x", "日本", "👨‍👩‍👧", "\u{301}", "#", "@", "$", "?", "~", "'", "`", "&", "|", "%", "^",
    "and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print", "return", "super", "this", "true", "var", "while",
    "andx", "And", "fo", "whilee", "\u{a0}", "\u{2028}", "\u{85}", "\u{feff}", "²", "٣", "ⅷ",
];
const TOKS: &[&str] = &[
    "a ", "b(", "(", ") ", "1 ", "\"s\" ", "nil ", "this ", "super.x ", ".m ", "[", "] ", "{", "} ", ", ", ": ", "= ", "- ", "! ", "+ ", "* ", "< ", "== ", "and ", "or ",
    "fun(a) { ", "\n", "true ", "super", "x: ",
];

fn enumerate(frag: &[&str], max: u32, idx: u64) -> Option<String> {
    let b = frag.len() as u64;
    let mut i = idx;
    for len in 1..=max {
        let n = b.pow(len);
        if i < n {
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(frag[(i % b) as usize]);
                i /= b;
            }
            return Some(s);
        }
        i -= n;
    }
    None
}

fn scan_text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(100) {
        0..=39 => {
            let pct = if dict().words.is_empty() { 4 } else { 15 };
            for _ in 0..1 + r.below(24) {
                if r.chance(pct) {
                    s.push_str(&r.odd());
                } else {
                    s.push_str(r.pick(SOUP));
                }
            }
        }
        40..=84 => {
            // lines with indentation
            let nl = if r.chance(20) { "\r\n" } else { "\n" };
            let widths = [0usize, 0, 2, 2, 3, 4, 4, 6, 8, 1, 5];
            for _ in 0..1 + r.below(9) {
                let w = widths[r.below(widths.len())];
                for _ in 0..w {
                    s.push(' ');
                }
                for _ in 0..r.below(5) {
                    s.push_str(r.pick(SOUP));
                    if r.chance(40) {
                        s.push(' ');
                    }
                }
                match r.below(12) {
                    0 => s.push_str(" //c"),
                    1 => s.push_str(" +"),
                    2 => s.push_str(" \\"),
                    3 => s.push_str(" ,  "),
                    4 => s.push_str(" + // c"),
                    5 => s.push_str("\\  "),
                    _ => {}
                }
                s.push_str(nl);
            }
        }
        85..=98 => {
            let i = r.next();
            s = program(r, 0);
            let _ = i;
        }
        _ => {
            // very long lines or many lines
            match r.below(5) {
                0 => {
                    for _ in 0..65520 + r.below(40) {
                        s.push(' ');
                    }
                    s.push_str("a\n b c\n");
                }
                1 => {
                    for _ in 0..65520 + r.below(40) {
                        s.push('x');
                    }
                    s.push_str(" + y # z\n  w\n");
                }
                2 => {
                    for k in 0..300 + r.below(200) {
                        for _ in 0..k {
                            s.push(' ');
                        }
                        s.push_str("a\n");
                    }
                    s.push_str("b\n");
                }
                3 => {
                    for _ in 0..66000 {
                        s.push('\n');
                    }
                    s.push_str("a # b");
                }
                _ => {
                    s.push('"');
                    for _ in 0..65530 + r.below(20) {
                        s.push('s');
                    }
                    s.push_str("\"\n b\n\"c\n\nd\" e");
                }
            }
        }
    }
    s
}

// ------------------------------------------------------------ programs
const NAMES: &[&str] = &["a", "b", "c", "d", "x", "foo"];

struct G<'r> {
    r: &'r mut Rng,
    o: String,
    ind: usize,
    budget: i32,
    kinds: u32, // 0 any, 1 loops, 2 limits, 3 scopes
    odd: Vec<String>,
}
impl<'r> G<'r> {
    fn new(r: &'r mut Rng, budget: i32, kinds: u32) -> G<'r> {
        let n = if r.chance(if dict().words.is_empty() { 12 } else { 40 }) { 1 + r.below(2) } else { 0 };
        let odd = (0..n).map(|_| r.odd_name()).collect();
        G { r, o: String::new(), ind: 0, budget, kinds, odd }
    }
    fn name(&mut self) -> String {
        if !self.odd.is_empty() && self.r.chance(30) {
            let k = self.r.below(self.odd.len());
            return self.odd[k].clone();
        }
        let n = if self.kinds == 3 { 4 } else { NAMES.len() };
        NAMES[self.r.below(n)].to_string()
    }
    fn nl(&mut self) {
        if self.r.chance(3) {
            self.o.push_str(" // c");
        }
        self.o.push('\n');
        if self.r.chance(3) {
            self.o.push('\n');
        }
    }
    fn pad(&mut self) {
        for _ in 0..self.ind {
            self.o.push(' ');
        }
    }
    fn block(&mut self, d: usize, in_class: bool) {
        let n = if in_class { self.r.below(4) } else { 1 + self.r.below(3) };
        let braces = n == 0 || self.r.chance(45);
        let step = 1 + self.r.below(4);
        self.o.push_str(if braces { " {" } else { "" });
        self.nl();
        self.ind += step;
        for _ in 0..n {
            if in_class {
                self.pad();
                if self.r.chance(25) {
                    self.o.push_str("class ");
                }
                let m = if self.r.chance(30) { "init".to_string() } else { self.name() };
                self.o.push_str(&m);
                self.fun_tail(d.saturating_sub(1));
            } else {
                self.stmt(d.saturating_sub(1));
            }
        }
        self.ind -= step;
        if braces {
            self.pad();
            self.o.push('}');
            if self.r.chance(80) {
                self.nl();
            }
        }
    }
    /// The body of a loop: a block or a bare statement.
    fn body(&mut self, d: usize) {
        if self.r.chance(75) {
            self.block(d, false);
        } else {
            self.o.push(' ');
            let i = std::mem::replace(&mut self.ind, 0);
            let d = if self.r.chance(60) { 0 } else { d.saturating_sub(1) };
            self.stmt(d);
            self.ind = i;
        }
    }
    fn fun_tail(&mut self, d: usize) {
        self.o.push('(');
        let n = if self.r.chance(60) { self.r.below(3) } else { 0 };
        for k in 0..n {
            if k > 0 {
                self.o.push_str(", ");
            }
            let x = self.name();
            self.o.push_str(&x);
        }
        self.o.push(')');
        self.block(d, false);
    }
    fn stmt(&mut self, d: usize) {
        self.budget -= 1;
        self.pad();
        let simple = d == 0 || self.budget < 0;
        let k = if simple { self.r.below(8) } else { self.r.below(20) };
        match k {
            0 | 1 => {
                let x = self.name();
                self.o.push_str("var ");
                self.o.push_str(&x);
                if self.r.chance(75) {
                    self.o.push_str(" = ");
                    self.expr(2);
                }
                self.nl();
            }
            2 => {
                self.o.push_str("print ");
                self.expr(2);
                self.nl();
            }
            3 | 4 => {
                self.expr(3);
                self.nl();
            }
            5 => {
                if self.kinds == 1 || self.r.chance(30) {
                    let b = self.r.pick(&["break", "continue"]);
                    self.o.push_str(b);
                } else {
                    self.o.push_str("return");
                    if self.r.chance(60) {
                        self.o.push(' ');
                        self.expr(2);
                    }
                }
                self.nl();
            }
            6 => {
                let x = self.name();
                self.o.push_str(&x);
                self.o.push_str(" = ");
                self.expr(2);
                self.nl();
            }
            7 => {
                self.o.push_str("print ");
                let x = self.name();
                self.o.push_str(&x);
                self.nl();
            }
            8 | 9 => {
                self.o.push_str("if (");
                self.expr(2);
                self.o.push(')');
                if self.r.chance(80) {
                    self.block(d, false);
                } else {
                    self.o.push(' ');
                    let i = std::mem::replace(&mut self.ind, 0);
                    self.stmt(0);
                    self.ind = i;
                }
                if self.r.chance(40) {
                    self.pad();
                    self.o.push_str("else ");
                    if self.r.chance(50) {
                        self.o.push_str("{\n");
                        self.stmt(d - 1);
                        self.pad();
                        self.o.push_str("}\n");
                    } else {
                        let i = std::mem::replace(&mut self.ind, 0);
                        self.stmt(d - 1);
                        self.ind = i;
                    }
                }
            }
            10 | 11 => {
                self.o.push_str("while (");
                self.expr(2);
                self.o.push(')');
                self.body(d);
            }
            12 | 13 => {
                self.o.push_str("for (");
                match self.r.below(3) {
                    0 => self.o.push(';'),
                    1 => {
                        let x = self.name();
                        self.o.push_str("var ");
                        self.o.push_str(&x);
                        if self.r.chance(80) {
                            self.o.push_str(" = ");
                            self.expr(1);
                        }
                        self.o.push(';');
                    }
                    _ => {
                        self.expr(1);
                        self.o.push(';');
                    }
                }
                if self.r.chance(70) {
                    self.o.push(' ');
                    self.expr(1);
                }
                self.o.push(';');
                if self.r.chance(60) {
                    self.o.push(' ');
                    self.expr(1);
                }
                self.o.push(')');
                self.body(d);
            }
            14 | 15 => {
                let x = self.name();
                self.o.push_str("fun ");
                self.o.push_str(&x);
                self.fun_tail(d);
            }
            16 | 17 => {
                let x = self.name();
                self.o.push_str("class ");
                self.o.push_str(&x);
                if self.r.chance(40) {
                    let y = self.name();
                    self.o.push_str(" < ");
                    self.o.push_str(&y);
                }
                self.block(d, true);
            }
            _ => {
                self.o.push_str("{\n");
                let n = 1 + self.r.below(3);
                for _ in 0..n {
                    self.stmt(d - 1);
                }
                self.pad();
                self.o.push_str("}\n");
            }
        }
    }
    fn expr(&mut self, d: usize) {
        self.budget -= 1;
        if d == 0 || self.budget < 0 {
            match self.r.below(9) {
                0 => {
                    let x = if self.r.chance(85) {
                        "1".to_string()
                    } else {
                        match self.r.below(4) {
                            0 => self.r.below(1 << 40).to_string(),
                            1 => format!("{}.{}", self.r.below(1000), self.r.below(1 << 30)),
                            2 => self.r.size(100_000).to_string(),
                            _ => self.r.pick(&["0", "00", "16777217", "0.1", "9007199254740993", "0.0", "123456789012345678901234567890", "007"]).to_string(),
                        }
                    };
                    self.o.push_str(&x);
                }
                1 => self.o.push_str("2.5"),
                2 => {
                    let x = if self.r.chance(85) { "s".to_string() } else { self.r.odd().replace('"', "") };
                    self.o.push('"');
                    self.o.push_str(&x);
                    self.o.push('"');
                }
                3 => self.o.push_str("nil"),
                4 => self.o.push_str("true"),
                _ => {
                    let x = self.name();
                    self.o.push_str(&x);
                }
            }
            return;
        }
        match self.r.below(24) {
            0..=4 => self.expr(0),
            5 | 6 | 7 => {
                self.expr(d - 1);
                let op = self.r.pick(&[" + ", " - ", " * ", " / ", " < ", " <= ", " > ", " >= ", " == ", " != ", "-", " -"]);
                self.o.push_str(op);
                self.expr(d - 1);
            }
            8 => {
                self.expr(d - 1);
                let op = self.r.pick(&[" and ", " or "]);
                self.o.push_str(op);
                self.expr(d - 1);
            }
            9 => {
                let op = self.r.pick(&["-", "!", "- "]);
                self.o.push_str(op);
                self.expr(d - 1);
            }
            10 => {
                self.o.push('(');
                self.expr(d - 1);
                self.o.push(')');
            }
            11 | 12 => {
                self.expr(0);
                self.o.push('(');
                let n = self.r.below(3);
                for k in 0..n {
                    if k > 0 {
                        self.o.push_str(", ");
                    }
                    self.expr(d - 1);
                }
                self.o.push(')');
            }
            13 => {
                let x = self.name();
                self.o.push_str(&x);
                self.o.push(' ');
                let n = 1 + self.r.below(2);
                for k in 0..n {
                    if k > 0 {
                        self.o.push_str(", ");
                    }
                    self.expr(d - 1);
                }
            }
            14 => {
                self.expr(0);
                self.o.push('.');
                let x = self.name();
                self.o.push_str(&x);
            }
            15 => {
                self.expr(0);
                self.o.push('[');
                self.expr(d - 1);
                self.o.push(']');
            }
            16 => {
                let x = self.name();
                self.o.push_str(&x);
                let s = self.r.pick(&["", ".b", "[1]", ".c.d", "(1)", "[a].b"]);
                self.o.push_str(s);
                self.o.push_str(" = ");
                self.expr(d - 1);
            }
            17 => {
                self.o.push('[');
                let n = self.r.below(4);
                for k in 0..n {
                    if k > 0 {
                        self.o.push_str(", ");
                    }
                    self.expr(d - 1);
                }
                if self.r.chance(15) {
                    self.o.push(',');
                }
                self.o.push(']');
            }
            18 => {
                let br = self.r.chance(60);
                self.o.push_str(if br { "{" } else { "" });
                let n = self.r.below(4);
                for k in 0..n {
                    if k > 0 {
                        self.o.push_str(", ");
                    }
                    let x = self.name();
                    if self.r.chance(30) {
                        self.o.push_str(&format!("\"{}\": ", x));
                    } else {
                        self.o.push_str(&format!("{}: ", x));
                    }
                    self.expr(d - 1);
                }
                self.o.push_str(if br { "}" } else { "" });
            }
            19 | 20 => {
                self.o.push_str("fun (");
                if self.r.chance(50) {
                    let x = self.name();
                    self.o.push_str(&x);
                }
                self.o.push_str(") {\n");
                let i = self.ind;
                self.ind += 2;
                let n = self.r.below(3);
                for _ in 0..n {
                    self.stmt(d - 1);
                }
                self.ind = i;
                self.pad();
                self.o.push('}');
            }
            21 => self.o.push_str("this"),
            22 => {
                let x = self.name();
                self.o.push_str("super.");
                self.o.push_str(&x);
            }
            _ => {
                self.o.push_str("this.");
                let x = self.name();
                self.o.push_str(&x);
            }
        }
    }
}

fn program(r: &mut Rng, kinds: u32) -> String {
    let n = 1 + r.below(5);
    let d = r.below(5);
    let b = 6 + r.below(50) as i32;
    let mut g = G::new(r, b, kinds);
    for _ in 0..n {
        g.stmt(d);
    }
    g.o
}
fn expression(r: &mut Rng) -> String {
    let d = 1 + r.below(5);
    let b = 4 + r.below(40) as i32;
    let mut g = G::new(r, b, 0);
    g.expr(d);
    if g.r.chance(20) {
        g.o.push('\n');
    }
    g.o
}

fn mutate(r: &mut Rng, s: String) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        if cs.is_empty() {
            break;
        }
        let p = r.below(cs.len());
        match r.below(6) {
            0 => {
                let e = (p + 1 + r.below(6)).min(cs.len());
                cs.drain(p..e);
            }
            1 | 2 => {
                let f = match r.below(20) {
                    0 => r.odd(),
                    1..=9 => r.pick(SOUP).to_string(),
                    _ => r.pick(TOKS).to_string(),
                };
                let f: Vec<char> = f.chars().collect();
                cs.splice(p..p, f);
            }
            3 => {
                let e = (p + 1 + r.below(8)).min(cs.len());
                let c: Vec<char> = cs[p..e].to_vec();
                let q = r.below(cs.len());
                cs.splice(q..q, c);
            }
            4 => {
                let q = r.below(cs.len());
                cs.swap(p, q);
            }
            _ => cs.truncate(p),
        }
    }
    cs.into_iter().collect()
}

fn limits(r: &mut Rng) -> (char, String) {
    let n = if r.chance(70) { 252 + r.below(8) } else { r.size(1100) };
    let k = r.below(8);
    // One of a map's keys may repeat an earlier one.
    let d = if r.chance(60) { n - 1 } else { r.below(n) };
    let dup = if d > 0 && r.chance(60) { r.below(d) } else { d };
    let dup = if dup < d && r.chance(30) { d - 1 } else { dup };
    let mut s = String::new();
    let mut list = |f: &dyn Fn(usize) -> String| -> String { (0..n).map(|i| f(i)).collect::<Vec<_>>().join(", ") };
    match k {
        0 => s = format!("fun f({}) {{\n}}\n", list(&|i| format!("p{}", i))),
        1 => s = format!("f({})\n", list(&|i| format!("{}", i))),
        2 => s = format!("f {}\n", list(&|i| format!("{}", i))),
        3 => s = format!("var g = fun ({}) {{\n}}\n", list(&|i| format!("p{}", i))),
        4 => s = format!("class A {{\n m({}) {{\n}}\n}}\n", list(&|i| format!("p{}", i))),
        5 => {
            s = format!("var m = {{{}}}\n", list(&|i| format!("k{}: 1", if i == d { dup } else { i })))
        }
        6 => {
            let t = r.pick(&["1", "nil", "\"s\"", "(a)", "a + b", "f()", "f x", "-a", "!a", "a.b", "a[0]", "a", "this", "super.x", "a and b", "[1]", "a.b.c", "f().b", "(a).b", "a == b", "fun (x) {\n}", "{a: 1}"]);
            s = format!("{} = 1\n", t);
        }
        _ => {
            s = format!("{{\n{}}}\n", (0..n).map(|i| format!("var v{} = {}\n", i, i)).collect::<String>());
        }
    }
    if k < 3 && r.chance(50) {
        return ('e', s);
    }
    (if r.chance(30) { 'r' } else { 'p' }, s)
}

/// Long lists and deep nesting, around the sizes at which narrow counters wrap.
fn many(r: &mut Rng) -> (char, String) {
    let n = r.size(1100);
    let list = |f: &dyn Fn(usize) -> String, sep: &str| -> String { (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep) };
    let s = match r.below(24) {
        16 => r.pick(&[")\n", "1 2 )\n", "break\n", "var\n", "fun f(\n"]).repeat(n),
        17 => r.pick(&["return 1\n", "this\n", "print 1\n", "class A < A {\n}\n"]).repeat(n),
        18 => format!("var a {}\n", r.pick(&["x", "é", "1"]).repeat(n)),
        19 => format!("x = \"{}\"\n", r.pick(&["x", "é", "\n", " ", "\r\n"]).repeat(n)),
        20 => format!("x = {}\n", r.pick(&["1", "0", "9"]).repeat(n)),
        21 => (0..n.min(300)).map(|i| format!("{}if (a)\n", " ".repeat(i))).collect::<String>() + &" ".repeat(n.min(300)) + "print 1\n",
        22 => format!("{}x{}\n", "(".repeat(n.min(200)), ")".repeat(n.min(200))),
        23 => format!("x = fun ({}) {{\n}} {}\n", "p, ".repeat(n.min(250)) + "q", r.pick(&["x", "é"]).repeat(n)),
        0 => format!("x = [{}]\n", list(&|i| i.to_string(), ", ")),
        1 => format!("x = {{{}}}\n", list(&|i| format!("k{}: {}", i, i), ", ")),
        2 => list(&|i| format!("print {}\n", i), ""),
        3 => format!("class A {{\n{}}}\n", list(&|i| format!("m{}() {{\n}}\n", i), "")),
        4 => format!("x{}\n", list(&|i| format!(".a{}", i), "")),
        5 => format!("x{}\n", list(&|i| format!("[{}]", i), "")),
        6 => format!("x{}\n", list(&|_| "()".into(), "")),
        7 => format!("{}1\n", list(&|i| format!("a{} = ", i), "")),
        8 => format!("x = {}\n", list(&|i| i.to_string(), r.pick(&[" + ", " - ", " * ", " == ", " < ", " and ", " or "]))),
        9 => format!("{}break\n", list(&|_| "while (a) ".into(), "")),
        10 => format!("{}continue\n{}print 1\n{}\n", list(&|_| "for (;;) {\n".into(), ""), "}".repeat(n), r.pick(&["", "break"])),
        11 => format!("{}{}{}", list(&|_| "{\n".into(), ""), r.pick(&["break\n", "print 1\n"]), "}".repeat(n)),
        12 => format!("{}print 2\n", list(&|i| format!("if (a{}) print {}\nelse ", i, i), "")),
        13 => format!("{{\n{}}}\n", list(&|i| format!("while (a{}) break\n", i), "")),
        14 => format!("{}break\n{}", list(&|_| "while (a) fun () {\n".into(), ""), "}\n".repeat(n)),
        _ => format!("x = {}1\n", r.pick(&["-", "!", "- "]).repeat(n)),
    };
    (if r.chance(30) { 'r' } else { 'p' }, s)
}

/// Scopes in scopes, around the sizes at which narrow counters wrap.
fn nested(r: &mut Rng) -> String {
    let n = match r.below(20) {
        0..=11 => 248 + r.below(16),
        12..=16 => r.size(1100),
        _ => 500 + r.below(600),
    };
    let (a, b) = match r.below(4) {
        0 => ("fun f() {\n", "}\n"),
        1 => ("while (a) {\n", "}\n"),
        2 => ("x = fun (p) {\n", "}\n"),
        _ => ("{\n", "}\n"),
    };
    let at = r.below(n);
    let mut s = String::from(r.pick(&["var a = 1\n", "{\nvar a = 1\n", "", "fun g(a) {\n"]));
    let close = s.contains('{');
    for i in 0..n {
        s.push_str(a);
        if i == at || r.below(60) == 0 {
            s.push_str(r.pick(&["var b = a\n", "var b\n", "fun c() {\n}\n", "print a\n", "a = 2\n", "this\n", "return\n"]));
        }
    }
    s.push_str(r.pick(&["print a\n", "print b\n", "a = b\n", "var z = a\nz = z + b\n", "return a\n", "c()\n"]));
    s.push_str(&b.repeat(n));
    if close {
        s.push_str("}\n");
    }
    s
}

fn many_names(r: &mut Rng) -> String {
    let n = if r.chance(70) { 253 + r.below(6) } else { r.size(300).max(21) };
    // Some of the names may be of another form.
    let px: String = if r.chance(35) { r.odd_name().chars().take(60).collect() } else { "v".to_string() };
    let at = if r.chance(50) { n - 1 } else { r.below(n) };
    let all = r.chance(20);
    let name = |p: &str, i: usize| if all || i == at { format!("{}{}", px, i) } else { format!("{}{}", p, i) };
    let vars = |p: &str, n: usize| (0..n).map(|i| format!("var {} = {}\n", name(p, i), i)).collect::<String>();
    let reads = |p: &str, n: usize| (0..n).map(|i| format!("print {}\n", name(p, i))).collect::<String>();
    match r.below(14) {
        9 | 10 => nested(r),
        0 => format!("{{\n{}print v0\nprint v{}\n}}\n", vars("v", n), n - 1),
        1 => format!("{}print v{}\n", vars("v", n), n - 1),
        2 => format!("fun f() {{\n{}print v0\n}}\n", vars("v", n)),
        3 => format!("fun f({}) {{\n{}print p1\n}}\n", (0..20).map(|i| format!("p{}", i)).collect::<Vec<_>>().join(", "), vars("v", n - 20)),
        4 => format!("{}print q\n", reads("u", n)),
        5 => format!("{}{{\n{}}}\nvar z = w\n", vars("v", 200), reads("u", n.saturating_sub(200))),
        6 => format!("{}{}", vars("v", n), (0..3).map(|i| format!("var v{} = 1\n", i * 100)).collect::<String>()),
        7 => format!("{}{}", reads("u", 100), vars("u", n)),
        11 => format!("{}fun {}() {{\n}}\nclass {}c {{\n}}\n", vars("v", n), px, px),
        12 => format!("{{\n{}}}\n", vars("v", n)),
        _ => format!("{{\n{}}}\n", (0..n).map(|i| format!("fun {}() {{\n}}\n", name("f", i))).collect::<String>()),
    }
}

/// Many lines of a session, most of them alike.
fn long_session(r: &mut Rng) -> Vec<String> {
    const L: &[&str] = &["return 1\n", "this\n", "print a\n", "var b = 1\n", "var c = d\n", "fun f() {\nreturn g\n}\n", "{\nvar a = a\n}\n", "print zz\n", "super.x\n", "1\n", "a = 2\n"];
    let n = r.size(40);
    let mut v = vec!["var a = 1\n".to_string(), "fun h() {\nreturn late\n}\n".to_string()];
    let (x, y) = (r.pick(L), r.pick(L));
    for _ in 0..n {
        v.push(if r.chance(70) { x } else if r.chance(60) { y } else { r.pick(L) }.to_string());
    }
    v.push("print a\nvar n1 = late\nprint b\n".to_string());
    v.push("var late = 1\n".to_string());
    v
}

/// Printing a deep tree takes the program long.
fn short(s: String) -> String {
    if s.len() > 400 { String::new() } else { s }
}

/// Lines for the prompt, ends included; the last one may have none.
fn session(r: &mut Rng) -> Vec<String> {
    let n = r.below(7);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let mut s = match r.below(10) {
            0 => match r.below(4) {
                0 => r.odd_name(),
                1 => r.odd(),
                2 => r.pick(&["exit", "quit", "help", ":q", ".", "?", "   ", "// c", "\u{feff}1", "\u{4}", "clear"]).to_string(),
                _ => short(scan_text(r)),
            },
            1..=3 => {
                let p = program(r, 3);
                if r.chance(30) { mutate(r, p) } else { p }
            }
            4 => String::new(),
            5 | 6 => r
                .pick(&["var a", "var a = b", "var b = a", "var a = this", "return 1", "break", "{ var a = a }", "a(", "\"open", "class A < A {}", "fun f(a, a) {", "}", "1 2", "#"])
                .to_string(),
            _ => expression(r),
        };
        if r.chance(75) {
            s = s.replace('\n', " ");
        }
        if !s.ends_with('\n') {
            s.push_str(if r.chance(10) { "\r\n" } else { "\n" });
        }
        v.push(s);
    }
    if r.chance(15) && !v.is_empty() {
        // The same line again, or in other words nearly so.
        let k = r.below(v.len());
        let l = v[k].clone();
        v.insert(if r.chance(70) { k } else { v.len() }, if r.chance(70) { l } else { format!(" {}", l) });
    }
    if r.chance(4) {
        let n = r.size(300);
        let l = r.pick(&["1\n", "return 1\n", ")\n", "\n", "var a = 1\n", "print a\n"]).to_string();
        v = (0..n).map(|i| if i % 50 == 7 { "a = b\n".to_string() } else { l.clone() }).collect();
    }
    if r.chance(25) {
        if let Some(l) = v.last_mut() {
            l.pop();
        }
    }
    v
}

pub fn input(prop: &str, seed: u64, idx: u64) -> Input {
    let mut r = Rng::new(seed, idx);
    if prop == "M01" {
        if r.chance(50) {
            return Input { mode: 'i', lines: session(&mut r) };
        }
        let s = match r.below(10) {
            0 => String::new(),
            1 => short(scan_text(&mut r)),
            2 => {
                let n = r.size(300);
                let l = r.pick(&["return 1\n", ")\n", "this\n", "print 1\n", "\n", "// c\n"]).repeat(n);
                l + &r.odd()
            }
            3 => r.odd() + &program(&mut r, 3),
            4 => program(&mut r, 3) + &r.odd(),
            _ => {
                let p = program(&mut r, 3);
                if r.chance(30) { mutate(&mut r, p) } else { p }
            }
        };
        return Input { mode: 'f', lines: vec![s] };
    }
    if prop == "E01" {
        let n = if idx % 64 == 0 { r.size(300) } else { r.below(5) };
        let mut lines = vec![];
        for _ in 0..n {
            let l: u32 = [0, 1, 9, 10, 99, 1000, 65536, u32::MAX][r.below(8)];
            let c: u16 = [0, 1, 9, 10, 255, 256, 1000, u16::MAX][r.below(8)];
            lines.push(l.to_string());
            lines.push(c.to_string());
            let words = ["", "a", "\n", "\r\n", "\"", "'", "\\", "{}", "{", "é", "\u{200b}", "a b", "'x'", "\t", ": ", " at ", "Expect expression.", "\0", "this", "0"];
            let mut text = |max: usize| -> String {
                (0..r.below(max + 1)).map(|_| if r.chance(12) { r.odd() } else { words[r.below(words.len())].to_string() }).collect()
            };
            let (t, m) = (text(3), text(if idx % 16 == 0 { 400 } else { 4 }));
            // Causes often repeat another one in part.
            let t = if r.chance(25) { "-".to_string() } else { format!("+{}", t) };
            lines.push(if !lines.is_empty() && lines.len() > 4 && r.chance(30) { lines[lines.len() - 4].clone() } else { t });
            lines.push(if lines.len() > 4 && r.chance(30) { lines[lines.len() - 4].clone() } else { m });
            let k = lines.len();
            if k > 4 && r.chance(30) {
                lines[k - 4] = lines[k - 8].clone();
            }
            if k > 4 && r.chance(30) {
                lines[k - 3] = lines[k - 7].clone();
            }
        }
        return Input { mode: 'd', lines };
    }
    let one = |m: char, s: String| Input { mode: m, lines: vec![s] };
    match &prop[..1] {
        "S" => {
            // Short texts exhaustively, interleaved with random ones.
            if idx % 2 == 0 {
                if let Some(s) = enumerate(FRAG, 4, idx / 2) {
                    return one('s', s);
                }
            }
            let s = scan_text(&mut r);
            one('s', if r.chance(15) { mutate(&mut r, s) } else { s })
        }
        "P" => {
            let kinds = if prop == "P04" { 1 } else { 0 };
            if idx % 4 == 0 && prop != "P03" && prop != "P04" {
                if let Some(s) = enumerate(TOKS, 4, idx / 4) {
                    return one(if prop == "P01" && idx % 8 == 0 { 'r' } else { 'e' }, s);
                }
            }
            let k = r.below(100);
            if (prop == "P05" && k < 40) || k < 1 {
                let (m, s) = limits(&mut r);
                return one(m, s);
            }
            if k == 1 && r.chance(if prop == "P04" || !dict().nums.is_empty() { 40 } else { 10 }) {
                let (m, s) = many(&mut r);
                return one(m, s);
            }
            if k < 3 {
                let n = 1 + r.below(80);
                let p = r.pick(&["(", "[", "-", "!", "{a: ", "f(", "fun () {\n", "a.b = ", "a, ", "1 + "]);
                return one('e', format!("{}1", p.repeat(n)));
            }
            if prop == "P02" || (prop != "P03" && prop != "P04" && k < 35) {
                let s = expression(&mut r);
                let s = if r.chance(25) { mutate(&mut r, s) } else { s };
                let m = if prop == "P02" { if r.chance(80) { 'e' } else { 'p' } } else { ['e', 'p', 'r'][r.below(3)] };
                return one(m, s);
            }
            let s = program(&mut r, kinds);
            let s = if r.chance(if prop == "P06" { 60 } else { 30 }) { mutate(&mut r, s) } else { s };
            one(if r.chance(25) { 'r' } else { 'p' }, s)
        }
        _ => {
            if r.below(100) < if dict().nums.is_empty() { 2 } else { 6 } {
                return one('p', many_names(&mut r));
            }
            if r.below(300) < if prop == "R05" { 10 } else { 1 } {
                return Input { mode: 'r', lines: long_session(&mut r) };
            }
            if prop == "R05" || r.chance(30) {
                let n = 2 + r.below(4);
                let lines = (0..n)
                    .map(|_| {
                        if r.below(400) == 0 {
                            return many_names(&mut r);
                        }
                        let k = 1 + r.below(2);
                        let d = r.below(4);
                        let b = 3 + r.below(25) as i32;
                        let mut g = G::new(&mut r, b, 3);
                        for _ in 0..k {
                            g.stmt(d);
                        }
                        g.o
                    })
                    .collect();
                return Input { mode: 'r', lines };
            }
            one('p', program(&mut r, 3))
        }
    }
}
