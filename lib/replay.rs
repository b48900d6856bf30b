// The program of tools/replay.py: runs the extracted code next to the code it
// was extracted from.
fn main() {
    if std::env::var_os("VX_PROGRAM").is_some() {
        let mut w = unsafe { std::mem::zeroed::<vlib::World>() };
        main::main(&mut w);
        return;
    }
    let mut data = Vec::new();
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut data).unwrap();
    let text = String::from_utf8(data).unwrap();
    // Sessions of lines: \x02 ends a session, \x01 a line.
    let (mut sessions, mut texts, mut bad) = (0, 0, 0);
    let deep = std::thread::Builder::new().stack_size(1 << 30);
    let t = deep.spawn(move || {
        std::panic::set_hook(Box::new(|_| {}));
        for s in text.split_terminator('\x02') {
            sessions += 1;
            let lines: Vec<&str> = s.split_terminator('\x01').collect();
            texts += lines.len();
            let a = std::panic::catch_unwind(|| extracted(&lines)).unwrap_or_else(|_| "panic".into());
            let b = std::panic::catch_unwind(|| original(&lines)).unwrap_or_else(|_| "panic".into());
            if a != b {
                bad += 1;
                if bad == 1 {
                    println!("DIFFER {:?}", lines);
                    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
                    let cut = |x: &str| String::from_utf8_lossy(&x.as_bytes()[n.saturating_sub(60)..(n + 200).min(x.len())]).to_string();
                    println!("extracted ...{}", cut(&a));
                    println!("original  ...{}", cut(&b));
                }
            }
        }
        println!("sessions {} texts {} differ {}", sessions, texts, bad);
        let all: Vec<String> = text.split(['\x01', '\x02']).map(|x| x.to_string()).collect();
        for b in assumed(&all) {
            println!("ASSUMED {}", b);
        }
    });
    t.unwrap().join().unwrap();
}

macro_rules! both {
    ($name:ident, $m:ident, $show:expr) => {
        fn $name(lines: &[&str]) -> String {
            use std::fmt::Write;
            let mut o = String::new();
            let mut session = $m::resolver::Resolver::new();
            for l in lines {
                write!(o, "{:?}\n", $m::scanner::Scanner::new(l).scan_tokens()).unwrap();
                for e in [$m::parser::parse(l).err(), $m::parser::parse_expression(l).err()].iter().flatten() {
                    o.push_str(&$show(e));
                }
                write!(o, "{:?}\n", $m::parser::parse_expression(l)).unwrap();
                write!(o, "{:?}\n", $m::parser::parse(l)).unwrap();
                let r = $m::parser::parse_repl_line(l);
                write!(o, "{:?}\n", r).unwrap();
                if let Ok(t) = r {
                    write!(o, "{:?}\n", session.resolve(t)).unwrap();
                }
                if let Ok(t) = $m::parser::parse(l) {
                    write!(o, "{:?}\n", $m::resolver::resolve(t)).unwrap();
                }
            }
            o
        }
    };
}
use crate as own;
use whitespace as real;
both!(extracted, own, |e: &own::error::ParseError| {
    let mut f = vlib::VFormatter::v_new();
    let _ = e.v_fmt(&mut f);
    f.v_get().to_string()
});
both!(original, real, |e: &real::error::ParseError| e.to_string());

// What lib/*.rs assumes of std and the dependencies, on the texts of the run.
fn assumed(texts: &[String]) -> Vec<String> {
    use unicode_segmentation::UnicodeSegmentation;
    use vlib::*;
    let mut bad = Vec::new();
    let mut say = |ok: bool, what: &str, t: &str| {
        if !ok && bad.len() < 5 {
            bad.push(format!("{} of {:?}", what, t));
        }
    };
    for c in ['\n', '\r'] {
        say(!c.is_alphanumeric() && !c.is_alphabetic(), "ax_unicode", "line ends");
    }
    let mut rng: u64 = 88172645463325252;
    let mut next = |n: u64| {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng % n
    };
    let mut vm: IndexMap<String, u64, FnvBuildHasher> = Default::default();
    let mut im: indexmap::IndexMap<String, u64> = indexmap::IndexMap::new();
    let mut hm: HashMap<String, u64> = HashMap::new();
    let mut sm: std::collections::BTreeMap<String, u64> = Default::default();
    for t in texts {
        let g: Vec<(usize, &str)> = UnicodeSegmentation::grapheme_indices(t.as_str(), true).collect();
        // ax_clusters, ax_piece
        let mut at = 0;
        for (o, x) in &g {
            say(*o == at && !x.is_empty() && t.is_char_boundary(*o), "ax_clusters", t);
            say(t[*o..].starts_with(x), "ax_piece", t);
            at += x.len();
        }
        say(at == t.len(), "ax_clusters", t);
        let (mut p, mut own) = (UnicodeSegmentation::grapheme_indices(t.as_str(), true).peekable(), Vec::new());
        let mut q = VSource::grapheme_indices(t.as_str(), true).peekable();
        loop {
            say(p.peek().map(|x| x.1) == q.peek().map(|x| x.1), "peek", t);
            let c = q.clone().next();
            match q.next() {
                None => break,
                Some(x) => {
                    say(c.map(|y| y.1) == Some(x.1) && p.next() == Some(x), "next", t);
                    own.push(x);
                }
            }
        }
        say(p.next().is_none() && own == g, "grapheme_indices", t);
        // Texts that differ in line ends only (same_text).
        if !t.contains('\r') {
            let u = t.replace('\n', "\r\n");
            let h: Vec<String> = u.graphemes(true).map(|x| if x == "\r\n" { "\n".to_string() } else { x.to_string() }).collect();
            say(h.iter().eq(g.iter().map(|x| x.1)), "same_text", t);
        }
        // f64: digits with an optional fraction are a number.
        let d: String = format!("{}{}", next(1 << 40), if next(2) == 0 { String::new() } else { format!(".{}{}", "0".repeat(next(5) as usize), next(1 << 30)) });
        say(d.repeat(1 + next(40) as usize).splitn(2, '.').next().unwrap().parse::<f64>().is_ok() && d.parse::<f64>().is_ok(), "num_text", &d);
        // maps
        let k = format!("k{}", next(40));
        match next(4) {
            0 => {
                let had = im.contains_key(&k);
                let before: Vec<String> = im.keys().cloned().collect();
                let v = next(99);
                let (a, b) = (im.insert(k.clone(), v), vm.insert(k.clone(), v));
                say(a == b && a.is_some() == had, "IndexMap::insert", &k);
                let mut now = before.clone();
                if !had {
                    now.push(k.clone());
                }
                say(now.iter().eq(im.keys()), "order of IndexMap", &k);
                say(hm.insert(k.clone(), v) == sm.insert(k.clone(), v), "HashMap::insert", &k);
            }
            1 => {
                say(im.contains_key(&k) == vm.contains_key(&k) && im.len() == vm.len(), "IndexMap::contains_key", &k);
                say(hm.contains_key(&k) == sm.contains_key(&k) && hm.len() == sm.len(), "HashMap::contains_key", &k);
            }
            2 => {
                say(hm.get(&k) == sm.get(&k), "HashMap::get", &k);
                if let (Some(x), Some(y)) = (hm.get_mut(&k), sm.get_mut(&k)) {
                    *x += 1;
                    *y += 1;
                }
            }
            _ => {
                for (i, (a, b)) in im.iter().enumerate() {
                    say(vm.vkey(i) == a && vm.vval(i) == b, "IndexMap::iter", a);
                }
                if im.len() > 25 {
                    im = Default::default();
                    vm = Default::default();
                }
            }
        }
        let mut v: Vec<char> = t.chars().collect();
        let c = v.clone();
        say(vtake(&mut v) == c && v.is_empty(), "vtake", t);
        let mut x = t.vchars();
        say(c.iter().all(|y| x.next() == Some(*y)) && x.next().is_none(), "vchars", t);
    }
    bad
}
