//! Looks for an input on which the real crate breaks a property, once the
//! verifier has rejected an obligation.  Never decides that a property holds.
mod cli;
mod errors;
mod gen;
mod judge;
#[allow(dead_code, unused_imports)]
mod real {
    use whitespace as w;
    include!("conv.rs");
}
#[allow(dead_code, unused_imports)]
mod refr {
    use reference as w;
    include!("conv.rs");
}

use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: String,
    pub lex: String,
    pub lo: usize,
    pub text: Option<String>,
    pub num: Option<u64>,
    pub line: u32,
    pub col: u32,
}
pub type Errs = Vec<(u32, u32, Option<String>, String)>;
pub type Scan = Result<Vec<Tok>, Errs>;

#[derive(Clone, Debug, PartialEq)]
pub struct Ast {
    pub name: &'static str,
    pub text: Vec<String>,
    pub loc: Option<(u32, u32)>,
    pub slot: Option<String>,
    pub kids: Vec<Ast>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Input {
    pub mode: char,
    pub lines: Vec<String>,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str) -> String {
    if s.len() <= 6000 {
        return s.to_string();
    }
    let mut e = 6000;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{} ... ({} bytes)", &s[..e], s.len())
}

/// None: fine. Some: what was observed instead of what.
fn judged(prop: &str, i: &Input) -> Option<String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge::judge(prop, i)));
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            // Was it the code under test?  The reference must not panic.
            let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge::reference_only(i)));
            if rr.is_err() {
                return None;
            }
            Some(format!("panic: {}", m))
        }
    }
}

fn minimize(prop: &str, i: Input) -> Input {
    let t0 = Instant::now();
    let mut cur = i;
    for l in (0..cur.lines.len()).rev() {
        if cur.lines.len() > 1 {
            let mut c = cur.clone();
            c.lines.remove(l);
            if judged(prop, &c).is_some() {
                cur = c;
            }
        }
    }
    for l in 0..cur.lines.len() {
        let mut size = cur.lines[l].chars().count().max(1) / 2;
        while size >= 1 {
            let mut k = 0;
            loop {
                let cs: Vec<char> = cur.lines[l].chars().collect();
                if k >= cs.len() || t0.elapsed() > Duration::from_secs(15) {
                    break;
                }
                let e = (k + size).min(cs.len());
                let t: String = cs[..k].iter().chain(cs[e..].iter()).collect();
                let mut c = cur.clone();
                c.lines[l] = t;
                if judged(prop, &c).is_some() {
                    cur = c;
                } else {
                    k += size;
                }
            }
            size /= 2;
        }
    }
    cur
}

fn write_input(path: &str, i: &Input) {
    let mut s = format!("{}\n{}\n", i.mode, i.lines.len());
    for l in &i.lines {
        s.push_str(&format!("{}\n{}\n", l.len(), l));
    }
    std::fs::write(path, s).unwrap();
}
fn read_input(path: &str) -> Input {
    let s = std::fs::read(path).unwrap();
    let mut p = 0;
    let mut line = || {
        let e = s[p..].iter().position(|&b| b == b'\n').unwrap() + p;
        let r = String::from_utf8(s[p..e].to_vec()).unwrap();
        p = e + 1;
        (r, p)
    };
    let mode = line().0.chars().next().unwrap();
    let n: usize = line().0.parse().unwrap();
    let mut lines = vec![];
    drop(line);
    for _ in 0..n {
        let e = s[p..].iter().position(|&b| b == b'\n').unwrap() + p;
        let len: usize = std::str::from_utf8(&s[p..e]).unwrap().parse().unwrap();
        p = e + 1;
        lines.push(String::from_utf8(s[p..p + len].to_vec()).unwrap());
        p += len + 1;
    }
    Input { mode, lines }
}

fn big_stack<F: FnOnce() -> i32 + Send + 'static>(f: F) -> i32 {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap_or(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let prop = get("--prop", "S01");
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: u64 = get("--secs", "20").parse().unwrap();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let k: u64 = get("--k", "0").parse().unwrap();
            let n: u64 = get("--n", "1").parse().unwrap();
            let beat = get("--beat", "");
            let out = get("--out", "");
            let from: u64 = get("--from", "0").parse().unwrap();
            std::panic::set_hook(Box::new(|_| {}));
            big_stack(move || {
                let f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&beat).unwrap();
                let t0 = Instant::now();
                let mut idx = from.max(k);
                while idx % n != k {
                    idx += 1;
                }
                let mut done = 0u64;
                loop {
                    if done % 16 == 0 && t0.elapsed() > Duration::from_secs(secs) {
                        break;
                    }
                    let _ = f.write_at(&idx.to_le_bytes(), 0);
                    let i = gen::input(&prop, seed, idx);
                    if judged(&prop, &i).is_some() {
                        let i = minimize(&prop, i);
                        if let Some(why) = judged(&prop, &i) {
                            write_input(&out, &i);
                            println!("FOUND {} {}", done, why);
                            return 1;
                        }
                    }
                    done += 1;
                    idx += n;
                }
                println!("DONE {}", done);
                0
            })
        }
        Some("judge") => {
            // One input: exit 0 fine, 1 broken.
            let file = get("--file", "");
            std::panic::set_hook(Box::new(|_| {}));
            big_stack(move || match judged(&prop, &read_input(&file)) {
                None => 0,
                Some(w) => {
                    println!("{}", w);
                    1
                }
            })
        }
        Some("search") => search(&prop, seed, secs, &get("--dir", "/tmp")),
        Some("stats") => {
            let (mut n, mut sc, mut pa, mut re) = (0, 0, 0, 0);
            for k in 0..20000 {
                let i = gen::input(&prop, seed, k * 7 + 1);
                n += 1;
                sc += refr::scan(&i.lines[0]).is_ok() as u32;
                if refr::parse(if i.mode == 's' { 'p' } else { i.mode }, &i.lines[0]).is_ok() {
                    pa += 1;
                    re += refr::resolve_once(&i.lines[0]).map_or(false, |x| x.is_ok()) as u32;
                }
            }
            println!("{} inputs: {} scan, {} parse, {} resolve", n, sc, pa, re);
            0
        }
        Some("corpus") => {
            // Texts for tools/replay.py: lines end in \x01, sessions in \x02.
            let n: u64 = get("--n", "400").parse().unwrap();
            let props = ["S01", "S02", "S03", "S04", "S05", "S06", "P01", "P02", "P03", "P04", "P05", "P06", "R01", "R02",
                "R03", "R04", "R05", "R06"];
            for k in 0..n {
                let p = props[(k as usize) % props.len()];
                let i = gen::input(p, seed, k * 13 + 5);
                let size: usize = i.lines.iter().map(|l| l.len()).sum();
                if size > 1500 || i.lines.iter().any(|l| l.contains(['\x01', '\x02'])) {
                    continue;
                }
                for l in &i.lines {
                    print!("{}\x01", l);
                }
                print!("\x02");
            }
            0
        }
        Some("show") => {
            let i = gen::input(&prop, seed, get("--i", "0").parse().unwrap());
            println!("{:?}", i.mode);
            for l in &i.lines {
                println!("---\n{}", l);
            }
            0
        }
        _ => {
            eprintln!("usage: vh search|judge|worker ...");
            2
        }
    };
    std::process::exit(rc);
}

/// Prints one JSON object: {"found": bool, "cases": n, ...}.
fn search(prop: &str, seed: u64, secs: u64, dir: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let n = 8u64;
    struct W {
        k: u64,
        child: std::process::Child,
        beat: String,
        out: String,
        last: u64,
        since: Instant,
    }
    let t0 = Instant::now();
    let spawn = |k: u64, from: u64, left: u64| -> W {
        let beat = format!("{}/beat{}", dir, k);
        let out = format!("{}/found{}", dir, k);
        std::fs::write(&beat, [0u8; 8]).unwrap();
        let child = Command::new("sh")
            .arg("-c")
            .arg("ulimit -v 6000000; ulimit -c 0; exec \"$@\"")
            .arg("sh")
            .arg(&exe)
            .args(["worker", "--prop", prop, "--seed", &seed.to_string(), "--k", &k.to_string(), "--n", &n.to_string()])
            .args(["--beat", &beat, "--out", &out, "--secs", &left.to_string(), "--from", &from.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        W { k, child, beat, out, last: u64::MAX, since: Instant::now() }
    };
    let mut ws: Vec<W> = (0..n).map(|k| spawn(k, 0, secs)).collect();
    let mut cases = 0u64;
    let mut found: Option<(Input, String)> = None;
    let mut skipped = 0;
    while !ws.is_empty() && found.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < ws.len() {
            let idx = std::fs::read(&ws[i].beat).ok().filter(|b| b.len() == 8).map_or(0, |b| {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b);
                u64::from_le_bytes(x)
            });
            if idx != ws[i].last {
                ws[i].last = idx;
                ws[i].since = Instant::now();
            }
            let mut bad: Option<String> = None;
            let mut gone = false;
            match ws[i].child.try_wait() {
                Ok(Some(st)) => {
                    let mut o = String::new();
                    if let Some(mut so) = ws[i].child.stdout.take() {
                        let _ = so.read_to_string(&mut o);
                    }
                    if st.code() == Some(0) {
                        if let Some(x) = o.trim().strip_prefix("DONE ") {
                            cases += x.parse::<u64>().unwrap_or(0);
                        }
                    } else if st.code() == Some(1) && o.starts_with("FOUND ") {
                        let r = &o[6..];
                        let (c, why) = r.split_once(' ').unwrap_or(("0", r));
                        cases += c.parse::<u64>().unwrap_or(0);
                        found = Some((read_input(&ws[i].out), why.trim_end().to_string()));
                    } else {
                        bad = Some(format!("the process died ({})", st));
                    }
                    gone = true;
                }
                Ok(None) => {
                    if ws[i].since.elapsed() > Duration::from_secs(25) {
                        let _ = ws[i].child.kill();
                        let _ = ws[i].child.wait();
                        bad = Some("no result within 25 s".into());
                        gone = true;
                    }
                }
                Err(_) => gone = true,
            }
            if let Some(b) = bad {
                // Only the code under test may hang or die: check the reference too.
                let inp = gen::input(prop, seed, idx);
                let f = format!("{}/cand", dir);
                write_input(&f, &inp);
                let real = run_one(&exe, prop, &f, 20);
                let refr = run_one(&exe, "REF", &f, 20);
                if real.is_none() && refr == Some(0) {
                    found = Some((shrink_hang(&exe, prop, inp, dir), b));
                } else {
                    skipped += 1;
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    let k = ws[i].k;
                    if left > 0 && skipped < 50 {
                        ws.push(spawn(k, idx + 1, left));
                    }
                }
            }
            if gone {
                let w = ws.remove(i);
                cases += 0;
                drop(w);
            } else {
                i += 1;
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let mut s = format!("{{\"found\": {}, \"cases\": {}, \"secs\": {:.1}", found.is_some(), cases, t0.elapsed().as_secs_f64());
    if let Some((i, why)) = found {
        s.push_str(&format!(
            ", \"mode\": {}, \"lines\": [{}], \"observed\": {}",
            js(&i.mode.to_string()),
            i.lines.iter().map(|l| js(&clip(l))).collect::<Vec<_>>().join(", "),
            js(&clip(&why))
        ));
        let f = format!("{}/found.input", dir);
        write_input(&f, &i);
    }
    s.push('}');
    println!("{}", s);
    let _ = std::io::stdout().flush();
    0
}

/// Some(code) if it ended by itself in time with 0 or 1; None: hang or crash.
fn run_one(exe: &std::path::Path, prop: &str, file: &str, secs: u64) -> Option<i32> {
    let mut c = Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 6000000; ulimit -c 0; exec \"$@\"")
        .arg("sh")
        .arg(exe)
        .args(["judge", "--prop", prop, "--file", file])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return s.code().filter(|x| *x == 0 || *x == 1),
            Ok(None) if t.elapsed() > Duration::from_secs(secs) => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

fn shrink_hang(exe: &std::path::Path, prop: &str, i: Input, dir: &str) -> Input {
    let t0 = Instant::now();
    let f = format!("{}/cand", dir);
    let mut cur = i;
    for l in 0..cur.lines.len() {
        let mut size = cur.lines[l].chars().count().max(1) / 2;
        while size >= 1 {
            let mut k = 0;
            loop {
                let cs: Vec<char> = cur.lines[l].chars().collect();
                if k >= cs.len() || t0.elapsed() > Duration::from_secs(60) {
                    break;
                }
                let e = (k + size).min(cs.len());
                let mut c = cur.clone();
                c.lines[l] = cs[..k].iter().chain(cs[e..].iter()).collect();
                write_input(&f, &c);
                if run_one(exe, prop, &f, 3).is_none() {
                    cur = c;
                } else {
                    k += size;
                }
            }
            size /= 2;
        }
    }
    cur
}
