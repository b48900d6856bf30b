//! The program itself, run on files ('f') and on sessions of the prompt ('i').
//! Expected: what its main.rs should make of the results of the library, which
//! is the code under test too.
use super::Input;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use whitespace as w;
use whitespace::error::ParseError;

fn report(e: &ParseError, err: &mut String) {
    for c in &e.causes {
        match &c.token {
            None => err.push_str(&format!("[line {}:{}] Error: {}\n", c.source_loc.line, c.source_loc.column, c.message)),
            Some(t) => err.push_str(&format!(
                "[line {}:{}] Error at '{}': {}\n",
                c.source_loc.line, c.source_loc.column, t, c.message
            )),
        }
    }
}

fn expected(i: &Input, text: &str) -> (String, String, i32) {
    let (mut out, mut err) = (String::new(), String::new());
    let mut res = w::resolver::Resolver::new();
    if i.mode == 'f' {
        let code = match w::parser::parse(text).and_then(|v| res.resolve(v)) {
            Ok(c) => {
                out.push_str(&format!("{:#?}\n", c.statements));
                0
            }
            Err(e) => {
                report(&e, &mut err);
                65
            }
        };
        return (out, err, code);
    }
    for l in text.split_inclusive('\n') {
        out.push_str("> ");
        match w::parser::parse_repl_line(l).and_then(|v| res.resolve(v)) {
            Ok(c) => out.push_str(&format!("{:#?}\n", c.statements)),
            Err(e) => report(&e, &mut err),
        }
    }
    out.push_str("> ");
    (out, err, 0)
}

fn clip(s: &str) -> String {
    s.chars().take(1500).collect()
}

pub fn judge(i: &Input) -> Option<String> {
    let bin = std::env::var("VH_BIN").ok()?;
    if !std::path::Path::new(&bin).is_file() {
        return None;
    }
    let dir = std::env::var("VH_DIR").unwrap_or_else(|_| "/tmp".into());
    let f = |n: &str| format!("{}/{}-{}", dir, n, std::process::id());
    let text: String = i.lines.concat();
    let want = expected(i, &text);
    std::fs::write(f("in"), &text).unwrap();
    let open = |n: &str| std::fs::File::create(f(n)).unwrap();
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -f 200000; ulimit -v 6000000; ulimit -c 0; ulimit -s 1000000 2>/dev/null; exec \"$@\"").arg("sh").arg(&bin);
    if i.mode == 'f' {
        c.arg(f("in")).stdin(Stdio::null());
    } else {
        c.stdin(std::fs::File::open(f("in")).unwrap());
    }
    let mut c = c.stdout(open("out")).stderr(open("err")).spawn().unwrap();
    let t = Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t.elapsed() > Duration::from_secs(20) => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let read = |n: &str| String::from_utf8_lossy(&std::fs::read(f(n)).unwrap_or_default()).into_owned();
    let (out, err) = (read("out"), read("err"));
    for n in ["in", "out", "err"] {
        let _ = std::fs::remove_file(f(n));
    }
    match st {
        None => return Some("the program does not end".into()),
        Some(s) if s.code() != Some(want.2) => {
            return Some(format!("exit: got {}, expected status {}; standard error: {}", s, want.2, clip(&err)))
        }
        _ => {}
    }
    if out != want.0 {
        return Some(format!("standard output: got {:?}, expected {:?}", clip(&out), clip(&want.0)));
    }
    if err != want.1 {
        return Some(format!("standard error: got {:?}, expected {:?}", clip(&err), clip(&want.1)));
    }
    None
}
