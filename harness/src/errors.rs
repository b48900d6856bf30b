//! The texts of errors. An input is four lines per cause: line, column, token
//! ("-" for none, "+" and the text), message.
use super::Input;
use whitespace::error::{ParseError, ParseErrorCause};
use whitespace::source_loc::SourceLoc;

fn causes(i: &Input) -> Vec<(u32, u16, Option<String>, String)> {
    i.lines
        .chunks_exact(4)
        .map(|c| {
            (
                c[0].parse().unwrap_or(1),
                c[1].parse().unwrap_or(1),
                c[2].strip_prefix('+').map(|t| t.to_string()),
                c[3].clone(),
            )
        })
        .collect()
}
fn want(c: &(u32, u16, Option<String>, String)) -> String {
    match &c.2 {
        None => format!("{}:{}: {}\n", c.0, c.1, c.3),
        Some(t) => format!("{}:{} at {:?}: {}\n", c.0, c.1, t, c.3),
    }
}
fn differ(what: &str, got: String, want: String) -> Option<String> {
    if got == want { None } else { Some(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}

pub fn judge(i: &Input) -> Option<String> {
    let cs = causes(i);
    let mut made = vec![];
    for (k, c) in cs.iter().enumerate() {
        let loc = SourceLoc::new(c.0, c.1);
        let e = match &c.2 {
            None => ParseErrorCause::new(loc, &c.3),
            Some(t) if k % 2 == 0 => ParseErrorCause::new_with_location(loc, t, &c.3),
            Some(t) => ParseErrorCause::new_with_location_string(loc, t.clone(), &c.3),
        };
        if let Some(d) = differ("text of a cause", e.to_string(), want(c)) {
            return Some(d);
        }
        let one: ParseError = e.clone().into();
        if let Some(d) = differ("text of an error of one cause", one.to_string(), want(c) + "\n") {
            return Some(d);
        }
        made.push(e);
    }
    differ("text of an error", ParseError::new(made).to_string(), cs.iter().map(|c| want(c) + "\n").collect())
}
