//! The words and numbers of each function, const and type of the sources, with a
//! hash of its code: `vx --words`.  Where code differs from the code the
//! contracts were written for, the search for a failing input tries its words.
use super::is_cfg_test;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

fn walk(ts: TokenStream, text: &mut String, out: &mut Vec<String>) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(_)) = it.peek() {
                    it.next(); // an attribute or a comment
                    continue;
                }
                text.push('#');
            }
            TokenTree::Group(g) => {
                text.push_str(&format!("{:?}", g.delimiter()));
                walk(g.stream(), text, out);
                text.push(')');
            }
            TokenTree::Literal(l) => {
                text.push_str(&l.to_string());
                match Lit::new(l) {
                    Lit::Str(s) => out.push(format!("s {}", hex(&s.value()))),
                    Lit::Char(c) => out.push(format!("s {}", hex(&c.value().to_string()))),
                    Lit::Int(i) => {
                        if let Ok(n) = i.base10_parse::<u64>() {
                            if (2..=100_000).contains(&n) {
                                out.push(format!("n {}", n));
                            }
                        }
                    }
                    _ => {}
                }
            }
            t => text.push_str(&format!(" {}", t)),
        }
    }
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
/// 64-bit FNV-1a.
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
fn add(m: &mut BTreeMap<String, (String, Vec<String>)>, key: String, ts: TokenStream) {
    let e = m.entry(key).or_default();
    walk(ts, &mut e.0, &mut e.1);
}
fn items(file: &str, v: &[Item], m: &mut BTreeMap<String, (String, Vec<String>)>) {
    for i in v {
        match i {
            Item::Fn(f) if !is_cfg_test(&f.attrs) => add(m, format!("{}::{}", file, f.sig.ident), f.to_token_stream()),
            Item::Impl(im) if !is_cfg_test(&im.attrs) => {
                let t = im.self_ty.to_token_stream().to_string().replace(' ', "");
                let tr = im.trait_.as_ref().map_or(String::new(), |t| t.1.to_token_stream().to_string().replace(' ', "") + "/");
                for x in &im.items {
                    let n = match x {
                        ImplItem::Fn(f) if is_cfg_test(&f.attrs) => continue,
                        ImplItem::Fn(f) => f.sig.ident.to_string(),
                        _ => "-".into(),
                    };
                    add(m, format!("{}::{}{}::{}", file, tr, t, n), x.to_token_stream());
                }
            }
            Item::Mod(x) if !is_cfg_test(&x.attrs) => {
                if let Some((_, v)) = &x.content {
                    items(&format!("{}::{}", file, x.ident), v, m);
                }
            }
            Item::Mod(_) | Item::Use(_) | Item::Fn(_) | Item::Impl(_) => {}
            _ => add(m, format!("{}::-", file), i.to_token_stream()),
        }
    }
}
pub fn print(repo: &std::path::Path) {
    let mut m = BTreeMap::new();
    let mut fs: Vec<_> = std::fs::read_dir(repo.join("src")).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    fs.sort();
    for f in fs {
        if f.extension().map_or(true, |x| x != "rs") {
            continue;
        }
        let Ok(t) = std::fs::read_to_string(&f) else { continue };
        let Ok(p) = parse_file(&t) else { continue };
        items(&f.file_stem().unwrap().to_string_lossy(), &p.items, &mut m);
    }
    for (k, (t, l)) in m {
        println!("{} {:016x}", k, hash(&t));
        for x in l {
            println!("\t{}", x);
        }
    }
}
