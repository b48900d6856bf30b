//! Overlay files: contracts, invariants and proof hints, attached by function
//! name.  See DESIGN.md ("Overlay format").
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Clause {
    pub text: String,
    pub origin: String,
    pub always: bool,
    pub line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct LoopAnn {
    pub pre: Vec<Clause>,
    pub inv: Vec<Clause>,
    pub inx: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Vec<Clause>,
    pub top: Vec<Clause>,
    pub end: Vec<Clause>,
}

#[derive(Clone, Debug)]
pub struct Hint {
    pub kind: String, // before | after | arm
    pub name: String,
    pub k: usize,
    pub clause: Clause,
}

#[derive(Clone, Debug, Default)]
pub struct FnAnn {
    pub ret: Option<String>,
    pub attrs: Vec<Clause>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Vec<Clause>,
    pub entry: Vec<Clause>,
    pub loops: BTreeMap<usize, LoopAnn>,
    pub hints: Vec<Hint>,
    pub inline: bool,
    pub external: bool,
    pub tryty: Option<String>,
    pub split: Vec<Clause>,
}

#[derive(Clone, Debug, Default)]
pub struct Overlay {
    pub extract: Vec<String>,
    pub libs: Vec<(String, String)>, // (name, text)
    pub specs: BTreeMap<String, Vec<Clause>>,
    pub fns: BTreeMap<String, FnAnn>,
    pub drop: Vec<String>,
    pub world: Vec<String>,
    pub fmt: Vec<String>,
    pub renames: Vec<(String, String, String)>, // module, from, to (types)
}

impl Overlay {
    pub fn load(&mut self, path: &Path) -> Result<(), String> {
        let text = std::fs::read_to_string(path)
            .map_err(|e| format!("{}: {}", path.display(), e))?;
        let origin = path
            .file_name()
            .unwrap()
            .to_string_lossy()
            .trim_end_matches(".ov")
            .to_string();
        let dir = path.parent().unwrap().to_path_buf();
        #[derive(Clone)]
        enum Sec {
            None,
            Spec(String),
            Fns(Vec<String>),
        }
        let mut sec = Sec::None;
        // current tag within a Fns section
        let mut cur: Option<(String, String, usize)> = None; // (tag,text,line)
        let mut spec_buf = String::new();
        let mut spec_line = 0;
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        loop {
            let line = if i < lines.len() { lines[i] } else { "//#end" };
            let t = line.trim_start();
            if t.starts_with("//#") {
                // flush
                if let Sec::Fns(names) = &sec {
                    if let Some((tag, txt, ln)) = cur.take() {
                        self.add(names, &tag, &txt, &origin, ln)?;
                    }
                }
                if let Sec::Spec(m) = &sec {
                    if !spec_buf.trim().is_empty() {
                        self.specs.entry(m.clone()).or_default().push(Clause {
                            text: unfolds(&std::mem::take(&mut spec_buf)),
                            origin: origin.clone(),
                            always: true,
                            line: spec_line,
                        });
                    }
                    spec_buf.clear();
                }
                sec = Sec::None;
                let rest = t[3..].trim();
                let (cmd, arg) = match rest.find(char::is_whitespace) {
                    Some(p) => (&rest[..p], rest[p..].trim()),
                    None => (rest, ""),
                };
                match cmd {
                    "end" => {}
                    "include" => self.load(&dir.join(arg))?,
                    "lib" => {
                        let p = dir.join(arg);
                        if !self.libs.iter().any(|(n, _)| n == arg) {
                            let txt = std::fs::read_to_string(&p)
                                .map_err(|e| format!("{}: {}", p.display(), e))?;
                            self.libs.push((arg.to_string(), txt));
                        }
                    }
                    "extract" => {
                        for f in arg.split_whitespace() {
                            if !self.extract.contains(&f.to_string()) {
                                self.extract.push(f.to_string());
                            }
                        }
                    }
                    "drop" => {
                        for f in arg.split_whitespace() {
                            self.drop.push(f.to_string());
                        }
                    }
                    "world" => self.world.push(arg.to_string()),
                    "fmt" => self.fmt.push(arg.to_string()),
                    "module" => {
                        sec = Sec::Spec(arg.to_string());
                        spec_line = i + 1;
                    }
                    "fn" => {
                        sec = Sec::Fns(
                            arg.split(',').map(|s| s.trim().to_string()).collect(),
                        );
                    }
                    _ => return Err(format!("{}:{}: unknown directive {}", origin, i + 1, cmd)),
                }
            } else {
                match &sec {
                    Sec::None => {}
                    Sec::Spec(_) => {
                        spec_buf.push_str(line);
                        spec_buf.push('\n');
                    }
                    Sec::Fns(names) => {
                        if t.starts_with('@') {
                            if let Some((tag, txt, ln)) = cur.take() {
                                self.add(names, &tag, &txt, &origin, ln)?;
                            }
                            let (tag, rest) = match t.find(char::is_whitespace) {
                                Some(p) => (&t[1..p], &t[p..]),
                                None => (&t[1..], ""),
                            };
                            cur = Some((tag.to_string(), rest.trim().to_string(), i + 1));
                        } else if let Some(c) = &mut cur {
                            c.1.push('\n');
                            c.1.push_str(line);
                        }
                    }
                }
            }
            if i >= lines.len() {
                break;
            }
            i += 1;
        }
        Ok(())
    }

    /// Keep the clauses of these properties and the untagged ones.
    pub fn keep(&mut self, props: &[String]) {
        let is_prop = |o: &str| o.len() == 3 && o.as_bytes()[0].is_ascii_uppercase() && o[1..].bytes().all(|b| b.is_ascii_digit());
        // The same clause for two properties: once, for the first one.
        let f = |v: &mut Vec<Clause>| {
            v.retain(|c| c.always || !is_prop(&c.origin) || props.iter().any(|p| *p == c.origin));
            let rank = |c: &Clause| props.iter().position(|p| *p == c.origin).unwrap_or(props.len());
            let all = v.clone();
            let mut i = 0;
            v.retain(|c| {
                let k = i;
                i += 1;
                !all.iter().enumerate().any(|(j, d)| j != k && d.text == c.text && (rank(d), j) < (rank(c), k))
            });
        };
        for a in self.fns.values_mut() {
            f(&mut a.req);
            f(&mut a.ens);
            f(&mut a.entry);
            for l in a.loops.values_mut() {
                f(&mut l.pre);
                f(&mut l.inv);
                f(&mut l.inx);
                f(&mut l.ens);
                f(&mut l.top);
                f(&mut l.end);
            }
            a.hints.retain(|h| h.clause.always || !is_prop(&h.clause.origin) || props.iter().any(|p| *p == h.clause.origin));
        }
    }

    fn add(
        &mut self,
        names: &[String],
        tag: &str,
        txt: &str,
        origin: &str,
        line: usize,
    ) -> Result<(), String> {
        // `@ens[P02|P06] ..$k..`: one clause per property, $k false and true.
        if let (Some(a), Some(b)) = (tag.find('['), tag.find('|')) {
            let (x, y) = (&tag[a + 1..b], tag[b + 1..].trim_end_matches(']'));
            self.add(names, &format!("{}[{}]", &tag[..a], x), &txt.replace("$k", "false"), origin, line)?;
            return self.add(names, &format!("{}[{}]", &tag[..a], y), &txt.replace("$k", "true"), origin, line);
        }
        // `@ens[P04+] ..`: kept whatever the property which is checked.
        let (tag, origin) = match tag.find('[') {
            Some(p) => (&tag[..p], tag[p + 1..].trim_end_matches(']')),
            None => (tag, origin),
        };
        for n in names {
            let short = n.rsplit("::").next().unwrap().to_string();
            let text = txt.replace("$F", &short).replace("$o", "old(self)").replace("$n", "final(self)");
            let cl = Clause {
                text: text.trim_end().to_string(),
                origin: origin.trim_end_matches('+').to_string(),
                always: origin.ends_with('+'),
                line,
            };
            let f = self.fns.entry(n.clone()).or_default();
            if cl.text.trim().is_empty() && tag != "inline" && tag != "external" {
                continue;
            }
            match tag {
                "ret" => f.ret = Some(cl.text.trim().to_string()),
                "attr" => f.attrs.push(cl),
                "req" => f.req.push(cl),
                "ens" => f.ens.push(cl),
                "dec" => {
                    f.dec.clear();
                    f.dec.push(cl)
                }
                "entry" => f.entry.push(cl),
                "split" => f.split.push(cl),
                "try" => f.tryty = Some(cl.text.trim().to_string()),
                "inline" => f.inline = true,
                "external" => f.external = true,
                _ => {
                    if let Some(rest) = tag.strip_prefix("loop") {
                        let (num, kind) = rest
                            .split_once('.')
                            .ok_or(format!("{}:{}: bad tag {}", origin, line, tag))?;
                        let k: usize = num
                            .parse()
                            .map_err(|_| format!("{}:{}: bad tag {}", origin, line, tag))?;
                        let l = f.loops.entry(k).or_default();
                        match kind {
                            "pre" => l.pre.push(cl),
                            "inv" => l.inv.push(cl),
                            "inx" => l.inx.push(cl),
                            "ens" => l.ens.push(cl),
                            "dec" => {
                                l.dec.clear();
                                l.dec.push(cl)
                            }
                            "top" => l.top.push(cl),
                            "end" => l.end.push(cl),
                            _ => return Err(format!("{}:{}: bad tag {}", origin, line, tag)),
                        }
                    } else {
                        // before:name:k / after:name:k / arm:path
                        let parts: Vec<&str> = tag.splitn(2, ':').collect();
                        if parts.len() == 2
                            && ["before", "after", "arm"].contains(&parts[0])
                        {
                            let (name, k) = if parts[0] == "arm" {
                                (parts[1].to_string(), 0)
                            } else {
                                match parts[1].rsplit_once('#') {
                                    Some((a, b)) => (a.to_string(), b.parse().unwrap_or(0)),
                                    None => (parts[1].to_string(), 0),
                                }
                            };
                            f.hints.push(Hint {
                                kind: parts[0].to_string(),
                                name,
                                k,
                                clause: cl,
                            });
                        } else {
                            return Err(format!("{}:{}: bad tag {}", origin, line, tag));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// `#[unfold] .. spec fn p_X(params) -> R decreases D { body }`: p_X is opaque,
/// u_X(args) says that p_X(args) is its body, and the broadcast lemma l_X that
/// this is so.  The group `unfolds` holds the lemmas.
fn unfolds(text: &str) -> String {
    let mut names = vec![];
    let mut parts: Vec<&str> = text.split("#[unfold]\n").collect();
    if parts.len() == 1 {
        return text.to_string();
    }
    for p in &parts[1..] {
        let a = p.find("spec fn ").unwrap() + 8;
        names.push(p[a..a + p[a..].find('(').unwrap()].to_string());
    }
    let short = |n: &str| n.strip_prefix("p_").unwrap_or(n).to_string();
    let mut out = parts.remove(0).to_string();
    for (p, n) in parts.iter().zip(&names) {
        let a = p.find("spec fn ").unwrap() + 8 + n.len() + 1;
        let mut d = 1;
        let mut b = a;
        for (i, c) in p[a..].char_indices() {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                _ => {}
            }
            if d == 0 {
                b = a + i;
                break;
            }
        }
        let params = &p[a..b];
        let mut args = vec![];
        let mut depth = 0;
        let mut start = 0;
        let mut push = |s: &str| {
            if let Some(q) = s.find(':') {
                args.push(s[..q].trim().to_string());
            }
        };
        for (i, c) in params.char_indices() {
            match c {
                '<' | '(' => depth += 1,
                '>' | ')' => depth -= 1,
                ',' if depth == 0 => {
                    push(&params[start..i]);
                    start = i + 1;
                }
                _ => {}
            }
        }
        push(&params[start..]);
        let args = args.join(", ");
        let o = b + p[b..].find('{').unwrap();
        let e = if p[o..].lines().next().unwrap().trim_end().ends_with('}') {
            o + p[o..].lines().next().unwrap().trim_end().len()
        } else {
            o + p[o..].find("\n}\n").unwrap() + 2
        };
        let body = &p[o..e];
        out.push_str("#[verifier::opaque]\n");
        out.push_str(&p[..e]);
        let s = short(n);
        out.push_str(&format!("\npub open spec fn u_{}({}) -> bool {{ {}({}) == ({}) }}\n", s, params, n, args, body));
        let mut rev = String::new();
        for m in &names {
            let is = |c: char| c.is_alphanumeric() || c == '_';
            let used = m == n
                || body.match_indices(m.as_str()).any(|(i, _)| {
                    !body[..i].chars().next_back().map_or(false, is) && !body[i + m.len()..].chars().next().map_or(false, is)
                });
            if used {
                rev.push_str(&format!(" reveal({});", m));
            }
        }
        out.push_str(&format!(
            "pub broadcast proof fn l_{}({})\n    ensures #[trigger] u_{}({}),\n{{{} }}\n",
            s, params, s, args, rev
        ));
        out.push_str(&p[e..]);
    }
    out.push_str("pub broadcast group unfolds { ");
    out.push_str(&names.iter().map(|n| format!("l_{}", short(n))).collect::<Vec<_>>().join(", "));
    out.push_str(" }\n");
    out
}
