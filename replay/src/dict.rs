//! The literals of the program text: the search feeds them back as inputs, those that the
//! tree these checks were written for does not have with preference.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Lit {
    Int(u64),
    Text(Vec<u8>),
}

pub struct Dict {
    all: Vec<Lit>,
    new: Vec<Lit>,
}

/// Literals of one source file, up to its unit tests.
fn lits(t: &str, out: &mut BTreeSet<Lit>) {
    let t = t.split("#[cfg(test)]\nmod ").next().unwrap();
    let b = t.as_bytes();
    let mut i = 0;
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let rest = &b[i..];
        if rest.starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if rest.starts_with(b"/*") {
            i += t[i..].find("*/").map_or(rest.len(), |k| k + 2);
        } else if rest.starts_with(b"r\"") || rest.starts_with(b"br\"") || rest.starts_with(b"r#\"") {
            let q = t[i..].find('"').unwrap();
            let end = if rest.starts_with(b"r#") { "\"#" } else { "\"" };
            let s = &t[i + q + 1..];
            let k = s.find(end).unwrap_or(s.len());
            out.insert(Lit::Text(s[..k].into()));
            i += q + 1 + k + end.len();
        } else if b[i] == b'"' {
            i += 1;
            let mut s = vec![];
            while i < b.len() && b[i] != b'"' {
                i += escaped(b, i, &mut s);
            }
            i += 1;
            if !s.is_empty() {
                out.insert(Lit::Text(s));
            }
        } else if b[i] == b'\'' {
            let mut s = vec![];
            let n = rest.get(1).map_or(0, |c| if *c == b'\\' { escaped(b, i + 1, &mut s) } else { t[i + 1..].chars().next().map_or(0, char::len_utf8) });
            if n > 0 && b.get(i + 1 + n) == Some(&b'\'') {
                if s.is_empty() {
                    s.extend(&b[i + 1..i + 1 + n]);
                }
                out.insert(Lit::Text(s));
                i += n + 2;
            } else {
                i += 1; // a lifetime
            }
        } else if b[i].is_ascii_digit() && (i == 0 || !word(b[i - 1])) {
            let n = rest.iter().take_while(|c| word(**c)).count();
            let mut s: String = t[i..i + n].replace('_', "");
            i += n;
            for suffix in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "f32", "f64"] {
                if let Some(x) = s.strip_suffix(suffix) {
                    s = x.to_string();
                }
            }
            let v = match s.get(..2) {
                Some("0x") => u64::from_str_radix(&s[2..], 16),
                Some("0b") => u64::from_str_radix(&s[2..], 2),
                Some("0o") => u64::from_str_radix(&s[2..], 8),
                _ => s.parse(),
            };
            if let Ok(v) = v {
                out.insert(Lit::Int(v));
            }
        } else if word(b[i]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn escaped(b: &[u8], i: usize, s: &mut Vec<u8>) -> usize {
    if b[i] != b'\\' {
        s.push(b[i]);
        return 1;
    }
    match b.get(i + 1) {
        Some(b'n') => s.push(b'\n'),
        Some(b't') => s.push(b'\t'),
        Some(b'r') => s.push(b'\r'),
        Some(b'0') => s.push(0),
        Some(b'x') => {
            let h = b.get(i + 2..i + 4).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            s.push(h.unwrap_or(0));
            return 4;
        }
        Some(b'u') => {
            let k = b[i..].iter().position(|c| *c == b'}').unwrap_or(2);
            let c = std::str::from_utf8(&b[i..=(i + k).min(b.len() - 1)]).ok().and_then(|h| u32::from_str_radix(h.trim_start_matches("\\u{").trim_end_matches('}'), 16).ok()).and_then(char::from_u32);
            s.extend(c.unwrap_or(' ').to_string().bytes());
            return k + 1;
        }
        Some(c) => s.push(*c),
        None => {}
    }
    2
}

fn walk(d: &Path, out: &mut BTreeSet<Lit>) {
    let mut es: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                lits(&t, out);
            }
        }
    }
}

fn line(l: &Lit) -> String {
    match l {
        Lit::Int(v) => format!("i{v}"),
        Lit::Text(s) => format!("t{}", crate::hex(s)),
    }
}

fn now() -> BTreeSet<Lit> {
    let mut out = BTreeSet::new();
    walk(Path::new("/repo/src"), &mut out);
    out
}

/// The text of literals.txt: one literal per line.
pub fn listing() -> String {
    now().iter().map(|l| line(l) + "\n").collect()
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let base = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/literals.txt")).unwrap_or_default();
        let base: BTreeSet<&str> = base.lines().collect();
        let all: Vec<Lit> = now().into_iter().collect();
        let new = all.iter().filter(|l| !base.contains(&line(l)[..])).cloned().collect();
        Dict { all, new }
    })
}

impl Dict {
    pub fn pick(&self, k: u64) -> Option<&Lit> {
        let (from, k) = if !self.new.is_empty() && k % 4 != 0 { (&self.new, k / 4) } else { (&self.all, k / 4) };
        if from.is_empty() {
            None
        } else {
            Some(&from[(k % from.len() as u64) as usize])
        }
    }
    /// New integers that could be a limit to the number of something.
    pub fn new_sizes(&self) -> impl Iterator<Item = usize> + '_ {
        let v = self.new.iter().filter_map(|l| match l {
            Lit::Int(v) if (16..=1_000_000).contains(v) => Some(*v as usize),
            _ => None,
        });
        v.take(4)
    }
    /// New texts short enough to be part of a file name.
    pub fn new_names(&self) -> Vec<&[u8]> {
        let v = self.new.iter().filter_map(|l| match l {
            Lit::Text(t) if !t.is_empty() && t.len() < 80 && !t.contains(&b'/') && !t.contains(&0) => Some(&t[..]),
            _ => None,
        });
        v.take(40).collect()
    }
    pub fn has_new(&self) -> bool {
        !self.new.is_empty()
    }
}
