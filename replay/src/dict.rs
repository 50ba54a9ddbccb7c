//! Literals in the crates' current sources that were not there when the committed list was made: they are tried as
//! parts of the inputs, so that a comparison with a new constant is exercised on both sides.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub texts: Vec<String>,
    pub numbers: Vec<i128>,
}
const KNOWN: &str = include_str!("../known_literals.txt");

fn unescape(s: &[char]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != '\\' || i + 1 >= s.len() {
            o.push(s[i]);
            i += 1;
            continue;
        }
        i += 2;
        match s[i - 1] {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            'x' => {
                let h: String = s[i..].iter().take(2).collect();
                o.push(u8::from_str_radix(&h, 16).map_or('?', |b| b as char));
                i += 2;
            }
            'u' => {
                let h: String = s[i..].iter().skip(1).take_while(|c| **c != '}').collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                i += h.len() + 2;
            }
            '\n' => while i < s.len() && s[i].is_whitespace() { i += 1 },
            c => o.push(c),
        }
    }
    o
}
/// literals of a source text: "s:<json>" and "n:<number>"
fn literals(t: &str, out: &mut Vec<String>) {
    let c: Vec<char> = t.chars().collect();
    let word = |x: char| x.is_alphanumeric() || x == '_';
    let mut i = 0;
    while i < c.len() {
        let two: String = c[i..].iter().take(2).collect();
        if two == "//" {
            while i < c.len() && c[i] != '\n' { i += 1 }
        } else if two == "/*" {
            i += 2;
            while i < c.len() && !(c[i] == '/' && c[i - 1] == '*') { i += 1 }
            i += 1;
        } else if c[i] == 'r' && (i == 0 || !word(c[i - 1]) || c[i - 1] == 'b') && matches!(c.get(i + 1), Some('"' | '#')) {
            let n = c[i + 1..].iter().take_while(|x| **x == '#').count();
            if c.get(i + 1 + n) != Some(&'"') { i += 1; continue }
            let b = i + 2 + n;
            let mut e = b;
            while e < c.len() && !(c[e] == '"' && c[e + 1..].iter().take(n).filter(|x| **x == '#').count() == n) { e += 1 }
            out.push(format!("s:{}", json!(c[b.min(e)..e].iter().collect::<String>())));
            i = e + 1 + n;
        } else if c[i] == '"' {
            let b = i + 1;
            i = b;
            while i < c.len() && c[i] != '"' { i += if c[i] == '\\' { 2 } else { 1 } }
            out.push(format!("s:{}", json!(unescape(&c[b..i.min(c.len())]))));
            i += 1;
        } else if c[i] == '\'' {
            let e = if c.get(i + 1) == Some(&'\\') { (i + 3..c.len().min(i + 12)).find(|k| c[*k] == '\'') } else if c.get(i + 2) == Some(&'\'') { Some(i + 2) } else { None };
            if let Some(e) = e {
                out.push(format!("s:{}", json!(unescape(&c[i + 1..e]))));
                i = e;
            }
            i += 1;
        } else if c[i].is_ascii_digit() && (i == 0 || !word(c[i - 1])) {
            let b = i;
            while i < c.len() && word(c[i]) { i += 1 }
            let w: String = c[b..i].iter().filter(|x| **x != '_').collect();
            let w = ["usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "u128", "i128"].iter().find_map(|s| w.strip_suffix(s)).unwrap_or(&w).to_string();
            let n = if let Some(h) = w.strip_prefix("0x") { i128::from_str_radix(h, 16) } else if let Some(h) = w.strip_prefix("0b") { i128::from_str_radix(h, 2) } else { w.parse() };
            if let Ok(n) = n { out.push(format!("n:{n}")) }
        } else {
            i += 1;
        }
    }
}
fn walk(d: &std::path::Path, out: &mut Vec<String>) {
    let mut es: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map_or(false, |x| x == "rs") && p.file_name().map_or(false, |n| n != "tests.rs") {
            literals(&String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()), out)
        }
    }
}
pub fn all() -> Vec<String> {
    let mut v = vec![];
    for k in ["bsp-server", "bsp-types"] { walk(std::path::Path::new(&format!("/repo/{k}/src")), &mut v) }
    v
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut seen: HashSet<String> = KNOWN.lines().map(|s| s.to_string()).collect();
        let mut d = Dict::default();
        for l in all() {
            if !seen.insert(l.clone()) { continue }
            if let Some(n) = l.strip_prefix("n:") {
                if d.numbers.len() < 12 { d.numbers.push(n.parse().unwrap()) }
            } else if d.texts.len() < 16 {
                let t: String = serde_json::from_str(&l[2..]).unwrap();
                if t.len() < 200 { d.texts.push(t) }
            }
        }
        d
    })
}
/// the new texts, alone and within others
pub fn texts() -> Vec<String> {
    let mut v = vec![];
    for t in &dict().texts {
        v.extend([t.clone(), format!("{t}x"), format!("x{t}"), format!("x{t}y"), format!("{t}{t}")]);
    }
    for n in numbers() {
        if n < 0 { continue }
        v.push(n.to_string());
        if n <= 20000 { v.push("y".repeat(n as usize)) }
    }
    let mut seen = HashSet::new();
    v.retain(|t| seen.insert(t.clone()));
    v
}
/// the new numbers and their neighbours
pub fn numbers() -> Vec<i128> {
    let mut v: Vec<i128> = dict().numbers.iter().flat_map(|n| [*n, n + 1, n - 1, -n]).collect();
    v.sort();
    v.dedup();
    v
}
/// new numbers that can serve as a count or a length
pub fn counts(most: i128) -> Vec<usize> {
    numbers().into_iter().filter(|n| *n > 0 && *n <= most).map(|n| n as usize).collect()
}
/// values made of them
pub fn values() -> Vec<Value> {
    let mut v: Vec<Value> = texts().into_iter().take(24).map(|t| json!(t)).collect();
    for n in numbers() {
        if let Ok(n) = i64::try_from(n) { v.push(json!(n)) } else if let Ok(n) = u64::try_from(n) { v.push(json!(n)) }
    }
    for t in dict().texts.iter().take(8) {
        v.push(json!({ t.as_str(): 1 }));
        v.push(json!([t]));
    }
    for n in counts(300) { v.push(json!(vec![0; n])) }
    v
}
