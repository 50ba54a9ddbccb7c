//! C18-C20: the protocol structures, against the protocol tables (tables.rs)
use crate::ctx::{perms, Ctx};
use crate::tables;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};

pub struct Field {
    pub member: &'static str,
    pub kind: &'static str,
    pub ty: &'static str,
}
pub type Text<T> = fn(&str) -> Result<T, String>;
pub struct Struct {
    pub name: &'static str,
    pub redo: Text<Value>,
    pub view: Text<Vec<(&'static str, Value)>>,
    pub fields: Vec<Field>,
}
pub struct Ctor {
    pub name: &'static str,
    pub ctor: &'static str,
    pub args: Vec<(&'static str, &'static str)>,
    pub fixed: Option<&'static str>,
    pub run: fn(&[Value]) -> Value,
}
pub struct Acc {
    pub name: &'static str,
    pub member: &'static str,
    pub kind: &'static str,
    pub ty: &'static str,
    pub get: Option<Text<Value>>,
    pub set: Option<fn(&str, &Value) -> Result<Value, String>>,
    pub set_mut: Option<fn(&str, &Value) -> Result<Value, String>>,
}

pub fn enc<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).expect("encodes")
}
pub fn de<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).expect("a sample of the type")
}
pub fn redo<T: DeserializeOwned + Serialize>(t: &str) -> Result<Value, String> {
    serde_json::from_str::<T>(t).map(|v| enc(&v)).map_err(|e| e.to_string())
}
pub fn view<T: DeserializeOwned>(t: &str, f: fn(&T) -> Vec<(&'static str, Value)>) -> Result<Vec<(&'static str, Value)>, String> {
    serde_json::from_str::<T>(t).map(|v| f(&v)).map_err(|e| e.to_string())
}
pub fn view1<T: DeserializeOwned>(t: &str, f: fn(&T) -> Value) -> Result<Value, String> {
    serde_json::from_str::<T>(t).map(|v| f(&v)).map_err(|e| e.to_string())
}
pub fn edit<T: DeserializeOwned + Serialize>(t: &str, f: impl FnOnce(&mut T)) -> Result<Value, String> {
    let mut v: T = serde_json::from_str(t).map_err(|e| e.to_string())?;
    f(&mut v);
    Ok(enc(&v))
}
pub fn cloned<T: DeserializeOwned + Serialize + Clone>(t: &str) -> Result<(Value, Value), String> {
    let v: T = serde_json::from_str(t).map_err(|e| e.to_string())?;
    let c = v.clone();
    Ok((enc(&v), enc(&c)))
}

thread_local! { static SPECS: Vec<Struct> = tables::structs(); }
fn spec_of<R>(name: &str, f: impl FnOnce(Option<&Struct>) -> R) -> R {
    SPECS.with(|s| f(s.iter().find(|x| x.name == name)))
}

/// JSON values of a type that decoding followed by encoding leaves as they are; the first is not the default
/// sample values of a type, those made of new literals of the sources after the first
pub fn samples(ty: &str) -> Vec<Value> {
    let mut v = fixed_samples(ty);
    let extra: Vec<Value> = match ty {
        "String" => crate::dict::texts().into_iter().take(40).map(|t| json!(t)).collect(),
        "Value" => crate::dict::values().into_iter().take(40).collect(),
        "usize" => crate::dict::numbers().into_iter().filter_map(|n| u64::try_from(n).ok()).map(|n| json!(n)).collect(),
        "u32" => crate::dict::numbers().into_iter().filter_map(|n| u32::try_from(n).ok()).map(|n| json!(n)).collect(),
        "TaskDataKind" | "BuildTargetTag" => crate::dict::texts().into_iter().take(40).filter(|t| !TASK_KINDS.contains(&t.as_str()) && !TAGS.contains(&t.as_str())).map(|t| json!(t)).collect(),
        "Url" => crate::dict::texts().into_iter().take(40).filter_map(|t| lsp_types::Url::parse("file:///").ok()?.join(&t).ok()).map(|u| json!(u.to_string())).collect(),
        _ => vec![],
    };
    v.splice(1..1, extra);
    v
}
fn fixed_samples(ty: &str) -> Vec<Value> {
    if let Some(x) = ty.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')) {
        return samples(x);
    }
    if let Some(x) = ty.strip_prefix("Vec<").and_then(|x| x.strip_suffix('>')) {
        let s = samples(x);
        let (a, z) = (&s[0], &s[s.len() - 1]);
        return vec![
            Value::Array(s.iter().take(2).cloned().collect()),
            json!([]),
            json!([a]),
            json!([z, a, a]),
            Value::Array(s.iter().rev().cloned().collect()),
            (0..80).map(|i| s[i * 7 % s.len()].clone()).collect(),
        ];
    }
    match ty {
        "String" => vec![json!("s\u{e9}\"1"), json!(""), json!(" A b "), json!("null"), json!("\u{1F600}\\n\n\0"), json!("-7"), json!("\r\n\t "), json!("LongTEXT \u{df}\u{130}".repeat(40)), json!("a/b?c=d&e#f;g,h:i{}%20+")],
        "bool" => vec![json!(true), json!(false)],
        "usize" => vec![json!(7), json!(0), json!(1), json!(4294967296u64), json!(300), json!(u64::MAX)],
        "u32" => vec![json!(7), json!(0), json!(1), json!(4294967295u32), json!(300), json!(2147483648u32)],
        "Value" => vec![json!({"b": [1, null, "x"], "a": {"id": 2}}), json!(0), json!(""), json!([]), json!(false), json!({}), json!("text"), json!(-5), json!(1.5), json!(u64::MAX), json!([null, [[{"x": null}]], "\u{e9}"]), json!({"B": 1, "a b": {"": [true, 1e300]}, "\u{e9}": i64::MIN}), json!(" X\n".repeat(100))],
        "Url" => vec![json!("file:///a%20b/c"), json!("http://h.example/x?q=1#f"), json!("file:///"), json!("http://h.example:8080/P/Q/?q=a+b&c=%2F#Frag"), json!("file:///C:/%C3%A9/b/"), json!("urn:x:Y%20z"), json!("https://user:pw@[::1]:1/")],
        "TextDocumentIdentifier" => vec![json!({"uri": "file:///doc"}), json!({"uri": "file:///other"})],
        "Diagnostic" => vec![json!({"range": {"start": {"line": 1, "character": 2}, "end": {"line": 3, "character": 4}}, "message": "m"}),
            json!({"range": {"start": {"line": 9, "character": 0}, "end": {"line": 4294967295u32, "character": 7}}, "severity": 2, "code": "E1", "source": "s", "message": " m\n\u{e9}", "tags": [1, 2], "relatedInformation": [{"location": {"uri": "file:///r", "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}}, "message": "r"}], "data": {"k": [1]}})],
        "MessageType" => vec![json!(1), json!(2), json!(3), json!(4)],
        "TaskStatus" => vec![json!(2), json!(1), json!(3)],
        "SourceKind" => vec![json!(2), json!(1)],
        "BuildTargetEventKind" => vec![json!(2), json!(1), json!(3)],
        "TaskDataKind" => TASK_KINDS.iter().chain(&["mine", ""]).map(|s| json!(s)).collect(),
        "BuildTargetTag" => TAGS.iter().chain(&["mine", ""]).map(|s| json!(s)).collect(),
        _ => struct_samples(ty),
    }
}

pub const TASK_KINDS: &[&str] = &["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];
pub const TAGS: &[&str] = &["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];

/// canonical objects of a structure: full, minimal, and each field at each of its other samples
pub fn struct_samples(name: &str) -> Vec<Value> {
    spec_of(name, |s| {
        let s = s.unwrap_or_else(|| panic!("no samples for {name}"));
        let full: Map<String, Value> = s.fields.iter().map(|f| (f.member.to_string(), samples(f.ty)[0].clone())).collect();
        let min: Map<String, Value> = s.fields.iter().filter(|f| f.kind == "req" || f.kind == "dflt").map(|f| (f.member.to_string(), samples(f.ty).last().unwrap().clone())).collect();
        let bare: Map<String, Value> = s.fields.iter().filter(|f| f.kind == "req" || f.kind == "dflt").map(|f| (f.member.to_string(), bare_of(f.ty))).collect();
        let mut out = vec![Value::Object(full.clone()), Value::Object(min), Value::Object(bare.clone())];
        // in rounds over the fields, so that a prefix of the list has some of each
        let each: Vec<Vec<Value>> = s.fields.iter().map(|f| samples(f.ty).into_iter().skip(1).take(12 + crate::dict::texts().len() + crate::dict::numbers().len()).filter(|v| stored(f.kind, v).is_some()).collect()).collect();
        for k in 0..each.iter().map(|e| e.len()).max().unwrap_or(0) {
            for (f, e) in s.fields.iter().zip(&each) {
                if let Some(v) = e.get(k) {
                    for base in [&full, &bare] {
                        let mut m = base.clone();
                        m.insert(f.member.into(), v.clone());
                        out.push(Value::Object(m));
                    }
                }
            }
        }
        out
    })
}

fn bare_of(ty: &str) -> Value {
    match ty {
        "String" | "bool" | "usize" | "u32" => default_of(ty),
        x if x.starts_with("Vec<") => json!([]),
        _ => samples(ty)[0].clone(),
    }
}
/// what encoding gives for a field that holds v
fn stored(kind: &str, v: &Value) -> Option<Value> {
    match kind {
        "opt" | "null" | "none" if v.is_null() => None,
        "empty" if v == &json!("") || v == &json!([]) => None,
        _ => Some(v.clone()),
    }
}
pub fn default_of(ty: &str) -> Value {
    match ty {
        "String" => json!(""),
        "bool" => json!(false),
        "usize" | "u32" => json!(0),
        "TaskStatus" | "SourceKind" | "BuildTargetEventKind" => json!(1),
        "MessageType" => json!(4),
        "Value" => json!(null),
        x if x.starts_with("Option<") => json!(null),
        x if x.starts_with("Vec<") => json!([]),
        x => default_struct(x),
    }
}
pub fn default_struct(name: &str) -> Value {
    spec_of(name, |s| {
        Value::Object(s.expect("structure").fields.iter().filter(|f| f.kind == "req" || f.kind == "dflt").map(|f| (f.member.to_string(), default_of(f.ty))).collect())
    })
}

/// an object written out with its members in the given order
fn text_of(ms: &[(String, Value)]) -> String {
    let v: Vec<String> = ms.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
const UNKNOWN: &[(&str, &str)] = &[("zzExtra", "{\"id\":[1,{}]}"), ("aUnknown", "null"), ("unknown_member", "[[1,2.5,\"x\"]]"), ("", "true")];

fn decoding(c: &mut Ctx, s: &Struct) {
    let n = s.fields.len();
    let optional: Vec<usize> = (0..n).filter(|i| s.fields[*i].kind != "req").collect();
    let subsets: Vec<u32> = if optional.len() <= 6 { (0..1 << optional.len()).collect() } else {
        let mut v = vec![0, (1 << optional.len()) - 1];
        for i in 0..optional.len() {
            v.push(1 << i);
            v.push(((1 << optional.len()) - 1) & !(1 << i));
            for j in 0..i { v.push(1 << i | 1 << j); }
        }
        v
    };
    let check = |c: &mut Ctx, ms: &[(String, Value)], extra: &[(usize, usize)]| {
        let mut want = Map::new();
        for f in &s.fields {
            let got = ms.iter().find(|(k, _)| k == f.member).map(|x| x.1.clone());
            let v = match (got, f.kind) {
                (Some(v), k) => stored(k, &v),
                (None, "dflt") => Some(default_of(f.ty)),
                (None, _) => None,
            };
            if let Some(v) = v { want.insert(f.member.into(), v); }
        }
        let mut all: Vec<(String, Value)> = ms.to_vec();
        for (at, k) in extra {
            let at = (*at).min(all.len());
            all.insert(at, (UNKNOWN[*k].0.into(), serde_json::from_str(UNKNOWN[*k].1).unwrap()));
        }
        let t = text_of(&all);
        c.eq(&format!("{}: decode and encode {}", s.name, t), (s.redo)(&t), Ok(Value::Object(want)));
        let vw = (s.view)(&t);
        if let Ok(vw) = vw {
            for (m, v) in vw {
                let f = s.fields.iter().find(|f| f.member == m).unwrap();
                let got = ms.iter().find(|(k, _)| k == m).map(|x| x.1.clone());
                let want = got.unwrap_or_else(|| if f.ty == "TaskDataKind" { json!(null) } else { default_of(f.ty) });
                c.eq(&format!("{}: field {} of {}", s.name, m, t), v, want);
            }
        }
    };
    for sub in &subsets {
        let base: Vec<(String, Value)> = (0..n).filter(|i| optional.iter().position(|o| o == i).map_or(true, |k| sub >> k & 1 == 1))
            .map(|i| (s.fields[i].member.to_string(), samples(s.fields[i].ty)[0].clone())).collect();
        for p in perms(base.len(), if n <= 5 { 24 } else { 6 }, c.seed) {
            let ms: Vec<_> = p.iter().map(|i| base[*i].clone()).collect();
            check(c, &ms, &[]);
        }
        for k in 0..UNKNOWN.len() {
            check(c, &base, &[(0, k)]);
            check(c, &base, &[(base.len(), k)]);
            check(c, &base, &[(base.len() / 2, k), (0, (k + 1) % UNKNOWN.len())]);
        }
        // every other sample of every field present
        for (i, (m, _)) in base.iter().enumerate() {
            let f = s.fields.iter().find(|f| f.member == m).unwrap();
            let mut vs = samples(f.ty);
            if f.kind == "null" || f.kind == "none" { vs.push(json!(null)); }
            for v in vs {
                let mut ms = base.clone();
                ms[i].1 = v;
                check(c, &ms, &[]);
            }
        }
        if c.done() { return; }
    }
    // members that are unknown however much their names look like known ones
    let mut names: Vec<String> = ["id", "type", "kind", "name", "uri", "url", "title", "text", "msg", "message", "params", "method", "jsonrpc", "target", "targets", "data", "status", "code", "origin",
        "originID", "origin-id", "args", "time", "timestamp", "version", "parent", "language", "languages", "tag", "extra", "meta", "_", "$", "result", "error", "items", "value", "values"].iter().map(|x| x.to_string()).collect();
    for t in tables::structs() { for f in &t.fields { names.push(f.member.to_string()); } }
    for f in &s.fields {
        let m = f.member;
        let mut snake = String::new();
        for ch in m.chars() { if ch.is_ascii_uppercase() { snake.push('_'); } snake.push(ch.to_ascii_lowercase()); }
        names.extend([snake.replace('_', "-"), snake.to_uppercase(), snake, m.to_lowercase(), m.to_uppercase(), m[..1].to_uppercase() + &m[1..], format!("{m}s"), m.trim_end_matches('s').to_string(), format!("{m} "), format!("_{m}"), format!("{m}_")]);
    }
    names.sort();
    names.dedup();
    names.retain(|x| !x.is_empty() && !s.fields.iter().any(|f| f.member == x));
    for part in [true, false] {
        let base: Vec<(String, Value)> = s.fields.iter().filter(|f| part || f.kind == "req").map(|f| (f.member.to_string(), samples(f.ty)[0].clone())).collect();
        let plain = (s.redo)(&text_of(&base));
        for name in &names {
            for v in [json!(7), json!("u"), json!({"uri": "file:///u"})] {
                let mut ms = base.clone();
                ms.insert(ms.len() / 2, (name.clone(), v));
                let t = text_of(&ms);
                c.eq(&format!("{}: decode and encode {}", s.name, t), (s.redo)(&t), plain.clone());
            }
        }
        if c.done() { return; }
    }
    let full: Vec<(String, Value)> = s.fields.iter().map(|f| (f.member.to_string(), samples(f.ty)[0].clone())).collect();
    let req: Vec<(String, Value)> = full.iter().filter(|(k, _)| s.fields.iter().any(|f| f.member == k && f.kind == "req")).cloned().collect();
    for base in [&full, &req] {
        for (i, (m, v)) in base.iter().enumerate() {
            let f = s.fields.iter().find(|f| f.member == m).unwrap();
            // a required member missing
            if f.kind == "req" {
                let mut ms = base.to_vec();
                ms.remove(i);
                let t = text_of(&ms);
                c.err(&format!("{}: decode without {}: {}", s.name, m, t), (s.redo)(&t));
            }
            // a member that is not the encoding of any value of the field
            let not: Vec<Value> = match f.ty.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')).unwrap_or(f.ty) {
                "String" => vec![json!(0), json!(false), json!([]), json!({}), json!(["a"])],
                "bool" => vec![json!(0), json!("true"), json!(1), json!([])],
                "usize" | "u32" => vec![json!("1"), json!(-1), json!(1.5), json!(true), json!([])],
                x if x.starts_with("Vec<") => vec![json!(0), json!("x"), json!({}), json!(false), json!([0.5])].into_iter().take(if x == "Vec<Value>" { 4 } else { 5 }).collect(),
                _ => vec![],
            };
            let null = if f.kind == "req" && ["String", "bool", "usize", "u32"].contains(&f.ty) || f.kind == "req" && f.ty.starts_with("Vec<") { vec![json!(null)] } else { vec![] };
            for v in not.into_iter().chain(null) {
                let mut ms = base.to_vec();
                ms[i].1 = v;
                let t = text_of(&ms);
                c.err(&format!("{}: decode with a misshapen {}: {}", s.name, m, t), (s.redo)(&t));
            }
            // any known member repeated
            for at in 0..=base.len() {
                for v in [v.clone(), samples(f.ty).last().unwrap().clone()] {
                    let mut ms = base.to_vec();
                    ms.insert(at, (m.clone(), v));
                    let t = text_of(&ms);
                    c.err(&format!("{}: decode with {} repeated: {}", s.name, m, t), (s.redo)(&t));
                }
            }
        }
    }
}

pub fn c18(c: &mut Ctx) {
    for s in tables::structs() {
        c.guard(&format!("structure {}", s.name), |c| decoding(c, &s));
        // nested samples survive
        c.guard(&format!("structure {}", s.name), |c| {
            for v in struct_samples(s.name) {
                c.eq(&format!("{}: decode and encode {}", s.name, v), (s.redo)(&v.to_string()), Ok(v));
            }
        });
        if c.done() { return; }
    }
}

fn number<T: DeserializeOwned + Serialize>(c: &mut Ctx, name: &str, max: i64, variant: fn(&T) -> i64) {
    for n in (-3..=12).chain([255, 256, 257, 258, 259, 260, 65536, 65537, 65538, 65539, 65540, 4294967297]) {
        let j = json!(n);
        match (serde_json::from_value::<T>(j.clone()), serde_json::from_str::<T>(&n.to_string())) {
            (Ok(a), Ok(b)) => {
                c.check(&format!("{name}: decode {n}"), (1..=max).contains(&n) && variant(&a) == n && variant(&b) == n, &format!("value number {}", variant(&a)));
                c.eq(&format!("{name}: encode {n}"), enc(&a), j);
            }
            (a, b) => c.check(&format!("{name}: decode {n}"), a.is_err() && b.is_err() && !(1..=max).contains(&n), "rejected"),
        }
    }
}

pub fn c19(c: &mut Ctx) {
    use bsp_types::*;
    c.guard("MessageType", |c| number::<MessageType>(c, "MessageType", 4, |x| match x { MessageType::Error => 1, MessageType::Warning => 2, MessageType::Info => 3, MessageType::Log => 4 }));
    c.guard("TaskStatus", |c| number::<TaskStatus>(c, "TaskStatus", 3, |x| match x { TaskStatus::Ok => 1, TaskStatus::Error => 2, TaskStatus::Cancelled => 3 }));
    c.guard("SourceKind", |c| number::<SourceKind>(c, "SourceKind", 2, |x| match x { SourceKind::File => 1, SourceKind::Directory => 2 }));
    c.guard("BuildTargetEventKind", |c| number::<BuildTargetEventKind>(c, "BuildTargetEventKind", 3, |x| match x { BuildTargetEventKind::Created => 1, BuildTargetEventKind::Changed => 2, BuildTargetEventKind::Deleted => 3 }));
    let mut words: Vec<String> = vec!["".into(), "mine".into(), "None".into(), "Custom".into(), "null".into(), "1".into(), "libary".into(), "noide".into(), "NoIDE".into(), "\u{e9}\u{1F600}\n\"".into()];
    for w in TASK_KINDS.iter().chain(TAGS) {
        let camel: String = w.split('-').map(|p| p[..1].to_uppercase() + &p[1..]).collect();
        for v in [w.to_string(), w.to_uppercase(), w.replace('-', "_"), w.replace('-', ""), format!("{w} "), format!(" {w}"), w[..w.len() - 1].into(), format!("{w}s"), format!("x-{w}"), w[..1].to_uppercase() + &w[1..], camel,
            w.split('-').map(|p| p[..1].to_uppercase() + &p[1..]).collect::<Vec<_>>().join("-")] {
            words.push(v);
        }
    }
    c.guard("TaskDataKind", |c| {
        use TaskDataKind::*;
        for w in &words {
            let k: TaskDataKind = serde_json::from_value(json!(w)).unwrap_or(TaskDataKind::None);
            let k2: TaskDataKind = serde_json::from_str(&json!(w).to_string()).unwrap_or(TaskDataKind::None);
            for k in [k, k2] {
                let (i, custom) = match &k { CompileTask => (0, ""), CompileReport => (1, ""), TestTask => (2, ""), TestReport => (3, ""), TestStart => (4, ""), TestFinish => (5, ""), Custom(s) => (6, s.as_str()), None => (7, "") };
                let want = TASK_KINDS.iter().position(|x| x == w).unwrap_or(6);
                c.check(&format!("TaskDataKind: decode {:?}", w), i == want && (i != 6 || custom == w), &format!("{:?}", k));
                c.eq(&format!("TaskDataKind: encode what {:?} decodes to", w), enc(&k), json!(w));
            }
            c.eq(&format!("TaskDataKind: encode Custom({:?})", w), enc(&Custom(w.clone())), json!(w));
        }
        for (k, w) in [CompileTask, CompileReport, TestTask, TestReport, TestStart, TestFinish].iter().zip(TASK_KINDS) {
            c.eq(&format!("TaskDataKind: encode {:?}", k), enc(k), json!(w));
        }
    });
    c.guard("BuildTargetTag", |c| {
        use BuildTargetTag::*;
        for w in &words {
            for k in [serde_json::from_value::<BuildTargetTag>(json!(w)), serde_json::from_str(&json!(w).to_string())] {
                let k = match k { Ok(k) => k, Err(e) => { c.check(&format!("BuildTargetTag: decode {:?}", w), false, &e.to_string()); continue } };
                let (i, custom) = match &k { Libary => (0, ""), Application => (1, ""), Test => (2, ""), IntegrationTest => (3, ""), Benchmark => (4, ""), NoIDE => (5, ""), Manual => (6, ""), Custom(s) => (7, s.as_str()) };
                let want = TAGS.iter().position(|x| x == w).unwrap_or(7);
                c.check(&format!("BuildTargetTag: decode {:?}", w), i == want && (i != 7 || custom == w), &format!("{:?}", k));
                c.eq(&format!("BuildTargetTag: encode what {:?} decodes to", w), enc(&k), json!(w));
            }
            c.eq(&format!("BuildTargetTag: encode custom({:?})", w), enc(&BuildTargetTag::custom(w.as_str())), json!(w));
        }
        for (k, w) in [Libary, Application, Test, IntegrationTest, Benchmark, NoIDE, Manual].iter().zip(TAGS) {
            c.eq(&format!("BuildTargetTag: encode {:?}", k), enc(k), json!(w));
        }
        for v in [json!(null), json!(3), json!({}), json!([]), json!(true)] {
            c.err(&format!("BuildTargetTag: decode {}", v), serde_json::from_value::<BuildTargetTag>(v.clone()).map(|k| enc(&k)).map_err(|e| e.to_string()));
        }
    });
}

pub fn c20(c: &mut Ctx) {
    for k in tables::constructors() {
        c.guard(&format!("{}::{}", k.name, k.ctor), |c| {
            let base: Vec<Value> = k.args.iter().enumerate().map(|(i, a)| { let s = samples(a.1); s[i % s.len().min(2)].clone() }).collect();
            let mut sets = vec![base.clone(), k.args.iter().map(|a| samples(a.1)[0].clone()).collect()];
            for i in 0..base.len() {
                let mut vs = samples(k.args[i].1);
                if k.args[i].1.starts_with("Option<") { vs.push(json!(null)); }
                for v in vs {
                    let mut b = sets[1].clone();
                    b[i] = v;
                    sets.push(b);
                }
            }
            // every combination of two booleans or options
            for i in 0..base.len() { for j in 0..i { for (x, y) in [(0, 1), (1, 0), (1, 1)] {
                let mut b = sets[1].clone();
                let (a, d) = (samples(k.args[i].1), samples(k.args[j].1));
                b[i] = a[x.min(a.len() - 1)].clone();
                b[j] = d[y.min(d.len() - 1)].clone();
                sets.push(b);
            } } }
            for a in sets {
                let want = spec_of(k.name, |s| {
                    let mut m = Map::new();
                    for f in &s.unwrap().fields {
                        let v = match k.args.iter().position(|x| x.0 == f.member) {
                            Some(i) => stored(f.kind, &a[i]),
                            None if k.fixed.is_some() && f.member == "type" => Some(json!(match k.fixed.unwrap() { "Error" => 1, "Warning" => 2, "Info" => 3, _ => 4 })),
                            None if f.kind == "req" || f.kind == "dflt" => Some(default_of(f.ty)),
                            None => None,
                        };
                        if let Some(v) = v { m.insert(f.member.into(), v); }
                    }
                    Value::Object(m)
                });
                c.eq(&format!("{}::{}({})", k.name, k.ctor, Value::Array(a.clone())), (k.run)(&a), want);
            }
        });
        if c.done() { return; }
    }
    for a in tables::accessors() {
        c.guard(&format!("{}.{}", a.name, a.member), |c| {
            let mut values = samples(a.ty);
            if a.ty.starts_with("Option<") || a.kind == "null" { values.push(json!(null)); }
            for base in struct_samples(a.name) {
                let t = base.to_string();
                let cur = base.get(a.member).cloned();
                let dflt = || match a.kind { "opt" | "null" | "none" => json!(null), _ => default_of(a.ty) };
                if let Some(g) = a.get {
                    c.eq(&format!("{}: getter of {} on {}", a.name, a.member, t), g(&t), Ok(cur.unwrap_or_else(dflt)));
                }
                for (how, f) in [("set", a.set), ("mutate", a.set_mut)] {
                    if let Some(f) = f {
                        for v in &values {
                            let mut want = base.as_object().unwrap().clone();
                            match stored(a.kind, v) { Some(v) => { want.insert(a.member.into(), v); } None => { want.remove(a.member); } }
                            let got = f(&t, v);
                            c.eq(&format!("{}: {} {} to {} on {}", a.name, how, a.member, v, t), got.clone(), Ok(Value::Object(want)));
                            if let (Some(g), Ok(now)) = (a.get, &got) {
                                c.eq(&format!("{}: getter of {} after {} to {}", a.name, a.member, how, v), g(&now.to_string()), Ok(v.clone()));
                            }
                        }
                    }
                }
                if c.done() { return; }
            }
        });
        if c.done() { return; }
    }
    for (n, f) in tables::clones() {
        c.guard(&format!("{n}::clone"), |c| for v in struct_samples(n) {
            match f(&v.to_string()) {
                Ok((a, b)) => c.eq(&format!("{n}: clone of {v}"), b, a),
                Err(e) => c.check(&format!("{n}: decode {v}"), false, &e),
            }
        });
    }
    for (n, f) in tables::defaults() {
        c.guard(&format!("{n}::default"), |c| c.eq(&format!("{n}::default()"), f(), default_struct(n)));
    }
    use bsp_types::*;
    c.guard("predicates", |c| {
        for (i, s) in [TaskStatus::Ok, TaskStatus::Error, TaskStatus::Cancelled].iter().enumerate() {
            c.eq(&format!("TaskStatus predicates of {:?}", s), (s.is_ok(), s.is_error(), s.is_cancelled()), (i == 0, i == 1, i == 2));
        }
        for w in TASK_KINDS.iter().chain(&["", "none", "x"]) {
            c.eq(&format!("TaskDataKind::is_none of {w}"), de::<TaskDataKind>(&json!(w)).is_none(), false);
        }
        c.eq("TaskDataKind::None.is_none()", TaskDataKind::None.is_none(), true);
        for ts in samples("Vec<BuildTargetIdentifier>") {
            let e = ts == json!([]);
            c.eq(&format!("BuildTargetCleanCache::is_empty with {ts}"), de::<BuildTargetCleanCache>(&json!({"targets": ts})).is_empty(), e);
            c.eq(&format!("BuildTargetDependencyModules::is_empty with {ts}"), de::<BuildTargetDependencyModules>(&json!({"targets": ts})).is_empty(), e);
        }
        for s in samples("String") {
            let t = s.as_str().unwrap();
            let want = json!({"id": t});
            c.eq(&format!("TaskId::from({s})"), enc(&TaskId::from(t)), want.clone());
            c.eq(&format!("TaskId::from(String {s})"), enc(&TaskId::from(t.to_string())), want);
            for ps in samples("Vec<String>") {
                let mut id: TaskId = TaskId::new("i".into(), de(&ps));
                id.add_parent(t.to_string());
                let mut all = ps.as_array().unwrap().clone();
                all.push(s.clone());
                c.eq(&format!("TaskId::add_parent({s}) to {ps}"), enc(&id), json!({"id": "i", "parents": all}));
            }
        }
        for t in struct_samples("BuildTarget") {
            c.eq(&format!("WorkspaceBuildTargetsResult::from({t})"), enc(&WorkspaceBuildTargetsResult::from(de::<BuildTarget>(&t))), json!({"targets": [t]}));
        }
        for (u, p) in [("file:///a/b", "/a/b"), ("file:///", "/"), ("http://h/x/y?q=/z#/w", "/x/y")] {
            let i: InitializeBuild = de(&json!({"displayName": "d", "rootUri": u}));
            c.eq(&format!("InitializeBuild::root_path of {u}"), i.root_path().to_string_lossy().to_string(), p.to_string());
        }
        for (s, n) in [(MessageType::default(), 4)] {
            c.eq("MessageType::default()", enc(&s), json!(n));
        }
        c.eq("TaskStatus::default()", enc(&TaskStatus::default()), json!(1));
        c.eq("SourceKind::default()", enc(&SourceKind::default()), json!(1));
        c.eq("BuildTargetEventKind::default()", enc(&BuildTargetEventKind::default()), json!(1));
        c.eq("TaskDataKind::default()", enc(&TaskDataKind::default()), json!(null));
        c.eq("BuildTargetTag::default()", enc(&BuildTargetTag::default()), json!("no-ide"));
    });
}
