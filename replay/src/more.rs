//! C23, C24, C25: clones, equality, order, hash, formatting and server methods left out
use crate::ctx::Ctx;
use crate::msgs::all_messages;
use crate::types::{enc, samples};
use bsp_server::{ExtractError, Message, Notification, ProtocolError, Request, RequestId, Response};
use bsp_types::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

// what a type offers, decided at compile time: the impls on One/Two apply if it has the trait, those on references otherwise
struct One<'a, T>(&'a T);
struct Two<'a, T>(&'a T, &'a T);
trait HasClone { fn cloned(&self) -> Option<Value>; }
impl<T: Clone + Serialize> HasClone for One<'_, T> {
    fn cloned(&self) -> Option<Value> {
        let c = self.0.clone();
        Some(enc(&c))
    }
}
trait NoClone { fn cloned(&self) -> Option<Value> { None } }
impl<T> NoClone for &One<'_, T> {}
trait HasEq { fn equal(&self) -> Option<(bool, bool)>; }
impl<T: PartialEq> HasEq for Two<'_, T> { fn equal(&self) -> Option<(bool, bool)> { Some((self.0 == self.1, self.0 != self.1)) } }
trait NoEq { fn equal(&self) -> Option<(bool, bool)> { None } }
impl<T> NoEq for &Two<'_, T> {}
trait HasText { fn shown(&self) -> String; }
impl<T: std::fmt::Debug> HasText for One<'_, T> { fn shown(&self) -> String { format!("{:?} {:#?}", self.0, self.0) } }
trait NoText { fn shown(&self) -> String { String::new() } }
impl<T> NoText for &One<'_, T> {}

struct Kind {
    name: &'static str,
    clone: fn(&Value) -> Option<(Value, Value)>,
    equal: fn(&Value, &Value) -> Option<(bool, bool, bool)>,
    show: fn(&Value) -> Option<String>,
}
fn get<T: DeserializeOwned>(v: &Value) -> Option<T> { serde_json::from_value(v.clone()).ok() }
macro_rules! kinds { ($($n:ident)*) => { vec![$(Kind {
    name: stringify!($n),
    clone: |v| { let x: $n = get(v)?; let c = (&One(&x)).cloned()?; Some((enc(&x), c)) },
    equal: |a, b| { let (x, y): ($n, $n) = (get(a)?, get(b)?); let (e, n) = (&Two(&x, &y)).equal()?; Some((e, n, enc(&x) == enc(&y))) },
    show: |v| { let x: $n = get(v)?; Some((&One(&x)).shown()) },
}),*] } }
fn kinds() -> Vec<Kind> {
    kinds!(BuildTargetCapabilities BuildTargetCleanCache BuildTargetCleanCacheResult BuildTargetCompile BuildTargetCompileResult BuildTargetDependencyModules
        BuildTargetDependencyModulesResult DependencyModulesItem DependencyModule BuildTargetDependencySources BuildTargetDependencySourcesResult DependencySourcesItem
        BuildTargetDidChange BuildTargetEvent BuildTargetIdentifier TextDocumentInverseSources BuildTargetInverseSourcesResult BuildTargetResources BuildTargetResourcesResult
        BuildTargetRun BuildTargetRunResult BuildTargetSources BuildTargetSourcesResult SourcesCollection Sources BuildTargetTest BuildTargetTestResult ClientCapabilities
        DebugSessionStart DebugSessionStartResult InitializeBuild InitializeBuildResult LogMessage ShowMessage TaskId TaskStart TaskProgress TaskFinish
        MessageType TaskStatus SourceKind BuildTargetEventKind TaskDataKind BuildTargetTag)
}

/// the value with every text that is no URI replaced
fn longer(v: &Value, t: &str) -> Value {
    match v {
        Value::String(s) if !s.contains("://") => json!(t),
        Value::Array(a) => a.iter().map(|x| longer(x, t)).collect(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), longer(x, t))).collect()),
        _ => v.clone(),
    }
}

fn hash(x: &RequestId) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn c23(c: &mut Ctx) {
    for k in kinds() {
        c.guard(k.name, |c| {
            let s = samples(k.name);
            for a in &s {
                if let Some((x, y)) = (k.clone)(a) {
                    c.eq(&format!("{}: clone of what {a} decodes to", k.name), y, x);
                }
                for b in &s {
                    // decided only where the samples and their encodings agree about being different
                    if let Some((eq, ne, same)) = (k.equal)(a, b) {
                        if a == b && same || a != b && !same {
                            c.eq(&format!("{}: equality of what {a} and {b} decode to", k.name), eq, same);
                        }
                        c.eq(&format!("{}: == and != of what {a} and {b} decode to", k.name), eq, !ne);
                    }
                }
            }
        });
    }
    c.guard("messages", |c| {
        for m in all_messages() {
            let t = enc(&m);
            c.eq(&format!("clone of the message {t}"), enc(&m.clone()), t.clone());
            match &m {
                Message::Request(x) => c.eq(&format!("clone of the request {t}"), enc(&x.clone()), enc(x)),
                Message::Response(x) => {
                    c.eq(&format!("clone of the response {t}"), enc(&x.clone()), enc(x));
                    if let Some(e) = &x.error { c.eq(&format!("clone of the error of {t}"), enc(&e.clone()), enc(e)) }
                }
                Message::Notification(x) => c.eq(&format!("clone of the notification {t}"), enc(&x.clone()), enc(x)),
            }
        }
    });
    c.guard("ids", |c| {
        let mut ids: Vec<(RequestId, Value)> = vec![];
        for n in [0, 1, -1, 2, 7, 10, 100, i32::MAX, i32::MIN] {
            ids.push((n.into(), json!(n)));
            ids.push((n.to_string().into(), json!(n.to_string())));
        }
        for s in ["", "a", "A", "b", "ab", " 1", "01", "\u{e9}", "\"1\"", "1.0", "true", "null"] { ids.push((s.to_string().into(), json!(s))) }
        let (mut hm, mut bm) = (HashMap::new(), BTreeMap::new());
        for (i, (x, jx)) in ids.iter().enumerate() {
            hm.insert(x.clone(), i);
            bm.insert(x.clone(), i);
            for (y, jy) in &ids {
                c.eq(&format!("ids {jx} and {jy} are equal"), x == y, jx == jy);
                c.eq(&format!("ids {jx} and {jy} are ordered as equal"), x.cmp(y) == std::cmp::Ordering::Equal, jx == jy);
                c.eq(&format!("the partial order of ids {jx} and {jy}"), x.partial_cmp(y), Some(x.cmp(y)));
                c.eq(&format!("the order of ids {jx} and {jy} reversed"), y.cmp(x), x.cmp(y).reverse());
                if jx == jy { c.eq(&format!("hashes of ids {jx} and {jy}"), hash(x), hash(y)); c.eq(&format!("hash of a clone of {jx}"), hash(&x.clone()), hash(x)); }
                for (z, jz) in &ids {
                    if x < y && y < z { c.check(&format!("ids {jx}, {jy}, {jz} are in order"), x < z, "the first is not before the last"); }
                }
            }
        }
        for (i, (x, jx)) in ids.iter().enumerate() {
            c.eq(&format!("entry of id {jx} in a hash map"), hm.get(x), Some(&i));
            c.eq(&format!("entry of id {jx} in an ordered map"), bm.get(x), Some(&i));
        }
    });
}

pub fn c24(c: &mut Ctx) {
    for k in kinds() {
        for v in samples(k.name) {
            let what = format!("{}: debug text of what {v} decodes to", k.name);
            c.guard(&what.clone(), |c| { (k.show)(&v); c.check(&what, true, "") });
        }
    }
    // the same values with long texts that are not ASCII, with every alignment of their characters
    for k in kinds() {
        for v in samples(k.name).into_iter().take(12) {
            for off in 0..4 {
                let v = longer(&v, &format!("{}{}", "x".repeat(off), "\u{e9}\u{1F600}".repeat(60)));
                let what = format!("{}: debug text of what {v} decodes to", k.name);
                c.guard(&what.clone(), |c| { (k.show)(&v); c.check(&what, true, "") });
            }
        }
    }
    let mut ms = all_messages();
    for n in 0..70 {
        let m: &'static str = Box::leak(format!("{}\u{e9}", "m".repeat(n)).into_boxed_str());
        ms.push(Request::Custom("i".to_string().into(), m, json!(m)).into());
        ms.push(Request::Custom(m.to_string().into(), "x/y", json!(m)).into());
        ms.push(Notification::Custom(m, json!(m)).into());
        ms.push(Response::err(m.to_string().into(), 1, m.to_string()).into());
    }
    for p in [json!("\u{e9}".repeat(300)), json!({"k": [1, "\u{1F600}".repeat(200)]}), json!(null), json!("{}{0}{:?}%s\0")] {
        ms.push(Request::Custom("i".to_string().into(), "x/y", p.clone()).into());
        ms.push(Notification::Custom("x/y", p.clone()).into());
        ms.push(Response::ok(1.into(), p).into());
    }
    for m in ms {
        let t = enc(&m).to_string();
        let what = format!("debug text of the message {}", t.chars().take(300).collect::<String>());
        c.guard(&what.clone(), |c| {
            let _ = format!("{:?} {:#?}", m, m);
            c.check(&what, true, "");
            match m {
                Message::Request(q) => {
                    let _ = format!("{:?} {:#?}", q, q);
                    let name = q.method().to_string();
                    let s = ExtractError::MethodMismatch(q).to_string();
                    c.check(&format!("text of a mismatch for the request {t}"), s.contains(&name), &s);
                }
                Message::Notification(q) => {
                    let _ = format!("{:?} {:#?}", q, q);
                    let name = q.method().to_string();
                    let s = ExtractError::MethodMismatch(q).to_string();
                    c.check(&format!("text of a mismatch for the notification {t}"), s.contains(&name), &s);
                }
                Message::Response(q) => { let _ = format!("{:?} {:#?}", q, q); }
            }
        });
    }
    c.guard("errors", |c| {
        for m in ["x/y", "m\u{e9}", "", "{}"] {
            let e = || serde_json::from_str::<Value>("[1,").unwrap_err();
            for s in [ExtractError::<Request>::JsonError { method: m.into(), error: e() }.to_string(), ExtractError::<Notification>::JsonError { method: m.into(), error: e() }.to_string()] {
                c.check(&format!("text of a JSON error for {:?}", m), s.contains(m) && s.contains(&e().to_string()), &s);
            }
            for t in [m.to_string(), format!("text {m} \u{1F600}"), "x".repeat(5000)] {
                let p: ProtocolError = anyhow::Error::msg(t.clone()).into();
                c.eq(&format!("text of the protocol error {:?}", t.chars().take(50).collect::<String>()), p.to_string(), t.clone());
                let _ = format!("{:?}", p);
                let p: ProtocolError = anyhow::Error::msg("the cause").context(t.clone()).into();
                c.eq(&format!("text of the protocol error {:?} with a cause", t.chars().take(50).collect::<String>()), p.to_string(), t);
            }
        }
    });
    c.guard("ids", |c| {
        for n in [0, 1, -1, 42, i32::MAX, i32::MIN] { c.eq(&format!("text of the id {n}"), RequestId::from(n).to_string(), n.to_string()); }
        for s in ["", "1", "a", "\u{e9}", "a\"b", "a\nb"] { c.eq(&format!("text of the id {:?}", s), RequestId::from(s.to_string()).to_string(), format!("{:?}", s)); }
    });
    c.guard("status", |c| {
        for (s, w) in [(TaskStatus::Ok, "Ok"), (TaskStatus::Error, "Error"), (TaskStatus::Cancelled, "Cancelled")] {
            c.eq("text of a task status", s.to_string(), w.to_string());
        }
    });
}

/// a server that leaves out every method it can
struct Bare;
impl BuildServer for Bare {
    fn initialize(&self, _: InitializeBuild) -> anyhow::Result<InitializeBuildResult> {
        Ok(InitializeBuildResult::default())
    }
}

fn nothing_in(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.is_empty(),
        Value::String(s) => s.is_empty(),
        Value::Object(o) => o.values().all(nothing_in),
        _ => false,
    }
}

pub fn c25(c: &mut Ctx) {
    c.guard("on_initializtion", |c| { Bare.on_initializtion(); c.check("on_initializtion left out does nothing", true, "") });
    c.guard("on_build_exit", |c| { Bare.on_build_exit(); c.check("on_build_exit left out does nothing", true, "") });
    c.guard("build_shutdown", |c| c.check("build_shutdown left out answers with nothing", matches!(Bare.build_shutdown(), Ok(None)), ""));
    c.guard("workspace_reload", |c| c.check("workspace_reload left out answers with nothing", matches!(Bare.workspace_reload(), Ok(None)), ""));
    c.guard("workspace_bts", |c| {
        let r = Bare.workspace_bts().map(|r| enc(&r));
        c.check("workspace_bts left out answers with the empty result", matches!(&r, Ok(v) if nothing_in(v)), &format!("{r:?}"))
    });
    macro_rules! with_params {
        ($($m:ident $p:ident $empty:expr;)*) => {$(
            for v in samples(stringify!($p)) {
                let Ok(p) = serde_json::from_value::<$p>(v.clone()) else { continue };
                let what = format!("{} left out, with {v}", stringify!($m));
                c.guard(&what.clone(), |c| {
                    let r = Bare.$m(p).map(|r| enc(&r));
                    if $empty {
                        c.check(&format!("{what}: the empty result"), matches!(&r, Ok(v) if nothing_in(v)), &format!("{r:?}"))
                    } else {
                        c.check(&format!("{what}: an error"), r.is_err(), &format!("{r:?}"))
                    }
                });
            }
        )*};
    }
    with_params! {
        bt_sources BuildTargetSources true;
        bt_inverse_sources TextDocumentInverseSources true;
        bt_dependency_sources BuildTargetDependencySources true;
        bt_resources BuildTargetResources true;
        bt_dependency_modules BuildTargetDependencyModules false;
        debug_session_start DebugSessionStart false;
        bt_run BuildTargetRun false;
        bt_compile BuildTargetCompile false;
        bt_test BuildTargetTest false;
        bt_clean_cache BuildTargetCleanCache false;
    }
}
