//! C05-C11, C15: requests, notifications, responses, ids and the conversions between them
use crate::ctx::{limited, perms, Ctx};
use crate::types::{de, enc, struct_samples};
use bsp_server::types::*;
use bsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use crossbeam_channel::{bounded, unbounded, SendTimeoutError, TrySendError};
use serde::de::{DeserializeOwned, MapAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

/// the members of a JSON object as written, repeated ones included
#[derive(Debug)]
pub struct Pairs(pub Vec<(String, Value)>);
impl<'de> Deserialize<'de> for Pairs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Pairs;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("an object")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Pairs, A::Error> {
                let mut v = vec![];
                while let Some(x) = m.next_entry()? {
                    v.push(x);
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(V)
    }
}
/// the object as a sorted list of members
pub fn members(text: &str) -> Result<Vec<(String, Value)>, String> {
    let mut p = serde_json::from_str::<Pairs>(text).map_err(|e| e.to_string())?.0;
    p.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(p)
}
pub fn obj(ms: &[(&str, Value)]) -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = ms.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
pub fn text(ms: &[(String, Value)]) -> String {
    let v: Vec<String> = ms.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
pub fn own(ms: &[(&str, Value)]) -> Vec<(String, Value)> {
    ms.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

pub struct Req {
    pub method: &'static str,
    pub variant: &'static str,
    pub params: Option<&'static str>,
    pub make: fn(RequestId, Value) -> Request,
}
pub fn requests() -> Vec<Req> {
    vec![
        Req { method: "build/initialize", variant: "InitializeBuild", params: Some("InitializeBuild"), make: |i, p| Request::InitializeBuild(i, de(&p)) },
        Req { method: "build/shutdown", variant: "Shutdown", params: None, make: |i, _| Request::Shutdown(i) },
        Req { method: "workspace/buildTargets", variant: "WorkspaceBuildTargets", params: None, make: |i, _| Request::WorkspaceBuildTargets(i) },
        Req { method: "workspace/reload", variant: "WorkspaceReload", params: None, make: |i, _| Request::WorkspaceReload(i) },
        Req { method: "buildTarget/dependencyModules", variant: "BuildTargetDependencyModules", params: Some("BuildTargetDependencyModules"), make: |i, p| Request::BuildTargetDependencyModules(i, de(&p)) },
        Req { method: "debugSession/start", variant: "DebugSessionStart", params: Some("DebugSessionStart"), make: |i, p| Request::DebugSessionStart(i, de(&p)) },
        Req { method: "buildTarget/sources", variant: "BuildTargetSources", params: Some("BuildTargetSources"), make: |i, p| Request::BuildTargetSources(i, de(&p)) },
        Req { method: "buildTarget/inverseSources", variant: "TextDocumentInverseSources", params: Some("TextDocumentInverseSources"), make: |i, p| Request::TextDocumentInverseSources(i, de(&p)) },
        Req { method: "buildTarget/dependencySources", variant: "BuildTargetDependencySources", params: Some("BuildTargetDependencySources"), make: |i, p| Request::BuildTargetDependencySources(i, de(&p)) },
        Req { method: "buildTarget/resources", variant: "BuildTargetResources", params: Some("BuildTargetResources"), make: |i, p| Request::BuildTargetResources(i, de(&p)) },
        Req { method: "buildTarget/run", variant: "BuildTargetRun", params: Some("BuildTargetRun"), make: |i, p| Request::BuildTargetRun(i, de(&p)) },
        Req { method: "buildTarget/compile", variant: "BuildTargetCompile", params: Some("BuildTargetCompile"), make: |i, p| Request::BuildTargetCompile(i, de(&p)) },
        Req { method: "buildTarget/test", variant: "BuildTargetTest", params: Some("BuildTargetTest"), make: |i, p| Request::BuildTargetTest(i, de(&p)) },
        Req { method: "buildTarget/cleanCache", variant: "BuildTargetCleanCache", params: Some("BuildTargetCleanCache"), make: |i, p| Request::BuildTargetCleanCache(i, de(&p)) },
    ]
}
/// (variant, id, params as JSON; null where the kind has none)
pub fn request_parts(r: &Request) -> (&'static str, Value, Value) {
    use Request::*;
    match r {
        InitializeBuild(i, p) => ("InitializeBuild", enc(i), enc(p)),
        Shutdown(i) => ("Shutdown", enc(i), Value::Null),
        WorkspaceBuildTargets(i) => ("WorkspaceBuildTargets", enc(i), Value::Null),
        WorkspaceReload(i) => ("WorkspaceReload", enc(i), Value::Null),
        BuildTargetDependencyModules(i, p) => ("BuildTargetDependencyModules", enc(i), enc(p)),
        DebugSessionStart(i, p) => ("DebugSessionStart", enc(i), enc(p)),
        BuildTargetSources(i, p) => ("BuildTargetSources", enc(i), enc(p)),
        TextDocumentInverseSources(i, p) => ("TextDocumentInverseSources", enc(i), enc(p)),
        BuildTargetDependencySources(i, p) => ("BuildTargetDependencySources", enc(i), enc(p)),
        BuildTargetResources(i, p) => ("BuildTargetResources", enc(i), enc(p)),
        BuildTargetRun(i, p) => ("BuildTargetRun", enc(i), enc(p)),
        BuildTargetCompile(i, p) => ("BuildTargetCompile", enc(i), enc(p)),
        BuildTargetTest(i, p) => ("BuildTargetTest", enc(i), enc(p)),
        BuildTargetCleanCache(i, p) => ("BuildTargetCleanCache", enc(i), enc(p)),
        Custom(i, m, p) => ("Custom", enc(i), json!([m, p])),
    }
}
pub struct Not {
    pub method: &'static str,
    pub variant: &'static str,
    pub params: Option<&'static str>,
    pub make: fn(Value) -> Notification,
}
pub fn notifications() -> Vec<Not> {
    vec![
        Not { method: "build/exit", variant: "Exit", params: None, make: |_| Notification::Exit },
        Not { method: "build/initialized", variant: "Initialized", params: None, make: |_| Notification::Initialized },
        Not { method: "build/showMessage", variant: "ShowMessage", params: Some("ShowMessage"), make: |p| Notification::ShowMessage(de(&p)) },
        Not { method: "build/logMessage", variant: "LogMessage", params: Some("LogMessage"), make: |p| Notification::LogMessage(de(&p)) },
        Not { method: "build/publishDiagnostics", variant: "PublishDiagnostics", params: Some("PublishDiagnostics"), make: |p| Notification::PublishDiagnostics(de(&p)) },
        Not { method: "build/taskStart", variant: "TaskStart", params: Some("TaskStart"), make: |p| Notification::TaskStart(de(&p)) },
        Not { method: "build/taskFinish", variant: "TaskFinish", params: Some("TaskFinish"), make: |p| Notification::TaskFinish(de(&p)) },
        Not { method: "build/taskProgress", variant: "TaskProgress", params: Some("TaskProgress"), make: |p| Notification::TaskProgress(de(&p)) },
        Not { method: "buildTarget/didChange", variant: "BuildTargetDidChange", params: Some("BuildTargetDidChange"), make: |p| Notification::BuildTargetDidChange(de(&p)) },
    ]
}
pub fn notification_parts(n: &Notification) -> (&'static str, Value) {
    use Notification::*;
    match n {
        Exit => ("Exit", Value::Null),
        Initialized => ("Initialized", Value::Null),
        ShowMessage(p) => ("ShowMessage", enc(p)),
        LogMessage(p) => ("LogMessage", enc(p)),
        PublishDiagnostics(p) => ("PublishDiagnostics", enc(p)),
        TaskStart(p) => ("TaskStart", enc(p)),
        TaskFinish(p) => ("TaskFinish", enc(p)),
        TaskProgress(p) => ("TaskProgress", enc(p)),
        BuildTargetDidChange(p) => ("BuildTargetDidChange", enc(p)),
        Custom(m, p) => ("Custom", json!([m, p])),
    }
}
pub fn response_parts(r: &Response) -> Value {
    json!({"id": enc(&r.id), "result": r.result.as_ref().map(|v| json!([v])), "error": r.error.as_ref().map(|e| json!([e.code, e.message, e.data.as_ref().map(|d| json!([d]))]))})
}
pub fn message_parts(m: &Message) -> Value {
    match m {
        Message::Request(r) => json!(["request", request_parts(r)]),
        Message::Response(r) => json!(["response", response_parts(r)]),
        Message::Notification(n) => json!(["notification", notification_parts(n)]),
    }
}

pub const CUSTOM: &[&str] = &[
    "x/y", "", "build/Exit", "exit", "build/exit ", "build/initialize2", "buildTarget/Run", "buildTarget/inverse_sources", "textDocument/inverseSources", "workspace/custom",
    "$/cancelRequest", "m\u{e9}thode/\u{1F600}", "BUILD/SHUTDOWN", "shutdown", "build/", "editor/exit", "build/taskprogress", "a\"b\\c\n",
];
/// names one slip away from those of the protocol, none of which is one of them
pub fn near_methods(of: &[&'static str]) -> Vec<&'static str> {
    let mut v: Vec<String> = vec![];
    for m in of {
        let (a, b) = m.split_once('/').unwrap_or((m, ""));
        for w in [" ", "\n", "\r", "\t", "\0", "/", "s", "\u{a0}", "\u{200b}", ".", "?", "#", "Request"] {
            v.push(format!("{m}{w}"));
            v.push(format!("{w}{m}"));
        }
        v.extend([m.to_uppercase(), m.to_lowercase(), format!("{b}"), format!("{a}/"), format!("/{b}"), format!("{a}//{b}"), format!("{a}.{b}"), format!("{a}{b}"), format!("{a}\\{b}"), format!("{a} /{b}"), format!("{a}/ {b}"), format!("{b}/{a}")]);
        v.extend([m[..m.len() - 1].to_string(), m[1..].to_string(), format!("{a}/{}{}", b[..1].to_uppercase(), &b[1..]), format!("{}{}", m[..1].to_uppercase(), &m[1..])]);
        v.extend(["build", "workspace", "buildTarget", "textDocument", "debugSession", "buildtarget", "$"].map(|x| format!("{x}/{b}")));
    }
    v.extend(crate::dict::texts());
    v.sort();
    v.dedup();
    v.retain(|m| !of.contains(&m.as_str()));
    v.into_iter().map(|m| &*Box::leak(m.into_boxed_str())).collect()
}
pub fn values() -> Vec<Value> {
    let mut v = vec![json!({"a": [1, null]}), json!({}), json!([]), json!(0), json!(-1), json!(""), json!("null"), json!(false), json!(true), json!([[1], {"id": 1, "method": "m"}]), json!({"id": 5, "method": "build/exit", "params": 3}), json!(1.5)];
    v.extend(crate::dict::values());
    v
}
pub fn ids() -> Vec<(RequestId, Value)> {
    let mut v: Vec<(RequestId, Value)> = [0, 1, -1, 7, 42, i32::MAX, i32::MIN].iter().map(|n| (RequestId::from(*n), json!(n))).collect();
    for s in ["", "a", "7", "007", "-1", "null", "2147483648", " 7", "A", "a ", "\u{e9}\u{1F600}\"\\\n"] {
        v.push((RequestId::from(s.to_string()), json!(s)));
    }
    for n in crate::dict::numbers() {
        if let Ok(n) = i32::try_from(n) { v.push((n.into(), json!(n))) }
    }
    for t in crate::dict::texts() { v.push((t.clone().into(), json!(t))) }
    v
}
fn two_ids() -> Vec<(RequestId, Value)> {
    let mut v = ids();
    let s = v.remove(8);
    vec![v.remove(4), s]
}
const OTHERS: &[(&str, &str)] = &[("jsonrpc", "\"2.0\""), ("zz", "{\"id\":[1,{\"method\":null}]}"), ("Id", "null"), ("METHOD", "[[1.5,\"x\"],{}]"), ("", "true"), ("par", "\"s\""), ("meta", "null")];
fn other(k: usize) -> (String, Value) {
    (OTHERS[k].0.into(), serde_json::from_str(OTHERS[k].1).unwrap())
}

pub fn c05(c: &mut Ctx) {
    let one = |c: &mut Ctx, r: Request, method: &str, id: &Value, params: Option<Value>| {
        let mut ms = vec![("id", id.clone()), ("method", json!(method))];
        if let Some(p) = &params {
            ms.push(("params", p.clone()));
        }
        let what = format!("{} request, id {}, params {}", method, id, params.clone().unwrap_or(json!("absent")));
        let t = serde_json::to_string(&r).map_err(|e| e.to_string());
        c.eq(&format!("encode a {what}"), t.and_then(|t| members(&t)), Ok(obj(&ms)));
        c.eq(&format!("encode into a value a {what}"), enc(&r), Value::Object(ms.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()));
        c.eq(&format!("method() of a {what}"), r.method().to_string(), method.to_string());
        c.eq(&format!("id() of a {what}"), enc(r.id()), id.clone());
        c.eq(&format!("params() of a {what}"), r.params().map_err(|e| e.to_string()), Ok(params.unwrap_or(Value::Null)));
        let m = Message::from(r.clone());
        c.eq(&format!("encode as a message a {what}"), members(&serde_json::to_string(&m).unwrap_or_default()), Ok(obj(&ms)));
    };
    for q in requests() {
        c.guard(q.method, |c| {
            for (id, j) in ids() {
                match q.params {
                    None => one(c, (q.make)(id, Value::Null), q.method, &j, None),
                    Some(p) => for s in struct_samples(p) {
                        one(c, (q.make)(id.clone(), s.clone()), q.method, &j, Some(s));
                    }
                }
            }
        });
    }
    let own_names: Vec<&'static str> = requests().iter().map(|q| q.method).collect();
    for m in near_methods(&own_names).into_iter().chain(own_names.iter().copied()) {
        c.guard(m, |c| {
            one(c, Request::Custom(3.into(), m, json!({"a": 1})), m, &json!(3), Some(json!({"a": 1})));
            one(c, Request::Custom(3.into(), m, Value::Null), m, &json!(3), None);
        });
    }
    for m in CUSTOM.iter().chain(&["build/shutdown2", "build/reload"]) {
        c.guard(m, |c| for (id, j) in ids() {
            for v in values() {
                one(c, Request::Custom(id.clone(), m, v.clone()), m, &j, Some(v));
            }
            one(c, Request::Custom(id, m, Value::Null), m, &j, None);
        });
    }
}

/// decode the text in the ways a user can: from text, bytes, a reader and a JSON value (unless members repeat)
fn decode<T: DeserializeOwned>(t: &str) -> Vec<Result<T, String>> {
    let mut v = vec![
        serde_json::from_str(t).map_err(|e| e.to_string()),
        serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string()),
    ];
    let p = members(t).unwrap();
    if p.windows(2).all(|w| w[0].0 != w[1].0) {
        v.push(serde_json::from_str::<Value>(t).and_then(serde_json::from_value).map_err(|e| e.to_string()));
    }
    v
}

fn orders(c: &Ctx, base: &[(String, Value)]) -> Vec<String> {
    let mut out = vec![];
    for extra in 0..=OTHERS.len() {
        let mut ms = base.to_vec();
        if extra < OTHERS.len() {
            ms.push(other(extra));
        }
        for p in perms(ms.len(), 24, c.seed) {
            out.push(text(&p.iter().map(|i| ms[*i].clone()).collect::<Vec<_>>()));
        }
    }
    let mut ms = base.to_vec();
    for k in 0..OTHERS.len() {
        ms.insert(k.min(ms.len()), other(k));
    }
    out.push(text(&ms));
    out
}
fn repeated(base: &[(String, Value)], member: &str, v: Value) -> Vec<String> {
    (0..=base.len()).map(|at| {
        let mut ms = base.to_vec();
        ms.insert(at, (member.to_string(), v.clone()));
        text(&ms)
    }).collect()
}

pub fn c06(c: &mut Ctx) {
    let ok = |c: &mut Ctx, t: &str, want: (&'static str, Value, Value)| for r in decode::<Request>(t) {
        c.eq(&format!("decode {t}"), r.map(|r| request_parts(&r)), Ok(want.clone()));
    };
    let bad = |c: &mut Ctx, t: &str| for r in decode::<Request>(t) {
        c.err(&format!("decode {t}"), r.map(|r| json!(request_parts(&r))));
    };
    for q in requests() {
        c.guard(q.method, |c| {
            let samples: Vec<Option<Value>> = match q.params {
                Some(p) => struct_samples(p).into_iter().map(Some).collect(),
                None => values().into_iter().map(Some).chain([Some(Value::Null), None]).collect(),
            };
            for (k, (_, j)) in ids().into_iter().enumerate() {
                for (n, s) in samples.iter().enumerate() {
                    let mut ms = own(&[("id", j.clone()), ("method", json!(q.method))]);
                    if let Some(s) = s {
                        ms.push(("params".into(), s.clone()));
                    }
                    let want = (q.variant, j.clone(), if q.params.is_some() { s.clone().unwrap() } else { Value::Null });
                    if k < 1 || n < 1 {
                        for t in orders(c, &ms) {
                            ok(c, &t, want.clone());
                        }
                    } else {
                        ok(c, &text(&ms), want);
                    }
                }
            }
            let p = samples[0].clone().unwrap();
            let full = own(&[("id", json!(3)), ("method", json!(q.method)), ("params", p.clone())]);
            for k in 0..3 {
                if k == 2 && q.params.is_none() { continue; }
                let mut ms = full.clone();
                ms.remove(k);
                for t in orders(c, &ms) {
                    bad(c, &t);
                }
            }
            for (m, v) in [("id", json!(3)), ("id", json!("x")), ("method", json!(q.method)), ("method", json!("x/y")), ("params", p.clone()), ("params", json!({})), ("params", json!(3)), ("id", json!(4))] {
                for t in repeated(&full, m, v) {
                    bad(c, &t);
                }
            }
            bad_ids(c, &|c, j| bad(c, &text(&own(&[("id", j), ("method", json!(q.method)), ("params", p.clone())]))));
            if q.params.is_some() {
                for v in [json!(5), json!("x"), json!(true), json!(1.5)] {
                    bad(c, &text(&own(&[("id", json!(3)), ("method", json!(q.method)), ("params", v)])));
                }
                // a params object whose required member has the wrong shape
                for k in p.as_object().unwrap().keys().filter(|k| *k != "dataKind") {
                    let mut o = p.clone();
                    o[k] = json!({"\u{0}": 1});
                    let alone = struct_ok(q.params.unwrap(), &o);
                    if !alone {
                        bad(c, &text(&own(&[("id", json!(3)), ("method", json!(q.method)), ("params", o)])));
                    }
                }
            }
        });
    }
    for m in near_methods(&requests().iter().map(|q| q.method).collect::<Vec<_>>()) {
        c.guard(m, |c| {
            ok(c, &text(&own(&[("id", json!(3)), ("method", json!(m)), ("params", json!({"a": 1}))])), ("Custom", json!(3), json!([m, {"a": 1}])));
            bad(c, &text(&own(&[("id", json!(3)), ("method", json!(m))])));
        });
    }
    for m in CUSTOM {
        c.guard(m, |c| {
            for (k, v) in values().into_iter().chain([Value::Null]).enumerate() {
                let ms = own(&[("id", json!(k)), ("method", json!(m)), ("params", v.clone())]);
                for t in orders(c, &ms) {
                    ok(c, &t, ("Custom", json!(k), json!([m, v])));
                }
            }
            bad(c, &text(&own(&[("id", json!(3)), ("method", json!(m))])));
            bad(c, &text(&own(&[("method", json!(m)), ("params", json!({}))])));
            bad(c, &text(&own(&[("id", json!(3)), ("params", json!({}))])));
            bad_ids(c, &|c, j| bad(c, &text(&own(&[("id", j), ("method", json!(m)), ("params", json!(1))]))));
            let full = own(&[("id", json!(3)), ("method", json!(m)), ("params", json!(1))]);
            for (m, v) in [("id", json!(3)), ("method", json!(m)), ("params", json!(1)), ("params", json!(null))] {
                for t in repeated(&full, m, v) {
                    bad(c, &t);
                }
            }
        });
    }
}
fn struct_ok(name: &str, v: &Value) -> bool {
    crate::tables::structs().iter().any(|s| s.name == name && (s.redo)(&v.to_string()).is_ok())
}
fn bad_ids(c: &mut Ctx, f: &dyn Fn(&mut Ctx, Value)) {
    for j in [json!(null), json!(1.5), json!(0.0), json!(1.0), json!(-1.0), json!(2.0), json!(7.0), json!(100.0), json!(-0.0), json!(2147483647.0), json!([""]), json!(["a"]), json!([[1]]),  json!(true), json!([]), json!([1]), json!({}), json!({"id": 1}), json!(2147483648u64), json!(-2147483649i64), json!(u64::MAX)] {
        f(c, j);
    }
}

pub fn c07(c: &mut Ctx) {
    let one = |c: &mut Ctx, n: Notification, method: &str, params: Option<Value>| {
        let mut ms = vec![("method", json!(method))];
        if let Some(p) = &params {
            ms.push(("params", p.clone()));
        }
        let what = format!("{} notification, params {}", method, params.clone().unwrap_or(json!("absent")));
        c.eq(&format!("encode a {what}"), serde_json::to_string(&n).map_err(|e| e.to_string()).and_then(|t| members(&t)), Ok(obj(&ms)));
        c.eq(&format!("encode into a value a {what}"), enc(&n), Value::Object(ms.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()));
        c.eq(&format!("method() of a {what}"), n.method().to_string(), method.to_string());
        c.eq(&format!("encode as a message a {what}"), members(&serde_json::to_string(&Message::from(n)).unwrap_or_default()), Ok(obj(&ms)));
    };
    for q in notifications() {
        c.guard(q.method, |c| match q.params {
            None => one(c, (q.make)(Value::Null), q.method, None),
            Some(p) => for s in struct_samples(p) {
                one(c, (q.make)(s.clone()), q.method, Some(s));
            }
        });
    }
    let own_names: Vec<&'static str> = notifications().iter().map(|q| q.method).collect();
    for m in near_methods(&own_names).into_iter().chain(own_names.iter().copied()) {
        c.guard(m, |c| for v in [json!({"a": 1}), Value::Null] {
            one(c, Notification::Custom(m, v.clone()), m, Some(v));
        });
    }
    for m in CUSTOM {
        c.guard(m, |c| for v in values().into_iter().chain([Value::Null]) {
            one(c, Notification::Custom(m, v.clone()), m, Some(v));
        });
    }
}

pub fn c08(c: &mut Ctx) {
    let ok = |c: &mut Ctx, t: &str, want: (&'static str, Value)| for r in decode::<Notification>(t) {
        c.eq(&format!("decode {t}"), r.map(|r| notification_parts(&r)), Ok(want.clone()));
    };
    let bad = |c: &mut Ctx, t: &str| for r in decode::<Notification>(t) {
        c.err(&format!("decode {t}"), r.map(|r| json!(notification_parts(&r))));
    };
    for q in notifications() {
        c.guard(q.method, |c| {
            let samples: Vec<Option<Value>> = match q.params {
                Some(p) => struct_samples(p).into_iter().map(Some).collect(),
                None => values().into_iter().map(Some).chain([Some(Value::Null), None]).collect(),
            };
            for s in &samples {
                let mut ms = own(&[("method", json!(q.method))]);
                if let Some(s) = s {
                    ms.push(("params".into(), s.clone()));
                }
                for t in orders(c, &ms) {
                    ok(c, &t, (q.variant, if q.params.is_some() { s.clone().unwrap() } else { Value::Null }));
                }
            }
            let p = samples[0].clone().unwrap();
            let full = own(&[("method", json!(q.method)), ("params", p.clone())]);
            for k in 0..2 {
                if k == 1 && q.params.is_none() { continue; }
                let mut ms = full.clone();
                ms.remove(k);
                for t in orders(c, &ms) {
                    bad(c, &t);
                }
            }
            for (m, v) in [("method", json!(q.method)), ("method", json!("x/y")), ("params", p.clone()), ("params", json!({})), ("params", json!(3))] {
                for t in repeated(&full, m, v) {
                    bad(c, &t);
                }
            }
            if q.params.is_some() {
                for v in [json!(5), json!("x"), json!(true), json!(1.5)] {
                    bad(c, &text(&own(&[("method", json!(q.method)), ("params", v)])));
                }
                for k in p.as_object().unwrap().keys().filter(|k| *k != "dataKind") {
                    let mut o = p.clone();
                    o[k] = json!({"\u{0}": 1});
                    if !struct_ok(q.params.unwrap(), &o) {
                        bad(c, &text(&own(&[("method", json!(q.method)), ("params", o)])));
                    }
                }
            }
        });
    }
    for m in near_methods(&notifications().iter().map(|q| q.method).collect::<Vec<_>>()) {
        c.guard(m, |c| {
            ok(c, &text(&own(&[("method", json!(m)), ("params", json!({"a": 1}))])), ("Custom", json!([m, {"a": 1}])));
            bad(c, &text(&own(&[("method", json!(m))])));
        });
    }
    for m in CUSTOM {
        c.guard(m, |c| {
            for v in values().into_iter().chain([Value::Null]) {
                for t in orders(c, &own(&[("method", json!(m)), ("params", v.clone())])) {
                    ok(c, &t, ("Custom", json!([m, v])));
                }
            }
            bad(c, &text(&own(&[("method", json!(m))])));
            bad(c, &text(&own(&[("params", json!({}))])));
            let full = own(&[("method", json!(m)), ("params", json!(1))]);
            for (m, v) in [("method", json!(m)), ("params", json!(1)), ("params", json!(null))] {
                for t in repeated(&full, m, v) {
                    bad(c, &t);
                }
            }
        });
    }
}

pub fn c09(c: &mut Ctx) {
    let a = |v: Value| Some(v);
    let idv = [None, a(json!(1)), a(json!("s")), a(json!(null)), a(json!(1.5))];
    let mut methods = vec![None, a(json!("x/y")), a(json!(3)), a(json!(null)), a(json!({}))];
    for q in requests() { methods.push(a(json!(q.method))); }
    for q in notifications() { methods.push(a(json!(q.method))); }
    let params = [None, a(json!(null)), a(json!({})), a(json!({"type": 3, "message": "m"})), a(json!({"targets": []})), a(json!({"target": {"uri": "file:///a"}})), a(json!(5))];
    let results = [None, a(json!(3)), a(json!({"method": "x"})), a(json!(null))];
    let errors = [None, a(json!({"code": -1, "message": "m"})), a(json!({"code": -1})), a(json!(null))];
    for (x, id) in idv.iter().enumerate() {
        c.guard("classification", |c| {
            for method in &methods { for p in &params { for r in &results { for e in &errors {
                let mut ms = vec![];
                for (k, v) in [("id", id), ("method", method), ("params", p), ("result", r), ("error", e)] {
                    if let Some(v) = v { ms.push((k.to_string(), v.clone())); }
                }
                for k in 0..2 {
                    if k == 1 { ms.reverse(); ms.push(("jsonrpc".into(), json!("2.0"))); }
                    let t = text(&ms);
                    let want = match (serde_json::from_str::<Request>(&t), serde_json::from_str::<Response>(&t), serde_json::from_str::<Notification>(&t)) {
                        (Ok(r), _, _) => Ok(json!(["request", request_parts(&r)])),
                        (_, Ok(r), _) => Ok(json!(["response", response_parts(&r)])),
                        (_, _, Ok(n)) => Ok(json!(["notification", notification_parts(&n)])),
                        _ => Err(()),
                    };
                    let got = serde_json::from_str::<Message>(&t);
                    if let Ok(m) = &got {
                        let text_method = method.as_ref().map_or(false, |m| m.is_string());
                        let good_id = matches!(id, Some(Value::String(_))) || id.as_ref().map_or(false, |i| i.as_i64().is_some());
                        match m {
                            Message::Request(_) => c.check(&format!("decode {t}"), text_method && good_id, "a request without a method or id of the right shape"),
                            Message::Response(_) => c.check(&format!("decode {t}"), good_id, "a response without an id of the right shape"),
                            Message::Notification(_) => c.check(&format!("decode {t}"), text_method, "a notification without a method of the right shape"),
                        }
                        if method.is_none() && (x == 1 || x == 2) && (r.is_some() || e.is_some()) {
                            c.check(&format!("decode {t}"), matches!(m, Message::Response(_)), "not a response");
                        }
                        if id.is_none() && method.is_some() {
                            c.check(&format!("decode {t}"), matches!(m, Message::Notification(_)), "not a notification");
                        }
                    }
                    c.eq(&format!("decode {t}"), got.map(|m| message_parts(&m)).map_err(|_| ()), want);
                }
            } } } }
        });
    }
    for t in ["{}", "[]", "null", "3", "\"x\"", "true", "{\"jsonrpc\":\"2.0\"}", "{\"params\":1}"] {
        c.err(&format!("decode {t}"), serde_json::from_str::<Message>(t).map(|m| message_parts(&m)).map_err(|e| e.to_string()));
    }
    c.guard("encoding", |c| for m in all_messages() {
        let (a, b) = (serde_json::to_string(&m).unwrap_or_default(), match &m {
            Message::Request(r) => serde_json::to_string(r), Message::Response(r) => serde_json::to_string(r), Message::Notification(r) => serde_json::to_string(r),
        }.unwrap_or_default());
        c.eq("encode a message", members(&a), members(&b));
    });
}

/// one message of every kind and many shapes
/// what could be mistaken for a message of the life cycle
pub fn lookalikes() -> Vec<Message> {
    let mut v: Vec<Message> = vec![];
    let names = ["build/exit", "build/initialized", "build/initialize", "build/shutdown", "exit", "initialized", "shutdown", "initialize", "$/exit", "$/cancelRequest", "$/progress", "$/setTrace", "window/logMessage", "telemetry/event", "Build/Exit", "build/Initialized", "build/exit ", ""];
    for m in names.iter().map(|s| s.to_string()).chain(crate::dict::texts()) {
        let m: &'static str = Box::leak(m.into_boxed_str());
        for p in [Value::Null, json!({})] {
            v.push(Notification::Custom(m, p.clone()).into());
            v.push(Request::Custom(5.into(), m, p.clone()).into());
            v.push(Request::Custom("".to_string().into(), m, p).into());
        }
        v.push(Response::ok(m.to_string().into(), m).into());
    }
    v
}
pub fn all_messages() -> Vec<Message> { messages_of(if crate::dict::dict().texts.is_empty() && crate::dict::dict().numbers.is_empty() { 24 } else { 300 }) }
pub fn messages_of(most: usize) -> Vec<Message> {
    let mut v = vec![];
    for q in requests() {
        for (id, _) in two_ids() {
            match q.params {
                None => v.push((q.make)(id, Value::Null).into()),
                Some(p) => for s in struct_samples(p).into_iter().take(most) { v.push((q.make)(id.clone(), s).into()) }
            }
        }
    }
    for q in notifications() {
        match q.params {
            None => v.push((q.make)(Value::Null).into()),
            Some(p) => for s in struct_samples(p).into_iter().take(most) { v.push((q.make)(s).into()) }
        }
    }
    for m in ["x/y", "m\u{e9}/\u{1F600}"] {
        for p in values() {
            v.push(Notification::Custom(m, p.clone()).into());
            v.push(Request::Custom(9.into(), m, p.clone()).into());
            v.push(Response::ok("r".to_string().into(), p).into());
        }
    }
    for d in values() {
        for o in [json!({"id": 4, "error": {"code": 3, "message": "m", "data": d}}), json!({"id": "r", "result": d, "error": {"code": -1, "message": "", "data": [d]}})] {
            if let Ok(r) = serde_json::from_value::<Response>(o) { v.push(r.into()) }
        }
    }
    for (id, _) in ids() {
        v.push(Request::Custom(id.clone(), "x/y", json!({})).into());
        v.push(Request::WorkspaceReload(id.clone()).into());
        v.push(Response::ok(id.clone(), json!([])).into());
        v.push(Response::err(id, 1, "".into()).into());
    }
    for t in crate::dict::texts() {
        v.push(Notification::Custom(Box::leak(t.clone().into_boxed_str()), json!({})).into());
        v.push(Request::Custom(1.into(), Box::leak(t.clone().into_boxed_str()), json!({})).into());
        v.push(Response::err(1.into(), 1, t).into());
    }
    for n in crate::dict::numbers() {
        if let Ok(n) = i32::try_from(n) { v.push(Response::err(1.into(), n, "m".into()).into()) }
    }
    for n in crate::dict::counts(300_000) { v.push(Notification::Custom("x/y", json!("z".repeat(n))).into()) }
    v.push(Response::err(1.into(), -5, "m\u{e9}".into()).into());
    v
}

pub fn c10(c: &mut Ctx) {
    let all = ids();
    c.guard("ids", |c| {
        for (i, j) in &all {
            c.eq(&format!("encode the id {j}"), enc(i), j.clone());
            c.eq(&format!("encode as text the id {j}"), serde_json::to_string(i).unwrap_or_default(), j.to_string());
            c.eq(&format!("encode a clone of the id {j}"), enc(&i.clone()), j.clone());
            c.check(&format!("clone of {j} is equal"), *i == i.clone(), "not equal");
            for (i2, j2) in &all {
                c.eq(&format!("{j} == {j2}"), i == i2, j == j2);
                c.eq(&format!("{j} != {j2}"), i != i2, j != j2);
            }
            for r in decode1::<RequestId>(&j.to_string()) {
                c.check(&format!("decode the id {j}"), r.as_ref().map_or(false, |r| r == i && enc(r) == *j), &format!("{:?}", r.map(|r| enc(&r))));
            }
        }
        bad_ids(c, &|c, j| for r in decode1::<RequestId>(&j.to_string()) {
            c.err(&format!("decode the id {j}"), r.map(|r| enc(&r)));
        });
        for n in [2147483647i64, -2147483648, 2147483646, 255, 256, 65536, -129, 128] {
            for r in decode1::<RequestId>(&n.to_string()) {
                c.check(&format!("decode the id {n}"), r.as_ref().map_or(false, |r| *r == RequestId::from(n as i32)), "different");
            }
        }
    });
}
fn decode1<T: DeserializeOwned>(t: &str) -> Vec<Result<T, String>> {
    vec![
        serde_json::from_str(t).map_err(|e| e.to_string()),
        serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string()),
        serde_json::from_str::<Value>(t).and_then(serde_json::from_value).map_err(|e| e.to_string()),
    ]
}

pub fn c11(c: &mut Ctx) {
    type Mk = fn(RequestId, String) -> Response;
    let ctors: Vec<(&str, Mk, i32)> = vec![
        ("parse_error", Response::parse_error, -32700),
        ("invalid_request", Response::invalid_request, -32600),
        ("method_not_found", Response::method_not_found, -32601),
        ("invalid_params", Response::invalid_params, -32602),
        ("internal_error", Response::internal_error, -32603),
        ("server_error_start", Response::server_error_start, -32099),
        ("server_error_end", Response::server_error_end, -32000),
        ("server_not_initialized", Response::server_not_initialized, -32002),
        ("request_canceled", Response::request_canceled, -32800),
        ("content_modified", Response::content_modified, -32801),
        ("server_canceled", Response::server_canceled, -32802),
    ];
    c.guard("constructors", |c| for (id, j) in ids() {
        for (n, f, code) in &ctors {
            for m in ["", "m", " M\u{e9}\"\n "].into_iter().chain(crate::dict::dict().texts.iter().map(|t| t.as_str())) {
                let r = f(id.clone(), m.into());
                let want = obj(&[("id", j.clone()), ("error", json!({"code": code, "message": m}))]);
                c.eq(&format!("Response::{n}({j}, {m:?})"), response_parts(&r), json!({"id": j, "result": null, "error": [code, m, null]}));
                c.eq(&format!("encode Response::{n}({j}, {m:?})"), members(&serde_json::to_string(&r).unwrap_or_default()), Ok(want));
            }
        }
        for code in [0, 1, -1, i32::MAX, i32::MIN, -32700].into_iter().chain(crate::dict::numbers().into_iter().filter_map(|n| i32::try_from(n).ok())) {
            let r = Response::err(id.clone(), code, "m".into());
            c.eq(&format!("Response::err({j}, {code})"), response_parts(&r), json!({"id": j, "result": null, "error": [code, "m", null]}));
        }
        for v in values().into_iter().chain([Value::Null]) {
            let r = Response::ok(id.clone(), &v);
            c.eq(&format!("Response::ok({j}, {v})"), response_parts(&r), json!({"id": j, "result": [v], "error": null}));
            c.eq(&format!("encode Response::ok({j}, {v})"), members(&serde_json::to_string(&r).unwrap_or_default()), Ok(obj(&[("id", j.clone()), ("result", v)])));
        }
        c.eq(&format!("Response::ok({j}, ())"), response_parts(&Response::ok(id.clone(), ())), json!({"id": j, "result": [null], "error": null}));
    });
    c.guard("encoding and decoding", |c| {
        let mut results: Vec<Option<Value>> = values().into_iter().map(Some).collect();
        results.push(None);
        let mut errors: Vec<Option<Value>> = vec![None];
        for code in [0, -32700, i32::MAX, i32::MIN].into_iter().chain(crate::dict::numbers().into_iter().filter_map(|n| i32::try_from(n).ok()).take(6)) { for m in ["", "m\u{e9}"].into_iter().chain(crate::dict::dict().texts.iter().map(|t| t.as_str()).take(6)) { for d in [None, Some(json!({"a": 1})), Some(json!(0)), Some(json!("")), Some(json!([])), Some(json!(false))] {
            let mut e = json!({"code": code, "message": m});
            if let Some(d) = d { e["data"] = d; }
            errors.push(Some(e));
        } } }
        for (k, (_, j)) in two_ids().into_iter().enumerate() { for r in &results { for e in &errors {
            let mut ms = own(&[("id", j.clone())]);
            if let Some(r) = r { ms.push(("result".into(), r.clone())); }
            if let Some(e) = e { ms.push(("error".into(), e.clone())); }
            let want = json!({"id": j, "result": r.as_ref().map(|v| json!([v])), "error": e.as_ref().map(|e| json!([e["code"], e["message"], e.get("data").map(|d| json!([d]))]))});
            let mut sorted = ms.clone();
            sorted.sort_by(|a, b| a.0.cmp(&b.0));
            let many = k == 0 && (r.is_none() || e.is_none());
            let ts = if many { orders(c, &ms) } else { vec![text(&ms)] };
            for t in ts {
                for got in decode::<Response>(&t) {
                    c.eq(&format!("decode {t}"), got.as_ref().map(response_parts).map_err(|e| e.clone()), Ok(want.clone()));
                    if let Ok(got) = got {
                        c.eq(&format!("encode what {t} decodes to"), members(&serde_json::to_string(&got).unwrap_or_default()), Ok(sorted.clone()));
                    }
                }
            }
            let mut no = ms.clone();
            no.remove(0);
            for got in decode::<Response>(&text(&no)) {
                c.err(&format!("decode {}", text(&no)), got.map(|r| response_parts(&r)));
            }
        } } }
        for e in [json!({"code": 1}), json!({"message": "m"}), json!({"code": "1", "message": "m"}), json!({"code": 2147483648u64, "message": "m"}), json!({"code": 1, "message": 2})] {
            let t = text(&own(&[("id", json!(1)), ("error", e)]));
            for got in decode::<Response>(&t) {
                c.err(&format!("decode {t}"), got.map(|r| response_parts(&r)));
            }
        }
        // members of the error in any order, others ignored
        for t in ["{\"id\":1,\"error\":{\"data\":{\"x\":1},\"message\":\"m\",\"zz\":[1],\"code\":5}}", "{\"error\":{\"message\":\"m\",\"extra\":null,\"code\":5,\"data\":{\"x\":1}},\"zz\":{},\"id\":1}"] {
            for got in decode::<Response>(t) {
                c.eq(&format!("decode {t}"), got.map(|r| response_parts(&r)), Ok(json!({"id": 1, "result": null, "error": [5, "m", [{"x": 1}]]})));
            }
        }
    });
}

fn conv<T: Into<Message>>(c: &mut Ctx, what: &str, v: T, want: Value) {
    c.eq(what, message_parts(&v.into()), want);
}
fn result<T: DeserializeOwned + Serialize>(c: &mut Ctx, name: &str)
where
    Message: From<(RequestId, T)>,
{
    for s in struct_samples(name) {
        for (id, j) in two_ids() {
            conv(c, &format!("Message::from(({j}, {name} {s}))"), (id, de::<T>(&s)), json!(["response", {"id": j, "result": [s], "error": null}]));
        }
    }
}
fn payload_req<T: DeserializeOwned>(c: &mut Ctx, name: &'static str)
where
    Message: From<(RequestId, T)>,
    Request: From<(RequestId, T)>,
{
    for s in struct_samples(name) {
        for (id, j) in two_ids() {
            let want = json!([name, j, s]);
            c.eq(&format!("Request::from(({j}, {name} {s}))"), json!(request_parts(&Request::from((id.clone(), de::<T>(&s))))), want.clone());
            conv(c, &format!("Message::from(({j}, {name} {s}))"), (id, de::<T>(&s)), json!(["request", want]));
        }
    }
}
fn payload_not<T: DeserializeOwned>(c: &mut Ctx, name: &'static str)
where
    Message: From<T>,
    Notification: From<T>,
{
    for s in struct_samples(name) {
        let want = json!([name, s]);
        c.eq(&format!("Notification::from({name} {s})"), json!(notification_parts(&Notification::from(de::<T>(&s)))), want.clone());
        conv(c, &format!("Message::from({name} {s})"), de::<T>(&s), json!(["notification", want]));
    }
}

pub fn c15(c: &mut Ctx) {
    c.guard("results", |c| {
        result::<InitializeBuildResult>(c, "InitializeBuildResult");
        result::<WorkspaceBuildTargetsResult>(c, "WorkspaceBuildTargetsResult");
        result::<DebugSessionStartResult>(c, "DebugSessionStartResult");
        result::<BuildTargetSourcesResult>(c, "BuildTargetSourcesResult");
        result::<BuildTargetTestResult>(c, "BuildTargetTestResult");
        result::<BuildTargetRunResult>(c, "BuildTargetRunResult");
        result::<BuildTargetCompileResult>(c, "BuildTargetCompileResult");
        result::<BuildTargetResourcesResult>(c, "BuildTargetResourcesResult");
        result::<BuildTargetDependencyModulesResult>(c, "BuildTargetDependencyModulesResult");
        result::<BuildTargetCleanCacheResult>(c, "BuildTargetCleanCacheResult");
        result::<BuildTargetInverseSourcesResult>(c, "BuildTargetInverseSourcesResult");
        result::<BuildTargetDependencySourcesResult>(c, "BuildTargetDependencySourcesResult");
        for (id, j) in ids() {
            for v in values().into_iter().chain([Value::Null]) {
                conv(c, &format!("Message::from(({j}, {v}))"), (id.clone(), v.clone()), json!(["response", {"id": j, "result": [v], "error": null}]));
            }
            for s in ["", "s", " a B\u{e9}\n", "null", "3"] {
                conv(c, &format!("Message::from(({j}, {s:?}))"), (id.clone(), s.to_string()), json!(["response", {"id": j, "result": [s], "error": null}]));
            }
        }
    });
    c.guard("request payloads", |c| {
        payload_req::<BuildTargetCleanCache>(c, "BuildTargetCleanCache");
        payload_req::<BuildTargetCompile>(c, "BuildTargetCompile");
        payload_req::<BuildTargetDependencyModules>(c, "BuildTargetDependencyModules");
        payload_req::<BuildTargetDependencySources>(c, "BuildTargetDependencySources");
        payload_req::<BuildTargetResources>(c, "BuildTargetResources");
        payload_req::<BuildTargetRun>(c, "BuildTargetRun");
        payload_req::<BuildTargetSources>(c, "BuildTargetSources");
        payload_req::<BuildTargetTest>(c, "BuildTargetTest");
        payload_req::<DebugSessionStart>(c, "DebugSessionStart");
        payload_req::<InitializeBuild>(c, "InitializeBuild");
        payload_req::<TextDocumentInverseSources>(c, "TextDocumentInverseSources");
    });
    c.guard("notification payloads", |c| {
        payload_not::<ShowMessage>(c, "ShowMessage");
        payload_not::<LogMessage>(c, "LogMessage");
        payload_not::<PublishDiagnostics>(c, "PublishDiagnostics");
        payload_not::<TaskStart>(c, "TaskStart");
        payload_not::<TaskFinish>(c, "TaskFinish");
        payload_not::<TaskProgress>(c, "TaskProgress");
        payload_not::<BuildTargetDidChange>(c, "BuildTargetDidChange");
        c.eq("Notification::from(\"build/exit\")", notification_parts(&Notification::from("build/exit")).0, "Exit");
        c.eq("Notification::from(\"build/initialized\")", notification_parts(&Notification::from("build/initialized")).0, "Initialized");
        for m in CUSTOM.iter().copied().chain(["", "build/Exit", "build/exit/", "build/shutdown", "build/initialize", "build/initialized ", "exit"]) {
            let r = std::panic::catch_unwind(|| notification_parts(&Notification::from(m)).0);
            c.check(&format!("Notification::from({m:?})"), !matches!(r.as_deref(), Ok("Exit" | "Initialized")), "made a notification of another name");
        }
    });
    c.guard("custom", |c| for m in CUSTOM.iter().copied().chain(["build/exit", "build/shutdown", "build/showMessage", "build/initialize"]) {
        for v in values().into_iter().chain([Value::Null]) {
            let want = json!(["Custom", [m, v]]);
            c.eq(&format!("Notification::from(({m:?}, {v}))"), json!(notification_parts(&Notification::from((m, v.clone())))), want.clone());
            conv(c, &format!("Message::from(({m:?}, {v}))"), (m, v.clone()), json!(["notification", want]));
            for (id, j) in two_ids() {
                let want = json!(["Custom", j, [m, v]]);
                c.eq(&format!("Request::from(({j}, {m:?}, {v}))"), json!(request_parts(&Request::from((id.clone(), m, v.clone())))), want.clone());
                conv(c, &format!("Message::from(({j}, {m:?}, {v}))"), (id, m, v.clone()), json!(["request", want]));
            }
        }
    });
    c.guard("messages", |c| for m in all_messages() {
        let want = message_parts(&m);
        let got = match m.clone() {
            Message::Request(r) => Message::from(r),
            Message::Response(r) => Message::from(r),
            Message::Notification(r) => Message::from(r),
        };
        c.eq("Message::from(a request, response or notification)", message_parts(&got), want);
    });
    // sending
    let conn = |cap: Option<usize>| {
        let (s, r) = cap.map_or_else(unbounded, bounded);
        let (_s2, r2) = unbounded();
        (Connection { sender: s, receiver: r2 }, r)
    };
    #[derive(Debug, PartialEq)]
    enum Out { Ok, Full, Timeout, Gone }
    let run = move |how: usize, c: &Connection, m: Message| -> (Out, Option<Value>) {
        fn t(r: Result<(), SendTimeoutError<Message>>) -> (Out, Option<Value>) {
            match r { Ok(()) => (Out::Ok, None), Err(SendTimeoutError::Timeout(m)) => (Out::Timeout, Some(message_parts(&m))), Err(SendTimeoutError::Disconnected(m)) => (Out::Gone, Some(message_parts(&m))) }
        }
        match how {
            0 => match c.send(m) { Ok(()) => (Out::Ok, None), Err(e) => (Out::Gone, Some(message_parts(&e.0))) },
            1 => match c.try_send(m) { Ok(()) => (Out::Ok, None), Err(TrySendError::Full(m)) => (Out::Full, Some(message_parts(&m))), Err(TrySendError::Disconnected(m)) => (Out::Gone, Some(message_parts(&m))) },
            2 => t(c.send_timeout(m, Duration::from_millis(120))),
            3 => t(c.send_timeout(m, Duration::MAX)),
            4 => t(c.send_timeout(m, Duration::ZERO)),
            5 => t(c.send_deadline(m, Instant::now() + Duration::from_millis(120))),
            6 => t(c.send_deadline(m, Instant::now() + Duration::from_secs(3600))),
            _ => t(c.send_deadline(m, Instant::now() - Duration::from_millis(5))),
        }
    };
    let msgs: Vec<Message> = all_messages().into_iter().step_by(9).collect();
    for how in 0..8 {
        let msgs = msgs.clone();
        let name = ["send", "try_send", "send_timeout(120ms)", "send_timeout(Duration::MAX)", "send_timeout(0)", "send_deadline(+120ms)", "send_deadline(+1h)", "send_deadline(past)"][how];
        let r = limited(30, move || {
            let mut bad: Vec<String> = vec![];
            for m in &msgs {
                let want = message_parts(m);
                // room
                let (cn, r) = conn(None);
                let o = run(how, &cn, m.clone());
                let got: Vec<Value> = r.try_iter().map(|m| message_parts(&m)).collect();
                if o.0 != Out::Ok || got != [want.clone()] { bad.push(format!("with room: {:?}, on the channel {:?}, expected once {}", o, got, want)); }
                // the other end is gone
                let (cn, r) = conn(None);
                drop(r);
                let o = run(how, &cn, m.clone());
                if o != (Out::Gone, Some(want.clone())) { bad.push(format!("other end gone: {:?}", o)); }
            }
            // full
            let m = &msgs[0];
            let want = message_parts(m);
            if [1, 2, 4, 5, 7].contains(&how) {
                let (cn, r) = conn(Some(1));
                cn.sender.send(Notification::Exit.into()).unwrap();
                let t0 = Instant::now();
                let o = run(how, &cn, m.clone());
                let dt = t0.elapsed();
                if o != (if how == 1 { Out::Full } else { Out::Timeout }, Some(want.clone())) || r.len() != 1 { bad.push(format!("full channel: {:?}", o)); }
                if [1, 4, 7].contains(&how) && dt > Duration::from_millis(400) {
                    // five times in a row: not an accident of scheduling
                    let slow = (0..4).all(|_| { let t0 = Instant::now(); run(how, &cn, m.clone()); t0.elapsed() > Duration::from_millis(400) });
                    if slow { bad.push(format!("full channel: waited {:?}", dt)); }
                }
                if [2, 5].contains(&how) && (dt < Duration::from_millis(100) || dt > Duration::from_secs(10)) { bad.push(format!("waited {:?} for a timeout of 120 ms", dt)); }
            }
            // room after a while
            if [0, 2, 3, 5, 6].contains(&how) {
                let (cn, r) = conn(Some(1));
                cn.sender.send(Notification::Exit.into()).unwrap();
                let h = std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(20)); let a = r.recv().is_ok(); let b = r.recv_timeout(Duration::from_secs(5)).map(|m| message_parts(&m)).ok(); (a, b) });
                let o = run(how, &cn, m.clone());
                let got = h.join().unwrap();
                if o.0 != Out::Ok || got != (true, Some(want)) { bad.push(format!("room after 20 ms: {:?} {:?}", o, got)); }
            }
            bad
        });
        match r {
            None => c.check(name, false, "did not return within 30 s"),
            Some(Err(p)) => c.check(name, false, &format!("panic: {p}")),
            Some(Ok(b)) => c.check(name, b.is_empty(), &b.join("; ")),
        }
    }
}
