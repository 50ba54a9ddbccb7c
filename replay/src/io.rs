//! C01-C04, C12-C14, C16, C17, C21: frames on real sockets and standard streams, the handshakes, the threads
use crate::ctx::{limited, Ctx, Rng};
use crate::msgs::{all_messages, lookalikes, messages_of, members, message_parts, notifications, requests};
use crate::types::{de, enc, struct_samples};
use bsp_server::types::*;
use bsp_server::{Connection, IoThreads, Message, Notification, ProtocolError, Request, RequestId, Response};
use crossbeam_channel::{bounded, unbounded};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const T: Duration = Duration::from_secs(10);

fn pair() -> (Connection, IoThreads, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
    let (c, t) = Connection::connect(l.local_addr().unwrap()).expect("connect");
    let (s, _) = l.accept().expect("accept");
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(T)).unwrap();
    (c, t, s)
}
fn listening() -> (Connection, IoThreads, TcpStream) {
    loop {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        drop(l);
        let h = std::thread::spawn(move || Connection::listen(a));
        for _ in 0..2000 {
            if h.is_finished() {
                break;
            }
            if let Ok(s) = TcpStream::connect(a) {
                s.set_nodelay(true).unwrap();
                s.set_read_timeout(Some(T)).unwrap();
                let (c, t) = h.join().unwrap().expect("listen");
                return (c, t, s);
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}
fn frame(s: &str) -> Vec<u8> {
    [format!("Content-Length: {}\r\n\r\n", s.len()).as_bytes(), s.as_bytes()].concat()
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 700 { format!("{:?}... ({} bytes)", s.chars().take(700).collect::<String>(), b.len()) } else { format!("{:?}", s) }
}

// ---------------------------------------------------------------- what the bytes mean
#[derive(Debug, PartialEq, Clone)]
enum End { Done, Failed }

/// the messages a reader must hand over for these bytes, and how it must end
fn meaning(mut b: &[u8]) -> (Vec<Value>, End) {
    let mut out = vec![];
    loop {
        let mut size: Option<u64> = None;
        loop {
            if b.is_empty() { return (out, End::Done); }
            let n = b.iter().position(|c| *c == b'\n').map_or(b.len(), |p| p + 1);
            let (line, rest) = b.split_at(n);
            let line = match line.strip_suffix(b"\r\n") { Some(l) => l, None => return (out, End::Failed) };
            b = rest;
            if line.is_empty() { break; }
            let line = match std::str::from_utf8(line) { Ok(l) => l, Err(_) => return (out, End::Failed) };
            let (name, value) = match line.split_once(": ") { Some(x) => x, None => return (out, End::Failed) };
            if name == "Content-Length" {
                if value.is_empty() || !value.bytes().all(|c| c.is_ascii_digit()) { return (out, End::Failed); }
                size = match value.parse() { Ok(n) => Some(n), Err(_) => return (out, End::Failed) };
            }
        }
        let size = match size { Some(n) => n, None => return (out, End::Failed) };
        if (b.len() as u64) < size { return (out, End::Failed); }
        let (body, rest) = b.split_at(size as usize);
        b = rest;
        let m: Message = match std::str::from_utf8(body).ok().and_then(|t| serde_json::from_str(t).ok()) { Some(m) => m, None => return (out, End::Failed) };
        out.push(message_parts(&m));
        if matches!(m, Message::Notification(Notification::Exit)) { return (out, End::Done); }
    }
}

/// what a socket connection hands over for these bytes, arriving in these pieces
fn read_socket(bytes: Vec<u8>, pieces: Vec<usize>, slow: bool, listen: bool) -> Result<(Vec<Value>, End), String> {
    limited(60, move || -> Result<(Vec<Value>, End), String> {
        let (c, t, s) = if listen { listening() } else { pair() };
        let mut w = s.try_clone().unwrap();
        let h = std::thread::spawn(move || {
            let mut at = 0;
            for p in pieces {
                let n = p.min(bytes.len() - at);
                if n == 0 || w.write_all(&bytes[at..at + n]).is_err() { break; }
                at += n;
                std::thread::sleep(Duration::from_micros(300));
            }
            let _ = w.write_all(&bytes[at..]);
            let _ = w.shutdown(Shutdown::Write);
        });
        let mut out = vec![];
        loop {
            if slow { std::thread::sleep(Duration::from_millis(2)); }
            match c.receiver.recv_timeout(T) {
                Ok(m) => out.push(message_parts(&m)),
                Err(crossbeam_channel::RecvTimeoutError::Disconnected) => break,
                Err(_) => return Err("nothing was handed over for ten seconds and the reader did not end".into()),
            }
        }
        drop(c);
        let end = match t.reader.join() { Ok(Ok(())) => End::Done, Ok(Err(_)) => End::Failed, Err(_) => return Err("the reader panicked".into()) };
        drop(s);
        let _ = h.join();
        Ok((out, end))
    }).unwrap_or(Ok(Err("not finished after 60 s".into()))).unwrap_or_else(|p| Err(format!("panic: {p}")))
}
fn check_read(c: &mut Ctx, what: &str, bytes: Vec<u8>, pieces: Vec<usize>) {
    let want = meaning(&bytes);
    let text = show(&bytes);
    let listen = c.cases % 3 == 2;
    let got = read_socket(bytes, pieces.clone(), c.cases % 5 == 4, listen);
    c.eq(&format!("{what}: a socket that receives {text}{}", if pieces.is_empty() { String::new() } else { format!(" in pieces {:?}", &pieces[..pieces.len().min(8)]) }), got, Ok(want));
}
const MARK: &str = "{\"method\":\"mark/er\",\"params\":[1]}";

// ---------------------------------------------------------------- standard streams, in a child process
/// child: reads standard input to the end and reports what was handed over on standard error
extern "C" {
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}
pub fn child(mode: &str) {
    match mode {
        "reader" => {
            let (c, t) = Connection::stdio();
            for m in c.receiver.iter() {
                eprintln!("{}", message_parts(&m));
            }
            drop(c);
            match t.reader.join() { Ok(Ok(())) => eprintln!("done"), Ok(Err(_)) => eprintln!("failed"), Err(_) => eprintln!("panic") }
            std::process::exit(0)
        }
        "deaf" => {
            let (c, t) = Connection::stdio();
            drop(c.receiver);
            let r = t.reader.join();
            std::process::exit(match r { Ok(Ok(())) => 0, Ok(Err(_)) => 7, Err(_) => 9 })
        }
        // child: sends the messages listed on a file named by the environment, then closes
        "writer" | "pause" => {
            let ms: Vec<Message> = written();
            let (c, t) = Connection::stdio();
            let mut refused = false;
            let spaced = std::env::var("REPLAY_SPACED").is_ok();
            if spaced { unsafe { fcntl(1, 4, 0o4001) }; }   // standard output does not block
            for m in ms {
                refused |= c.send(m).is_err();
                if spaced { std::thread::sleep(Duration::from_millis(1200)); }
            }
            if mode == "pause" {
                // everything sent must be out while the connection stays open
                std::thread::sleep(Duration::from_secs(20));
            }
            drop(c);
            let r = t.writer.join();
            std::process::exit(match r { Ok(Ok(())) => if refused { 8 } else { 0 }, Ok(Err(_)) => 7, Err(_) => 9 })
        }
        "echo" => {
            // sends back every message it is given; ends after exit
            let (c, t) = Connection::stdio();
            for m in c.receiver.iter() {
                let _ = c.send(m);
            }
            drop(c);
            std::process::exit(match t.join() { Ok(()) => 0, Err(_) => 7 })
        }
        "serve" => {
            // a whole session: handshake, echo, shutdown, join
            let (c, t) = Connection::stdio();
            if c.initialize(|p| json!({"name": p.display_name()})).is_err() { std::process::exit(5) }
            let mut code = 6;
            while let Ok(m) = c.receiver.recv() {
                match m {
                    Message::Request(r) => match c.handle_shutdown(&r) { Ok(true) => { code = 0; break } Ok(false) => { let _ = c.send(r); } Err(_) => { code = 3; break } },
                    m => { let _ = c.send(m); }
                }
            }
            drop(c);
            std::process::exit(match t.join() { Ok(()) => code, Err(_) => 7 })
        }
        "mute" => {
            // standard output is gone: sending must fail rather than wait, although the reader still waits for input
            let (c, _t) = Connection::stdio();
            let t0 = Instant::now();
            while t0.elapsed() < T {
                match c.sender.send_timeout(Notification::Custom("x", json!("y")).into(), T) {
                    Ok(()) => (),
                    Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => std::process::exit(9),
                    Err(_) => std::process::exit(0),
                }
            }
            std::process::exit(8)
        }
        _ => std::process::exit(4),
    }
}
fn written() -> Vec<Message> {
    let v: Vec<Value> = serde_json::from_str(&match std::env::var("REPLAY_MESSAGES") {
        Ok(s) => match s.strip_prefix('@') { Some(f) => std::fs::read_to_string(f).unwrap(), None => s },
        Err(_) => "[]".into(),
    }).unwrap();
    v.into_iter().map(|v| serde_json::from_value(v).unwrap()).collect()
}
fn me(mode: &str) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("--child").arg(mode);
    c
}
fn wait(p: &mut std::process::Child, secs: u64) -> Option<i32> {
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(secs) {
        if let Ok(Some(s)) = p.try_wait() { return Some(s.code().unwrap_or(-1)); }
        std::thread::sleep(Duration::from_millis(2));
    }
    let _ = p.kill();
    let _ = p.wait();
    None
}
fn read_stdio(bytes: &[u8]) -> Result<(Vec<Value>, End), String> {
    let mut p = me("reader").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let (mut i, mut e) = (p.stdin.take().unwrap(), p.stderr.take().unwrap());
    let b = bytes.to_vec();
    let h = std::thread::spawn(move || { let _ = i.write_all(&b); });
    let r = std::thread::spawn(move || { let mut s = String::new(); let _ = e.read_to_string(&mut s); s });
    if wait(&mut p, 20).is_none() { return Err("the process did not end".into()); }
    let _ = h.join();
    let s = r.join().unwrap();
    let mut lines: Vec<&str> = s.lines().collect();
    let end = match lines.pop() { Some("done") => End::Done, Some("failed") => End::Failed, x => return Err(format!("the reader ended with {:?}", x)) };
    Ok((lines.iter().filter_map(|l| serde_json::from_str(l).ok()).collect(), end))
}
fn check_stdio(c: &mut Ctx, what: &str, bytes: &[u8]) {
    let got = read_stdio(bytes);
    c.eq(&format!("{what}: standard input {}", show(bytes)), got, Ok(meaning(bytes)));
}

// ---------------------------------------------------------------- writing
fn want_text(m: &Message) -> Vec<(String, Value)> {
    let mut ms = members(&match m { Message::Request(r) => serde_json::to_string(r), Message::Response(r) => serde_json::to_string(r), Message::Notification(r) => serde_json::to_string(r) }.unwrap()).unwrap();
    ms.push(("jsonrpc".into(), json!("2.0")));
    ms.sort_by(|a, b| a.0.cmp(&b.0));
    ms
}
/// are the bytes exactly one frame per message?
fn frames_of(mut b: &[u8], ms: &[Message]) -> Result<(), String> {
    for (k, m) in ms.iter().enumerate() {
        let rest = b.strip_prefix(b"Content-Length: ".as_slice()).ok_or_else(|| format!("message {k} does not start with Content-Length: {}", show(b)))?;
        let n = rest.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no empty line")?;
        let len = std::str::from_utf8(&rest[..n]).map_err(|e| e.to_string())?;
        let size: usize = len.parse().map_err(|_| format!("length {len:?}"))?;
        if size.to_string() != len { return Err(format!("length {len:?}")); }
        let rest = &rest[n + 4..];
        if rest.len() < size { return Err(format!("message {k} announces {size} bytes, {} follow", rest.len())); }
        let t = std::str::from_utf8(&rest[..size]).map_err(|_| format!("message {k}: the announced body is not UTF-8: {}", show(&rest[..size])))?;
        let got = members(t).map_err(|e| format!("message {k}: {e}: {}", show(t.as_bytes())))?;
        let want = want_text(m);
        if got != want { return Err(format!("message {k} is {} instead of members {:?}", show(t.as_bytes()), want)); }
        b = &rest[size..];
    }
    if b.is_empty() { Ok(()) } else { Err(format!("further bytes {}", show(b))) }
}
/// as write_socket, for exact capture: reads as many bytes as the frames need and a little longer
fn capture(ms: &[Message], listen: bool) -> Result<Vec<u8>, String> {
    let n = ms.len();
    let v = ms.to_vec();
    limited(60, move || -> Result<Vec<u8>, String> {
        let (c, t, mut s) = if listen { listening() } else { pair() };
        let (tx, rx) = std::sync::mpsc::channel();
        let mut r = s.try_clone().unwrap();
        std::thread::spawn(move || { let mut b = vec![]; let mut buf = [0u8; 65536]; while let Ok(k) = r.read(&mut buf) { if k == 0 { break; } b.extend(&buf[..k]); } let _ = tx.send(b); });
        for m in v {
            if c.sender.send_timeout(m, T).is_err() { return Err(format!("one of {n} messages was not taken by the writer")); }
        }
        drop(c.sender);
        match t.writer.join() { Ok(Ok(())) => (), Ok(Err(e)) => return Err(format!("the writer failed: {e}")), Err(_) => return Err("the writer panicked".into()) }
        // end the reader thread by closing our direction, which closes the whole socket
        drop(c.receiver);
        let _ = s.shutdown(Shutdown::Write);
        let _ = t.reader.join();
        let _ = s.flush();
        rx.recv_timeout(T).map_err(|_| "the socket stayed open".to_string())
    }).unwrap_or(Ok(Err("not finished after 60 s".into()))).unwrap_or_else(|p| Err(format!("panic: {p}")))
}
/// every character up to U+33FF, the specials, some emoji and the last ones: whatever a writer or reader could mistake for something else
pub fn every_char() -> String {
    (0u32..0x3400).chain(0xd700..0xe000).chain(0xfb00..0x10010).chain(0x1f5f0..0x1f650).chain(0xe0000..0xe0080).chain(0x10fff0..0x110000).filter_map(char::from_u32).collect()
}
fn shapes() -> Vec<Message> {
    let mut v = all_messages();
    v.push(Notification::Custom("x/y", json!(every_char())).into());
    v.push(Request::Custom("i".to_string().into(), "x/y", json!(every_char().chars().rev().collect::<String>())).into());
    for n in [0usize, 1, 10, 100, 990, 5000, 8190, 70000, 200000].into_iter().chain(crate::dict::counts(300_000).into_iter().flat_map(|n| [n, n.saturating_sub(45)])) {
        v.push(Notification::Custom("x/y", json!("x".repeat(n))).into());
    }
    for s in ["\u{e9}", "\u{1F600}\u{20AC}", "\u{0}\u{7f}\u{80}\u{2028}", "a\r\n\r\nb", "Content-Length: 5\r\n\r\n"] {
        v.push(Notification::Custom("x/y", json!(s)).into());
        v.push(Request::Custom(s.to_string().into(), "\u{e9}", json!({ s: s })).into());
        v.push(Response::err(1.into(), 1, s.into()).into());
    }
    v
}
fn small() -> Vec<Message> {
    vec![Notification::Custom("x/y", json!([1])).into(), Request::Shutdown(7.into()).into(), Response::ok(1.into(), "r\u{e9}").into(), Notification::Initialized.into(), Request::Custom("q".to_string().into(), "m", json!({})).into()]
}
/// run the writer child with a limit on the size of its output file: `room` bytes fit
fn limited_child(ms: &[Message], room: usize, kib: usize) -> Result<(Option<i32>, Vec<u8>), String> {
    let p = format!("out.{}", std::process::id());
    std::fs::write(&p, vec![b'.'; kib * 1024 - room]).map_err(|e| e.to_string())?;
    let out = std::fs::OpenOptions::new().append(true).open(&p).map_err(|e| e.to_string())?;
    let v: Vec<Value> = ms.iter().map(|m| enc(m)).collect();
    let q = format!("in.{}", std::process::id());
    std::fs::write(&q, Value::Array(v).to_string()).map_err(|e| e.to_string())?;
    let mut ch = Command::new("bash").arg("-c").arg("trap '' XFSZ; ulimit -f $1; exec \"$0\" --child writer").arg(std::env::current_exe().unwrap()).arg(kib.to_string())
        .env("REPLAY_MESSAGES", format!("@{q}")).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let st = wait(&mut ch, 20);
    let b = std::fs::read(&p).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_file(&q);
    Ok((st, b[kib * 1024 - room..].to_vec()))
}
/// total bytes of the frames of these messages, with the body texts as the crate writes them
fn total(ms: &[Message]) -> Result<Vec<u8>, String> {
    capture(ms, false)
}
fn write_failures(c: &mut Ctx, what: &str) {
    let ms = vec![small()[2].clone(), small()[0].clone()];
    let n = total(&ms).map_or(0, |b| b.len());
    let rooms: Vec<usize> = (0..=n).step_by(if c.thorough { 1 } else { 3 }).chain([n.saturating_sub(1), n]).collect();
    if write_failure(c, what, &ms, &rooms, 4) { return }
    // long messages, in every relation to the sizes a writer may cut them into
    for k in [9000usize, 70000, 140000] {
        let ms = vec![Notification::Custom("x/y", json!("a".repeat(k))).into()];
        let n = total(&ms).map_or(0, |b| b.len());
        let mut rooms = vec![100, k / 2, 1 << 12, 1 << 13, (1 << 13) + 30, 1 << 16, (1 << 16) + 20, (1 << 16) + 40, (1 << 16) + 4000, 131000, 132000, n - 1, n];
        rooms.retain(|r| *r <= n);
        if write_failure(c, what, &ms, &rooms, 256) { return }
    }
}
fn write_failure(c: &mut Ctx, what: &str, ms: &[Message], rooms: &[usize], kib: usize) -> bool {
    let all = match total(ms) { Ok(b) => b, Err(e) => { c.check(what, false, &e); return true } };
    for &room in rooms {
        match limited_child(ms, room, kib) {
            Err(_) => return true, // no such limit here
            Ok((code, got)) => {
                let full = room >= all.len();
                let w = format!("{what}: standard output that takes {room} of {} bytes", all.len());
                c.check(&w, code == Some(if full { 0 } else { 7 }), &format!("the writer process ended with {:?} (0 success, 7 error, 9 panic)", code));
                c.check(&w, all.starts_with(&got) && (!full || got == all), &format!("wrote {} bytes, {}", got.len(), show(&got[..got.len().min(300)])));
            }
        }
        if c.done() { return true; }
    }
    false
}
fn promptly(c: &mut Ctx, what: &str) {
    // on a pipe and with the connection left open, everything sent must arrive
    for m in small() {
        let v = json!([enc(&m)]);
        let mut p = me("pause").env("REPLAY_MESSAGES", v.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let mut o = p.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let mut b = [0u8; 4096]; while let Ok(k) = o.read(&mut b) { if k == 0 || tx.send(b[..k].to_vec()).is_err() { break; } } });
        let mut got = vec![];
        let t0 = Instant::now();
        while frames_of(&got, &[m.clone()]).is_err() && t0.elapsed() < Duration::from_secs(8) {
            if let Ok(b) = rx.recv_timeout(Duration::from_millis(100)) { got.extend(b); }
        }
        let r = frames_of(&got, &[m.clone()]);
        let _ = p.kill();
        let _ = p.wait();
        c.check(&format!("{what}: what a writer process has put on its standard output while it stays open, for {}", message_parts(&m)), r.is_ok(), &format!("{:?}, seen {}", r, show(&got)));
        if c.done() { return; }
    }
}

pub fn c01(c: &mut Ctx) {
    c.guard("writing", |c| {
        let all = shapes();
        for (k, ms) in all.chunks(12).enumerate() {
            let got = capture(ms, k % 2 == 1);
            let r = got.and_then(|b| frames_of(&b, ms));
            c.check(&format!("write {} messages from {} to a socket", ms.len(), message_parts(&ms[0])), r.is_ok(), &format!("{:?}", r));
            if c.done() { return; }
        }
    });
    c.guard("standard output", |c| {
        for ms in shapes().into_iter().filter(|m| serde_json::to_string(m).map_or(false, |s| s.len() < 3000)).collect::<Vec<_>>().chunks(20) {
            let v: Vec<Value> = ms.iter().map(|m| enc(m)).collect();
            // null results do not survive the way into the child
            let p = me("writer").env("REPLAY_MESSAGES", Value::Array(v).to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).output();
            if let Ok(o) = p {
                let back: Vec<Message> = ms.iter().map(|m| serde_json::from_value(enc(m)).unwrap()).collect();
                let r = frames_of(&o.stdout, &back);
                c.check(&format!("write {} messages from {} to standard output", ms.len(), message_parts(&ms[0])), r.is_ok() && o.status.code() == Some(0), &format!("{:?} {:?}", r, o.status.code()));
            }
            if c.done() { return; }
        }
    });
    c.guard("flushing", |c| promptly(c, "flush"));
    c.guard("write failures", |c| write_failures(c, "write failure"));
}

fn headers_ok(n: usize) -> Vec<Vec<String>> {
    let cl = format!("Content-Length: {n}");
    let extra: Vec<String> = ["Content-Type: application/vscode-jsonrpc; charset=utf-8", "X: ", ": v", "A: b: c", "Content-Length2: 5", "X-Content-Length: 3", "Content-Length : x", "Content-Length: 0", "Content-Length: 2", "Content-Length: 99999", "\u{e9}: \u{e9}", "Content-Type: Content-Length: 7", "a: \r", "Content-Encoding: x"]
        .iter().map(|s| s.to_string()).collect();
    let mut v = vec![vec![cl.clone()]];
    v.push(vec![format!("Content-Length: 00{n}")]);
    for k in [100usize, 300, 1100, 4200, 8300, 17000, 70000] {
        v.push(vec![format!("X: {}", "y".repeat(k)), cl.clone()]);
        v.push(vec![cl.clone(), format!("{}: y", "X".repeat(k))]);
        v.push(vec![format!("X-{}: Content-Length: 1", "X".repeat(k)), cl.clone()]);
    }
    for k in [17, 40, 130, 300] {
        v.push((0..k).map(|i| format!("X{i}: {i}")).chain([cl.clone()]).collect());
    }
    v.push(vec![format!("Content-Length: {}{n}", "0".repeat(60))]);
    for t in crate::dict::texts().into_iter().filter(|t| !t.contains('\n')) {
        let lines = [t.clone(), format!("{t}: v"), format!("X: {t}"), format!("Content-Type: {t}"), format!("Content-Type: a; {t}; b"), format!("Content-Type: a; {t}b; c")];
        for l in lines.into_iter().filter(|l| l.contains(": ") && !l.starts_with("Content-Length: ")) {
            v.push(vec![l.clone(), cl.clone()]);
            v.push(vec![cl.clone(), l]);
        }
    }
    for k in crate::dict::counts(3000) { v.push((0..k).map(|i| format!("X{i}: {i}")).chain([cl.clone()]).collect()); }
    for k in crate::dict::counts(200_000) { v.push(vec![cl.clone(), format!("X: {}", "y".repeat(k))]); }
    for a in &extra {
        v.push(vec![a.clone(), cl.clone()]);
        if !a.starts_with("Content-Length: ") { v.push(vec![cl.clone(), a.clone()]); }
        for b in &extra {
            v.push(vec![a.clone(), b.clone(), cl.clone()]);
            if !b.starts_with("Content-Length: ") {
                v.push(vec![a.clone(), cl.clone(), b.clone()]);
                if !a.starts_with("Content-Length: ") { v.push(vec![cl.clone(), a.clone(), b.clone()]); }
            }
        }
    }
    v
}
fn bodies() -> Vec<String> {
    let mut v: Vec<String> = vec![
        MARK.into(), "{\"id\":1,\"method\":\"build/shutdown\",\"params\":null}".into(), "{\"id\":\"s\",\"result\":{\"a\":\"\u{e9}\u{1F600}\"}}".into(),
        " \r\n\t{\"method\" : \"x/y\", \"params\" : \"a\\r\\n\\r\\nb\"}\r\n\r\n".into(), "{\"method\":\"x\",\"params\":\"Content-Length: 5\"}\n".into(),
        "{\"jsonrpc\":\"2.0\",\"method\":\"build/initialized\",\"params\":{}}".into(),
    ];
    for n in crate::dict::counts(300_000) {
        for n in [n, n.saturating_sub(27)] { v.push(format!("{{\"method\":\"x\",\"params\":\"{}\"}}", "y".repeat(n))); }
    }
    for t in crate::dict::texts() {
        v.push(json!({"method": "x", "params": t}).to_string());
        v.push(json!({"method": t, "params": 1}).to_string());
        v.push(json!({ t: 1, "method": "x", "params": null }).to_string());
    }
    for n in [900usize, 4000, 8100, 8192, 9000, 70000, 300000] {
        v.push(format!("{{\"method\":\"x\",\"params\":\"{}\"}}", "y".repeat(n)));
    }
    v
}
fn pieces(r: &mut Rng, n: usize) -> Vec<usize> {
    match r.below(4) { 0 => vec![1; 60.min(n)], 1 => (0..40).map(|_| 1 + r.below(30)).collect(), 2 => vec![n / 2, 1, 1], _ => vec![n.saturating_sub(1)] }
}
pub fn c02(c: &mut Ctx) {
    let mut r = Rng(c.seed * 77 + 3);
    c.guard("headers", |c| {
        let mut stream = vec![];
        let mut k = 0;
        for b in bodies() {
            let hs = if b.len() < 100 { headers_ok(b.len()) } else { headers_ok(b.len()).into_iter().step_by(17).collect() };
            for h in hs {
                stream.extend(h.iter().flat_map(|l| format!("{l}\r\n").into_bytes()));
                stream.extend(b"\r\n");
                stream.extend(b.as_bytes());
                k += 1;
                if k % 25 == 0 || stream.len() > 100000 {
                    let s = std::mem::take(&mut stream);
                    let p = if k % 50 == 0 { vec![] } else { pieces(&mut r, s.len()) };
                    check_read(c, "frames", s, p);
                    if c.done() { return; }
                }
            }
        }
        check_read(c, "frames", stream, vec![]);
    });
    c.guard("one by one", |c| for h in headers_ok(MARK.len()).into_iter().step_by(if c.thorough { 1 } else { 5 }) {
        let s = [h.iter().map(|l| format!("{l}\r\n")).collect::<String>().as_bytes(), b"\r\n", MARK.as_bytes(), &frame(MARK)].concat();
        check_read(c, "a frame and another", s, vec![]);
        if c.done() { return; }
    });
    c.guard("standard input", |c| for h in headers_ok(MARK.len()).into_iter().step_by(29) {
        let s = [h.iter().map(|l| format!("{l}\r\n")).collect::<String>().as_bytes(), b"\r\n", MARK.as_bytes(), &frame(MARK)].concat();
        check_stdio(c, "a frame and another", &s);
        if c.done() { return; }
    });
    c.guard("end of stream", |c| for s in [b"".to_vec(), b"Content-Length: 5\r\n".to_vec(), b"A: b\r\nContent-Length: 5\r\n".to_vec(), frame(MARK), [frame(MARK), b"X: y\r\n".to_vec()].concat()] {
        check_read(c, "the stream ends at a line", s.clone(), vec![]);
        check_stdio(c, "the stream ends at a line", &s);
    });
    c.guard("a growing body", |c| {
        // every length from 0 up: the body is a JSON string of exactly that many bytes
        let mut s = vec![];
        for n in 0..300 {
            s.extend(frame(&format!("{{\"method\":\"x\",\"params\":\"{}\"}}", "z".repeat(n))));
        }
        check_read(c, "bodies of every length", s, vec![]);
    });
}

fn bad_frames() -> Vec<Vec<u8>> {
    let n = MARK.len();
    let mut v: Vec<Vec<u8>> = vec![];
    for l in [format!("Content-Length:{n}"), "Content-Length".into(), "Content-Length: ".into(), "abc".into(), " ".into(), ":".into(), format!("Content-Length:  {n}"), format!("Content-Length: {n} "), format!("Content-Length: -{n}"),
        "Content-Length: 0x20".into(), format!("Content-Length: {n}.0"), "Content-Length: 3e1".into(), "Content-Length: \u{ff13}".into(), "Content-Length: 99999999999999999999999".into(), format!("Content-Length: {n},{n}"), format!("Content-Length: {n}: 4"),
        "Content-Length: 3_3".into(), "Content-Length: abc".into(), format!("Content-Length: {n}\r"), "Content-Length: 18446744073709551616".into(), "Content-Length: \t33".into(), "Content-Length: 33;q=1".into()] {
        v.push(format!("{l}\r\n\r\n{MARK}").into_bytes());
        v.push(format!("Content-Length: {n}\r\n{l}\r\n\r\n{MARK}").into_bytes());
        v.push(format!("{l}\r\nContent-Length: {n}\r\n\r\n{MARK}").into_bytes());
    }
    for s in [format!("Content-Length: {n}\n\r\n{MARK}"), format!("Content-Length: {n}\r\n\n{MARK}"), format!("Content-Length: {n}\n\n{MARK}"), format!("\nContent-Length: {n}\r\n\r\n{MARK}"), format!("\r\n{MARK}"), format!("A: b\r\n\r\n{MARK}"), format!("content-type: x\r\n\r\n{MARK}"), format!("{MARK}"), format!("{MARK}\r\n"), format!("A: b\n\r\n{MARK}")] {
        v.push(s.into_bytes());
    }
    // bodies that are no message
    for b in ["", " ", "{}", "null", "[1]", "3", "\"x\"", "{\"jsonrpc\":\"2.0\"}", "{\"id\":1}x", "{\"method\":\"x\",\"params\":1}x", "{\"method\":\"x\",\"params\":1}{}", "{\"method\":\"x\",\"params\":1", "{\"method\":\"x\",\"params\":\"\\ud800\"}", "{\"method\":\"x\"}", "{'method':'x'}", "{\"method\":\"x\",\"params\":1,}", "{\"method\":5,\"params\":1}",
        "{\"method\":\"x\",\"params\":nan}", "\u{feff}{\"method\":\"x\",\"params\":1}", "{\"result\":1}", "{\"method\":\"x\",\"params\":1}\0"] {
        v.push(frame(b));
    }
    // not UTF-8
    for bytes in [&[0xff][..], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0x80], &[0xf5, 0x80, 0x80, 0x80]] {
        for (a, z) in [("{\"method\":\"x\",\"params\":\"", "\"}"), ("{\"method\":\"", "\",\"params\":1}"), ("", MARK), (MARK, ""), ("{\"zz\":\"", "\",\"method\":\"x\",\"params\":1}")] {
            let b = [a.as_bytes(), bytes, z.as_bytes()].concat();
            v.push([format!("Content-Length: {}\r\n\r\n", b.len()).as_bytes(), &b].concat());
        }
    }
    // lengths one off
    for d in [-1i64, 1, 2, -2, -10] {
        v.push(format!("Content-Length: {}\r\n\r\n{MARK}", n as i64 + d).into_bytes());
    }
    v
}
pub fn c03(c: &mut Ctx) {
    let bad = bad_frames();
    c.guard("malformed", |c| for (k, b) in bad.iter().enumerate() {
        let s = [frame(MARK), b.clone(), frame(MARK), frame(MARK)].concat();
        check_read(c, "a malformed frame between good ones", s.clone(), vec![]);
        check_read(c, "a malformed frame at the end", [frame(MARK), b.clone()].concat(), vec![]);
        if k % 9 == 0 { check_stdio(c, "a malformed frame between good ones", &s); }
        if c.done() { return; }
    });
    c.guard("truncated", |c| {
        let f = [b"A: b\r\n".to_vec(), frame("{\"method\":\"x/y\",\"params\":\"\u{e9}\u{1F600}\"}")].concat();
        for k in 0..=f.len() {
            check_read(c, "a truncated frame", f[..k].to_vec(), vec![]);
            if k % 8 == 3 { check_stdio(c, "a truncated frame", &f[..k]); }
            if c.done() { return; }
        }
        for n in ["100", "70000", "1000000000", "1000000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615"] {
            for b in ["", "{", MARK] {
                check_read(c, "a body shorter than announced", format!("Content-Length: {n}\r\n\r\n{b}").into_bytes(), vec![]);
            }
            check_stdio(c, "a body shorter than announced", format!("Content-Length: {n}\r\n\r\n{MARK}").as_bytes());
        }
    });
    c.guard("failing stream", |c| failing_input(c));
    // decoding never panics: every message, and messages with a member misshapen
    c.guard("messages", |c| for m in all_messages() {
        let v = enc(&m);
        c.cases += 1;
        let _ = serde_json::from_str::<Message>(&v.to_string());
        for p in [json!(null), json!(0), json!(""), json!([]), json!({}), json!([0]), json!(-1), json!("x".repeat(70))] {
            for k in ["id", "method", "params", "result", "error"] {
                let mut w = v.clone();
                if w.get(k).is_none() { continue }
                w[k] = p.clone();
                let _ = serde_json::from_str::<Message>(&w.to_string());
            }
            let names: Vec<String> = v["params"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
            for k in names {
                let mut w = v.clone();
                w["params"][k] = p.clone();
                let _ = serde_json::from_str::<Message>(&w.to_string());
            }
        }
        if c.done() { return; }
    });
}
fn failing_input(c: &mut Ctx) {
    // reading a directory fails
    let d = std::fs::File::open("/");
    if let Ok(d) = d {
        let o = me("reader").stdin(d).stdout(Stdio::null()).stderr(Stdio::piped()).output();
        if let Ok(o) = o {
            let s = String::from_utf8_lossy(&o.stderr).to_string();
            c.check("standard input that cannot be read", s.lines().last() == Some("failed"), &format!("the reader ended with {:?}", s.lines().last()));
        }
    }
    // a reset connection: the peer closes with unread data
    let r = limited(30, || {
        let (c, t, s) = pair();
        let _ = c.sender.send_timeout(Notification::Custom("x", json!("y".repeat(1000))).into(), T);
        std::thread::sleep(Duration::from_millis(50));
        drop(s);
        let mut got = 0;
        while c.receiver.recv_timeout(T).is_ok() { got += 1; }
        drop(c);
        (got, t.reader.join().map(|r| r.is_err()).ok())
    });
    c.check("a socket that is reset", matches!(r, Some(Ok((0, Some(_))))), &format!("{:?}", r));
}

pub fn c04(c: &mut Ctx) {
    let rests: Vec<Vec<u8>> = vec![vec![], frame(MARK), b"Content-Length: 5\r\n\r\nab".to_vec(), b"\xff\xfe".to_vec(), b"\r\n".to_vec()];
    let mut r = Rng(c.seed * 91 + 1);
    c.guard("round trip", |c| {
        let ms: Vec<Message> = shapes().into_iter().filter(|m| !matches!(m, Message::Notification(Notification::Exit))).collect();
        for (k, part) in ms.chunks(7).enumerate() {
            let b = match capture(part, false) { Ok(b) => b, Err(e) => { c.check("writing", false, &e); return } };
            let rest = &rests[k % rests.len()];
            let (mut want, _) = meaning(&[rest.clone()].concat());
            let mut first: Vec<Value> = part.iter().map(|m| message_parts(&serde_json::from_str(&serde_json::to_string(m).unwrap()).unwrap())).collect();
            first.append(&mut want);
            let s = [b, rest.clone()].concat();
            let p = if k % 2 == 0 { vec![] } else { pieces(&mut r, s.len()) };
            let text = show(&s);
            let got = read_socket(s, p, false, false).map(|x| x.0);
            c.eq(&format!("read back the {} messages written as {}", part.len(), text), got, Ok(first));
            if c.done() { return; }
        }
        for n in [1usize << 16, 1 << 20, (1 << 20) + 1, 5_000_000, 20_000_000] {
            let m: Message = Notification::Custom("x/y", json!("\u{e9}".repeat(n / 2))).into();
            let b = match capture(&[m.clone()], false) { Ok(b) => b, Err(e) => { c.check("writing", false, &e); return } };
            let got = read_socket([b, frame(MARK)].concat(), vec![], false, false).map(|x| x.0.len() == 2 && x.0[0] == message_parts(&m));
            c.eq(&format!("read back a message of {n} bytes"), got, Ok(true));
        }
    });
    c.guard("pairs", |c| {
        let ms = small();
        for a in &ms { for b in &ms {
            let v = vec![a.clone(), b.clone(), a.clone()];
            let s = match capture(&v, false) { Ok(b) => b, Err(e) => { c.check("writing", false, &e); return } };
            let want: Vec<Value> = v.iter().map(message_parts).collect();
            c.eq(&format!("read back {}", show(&s)), read_socket(s.clone(), vec![], false, false), Ok((want, End::Done)));
            if c.done() { return; }
        } }
    });
}

// ---------------------------------------------------------------- the handshakes
fn init(id: RequestId, name: &str) -> Message {
    Request::InitializeBuild(id, de(&json!({"displayName": name, "rootUri": "file:///r"}))).into()
}
fn alphabet() -> Vec<Message> {
    vec![
        init(1.into(), "first"),
        Notification::Initialized.into(),
        Notification::Exit.into(),
        Request::Shutdown(2.into()).into(),
        Request::Custom("c".to_string().into(), "x/y", json!(1)).into(),
        Response::ok(4.into(), 1).into(),
        Notification::LogMessage(de(&json!({"type": 3, "message": "m"}))).into(),
        Notification::Custom("x/exit", json!(null)).into(),
        init("two".to_string().into(), "second"),
        Request::BuildTargetRun(6.into(), de(&json!({"target": {"uri": "file:///t"}}))).into(),
        Response::err(1.into(), -1, "m".into()).into(),
        Notification::Custom("build/initialize", json!({})).into(),
        Request::WorkspaceReload(7.into()).into(),
        Request::WorkspaceBuildTargets(8.into()).into(),
    ]
}
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    result: String,
    replies: Vec<Value>,
    called: Vec<Value>,
    left: usize,
}
fn reply(m: &Message) -> Value {
    match m {
        Message::Response(r) => match (&r.result, &r.error) {
            (Some(v), None) => json!(["ok", r.id, v]),
            (None, Some(e)) => json!(["error", r.id, e.code]),
            _ => json!(["neither or both", r.id]),
        },
        m => json!(["not a response", message_parts(m)]),
    }
}
fn expected_init(ms: &[Message]) -> Seen {
    let mut s = Seen { result: "error".into(), replies: vec![], called: vec![], left: 0 };
    let mut i = 0;
    while i < ms.len() {
        let m = &ms[i];
        i += 1;
        match m {
            Message::Request(Request::InitializeBuild(id, p)) => {
                s.replies.push(json!(["ok", id, {"answer": 42}]));
                s.called.push(enc(p));
                if i < ms.len() {
                    if matches!(ms[i], Message::Notification(Notification::Initialized)) { s.result = format!("ok {}", enc(p)); }
                    i += 1;
                }
                break;
            }
            Message::Request(r) => s.replies.push(json!(["error", r.id(), -32002])),
            Message::Notification(Notification::Exit) | Message::Response(_) => break,
            Message::Notification(_) => (),
        }
    }
    s.left = ms.len() - i;
    s
}
fn run_init(ms: &[Message], rendezvous: bool, closed: bool) -> Option<Result<Seen, String>> {
    let ms = ms.to_vec();
    let go = move || {
        let (s1, r1) = if rendezvous { bounded(0) } else { unbounded() };
        let (s2, r2) = unbounded();
        for m in ms { s2.send(m).unwrap(); }
        drop(s2);
        let left = r2.clone();
        let c = Connection { sender: s1, receiver: r2 };
        let h = if closed { drop(r1); None } else {
            Some(std::thread::spawn(move || { let mut v = vec![]; if rendezvous { std::thread::sleep(Duration::from_millis(3)); } while let Ok(m) = r1.recv_timeout(T) { v.push(reply(&m)); } v }))
        };
        let mut called = vec![];
        let r: Result<InitializeBuild, ProtocolError> = c.initialize(|p| { called.push(enc(p)); json!({"answer": 42}) });
        let left = left.len();
        drop(c);
        let replies = h.map(|h| h.join().unwrap()).unwrap_or_default();
        Seen { result: r.map_or("error".into(), |p| format!("ok {}", enc(&p))), replies, called, left }
    };
    limited(30, go)
}
fn names(ms: &[Message]) -> String {
    format!("{:?}", ms.iter().map(|m| message_parts(m).to_string().chars().take(80).collect::<String>()).collect::<Vec<_>>())
}
fn scripts(n: usize, depth: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
    fn rec(cur: &mut Vec<usize>, n: usize, depth: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if !f(cur) { return false; }
        if cur.len() < depth {
            for i in 0..n {
                cur.push(i);
                if !rec(cur, n, depth, f) { return false; }
                cur.pop();
            }
        }
        true
    }
    rec(&mut vec![], n, depth, f);
}
pub fn c12_c13(c: &mut Ctx) {
    let al = alphabet();
    let depth = if c.thorough { 4 } else { 3 };
    c.guard("scripts", |c| {
        scripts(al.len(), depth, &mut |s| {
            let ms: Vec<Message> = s.iter().map(|i| al[*i].clone()).collect();
            let got = run_init(&ms, false, false);
            c.eq(&format!("initialize with incoming messages {} and then a closed connection", names(&ms)), got, Some(Ok(expected_init(&ms))));
            if s.len() <= 2 {
                let got = run_init(&ms, true, false);
                c.eq(&format!("initialize with a slow outgoing channel and incoming messages {}", names(&ms)), got, Some(Ok(expected_init(&ms))));
                let got = run_init(&ms, false, true);
                let ok = matches!(&got, Some(Ok(s)) if s.called.len() <= 1);
                c.check(&format!("initialize when the peer no longer receives, with incoming messages {}", names(&ms)), ok, &format!("{:?}", got));
            }
            !c.done()
        });
    });
    // every request kind is refused, every notification dropped, before a normal handshake
    c.guard("every kind", |c| for m in all_messages() {
        for ms in [vec![m.clone(), init(1.into(), "x"), Notification::Initialized.into(), m.clone()], vec![init(1.into(), "x"), m.clone(), Notification::Initialized.into()]] {
            c.eq(&format!("initialize with incoming messages {}", names(&ms)), run_init(&ms, false, false), Some(Ok(expected_init(&ms))));
        }
        if c.done() { return; }
    });
    c.guard("every message", |c| for m in messages_of(200).into_iter().chain(lookalikes()) {
        let ms = vec![init(1.into(), "x"), m.clone(), Notification::Initialized.into()];
        c.eq(&format!("initialize with incoming messages {}", names(&ms)), run_init(&ms, false, false), Some(Ok(expected_init(&ms))));
        if c.done() { return; }
    });
    c.guard("many", |c| {
        let mut ms: Vec<Message> = (0..300).map(|i| if i % 3 == 0 { Notification::Custom("n", json!(i)).into() } else { Request::Custom(i.into(), "x", json!(i)).into() }).collect();
        ms.push(init(1000.into(), "x"));
        ms.push(Notification::Initialized.into());
        c.eq("initialize after 300 other messages", run_init(&ms, false, false), Some(Ok(expected_init(&ms))));
        c.eq("initialize after 300 other messages on a slow channel", run_init(&ms, true, false), Some(Ok(expected_init(&ms))));
        for p in struct_samples("InitializeBuild") {
            let ms: Vec<Message> = vec![Request::InitializeBuild("i".to_string().into(), de(&p)).into(), Notification::Initialized.into()];
            c.eq(&format!("initialize with params {p}"), run_init(&ms, false, false), Some(Ok(expected_init(&ms))));
        }
    });
    // results of other types
    c.guard("results", |c| for v in [json!(null), json!("s"), json!([1]), json!({"a": {}}), json!(false)] {
        let (a, b) = Connection::memory();
        b.send(init(3.into(), "x")).unwrap();
        b.send(Notification::Initialized).unwrap();
        let w = v.clone();
        let ok = limited(20, move || a.initialize(|_| w).is_ok());
        let got = b.receiver.try_recv().map(|m| reply(&m)).ok();
        c.check(&format!("initialize answering {v}"), matches!(ok, Some(Ok(true))) && got == Some(json!(["ok", 3, v])), &format!("{:?} {:?}", ok, got));
    });
}

fn run_shutdown(req: Request, ms: &[Message], rendezvous: bool, closed: bool, wait: u64) -> Option<Result<Seen, String>> {
    let ms = ms.to_vec();
    limited(60, move || {
        let (s1, r1) = if rendezvous { bounded(0) } else { unbounded() };
        let (s2, r2) = unbounded();
        let left = r2.clone();
        let c = Connection { sender: s1, receiver: r2 };
        let h = if closed { drop(r1); None } else {
            Some(std::thread::spawn(move || { let mut v = vec![]; if rendezvous { std::thread::sleep(Duration::from_millis(3)); } while let Ok(m) = r1.recv_timeout(Duration::from_secs(50)) { v.push(reply(&m)); } v }))
        };
        let late = if wait > 0 {
            Some(std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(wait)); for m in ms { let _ = s2.send(m); } }))
        } else {
            for m in ms { s2.send(m).unwrap(); }
            drop(s2);
            None
        };
        let r = c.handle_shutdown(&req);
        if let Some(h) = late { let _ = h.join(); }
        let left = left.len();
        drop(c);
        let replies = h.map(|h| h.join().unwrap()).unwrap_or_default();
        Seen { result: r.map_or("error".into(), |b| format!("ok {b}")), replies, called: vec![], left }
    })
}
pub fn c14(c: &mut Ctx) {
    let al = alphabet();
    // no answer at all: the wait must end
    let silent = std::thread::spawn(|| limited(50, || {
        let (a, b) = Connection::memory();
        let t = Instant::now();
        let r = a.handle_shutdown(&Request::Shutdown(1.into()));
        (r.is_err(), t.elapsed() < Duration::from_secs(36), b.receiver.len())
    }));
    c.guard("scripts", |c| for id in [RequestId::from(9), RequestId::from("s9".to_string())] {
        scripts(al.len(), 2, &mut |s| {
            let ms: Vec<Message> = s.iter().map(|i| al[*i].clone()).collect();
            let exit = matches!(ms.first(), Some(Message::Notification(Notification::Exit)));
            let want = Seen { result: if exit { "ok true".into() } else { "error".into() }, replies: vec![json!(["ok", id, null])], called: vec![], left: ms.len().saturating_sub(1) };
            let r = Request::Shutdown(id.clone());
            let w = format!("handle_shutdown({}) with incoming messages {}", enc(&id), names(&ms));
            c.eq(&w, run_shutdown(r.clone(), &ms, false, false, 0), Some(Ok(want.clone())));
            if s.len() <= 1 {
                c.eq(&format!("{w}, slow outgoing channel"), run_shutdown(r.clone(), &ms, true, false, 0), Some(Ok(want.clone())));
                let got = run_shutdown(r.clone(), &ms, false, true, 0);
                c.check(&format!("{w}, peer no longer receives"), matches!(&got, Some(Ok(s)) if s.result == want.result), &format!("{:?}", got));
                if s.len() == 1 {
                    c.eq(&format!("{w}, arriving after 200 ms"), run_shutdown(r, &ms, false, false, 200), Some(Ok(want)));
                }
            }
            !c.done()
        });
    });
    c.guard("every kind", |c| for m in messages_of(200).into_iter().chain(lookalikes()) {
        let ms = vec![m.clone(), Notification::Exit.into()];
        let exit = matches!(m, Message::Notification(Notification::Exit));
        c.eq(&format!("handle_shutdown with incoming messages {}", names(&ms)), run_shutdown(Request::Shutdown(1.into()), &ms, false, false, 0),
            Some(Ok(Seen { result: if exit { "ok true".into() } else { "error".into() }, replies: vec![json!(["ok", 1, null])], called: vec![], left: 1 })));
        if let Message::Request(r) = m {
            if !matches!(r, Request::Shutdown(_)) {
                let ms = vec![Notification::Exit.into(), Notification::Exit.into()];
                c.eq(&format!("handle_shutdown of {}", message_parts(&r.clone().into())), run_shutdown(r, &ms, false, false, 0), Some(Ok(Seen { result: "ok false".into(), replies: vec![], called: vec![], left: 2 })));
            }
        }
        if c.done() { return; }
    });
    c.guard("custom shutdown", |c| for m in ["build/shutdown", "shutdown", "build/exit"] {
        let ms = vec![Notification::Exit.into()];
        c.eq(&format!("handle_shutdown of a custom request {m}"), run_shutdown(Request::Custom(1.into(), m, json!(null)), &ms, false, false, 0), Some(Ok(Seen { result: "ok false".into(), replies: vec![], called: vec![], left: 1 })));
    });
    if c.fails == 0 {
        if let Ok(r) = silent.join() {
            c.eq("handle_shutdown when nothing arrives", r, Some(Ok((true, true, 1))));
        }
    }
}

// ---------------------------------------------------------------- the threads
fn pieces_of_session() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("notification", frame("{\"method\":\"x/y\",\"params\":1}")),
        ("exit", frame("{\"method\":\"build/exit\"}")),
        ("request", frame("{\"id\":1,\"method\":\"build/shutdown\",\"params\":null}")),
        ("malformed body", frame("{\"method\":}")),
        ("response", frame("{\"id\":1,\"result\":\"r\"}")),
        ("custom exit", frame("{\"method\":\"editor/exit\",\"params\":{}}")),
        ("exit with params", frame("{\"method\":\"build/exit\",\"params\":{\"a\":1}}")),
        ("bad header", b"Content-Length\r\n\r\n".to_vec()),
        ("cut off", b"Content-Length: 50\r\n\r\n{".to_vec()),
        ("log", frame("{\"method\":\"build/logMessage\",\"params\":{\"type\":1,\"message\":\"m\"}}")),
        ("exit request", frame("{\"id\":3,\"method\":\"build/exit\",\"params\":{}}")),
        ("initialized", frame("{\"method\":\"build/initialized\"}")),
        ("exit response", frame("{\"id\":3,\"result\":{},\"method\":\"build/exit\"}")),
        ("not UTF-8", b"Content-Length: 2\r\n\r\n\xff\xff".to_vec()),
        ("JSON but not a message", frame("{\"jsonrpc\":\"2.0\"}")),
        ("params of the wrong shape", frame("{\"method\":\"build/logMessage\",\"params\":{\"type\":9,\"message\":\"m\"}}")),
        ("an array", frame("[]")),
        ("text after the message", frame("{\"method\":\"x/y\",\"params\":1}]")),
    ]
}
pub fn c16(c: &mut Ctx) {
    let al = pieces_of_session();
    let depth = if c.thorough { 3 } else { 2 };
    c.guard("sessions", |c| scripts(al.len(), depth, &mut |s| {
        let b: Vec<u8> = s.iter().flat_map(|i| al[*i].1.clone()).collect();
        let w = format!("session {:?}", s.iter().map(|i| al[*i].0).collect::<Vec<_>>());
        check_read(c, &w, b.clone(), vec![]);
        if s.len() < 2 || (s[0] * 14 + s[1]) % 3 == 0 && s.len() == 2 { check_stdio(c, &w, &b); }
        !c.done()
    }));
    c.guard("triples", |c| for a in [0, 2, 4, 5, 9, 11] { for b in 0..al.len() {
        let s = [al[a].1.clone(), al[b].1.clone(), al[0].1.clone(), al[2].1.clone()].concat();
        check_read(c, &format!("session {:?}", [al[a].0, al[b].0, "notification", "request"]), s.clone(), vec![1; 30]);
        if a == 0 { check_stdio(c, &format!("session {:?}", [al[a].0, al[b].0, "notification", "request"]), &s); }
        if c.done() { return; }
    } });
    c.guard("many", |c| {
        let mut b = vec![];
        for i in 0..400 + crate::dict::counts(3000).into_iter().max().unwrap_or(0) { b.extend(frame(&format!("{{\"method\":\"n/{i}\",\"params\":[{i}]}}"))); }
        check_read(c, "400 notifications", b.clone(), vec![]);
        check_stdio(c, "400 notifications", &b);
        // every kind of message passes through
        let ms = all_messages();
        let mut b = vec![];
        for m in ms.iter().filter(|m| !matches!(m, Message::Notification(Notification::Exit))) { b.extend(frame(&serde_json::to_string(m).unwrap())); }
        check_read(c, "one message of every kind", b.clone(), vec![]);
        check_stdio(c, "one message of every kind", &b);
        for m in ms.iter().step_by(5) {
            let t = serde_json::to_string(m).unwrap();
            check_read(c, "a message, another one, exit and a third", [frame(&t), frame(MARK), al[1].1.clone(), frame(MARK)].concat(), vec![]);
            if c.done() { return; }
        }
    });
    c.guard("receiver gone", |c| {
        for n in [1, 2] {
            let r = limited(30, move || {
                let (c, t, mut s) = pair();
                drop(c);
                for _ in 0..n { let _ = s.write_all(&frame(MARK)); }
                t.reader.join().map(|r| r.is_err()).map_err(|_| ())
            });
            c.check("a socket reader whose receiver is gone", matches!(r, Some(Ok(Ok(true)))), &format!("{:?} (expected an error result)", r));
        }
        let r = limited(30, || {
            let (c, t, mut s) = pair();
            let _ = s.write_all(&frame(MARK));
            std::thread::sleep(Duration::from_millis(50));
            drop(c);
            t.reader.join().map(|r| r.is_err()).map_err(|_| ())
        });
        c.check("a socket reader whose receiver goes while a message waits", matches!(r, Some(Ok(Ok(true)))), &format!("{:?} (expected an error result)", r));
        let mut p = me("deaf").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let mut i = p.stdin.take().unwrap();
        let _ = i.write_all(&frame(MARK));
        let st = wait(&mut p, 20);
        c.eq("a stdio reader whose receiver is gone (7: error, 9: panic)", st, Some(7));
    });
    c.guard("failing stream", |c| failing_input(c));
    c.guard("stops after exit", |c| {
        // the reader ends although the peer stays connected
        let r = limited(30, || {
            let (c, t, mut s) = pair();
            let _ = s.write_all(&frame("{\"method\":\"build/exit\"}"));
            let m = c.receiver.recv_timeout(T).map(|m| message_parts(&m)).ok();
            let r = t.reader.join().map(|r| r.is_ok()).ok();
            drop(s);
            (m, r)
        });
        c.eq("a socket reader after exit", r, Some(Ok((Some(json!(["notification", ["Exit", null]])), Some(true)))));
    });
}

pub fn c17(c: &mut Ctx) {
    c.guard("join", |c| {
        let kinds = ["ok", "error", "panic"];
        for a in 0..3 { for b in 0..3 { for slow in 0..3 {
            let th = move |k: usize, who: &'static str, slow: bool| std::thread::spawn(move || -> std::io::Result<()> {
                if slow { std::thread::sleep(Duration::from_millis(30)); }
                match k { 0 => Ok(()), 1 => Err(std::io::Error::new(std::io::ErrorKind::Other, who)), _ => std::panic::panic_any(who) }
            });
            let t = IoThreads { reader: th(a, "reader", slow == 1), writer: th(b, "writer", slow == 2) };
            let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.join())) {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(e)) => format!("error of the {e}"),
                Err(_) => "panic".to_string(),
            };
            let want = match (a, b) { (2, _) => "panic", (1, _) => "error of the reader", (0, 2) => "panic", (0, 1) => "error of the writer", _ => "ok" };
            if (a, b) == (1, 2) && got == "panic" { continue; }
            c.eq(&format!("join with the reader ending in {}, the writer in {}", kinds[a], kinds[b]), got, want.to_string());
        } } }
        for kind in [std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::InvalidData, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::Interrupted, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::ConnectionAborted, std::io::ErrorKind::NotConnected, std::io::ErrorKind::TimedOut] {
            for rd in [true, false] {
                let f = move |fail: bool| std::thread::spawn(move || if fail { Err(std::io::Error::new(kind, "x")) } else { Ok(()) });
                let t = IoThreads { reader: f(rd), writer: f(!rd) };
                c.eq(&format!("join with a {:?} of the {}", kind, if rd { "reader" } else { "writer" }), t.join().map_err(|e| e.kind()), Err(kind));
            }
        }
    });
    c.guard("order", |c| {
        for n in [0, 1, 2, 5, 300].into_iter().chain(crate::dict::counts(3000).into_iter().map(|n| n + 3)) { for listen in [false, true] {
            let mut ms: Vec<Message> = (0..n).map(|i| Notification::Custom("n", json!(i)).into()).collect();
            if n == 5 { ms.insert(2, Notification::Exit.into()); ms.insert(1, Request::Shutdown(1.into()).into()); }
            let r = capture(&ms, listen).and_then(|b| frames_of(&b, &ms));
            c.check(&format!("{n} queued messages on a socket"), r.is_ok(), &format!("{:?}", r));
        } }
        for ms in all_messages().chunks(15) {
            let r = capture(ms, false).and_then(|b| frames_of(&b, ms));
            c.check(&format!("messages from {} on a socket", message_parts(&ms[0])), r.is_ok(), &format!("{:?}", r));
            let v: Vec<Value> = ms.iter().map(|m| enc(m)).collect();
            if let Ok(o) = me("writer").env("REPLAY_MESSAGES", Value::Array(v).to_string()).stdin(Stdio::null()).output() {
                let back: Vec<Message> = ms.iter().map(|m| serde_json::from_value(enc(m)).unwrap()).collect();
                let r = frames_of(&o.stdout, &back);
                c.check(&format!("messages from {} on standard output", message_parts(&ms[0])), r.is_ok() && o.status.code() == Some(0), &format!("{:?} {:?}", r, o.status.code()));
            }
            if c.done() { return; }
        }
    });
    c.guard("write failures", |c| write_failures(c, "first write error"));
    c.guard("a passing failure", |c| {
        // a pipe that is full while the first message is written and has room for the others
        let ms = json!([{"method": "x", "params": "y".repeat(90_000)}, {"method": "x", "params": "z"}, {"method": "x", "params": "z"}]);
        let mut p = me("writer").env("REPLAY_MESSAGES", ms.to_string()).env("REPLAY_SPACED", "1").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        std::thread::sleep(Duration::from_millis(500));
        let mut o = p.stdout.take().unwrap();
        let h = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
        let st = wait(&mut p, 20);
        let out = h.join().unwrap();
        // unless everything arrived after all
        let whole = out.len() > 90_000 && out.ends_with(b"}");
        c.check("a writer whose standard output is a pipe that is full for a while (7: error, 0: success)", st == Some(7) || st == Some(0) && whole && out.windows(15).filter(|w| w == b"Content-Length:").count() == 3, &format!("ended with {:?}, {} bytes seen", st, out.len()));
    });
    c.guard("peer gone", |c| {
        // writing to a closed socket fails sooner or later, and then ends the writer with that error
        let r = limited(30, || {
            let (c, t, s) = pair();
            drop(s);
            let t0 = Instant::now();
            let mut refused = false;
            while t0.elapsed() < T && !refused {
                refused = c.sender.send_timeout(Notification::Custom("x", json!("y".repeat(5000))).into(), T).is_err();
            }
            drop(c);
            (refused, t.writer.join().map(|r| r.is_err()).map_err(|_| ()))
        });
        c.eq("a writer whose peer is gone", r, Some(Ok((true, Ok(true)))));
        let r = limited(30, || {
            let mut p = me("writer").env("REPLAY_MESSAGES", json!([{"method": "x", "params": "y"}, {"method": "x", "params": "z"}, {"method": "x", "params": "z"}]).to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            drop(p.stdout.take());
            wait(&mut p, 20)
        });
        c.eq("a writer whose standard output is a closed pipe (7: error, 9: panic)", r, Some(Ok(Some(7))));
    });
}

pub fn c21(c: &mut Ctx) {
    c.guard("memory", |c| {
        for m in all_messages() {
            for flip in [false, true] {
                let (a, b) = Connection::memory();
                let (a, b) = if flip { (b, a) } else { (a, b) };
                let sent = a.send(m.clone()).is_ok() && a.try_send(m.clone()).is_ok();
                let there: Vec<Value> = b.receiver.try_iter().map(|m| message_parts(&m)).collect();
                let here = a.receiver.len();
                c.check(&format!("in memory, {}", message_parts(&m)), sent && here == 0 && there == [message_parts(&m), message_parts(&m)], &format!("other end {:?}, same end {here}", there));
                let both = b.send(m.clone()).is_ok();
                let there: Vec<Value> = a.receiver.try_iter().map(|m| message_parts(&m)).collect();
                c.check(&format!("in memory, backwards, {}", message_parts(&m)), both && b.receiver.is_empty() && there == [message_parts(&m)], &format!("{:?}", there));
                drop(b);
                c.check("in memory, other end gone", a.send(m.clone()).is_err() && a.receiver.try_recv().is_err(), "still connected");
            }
        }
        let (a, b) = Connection::memory();
        for i in 0..5000 { let _ = a.try_send(Notification::Custom("n", json!(i))); let _ = b.try_send(Notification::Custom("m", json!(i))); }
        let f = |c: &Connection| c.receiver.try_iter().map(|m| message_parts(&m)["1"].to_string()).count();
        let (x, y) = (f(&a), f(&b));
        c.eq("in memory, 5000 messages each way", (x, y), (5000, 5000));
        let (a, b) = Connection::memory();
        let (d, e) = Connection::memory();
        let _ = a.send(Notification::Exit);
        c.eq("two in-memory pairs", (b.receiver.len(), d.receiver.len(), e.receiver.len(), a.receiver.len()), (1, 0, 0, 0));
    });
    c.guard("socket", |c| for listen in [false, true] {
        let ms = small();
        let r = limited(60, move || -> Result<(), String> {
            let (cn, t, mut s) = if listen { listening() } else { pair() };
            for (k, m) in ms.iter().enumerate() {
                cn.sender.send_timeout(m.clone(), T).map_err(|e| e.to_string())?;
                let mut buf = vec![];
                let mut one = [0u8; 1];
                while frames_of(&buf, &[m.clone()]).is_err() { if s.read(&mut one).map_err(|e| format!("message {k} is not on the stream: {e}, {}", show(&buf)))? == 0 { return Err("stream closed".into()); } buf.push(one[0]); }
                if !cn.receiver.is_empty() { return Err("what was sent was received on the same end".into()); }
                s.write_all(&frame(&serde_json::to_string(m).unwrap())).map_err(|e| e.to_string())?;
                let got = cn.receiver.recv_timeout(T).map_err(|e| format!("message {k} was not received: {e}"))?;
                if message_parts(&got) != message_parts(m) { return Err(format!("received {}", message_parts(&got))); }
            }
            // the joinable threads are those two
            if t.writer.is_finished() || t.reader.is_finished() { return Err("a thread has ended early".into()); }
            drop(cn.sender);
            let t0 = Instant::now();
            while !t.writer.is_finished() { if t0.elapsed() > T { return Err("the joinable writer does not end with the sending side".into()); } std::thread::sleep(Duration::from_millis(1)); }
            if t.reader.is_finished() { return Err("the reader ended with the writer".into()); }
            s.shutdown(Shutdown::Write).map_err(|e| e.to_string())?;
            let t0 = Instant::now();
            while !t.reader.is_finished() { if t0.elapsed() > T { return Err("the joinable reader does not end with the stream".into()); } std::thread::sleep(Duration::from_millis(1)); }
            t.join().map_err(|e| e.to_string())
        });
        c.check(if listen { "a listening connection" } else { "a connected connection" }, matches!(r, Some(Ok(Ok(())))), &format!("{:?}", r));
    });
    c.guard("errors", |c| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        let r = limited(20, move || Connection::listen(a).is_err());
        c.eq("listen on an address in use", r, Some(Ok(true)));
        drop(l);
        let r = limited(20, move || Connection::connect(a).is_err());
        c.eq("connect where nothing listens", r, Some(Ok(true)));
        for bad in ["127.0.0.1", "127.0.0.1:notaport", ":x", ""] {
            let r = limited(20, move || (Connection::connect(bad).is_err(), Connection::listen(bad).is_err()));
            c.eq(&format!("the address {bad:?}"), r, Some(Ok((true, true))));
        }
    });
    c.guard("stdio", |c| {
        let ms: Vec<Message> = small();
        let mut b: Vec<u8> = ms.iter().flat_map(|m| frame(&serde_json::to_string(m).unwrap())).collect();
        b.extend(frame("{\"method\":\"build/exit\"}"));
        let mut p = me("echo").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let (mut i, mut o) = (p.stdin.take().unwrap(), p.stdout.take().unwrap());
        let h = std::thread::spawn(move || { let _ = i.write_all(&b); std::thread::sleep(Duration::from_millis(200)); });
        let rd = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
        let st = wait(&mut p, 20);
        let _ = h.join();
        let out = rd.join().unwrap();
        let mut all = ms.clone();
        all.push(Notification::Exit.into());
        let r = frames_of(&out, &all);
        c.check("a stdio connection that sends back what it receives", st == Some(0) && r.is_ok(), &format!("{:?} {:?}", st, r));
    });
    let _ = (requests().len(), notifications().len());
}

/// waits for a thread to end
fn ends(h: &std::thread::JoinHandle<std::io::Result<()>>) -> bool {
    let t0 = Instant::now();
    while !h.is_finished() {
        if t0.elapsed() > T { return false; }
        std::thread::sleep(Duration::from_millis(1));
    }
    true
}
static IDLE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn c22(c: &mut Ctx) {
    let exit = || frame("{\"method\":\"build/exit\"}");
    for listen in [false, true] {
        let who = if listen { "a listening connection" } else { "a connected connection" };
        let mut run = |what: &str, f: fn(Connection, IoThreads, TcpStream, Vec<u8>) -> Result<(), String>| {
            if c.done() { return; }
            let e = exit();
            let r = limited(90, move || { let (cn, t, s) = if listen { listening() } else { pair() }; f(cn, t, s, e) });
            let r = match r { Some(Ok(r)) => r, Some(Err(p)) => Err(format!("panic: {p}")), None => Err("not finished after 90 s".into()) };
            c.check(&format!("{who}: {what}"), r.is_ok(), &format!("{:?}", r));
        };
        run("after exit was received and the connection dropped, joining returns although the peer stays connected", |cn, t, mut s, e| {
            let _ = s.write_all(&e);
            cn.receiver.recv_timeout(T).map_err(|e| format!("exit: {e}"))?;
            if !ends(&t.reader) { return Err("the reader does not end".into()); }
            if !matches!(cn.receiver.recv_timeout(T), Err(crossbeam_channel::RecvTimeoutError::Disconnected)) { return Err("receiving after the reader ended waits".into()); }
            drop(cn);
            if !ends(&t.writer) { return Err("the writer does not end".into()); }
            let r = t.join().map_err(|e| e.to_string());
            drop(s);
            r
        });
        run("when the connection is dropped, the writer ends although the reader still waits, and the reader ends when it cannot hand over", |cn, t, mut s, _| {
            drop(cn);
            if !ends(&t.writer) { return Err("the writer does not end".into()); }
            let _ = s.write_all(&frame(MARK));
            if !ends(&t.reader) { return Err("the reader does not end".into()); }
            let _ = t.join();
            Ok(())
        });
        run("when only the sender is dropped, the writer ends, everything received is still delivered", |cn, t, mut s, e| {
            let Connection { sender, receiver } = cn;
            drop(sender);
            if !ends(&t.writer) { return Err("the writer does not end".into()); }
            for _ in 0..5 { let _ = s.write_all(&frame(MARK)); receiver.recv_timeout(T).map_err(|e| format!("a message is not delivered: {e}"))?; }
            let _ = s.write_all(&e);
            receiver.recv_timeout(T).map_err(|e| format!("exit: {e}"))?;
            t.join().map_err(|e| e.to_string())
        });
        run("when the peer stops writing, receiving ends, sending goes on", |cn, t, mut s, _| {
            s.shutdown(Shutdown::Write).map_err(|e| e.to_string())?;
            match cn.receiver.recv_timeout(T) { Err(crossbeam_channel::RecvTimeoutError::Disconnected) => (), x => return Err(format!("{:?}", x.map(|m| message_parts(&m)))) }
            for m in small() {
                cn.sender.send_timeout(m.clone(), T).map_err(|e| e.to_string())?;
                let (mut buf, mut one) = (vec![], [0u8; 1]);
                while frames_of(&buf, &[m.clone()]).is_err() { if s.read(&mut one).map_err(|e| format!("not written: {e}"))? == 0 { return Err("stream closed".into()); } buf.push(one[0]); }
            }
            drop(cn);
            t.join().map_err(|e| e.to_string())
        });
        run("many large messages both ways at once", |cn, t, s, e| {
            const N: usize = 60;
            let (mut w, mut r) = (s.try_clone().unwrap(), s.try_clone().unwrap());
            let big = "x\u{e9}".repeat(40_000);
            let b = frame(&format!("{{\"method\":\"m\",\"params\":\"{big}\"}}"));
            let h1 = std::thread::spawn(move || { for _ in 0..N { if w.write_all(&b).is_err() { return } } let _ = w.write_all(&e); });
            let h2 = std::thread::spawn(move || { let (mut n, mut buf) = (0, [0u8; 65536]); while let Ok(k) = r.read(&mut buf) { n += k; if k == 0 || n >= N * 120_000 { break } } n });
            let Connection { sender, receiver } = cn;
            let h3 = std::thread::spawn(move || { for i in 0..N { if sender.send_timeout(Notification::Custom("n", json!(big)).into(), T).is_err() { return Err(format!("message {i} is not taken")) } } Ok(()) });
            for i in 0..=N { receiver.recv_timeout(T).map_err(|e| format!("message {i} is not delivered: {e}"))?; }
            h3.join().unwrap()?;
            if h2.join().unwrap() < N * 120_000 { return Err("not everything was written".into()); }
            let _ = h1.join();
            drop(receiver);
            t.join().map_err(|e| e.to_string())
        });
        run("each message is delivered when its last byte is there", |cn, t, mut s, e| {
            for body in bodies().into_iter().chain([MARK.to_string(), format!("{{\"method\":\"m\",\"params\":\"{}\"}}", "y".repeat(9000))]) {
                let b = frame(&body);
                if meaning(&b).0.is_empty() || body.contains("build/exit") { continue; }
                let k = b.len() / 2;
                let _ = s.write_all(&b[..k]);
                std::thread::sleep(Duration::from_millis(2));
                let _ = s.write_all(&b[k..]);
                cn.receiver.recv_timeout(T).map_err(|e| format!("{} is not delivered: {e}", show(&b)))?;
            }
            let _ = s.write_all(&e);
            cn.receiver.recv_timeout(T).map_err(|e| format!("exit: {e}"))?;
            drop(cn);
            t.join().map_err(|e| e.to_string())
        });
        let idle = crate::dict::counts(45).into_iter().max().unwrap_or(0);
        let idle = if crate::dict::counts(60_000).is_empty() { 0 } else { idle.max(2) };
        if idle > 0 {
            IDLE.store(idle as u64 + 1, std::sync::atomic::Ordering::SeqCst);
            run("a message after a pause", |cn, t, mut s, e| {
                std::thread::sleep(Duration::from_secs(IDLE.load(std::sync::atomic::Ordering::SeqCst)));
                let _ = s.write_all(&frame(MARK));
                cn.receiver.recv_timeout(T).map_err(|e| format!("not delivered: {e}"))?;
                cn.sender.send_timeout(Notification::Custom("n", json!(1)).into(), T).map_err(|e| format!("not taken: {e}"))?;
                let _ = s.write_all(&e);
                cn.receiver.recv_timeout(T).map_err(|e| format!("exit: {e}"))?;
                drop(cn);
                t.join().map_err(|e| e.to_string())
            });
        }
        run("messages and the exit in one piece, taken slowly", |cn, t, mut s, e| {
            let mut b: Vec<u8> = (0..30).flat_map(|_| frame(MARK)).collect();
            b.extend(e);
            let _ = s.write_all(&b);
            for i in 0..31 {
                cn.receiver.recv_timeout(T).map_err(|e| format!("message {i}: {e}"))?;
                std::thread::sleep(Duration::from_millis(3));
                let _ = cn.sender.send_timeout(Notification::Custom("n", json!(i)).into(), T).map_err(|e| format!("message {i} is not taken: {e}"))?;
            }
            drop(cn);
            t.join().map_err(|e| e.to_string())
        });
    }
    c.guard("stdio", |c| {
        let init = "{\"id\":1,\"method\":\"build/initialize\",\"params\":{\"displayName\":\"d\",\"version\":\"1\",\"bspVersion\":\"2\",\"rootUri\":\"file:///r\",\"capabilities\":{\"languageIds\":[\"rust\"]}}}";
        let early = ["", "{\"id\":9,\"method\":\"a/b\",\"params\":[1]}", "{\"method\":\"n/n\",\"params\":1}"];
        for k in 0..early.len() {
            let mut b: Vec<u8> = early[..=k].iter().filter(|s| !s.is_empty()).flat_map(|s| frame(s)).collect();
            b.extend(frame(init));
            b.extend(frame("{\"method\":\"build/initialized\"}"));
            for _ in 0..20 { b.extend(frame(MARK)); b.extend(frame("{\"id\":2,\"method\":\"workspace/reload\"}")); }
            b.extend(frame("{\"id\":3,\"method\":\"build/shutdown\"}"));
            b.extend(frame("{\"method\":\"build/exit\"}"));
            let mut p = me("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            let (mut i, mut o) = (p.stdin.take().unwrap(), p.stdout.take().unwrap());
            let h = std::thread::spawn(move || { let _ = i.write_all(&b); i });
            let rd = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
            let st = wait(&mut p, 25);
            let _keep = h.join();
            let out = rd.join().unwrap();
            c.check(&format!("a stdio server through a whole session with {k} early messages, its input left open"), st == Some(0), &format!("ended with {:?} (none: not at all), wrote {}", st, show(&out)));
        }
        let mut p = me("mute").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let keep = p.stdin.take();
        drop(p.stdout.take());
        let st = wait(&mut p, 25);
        drop(keep);
        c.eq("sending on a stdio connection whose output is gone (9: waits for ever)", st, Some(0));
        let mut p = me("deaf").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let mut i = p.stdin.take().unwrap();
        let _ = i.write_all(&frame(MARK));
        let st = wait(&mut p, 20);
        c.eq("a stdio reader whose receiver is gone (7: error)", st, Some(7));
    });
    c.guard("prompt", |c| promptly(c, "written without waiting for more"));
    c.guard("memory", |c| {
        let r = limited(30, || {
            let (a, b) = Connection::memory();
            for i in 0..3000 { if a.send(Notification::Custom("n", json!(i))).is_err() || b.send(Notification::Custom("m", json!(i))).is_err() { return false } }
            let Connection { sender, receiver } = a;
            drop(sender);
            let n = b.receiver.iter().count();
            drop(receiver);
            n == 3000 && b.send(Notification::Exit).is_err()
        });
        c.eq("in memory, sending without a receiver at work and ends seen by the other side", r, Some(Ok(true)));
    });
    c.guard("join", |c| for slow in 0..3 {
        let r = limited(30, move || {
            let th = move |ms: u64| std::thread::spawn(move || { std::thread::sleep(Duration::from_millis(ms)); Ok(()) });
            let t0 = Instant::now();
            let t = IoThreads { reader: th(if slow == 1 { 120 } else { 0 }), writer: th(if slow == 2 { 120 } else { 0 }) };
            let r = t.join().is_ok();
            (r, slow == 0 || t0.elapsed() >= Duration::from_millis(115))
        });
        c.eq("joining waits for both threads", r, Some(Ok((true, true))));
    });
}
