//! L01-L04: the real kdl-lsp (its `main`, tower-lsp, the codec) under a simulated runtime, pipe and
//! editor. The script decides every delivery, every poll and every fault; see shims/tokio.
use crate::core::*;
use crate::disk::{damage, snippet, Fault};
use crate::doc::*;
use crate::ensure;
use crate::rng::{fnv, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Id {
    N(i64),
    S(String),
}
impl Id {
    fn v(&self) -> Value {
        match self {
            Id::N(n) => json!(n),
            Id::S(s) => json!(s),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    /// `flavour` 9: invalid parameters.
    Init { id: Id, flavour: u8 },
    Initialized,
    Open { uri: u8, text: String },
    Change { uri: u8, texts: Vec<String> },
    Save { uri: u8, text: Option<String> },
    Close { uri: u8 },
    /// `bad` 0: as it should be; otherwise some kind of invalid parameters.
    Diag { id: Id, uri: u8, bad: u8 },
    Shutdown { id: Id },
    Exit,
    Cancel { id: Id },
    /// A request for something LSP has and this server does not.
    Feature { id: Id, which: u8 },
    /// A method nobody knows; a notification without an id.
    Unknown { id: Option<Id>, which: u8 },
    /// What should be a notification, with an id.
    NotifWithId { id: Id, which: u8 },
    /// What should be a request, without an id; or a harmless known notification.
    Notif { which: u8 },
    /// A document notification whose parameters are wrong.
    BadNotif { which: u8 },
    /// An answer to a question never asked.
    Resp { id: Id, err: bool },
    /// Bytes that are no message; nothing behind them counts.
    Raw(Vec<u8>),
    /// A text too long to write down: `a` n times, opened as document 0.
    OpenRep { a: String, n: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// The rest of the message under way arrives, or the next one.
    Msg,
    Bytes(usize),
    All,
    Run(usize, usize),
    Spurious,
    Room(usize),
    Open,
    Stall,
    Advance(u64),
    Quiesce,
    Close,
    Break,
    ReadErr,
    Kill,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sc {
    pub seed: u64,
    pub in_chunk: usize,
    pub out_chunk: usize,
    pub threaded: bool,
    /// RUST_LOG: off, info, trace
    pub log: u8,
    /// Framing and JSON spelling of every message.
    pub style: u64,
    pub msgs: Vec<Msg>,
    pub plan: Vec<Step>,
}
pub struct Lsp {
    pub id: &'static str,
}

const URIS: &[&str] = &[
    "file:///home/u/a.kdl",
    "file:///home/u/b.kdl",
    "untitled:Untitled-1",
    "file:///home/u/%C3%A4%20%F0%9F%8E%89.kdl",
    "file:///C%3A/x/a.kdl",
    "file:///home/u/a.kdl?v=2#frag",
];
/// Requests of the protocol this server has no use for, and the capability that would announce them.
fn feature(which: u8, uri: &str) -> (&'static str, Value, &'static str) {
    let td = json!({"uri": uri});
    let pos = json!({"line": 0, "character": 0});
    let range = json!({"start": {"line": 0, "character": 0}, "end": {"line": 1, "character": 0}});
    match which % 8 {
        0 => ("textDocument/hover", json!({"textDocument": td, "position": pos}), "hoverProvider"),
        1 => ("textDocument/completion", json!({"textDocument": td, "position": pos}), "completionProvider"),
        2 => ("textDocument/definition", json!({"textDocument": td, "position": pos}), "definitionProvider"),
        3 => ("textDocument/documentSymbol", json!({"textDocument": td}), "documentSymbolProvider"),
        4 => (
            "textDocument/formatting",
            json!({"textDocument": td, "options": {"tabSize": 4, "insertSpaces": true}}),
            "documentFormattingProvider",
        ),
        5 => ("textDocument/codeAction", json!({"textDocument": td, "range": range, "context": {"diagnostics": []}}), "codeActionProvider"),
        6 => ("textDocument/semanticTokens/full", json!({"textDocument": td}), "semanticTokensProvider"),
        _ => ("workspace/symbol", json!({"query": "x"}), "workspaceSymbolProvider"),
    }
}
const UNKNOWN: &[&str] = &["foo/bar", "textDocument/nope", "kdl/format", "", "initialize2", "Shutdown", "$/x", "$/progressX"];
const NOTIFS: &[&str] = &[
    "textDocument/diagnostic",
    "textDocument/hover",
    "workspace/executeCommand",
    "workspace/didChangeConfiguration",
    "workspace/didChangeWatchedFiles",
    "$/setTrace",
    "$/unknownNotification",
    "textDocument/willSave",
    "window/workDoneProgress/cancel",
];

impl Msg {
    fn json(&self, version: i64) -> Option<Value> {
        let u = |x: u8| URIS[x as usize % URIS.len()];
        let req = |id: &Id, m: &str, p: Option<Value>| {
            let mut v = json!({"jsonrpc": "2.0", "id": id.v(), "method": m});
            if let Some(p) = p {
                v["params"] = p;
            }
            v
        };
        let note = |m: &str, p: Option<Value>| {
            let mut v = json!({"jsonrpc": "2.0", "method": m});
            if let Some(p) = p {
                v["params"] = p;
            }
            v
        };
        Some(match self {
            Msg::Init { id, flavour } => {
                let p = match flavour {
                    0 => json!({"capabilities": {}}),
                    1 => json!({"processId": 4711, "rootUri": "file:///home/u", "capabilities": {
                        "general": {"positionEncodings": ["utf-8", "utf-16"]},
                        "textDocument": {"synchronization": {"didSave": true}, "diagnostic": {"dynamicRegistration": true}}},
                        "trace": "verbose", "workspaceFolders": [{"uri": "file:///home/u", "name": "u"}]}),
                    2 => json!({"processId": null, "rootUri": null, "capabilities": {"general": {"positionEncodings": ["utf-16"]}},
                        "clientInfo": {"name": "sim", "version": "1"}, "locale": "en"}),
                    _ => json!({"capabilities": 7}),
                };
                req(id, "initialize", Some(p))
            }
            Msg::Initialized => note("initialized", Some(json!({}))),
            Msg::Open { uri, text } => note(
                "textDocument/didOpen",
                Some(json!({"textDocument": {"uri": u(*uri), "languageId": "kdl", "version": version, "text": text}})),
            ),
            Msg::OpenRep { a, n } => note(
                "textDocument/didOpen",
                Some(json!({"textDocument": {"uri": u(0), "languageId": "kdl", "version": version, "text": a.repeat(*n)}})),
            ),
            Msg::Change { uri, texts } => note(
                "textDocument/didChange",
                Some(json!({"textDocument": {"uri": u(*uri), "version": version},
                    "contentChanges": texts.iter().map(|t| json!({"text": t})).collect::<Vec<_>>()})),
            ),
            Msg::Save { uri, text } => {
                let mut p = json!({"textDocument": {"uri": u(*uri)}});
                if let Some(t) = text {
                    p["text"] = json!(t);
                }
                note("textDocument/didSave", Some(p))
            }
            Msg::Close { uri } => note("textDocument/didClose", Some(json!({"textDocument": {"uri": u(*uri)}}))),
            Msg::Diag { id, uri, bad } => {
                let p = match bad {
                    0 => Some(json!({"textDocument": {"uri": u(*uri)}})),
                    1 => None,
                    2 => Some(json!({"textDocument": {}})),
                    3 => Some(json!({"textDocument": {"uri": 5}})),
                    4 => Some(json!([])),
                    _ => Some(json!({"textDocument": {"uri": "not a uri"}})),
                };
                req(id, "textDocument/diagnostic", p)
            }
            Msg::Shutdown { id } => req(id, "shutdown", None),
            Msg::Exit => note("exit", None),
            Msg::Cancel { id } => note("$/cancelRequest", Some(json!({"id": id.v()}))),
            Msg::Feature { id, which } => {
                let (m, p, _) = feature(*which, u(which / 8));
                req(id, m, Some(p))
            }
            Msg::Unknown { id, which } => {
                let m = UNKNOWN[*which as usize % UNKNOWN.len()];
                let p = (which % 3 > 0).then(|| json!({"x": [1, null, "y"]}));
                match id {
                    Some(id) => req(id, m, p),
                    None => note(m, p),
                }
            }
            Msg::NotifWithId { id, which } => match which % 4 {
                0 => req(id, "textDocument/didOpen", Some(json!({"textDocument": {"uri": u(0), "languageId": "kdl", "version": 0, "text": "not { a change"}}))),
                1 => req(id, "textDocument/didClose", Some(json!({"textDocument": {"uri": u(0)}}))),
                2 => req(id, "initialized", Some(json!({}))),
                _ => req(id, "textDocument/didSave", Some(json!({"textDocument": {"uri": u(0)}, "text": "not { a change"}))),
            },
            Msg::Notif { which } => {
                let m = NOTIFS[*which as usize % NOTIFS.len()];
                let p = match m {
                    "textDocument/diagnostic" => Some(json!({"textDocument": {"uri": u(0)}})),
                    "textDocument/hover" => Some(feature(0, u(0)).1),
                    "workspace/executeCommand" => Some(json!({"command": "x"})),
                    "workspace/didChangeConfiguration" => Some(json!({"settings": {}})),
                    "workspace/didChangeWatchedFiles" => Some(json!({"changes": [{"uri": u(1), "type": 2}]})),
                    "$/setTrace" => Some(json!({"value": "off"})),
                    "textDocument/willSave" => Some(json!({"textDocument": {"uri": u(0)}, "reason": 1})),
                    "window/workDoneProgress/cancel" => Some(json!({"token": 1})),
                    _ => Some(json!({})),
                };
                note(m, p)
            }
            Msg::BadNotif { which } => match which % 6 {
                0 => note("textDocument/didOpen", Some(json!({"textDocument": {"uri": u(0), "text": "bad {"}}))),
                1 => note("textDocument/didChange", Some(json!({"textDocument": {"uri": u(0), "version": 1}}))),
                2 => note("textDocument/didClose", None),
                3 => note("textDocument/didSave", Some(json!({"text": "bad {"}))),
                4 => note("textDocument/didChange", Some(json!({"textDocument": {"uri": u(0), "version": 1}, "contentChanges": [{"txt": "bad {"}]}))),
                _ => note("$/cancelRequest", Some(json!({"idd": 1}))),
            },
            Msg::Resp { id, err } => {
                if *err {
                    json!({"jsonrpc": "2.0", "id": id.v(), "error": {"code": -32603, "message": "no"}})
                } else {
                    json!({"jsonrpc": "2.0", "id": id.v(), "result": null})
                }
            }
            Msg::Raw(_) => return None,
        })
    }
    fn frame(&self, i: usize, style: u64) -> Vec<u8> {
        if let Msg::Raw(b) = self {
            return b.clone();
        }
        let v = self.json(i as i64).unwrap();
        let mut r = Rng::new(style ^ (i as u64) << 32);
        let body = spell(&v, &mut r, style % 3);
        let n = body.len();
        let ct = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
        let h = match (style / 3 + r.below(4) as u64 * (style % 2)) % 6 {
            4 => format!("Content-Length: {n}\r\n{ct}\r\n"),
            5 => format!("{ct}Content-Length: {n}\r\n\r\n"),
            _ => format!("Content-Length: {n}\r\n\r\n"),
        };
        [h.as_bytes(), body.as_bytes()].concat()
    }
    fn name(&self) -> &'static str {
        match self {
            Msg::Init { .. } => "initialize",
            Msg::Initialized => "initialized",
            Msg::Open { .. } | Msg::OpenRep { .. } => "didOpen",
            Msg::Change { .. } => "didChange",
            Msg::Save { .. } => "didSave",
            Msg::Close { .. } => "didClose",
            Msg::Diag { bad: 0, .. } => "diagnostic",
            Msg::Diag { .. } => "diagnostic with bad parameters",
            Msg::Shutdown { .. } => "shutdown",
            Msg::Exit => "exit",
            Msg::Cancel { .. } => "$/cancelRequest",
            Msg::Feature { .. } => "request not served",
            Msg::Unknown { id: Some(_), .. } => "unknown request",
            Msg::Unknown { id: None, .. } => "unknown notification",
            Msg::NotifWithId { .. } => "notification with an id",
            Msg::Notif { .. } => "other notification",
            Msg::BadNotif { .. } => "notification with bad parameters",
            Msg::Resp { .. } => "unasked response",
            Msg::Raw(_) => "malformed bytes",
        }
    }
    fn req_id(&self) -> Option<&Id> {
        match self {
            Msg::Init { id, .. }
            | Msg::Diag { id, .. }
            | Msg::Shutdown { id }
            | Msg::Feature { id, .. }
            | Msg::Unknown { id: Some(id), .. }
            | Msg::NotifWithId { id, .. } => Some(id),
            _ => None,
        }
    }
    fn doc_uri(&self) -> Option<usize> {
        match self {
            Msg::Open { uri, .. } | Msg::Change { uri, .. } | Msg::Save { uri, .. } | Msg::Close { uri } => Some(*uri as usize % URIS.len()),
            Msg::OpenRep { .. } => Some(0),
            _ => None,
        }
    }
}
/// One of the ways to write a JSON value.
fn spell(v: &Value, r: &mut Rng, style: u64) -> String {
    fn st(s: &str, r: &mut Rng, style: u64, o: &mut String) {
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 || (style == 2 && (!c.is_ascii() || r.pct(3))) => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
                c => o.push(c),
            }
        }
        o.push('"');
    }
    fn go(v: &Value, r: &mut Rng, style: u64, o: &mut String) {
        let ws = |r: &mut Rng, o: &mut String| {
            if style > 0 && r.pct(20) {
                o.push_str(["", " ", "\n", "\t", "\r\n  "][r.below(5)]);
            }
        };
        match v {
            Value::Object(m) => {
                o.push('{');
                let mut ks: Vec<&String> = m.keys().collect();
                if style > 0 && r.pct(50) {
                    ks.reverse();
                }
                for (i, k) in ks.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ws(r, o);
                    st(k, r, 0, o);
                    ws(r, o);
                    o.push(':');
                    ws(r, o);
                    go(&m[*k], r, style, o);
                    ws(r, o);
                }
                o.push('}');
            }
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ws(r, o);
                    go(x, r, style, o);
                }
                o.push(']');
            }
            Value::String(s) => st(s, r, style, o),
            x => o.push_str(&x.to_string()),
        }
    }
    let mut o = String::new();
    go(v, r, style, &mut o);
    o
}

// ---------------------------------------------------------------- running

struct Written {
    /// How much input the server had read when the frame's last byte was written.
    read: usize,
    v: Value,
}
#[derive(Default)]
struct Ran {
    out: Vec<Written>,
    /// Frames complete at each `q`, `heal`, `end`; within budget; label
    marks: Vec<(String, bool, usize, usize)>,
    /// Had the process ended when all faults had stopped, its input still open?
    done_at_heal: bool,
    done: bool,
    stuck: bool,
    deadlock: bool,
    /// The clock of branches taken, at each mark; did it run out?
    work: Vec<u64>,
    overwork: bool,
    code: Option<i32>,
    signal: Option<i32>,
    stdout: usize,
    stderr: String,
    /// Bytes behind the last complete frame.
    partial: usize,
    bad_frame: Option<String>,
}
fn memfd(name: &std::ffi::CStr) -> std::fs::File {
    let fd = unsafe { libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "[harness] memfd");
    unsafe { std::fs::File::from_raw_fd(fd) }
}
fn slurp(f: &mut std::fs::File) -> Vec<u8> {
    use std::io::{Read, Seek};
    let mut v = vec![];
    f.rewind().expect("[harness] rewind");
    f.read_to_end(&mut v).expect("[harness] read");
    v
}
fn execute_server(sc: &Sc, script: &str, cx: &mut Ctx) -> Ran {
    use std::io::Seek;
    let mut inp = memfd(c"script");
    inp.write_all(script.as_bytes()).expect("[harness] script");
    inp.rewind().expect("[harness] rewind");
    let (mut log, mut out, mut err) = (memfd(c"log"), memfd(c"out"), memfd(c"err"));
    let mut c = std::process::Command::new(format!("{}/target/debug/lsp-sut", verif_dir()));
    c.env_clear().env("RUST_BACKTRACE", "0").current_dir("/");
    match sc.log {
        0 => {}
        1 => drop(c.env("RUST_LOG", "info")),
        _ => drop(c.env("RUST_LOG", "trace")),
    }
    c.stdin(std::process::Stdio::null());
    let (a, b, o, e) = (inp.as_raw_fd(), log.as_raw_fd(), out.as_raw_fd(), err.as_raw_fd());
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let hi: Vec<i32> = [a, b, o, e].iter().map(|f| libc::fcntl(*f, libc::F_DUPFD_CLOEXEC, 20)).collect();
            for (f, t) in hi.iter().zip([3, 4, 1, 2]) {
                libc::dup2(*f, t);
            }
            Ok(())
        });
    }
    let st = c.spawn().expect("[harness] lsp-sut does not start").wait().expect("[harness] wait");
    let mut r = Ran { code: st.code(), signal: st.signal(), ..Default::default() };
    r.stdout = slurp(&mut out).len();
    r.stderr = String::from_utf8_lossy(&slurp(&mut err)).into_owned();
    let log = String::from_utf8(slurp(&mut log)).expect("[harness] log");
    let mut buf: Vec<u8> = vec![];
    for l in log.lines() {
        cx.log(l);
        let mut w = l.split(' ');
        match w.next().unwrap_or("") {
            "w" => {
                let read: usize = w.next().unwrap().parse().unwrap();
                let h = w.next().unwrap_or("").as_bytes();
                buf.extend(h.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()));
                while r.bad_frame.is_none() {
                    match take_frame(&buf) {
                        Ok(None) => break,
                        Ok(Some((n, v))) => {
                            buf.drain(..n);
                            r.out.push(Written { read, v });
                        }
                        Err(e) => r.bad_frame = Some(e),
                    }
                }
            }
            k @ ("q" | "heal" | "end") => {
                let ok = w.next() == Some("1");
                let polls: usize = w.next().unwrap().parse().unwrap();
                if k == "heal" {
                    r.done_at_heal = l.ends_with(" 1");
                }
                r.marks.push((k.into(), ok, r.out.len(), polls));
            }
            "done" => r.done = true,
            "stuck" => r.stuck = true,
            "deadlock" => r.deadlock = true,
            "work" => r.work.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0)),
            "overwork" => r.overwork = true,
            "event" => cx.count(&format!("fired: {}", &l[6..])),
            _ => {}
        }
    }
    r.partial = buf.len();
    r
}
/// Opens `text` in a server and asks for its problems: the branches the server took for it, how many
/// problems it told and in how many bytes.
pub fn pull_cost(text: &str, cx: &mut Ctx) -> Pull {
    let msgs = vec![
        Msg::Init { id: Id::N(1), flavour: 0 },
        Msg::Initialized,
        Msg::Open { uri: 0, text: text.into() },
        Msg::Diag { id: Id::N(2), uri: 0, bad: 0 },
    ];
    let sc = Sc { seed: 1, in_chunk: 1 << 20, out_chunk: 1 << 20, threaded: false, log: 0, style: 0, msgs, plan: vec![] };
    let frames: Vec<Vec<u8>> = sc.msgs.iter().enumerate().map(|(i, m)| m.frame(i, 0)).collect();
    let hex: String = frames.concat().iter().map(|b| format!("{b:02x}")).collect();
    let (n, all) = (frames[0].len() + frames[1].len(), frames.concat().len());
    let ran = execute_server(&sc, &format!("seed 1\nchunks 1048576 1048576\nthreaded 0\ninput {hex}\nd {n}\nq\nd {}\nq\n", all - n), cx);
    if ran.overwork || ran.signal == Some(libc::SIGXCPU) {
        return Pull::Hang;
    }
    let items = ran.out.iter().find(|w| w.v["id"] == 2 && w.v["result"]["items"].is_array());
    let (Some(items), true) = (items, ran.work.len() >= 2) else {
        cx.log(format!("no report: status {:?} {:?} {}", ran.code, ran.signal, ran.stderr));
        return Pull::None;
    };
    let items = &items.v["result"]["items"];
    Pull::Report { work: ran.work[1] - ran.work[0], items: items.as_array().map_or(0, |a| a.len()), bytes: items.to_string().len() }
}
pub enum Pull {
    Report { work: u64, items: usize, bytes: usize },
    /// The server died of the text, which is another property's matter.
    None,
    Hang,
}
/// The first frame of `b`, strictly.
fn take_frame(b: &[u8]) -> Result<Option<(usize, Value)>, String> {
    let show = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(120)]).into_owned();
    let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else {
        let p = b"Content-Length: ";
        let k = p.len().min(b.len());
        let q = b"Content-Type: ";
        let kq = q.len().min(b.len());
        return if b.len() > 200 || (b[..k] != p[..k] && b[..kq] != q[..kq]) {
            Err(format!("not a frame: {:?}", show(b)))
        } else {
            Ok(None)
        };
    };
    let head = std::str::from_utf8(&b[..h]).map_err(|_| format!("header is not text: {:?}", show(b)))?;
    let mut len = None;
    for l in head.split("\r\n") {
        match l.split_once(": ") {
            Some(("Content-Length", n)) if len.is_none() && n.bytes().all(|c| c.is_ascii_digit()) => len = n.parse::<usize>().ok(),
            Some(("Content-Type", _)) => {}
            _ => return Err(format!("header line {l:?}")),
        }
    }
    let len = len.ok_or_else(|| format!("no length in {head:?}"))?;
    let Some(body) = b.get(h + 4..h + 4 + len) else { return Ok(None) };
    let v: Value = serde_json::from_slice(body).map_err(|e| format!("body is not JSON ({e}): {:?}", show(body)))?;
    let o = v.as_object().ok_or_else(|| format!("body is no message: {v}"))?;
    let bad = || Err(format!("body is no JSON-RPC message: {v}"));
    if o.get("jsonrpc") != Some(&json!("2.0")) {
        return bad();
    }
    if let Some(m) = o.get("method") {
        if !m.is_string()
            || o.contains_key("result")
            || o.contains_key("error")
            || o.get("params").is_some_and(|p| !p.is_object() && !p.is_array())
            || o.keys().any(|k| !matches!(k.as_str(), "jsonrpc" | "method" | "params" | "id"))
        {
            return bad();
        }
    } else {
        if o.contains_key("result") == o.contains_key("error")
            || !o.contains_key("id")
            || o.keys().any(|k| !matches!(k.as_str(), "jsonrpc" | "result" | "error" | "id"))
        {
            return bad();
        }
        if let Some(e) = o.get("error") {
            if !e["code"].is_i64() || !e["message"].is_string() {
                return bad();
            }
        }
    }
    Ok(Some((h + 4 + len, v)))
}

// ---------------------------------------------------------------- what is expected

/// Position by the protocol: lines end at LF, CRLF and CR only; columns are UTF-16 code units.
fn position(t: &str, byte: usize) -> (u64, u64) {
    let byte = byte.min(t.len());
    let (mut line, mut col) = (0, 0);
    let mut prev_cr = false;
    for (i, c) in t.char_indices() {
        if i >= byte {
            // between CR and LF the line has not ended
            if prev_cr && c == '\n' {
                line -= 1;
                col = t[..i].rsplit(['\n', '\r']).nth(1).unwrap_or("").encode_utf16().count() as u64 + 1;
            }
            return (line, col);
        }
        match c {
            '\n' if prev_cr => {}
            '\n' | '\r' => {
                line += 1;
                col = 0;
            }
            c => col += c.len_utf16() as u64,
        }
        prev_cr = c == '\r';
    }
    (line, col)
}
fn expected_items(t: &str) -> Result<Vec<String>, String> {
    match catch(|| t.parse::<kdl::KdlDocument>()) {
        Caught::Ok(Ok(_)) => Ok(vec![]),
        Caught::Ok(Err(e)) => {
            let mut v: Vec<String> = e
                .diagnostics
                .iter()
                .map(|d| {
                    let (a, b) = (position(t, d.span.offset()), position(t, d.span.offset() + d.span.len()));
                    let sev = match d.severity {
                        miette::Severity::Error => 1,
                        miette::Severity::Warning => 2,
                        miette::Severity::Advice => 4,
                    };
                    format!("{}:{}-{}:{} {sev} {d}", a.0, a.1, b.0, b.1)
                })
                .collect();
            v.sort();
            Ok(v)
        }
        Caught::Panic(m) => Err(m),
        Caught::Injected => unreachable!(),
    }
}
fn got_items(v: &Value) -> Option<Vec<String>> {
    let r = &v["result"];
    if r["kind"] != "full" {
        return None;
    }
    let mut out = vec![];
    for i in r["items"].as_array()? {
        let p = |k: &str| Some((i["range"][k]["line"].as_u64()?, i["range"][k]["character"].as_u64()?));
        let (a, b) = (p("start")?, p("end")?);
        out.push(format!("{}:{}-{}:{} {} {}", a.0, a.1, b.0, b.1, i["severity"].as_u64()?, i["message"].as_str()?));
    }
    out.sort();
    Some(out)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Before,
    /// Delivered behind initialize without waiting for its answer.
    During,
    Open,
    Shut,
    Exited,
}
struct Asked {
    /// Index of the message.
    i: usize,
    id: Value,
    end: usize,
    /// Error codes that are right; None: a result is.
    ok: Vec<Option<i64>>,
}
const NOT_INIT: i64 = -32002;
const INVALID_REQ: i64 = -32600;
const UNKNOWN_M: i64 = -32601;
const BAD_PARAMS: i64 = -32602;
const CANCELLED: i64 = -32800;

impl Lsp {
    fn is(&self, ids: &[&str]) -> bool {
        ids.contains(&self.id)
    }
}

impl Prop for Lsp {
    type Sc = Sc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn budget(&self, thorough: bool) -> Budget {
        if thorough {
            Budget { runs: u64::MAX, secs: 700.0 }
        } else {
            Budget { runs: 12_000, secs: 40.0 }
        }
    }
    fn run(&self, sc: &Sc, cx: &mut Ctx) {
        // ---- the script
        let frames: Vec<Vec<u8>> = sc.msgs.iter().enumerate().map(|(i, m)| m.frame(i, sc.style)).collect();
        let mut ends = vec![];
        let mut input: Vec<u8> = vec![];
        for f in &frames {
            input.extend(f);
            ends.push(input.len());
        }
        let mut script = format!("seed {}\nchunks {} {}\nthreaded {}\ninput ", sc.seed, sc.in_chunk.max(1), sc.out_chunk.max(1), sc.threaded as u8);
        for b in &input {
            script.push_str(&format!("{b:02x}"));
        }
        script.push('\n');
        let mut delivered = 0;
        let mut sealed = None; // no byte behind this one can be read
        let mut broken = false;
        let mut killed = false;
        let mut q_at = vec![];
        for s in &sc.plan {
            if killed {
                break;
            }
            let to = match s {
                Step::Msg => ends.iter().copied().find(|e| *e > delivered).unwrap_or(delivered),
                Step::Bytes(n) => (delivered + n).min(input.len()),
                Step::All => input.len(),
                _ => delivered,
            };
            if sealed.is_none() && to > delivered {
                script.push_str(&format!("d {}\n", to - delivered));
                delivered = to;
            }
            match s {
                Step::Msg | Step::Bytes(_) | Step::All => {}
                Step::Run(k, c) => script.push_str(&format!("p {k} {c}\n")),
                Step::Spurious => script.push_str("s\n"),
                Step::Room(n) => script.push_str(&format!("r {n}\n")),
                Step::Open => script.push_str("u\n"),
                Step::Stall => script.push_str("x\n"),
                Step::Advance(ms) => script.push_str(&format!("a {ms}\n")),
                Step::Quiesce => {
                    script.push_str("q\n");
                    q_at.push((delivered, broken));
                }
                Step::Close => {
                    script.push_str("c\n");
                    sealed.get_or_insert(delivered);
                    cx.count("fired: input ends early");
                }
                Step::ReadErr => {
                    script.push_str("e\n");
                    sealed.get_or_insert(delivered);
                    cx.count("fired: input fails");
                }
                Step::Break => {
                    script.push_str("b\n");
                    broken = true;
                    cx.count("fired: output pipe closed");
                }
                Step::Kill => {
                    script.push_str("k\n");
                    killed = true;
                }
            }
            cx.count(match s {
                Step::Bytes(_) => "fired: input split",
                Step::Spurious => "fired: spurious wake-up",
                Step::Stall => "fired: output stall",
                Step::Room(_) => "fired: output trickle",
                Step::Advance(_) => "fired: clock jump",
                Step::Kill => "fired: kill",
                _ => "steps",
            });
        }
        let readable = sealed.unwrap_or(if killed { delivered } else { input.len() });
        for m in &sc.msgs {
            cx.count(&format!("op: {}", m.name()));
        }

        // ---- what should come of it
        let mut asked: Vec<Asked> = vec![];
        let mut docs: Vec<(usize, usize, Option<String>)> = vec![]; // (message, uri, text from then on)
        let mut phase = Phase::Before;
        let mut poison = None;
        let mut after_exit = false;
        let mut vague_docs = false;
        let mut last_init: Option<(usize, bool)> = None; // message, seen answered
        for (i, m) in sc.msgs.iter().enumerate() {
            if poison.is_some() {
                break;
            }
            if phase == Phase::Exited {
                after_exit |= ends[i] <= readable || i == 0 || ends[i - 1] < readable;
                break;
            }
            // was everything up to an initialize worked off before this message came?
            if phase == Phase::During {
                let (li, _) = last_init.unwrap();
                let start = if i == 0 { 0 } else { ends[i - 1] };
                if q_at.iter().any(|(d, _)| *d >= ends[li] && *d <= start) {
                    phase = Phase::Open;
                }
            }
            let mut ask = |id: &Id, ok: Vec<Option<i64>>| asked.push(Asked { i, id: id.v(), end: ends[i], ok });
            let gate = |ok: Option<i64>| match phase {
                Phase::Before => vec![Some(NOT_INIT)],
                Phase::During => vec![Some(NOT_INIT), ok],
                Phase::Open => vec![ok],
                _ => vec![Some(INVALID_REQ)],
            };
            match m {
                Msg::Init { id, flavour } => match phase {
                    Phase::Before if *flavour > 2 => ask(id, vec![Some(BAD_PARAMS)]),
                    Phase::Before => {
                        ask(id, vec![None]);
                        phase = Phase::During;
                        last_init = Some((i, false));
                    }
                    // Sent without waiting for the first one's answer; see known-findings.json
                    Phase::During => ask(id, vec![Some(INVALID_REQ), Some(-1), Some(BAD_PARAMS)]),
                    _ => ask(id, vec![Some(INVALID_REQ)]),
                },
                Msg::Diag { id, bad, .. } => ask(id, gate(if *bad > 0 { Some(BAD_PARAMS) } else { None })),
                Msg::Shutdown { id } => {
                    ask(id, gate(None));
                    match phase {
                        Phase::Open => phase = Phase::Shut,
                        // whether that shuts anything down is anybody's guess
                        Phase::During => return cx.count("not judged: shutdown without waiting for initialize"),
                        _ => {}
                    }
                }
                Msg::Feature { id, .. } => ask(id, gate(Some(UNKNOWN_M))),
                Msg::Unknown { id: Some(id), which } => {
                    let mut ok = gate(Some(UNKNOWN_M));
                    ok.push(Some(UNKNOWN_M));
                    if UNKNOWN[*which as usize % UNKNOWN.len()].starts_with("$/") {
                        ok.push(Some(-2));
                    }
                    ask(id, ok)
                }
                Msg::NotifWithId { id, .. } => {
                    let mut ok = gate(Some(INVALID_REQ));
                    ok.push(Some(INVALID_REQ));
                    ask(id, ok)
                }
                Msg::Open { .. } | Msg::OpenRep { .. } | Msg::Change { .. } | Msg::Save { .. } | Msg::Close { .. } => {
                    vague_docs |= phase == Phase::During;
                    if phase == Phase::Open {
                        let u = m.doc_uri().unwrap();
                        match m {
                            Msg::Open { text, .. } => docs.push((i, u, Some(text.clone()))),
                            Msg::OpenRep { a, n } => docs.push((i, u, Some(a.repeat(*n)))),
                            Msg::Change { texts, .. } => {
                                if let Some(t) = texts.last() {
                                    docs.push((i, u, Some(t.clone())))
                                }
                            }
                            Msg::Save { text, .. } => {
                                if let Some(t) = text {
                                    docs.push((i, u, Some(t.clone())))
                                }
                            }
                            _ => docs.push((i, u, None)),
                        }
                    }
                }
                Msg::Exit => phase = Phase::Exited,
                Msg::Raw(_) => poison = Some(i),
                _ => {}
            }
        }
        let limit = poison.unwrap_or(sc.msgs.len());
        let exit_at = sc.msgs.iter().take(limit).position(|m| matches!(m, Msg::Exit));
        // cancellations and clashes of ids widen what is right
        for k in 0..asked.len() {
            let (i, id) = (asked[k].i, asked[k].id.clone());
            let cancelled = sc.msgs.iter().take(limit).any(|m| matches!(m, Msg::Cancel { id: c } if c.v() == id));
            if cancelled || exit_at.is_some_and(|e| e > i) {
                asked[k].ok.push(Some(CANCELLED));
            }
            if asked.iter().enumerate().any(|(j, a)| j != k && a.id == id) {
                asked[k].ok.push(Some(INVALID_REQ));
            }
        }

        // ---- run
        let ran = execute_server(sc, &script, cx);
        cx.sig(cx.out.log_hash);
        cx.out.nontrivial = ran.out.len() > 1;
        cx.add("simulated polls", ran.marks.iter().map(|m| m.3 as u64).sum());
        if ran.code == Some(97) {
            panic!("[harness] simulator I/O");
        }
        let panicked = ran.code == Some(101);
        let died = panicked || ran.signal.is_some() || ran.deadlock || ran.code.is_none_or(|c| c != 0 && c != 96);
        if ran.signal == Some(libc::SIGXCPU) || ran.overwork {
            return cx.fail("hang", "the server used up its CPU time");
        }
        if died {
            let line = ran.stderr.lines().filter(|l| l.contains("panicked at")).last().unwrap_or("");
            let line = line.split_once(") ").map_or(line, |x| x.1).to_string();
            // the dependency's own panic, and only where it is known to happen
            if panicked && known_site(&line) && (broken || !line.contains("tower-lsp")) {
                cx.count(&format!("listed finding met: {}", line.rsplit('/').next().unwrap()));
                return;
            }
            let how = if let Some(s) = ran.signal {
                format!("died of signal {s}")
            } else if ran.deadlock {
                "waits for a lock nobody will release".into()
            } else {
                format!("ended with status {:?}", ran.code)
            };
            let tail: String = ran.stderr.lines().filter(|l| !l.contains("panicked at")).rev().take(3).collect::<Vec<_>>().join(" | ");
            return cx.fail(
                if ran.signal.is_some() { "abort" } else if ran.deadlock { "deadlock" } else { "panic" },
                format!("the server {how}; {line}; stderr ends: {}", tail.chars().take(300).collect::<String>()),
            );
        }
        // ---- stdout is frames and nothing else
        if self.id == "L01" {
            ensure!(cx, ran.bad_frame.is_none(), "stdout", "{}", ran.bad_frame.unwrap());
            ensure!(cx, ran.stdout == 0, "stdout", "{} bytes written to descriptor 1 behind the server's back", ran.stdout);
            ensure!(cx, broken || killed || ran.partial == 0, "stdout", "output ends inside a frame ({} bytes)", ran.partial);
        } else if ran.bad_frame.is_some() {
            return; // L01's
        }
        // ---- answers
        let mut by_id: BTreeMap<String, Vec<usize>> = BTreeMap::new(); // answers, by id
        for (k, w) in ran.out.iter().enumerate() {
            if w.v.get("method").is_some() {
                cx.count("probe: server notification");
                if self.id == "L01" {
                    ensure!(cx, w.v.get("id").is_none() || !w.v["id"].is_null(), "stdout", "request with a null id: {}", w.v);
                }
                continue;
            }
            by_id.entry(w.v["id"].to_string()).or_default().push(k);
        }
        // every answer belongs to a question that had been read
        for (id, ks) in &by_id {
            let qs: Vec<&Asked> = asked.iter().filter(|a| a.id.to_string() == *id).collect();
            if qs.is_empty() {
                let w = &ran.out[ks[0]];
                let garbage = poison.is_some() || w.v["id"].is_null();
                // behind malformed bytes, or for them
                let fine = garbage && w.v.get("error").is_some() && (poison.is_some() || sealed.is_some() || readable > *ends.last().unwrap_or(&0));
                if self.id == "L01" {
                    ensure!(cx, fine, "unasked answer", "nobody asked: {}", w.v);
                }
                continue;
            }
            if self.is(&["L01", "L04"]) {
                ensure!(cx, ks.len() <= qs.len(), "answered twice", "id {id} was used {} times and answered {} times", qs.len(), ks.len());
            }
            for (n, k) in ks.iter().enumerate() {
                let w = &ran.out[*k];
                if self.id == "L01" {
                    let known = qs.iter().filter(|a| a.end <= w.read).count();
                    ensure!(cx, known > n, "answered too early", "{} was written before the request was read", w.v);
                }
            }
        }
        // all asked is answered once nothing moves any more
        let mut marks = ran.marks.iter();
        for (d, br) in &q_at {
            let Some((k, ok, n, _)) = marks.next() else { break };
            if k != "q" {
                break;
            }
            if *br {
                continue;
            }
            if self.is(&["L01", "L03"]) {
                ensure!(cx, *ok, "no rest", "the server keeps running without end although nothing happens");
                self.all_answered(cx, &asked, &ran, (*d).min(readable), *n, "while its output is read");
            }
            if cx.failed() {
                return;
            }
            cx.count("probe: quiescent point judged");
        }
        let last = ran.out.len();
        if !killed && !broken {
            for (k, ok, n, _) in &ran.marks {
                if k == "q" {
                    continue;
                }
                if self.is(&["L01", "L03"]) {
                    ensure!(cx, *ok, "no rest", "the server keeps running without end although nothing happens ({k})");
                    let when = if k == "heal" { "after all faults had stopped" } else { "at the end of input" };
                    self.all_answered(cx, &asked, &ran, readable, *n, when);
                    if cx.failed() {
                        return;
                    }
                }
            }
            if self.is(&["L01", "L02", "L04"]) {
                self.all_answered(cx, &asked, &ran, readable, last, "to the end");
                if cx.failed() {
                    return;
                }
            }
        }
        if self.id == "L04" && !killed && phase == Phase::Exited && exit_at.is_some_and(|e| ends[e] <= readable) && sealed.is_none() && !after_exit && !broken && !ran.done_at_heal {
            let what = "[exit while input stays open] the process does not end";
            if known_site(what) {
                cx.count("listed finding met");
            } else {
                return cx.fail("no end", what);
            }
        }
        if !killed && self.is(&["L03", "L04"]) && !ran.done {
            if after_exit && known_site("[exit, then more input] the process never ends") {
                cx.count("listed finding met");
            } else {
                ensure!(cx, ran.done, "no end", "the process does not end{}", if after_exit { " [exit, then more input] the process never ends" } else { "" });
            }
        }
        if killed {
            cx.count("probe: killed mid-run");
        }
        // ---- what the answers say
        let mut caps: Option<Value> = None;
        let mut inits = 0;
        for a in &asked {
            let ks = by_id.get(&a.id.to_string()).map(|k| k.as_slice()).unwrap_or(&[]);
            let alone = asked.iter().filter(|b| b.id == a.id).count() == 1;
            let m = &sc.msgs[a.i];
            for k in ks {
                let w = &ran.out[*k];
                let code = w.v.get("error").map(|e| e["code"].as_i64().unwrap_or(0));
                cx.count(&format!("probe: answered {}", code.map(|c| c.to_string()).unwrap_or_else(|| "with a result".into())));
                let mut right = a.ok.contains(&code);
                if !right && code.is_none() && a.ok.contains(&Some(-1)) {
                    let what = "[initialize twice without waiting] both are accepted";
                    if known_site(what) {
                        cx.count("listed finding met");
                        right = true;
                    } else if self.id == "L04" {
                        return cx.fail("lifecycle", format!("{what}: {}", w.v));
                    }
                }
                if alone && !right && self.is(&["L01", "L04"]) {
                    let which = matches!(m, Msg::Init { .. } | Msg::Shutdown { .. }) || code == Some(NOT_INIT) || a.ok.contains(&Some(NOT_INIT)) || a.ok == [Some(INVALID_REQ)];
                    if self.id == "L01" || which || code.is_some() {
                        return cx.fail(
                            if self.id == "L01" { "wrong answer" } else { "lifecycle" },
                            format!("{} (message {}) was answered {}; right would be {:?}", m.name(), a.i, cut(&w.v), a.ok),
                        );
                    }
                }
                if let (Msg::Init { .. }, None, true) = (m, code, alone) {
                    inits += 1;
                    if self.id == "L04" {
                        let c = &w.v["result"]["capabilities"];
                        let s = &c["textDocumentSync"];
                        let full = *s == json!(1) || (s["change"] == json!(1) && s["openClose"] == json!(true));
                        ensure!(cx, full, "capabilities", "full-text synchronisation is not announced: {c}");
                        ensure!(cx, c["diagnosticProvider"].is_object(), "capabilities", "pull diagnostics are not announced: {c}");
                        let enc = &c["positionEncoding"];
                        ensure!(cx, enc.is_null() || enc == "utf-16", "capabilities", "positions are counted in UTF-16, announced is {enc}");
                        caps = Some(c.clone());
                        cx.count("probe: capabilities judged");
                    }
                }
                if let (Msg::Feature { which, .. }, Some(UNKNOWN_M), Some(c)) = (m, code, &caps) {
                    let (name, _, cap) = feature(*which, "");
                    let cv = &c[cap];
                    ensure!(cx, cv.is_null() || *cv == json!(false), "capabilities", "{cap} is announced, {name} is not served");
                }
                if let (Msg::Shutdown { .. }, None) = (m, code) {
                    if self.id == "L04" {
                        ensure!(cx, w.v["result"].is_null(), "lifecycle", "shutdown is answered {}", w.v);
                    }
                }
                if let (Msg::Diag { uri, bad: 0, .. }, true) = (m, alone) {
                    if code.is_some() {
                        if self.id == "L02" && !right {
                            return cx.fail("no report", format!("diagnostics (message {}) failed: {}", a.i, w.v));
                        }
                        continue;
                    }
                    if vague_docs || !self.is(&["L02", "L04"]) {
                        continue;
                    }
                    // every state from just before the request to all that had been read
                    let u = *uri as usize % URIS.len();
                    let mut states: Vec<Option<&str>> = vec![None];
                    for (j, du, t) in &docs {
                        if *du != u || ends[*j] > w.read {
                            continue;
                        }
                        if *j < a.i {
                            states = vec![t.as_deref()];
                        } else {
                            states.push(t.as_deref());
                        }
                    }
                    let mut wanted = vec![];
                    let mut any_known = false;
                    for s in &states {
                        match s.map(expected_items).unwrap_or(Ok(vec![])) {
                            Ok(x) => wanted.push(x),
                            Err(p) if known_site(&p) => any_known = true,
                            Err(p) => return cx.fail("panic", format!("the parser: {p}")),
                        }
                    }
                    let got = got_items(&w.v);
                    cx.count("probe: report judged");
                    if wanted.first().is_some_and(|w| !w.is_empty()) {
                        cx.count("probe: report with problems");
                    }
                    if states.len() > 1 {
                        cx.count("probe: report raced with changes");
                    }
                    let fine = any_known || got.as_ref().is_some_and(|g| wanted.contains(g));
                    ensure!(
                        cx,
                        fine,
                        "wrong report",
                        "diagnostics for {} (message {}) are {:?}; right would be {:?} for text {:?}",
                        URIS[u],
                        a.i,
                        got.map(|g| cut(&json!(g))).unwrap_or_else(|| w.v.to_string()),
                        cut(&json!(wanted)),
                        states
                    );
                }
            }
        }
        if self.id == "L04" && inits > 1 && !asked.iter().any(|a| a.ok.contains(&Some(-1))) {
            cx.fail("lifecycle", format!("initialize was accepted {inits} times"));
        }
    }
    fn gen(&self, r: &mut Rng) -> Sc {
        gen(self.id, r)
    }
    fn shrink(&self, sc: &Sc) -> Vec<Sc> {
        shrink(sc)
    }
    fn rule(&self) -> &'static str {
        "one execution of the real server per run; distinct_nontrivial counts distinct event logs (every \
         read, write, stall, fault and quiescent point in order, with its bytes) among runs in which the \
         server wrote more than one frame"
    }
    fn describe(&self) -> Value {
        json!({
            "real": ["tools/kdl-lsp/src/main.rs, unchanged, as the process's main", "kdl", "tower-lsp (codec, service, cancellation, queues)",
                     "dashmap, ropey, tracing-subscriber", "Rust's allocator and std"],
            "stub": ["tokio's runtime, stdin and stdout (shims/tokio)", "random bytes, clocks and futex waits of the C library",
                     "the editor and both pipes"],
            "faults": ["input split at any byte", "all input at once", "reader stalls, trickles", "bounded write and read sizes",
                       "write accepted but not yet flushed (blocking-thread stdout)", "spurious wake-up", "clock jump",
                       "end of input anywhere", "read error", "closed output pipe", "kill", "malformed bytes", "cancellation",
                       "reused ids", "unasked responses"],
            "simulated_time": "scheduler polls and, where timers exist, simulated milliseconds",
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the server uses one thread's worth of parallelism: tower-lsp runs everything inside one task, and the simulator polls tasks one at a time",
            "the client speaks LSP: documents are changed, saved and closed only while open",
            "what follows malformed bytes is not judged beyond at most one answer per id, no panic and a clean end",
        ]
    }
}
fn cut(v: &Value) -> String {
    v.to_string().chars().take(600).collect()
}
impl Lsp {
    fn all_answered(&self, cx: &mut Ctx, asked: &[Asked], ran: &Ran, readable: usize, n: usize, when: &str) {
        for (k, a) in asked.iter().enumerate() {
            if a.end > readable {
                continue;
            }
            // the k-th use of an id needs that many answers
            let need = asked[..=k].iter().filter(|b| b.id == a.id).count();
            let have = ran.out[..n].iter().filter(|w| w.v.get("method").is_none() && w.v["id"] == a.id).count();
            if have >= need {
                continue;
            }
            if a.ok.contains(&Some(-2)) || asked.iter().any(|b| b.id == a.id && b.ok.contains(&Some(-2))) {
                let what = "[request whose method starts with $/] it is never answered";
                if known_site(what) {
                    cx.count("listed finding met");
                    continue;
                }
                return cx.fail("unanswered", format!("{what}: message {}", a.i));
            }
            return cx.fail("unanswered", format!("request {} (message {}) is not answered {when}; right would be {:?}", a.id, a.i, a.ok));
        }
    }
}

// ---------------------------------------------------------------- generation

fn text(r: &mut Rng, prev: Option<&str>) -> String {
    let mut t = match r.below(12) {
        0 => String::new(),
        1 | 2 => rand_doc(r).1.to_text(),
        3 => (0..r.range(1, 6)).map(|_| snippet(r)).collect(),
        4 | 5 => {
            let mut d = rand_doc(r).1.to_text();
            let n = d.len();
            let fs: Vec<Fault> = (0..r.range(1, 3)).map(|_| Fault::draw(r, n, &mut |r| snippet(r))).collect();
            let mut cx = Ctx::scratch();
            d = String::from_utf8_lossy(&damage(&d, &fs, &mut cx)).into_owned();
            d
        }
        6 | 7 if prev.is_some() => {
            // what an editor sends: the text before, with one place changed
            let p = prev.unwrap();
            let cs: Vec<char> = p.chars().collect();
            let at = r.below(cs.len() + 1);
            let del = r.below(4).min(cs.len() - at);
            let ins: String = (0..r.below(4)).map(|_| ch(r)).collect();
            cs[..at].iter().collect::<String>() + &ins + &cs[at + del..].iter().collect::<String>()
        }
        _ => {
            // lines, some of them wrong, with characters that test position counting
            let nl = [&["\n"][..], &["\r\n"], &["\r"], &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}"]][r.below(4)];
            let mut s = if r.pct(8) { "\u{feff}".to_string() } else { String::new() };
            for _ in 0..r.range(1, 6) {
                for _ in 0..r.below(4) {
                    if r.pct(40) {
                        s.push_str(["node", " ", "\"", "/*", "*/", "ä", "🎉", "e\u{301}", "\u{2028}", "👨‍👩‍👧"][r.below(10)]);
                    }
                }
                s.push_str([
                    "n 1", "n \"ä🎉\" k=", "🎉🎉 =", "n {", "}", "n #x", "a \"unterminated", "é )", "// c 🎉", "n 1 2 }", "n \u{c} )", "k=1",
                    "n\"🎉\"", "/- x", "(t 🎉", "n 1.2.3", "\u{202e}", "n \\ x", "\"\"\"", "n \"\\q\"", "n {;}", "n 0x", "true", "n (t)", "#\"🎉", "a;;b=", 
                ][r.below(26)]);
                s.push_str(nl[r.below(nl.len())]);
            }
            if r.pct(30) {
                s.pop();
            }
            s
        }
    };
    if t.len() > 20_000 {
        t = "n {".into();
    }
    t
}
fn ch(r: &mut Rng) -> char {
    *r.pick(&[
        'a', ' ', '{', '}', '"', '\n', '\r', '=', '(', ')', '#', '/', '\\', ';', '-', '*', '1', '\u{c}', '\u{2028}', '\u{85}', 'é', '🎉', '\u{301}', '\u{feff}', '\t',
        '\u{0}', '\u{10ffff}', '𝒳',
    ])
}
fn gen(prop: &str, r: &mut Rng) -> Sc {
    // one profile per run: few kinds of everything, so that runs differ
    let docs_w = if prop == "L02" { 60 } else { 10 + r.below(50) as u32 };
    let odd_w = if prop == "L02" { 5 } else { r.below(40) as u32 };
    let clash = r.pct(10);
    // the lifecycle's own ids are never reused while in flight
    let life = std::cell::Cell::new(0i64);
    let once = || {
        life.set(life.get() + 1);
        Id::S(format!("life {}", life.get()))
    };
    let mut next = r.below(3) as i64;
    let strings = r.below(3);
    let mut used: Vec<Id> = vec![];
    let mut fresh = |r: &mut Rng, used: &mut Vec<Id>| {
        if clash && !used.is_empty() && r.pct(30) {
            return r.pick(used).clone();
        }
        next += 1;
        let id = match strings {
            0 => Id::N(next),
            1 => Id::S(format!("{next}")),
            _ => {
                if r.pct(50) {
                    Id::N(if r.pct(10) { [i32::MAX as i64, -(next), 0x1_0000_0000 + next][r.below(3)] } else { next })
                } else {
                    Id::S([format!("id-{next}"), format!("🎉{next}"), format!("{next}"), format!("\"{next}\\")][r.below(4)].clone())
                }
            }
        };
        used.push(id.clone());
        id
    };
    let mut msgs = vec![];
    let odd = |r: &mut Rng, msgs: &mut Vec<Msg>, used: &mut Vec<Id>, fresh: &mut dyn FnMut(&mut Rng, &mut Vec<Id>) -> Id| match r.below(12) {
        0 | 1 => msgs.push(Msg::Unknown { id: Some(fresh(r, used)), which: { let n = if r.pct(10) { 8 } else { 6 }; r.below(n) as u8 } }),
        2 => msgs.push(Msg::Unknown { id: None, which: r.below(8) as u8 }),
        3 => msgs.push(Msg::Notif { which: r.below(NOTIFS.len()) as u8 }),
        4 => msgs.push(Msg::BadNotif { which: r.below(6) as u8 }),
        5 => msgs.push(Msg::Resp { id: if used.is_empty() || r.pct(50) { Id::N(r.below(5) as i64) } else { r.pick(used).clone() }, err: r.pct(50) }),
        6 => msgs.push(Msg::NotifWithId { id: fresh(r, used), which: r.below(4) as u8 }),
        7 | 8 => msgs.push(Msg::Feature { id: fresh(r, used), which: r.below(64) as u8 }),
        9 => msgs.push(Msg::Diag { id: fresh(r, used), uri: 0, bad: r.range(1, 5) as u8 }),
        10 => {
            let id = if used.is_empty() { Id::N(3) } else { r.pick(used).clone() };
            msgs.push(Msg::Cancel { id })
        }
        _ => msgs.push(Msg::Init { id: once(), flavour: r.below(3) as u8 }),
    };
    // before initialize
    if r.pct(if prop == "L04" { 40 } else { 15 }) {
        for _ in 0..r.range(1, 3) {
            match r.below(6) {
                0 => msgs.push(Msg::Diag { id: fresh(r, &mut used), uri: 0, bad: 0 }),
                1 => msgs.push(Msg::Shutdown { id: once() }),
                2 => msgs.push(Msg::Open { uri: r.below(2) as u8, text: "early {".into() }),
                3 => msgs.push(Msg::Init { id: once(), flavour: 9 }),
                4 => msgs.push(Msg::Feature { id: fresh(r, &mut used), which: r.below(8) as u8 }),
                _ => msgs.push(Msg::Initialized),
            }
        }
    }
    let mut init_at = None;
    if !r.pct(if prop == "L04" { 8 } else { 2 }) {
        msgs.push(Msg::Init { id: once(), flavour: r.below(3) as u8 });
        init_at = Some(msgs.len());
        if r.pct(90) {
            msgs.push(Msg::Initialized);
        }
    }
    let barrier = !r.pct(if prop == "L02" { 0 } else { 10 });
    let nuri = r.range(1, URIS.len());
    let mut open: BTreeMap<u8, String> = BTreeMap::new();
    let heavy = r.pct(15);
    let n = if heavy { r.range(20, 160) } else { r.range(1, 18) };
    for _ in 0..n {
        let uri = r.below(nuri) as u8;
        if r.pct(odd_w) {
            odd(r, &mut msgs, &mut used, &mut fresh);
        } else if barrier && r.pct(docs_w) {
            let cur = open.get(&uri).cloned();
            match (r.below(10), cur) {
                (_, None) => {
                    let t = text(r, None);
                    open.insert(uri, t.clone());
                    msgs.push(Msg::Open { uri, text: t });
                }
                (0, Some(_)) => {
                    open.remove(&uri);
                    msgs.push(Msg::Close { uri });
                }
                (1 | 2, Some(c)) => {
                    let t = match r.below(4) {
                        0 => None,
                        1 => Some(text(r, Some(&c))),
                        _ => Some(c),
                    };
                    if let Some(t) = &t {
                        open.insert(uri, t.clone());
                    }
                    msgs.push(Msg::Save { uri, text: t });
                }
                (_, Some(c)) => {
                    let k = if r.pct(75) { 1 } else { r.below(4) };
                    let mut texts: Vec<String> = vec![];
                    for _ in 0..k {
                        let t = text(r, Some(texts.last().unwrap_or(&c)));
                        texts.push(t);
                    }
                    if let Some(t) = texts.last() {
                        open.insert(uri, t.clone());
                    }
                    msgs.push(Msg::Change { uri, texts });
                }
            }
            if r.pct(20) {
                let id = fresh(r, &mut used);
                msgs.push(Msg::Diag { id, uri, bad: 0 });
            }
        } else {
            let id = fresh(r, &mut used);
            let cancel = r.pct(if prop == "L02" { 3 } else { 15 });
            msgs.push(Msg::Diag { id: id.clone(), uri, bad: 0 });
            if cancel {
                msgs.push(Msg::Cancel { id });
            }
        }
    }
    // the end
    if r.pct(if prop == "L04" { 70 } else { 25 }) {
        let id = once();
        msgs.push(Msg::Shutdown { id: id.clone() });
        if r.pct(10) {
            msgs.push(Msg::Cancel { id });
        }
        for _ in 0..r.below(4) {
            match r.below(6) {
                0 | 1 => msgs.push(Msg::Diag { id: fresh(r, &mut used), uri: 0, bad: 0 }),
                2 => msgs.push(Msg::Shutdown { id: once() }),
                3 => msgs.push(Msg::Init { id: once(), flavour: r.below(3) as u8 }),
                4 => msgs.push(Msg::Open { uri: 5, text: "late {".into() }),
                _ => msgs.push(Msg::Feature { id: fresh(r, &mut used), which: r.below(8) as u8 }),
            }
        }
        if r.pct(70) {
            msgs.push(Msg::Exit);
        }
    } else if r.pct(10) {
        msgs.push(Msg::Exit);
    } else if r.pct(if prop == "L03" { 15 } else { 5 }) {
        let b: &[u8] = *r.pick(&[
            &b"Content-Length: 5\r\n\r\n{\"a\":"[..],
            b"Content-Length: x\r\n\r\n{}",
            b"Content-Length: 2\r\n\r\n[]",
            b"garbage\r\n\r\n",
            b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"shutdown\"}",
            b"Content-Length: 99999\r\n\r\n{",
            b"Content-Length: 4\r\n\r\n\xff\xfe\xff\xfe",
            b"Content-Type: a/b\r\nContent-Length: 2\r\n\r\n{}",
            b"Content-Type: text/plain; charset=latin1\r\nContent-Length: 2\r\n\r\n{}",
            b"Content-Length: 18446744073709551616\r\n\r\n{}",
            b"\0\0\0\0",
            b"Content-Length: 15\r\n\r\n{\"jsonrpc\":\"1\"}",
            b"\r\n\r\n",
            b"A: b\r\nC: d\r\nE: f\r\n\r\n",
        ]);
        msgs.push(Msg::Raw(b.to_vec()));
        for _ in 0..r.below(3) {
            msgs.push(Msg::Diag { id: fresh(r, &mut used), uri: 0, bad: 0 });
        }
    }

    // ---- schedule
    let mut plan = vec![];
    let init_n = init_at.unwrap_or(0);
    if r.pct(70) {
        plan.push(if r.pct(80) { Step::Open } else { Step::Room(r.below(4000)) });
    }
    for _ in 0..init_n {
        if r.pct(10) {
            plan.push(Step::Bytes(r.range(1, 40)));
            plan.push(Step::Run(1, 0));
        }
        plan.push(Step::Msg);
        if r.pct(50) {
            plan.push(Step::Run(r.range(1, 3), r.below(4)));
        }
    }
    if barrier {
        plan.push(Step::Quiesce);
    }
    let style = r.below(5);
    let stalls = r.pct(50);
    let rest = msgs.len() - init_n.min(msgs.len());
    if style == 0 {
        plan.push(Step::All);
    }
    let steps = rest * 3 + r.below(6);
    for _ in 0..steps.min(400) {
        plan.push(match r.below(100) {
            0..=29 => match style {
                1 => Step::Bytes(r.range(1, 12)),
                2 => Step::Bytes(r.range(1, 400)),
                _ => Step::Msg,
            },
            30..=39 => Step::Bytes(r.range(1, 60)),
            40..=69 => Step::Run(r.range(1, 4), r.below(4)),
            70..=72 => Step::Spurious,
            73..=82 if stalls => Step::Room(r.range(1, 300)),
            83..=86 if stalls => Step::Stall,
            87..=90 if stalls => Step::Open,
            91..=92 => Step::Advance(r.below(100_000) as u64),
            93..=96 => Step::Quiesce,
            _ => Step::Run(1, r.below(4)),
        });
    }
    let faults = match prop {
        "L03" => 45,
        "L04" => 35,
        _ => 15,
    };
    if r.pct(faults) {
        let at = r.range(plan.len() * 2 / 5, plan.len());
        let f = match r.below(10) {
            0..=4 => Step::Close,
            5 | 6 => Step::ReadErr,
            7 | 8 => Step::Break,
            _ => Step::Kill,
        };
        plan.insert(at, f);
    }
    Sc {
        seed: r.u64() >> 1,
        in_chunk: *r.pick(&[1, 3, 17, 4096, usize::MAX >> 1, usize::MAX >> 1]),
        out_chunk: *r.pick(&[1, 5, 64, usize::MAX >> 1, usize::MAX >> 1, usize::MAX >> 1]),
        threaded: r.pct(40),
        log: [0, 0, 1, 2][r.below(4)],
        style: r.below(1000) as u64,
        msgs,
        plan,
    }
}
fn shrink(sc: &Sc) -> Vec<Sc> {
    let mut out = vec![];
    // runs of messages and steps, then single ones
    let mut n = sc.msgs.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i < sc.msgs.len() {
            let mut s = sc.clone();
            s.msgs.drain(i..(i + n).min(s.msgs.len()));
            out.push(s);
            i += n;
        }
        n /= 2;
    }
    let mut n = sc.plan.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i < sc.plan.len() {
            let mut s = sc.clone();
            s.plan.drain(i..(i + n).min(s.plan.len()));
            out.push(s);
            i += n;
        }
        n /= 2;
    }
    let mut push = |f: &dyn Fn(&mut Sc)| {
        let mut s = sc.clone();
        f(&mut s);
        if serde_json::to_string(&s).unwrap() != serde_json::to_string(sc).unwrap() {
            out.push(s);
        }
    };
    push(&|s| s.in_chunk = usize::MAX >> 1);
    push(&|s| s.out_chunk = usize::MAX >> 1);
    push(&|s| s.threaded = false);
    push(&|s| s.log = 0);
    push(&|s| s.style = 0);
    push(&|s| s.seed = 0);
    for i in 0..sc.msgs.len() {
        let mut texts: Vec<String> = vec![];
        match &sc.msgs[i] {
            Msg::Open { text, .. } | Msg::Save { text: Some(text), .. } => texts.push(text.clone()),
            Msg::Change { texts: t, .. } => texts = t.clone(),
            _ => {}
        }
        for (k, t) in texts.iter().enumerate() {
            let cs: Vec<char> = t.chars().collect();
            let mut n = cs.len().div_ceil(2);
            while n >= 1 && cs.len() <= 4000 {
                let mut a = 0;
                while a < cs.len() {
                    let t2: String = cs[..a].iter().chain(&cs[(a + n).min(cs.len())..]).collect();
                    let mut s = sc.clone();
                    match &mut s.msgs[i] {
                        Msg::Open { text, .. } | Msg::Save { text: Some(text), .. } => *text = t2,
                        Msg::Change { texts, .. } => texts[k] = t2,
                        _ => {}
                    }
                    out.push(s);
                    a += n;
                }
                n /= 2;
            }
        }
    }
    let _ = fnv;
    out
}
