//! C14, C15, C16, C19: debugging sessions with ydb over TCP.
//!
//! A case describes programs and a sequence of requests; `Talk` sends them to
//! a running ydb and keeps everything that comes back. The oracles are an
//! in-process simulator driven in step with the session (C14, C15), the same
//! session without its unservable requests (C16), and the same session alone
//! on the server (C19).

use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::ast::{self, Line, Stmt};
use crate::cut::{self, Sim, ARCHS};
use crate::engine::*;
use crate::gen::{self, Prog};
use crate::p_asm::{tool, Scratch};
use crate::p_tester::SPOIL;

// ------------------------------------------------------------------ servers

const LIMITS: [u64; 5] = [50000, 7, 60, 400, 130_000];

struct Server {
    child: Child,
    port: u16,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Server {
    fn start(arch: &str, limit: u64, files: Option<u64>) -> Result<Server, String> {
        Server::start_at(&tool("ydb"), arch, limit, files, None)
    }
    /// `threads`: how many threads the server may have. The limit counts the
    /// threads of a user and binds unprivileged users only: the server runs as
    /// a user of its own.
    fn start_at(ydb: &std::path::Path, arch: &str, limit: u64, files: Option<u64>, threads: Option<u64>) -> Result<Server, String> {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new(ydb);
        if threads.is_some() {
            static USER: AtomicU32 = AtomicU32::new(0);
            let user = 0x20_0000 + std::process::id() % 0x8000 * 0x400 + USER.fetch_add(1, Ordering::Relaxed) % 0x400;
            c.uid(user).gid(user);
        }
        c.args(["-p", "0", "--arch", arch]);
        if limit != LIMITS[0] {
            c.args(["--max-cpu-cycle", &limit.to_string()]);
        }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if let Some(n) = files {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                }
                if let Some(n) = threads {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NPROC, &l);
                }
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| format!("ydb: {e}"))?;
        let mut err = BufReader::new(child.stderr.take().unwrap());
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let (mut seen, mut said) = (String::new(), false);
            loop {
                let mut l = String::new();
                if err.read_line(&mut l).unwrap_or(0) == 0 {
                    break;
                }
                if !said {
                    seen += &l;
                    if let Some(p) = port_in(&l) {
                        said = tx.send(Ok(p)).is_ok();
                    }
                }
            }
            if !said {
                let _ = tx.send(Err(format!("ydb does not start: {seen}")));
            }
        });
        let port = match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(Ok(p)) => p,
            e => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(match e {
                    Ok(Err(e)) => e,
                    _ => "ydb does not say where it listens".into(),
                });
            }
        };
        Ok(Server { child, port })
    }
    fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
}

/// the port in a line that names an address
fn port_in(l: &str) -> Option<u16> {
    l.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == ':')).find_map(|t| {
        let a: std::net::SocketAddr = t.trim_matches('.').parse().ok()?;
        (a.port() != 0).then_some(a.port())
    })
}

/// The main thread starts the servers: they die with the thread that starts
/// them.
static POOL: Mutex<Option<HashMap<(u8, u8), Server>>> = Mutex::new(None);
static LATE: AtomicBool = AtomicBool::new(false);

/// a port where this architecture and limit are served
fn port(arch: u8, limit: u8) -> Result<u16, String> {
    let (arch, limit) = (arch % 3, limit % 5);
    let mut g = POOL.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(s) = m.get_mut(&(arch, limit)) {
        if s.alive() {
            return Ok(s.port);
        }
        m.remove(&(arch, limit));
    }
    // started from a thread that lasts
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(Server::start(ARCHS[arch as usize], LIMITS[limit as usize], None));
        loop {
            std::thread::park();
        }
    });
    let s = rx.recv().unwrap()?;
    let p = s.port;
    m.insert((arch, limit), s);
    Ok(p)
}

/// A server of its own, for one thread.
pub struct Host(Server);
impl Host {
    pub fn start(ydb: &std::path::Path, arch: &str, limit: u64) -> Result<Host, String> {
        Server::start_at(ydb, arch, limit, None, None).map(Host)
    }
    /// one session: the answer to initialize, and to each request with the events after it
    pub fn session(&self, rs: &[(&str, Value)]) -> Result<Vec<(Value, Vec<Value>)>, String> {
        let mut t = Talk::open(self.0.port)?;
        let rs: Vec<Req> = rs.iter().map(|(c, a)| req(c, a.clone(), Want::Threads)).collect();
        converse(&mut t, &rs, &[], 1)
    }
}

pub fn stop_servers() {
    if let Ok(mut g) = POOL.lock() {
        *g = None;
    }
}

// -------------------------------------------------------------------- client

pub struct Talk {
    s: TcpStream,
    buf: Vec<u8>,
    /// how long to rest inside the next message
    rest: Option<Duration>,
}

impl Talk {
    fn open(port: u16) -> Result<Talk, String> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("the server does not accept a connection: {e}"))?;
        let _ = s.set_nodelay(true);
        let wait = if LATE.load(Ordering::Relaxed) { 8 } else { 60 };
        let _ = s.set_read_timeout(Some(Duration::from_secs(wait)));
        let _ = s.set_write_timeout(Some(Duration::from_secs(wait)));
        Ok(Talk { s, buf: vec![], rest: None })
    }
    fn send(&mut self, seq: i64, command: &str, args: &Value, cut: u64) -> Result<(), String> {
        let mut m = json!({"seq": seq, "type": "request", "command": command});
        if !args.is_null() {
            m["arguments"] = args.clone();
        }
        let t = m.to_string();
        let b = format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes();
        let e = |_| format!("the session is closed before '{command}'");
        let rest = self.rest.take();
        if cut % 4 == 1 || rest.is_some() {
            let at = (cut / 4) as usize % b.len();
            self.s.write_all(&b[..at]).map_err(e)?;
            if let Some(d) = rest {
                std::thread::sleep(d);
            }
            self.s.write_all(&b[at..]).map_err(e)
        } else {
            self.s.write_all(&b).map_err(e)
        }
    }
    fn fill(&mut self) -> Result<bool, String> {
        let one: libc::c_int = 1;
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const _, 4);
        }
        let mut b = [0u8; 32768];
        match self.s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(true)
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                LATE.store(true, Ordering::Relaxed);
                Err("no answer".into())
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(true),
            // reset by the other side
            Err(_) => Ok(false),
        }
    }
    /// next message; None: the session was closed
    fn next(&mut self) -> Result<Option<Value>, String> {
        loop {
            let from = self.buf.iter().position(|c| !matches!(c, b'\r' | b'\n')).unwrap_or(self.buf.len());
            if let Some(h) = self.buf[from..].windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&self.buf[from..from + h]).to_string();
                let n = head
                    .lines()
                    .find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").and_then(|n| n.trim().parse::<usize>().ok()))
                    .ok_or_else(|| format!("not a message header: {}", trunc(&head, 200)))?;
                let at = from + h + 4;
                if self.buf.len() >= at + n {
                    let v = serde_json::from_slice(&self.buf[at..at + n]).map_err(|e| format!("not a message: {e}"))?;
                    self.buf.drain(..at + n);
                    return Ok(Some(v));
                }
            }
            if !self.fill()? {
                if self.buf.iter().any(|c| !matches!(c, b'\r' | b'\n')) {
                    return Err("the session ends inside a message".into());
                }
                return Ok(None);
            }
        }
    }
}

// --------------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Src {
    prog: Prog,
    fmt: Vec<u64>,
    nl: u8,
    /// lines without code to put in: (position, kind)
    extra: Vec<(u16, u8)>,
    name: u8,
}

const FILES: [&str; 4] = ["p.ys", "my program.ys", "πρόγραμμα.ys", "noext"];

struct Text {
    src: String,
    image: Vec<u8>,
    addrs: Vec<Option<u64>>,
    path: String,
}

impl Src {
    fn lines(&self) -> Vec<Line> {
        let mut v = self.prog.lines();
        for (i, (at, k)) in self.extra.iter().enumerate() {
            let l = match k % 4 {
                0 => Line { label: None, stmt: Stmt::None },
                1 => Line { label: None, stmt: Stmt::Align(1) },
                2 => Line::label(format!("extra{i}")),
                _ => Line { label: Some(format!("extra{i}")), stmt: Stmt::Align(1) },
            };
            v.insert(*at as usize * (v.len() + 1) / 65536, l);
        }
        v
    }
    fn text(&self, dir: &Scratch, tag: &str) -> Option<Text> {
        let lines = self.lines();
        let a = ast::assemble(&lines).ok()?;
        // programs kept in one file, one after the other
        let tag = if self.name & 0x80 != 0 { "shared" } else { tag };
        let d = dir.0.join(tag);
        std::fs::create_dir_all(&d).ok()?;
        let path = d.join(FILES[self.name as usize % 4]).to_str()?.to_string();
        let src = ast::render(&lines, &self.fmt, self.nl);
        std::fs::write(&path, &src).ok()?;
        Some(Text { src, image: a.image, addrs: a.addrs, path })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// command, thread
    Thread(u8, i64),
    Frame(i64),
    Var(i64),
    /// setBreakpoints for another file, or without a path
    Source(u8),
    NoLines,
    Filter,
    Launch(u8),
    Other(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    /// a line of the program (fraction of its length)
    Line(u16),
    /// a line carrying the address of the k-th line's address again
    Raw(i64),
    /// so many lines behind the last
    Past(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Next,
    Continue,
    Entry,
    Bps(Vec<At>),
    Stack(Option<i64>, Option<i64>),
    Scopes,
    Vars(u8),
    Look,
    Threads,
    NoFilter,
    Launch(u8, Vec<At>),
    /// the file of a program is saved with the program's text
    Save(u8),
    Bad(Bad),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sess {
    progs: Vec<Src>,
    pre: Vec<Op>,
    ops: Vec<Op>,
    /// per request: bit 0 wait for the answer, the rest cuts the message
    how: Vec<u64>,
    seq: i64,
}

/// What a request is expected to do.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Init,
    Threads,
    NoFilter,
    /// program index
    Launch(usize),
    Entry,
    Next,
    Continue,
    /// requested lines
    Bps(Vec<i64>),
    Stack(bool),
    Scopes,
    Vars(usize),
    Fail,
}

#[derive(Clone, Debug)]
struct Req {
    cmd: String,
    args: Value,
    want: Want,
    /// path and text of a file to write just before
    save: Option<(String, String)>,
}

fn req(cmd: &str, args: Value, want: Want) -> Req {
    Req { cmd: cmd.into(), args, want, save: None }
}

const OTHER: [(&str, &str); 34] = [
    ("pause", r#"{"threadId":1}"#),
    ("stepIn", r#"{"threadId":1}"#),
    ("stepOut", r#"{"threadId":1}"#),
    ("stepBack", r#"{"threadId":1}"#),
    ("reverseContinue", r#"{"threadId":1}"#),
    ("evaluate", r#"{"expression":"%rax"}"#),
    ("evaluate", r#"{"expression":"","frameId":1,"context":"repl"}"#),
    ("source", r#"{"sourceReference":1}"#),
    ("attach", r#"{}"#),
    ("restart", r#"{}"#),
    ("terminate", r#"{}"#),
    ("modules", r#"{}"#),
    ("loadedSources", "null"),
    ("setFunctionBreakpoints", r#"{"breakpoints":[{"name":"main"}]}"#),
    ("setInstructionBreakpoints", r#"{"breakpoints":[]}"#),
    ("setDataBreakpoints", r#"{"breakpoints":[]}"#),
    ("dataBreakpointInfo", r#"{"name":"rax"}"#),
    ("exceptionInfo", r#"{"threadId":1}"#),
    ("readMemory", r#"{"memoryReference":"0x0","count":16}"#),
    ("writeMemory", r#"{"memoryReference":"0x0","data":"AAAA"}"#),
    ("disassemble", r#"{"memoryReference":"0x0","instructionCount":10}"#),
    ("goto", r#"{"threadId":1,"targetId":1}"#),
    ("gotoTargets", r#"{"source":{"path":"p.ys"},"line":1}"#),
    ("completions", r#"{"text":"a","column":1}"#),
    ("cancel", r#"{"requestId":1}"#),
    ("breakpointLocations", r#"{"source":{"path":"p.ys"},"line":1}"#),
    ("restartFrame", r#"{"frameId":1}"#),
    ("setVariable", r#"{"variablesReference":1,"name":"rax","value":"5"}"#),
    ("setExpression", r#"{"expression":"%rax","value":"5"}"#),
    ("terminateThreads", r#"{"threadIds":[1]}"#),
    ("stepInTargets", r#"{"frameId":1}"#),
    ("initialize", r#"{"adapterID":"y86"}"#),
    ("modules", r#"{"startModule":0,"moduleCount":1}"#),
    ("cancel", r#"{}"#),
];

fn at_line(a: &At, n: usize) -> i64 {
    match a {
        At::Line(f) => (*f as usize * n / 65536) as i64 + 1,
        At::Raw(l) => *l,
        At::Past(k) => n as i64 + 1 + *k as i64,
    }
}

/// Things every session on an architecture shares: the variable references.
type Refs = Vec<i64>;

struct Scene {
    texts: Vec<Text>,
    refs: Refs,
    dir: Scratch,
}

impl Scene {
    fn bps(&self, p: usize, at: &[At]) -> Req {
        let t = &self.texts[p];
        let lines: Vec<i64> = at.iter().map(|a| at_line(a, t.addrs.len())).collect();
        self.bps_at(p, lines)
    }
    fn bps_at(&self, p: usize, lines: Vec<i64>) -> Req {
        let b: Vec<Value> = lines.iter().map(|l| json!({"line": l})).collect();
        req("setBreakpoints", json!({"source": {"path": self.texts[p].path}, "breakpoints": b}), Want::Bps(lines))
    }
    fn save(&self, k: usize) -> Option<(String, String)> {
        let t = &self.texts[k];
        let shared = self.texts.iter().filter(|u| u.path == t.path).count() > 1;
        shared.then(|| (t.path.clone(), t.src.clone()))
    }
    /// The requests of an operation; `p` is the current program.
    fn requests(&self, op: &Op, p: &mut Option<usize>, out: &mut Vec<Req>) {
        let live = |w: Want| if p.is_some() { w } else { Want::Fail };
        match op {
            Op::Next => out.push(req("next", json!({"threadId": 1}), live(Want::Next))),
            Op::Continue => out.push(req("continue", json!({"threadId": 1}), live(Want::Continue))),
            Op::Entry => out.push(req("configurationDone", Value::Null, live(Want::Entry))),
            Op::Bps(at) => {
                let mut r = self.bps(p.unwrap_or(0), at);
                if p.is_none() {
                    r.want = Want::Fail;
                }
                out.push(r);
            }
            Op::Stack(s, l) => {
                let mut a = json!({"threadId": 1});
                if let Some(s) = s {
                    a["startFrame"] = json!(s);
                }
                if let Some(l) = l {
                    a["levels"] = json!(l);
                }
                let later = s.unwrap_or(0) > 0;
                if later && p.is_none() {
                    // nothing to say about it
                    return;
                }
                out.push(req("stackTrace", a, live(Want::Stack(!later))));
            }
            Op::Scopes => out.push(req("scopes", json!({"frameId": 1}), live(Want::Scopes))),
            Op::Vars(k) => {
                let k = *k as usize % self.refs.len();
                out.push(req("variables", json!({"variablesReference": self.refs[k]}), live(Want::Vars(k))));
            }
            Op::Look => {
                out.push(req("stackTrace", json!({"threadId": 1}), live(Want::Stack(true))));
                out.push(req("scopes", json!({"frameId": 1}), live(Want::Scopes)));
                for (k, r) in self.refs.iter().enumerate() {
                    out.push(req("variables", json!({"variablesReference": r}), live(Want::Vars(k))));
                }
            }
            Op::Threads => out.push(req("threads", Value::Null, Want::Threads)),
            Op::NoFilter => out.push(req("setExceptionBreakpoints", json!({"filters": []}), Want::NoFilter)),
            Op::Launch(k, at) => {
                let k = *k as usize % self.texts.len();
                // breakpoints belong to the file they were set in
                let other = p.is_none_or(|p| self.texts[p].path != self.texts[k].path);
                *p = Some(k);
                out.push(Req { save: self.save(k), ..req("launch", json!({"program": self.texts[k].path}), Want::Launch(k)) });
                if !other || !at.is_empty() {
                    out.push(self.bps(k, at));
                }
            }
            Op::Save(k) => out.push(Req { save: self.save(*k as usize % self.texts.len()), ..req("threads", Value::Null, Want::Threads) }),
            Op::Bad(b) => {
                let path = self.texts[p.unwrap_or(0)].path.clone();
                let file = path.rsplit('/').next().unwrap_or("");
                let (c, a) = match b {
                    Bad::Thread(c, t) => {
                        let t = if *t == 1 { 2 } else { *t };
                        (["next", "continue", "stackTrace"][*c as usize % 3], json!({"threadId": t}))
                    }
                    Bad::Frame(f) => ("scopes", json!({"frameId": if *f == 1 { 0 } else { *f }})),
                    Bad::Var(v) => {
                        let mut v = *v;
                        while self.refs.contains(&v) {
                            v = v.wrapping_add(1000);
                        }
                        ("variables", json!({"variablesReference": v}))
                    }
                    Bad::Source(k) => (
                        "setBreakpoints",
                        match k % 7 {
                            // files of the same name elsewhere
                            4 => json!({"source": {"path": self.dir.0.join("elsewhere").join(file)}, "breakpoints": [{"line": 1}]}),
                            5 => json!({"source": {"path": file}, "breakpoints": [{"line": 1}]}),
                            6 => json!({"source": {"path": self.dir.0, "name": file}, "breakpoints": [{"line": 1}]}),
                            0 => json!({"source": {"path": format!("{path}x")}, "breakpoints": [{"line": 1}]}),
                            1 => json!({"source": {"name": "p.ys"}, "breakpoints": [{"line": 1}]}),
                            2 => json!({"source": {}, "breakpoints": []}),
                            _ => json!({"source": {"path": ""}, "breakpoints": [{"line": 1}, {"line": 2}]}),
                        },
                    ),
                    Bad::NoLines => ("setBreakpoints", json!({"source": {"path": path}})),
                    Bad::Filter => ("setExceptionBreakpoints", json!({"filters": ["all"]})),
                    Bad::Launch(k) => (
                        "launch",
                        match k % 8 {
                            0 => json!({"program": self.dir.0.join("missing.ys")}),
                            1 => json!({"program": self.dir.0}),
                            2 => json!({}),
                            3 => json!({"program": 5}),
                            4 => json!({"program": ""}),
                            5 => json!({"program": self.dir.0.join("binary.ys")}),
                            _ => json!({"program": self.dir.0.join(format!("bad{}.ys", k / 8 % 8))}),
                        },
                    ),
                    Bad::Other(k) => {
                        let (c, a) = OTHER[*k as usize % OTHER.len()];
                        (c, serde_json::from_str(a).unwrap())
                    }
                };
                out.push(req(c, a, Want::Fail));
            }
        }
    }
    /// all requests after initialize
    fn script(&self, s: &Sess) -> Vec<Req> {
        let mut p = None;
        let mut v = vec![];
        for o in &s.pre {
            if !matches!(o, Op::Launch(..)) {
                self.requests(o, &mut p, &mut v);
            }
        }
        for o in &s.ops {
            self.requests(o, &mut p, &mut v);
        }
        v
    }
}

fn scene(s: &Sess, arch: u8, lim: u8) -> Result<Option<Scene>, String> {
    let dir = Scratch::new();
    let mut texts = vec![];
    for (i, p) in s.progs.iter().enumerate() {
        let Some(t) = p.text(&dir, &format!("d{i}")) else { return Ok(None) };
        texts.push(t);
    }
    for (i, b) in SPOIL.iter().enumerate() {
        let _ = std::fs::write(dir.0.join(format!("bad{i}.ys")), format!("halt\n{b}"));
    }
    let _ = std::fs::write(dir.0.join("binary.ys"), [0x68, 0xff, 0xfe, 0x0a]);
    let refs = refs(arch, lim, &texts[0].path)?;
    Ok(Some(Scene { texts, refs, dir }))
}

static REFS: Mutex<Option<HashMap<u8, Refs>>> = Mutex::new(None);

fn refs(arch: u8, lim: u8, path: &str) -> Result<Refs, String> {
    let arch = arch % 3;
    if let Some(r) = REFS.lock().unwrap().get_or_insert_with(HashMap::new).get(&arch) {
        return Ok(r.clone());
    }
    let mut t = Talk::open(port(arch, lim)?)?;
    let rs = [
        req("launch", json!({"program": path}), Want::Launch(0)),
        req("scopes", json!({"frameId": 1}), Want::Scopes),
    ];
    let a = converse(&mut t, &rs, &[], 1)?;
    let r: Refs = a[2].0["body"]["scopes"]
        .as_array()
        .ok_or("no scopes in the answer to scopes")?
        .iter()
        .filter_map(|s| s["variablesReference"].as_i64())
        .collect();
    if r.is_empty() {
        return Err("no scopes in the answer to scopes".into());
    }
    let mut d = r.clone();
    d.sort();
    d.dedup();
    if d.len() != r.len() || d[0] <= 0 {
        return Err(format!("the variable references of the scopes are not distinct and positive: {r:?}"));
    }
    REFS.lock().unwrap().get_or_insert_with(HashMap::new).insert(arch, r.clone());
    Ok(r)
}

/// response and the events after it
type Answer = (Value, Vec<Value>);

/// One session, step by step.
struct Dialog<'a> {
    t: &'a mut Talk,
    asked: Vec<(i64, String, bool)>,
    got: Vec<Answer>,
    seq: i64,
    last: i64,
}

/// Options of the protocol that make no difference here.
fn with_options(cmd: &str, args: &Value, how: u64) -> Value {
    let mut a = args.clone();
    let Some(m) = a.as_object_mut() else { return a };
    let mut h = how >> 40;
    if h & 1 == 0 {
        return a;
    }
    let mut add = |k: &str, v: Value| {
        h >>= 1;
        if h & 1 == 1 && !m.contains_key(k) {
            m.insert(k.into(), v);
        }
    };
    match cmd {
        "next" => {
            add("granularity", json!(["statement", "line", "instruction"][(how >> 50) as usize % 3]));
            add("singleThread", json!(how >> 52 & 1 == 1));
        }
        "continue" => add("singleThread", json!(how >> 52 & 1 == 1)),
        "launch" => {
            add("noDebug", json!(false));
            add("name", json!("Debug"));
            add("type", json!("y86"));
            add("request", json!("launch"));
            add("stopOnEntry", json!(true));
            add("cwd", json!("/"));
        }
        "setBreakpoints" => {
            add("sourceModified", json!(false));
            if let Some(v) = m.get("breakpoints").and_then(|b| b.as_array()).map(|b| b.iter().map(|x| x["line"].clone()).collect::<Vec<_>>()) {
                if how >> 53 & 1 == 1 {
                    m.insert("lines".into(), json!(v));
                }
            }
            if let (1, Some(Value::Array(bs))) = (how >> 52 & 1, m.get_mut("breakpoints")) {
                for b in bs {
                    b["column"] = json!(1);
                }
            }
        }
        "variables" => {
            add("filter", json!("named"));
            add("start", json!(0));
            add("count", json!(0));
            add("format", json!({"hex": true}));
        }
        "stackTrace" => {
            add("format", json!({"line": true, "hex": true}));
            add("startFrame", json!(0));
            add("levels", json!(20));
        }
        _ => {}
    }
    a
}

impl<'a> Dialog<'a> {
    fn new(t: &'a mut Talk, seq: i64) -> Self {
        Dialog { t, asked: vec![], got: vec![], seq, last: 0 }
    }
    fn ask(&mut self, cmd: &str, args: &Value, how: u64, ours: bool) -> Result<(), String> {
        let s = self.seq;
        self.seq = self.seq.wrapping_add(1);
        self.asked.push((s, cmd.to_string(), ours));
        self.t.send(s, cmd, &with_options(cmd, args, how), how)
    }
    fn take(&mut self, m: Value) -> Result<(), String> {
        let n = m["seq"].as_i64().ok_or("a message without sequence number")?;
        if n != self.last + 1 {
            return Err(format!("message {} of the server has sequence number {n}", self.last + 1));
        }
        self.last = n;
        match m["type"].as_str() {
            Some("event") => match self.got.last_mut() {
                Some(a) => a.1.push(m),
                None => return Err("an event before the answer to initialize".into()),
            },
            Some("response") => {
                let Some((s, cmd, _)) = self.asked.get(self.got.len()) else {
                    return Err(format!("an answer too many: {}", trunc(&m.to_string(), 200)));
                };
                if m["request_seq"].as_i64() != Some(*s) {
                    return Err(format!("the answer to '{cmd}' with sequence number {s} is missing; next comes {}", trunc(&m.to_string(), 200)));
                }
                let Some(ok) = m["success"].as_bool() else {
                    return Err(format!("the answer to '{cmd}' does not say whether it was successful"));
                };
                if ok && m["command"].as_str() != Some(cmd) {
                    return Err(format!("the answer to '{cmd}' names the command {}", m["command"]));
                }
                if !ok && m["message"].is_null() {
                    return Err(format!("the failure of '{cmd}' carries no message"));
                }
                self.got.push((m, vec![]));
            }
            _ => return Err(format!("an unknown kind of message: {}", trunc(&m.to_string(), 200))),
        }
        Ok(())
    }
    /// wait for the answers so far; a last request brings up every event
    fn settle(&mut self) -> Result<(), String> {
        self.ask("threads", &Value::Null, 0, true)?;
        while self.got.len() < self.asked.len() {
            let waits = self.asked[self.got.len()].1.clone();
            match self.t.next() {
                Err(e) => return Err(format!("{e} to '{waits}'")),
                Ok(None) => {
                    let k = self.got.len();
                    let before = if self.asked[k].2 && k > 0 && !self.asked[k - 1].2 { self.asked[k - 1].1.clone() } else { waits };
                    return Err(format!("the session is closed at '{before}'"));
                }
                Ok(Some(m)) => self.take(m)?,
            }
        }
        Ok(())
    }
    fn end(&mut self) -> Result<(), String> {
        self.ask("disconnect", &json!({}), 0, true)?;
        while let Some(m) = self.t.next()? {
            self.take(m)?;
        }
        if self.got.len() < self.asked.len() {
            return Err("'disconnect' is not answered".into());
        }
        if self.got.last().unwrap().0["success"] != true {
            return Err("'disconnect' fails".into());
        }
        Ok(())
    }
    /// without our own requests
    fn answers(self) -> Result<Vec<Answer>, String> {
        let mut out: Vec<Answer> = vec![];
        for (a, (_, cmd, ours)) in self.got.into_iter().zip(&self.asked) {
            if *ours {
                if let Some(e) = a.1.first() {
                    return Err(format!("the {} event comes out of the blue, after the answer to '{cmd}'", e["event"]));
                }
            } else {
                out.push(a);
            }
        }
        Ok(out)
    }
}

fn init_args() -> Value {
    json!({"adapterID": "y86", "clientID": "vh", "linesStartAt1": true, "columnsStartAt1": true, "pathFormat": "path"})
}

/// the whole session: initialize, the requests, disconnect
fn converse(t: &mut Talk, rs: &[Req], how: &[u64], seq: i64) -> Result<Vec<Answer>, String> {
    converse_resting(t, rs, how, seq, &|_| None)
}

/// `rest(i)`: how long to do nothing before (true: inside) message i
fn converse_resting(t: &mut Talk, rs: &[Req], how: &[u64], seq: i64, rest: &dyn Fn(usize) -> Option<(bool, Duration)>) -> Result<Vec<Answer>, String> {
    let mut d = Dialog::new(t, seq);
    let doze = |d: &mut Dialog, i: usize| match rest(i) {
        Some((true, x)) => d.t.rest = Some(x),
        Some((false, x)) => std::thread::sleep(x),
        None => {}
    };
    doze(&mut d, 0);
    d.ask("initialize", &init_args(), how.first().copied().unwrap_or(0) >> 1, false)?;
    d.settle()?;
    for (i, r) in rs.iter().enumerate() {
        let h = if how.is_empty() { 1 } else { how[i % how.len()] };
        doze(&mut d, i + 1);
        if r.save.is_some() {
            d.settle()?;
            write(r)?;
        }
        let e = d.ask(&r.cmd, &r.args, h >> 1, false);
        if h & 1 == 1 || e.is_err() {
            d.settle()?;
            e?;
        }
    }
    doze(&mut d, rs.len() + 1);
    d.settle()?;
    d.end()?;
    d.answers()
}

fn write(r: &Req) -> Result<(), String> {
    match &r.save {
        Some((p, t)) => std::fs::write(p, t).map_err(|e| format!("{p}: {e}")),
        None => Ok(()),
    }
}

fn stops(a: &Answer) -> Vec<&Value> {
    a.1.iter().filter(|e| e["event"] == "stopped").collect()
}

/// Success, failure and events each request must have.
fn shape(rs: &[Req], got: &[Answer]) -> Verdict {
    if got[0].0["success"] != true {
        return Err("'initialize' fails".into());
    }
    if got[0].1.iter().filter(|e| e["event"] == "initialized").count() != 1 {
        return Err("the initialized event does not follow the answer to initialize".into());
    }
    for (r, a) in rs.iter().zip(&got[1..]) {
        let ok = a.0["success"] == true;
        let what = || format!("'{}' {}", r.cmd, r.args);
        if r.want == Want::Fail && ok {
            return Err(format!("{} is answered as successful", what()));
        }
        if r.want != Want::Fail && !ok {
            return Err(format!("{} fails: {}", what(), trunc(&a.0["message"].to_string(), 300)));
        }
        let n = stops(a).len();
        let should = matches!(r.want, Want::Next | Want::Continue | Want::Entry) as usize;
        if n != should {
            return Err(format!("{} is followed by {n} stopped events instead of {should}", what()));
        }
        if a.1.iter().any(|e| e["event"] == "initialized") {
            return Err(format!("{} brings another initialized event", what()));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- model

/// the numbers of a stop: program counter, cycle count
pub fn numbers(e: &Value) -> Option<(u64, u64)> {
    let t = e["body"]["text"].as_str()?;
    let mut pc = None;
    let mut n = None;
    for w in t.split(|c: char| !c.is_ascii_alphanumeric()) {
        if let Some(h) = w.strip_prefix("0x") {
            pc = u64::from_str_radix(h, 16).ok();
        } else if let Ok(v) = w.parse() {
            n = Some(v);
        }
    }
    Some((pc?, n?))
}

struct Run {
    sim: Sim,
    p: usize,
    /// verified breakpoints: address, id
    bps: Vec<(u64, i64)>,
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Run,
    View,
}

impl Run {
    fn cycle(&mut self) {
        self.sim.sim.initiate_next_cycle();
        self.sim.sim.propagate_signals();
    }
    fn at(&self) -> String {
        format!("cycle {}, pc {:#x}", self.sim.sim.cycle_count(), self.sim.sim.program_counter())
    }
}

fn walk(sc: &Scene, arch: &str, limit: u64, rs: &[Req], got: &[Answer], focus: Focus, obs: &mut Obs) -> Verdict {
    let mut run: Option<Run> = None;
    let mut trail: Vec<String> = vec![];
    for (r, a) in rs.iter().zip(&got[1..]) {
        trail.push(format!("{} {}", r.cmd, r.args));
        let tell = |m: String, trail: &[String]| Err(format!("{m}\nafter {}", trail.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("; ")));
        if let Want::Launch(k) = r.want {
            run = Some(Run { sim: cut::new_sim(arch, &sc.texts[k].image, false), p: k, bps: vec![] });
            continue;
        }
        let Some(run) = run.as_mut() else { continue };
        let t = &sc.texts[run.p];
        let body = &a.0["body"];
        match &r.want {
            Want::Bps(lines) => {
                let Some(bs) = body["breakpoints"].as_array() else { return tell("no breakpoints in the answer".into(), &trail) };
                if bs.len() != lines.len() {
                    return tell(format!("{} breakpoints in the answer to {} requested", bs.len(), lines.len()), &trail);
                }
                run.bps.clear();
                for (l, b) in lines.iter().zip(bs) {
                    let addr = usize::try_from(*l).ok().filter(|l| *l > 0).and_then(|l| t.addrs.get(l - 1).copied().flatten());
                    if (b["verified"] == true) != addr.is_some() {
                        return tell(format!("the breakpoint on line {l} is {}", if addr.is_some() { "not verified" } else { "verified, though no code is placed there" }), &trail);
                    }
                    if let Some(ad) = addr {
                        let Some(id) = b["id"].as_i64() else { return tell(format!("the breakpoint on line {l} has no id"), &trail) };
                        if b["line"].as_i64() != Some(*l) {
                            return tell(format!("the breakpoint on line {l} is reported on line {}", b["line"]), &trail);
                        }
                        run.bps.push((ad, id));
                        if run.bps.iter().any(|x| x.0 != ad && x.1 == id) {
                            return tell(format!("breakpoints at different addresses share the id {id}"), &trail);
                        }
                    } else {
                        obs.label("unverified breakpoint");
                    }
                }
            }
            Want::Entry => {
                if focus == Focus::Run {
                    let e = stops(a)[0];
                    if e["body"]["reason"] != "entry" {
                        return tell(format!("the stop at the beginning has the reason {}", e["body"]["reason"]), &trail);
                    }
                }
            }
            Want::Next | Want::Continue => {
                let e = stops(a)[0];
                let said = numbers(e);
                let was = run.at();
                if focus == Focus::View {
                    // go where the debugger says it is
                    let Some((_, n)) = said else { return tell("the stop names no program counter and cycle count".into(), &trail) };
                    let now = run.sim.sim.cycle_count();
                    if n < now || n > now.max(limit) + 1 {
                        return tell(format!("the program goes from cycle {now} to cycle {n}"), &trail);
                    }
                    while run.sim.sim.cycle_count() < n {
                        run.cycle();
                    }
                    continue;
                }
                let mut reasons: Vec<&str> = vec![];
                let mut ids: Vec<i64> = vec![];
                if run.sim.sim.is_terminate() {
                    reasons.push("pause");
                    obs.label("asked to go on after the end");
                }
                while reasons.is_empty() {
                    run.cycle();
                    let pc = run.sim.sim.program_counter();
                    ids = run.bps.iter().filter(|b| b.0 == pc).map(|b| b.1).collect();
                    let full = run.sim.sim.cycle_count() >= limit;
                    if !ids.is_empty() {
                        reasons.push("breakpoint");
                        obs.label("breakpoint hit");
                        obs.label_if(r.want == Want::Next, "breakpoint hit by next");
                        obs.label_if(ids.len() > 1, "several breakpoints at one address");
                    } else if r.want == Want::Next {
                        reasons.push("step");
                    } else {
                        if full {
                            reasons.push("step");
                            obs.label("cycle limit reached");
                        }
                        if run.sim.sim.is_terminate() {
                            reasons.push("pause");
                            obs.label("runs to the end");
                        }
                    }
                }
                obs.count("stops compared", 1);
                let (pc, n) = (run.sim.sim.program_counter(), run.sim.sim.cycle_count());
                let reason = e["body"]["reason"].as_str().unwrap_or("");
                if said != Some((pc, n)) {
                    return tell(format!("from {was}: '{}' should stop at cycle {n}, pc {pc:#x} ({}); it stops with {}", r.cmd, reasons.join(" or "), e["body"]), &trail);
                }
                if !reasons.contains(&reason) {
                    return tell(format!("from {was}: the stop at cycle {n}, pc {pc:#x} has the reason '{reason}' instead of {}", reasons.join(" or ")), &trail);
                }
                if e["body"]["threadId"].as_i64() != Some(1) {
                    return tell("the stop does not name the thread".into(), &trail);
                }
                let hit: Vec<i64> = e["body"]["hitBreakpointIds"].as_array().map(|v| v.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default();
                if reason == "breakpoint" {
                    if hit.is_empty() || hit.iter().any(|h| !ids.contains(h)) {
                        return tell(format!("the stop at cycle {n}, pc {pc:#x} names the breakpoints {hit:?}; the ones there are {ids:?}"), &trail);
                    }
                } else if !hit.is_empty() {
                    return tell(format!("the stop at cycle {n}, pc {pc:#x} names the breakpoints {hit:?}, none of which is there"), &trail);
                }
            }
            Want::Threads if focus == Focus::View => {
                let ids: Vec<i64> = body["threads"].as_array().map(|v| v.iter().filter_map(|x| x["id"].as_i64()).collect()).unwrap_or_default();
                if ids != [1] {
                    return tell(format!("the threads are {ids:?}"), &trail);
                }
            }
            Want::Stack(first) if focus == Focus::View => {
                let none = vec![];
                let fs = body["stackFrames"].as_array().unwrap_or(&none);
                if fs.len() != *first as usize {
                    return tell(format!("{} frames at {}", fs.len(), run.at()), &trail);
                }
                if *first {
                    let f = &fs[0];
                    let pc = run.sim.sim.program_counter();
                    let line = f["line"].as_i64().unwrap_or(-1);
                    let placed = t.addrs.contains(&Some(pc));
                    let there = usize::try_from(line).ok().filter(|l| *l > 0).and_then(|l| t.addrs.get(l - 1).copied().flatten());
                    obs.label_if(!placed, "stop where no line is placed");
                    obs.count("source lines compared", 1);
                    if placed && there != Some(pc) {
                        return tell(format!("at {} the source line is given as {line}, which is placed at {there:x?}", run.at()), &trail);
                    }
                    if !placed && there.is_some() {
                        return tell(format!("at {} the source line is given as {line}, which is placed elsewhere ({there:x?}); no line is placed there", run.at()), &trail);
                    }
                    if f["source"]["path"].as_str() != Some(&t.path) {
                        return tell(format!("the source of the frame is {} instead of the launched {}", f["source"]["path"], t.path), &trail);
                    }
                    if f["id"].as_i64() != Some(1) {
                        return tell(format!("the frame has the id {}", f["id"]), &trail);
                    }
                }
            }
            Want::Scopes if focus == Focus::View => {
                let none = vec![];
                let ss = body["scopes"].as_array().unwrap_or(&none);
                let mut names = vec!["Registers".to_string()];
                names.extend(run.sim.sim.get_stage_info().iter().map(|s| s.name.to_string()));
                let got: Vec<String> = ss.iter().map(|s| s["name"].as_str().unwrap_or("").to_string()).collect();
                if got != names {
                    return tell(format!("the scopes are {got:?} instead of {names:?}"), &trail);
                }
                let refs: Vec<i64> = ss.iter().filter_map(|s| s["variablesReference"].as_i64()).collect();
                if refs != sc.refs {
                    return tell(format!("the variable references change from {:?} to {refs:?}", sc.refs), &trail);
                }
                for s in ss {
                    if s["source"]["path"].as_str().is_some_and(|p| p != t.path) || (s["source"].is_object() && s["source"]["path"].is_null()) {
                        return tell(format!("the scope {} names the source {} instead of the launched {}", s["name"], s["source"], t.path), &trail);
                    }
                }
            }
            Want::Vars(k) if focus == Focus::View => {
                let none = vec![];
                let vs: Vec<(String, String)> = body["variables"]
                    .as_array()
                    .unwrap_or(&none)
                    .iter()
                    .map(|v| (v["name"].as_str().unwrap_or("").to_string(), v["value"].as_str().unwrap_or("").to_string()))
                    .collect();
                if *k == 0 {
                    let regs = run.sim.sim.registers();
                    for (i, n) in ast::REGS.iter().enumerate() {
                        let g: Vec<&String> = vs.iter().filter(|v| v.0.trim_start_matches('%').eq_ignore_ascii_case(&n[1..])).map(|v| &v.1).collect();
                        let ok = g.len() == 1 && number(g[0]) == Some(regs[i]);
                        if !ok {
                            return tell(format!("at {}: register {n} is shown as {g:?} instead of {:#x}", run.at(), regs[i]), &trail);
                        }
                    }
                    obs.label_if(regs.iter().any(|r| *r != 0), "registers changed");
                } else {
                    let info = run.sim.sim.get_stage_info();
                    let want = &info[*k - 1].signals;
                    if vs != *want {
                        let d: Vec<String> = want
                            .iter()
                            .enumerate()
                            .filter(|(i, w)| vs.get(*i) != Some(w))
                            .take(4)
                            .map(|(i, w)| format!("{} is shown as {:?} instead of {}", w.0, vs.get(i).map(|v| format!("{}={}", v.0, v.1)), w.1))
                            .collect();
                        return tell(format!("at {}, section {}: {} ({} signals shown, {} there are)", run.at(), info[*k - 1].name, d.join("; "), vs.len(), want.len()), &trail);
                    }
                    obs.count("signals compared", want.len() as u64);
                }
                obs.count("variable views compared", 1);
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn number(s: &str) -> Option<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse::<u64>().ok().or_else(|| s.parse::<i64>().ok().map(|v| v as u64)),
    }
}

// ---------------------------------------------------------------- properties

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    arch: u8,
    limit: u8,
    s: Sess,
}

fn session(sc: &Scene, arch: u8, limit: u8, s: &Sess, rs: &[Req]) -> Result<Vec<Answer>, String> {
    let mut t = Talk::open(port(arch, limit)?)?;
    let g = converse(&mut t, rs, &s.how, s.seq)?;
    let _ = sc;
    Ok(g)
}

fn sources(sc: &Scene) -> String {
    sc.texts.iter().map(|t| t.src.clone()).collect::<Vec<_>>().join("\n----\n")
}

fn note(c: &Case, rs: &[Req], sc: &Scene) -> String {
    let v: Vec<String> = rs.iter().take(40).map(|r| format!("{} {}", r.cmd, r.args)).collect();
    format!("{} limit {}: {}\n{}", ARCHS[c.arch as usize % 3], LIMITS[c.limit as usize % 5], trunc(&v.join("; "), 600), trunc(&sources(sc), 400))
}

fn modelled(c: &Case, obs: &mut Obs, focus: Focus) -> Verdict {
    let Some(sc) = scene(&c.s, c.arch, c.limit)? else {
        obs.label("skipped: layout");
        return Ok(());
    };
    let rs = sc.script(&c.s);
    obs.note = Some(note(c, &rs, &sc));
    obs.nontrivial = rs.iter().any(|r| matches!(r.want, Want::Next | Want::Continue));
    let with = |m: String| format!("{m}\non {} with cycle limit {}\n{}", ARCHS[c.arch as usize % 3], LIMITS[c.limit as usize % 5], sources(&sc));
    let got = session(&sc, c.arch, c.limit, &c.s, &rs).map_err(with)?;
    shape(&rs, &got).map_err(with)?;
    let r = guard(|| walk(&sc, ARCHS[c.arch as usize % 3], LIMITS[c.limit as usize % 5], &rs, &got, focus, obs));
    match r {
        Ok(v) => v.map_err(with),
        // the architecture itself crashes: not the debugger's business
        Err(_) => {
            obs.label("skipped: the simulator crashes");
            Ok(())
        }
    }
}

/// an answer without what legitimately differs between two sessions
fn plain(r: &Req, a: &Answer) -> Value {
    let mut b = a.0["body"].clone();
    if let Want::Bps(lines) = &r.want {
        let v: Vec<Value> = b["breakpoints"].as_array().cloned().unwrap_or_default();
        let _ = lines;
        b["breakpoints"] = Value::Array(v.into_iter().filter(|x| x["verified"] == true).collect());
    }
    let ev: Vec<Value> = a.1.iter().map(|e| json!([e["event"], e["body"]])).collect();
    json!([a.0["success"], b, ev])
}

/// C16: leaving out what cannot be served changes nothing else.
fn harmless(c: &Case, obs: &mut Obs) -> Verdict {
    let Some(sc) = scene(&c.s, c.arch, c.limit)? else {
        obs.label("skipped: layout");
        return Ok(());
    };
    let all = sc.script(&c.s);
    obs.note = Some(note(c, &all, &sc));
    let with = |m: String| format!("{m}\non {} with cycle limit {}\n{}", ARCHS[c.arch as usize % 3], LIMITS[c.limit as usize % 5], sources(&sc));
    let got = session(&sc, c.arch, c.limit, &c.s, &all).map_err(with)?;
    shape(&all, &got).map_err(with)?;
    let mut cur = 0;
    let mut good = vec![];
    let mut keep = vec![];
    let mut bad = 0;
    for (i, r) in all.iter().enumerate() {
        match &r.want {
            Want::Fail => {
                bad += 1;
                continue;
            }
            Want::Launch(k) => cur = *k,
            _ => {}
        }
        keep.push(i);
        if let Want::Bps(lines) = &r.want {
            let ad = &sc.texts[cur].addrs;
            let real = |l: &i64| *l > 0 && ad.get(*l as usize - 1).copied().flatten().is_some();
            let bs = got[i + 1].0["body"]["breakpoints"].as_array().cloned().unwrap_or_default();
            if bs.len() != lines.len() {
                return Err(with(format!("{} breakpoints are answered to {} requested", bs.len(), lines.len())));
            }
            for (l, b) in lines.iter().zip(&bs) {
                if !real(l) && b["verified"] != false {
                    return Err(with(format!("the breakpoint on line {l}, where nothing is placed, is answered as {b}")));
                }
                bad += !real(l) as u64;
            }
            good.push(sc.bps_at(cur, lines.iter().filter(|l| real(l)).cloned().collect()));
        } else {
            good.push(r.clone());
        }
    }
    obs.count("requests that cannot be served", bad);
    obs.nontrivial = bad > 0;
    for b in &all {
        if b.want == Want::Fail {
            obs.label(match b.cmd.as_str() {
                "launch" => "bad launch",
                "setBreakpoints" => "bad setBreakpoints",
                "next" | "continue" => "bad next or continue",
                "stackTrace" => "bad stackTrace",
                "scopes" => "bad scopes",
                "variables" => "bad variables",
                "configurationDone" => "bad configurationDone",
                "initialize" => "second initialize",
                _ => "unsupported command",
            });
        }
    }
    let clean = session(&sc, c.arch, c.limit, &c.s, &good).map_err(with)?;
    shape(&good, &clean).map_err(with)?;
    for ((r, i), b) in good.iter().zip(&keep).zip(&clean[1..]) {
        let (x, y) = (plain(r, &got[i + 1]), plain(r, b));
        if x != y {
            let before: Vec<String> = all[..=*i].iter().rev().take(12).rev().map(|r| format!("{} {}", r.cmd, r.args)).collect();
            return Err(with(format!(
                "the answer to '{} {}' is {}; without the requests that cannot be served it is {}\nafter {}",
                r.cmd,
                r.args,
                trunc(&x.to_string(), 500),
                trunc(&y.to_string(), 500),
                before.join("; ")
            )));
        }
    }
    Ok(())
}

/// Sessions that rest between and inside messages answer as they do without.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Idle {
    case: Case,
    /// where (a fraction of the messages), inside a message, how long
    rests: Vec<(u16, bool, u8)>,
}

const RESTS: [u64; 10] = [300, 1100, 2100, 3300, 6000, 11_000, 16_000, 31_000, 61_000, 123_000];

fn idle(c: &Idle, most: u64) -> Result<Option<u64>, String> {
    let Some(sc) = scene(&c.case.s, c.case.arch, c.case.limit)? else { return Ok(None) };
    let rs = sc.script(&c.case.s);
    let plainly = session(&sc, c.case.arch, c.case.limit, &c.case.s, &rs)?;
    // one rest at a place, all of them together no longer than the longest
    let mut left = most;
    let mut at: HashMap<usize, (bool, Duration)> = HashMap::new();
    for (f, inside, d) in &c.rests {
        let i = *f as usize * (rs.len() + 2) / 65536;
        let ms = RESTS[*d as usize % RESTS.len()].min(left);
        if ms >= RESTS[0] && !at.contains_key(&i) {
            at.insert(i, (*inside, Duration::from_millis(ms)));
            left -= ms;
        }
    }
    let mut t = Talk::open(port(c.case.arch, c.case.limit)?)?;
    let _ = t.s.set_read_timeout(Some(Duration::from_secs(60)));
    let say = |m: String| {
        let w: Vec<String> = at.iter().map(|(i, (n, d))| format!("{} message {i} for {d:?}", if *n { "inside" } else { "before" })).collect();
        format!("{m}\nin a session that rests {}\non {}\n{}", w.join(" and "), ARCHS[c.case.arch as usize % 3], sources(&sc))
    };
    let resting = converse_resting(&mut t, &rs, &c.case.s.how, c.case.s.seq, &|i| at.get(&i).copied()).map_err(say)?;
    shape(&rs, &resting).map_err(say)?;
    for ((r, x), y) in rs.iter().zip(&plainly[1..]).zip(&resting[1..]) {
        let (x, y) = (plain(r, x), plain(r, y));
        if x != y {
            return Err(say(format!("the answer to '{} {}' is {}, without rests {}", r.cmd, r.args, trunc(&y.to_string(), 400), trunc(&x.to_string(), 400))));
        }
    }
    Ok(Some(at.values().map(|(_, d)| d.as_millis() as u64).sum()))
}

/// all at once: they do little else than wait
fn idle_all(cs: &[Idle], most: u64) -> Vec<Result<Option<u64>, String>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = cs.iter().map(|c| s.spawn(move || idle(c, most))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the check crashed".into()))).collect()
    })
}

fn idle_part() -> Box<dyn DynPart> {
    Box::new(Custom {
        name: "idle",
        run: Box::new(|ctx| {
            let most = if ctx.thorough { 400_000 } else { 62_000 };
            let st = (case(2, 2, 2, 8), prop::collection::vec(any::<(u16, bool, u8)>(), 1..5)).prop_map(|(case, rests)| Idle { case, rests });
            let cs = generate(ctx, "idle", st, 160);
            let mut rep = Report { rule: "sessions whose client does nothing for a while, between or inside messages; non-trivial: at least 1 s".into(), ..Default::default() };
            let mut bad: Option<(Idle, String)> = None;
            for (c, r) in cs.iter().zip(idle_all(&cs, most)) {
                rep.evaluations += 1;
                match r {
                    Ok(Some(ms)) => {
                        rep.distinct_nontrivial += (ms >= 1000) as u64;
                        *rep.counts.entry("seconds at rest".into()).or_default() += ms / 1000;
                    }
                    Ok(None) => *rep.labels.entry("skipped: layout".into()).or_default() += 1,
                    Err(m) => bad = bad.or(Some((c.clone(), m))),
                }
            }
            // smaller ones, again all at once
            if let Some((c, _)) = &bad {
                let mut small = vec![];
                for r in &c.rests {
                    for n in [0, 1, 3, c.case.s.ops.len()] {
                        for d in 0..=r.2 % RESTS.len() as u8 {
                            let mut k = c.clone();
                            k.case.s.ops.truncate(n);
                            k.rests = vec![(r.0, r.1, d)];
                            small.push(k);
                        }
                    }
                }
                small.sort_by_key(|k| (k.case.s.ops.len(), k.rests[0].2));
                if let Some((k, Err(m))) = small.iter().zip(idle_all(&small, most)).find(|(_, r)| r.is_err()) {
                    bad = Some((k.clone(), m));
                }
            }
            rep.samples.extend(cs.first().map(|c| json!({"part": "idle", "case": c})));
            rep.failure = bad.map(|(c, m)| (json!(c), m));
            rep
        }),
        replay: Box::new(|v| {
            let c: Idle = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            Ok(idle(&c, u64::MAX).map(|_| ()))
        }),
    })
}

// ----------------------------------------------------------- several sessions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Noise {
    Bytes(Vec<u8>),
    Text(String),
    /// a fraction of a valid session, then gone
    Half(Sess, u16),
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    arch: u8,
    limit: u8,
    s: Vec<Sess>,
    noise: Vec<(u16, Noise, bool)>,
    /// whose turn it is
    turns: Vec<u8>,
    parallel: bool,
}

fn reset(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}

fn disturb(port: u16, n: &Noise, hard: bool, sc: &[Option<Scene>]) -> Result<Option<TcpStream>, String> {
    let t = Talk::open(port)?;
    let mut s = t.s;
    match n {
        Noise::Bytes(b) => {
            let _ = s.write_all(b);
        }
        Noise::Text(b) => {
            let _ = s.write_all(b.as_bytes());
        }
        Noise::Nothing => {}
        Noise::Half(x, f) => {
            let Some(sc) = sc.iter().flatten().next() else { return Ok(None) };
            let mut v = vec![];
            let mut w = |cmd: &str, args: &Value| {
                let mut m = json!({"seq": 1, "type": "request", "command": cmd});
                if !args.is_null() {
                    m["arguments"] = args.clone();
                }
                let t = m.to_string();
                v.extend(format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes());
            };
            w("initialize", &init_args());
            for r in sc.script(&Sess { progs: vec![], ..x.clone() }) {
                w(&r.cmd, &r.args);
            }
            v.truncate(*f as usize * v.len() / 65536);
            let _ = s.write_all(&v);
        }
    }
    if hard {
        reset(&s);
        return Ok(None);
    }
    Ok(Some(s))
}

fn together(c: &Many, obs: &mut Obs) -> Verdict {
    beside(c, None, obs)
}

/// Sessions beside others whose programs run on and on.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Busy {
    many: Many,
    /// what the running sessions do besides
    runs: Vec<u8>,
}

const NEVER: u64 = u64::MAX;

fn busy(c: &Busy, obs: &mut Obs) -> Verdict {
    beside(&c.many, Some(&c.runs), obs)
}

/// a session whose program runs; the connection
fn runner(port: u16, k: u8) -> Result<Option<TcpStream>, String> {
    const ENDLESS: [&str; 3] = ["l: jmp l\n", "irmovq $1, %rax\nl: addq %rax, %rbx\njmp l\nhalt\n", "irmovq $0x800, %rsp\nf: pushq %rax\npopq %rbx\njmp f\n"];
    let dir = Scratch::new();
    let f = dir.0.join("p.ys");
    std::fs::write(&f, ENDLESS[k as usize % 3]).map_err(|e| e.to_string())?;
    let mut t = Talk::open(port)?;
    let rs: [(&str, Value); 4] = [
        ("initialize", init_args()),
        ("launch", json!({"program": f})),
        ("configurationDone", Value::Null),
        ("continue", json!({"threadId": 1})),
    ];
    for (i, (cmd, args)) in rs.iter().enumerate() {
        t.send(i as i64 + 1, cmd, args, 0)?;
        loop {
            let m = t.next()?.ok_or_else(|| format!("the session is closed at '{cmd}'"))?;
            if m["type"] == "response" {
                if m["success"] != true {
                    return Err(format!("'{cmd}' fails: {m}"));
                }
                break;
            }
        }
    }
    if k & 8 != 0 {
        // never read while it runs
        for i in 5..9 {
            t.send(i, "next", &json!({"threadId": 1}), 0)?;
        }
    }
    if k & 16 != 0 {
        reset(&t.s);
        return Ok(None);
    }
    Ok(Some(t.s))
}

/// Ctrl+C, whatever the sessions do.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Quit {
    arch: u8,
    /// sessions whose program runs
    runs: Vec<u8>,
    /// sessions that rest at a stop, or wait with part of a request sent
    rest: Vec<(bool, u16)>,
    noise: Vec<Noise>,
    pause: u8,
    /// all clients leave first
    leave: bool,
}

fn quit(c: &Quit, obs: &mut Obs) -> Verdict {
    obs.nontrivial = !c.leave;
    obs.label_if(!c.runs.is_empty(), "programs run");
    obs.label_if(!c.rest.is_empty(), "sessions rest");
    obs.label_if(c.rest.iter().any(|r| r.0), "part of a request is sent");
    obs.label_if(!c.noise.is_empty(), "with disturbing sessions");
    obs.label_if(c.leave, "all clients gone");
    let mut server = match Server::start(ARCHS[c.arch as usize % 3], NEVER, None) {
        Ok(s) => s,
        Err(e) => return Err(e),
    };
    let dir = Scratch::new();
    let f = dir.0.join("p.ys");
    std::fs::write(&f, "irmovq $1, %rax\nirmovq $2, %rbx\nhalt\n").map_err(|e| e.to_string())?;
    let mut held = vec![];
    // one that got an answer: the server has begun to serve
    for (k, (part, at)) in std::iter::once(&(false, 0)).chain(&c.rest).enumerate() {
        let mut t = Talk::open(server.port)?;
        let rs = [("initialize", init_args()), ("launch", json!({"program": f})), ("configurationDone", Value::Null), ("next", json!({"threadId": 1}))];
        let n = if k == 0 { 1 } else { 1 + *at as usize % 4 };
        for (i, (cmd, args)) in rs.iter().take(n).enumerate() {
            t.send(i as i64 + 1, cmd, args, 0)?;
            loop {
                let m = t.next()?.ok_or_else(|| format!("the session is closed at '{cmd}'"))?;
                if m["type"] == "response" {
                    break;
                }
            }
        }
        if *part {
            let m = "Content-Length: 51\r\n\r\n{\"seq\":9,\"type\":\"request\",\"command\":\"threads\"}   ";
            let _ = t.s.write_all(&m.as_bytes()[..1 + *at as usize % (m.len() - 2)]);
        }
        held.push(t.s);
    }
    for k in &c.runs {
        held.extend(runner(server.port, *k)?);
    }
    for n in &c.noise {
        if let Ok(mut s) = TcpStream::connect(("127.0.0.1", server.port)) {
            match n {
                Noise::Bytes(b) => drop(s.write_all(b)),
                Noise::Text(t) => drop(s.write_all(t.as_bytes())),
                _ => {}
            }
            held.push(s);
        }
    }
    if c.leave {
        held.clear();
    }
    std::thread::sleep(Duration::from_millis(c.pause as u64 % 32));
    if !server.alive() {
        return Err("the server is gone before it was asked to end".into());
    }
    unsafe { libc::kill(server.child.id() as i32, libc::SIGINT) };
    let t0 = std::time::Instant::now();
    loop {
        match server.child.try_wait() {
            Ok(Some(st)) if st.code() == Some(0) => return Ok(()),
            Ok(Some(st)) => return Err(format!("Ctrl+C ends the server with {st}, expected success")),
            _ if t0.elapsed().as_secs() >= if LATE.load(Ordering::Relaxed) { 8 } else { 60 } => {
                LATE.store(true, Ordering::Relaxed);
                return Err("the server does not end on Ctrl+C".into());
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

fn beside(c: &Many, runs: Option<&[u8]>, obs: &mut Obs) -> Verdict {
    let limit = if runs.is_some() { NEVER } else { LIMITS[c.limit as usize % 5] };
    let mut scs = vec![];
    for s in &c.s {
        scs.push(scene(s, c.arch, c.limit)?);
    }
    if scs.iter().any(|s| s.is_none()) {
        obs.label("skipped: layout");
        return Ok(());
    }
    if runs.is_some() {
        // here nothing else ends what does not end by itself
        for t in scs.iter().flatten().flat_map(|s| &s.texts) {
            if !crate::p_arch::run_arch(ARCHS[c.arch as usize % 3], &t.image, 20_000).is_ok_and(|e| e.done) {
                obs.label("skipped: does not end");
                return Ok(());
            }
        }
    }
    let scs: Vec<Option<Scene>> = scs;
    let scripts: Vec<Vec<Req>> = scs.iter().zip(&c.s).map(|(sc, s)| sc.as_ref().unwrap().script(s)).collect();
    obs.nontrivial = c.s.len() > 1;
    obs.label(match c.s.len() {
        2 => "two sessions",
        3 => "three sessions",
        _ => "four sessions",
    });
    obs.label_if(!c.noise.is_empty(), "with disturbing sessions");
    obs.label(if c.parallel { "parallel" } else { "interleaved" });
    let all = || {
        scripts
            .iter()
            .zip(&scs)
            .map(|(rs, sc)| format!("{}\n{}", rs.iter().map(|r| format!("{} {}", r.cmd, r.args)).collect::<Vec<_>>().join("; "), sources(sc.as_ref().unwrap())))
            .collect::<Vec<_>>()
            .join("\n====\n")
    };
    obs.note = Some(trunc(&all(), 800));
    let with = |m: String| format!("{m}\non {} with cycle limit {}\n{}", ARCHS[c.arch as usize % 3], limit, all());
    // alone, on a server nobody else ever uses
    let mut alone = vec![];
    for ((rs, s), sc) in scripts.iter().zip(&c.s).zip(&scs) {
        let _ = sc;
        let f = Server::start(ARCHS[c.arch as usize % 3], limit, None)?;
        let mut t = Talk::open(f.port)?;
        alone.push(converse(&mut t, rs, &s.how, s.seq).map_err(with)?);
    }
    let mut held = vec![];
    let mut own = None;
    let p = match runs {
        None => port(c.arch, c.limit)?,
        Some(runs) => {
            let f = Server::start(ARCHS[c.arch as usize % 3], limit, None)?;
            let p = f.port;
            own = Some(f);
            for k in runs {
                held.extend(runner(p, *k).map_err(|e| with(format!("a session that only runs an endless program: {e}")))?);
            }
            std::thread::sleep(Duration::from_millis(2));
            obs.label("beside running sessions");
            p
        }
    };
    let got: Vec<Vec<Answer>> = if c.parallel {
        std::thread::scope(|sp| {
            let hs: Vec<_> = scripts
                .iter()
                .zip(&c.s)
                .map(|(rs, s)| {
                    sp.spawn(move || {
                        let mut t = Talk::open(p)?;
                        converse(&mut t, rs, &s.how, s.seq)
                    })
                })
                .collect();
            for (_, n, hard) in &c.noise {
                match disturb(p, n, *hard, &scs) {
                    Ok(x) => held.extend(x),
                    Err(e) => return Err(e),
                }
            }
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("client thread".into()))).collect::<Result<Vec<_>, String>>()
        })
        .map_err(with)?
    } else {
        let mut talks: Vec<Talk> = vec![];
        for _ in &c.s {
            talks.push(Talk::open(p)?);
        }
        let mut ds: Vec<Dialog> = talks.iter_mut().zip(&c.s).map(|(t, s)| Dialog::new(t, s.seq)).collect();
        let mut at = vec![0usize; ds.len()];
        let mut step = 0usize;
        let total: usize = scripts.iter().map(|s| s.len() + 1).sum();
        while at.iter().zip(&scripts).any(|(a, s)| *a <= s.len()) {
            for (w, n, hard) in &c.noise {
                if *w as usize * total / 65536 == step {
                    held.extend(disturb(p, n, *hard, &scs).map_err(with)?);
                }
            }
            let mut k = c.turns.get(step % c.turns.len().max(1)).copied().unwrap_or(step as u8) as usize % ds.len();
            while at[k] > scripts[k].len() {
                k = (k + 1) % ds.len();
            }
            let d = &mut ds[k];
            let r = if at[k] == 0 {
                d.ask("initialize", &init_args(), 0, false).and_then(|_| d.settle())
            } else {
                let q = &scripts[k][at[k] - 1];
                let how = &c.s[k].how;
                let h = if how.is_empty() { 1 } else { how[(at[k] - 1) % how.len()] };
                let before = if q.save.is_some() { d.settle().and_then(|_| write(q)) } else { Ok(()) };
                before.and_then(|_| d.ask(&q.cmd, &q.args, h >> 1, false)).and_then(|_| if h & 1 == 1 { d.settle() } else { Ok(()) })
            };
            r.map_err(|e| with(format!("session {k}: {e}")))?;
            at[k] += 1;
            step += 1;
        }
        let mut out = vec![];
        for (k, mut d) in ds.into_iter().enumerate() {
            d.settle().and_then(|_| d.end()).map_err(|e| with(format!("session {k}: {e}")))?;
            out.push(d.answers().map_err(|e| with(format!("session {k}: {e}")))?);
        }
        out
    };
    for (k, ((rs, a), b)) in scripts.iter().zip(&alone).zip(&got).enumerate() {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let strip = |a: &Answer| json!([a.0["success"], a.0["message"], a.0["body"], a.1.iter().map(|e| json!([e["event"], e["body"]])).collect::<Vec<_>>()]);
            let (x, y) = (strip(x), strip(y));
            obs.count("answers compared", 1);
            if x != y {
                let r = if i == 0 { "initialize".to_string() } else { format!("{} {}", rs[i - 1].cmd, rs[i - 1].args) };
                return Err(with(format!("session {k}: '{r}' is answered with {}; alone it is {}", trunc(&y.to_string(), 400), trunc(&x.to_string(), 400))));
            }
        }
    }
    drop(held);
    drop(own);
    Ok(())
}

// ---------------------------------------------------------------- exhaustion

/// Clients come in crowds and go; then somebody else must still be served.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    arch: u8,
    n: u16,
    /// file descriptors the server may have; 0: all it wants
    files: u8,
    hard: bool,
    leave: u16,
    /// threads the server may have. 0: all it wants
    #[serde(default)]
    threads: u8,
}

/// Whether this process may start another one as another user and end it.
fn may_change_user() -> bool {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let caps = s.lines().find_map(|l| l.strip_prefix("CapEff:")).and_then(|v| u64::from_str_radix(v.trim(), 16).ok()).unwrap_or(0);
    // CAP_KILL, CAP_SETGID, CAP_SETUID
    caps & 0xe0 == 0xe0
}

fn crowd(c: &Crowd, obs: &mut Obs) -> Verdict {
    let files = (c.files > 0).then_some(24 + c.files as u64 % 96);
    // the rest waits in the listen queue, which is 128 long
    let mut threads = (c.threads > 0 && may_change_user()).then_some(4 + c.threads as u64 % 60);
    let room = files.map(|f| f / 2).into_iter().chain(threads).min();
    let n = (c.n as u64 % (room.unwrap_or(200) + 90)) as u16 + 1;
    let arch = ARCHS[c.arch as usize % 3];
    let mut s = None;
    if threads.is_some() {
        s = Server::start_at(&tool("ydb"), arch, 60, files, threads).ok();
        if s.is_none() {
            obs.label("no other user");
            threads = None;
        }
    }
    let limits = format!("{n} clients; limits: {files:?} file descriptors, {threads:?} threads");
    obs.note = Some(limits.clone());
    let mut s = match s {
        Some(s) => s,
        None => Server::start(arch, 60, files)?,
    };
    let few = threads.is_some_and(|t| n as u64 + 1 > t);
    let scarce = files.is_some_and(|f| n as u64 * 2 + 4 > f) || few;
    obs.nontrivial = scarce;
    obs.label_if(scarce && !few, "more clients than file descriptors");
    obs.label_if(few, "more clients than threads");
    let mut held = std::collections::VecDeque::new();
    for i in 0..n {
        match TcpStream::connect_timeout(&([127, 0, 0, 1], s.port).into(), Duration::from_secs(20)) {
            Ok(mut t) => {
                if i % 3 == 0 {
                    let _ = t.write_all(b"Content-Length: 10\r\n\r\n{");
                }
                if c.hard {
                    reset(&t);
                }
                held.push_back(t)
            }
            Err(e) => return Err(format!("client {i}: the server does not accept a connection: {e} ({limits})")),
        }
        if c.leave > 0 && i % c.leave == 0 {
            held.pop_front();
        }
    }
    // let it notice them
    for _ in 0..if scarce { 30 } else { 3 } {
        std::thread::sleep(Duration::from_millis(10));
        if !s.alive() {
            return Err(format!("the server ends ({limits})"));
        }
    }
    drop(held);
    let dir = Scratch::new();
    let f = dir.0.join("p.ys");
    let _ = std::fs::write(&f, "irmovq $5, %rax\nhalt\n");
    {
        use std::os::unix::fs::PermissionsExt;
        let _ = std::fs::set_permissions(&dir.0, std::fs::Permissions::from_mode(0o755));
        let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o644));
    }
    let rs = [
        req("launch", json!({"program": f}), Want::Launch(0)),
        req("configurationDone", Value::Null, Want::Entry),
        req("continue", json!({"threadId": 1}), Want::Continue),
    ];
    // what gone clients used is given back one after the other
    let mut last = String::new();
    for _ in 0..100 {
        if !s.alive() {
            return Err(format!("the server ends ({limits})"));
        }
        let r = Talk::open(s.port).and_then(|mut t| {
            let _ = t.s.set_read_timeout(Some(Duration::from_secs(20)));
            converse(&mut t, &rs, &[], 1)
        });
        match r {
            Ok(a) => return shape(&rs, &a),
            Err(e) => last = e,
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    Err(format!("after all clients left a new one is not served: {last} ({limits})"))
}

/// The known finding: the protocol library reserves room for whatever length a
/// header announces, and running out of memory ends the process.
const HUGE: &str = "huge-content-length";

fn huge(len: u64) -> Verdict {
    let mut s = Server::start(ARCHS[0], 60, None)?;
    let mut t = Talk::open(s.port)?;
    let _ = t.s.write_all(format!("Content-Length: {len}\r\n\r\n{{}}").as_bytes());
    let _ = t.s.shutdown(Shutdown::Write);
    // until the session is over
    while t.fill().unwrap_or(false) {}
    for _ in 0..20 {
        std::thread::sleep(Duration::from_millis(5));
        if !s.alive() {
            return Err(format!("the server ends when a client sends the header 'Content-Length: {len}'"));
        }
    }
    let mut t = Talk::open(s.port)?;
    converse(&mut t, &[], &[], 1).map(|_| ())
}

fn huge_part() -> Box<dyn DynPart> {
    Box::new(Custom {
        name: "huge",
        run: Box::new(|ctx| {
            let mut rep = Report { rule: "a client announces a message larger than the address space; non-trivial: all".into(), ..Default::default() };
            let mut x = ctx.seed | 1;
            for k in 48..63u32 {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let len = (1u64 << k) | (x >> (65 - k.min(63)));
                rep.evaluations += 1;
                rep.distinct_nontrivial += 1;
                if let Err(m) = huge(len) {
                    match known_finding("C19", HUGE) {
                        Some(t) => {
                            *rep.labels.entry("known finding".into()).or_default() += 1;
                            rep.known = vec![t];
                        }
                        None => {
                            rep.failure = Some((json!(len), m));
                            break;
                        }
                    }
                }
            }
            rep.samples.push(json!({"part": "huge", "case": 1u64 << 50}));
            rep
        }),
        replay: Box::new(|v| Ok(huge(v.as_u64().ok_or("not a length")?))),
    })
}

// ---------------------------------------------------------------- strategies

fn src() -> BoxedStrategy<Src> {
    let p = prop_oneof![5 => gen::prog(false, 8, false), 2 => gen::prog(true, 5, true)];
    (
        p,
        prop_oneof![Just(vec![]), prop::collection::vec(any::<u64>(), 0..30)],
        any::<u8>(),
        prop::collection::vec(any::<(u16, u8)>(), 0..6),
        prop_oneof![2 => Just(0u8), 3 => Just(0x80u8), 1 => any::<u8>()],
    )
        .prop_map(|(prog, fmt, nl, extra, name)| Src { prog, fmt, nl, extra, name })
        .boxed()
}

fn any_int() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => -3i64..30,
        1 => any::<i64>(),
        2 => prop::sample::select(vec![i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MAX, i64::MAX - 1, 1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 62]),
    ]
    .boxed()
}

fn at(bad: u32) -> BoxedStrategy<At> {
    prop_oneof![
        20 => any::<u16>().prop_map(At::Line),
        bad => any_int().prop_map(At::Raw),
        bad => (0u8..4).prop_map(At::Past),
    ]
    .boxed()
}

fn ats(bad: u32) -> BoxedStrategy<Vec<At>> {
    prop::collection::vec(at(bad), 0..6).boxed()
}

fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![
        3 => (any::<u8>(), any_int()).prop_map(|(a, b)| Bad::Thread(a, b)),
        2 => any_int().prop_map(Bad::Frame),
        3 => any_int().prop_map(Bad::Var),
        2 => any::<u8>().prop_map(Bad::Source),
        1 => Just(Bad::NoLines),
        1 => Just(Bad::Filter),
        4 => any::<u8>().prop_map(Bad::Launch),
        3 => any::<u8>().prop_map(Bad::Other),
    ]
    .boxed()
}

/// weights: running, looking, bad requests
fn op(run: u32, look: u32, harm: u32) -> BoxedStrategy<Op> {
    let b = harm / 2 + 1;
    prop_oneof![
        3 * run => Just(Op::Next),
        3 * run => Just(Op::Continue),
        1 => Just(Op::Entry),
        2 * run => ats(b).prop_map(Op::Bps),
        2 * look => (prop_oneof![2 => Just(None), 1 => any_int().prop_map(|v| Some(v))], prop::option::of(0i64..20)).prop_map(|(a, b)| Op::Stack(a, b)),
        look => Just(Op::Scopes),
        3 * look => any::<u8>().prop_map(Op::Vars),
        2 * look => Just(Op::Look),
        1 => Just(Op::Threads),
        1 => Just(Op::NoFilter),
        1 => (any::<u8>(), ats(b), any::<bool>()).prop_map(|(k, a, f)| Op::Launch(k, if f { a } else { vec![] })),
        1 => any::<u8>().prop_map(Op::Save),
        harm => bad().prop_map(Op::Bad),
    ]
    .boxed()
}

fn sess(run: u32, look: u32, harm: u32, max: usize) -> BoxedStrategy<Sess> {
    let pre = prop_oneof![6 => Just(vec![]), 1 => prop::collection::vec(op(1, 1, harm), 0..(harm as usize + 1).min(4))];
    (
        prop::collection::vec(src(), 1..3),
        pre,
        ats(harm / 2 + 1),
        prop_oneof![8 => Just(true), 1 => Just(false)],
        prop::collection::vec(op(run, look, harm), 1..max),
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(any::<u64>(), 1..12), 1 => Just(vec![0u64])],
        prop_oneof![4 => Just(1i64), 1 => Just(-3), 1 => any::<i32>().prop_map(|v| v as i64), 1 => Just(i64::MAX - 200), 1 => Just(i64::MIN)],
    )
        .prop_map(|(progs, pre, bps, entry, mut ops, how, seq)| {
            let mut v = vec![Op::Launch(0, bps)];
            if entry {
                v.push(Op::Entry);
            }
            v.append(&mut ops);
            Sess { progs, pre, ops: v, how, seq }
        })
        .boxed()
}

fn limit() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 1 => Just(1), 2 => Just(2), 2 => Just(3)].boxed()
}

fn case(run: u32, look: u32, harm: u32, max: usize) -> BoxedStrategy<Case> {
    (0u8..3, limit(), sess(run, look, harm, max)).prop_map(|(arch, limit, s)| Case { arch, limit, s }).boxed()
}

/// long programs and programs with long loops, many requests and breakpoints
fn long_case(run: u32, look: u32) -> BoxedStrategy<Case> {
    let p = || prop_oneof![2 => gen::prog(false, 60, false), 2 => gen::long(false)];
    let one = move || (p(), prop::collection::vec(any::<(u16, u8)>(), 0..60)).prop_map(|(prog, extra)| Src { prog, fmt: vec![], nl: 0, extra, name: 0 });
    let many = || prop::collection::vec(any::<u16>().prop_map(At::Line), 0..60);
    let ops = prop::collection::vec(prop_oneof![20 => op(run, look, 1), 1 => many().prop_map(Op::Bps)], 20..160);
    (0u8..3, prop_oneof![2 => Just(0u8), 1 => Just(4u8)], prop::collection::vec(one(), 1..3), many(), ops)
        .prop_map(|(arch, limit, progs, bps, mut ops)| {
            let mut v = vec![Op::Launch(0, bps), Op::Entry];
            v.append(&mut ops);
            Case { arch, limit, s: Sess { progs, pre: vec![], ops: v, how: vec![], seq: 1 } }
        })
        .boxed()
}

fn noise() -> BoxedStrategy<Noise> {
    let texts = [
        "\r\n",
        "GET / HTTP/1.1\r\nHost: x\r\n\r\n",
        "Content-Length: 5\r\n\r\n{}",
        "Content-Length: -1\r\n\r\n{}",
        "Content-Length: abc\r\n\r\n{}",
        "Content-Length: 2\r\n\r\n{}Content-Length: 2\r\n\r\n{}",
        "Content-Length: 100000\r\n\r\n{\"seq\":1",
        "Content-Type: x\r\nContent-Length: 2\r\n\r\n{}",
        "Content-Length: 63\r\n\r\n{\"seq\":1,\"type\":\"request\",\"command\":\"no-such-command\",\"a\":null}",
        "Content-Length: 99999999999999999999999\r\n\r\n",
        "Content-Length: 10\r\n\r\n[[[[[[[[[[",
        "Content-Length: 4\r\n\r\n\u{fffd}x",
        "{\"seq\":1,\"type\":\"request\",\"command\":\"initialize\"}",
    ];
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..80).prop_map(Noise::Bytes),
        3 => prop::sample::select(texts.to_vec()).prop_map(|t| Noise::Text(t.into())),
        4 => (prop::collection::vec(op(4, 1, 1), 1..8), any::<u16>()).prop_map(|(ops, f)| {
            let mut v = vec![Op::Launch(0, vec![]), Op::Entry];
            v.extend(ops);
            Noise::Half(Sess { progs: vec![], pre: vec![], ops: v, how: vec![], seq: 1 }, f)
        }),
        1 => Just(Noise::Nothing),
    ]
    .boxed()
}

fn many() -> BoxedStrategy<Many> {
    (
        0u8..3,
        limit(),
        prop::collection::vec(sess(4, 2, 1, 10), 2..5),
        prop::collection::vec((any::<u16>(), noise(), any::<bool>()), 0..4),
        prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(any::<u8>(), 1..40)],
        prop_oneof![2 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(arch, limit, s, noise, turns, parallel)| Many { arch, limit, s, noise, turns, parallel })
        .boxed()
}

fn part<C: 'static>(
    name: &'static str,
    rule: &'static str,
    cases: u64,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> Verdict,
) -> Box<dyn DynPart>
where
    C: Serialize + serde::de::DeserializeOwned + Clone + std::fmt::Debug + 'static,
{
    Box::new(Part { name, rule, cases, shrink_iters: 1500, workers: WORKERS, strategy: Box::new(strategy), check: Box::new(check) })
}

pub fn c14(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![part(
        "long",
        "long programs, loops and sessions with many breakpoints; non-trivial: the session runs the program with at least one next or continue",
        ctx.cases(240),
        || long_case(4, 1),
        |c, o| modelled(c, o, Focus::Run),
    ), part(
        "stepping",
        "the session runs the program with at least one next or continue",
        ctx.cases(12000),
        || case(4, 1, 1, 24),
        |c, o| modelled(c, o, Focus::Run),
    )]
}

pub fn c15(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![part(
        "long",
        "long programs, loops and sessions with many breakpoints; non-trivial: the session runs the program with at least one next or continue",
        ctx.cases(160),
        || long_case(2, 3),
        |c, o| modelled(c, o, Focus::View),
    ), part(
        "views",
        "the session runs the program with at least one next or continue",
        ctx.cases(8000),
        || case(2, 3, 1, 16),
        |c, o| modelled(c, o, Focus::View),
    )]
}

pub fn c16(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![part("requests", "at least one request that cannot be served", ctx.cases(8000), || case(2, 1, 12, 16), harmless), idle_part()]
}

pub fn c19(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        part("together", "at least two sessions at once", ctx.cases(2500), many, together),
        Box::new(Part {
            name: "busy",
            rule: "sessions beside others whose programs run on and on",
            cases: ctx.cases(400),
            shrink_iters: 30,
            workers: WORKERS,
            strategy: Box::new(|| (many(), prop::collection::vec(any::<u8>(), 1..4)).prop_map(|(many, runs)| Busy { many, runs }).boxed()),
            check: Box::new(busy),
        }),
        Box::new(Part {
            name: "crowd",
            rule: "more clients than the server has file descriptors or threads for",
            cases: ctx.cases(72),
            shrink_iters: 60,
            workers: 4,
            strategy: Box::new(|| {
                let limits = prop_oneof![3 => (1u8.., Just(0u8)), 3 => (Just(0u8), 1u8..), 1 => (1u8.., 1u8..), 1 => Just((0u8, 0u8))];
                (0u8..3, any::<u16>(), limits, any::<bool>(), prop_oneof![2 => Just(0u16), 1 => 1u16..6])
                    .prop_map(|(arch, n, (files, threads), hard, leave)| Crowd { arch, n, files, hard, leave, threads })
                    .boxed()
            }),
            check: Box::new(crowd),
        }),
        Box::new(Part {
            name: "quit",
            rule: "Ctrl+C while sessions run, rest, wait or disturb",
            cases: ctx.cases(400),
            shrink_iters: 20,
            workers: WORKERS,
            strategy: Box::new(|| {
                (
                    0u8..3,
                    prop::collection::vec(0u8..16, 0..4),
                    prop::collection::vec((any::<bool>(), any::<u16>()), 0..4),
                    prop::collection::vec(noise(), 0..3),
                    any::<u8>(),
                    prop::bool::weighted(0.1),
                )
                    .prop_map(|(arch, runs, rest, noise, pause, leave)| Quit { arch, runs, rest, noise, pause, leave })
                    .boxed()
            }),
            check: Box::new(quit),
        }),
        huge_part(),
    ]
}
