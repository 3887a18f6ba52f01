//! Compiles user architectures: copies the working tree's crates to a scratch
//! workspace, adds generated architecture files, builds runners and talks to
//! them. Several copies of the simulator crate are built side by side, each
//! with a share of the architectures.

use std::collections::{HashMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use crate::engine::{trunc, verif_dir};

pub const SHARDS: usize = 8;

const RUNNER: &str = r##"
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use y86_sim::{architectures::{arch_names, create_sim}, framework::{MemData, MEM_SIZE}, test::SimTester};

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn flat(s: String) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ") }

fn main() {
    // what the code under test prints must not mix with the answers
    let mut out = std::fs::OpenOptions::new().write(true).open(std::env::var("VH_ANSWERS").unwrap()).unwrap();
    std::panic::set_hook(Box::new(|i| { eprintln!("{i}"); }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let mut ans = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| {
            match f[0] {
                "names" => ans += &format!("N\t{}\n", arch_names().join(" ")),
                "run" => {
                    let mut m = [0u8; MEM_SIZE];
                    let b = unhex(f[4]);
                    m[..b.len()].copy_from_slice(&b);
                    let mut sim = create_sim(f[1].to_string(), MemData::init(m), false);
                    ans += &format!("O\t{}\t{}\n", sim.cycle_cost(), flat(sim.to_string()));
                    for _ in 0..f[2].parse::<u32>().unwrap() {
                        if f[3] == "step" { sim.step(); } else { sim.initiate_next_cycle(); sim.propagate_signals(); }
                        ans += &format!("C\t{}\t{}\t{}", sim.cycle_count(), sim.program_counter(), sim.is_terminate());
                        for s in sim.get_stage_info() {
                            ans += &format!("\tS\x01{}", flat(s.name.to_string()));
                            for (n, v) in s.signals { ans += &format!("\x01{}={}", n, flat(v)); }
                        }
                        ans += "\n";
                        if sim.is_terminate() { break; }
                    }
                }
                "test" | "sweep" => {
                    std::env::set_var("VH_DEFECT", f[2]);
                    let r = match SimTester::new(f[1]) {
                        None => Err("unknown architecture".to_string()),
                        Some(t) => match (f[0], f[3]) {
                            ("test", src) => t.test_isa(&String::from_utf8(unhex(src)).unwrap()).map(|_| ()),
                            (_, "opq") => t.test_opq(),
                            (_, "iopq") => t.test_iopq(),
                            (_, "cmov") => t.test_cmov(),
                            (_, "jm") => t.test_jm(),
                            _ => unreachable!(),
                        }.map_err(|e| format!("{e:#}")),
                    };
                    ans += &match r { Ok(()) => "T\tok\n".to_string(), Err(e) => format!("T\terr\t{}\n", flat(e)) };
                }
                _ => panic!("unknown request"),
            }
        }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ans += &format!("P\t{}\n", flat(m));
        }
        ans += "E\n";
        out.write_all(ans.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
"##;

pub fn copy_dir(from: &Path, to: &Path) -> std::io::Result<()> {
    fs::create_dir_all(to)?;
    for e in fs::read_dir(from)? {
        let e = e?;
        let n = e.file_name();
        if n == "target" || n == ".git" || n == "node_modules" {
            continue;
        }
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &to.join(&n))?;
        } else if e.file_type()?.is_file() {
            fs::copy(e.path(), to.join(&n))?;
        }
    }
    Ok(())
}

/// Architecture files the compiler complains about.
pub fn refusals(err: &str) -> Vec<(String, String)> {
    err.lines()
        .filter(|l| l.contains("error"))
        .filter_map(|l| {
            let p = l.find("architectures/extra/")?;
            let n = l[p + "architectures/extra/".len()..].split(".rs").next()?;
            Some((n.to_string(), trunc(l, 400)))
        })
        .collect()
}

pub enum Built {
    Yes(Batch),
    /// the build goes wrong with this architecture, in no file of its own
    No(String, String),
}

pub struct Batch {
    pub runners: Vec<PathBuf>,
    /// architecture -> runner
    pub shard: HashMap<String, usize>,
    /// architectures the compiler refuses, with its message
    pub refused: HashMap<String, String>,
    _lock: fs::File,
}

pub fn repo() -> PathBuf {
    std::env::var_os("VH_REPO").map(Into::into).unwrap_or_else(|| "/repo".into())
}

pub fn io<T>(r: std::io::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

/// name -> source text
pub fn build(archs: &[(String, String)]) -> Result<Built, String> {
    build_n(SHARDS, archs)
}

pub fn build_n(shards: usize, archs: &[(String, String)]) -> Result<Built, String> {
    let mut left: Vec<(String, String)> = archs.to_vec();
    let mut first = None;
    loop {
        match try_build(shards, &left)? {
            Try::Yes(b) => {
                return match first {
                    None => Ok(Built::Yes(b)),
                    Some(e) => Err(format!("the build went wrong once: {e}")),
                }
            }
            Try::No(k, e) => {
                let bad: Vec<(String, String)> = left.iter().enumerate().filter(|(i, _)| i % shards == k).map(|x| x.1.clone()).collect();
                let e = first.get_or_insert(e).clone();
                if bad.len() <= 1 {
                    // the same tree builds with none
                    return match (bad.into_iter().next(), try_build(1, &[])?) {
                        (Some((n, _)), Try::Yes(_)) => Ok(Built::No(n, e)),
                        _ => Err(format!("the simulator does not build: {e}")),
                    };
                }
                left = bad;
            }
        }
    }
}

enum Try {
    Yes(Batch),
    /// a copy that does not build, with no architecture file to blame
    No(usize, String),
}

fn try_build(shards: usize, archs: &[(String, String)]) -> Result<Try, String> {
    let base = verif_dir().join("target/batch");
    io(fs::create_dir_all(&base), "batch directory")?;
    let lock = io(fs::File::create(base.join("lock")), "lock")?;
    use std::os::fd::AsRawFd;
    unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX) };
    let ws = base.join("ws");
    let _ = fs::remove_dir_all(&ws);
    io(fs::create_dir_all(&ws), "workspace")?;
    let repo = repo();
    for d in ["binutils", "sim_macro"] {
        io(copy_dir(&repo.join(d), &ws.join(d)), d)?;
    }
    let root = io(fs::read_to_string(repo.join("Cargo.toml")), "Cargo.toml")?;
    let m = root.find("members").ok_or("no workspace members")?;
    let e = m + root[m..].find(']').ok_or("no workspace members")?;
    let members = ["binutils".to_string(), "sim_macro".to_string()].into_iter().chain((0..shards).map(|k| format!("w{k}/sim"))).map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ");
    let root = format!("{}members = [{members}{}", &root[..m], &root[e..]);
    io(fs::write(ws.join("Cargo.toml"), root), "Cargo.toml")?;
    io(fs::copy(repo.join("Cargo.lock"), ws.join("Cargo.lock")).map(|_| ()), "Cargo.lock")?;
    let simtoml = io(fs::read_to_string(repo.join("sim/Cargo.toml")), "sim/Cargo.toml")?;
    let mut shard = HashMap::new();
    for k in 0..shards {
        let d = ws.join(format!("w{k}/sim"));
        io(copy_dir(&repo.join("sim"), &d), "sim")?;
        let mut toml = String::new();
        let mut sec = String::new();
        for l in simtoml.lines() {
            if l.trim_start().starts_with('[') {
                sec = l.trim().to_string();
            }
            if sec == "[lib]" || sec.starts_with("[[") || sec.starts_with("[dev-dependencies") {
                continue;
            }
            if sec == "[package]" && l.trim_start().starts_with("name") {
                toml += &format!("name = \"y86-sim{k}\"\nautobins = false\nautoexamples = false\nautotests = false\n");
                continue;
            }
            toml += &l.replace("path = \"../", "path = \"../../");
            toml.push('\n');
        }
        toml += &format!("\n[lib]\nname = \"y86_sim\"\ncrate-type = [\"rlib\"]\n\n[[bin]]\nname = \"vhrun{k}\"\npath = \"src/vhrun.rs\"\n");
        io(fs::write(d.join("Cargo.toml"), toml), "Cargo.toml")?;
        let _ = fs::remove_dir_all(d.join("src/bin"));
        io(fs::write(d.join("src/vhrun.rs"), RUNNER), "runner")?;
    }
    for (i, (name, src)) in archs.iter().enumerate() {
        let k = i % shards;
        shard.insert(name.clone(), k);
        io(fs::write(ws.join(format!("w{k}/sim/src/architectures/extra/{name}.rs")), src), "architecture")?;
    }
    let mut refused: HashMap<String, String> = HashMap::new();
    for round in 0..6 {
        let out = Command::new("cargo")
            .args(["build", "--offline", "--bins", "--keep-going", "--message-format", "short"])
            .current_dir(&ws)
            .env("CARGO_TARGET_DIR", base.join("target"))
            .env("CARGO_PROFILE_DEV_DEBUG", "0")
            .env("CARGO_PROFILE_DEV_OPT_LEVEL", "0")
            .env("CARGO_INCREMENTAL", "0")
            .env("RUSTFLAGS", "-Awarnings")
            .output();
        let out = io(out, "cargo")?;
        if out.status.success() {
            let runners = (0..shards).map(|k| base.join(format!("target/debug/vhrun{k}"))).collect();
            return Ok(Try::Yes(Batch { runners, shard, refused, _lock: lock }));
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let mut bad: HashSet<String> = HashSet::new();
        let all = refusals(&err);
        bad.extend(all.iter().map(|x| x.0.clone()).filter(|n| shard.contains_key(n) && !refused.contains_key(n)));
        for (n, l) in all {
            if bad.contains(&n) {
                refused.entry(n).or_insert(l);
            }
        }
        if bad.is_empty() {
            let culprit = (0..shards).find(|k| err.contains(&format!("could not compile `y86-sim{k}`")));
            if let (Some(k), false) = (culprit, err.contains("signal:") || err.contains("No space left")) {
                return Ok(Try::No(k, trunc(&err, 1500)));
            }
        }
        if bad.is_empty() || round == 5 {
            return Err(format!("the simulator does not build with user architectures: {}", trunc(&err, 3000)));
        }
        for n in &bad {
            let k = shard[n];
            let _ = fs::remove_file(ws.join(format!("w{k}/sim/src/architectures/extra/{n}.rs")));
        }
    }
    unreachable!()
}

/// something did not answer already
static HUNG: AtomicBool = AtomicBool::new(false);

pub struct Conn {
    child: Child,
    stdin: ChildStdin,
    answers: BufReader<fs::File>,
    _keep: std::os::fd::OwnedFd,
    _out: Option<ChildStdout>,
}

#[derive(Debug, Default)]
pub struct Answer {
    pub lines: Vec<Vec<String>>,
    pub panic: Option<String>,
}

impl Conn {
    pub fn open(runner: &Path, cwd: &Path) -> Result<Self, String> {
        use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
        let mut fds = [0; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return Err("pipe".into());
        }
        let (rd, wr) = unsafe { (fs::File::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
        let answers = format!("/proc/{}/fd/{}", std::process::id(), wr.as_raw_fd());
        let mut child = io(
            Command::new(runner).current_dir(cwd).env("VH_ANSWERS", answers).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn(),
            "runner",
        )?;
        let stdin = child.stdin.take().unwrap();
        Ok(Conn { child, stdin, answers: BufReader::new(rd), _keep: wr, _out: None })
    }

    /// The answer, or how the runner ended instead.
    pub fn ask(&mut self, req: &str) -> Result<Answer, String> {
        let _ = writeln!(self.stdin, "{req}");
        let mut a = Answer::default();
        loop {
            use std::os::fd::AsRawFd;
            if self.answers.buffer().is_empty() {
                // the runner may die without an answer
                let mut waited = 0;
                loop {
                    let mut p = libc::pollfd { fd: self.answers.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
                    if unsafe { libc::poll(&mut p, 1, 200) } > 0 {
                        break;
                    }
                    waited += 1;
                    if let Ok(Some(st)) = self.child.try_wait() {
                        return Err(format!("the runner ended: {st}"));
                    }
                    let patience = if HUNG.load(Ordering::Relaxed) { 20 } else { 120 };
                    if waited > 5 * patience {
                        HUNG.store(true, Ordering::Relaxed);
                        let _ = self.child.kill();
                        return Err(format!("the runner does not answer within {patience} s"));
                    }
                }
            }
            let mut l = String::new();
            self.answers.read_line(&mut l).map_err(|e| e.to_string())?;
            let f: Vec<String> = l.trim_end_matches('\n').split('\t').map(|s| s.to_string()).collect();
            match f[0].as_str() {
                "E" => return Ok(a),
                "P" => a.panic = Some(f.get(1).cloned().unwrap_or_default()),
                _ => a.lines.push(f),
            }
        }
    }
}

impl Drop for Conn {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
