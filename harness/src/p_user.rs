//! C22: architectures a user puts beside the built-in ones, through the
//! command-line tools: a copy of the working tree gets generated architecture
//! files, `ysim` and `ydb` are built from it and compared with the interpreter
//! in hcl.rs.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::ast;
use crate::batch::{copy_dir, io, refusals, repo};
use crate::engine::*;
use crate::hcl::{self, generate, memory, Arch, Rng, N};
use crate::p_asm::{strip_ansi, Scratch};
use crate::p_cli::{is_log, run_at};
use crate::p_dbg::{number, numbers, Host};
use crate::p_hcl::{canary, mixed};
use crate::p_order;

const BUILTIN: [&str; 3] = ["seq_std", "seq_plus_std", "pipe_std"];
/// in extra/ beside the architectures, but none themselves
const DECOYS: [&str; 6] = ["notes.txt", "old_cpu.rs.bak", "disabled.hcl", "drafts/draft_cpu.rs", "cpu_rs", "README.md"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    name: String,
    arch: Arch,
    /// memory images
    seeds: Vec<u64>,
    /// decides options and the debugging session
    pick: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// an architecture's behaviour
    One(One),
    /// names of files and what else lies there
    Set { names: Vec<String>, decoys: Vec<String> },
}

struct Tools {
    bin: PathBuf,
    refused: HashMap<String, String>,
    _lock: fs::File,
}

enum Built {
    Yes(Tools),
    /// the compiler's complaint, blamed on no architecture file
    No(String),
}

/// Builds the tools with these architecture files.
fn build(archs: &[(String, String)], decoys: &[String]) -> Result<Built, String> {
    let base = verif_dir().join("target/user");
    io(fs::create_dir_all(&base), "directory")?;
    let lock = io(fs::File::create(base.join("lock")), "lock")?;
    use std::os::fd::AsRawFd;
    unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX) };
    let ws = base.join("ws");
    let _ = fs::remove_dir_all(&ws);
    io(copy_dir(&repo(), &ws), "copy of the repository")?;
    let extra = ws.join("sim/src/architectures/extra");
    for (n, s) in archs {
        io(fs::write(extra.join(format!("{n}.rs")), s), "architecture")?;
    }
    for d in decoys {
        let p = extra.join(d);
        io(fs::create_dir_all(p.parent().unwrap()), "decoy")?;
        io(fs::write(p, "this is no architecture\n"), "decoy")?;
    }
    // the files of the directory are no input cargo knows of
    let mut refused = HashMap::new();
    loop {
        let touched = Command::new("touch").arg(extra.join("mod.rs")).status();
        io(touched, "touch")?;
        let out = Command::new("cargo")
            .args(["build", "--offline", "--bin", "ysim", "--bin", "ydb", "--message-format", "short"])
            .current_dir(&ws)
            .env("CARGO_TARGET_DIR", base.join("target"))
            .env("CARGO_PROFILE_DEV_DEBUG", "0")
            .env("CARGO_PROFILE_DEV_OPT_LEVEL", "0")
            .env("CARGO_INCREMENTAL", "0")
            .env("RUSTFLAGS", "-Awarnings")
            .output();
        let out = io(out, "cargo")?;
        if out.status.success() {
            return Ok(Built::Yes(Tools { bin: base.join("target/debug"), refused, _lock: lock }));
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let bad: Vec<(String, String)> = refusals(&err).into_iter().filter(|(n, _)| archs.iter().any(|a| a.0 == *n) && !refused.contains_key(n)).collect();
        if bad.is_empty() {
            if err.contains("signal:") || err.contains("No space left") || !err.contains("could not compile") {
                return Err(format!("cargo: {}", trunc(&err, 2000)));
            }
            return Ok(Built::No(trunc(&err, 1500)));
        }
        for (n, m) in bad {
            let _ = fs::remove_file(extra.join(format!("{n}.rs")));
            refused.entry(n).or_insert(m);
        }
    }
}

// --------------------------------------------------------------- one of them

struct Outcome {
    message: String,
    signal: Option<usize>,
}

#[derive(Default)]
struct Tally {
    runs: u64,
    cycles: u64,
    values: u64,
    ends: u64,
    limits: u64,
    stops: u64,
    views: u64,
    links: u64,
    breakpoints: u64,
    refused: u64,
}

/// what ysim prints about one cycle
#[derive(Default)]
struct Shown {
    cost: u64,
    pc: Option<u64>,
    state: bool,
    units: bool,
    /// sections with signals
    info: Vec<(String, Vec<(String, String)>)>,
}

fn shown(text: &str) -> Result<Vec<Shown>, String> {
    let mut out: Vec<Shown> = vec![];
    for l in text.lines() {
        if let Some((_, r)) = l.split_once("[Cycle ").filter(|(a, _)| a.chars().all(|c| c == '=' || c == ' ')) {
            let mut it = r.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap_or(0));
            let (n, cost) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
            if n != out.len() as u64 + 1 {
                return Err(format!("cycle {} is printed as cycle {n}", out.len() + 1));
            }
            out.push(Shown { cost, ..Default::default() });
            continue;
        }
        let Some(c) = out.last_mut() else { continue };
        if let Some(p) = l.strip_prefix("PC = 0x") {
            c.pc = u64::from_str_radix(p.trim(), 16).ok();
        } else if let Some(s) = l.strip_prefix(" INFO ") {
            let s = s.trim();
            if s.starts_with('-') && s.ends_with('-') {
                c.info.push((s.trim_matches(['-', ' ']).to_string(), vec![]));
            } else if let Some((a, b)) = s.split_once(" = ") {
                match c.info.last_mut() {
                    Some(sec) => sec.1.push((a.trim().to_string(), b.trim().to_string())),
                    None => return Err(format!("{s} is shown outside all sections")),
                }
            }
        } else if !is_log(l) {
            c.state |= l.contains("~state");
            c.units |= l.contains("~units");
        }
    }
    Ok(out)
}

type Sections = Vec<(String, Vec<(String, String)>)>;

/// The signals of one cycle as some tool shows them.
fn same_view(a: &Arch, n: &hcl::Names, secs: &[(String, Vec<usize>)], got: &Sections, want: &[hcl::V], t: &mut Tally) -> Result<(), Outcome> {
    let fail = |message: String, signal| Err(Outcome { message, signal });
    let mut seen: HashMap<&str, &str> = HashMap::new();
    for (_, sigs) in got {
        for (x, v) in sigs {
            if seen.insert(x, v).is_some() {
                return fail(format!("signal {x} is shown twice"), None);
            }
        }
    }
    // the earliest wrong signal in evaluation order
    let order = a.rank.iter().filter_map(|r| if let N::Sig(j) = r { Some(*j) } else { None });
    for j in order {
        t.values += 1;
        match seen.get(n.sigs[j].as_str()) {
            None => return fail(format!("signal {} is not shown", n.sigs[j]), Some(j)),
            Some(s) if !want[j].shown_as(s) => return fail(format!("signal {} is {s}, expected {:?}", n.sigs[j], want[j]), Some(j)),
            _ => {}
        }
    }
    if seen.len() != want.len() {
        return fail(format!("{} signals are shown, {} are declared", seen.len(), want.len()), None);
    }
    if got.len() != secs.len() {
        return fail(format!("{} sections are shown, {} are declared", got.len(), secs.len()), None);
    }
    for ((title, sigs), (g, names)) in secs.iter().zip(got) {
        let w: BTreeSet<&str> = sigs.iter().map(|i| n.sigs[*i].as_str()).collect();
        let h: BTreeSet<&str> = names.iter().map(|x| x.0.as_str()).collect();
        if (!title.is_empty() && title.trim() != g.trim()) || w != h {
            return fail(format!("section {title:?} should show {w:?}, section {g:?} shows {h:?}"), None);
        }
    }
    Ok(())
}

fn words(seed: u64) -> (String, [u8; 1024]) {
    let m = memory(seed);
    let mut s = String::new();
    for w in m.chunks(8) {
        s += &format!("    .quad {:#x}\n", u64::from_le_bytes(w.try_into().unwrap()));
    }
    (s, m)
}

fn judge(t: &Tools, o: &One, tally: &mut Tally) -> Result<(), Outcome> {
    let plain = |message: String| Outcome { message, signal: None };
    let a = &o.arch;
    let n = a.names();
    let secs = a.sections();
    let dir = Scratch::new();
    let d = &dir.0;
    let mut r = Rng::new(o.pick);
    let (ysim, ydb) = (t.bin.join("ysim"), t.bin.join("ydb"));

    // -I
    let (run, edges) = a.edges();
    let args: Vec<String> = match r.below(3) {
        0 => vec!["-I".into(), "-A".into(), o.name.clone()],
        1 => vec![format!("--arch={}", o.name), "--info".into()],
        _ => vec!["-A".into(), o.name.clone(), "-I".into()],
    };
    let who = format!("ysim {}", args.join(" "));
    let ran = run_at(&ysim, &args, d);
    if !ran.success(&who).map_err(plain)? {
        return Err(plain(format!("{who} fails: {}", trunc(&strip_ansi(&ran.err), 300))));
    }
    let exact = !a.units.contains(&hcl::Kind::Clk);
    let order = p_order::parse_order(&ran.out).map_err(plain)?;
    let most = p_order::demand(&run, &edges, &order, exact).map_err(|e| {
        let signal = n.sigs.iter().position(|s| e.starts_with(&format!("{s} ")));
        Outcome { message: format!("{who}: {e}"), signal }
    })?;
    let html = fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "html"));
    let html = html.ok_or_else(|| plain(format!("{who} writes no graph")))?;
    if !html.file_name().is_some_and(|f| f.to_string_lossy().contains(&o.name)) || !ran.out.contains(&*html.file_name().unwrap().to_string_lossy()) {
        return Err(plain(format!("{who} writes the graph to {} and says {}", html.display(), ran.out.lines().last().unwrap_or(""))));
    }
    let (links, _) = p_order::parse_graph(&fs::read_to_string(&html).unwrap_or_default()).map_err(plain)?;
    let flat = |s: &str| s.replace('.', "-");
    let have: BTreeSet<(String, String)> = links.into_iter().collect();
    let want: BTreeSet<(String, String)> = edges.iter().map(|(x, y)| (flat(x), flat(y))).collect();
    tally.links += want.len() as u64;
    if let Some((x, y)) = want.difference(&have).next() {
        return Err(Outcome { message: format!("the exported graph lacks the dependency {x} -> {y}"), signal: n.sigs.iter().position(|s| s == y) });
    }
    if let Some((x, y)) = have.difference(&want).next() {
        return Err(Outcome { message: format!("the exported graph has a dependency {x} -> {y}, the description has none"), signal: n.sigs.iter().position(|s| s == y) });
    }

    // runs
    for seed in &o.seeds {
        let (src, mem) = words(*seed);
        let _ = fs::write(d.join("p.ys"), &src);
        let (want, done, _) = a.interpret(&mem);
        let len = want.len() as u64;
        // cycles whose values are stated, and whether the run may end
        let limit = match (done, r.below(3)) {
            (true, 0) => Some(len),
            (true, 1) if len > 1 => Some(len - 1),
            (true, _) => None,
            (false, _) if len >= 2 => Some(len - 2),
            _ => continue,
        };
        let fits = done && limit.is_none_or(|l| l >= len);
        let mut args: Vec<String> = vec!["p.ys".into(), "-A".into(), o.name.clone(), "-v".into()];
        if let Some(l) = limit {
            args.extend(["--max-cpu-cycle".into(), l.to_string()]);
        }
        let who = format!("ysim {} (memory {seed})", args.join(" "));
        let ran = run_at(&ysim, &args, d);
        let ok = ran.success(&who).map_err(plain)?;
        if ok != fits {
            return Err(plain(format!("{who} {}, the program {}", if ok { "succeeds" } else { "fails" }, if done { format!("ends after {len} cycles") } else { format!("does not end within {len} cycles") })));
        }
        tally.runs += 1;
        tally.ends += fits as u64;
        tally.limits += !fits as u64;
        let cs = shown(&strip_ansi(&ran.out)).map_err(|e| plain(format!("{who}: {e}")))?;
        let least = if fits { len } else { limit.unwrap_or(0) };
        if (cs.len() as u64) < least || cs.len() as u64 > least + !fits as u64 {
            return Err(plain(format!("{who} prints {} cycles, expected {least}", cs.len())));
        }
        for (k, c) in cs.iter().enumerate() {
            tally.cycles += 1;
            let at = |mut o: Outcome| {
                o.message = format!("{who}: cycle {}: {}", k + 1, o.message);
                o
            };
            let w = &want[k];
            same_view(a, &n, &secs, &c.info, w, tally).map_err(at)?;
            let hcl::V::U64(pc) = w[a.pc] else { unreachable!() };
            if c.pc != Some(pc) {
                return Err(at(Outcome { message: format!("the program counter is printed as {:x?}, expected {pc:#x}", c.pc), signal: Some(a.pc) }));
            }
            if exact && c.cost != most + 1 {
                return Err(at(plain(format!("the cost is printed as {}, the longest dependency chain has {most} units", c.cost))));
            }
            if !c.state || !c.units {
                return Err(at(plain("the architecture's own state and its units are not printed".into())));
            }
        }
    }

    // a debugging session
    let seed = o.seeds[r.below(o.seeds.len())];
    let (src, mem) = words(seed);
    let path = d.join("d.ys").to_string_lossy().to_string();
    let _ = fs::write(&path, &src);
    let (want, done, _) = a.interpret(&mem);
    let limit = if done { 50000 } else { want.len() as u64 };
    let who = format!("ydb --arch {} (memory {seed})", o.name);
    let say = |m: String| plain(format!("{who}: {m}"));
    let host = Host::start(&ydb, &o.name, limit).map_err(say)?;
    let first = host.session(&[("launch", json!({"program": path})), ("scopes", json!({"frameId": 1}))]).map_err(say)?;
    if first[1].0["success"] != true {
        return Err(say(format!("launch fails: {}", first[1].0["message"])));
    }
    let scopes: Vec<(String, i64)> = first[2].0["body"]["scopes"]
        .as_array()
        .map(|v| v.iter().map(|s| (s["name"].as_str().unwrap_or("").to_string(), s["variablesReference"].as_i64().unwrap_or(0))).collect())
        .unwrap_or_default();
    if scopes.len() != secs.len() + 1 || scopes[0].0 != "Registers" || scopes[1..].iter().zip(&secs).any(|(s, w)| !w.0.is_empty() && s.0.trim() != w.0.trim()) {
        return Err(say(format!("the scopes are {scopes:?}, the sections {:?}", secs.iter().map(|s| &s.0).collect::<Vec<_>>())));
    }
    let pcs: Vec<u64> = want
        .iter()
        .map(|w| match w[a.pc] {
            hcl::V::U64(p) => p,
            _ => unreachable!(),
        })
        .collect();
    // lines are words: line k is placed at 8 (k - 1)
    let mut lines: Vec<i64> = (0..r.below(3)).map(|_| 1 + r.below(128) as i64).collect();
    for p in &pcs {
        if p % 8 == 0 && *p < 1024 && r.chance(50) {
            lines.push((p / 8) as i64 + 1);
        }
    }
    let look = |v: &mut Vec<(&'static str, Value)>| {
        v.push(("stackTrace", json!({"threadId": 1})));
        for s in &scopes {
            v.push(("variables", json!({"variablesReference": s.1})));
        }
    };
    let mut rs: Vec<(&'static str, Value)> = vec![("launch", json!({"program": path}))];
    if !lines.is_empty() {
        rs.push(("setBreakpoints", json!({"source": {"path": path}, "breakpoints": lines.iter().map(|l| json!({"line": l})).collect::<Vec<_>>()})));
    }
    rs.push(("configurationDone", Value::Null));
    let mut at = 0usize; // cycles done
    let mut stops: Vec<(usize, usize)> = vec![]; // request, cycle
    for _ in 0..12 {
        let end = want.len();
        if at >= end && !done {
            break;
        }
        let cont = r.chance(35);
        if at < end {
            at += 1;
            while cont && at < end && !lines.iter().any(|l| (l - 1) as u64 * 8 == pcs[at - 1]) && (at as u64) < limit {
                at += 1;
            }
        }
        rs.push((if cont { "continue" } else { "next" }, json!({"threadId": 1})));
        stops.push((rs.len(), at));
        look(&mut rs);
    }
    let ans = host.session(&rs).map_err(say)?;
    for (k, (_, args)) in rs.iter().enumerate() {
        if ans[k + 1].0["success"] != true {
            return Err(say(format!("'{}' {args} fails: {}", rs[k].0, ans[k + 1].0["message"])));
        }
    }
    for (i, c) in stops {
        let before = rs[i - 1].0;
        let ev: Vec<&Value> = ans[i].1.iter().filter(|e| e["event"] == "stopped").collect();
        let (pc, w) = (pcs[c - 1], &want[c - 1]);
        let said = ev.first().and_then(|e| numbers(e));
        if ev.len() != 1 || said != Some((pc, c as u64)) {
            return Err(say(format!("'{before}' should stop at cycle {c}, pc {pc:#x} (breakpoints on {lines:?}); it brings {ev:?}")));
        }
        tally.stops += 1;
        tally.breakpoints += (ev[0]["body"]["reason"] == "breakpoint") as u64;
        let line = ans[i + 1].0["body"]["stackFrames"][0]["line"].as_i64().unwrap_or(-1);
        let place = (pc % 8 == 0 && pc < 1024).then_some((pc / 8) as i64 + 1);
        if place.is_some_and(|p| p != line) || (place.is_none() && (1..=128).contains(&line)) {
            return Err(say(format!("at cycle {c}, pc {pc:#x} the source line is given as {line}")));
        }
        let vars = |k: usize| -> Vec<(String, String)> {
            let v = ans[i + 2 + k].0["body"]["variables"].as_array().cloned().unwrap_or_default();
            v.iter().map(|v| (v["name"].as_str().unwrap_or("").to_string(), v["value"].as_str().unwrap_or("").to_string())).collect()
        };
        let regs = vars(0);
        for (k, name) in ast::REGS.iter().enumerate() {
            let g: Vec<&String> = regs.iter().filter(|v| v.0.trim_start_matches('%').eq_ignore_ascii_case(&name[1..])).map(|v| &v.1).collect();
            if g.len() != 1 || number(g[0]) != Some(0x1100 + k as u64) {
                return Err(say(format!("at cycle {c} register {name} is shown as {g:?} instead of {:#x}", 0x1100 + k)));
            }
        }
        let got: Sections = scopes[1..].iter().enumerate().map(|(k, s)| (s.0.clone(), vars(k + 1))).collect();
        same_view(a, &n, &secs, &got, w, tally).map_err(|mut o| {
            o.message = format!("{who}: at cycle {c}: {}", o.message);
            o
        })?;
        tally.views += 1;
    }
    Ok(())
}

// ------------------------------------------------------------- which there are

/// the names listed by --help
fn listed(bin: &Path, dir: &Path) -> Result<Vec<String>, String> {
    let who = format!("{} --help", bin.file_name().unwrap().to_string_lossy());
    let r = run_at(bin, &["--help".into()], dir);
    if !r.success(&who)? {
        return Err(format!("{who} fails"));
    }
    let text = strip_ansi(&r.out);
    let at = text.find("Architectures").ok_or(format!("{who} lists no architectures"))?;
    let rest = text[at..].split_once(':').map(|x| x.1).unwrap_or("");
    Ok(rest.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
}

/// names like the known ones that nobody has
fn strangers(names: &[String], decoys: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec!["mod".into(), "extra".into(), "seq".into(), "std".into(), "SEQ_STD".into(), "pipe_std ".into(), "".into(), "seq_std.rs".into(), "nonesuch".into()];
    for d in decoys {
        let stem = d.rsplit('/').next().unwrap();
        v.push(stem.into());
        v.push(stem.split('.').next().unwrap().into());
        if let Some(s) = stem.rsplit_once('.') {
            v.push(s.0.into());
        }
        v.push(d.clone());
    }
    for n in names {
        v.push(format!("{n}.rs"));
        v.push(n[..n.len() - 1].into());
        v.push(format!("{n}x"));
        v.push(n.to_uppercase());
        v.push(n.to_lowercase());
    }
    let known: HashSet<&str> = names.iter().map(|s| s.as_str()).chain(BUILTIN).collect();
    let mut seen = HashSet::new();
    v.retain(|s| !known.contains(s.as_str()) && seen.insert(s.clone()));
    v
}

fn refuses(bin: &Path, name: &str, dir: &Path) -> Result<(), String> {
    let tool = bin.file_name().unwrap().to_string_lossy().to_string();
    let args: Vec<String> = if tool == "ysim" { vec!["p.ys".into(), format!("--arch={name}")] } else { vec!["-p".into(), "0".into(), format!("--arch={name}")] };
    let who = format!("{tool} {args:?}");
    if tool == "ysim" {
        if run_at(bin, &args, dir).success(&who)? {
            return Err(format!("{who} succeeds, no such architecture exists"));
        }
        return Ok(());
    }
    // a server that comes up would stay
    use std::process::Stdio;
    let mut ch = Command::new(bin).args(&args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    for _ in 0..4000 {
        if let Ok(Some(st)) = ch.try_wait() {
            return match st.code() {
                Some(0) => Err(format!("{who} succeeds, no such architecture exists")),
                None | Some(101) => Err(format!("{who} crashes")),
                _ => Ok(()),
            };
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let _ = ch.kill();
    let _ = ch.wait();
    Err(format!("{who} starts to serve, no such architecture exists"))
}

fn set_check(t: &Tools, names: &[String], decoys: &[String], tally: &mut Tally) -> Result<(), String> {
    let dir = Scratch::new();
    let d = &dir.0;
    fs::write(d.join("p.ys"), "halt\n").map_err(|e| e.to_string())?;
    for tool in ["ysim", "ydb"] {
        let mut have = listed(&t.bin.join(tool), d)?;
        let mut want: Vec<String> = BUILTIN.iter().map(|s| s.to_string()).chain(names.iter().cloned()).collect();
        have.sort();
        want.sort();
        if have != want {
            let lost: Vec<&String> = want.iter().filter(|n| !have.contains(n)).collect();
            let odd: Vec<&String> = have.iter().filter(|n| !want.contains(n)).collect();
            return Err(format!("{tool} --help lists {} architectures, there are {}; missing {lost:?}, unknown {odd:?}", have.len(), want.len()));
        }
    }
    // the built-in ones stay what they are
    for b in BUILTIN {
        let one = run_at(&t.bin.join("ysim"), &["-I".into(), "-A".into(), b.into()], d);
        let two = run_at(&crate::p_asm::tool("ysim"), &["-I".into(), "-A".into(), b.into()], d);
        if one.code != two.code || one.out != two.out {
            return Err(format!("ysim -I -A {b} prints something else when there are user architectures:\n{}\ninstead of\n{}", trunc(&one.out, 400), trunc(&two.out, 400)));
        }
    }
    let all = strangers(names, decoys);
    let next = AtomicUsize::new(0);
    let bad: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..WORKERS {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                let Some(n) = all.get(i / 2) else { return };
                if !bad.lock().unwrap().is_empty() {
                    return;
                }
                if let Err(e) = refuses(&t.bin.join(["ysim", "ydb"][i % 2]), n, d) {
                    bad.lock().unwrap().insert(i, e);
                }
            });
        }
    });
    tally.refused += all.len() as u64 * 2;
    match bad.into_inner().unwrap().into_iter().next() {
        Some((_, e)) => Err(e),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ campaign

const STEMS: [&str; 16] = ["seq_std", "pipe_std", "seq", "pipe", "std", "cpu", "my_cpu", "MyCpu", "x", "_hidden", "SEQ", "seq_plus", "pipe_std_fwd", "hardware_seq", "invalid", "a_very_long_name_for_an_architecture_indeed"];

fn name(i: usize, r: &mut Rng) -> String {
    let s = *r.pick(&STEMS);
    match r.below(4) {
        0 => format!("{s}{i}"),
        1 => format!("{s}_{i}"),
        2 => format!("{s}__v{i}_"),
        _ => format!("{}{i}_{s}", ["c", "y86_", "N"][r.below(3)]),
    }
}

/// a name that is easily mistaken for another one
fn sibling(any: &str, last: &str, r: &mut Rng) -> String {
    let of = if r.below(2) == 0 { any } else { last };
    match r.below(7) {
        0 => format!("{of}_"),
        1 => format!("_{of}"),
        2 => of.to_uppercase(),
        3 => of.to_lowercase(),
        4 => format!("{of}0"),
        5 => of.replace('_', "__"),
        _ => of.replace("std", "Std"),
    }
}

fn sources(cases: &[One]) -> Vec<(String, String)> {
    cases.iter().map(|o| (o.name.clone(), o.arch.source())).collect()
}

/// All outcomes of a set of architectures; a build that fails for no
/// particular file is an error here.
fn run_all(t: &Tools, cases: &[One], tally: &mut Tally) -> Vec<Option<Outcome>> {
    let next = AtomicUsize::new(0);
    let res: Mutex<BTreeMap<usize, Outcome>> = Mutex::new(BTreeMap::new());
    let sum: Mutex<&mut Tally> = Mutex::new(tally);
    std::thread::scope(|s| {
        for _ in 0..WORKERS {
            s.spawn(|| {
                let mut mine = Tally::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let Some(o) = cases.get(i) else { break };
                    let r = match t.refused.get(&o.name) {
                        Some(e) => Err(Outcome { message: format!("a valid description is refused by the compiler: {e}"), signal: None }),
                        None => guard(|| judge(t, o, &mut mine)).unwrap_or_else(|e| {
                            internal_error(e);
                            Ok(())
                        }),
                    };
                    if let Err(o) = r {
                        res.lock().unwrap().insert(i, o);
                    }
                }
                let mut g = sum.lock().unwrap();
                g.runs += mine.runs;
                g.cycles += mine.cycles;
                g.values += mine.values;
                g.ends += mine.ends;
                g.limits += mine.limits;
                g.stops += mine.stops;
                g.views += mine.views;
                g.links += mine.links;
                g.breakpoints += mine.breakpoints;
            });
        }
    });
    let mut res = res.into_inner().unwrap();
    (0..cases.len()).map(|i| res.remove(&i)).collect()
}

fn plain_set(names: &[String]) -> Vec<(String, String)> {
    let src = canary().source();
    names.iter().map(|n| (n.clone(), src.clone())).collect()
}

/// What is wrong with these names and files, if anything; Err: no answer.
fn judge_set(names: &[String], decoys: &[String], tally: &mut Tally) -> Result<Verdict, String> {
    match build(&plain_set(names), decoys)? {
        Built::No(e) => {
            // with a single plain one it must go
            match build(&plain_set(&["plain_cpu".into()]), &[])? {
                Built::Yes(_) => Ok(Err(format!("the tools do not build with these architecture files: {e}"))),
                Built::No(e) => match build(&[], &[])? {
                    Built::Yes(_) => Ok(Err(format!("the tools do not build with even the plainest user architecture: {e}"))),
                    Built::No(e) => Err(format!("the tools do not build: {e}")),
                },
            }
        }
        Built::Yes(t) => match t.refused.iter().next() {
            Some((n, e)) => Ok(Err(format!("the architecture file {n}.rs is refused: {e}"))),
            None => Ok(set_check(&t, names, decoys, tally)),
        },
    }
}

fn shrink_set(mut names: Vec<String>, mut decoys: Vec<String>, mut msg: String) -> (Case, String) {
    let t0 = std::time::Instant::now();
    let mut tried = HashSet::new();
    loop {
        let mut cands: Vec<(Vec<String>, Vec<String>)> = vec![];
        if !decoys.is_empty() {
            cands.push((names.clone(), vec![]));
            cands.push((vec![], decoys.clone()));
        }
        if names.len() > 1 {
            let h = names.len() / 2;
            cands.push((names[..h].to_vec(), decoys.clone()));
            cands.push((names[h..].to_vec(), decoys.clone()));
        }
        for i in 0..decoys.len().min(8) {
            let mut d = decoys.clone();
            d.remove(i);
            cands.push((names.clone(), d));
        }
        let mut better = false;
        for (n, d) in cands {
            if t0.elapsed().as_secs() > 150 || !tried.insert((n.clone(), d.clone())) {
                continue;
            }
            if let Ok(Err(m)) = judge_set(&n, &d, &mut Tally::default()) {
                (names, decoys, msg) = (n, d, m);
                better = true;
                break;
            }
        }
        if !better {
            return (Case::Set { names, decoys }, msg);
        }
    }
}

fn shrink_one(first: One, o: Outcome) -> (Case, String) {
    let (mut best, mut msg) = (first, o);
    let t0 = std::time::Instant::now();
    let mut r = Rng::new(1);
    while t0.elapsed().as_secs() < 150 {
        let all = best.arch.reductions(msg.signal, &mut r);
        if all.is_empty() {
            break;
        }
        let mut pick: Vec<usize> = (0..all.len().min(24)).collect();
        pick.extend((24..all.len()).step_by((all.len() / 16).max(1)));
        let cands: Vec<One> = pick.into_iter().enumerate().map(|(k, i)| One { name: format!("c{k}"), arch: all[i].clone(), ..best.clone() }).collect();
        let Ok(Built::Yes(t)) = build(&sources(&cands), &[]) else { break };
        let res = run_all(&t, &cands, &mut Tally::default());
        let Some((c, o)) = cands.into_iter().zip(res).filter_map(|(c, o)| o.map(|o| (c, o))).min_by_key(|(c, _)| c.arch.weight()) else { break };
        best = c;
        msg = o;
    }
    let m = format!("{}\n{}", msg.message, best.arch.source());
    (Case::One(best), m)
}

pub const PER: usize = 48;

fn campaign(ctx: &Ctx, rounds: u64) -> Report {
    let mut rep = Report::default();
    let mut t = Tally::default();
    let mut distinct = HashSet::new();
    for b in 0..rounds {
        let mut r = Rng::new(ctx.seed.wrapping_mul(0x1000003) ^ (b << 32) ^ 0xc22);
        let mut cases: Vec<One> = vec![];
        for i in 0..PER {
            let profiles = mixed();
            let arch = generate(&mut r, &profiles[i % profiles.len()]);
            let mut seeds: Vec<u64> = (0..3).map(|_| r.u64()).collect();
            // memories on which it ends
            for _ in 0..40 {
                let s = r.u64();
                if arch.interpret(&memory(s)).1 {
                    seeds.push(s);
                    if seeds.len() == 5 {
                        break;
                    }
                }
            }
            let mut nm = match cases.last() {
                Some(o) if r.below(3) == 0 => sibling(&cases[r.below(cases.len())].name, &o.name, &mut r),
                _ => name(i, &mut r),
            };
            while cases.iter().any(|c| c.name == nm) || BUILTIN.contains(&nm.as_str()) {
                nm.push('_');
            }
            cases.push(One { name: nm, arch, seeds, pick: r.u64() });
        }
        let names: Vec<String> = cases.iter().map(|c| c.name.clone()).collect();
        let mut decoys: Vec<String> = DECOYS.iter().map(|s| s.to_string()).collect();
        if b % 3 == 2 {
            decoys.clear();
        }
        let built = match build(&sources(&cases), &decoys) {
            Ok(b) => b,
            Err(e) => {
                internal_error(e);
                return rep;
            }
        };
        rep.evaluations += 1 + cases.len() as u64;
        for c in &cases {
            if c.arch.sigs.len() >= 5 {
                distinct.insert(c.arch.source());
            }
            for (l, y) in [
                ("sections", c.arch.sections().len() > 1),
                ("name contains a built-in one", BUILTIN.iter().any(|b| c.name.contains(b))),
                ("a run ends", c.seeds.len() > 3),
                ("stateful units", c.arch.units.contains(&hcl::Kind::Acc)),
            ] {
                if y {
                    *rep.labels.entry(l.into()).or_default() += 1;
                }
            }
        }
        if rep.samples.is_empty() {
            rep.samples.push(json!({"names": names, "decoys": decoys, "first": trunc(&cases[0].arch.source(), 3000)}));
        }
        let tools = match built {
            Built::Yes(tools) => tools,
            Built::No(e) => {
                // is it the names?
                match judge_set(&names, &decoys, &mut Tally::default()) {
                    Ok(Err(m)) => {
                        let (c, m) = shrink_set(names, decoys, m);
                        rep.failure = Some((serde_json::to_value(&c).unwrap_or_default(), m));
                    }
                    Ok(Ok(())) => internal_error(format!("the tools do not build with generated architectures: {e}")),
                    Err(e) => internal_error(e),
                }
                return rep;
            }
        };
        if tools.refused.len() == cases.len() {
            // the tools are built, but without any of them
            let (n, e) = tools.refused.iter().next().unwrap();
            let m = format!("no user architecture compiles, {n}: {e}");
            drop(tools);
            let c = cases.into_iter().min_by_key(|c| c.arch.weight()).unwrap();
            rep.failure = Some((serde_json::to_value(Case::One(c)).unwrap_or_default(), m));
            break;
        }
        let live: Vec<String> = names.iter().filter(|n| !tools.refused.contains_key(*n)).cloned().collect();
        if let Err(m) = set_check(&tools, &live, &decoys, &mut t) {
            drop(tools);
            let (c, m) = shrink_set(names, decoys, m);
            rep.failure = Some((serde_json::to_value(&c).unwrap_or_default(), m));
            break;
        }
        let res = run_all(&tools, &cases, &mut t);
        drop(tools);
        let fails: Vec<(One, Outcome)> = cases.into_iter().zip(res).filter_map(|(c, o)| o.map(|o| (c, o))).collect();
        if let Some((c, o)) = fails.into_iter().min_by_key(|(c, _)| c.arch.weight()) {
            let (c, m) = shrink_one(c, o);
            rep.failure = Some((serde_json::to_value(&c).unwrap_or_default(), m));
            break;
        }
    }
    rep.distinct_nontrivial = distinct.len() as u64;
    for (k, v) in [
        ("runs of ysim", t.runs),
        ("cycles compared", t.cycles),
        ("values compared", t.values),
        ("runs to termination", t.ends),
        ("runs to the limit", t.limits),
        ("stops compared", t.stops),
        ("stops at breakpoints", t.breakpoints),
        ("debugger views compared", t.views),
        ("graph links compared", t.links),
        ("unknown names refused", t.refused),
    ] {
        rep.counts.insert(k.into(), v);
    }
    rep
}

pub fn c22(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    let rounds = ctx.cases(3);
    vec![Box::new(Custom {
        name: "tools",
        run: Box::new(move |ctx| {
            let mut r = campaign(ctx, rounds);
            r.rule = "48 generated architecture files with files that are none beside them; ysim and ydb built with them: lists, refusals of unknown names, -I and the exported graph, runs with -v, debugging sessions; non-trivial: at least 5 signals.".into();
            r
        }),
        replay: Box::new(|v| {
            let c: Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            match c {
                Case::Set { names, decoys } => judge_set(&names, &decoys, &mut Tally::default()),
                Case::One(o) => match build(&sources(&[o.clone()]), &[])? {
                    Built::No(e) => Err(e),
                    Built::Yes(t) => Ok(match run_all(&t, &[o.clone()], &mut Tally::default()).remove(0) {
                        Some(x) => Err(format!("{}\n{}", x.message, o.arch.source())),
                        None => Ok(()),
                    }),
                },
            }
        }),
    })]
}
