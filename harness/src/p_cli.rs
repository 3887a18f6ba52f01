//! C17: the command-line tools, run as processes in scratch directories.

use std::io::Read;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cut;
use crate::engine::*;
use crate::gen;
use crate::isa_ref::{in_flight_self_modification, Event, Fault, Machine, Step};
use crate::p_arch::IN_FLIGHT;
use crate::p_asm::{parse_mem_diff, strip_ansi, tool, Scratch};
use crate::p_isa::{fuel, with_fuel, FUEL, LONG};
use crate::p_tester::{exactly, programs, What, SPOIL};

pub struct Ran {
    /// None: killed by a signal
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    /// stopped by us: did not end
    pub late: bool,
}

const OUTPUT_CAP: usize = 256 << 20;

pub fn run(name: &str, args: &[String], cwd: &Path) -> Ran {
    run_at(&tool(name), args, cwd)
}

pub fn run_at(path: &Path, args: &[String], cwd: &Path) -> Ran {
    run_for(path, args, cwd, 90)
}

fn run_for(path: &Path, args: &[String], cwd: &Path, secs: u64) -> Ran {
    let name = path.display();
    let mut ch = Command::new(path).args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| {
        internal_error(format!("{name}: {e}"));
        panic!("{name}: {e}")
    });
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let o2 = over.clone();
    let read = move |r: &mut dyn Read| {
        let (mut v, mut b) = (vec![], [0u8; 65536]);
        while let Ok(n) = r.read(&mut b) {
            if n == 0 {
                break;
            }
            if v.len() < OUTPUT_CAP {
                v.extend_from_slice(&b[..n]);
            } else {
                o2.store(true, std::sync::atomic::Ordering::SeqCst);
            }
        }
        v
    };
    let r2 = read.clone();
    let to = std::thread::spawn(move || read(&mut so));
    let te = std::thread::spawn(move || r2(&mut se));
    let t0 = Instant::now();
    let mut late = false;
    let mut wait = 200;
    let code = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break st.code();
        }
        if t0.elapsed() > Duration::from_secs(secs) || over.load(std::sync::atomic::Ordering::SeqCst) {
            late = true;
            let _ = ch.kill();
        }
        std::thread::sleep(Duration::from_micros(wait));
        wait = (wait * 3 / 2).min(20_000);
    };
    let out = String::from_utf8_lossy(&to.join().unwrap()).to_string();
    let err = String::from_utf8_lossy(&te.join().unwrap()).to_string();
    Ran { code, out, err, late }
}

impl Ran {
    /// Ok: exit 0. A crash is never fine.
    pub fn success(&self, what: &str) -> Result<bool, String> {
        if self.late {
            return Err(format!("{what} does not end"));
        }
        match self.code {
            Some(0) => Ok(true),
            None | Some(101) => Err(format!("{what} crashes: {}", trunc(&strip_ansi(&self.err).replace('\n', " "), 400))),
            Some(c) => {
                if strip_ansi(&self.err).trim().is_empty() {
                    return Err(format!("{what} fails with status {c} but gives no error message"));
                }
                Ok(false)
            }
        }
    }
}

/// log lines of the -v levels
pub fn is_log(l: &str) -> bool {
    ["ERROR ", " WARN ", " INFO ", "DEBUG ", "TRACE "].iter().any(|p| l.starts_with(p))
}

fn reg_lines(a: &str, b: &str) -> Option<[u64; 8]> {
    // ax bx cx dx / si di sp bp
    let mut r = [0u64; 8];
    for (line, names) in [(a, [("ax", 0usize), ("bx", 3), ("cx", 1), ("dx", 2)]), (b, [("si", 6), ("di", 7), ("sp", 4), ("bp", 5)])] {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.len() != 8 {
            return None;
        }
        for (k, (n, i)) in names.iter().enumerate() {
            if f[2 * k] != *n || f[2 * k + 1].len() != 16 {
                return None;
            }
            r[*i] = u64::from_str_radix(f[2 * k + 1], 16).ok()?;
        }
    }
    Some(r)
}

type Diff = Vec<(u64, [u8; 8], [u8; 8])>;

fn diff(a: &[u8], b: &[u8]) -> Diff {
    (0..a.len() / 8)
        .filter(|i| a[8 * i..8 * i + 8] != b[8 * i..8 * i + 8])
        .map(|i| (8 * i as u64, a[8 * i..8 * i + 8].try_into().unwrap(), b[8 * i..8 * i + 8].try_into().unwrap()))
        .collect()
}

fn same_diff(what: &str, got: &Diff, want: &Diff) -> Verdict {
    if got == want {
        return Ok(());
    }
    if let Some(x) = want.iter().find(|x| !got.contains(x)) {
        return Err(format!("{what} does not report the changed word at {:#06x}: {:02x?} -> {:02x?}", x.0, x.1, x.2));
    }
    if let Some(x) = got.iter().find(|x| !want.contains(x)) {
        return Err(format!("{what} reports {:02x?} -> {:02x?} at {:#06x}, which did not happen", x.1, x.2, x.0));
    }
    Err(format!("{what} reports the changed words in another order or more than once"))
}

// ----------------------------------------------------------------- yas

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    what: What,
    /// 0 default architecture, 1..=3 the built-in ones
    arch: u8,
    form: u8,
    /// relative to the number of cycles needed; None: no option given
    limit: Option<i64>,
    verbose: u8,
    /// how the files are named and where the listing goes
    names: u8,
}

const STEMS: [&str; 13] = [
    "p.ys", "prog", "a b.ys", "sub/x.y.ys", "p.yo.ys", "ü-1.asm", "lab.v1/prog", "./p.ys", "./lab.v1/q", ".ys", "lab.v1/.hid", "p.", "sub/../lab.v1/r.ys",
];

fn default_out(stem: &str) -> String {
    let cut = stem.rfind('/').map(|i| i + 1).unwrap_or(0);
    match stem[cut..].rfind('.') {
        Some(d) if d > 0 => format!("{}.yo", &stem[..cut + d]),
        _ => format!("{stem}.yo"),
    }
}

fn tree(d: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, pre: &str, out: &mut std::collections::BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                go(&e.path(), &format!("{n}/"), out);
            } else {
                out.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut m = Default::default();
    go(d, "", &mut m);
    m
}

fn v_flags(n: u8, form: u8) -> Vec<String> {
    match n {
        0 => vec![],
        1..=4 if form & 16 == 0 => vec![format!("-{}", "v".repeat(n as usize))],
        1..=4 => (0..n).map(|_| "--verbose".to_string()).collect(),
        _ => vec!["-q".into()],
    }
}

fn end_of(m: &mut Machine) -> (Option<Step>, Vec<Event>) {
    m.run(fuel())
}

fn whole(c: &Case, obs: &mut Obs) -> Verdict {
    let Some((img, src)) = c.what.parts() else {
        obs.label("skipped: overlapping layout");
        return Ok(());
    };
    obs.note = Some(format!("arch {}, limit {:?}, -v x {}, form {}\n{src}", c.arch, c.limit, c.verbose, c.form));
    let dir = Scratch::new();
    let d = &dir.0;
    std::fs::create_dir_all(d.join("sub")).unwrap();
    std::fs::create_dir_all(d.join("lab.v1")).unwrap();
    let stem = STEMS[c.names as usize % STEMS.len()];
    std::fs::write(d.join(stem), &src).unwrap();

    // yas
    let custom = match c.names / 8 % 4 {
        0 => Some("out.bin"),
        1 => Some("sub/o.yo"),
        _ => None,
    };
    let target = custom.map(|s| s.to_string()).unwrap_or_else(|| default_out(stem));
    if c.names & 64 != 0 {
        // an older and longer file is replaced
        std::fs::write(d.join(&target), "x".repeat(300_000)).unwrap();
    }
    let mut args = vec![stem.to_string()];
    if let Some(o) = custom {
        match c.form % 3 {
            0 => args.extend(["-o".into(), o.into()]),
            1 => args.extend([format!("--output={o}")]),
            _ => args.splice(0..0, ["-o".to_string(), o.to_string()]).for_each(drop),
        }
    }
    args.extend(v_flags(c.verbose % 6, c.form));
    let before = tree(d);
    let r = run("yas", &args, d);
    if !r.success("yas")? {
        return Err(format!("yas {args:?} fails on a valid program: {}\n{src}", strip_ansi(&r.err)));
    }
    let listing = match guard(|| y86_sim::assemble(&src, y86_sim::AssembleOption::default()).map(|a| a.to_string())) {
        Ok(Ok(l)) => l,
        _ => return Err(format!("yas succeeds where the assembler fails\n{src}")),
    };
    let after = tree(d);
    let written = target.replace("sub/../", "").trim_start_matches("./").to_string();
    match after.get(&written) {
        None => return Err(format!("yas {args:?} does not write {target}, files are {:?}", after.keys())),
        Some(t) if *t != listing.as_bytes() => return Err(format!("yas {args:?}: {target} does not hold the listing but {} bytes: {}", t.len(), trunc(&String::from_utf8_lossy(t), 300))),
        _ => {}
    }
    for (k, v) in &after {
        if *k != written && before.get(k) != Some(v) {
            return Err(format!("yas {args:?} changes {k}"));
        }
    }

    // yis
    let mut m = Machine::new(&img);
    let (end, evs) = end_of(&mut m);
    match end {
        None => obs.label("yis skipped: does not end"),
        Some(Step::Fault(Fault::Field)) => obs.label("yis skipped: undefined register field"),
        Some(e) => {
            let mut args = vec![target.clone()];
            args.extend(v_flags(c.verbose % 6, c.form));
            let r = run("yis", &args, d);
            let ok = r.success("yis")?;
            let text = strip_ansi(&r.out);
            if e == Step::Halt {
                obs.label("yis runs to halt");
                if !ok {
                    return Err(format!("yis fails on a program that halts: {}\n{src}", strip_ansi(&r.err)));
                }
                yis_output(&text, &evs, &img, &m).and_then(|_| highlight(&r.out)).map_err(|e| format!("{e}\n{src}"))?;
            } else {
                obs.label("yis meets a fault");
                if ok {
                    return Err(format!("yis reports success for a program that faults\n{src}"));
                }
                // the trace shows the instructions before the fault
                let n = evs.len() - 1;
                let tr = trace(&text);
                if tr.len() < n || tr.len() > n + 1 || tr.iter().zip(&evs).any(|(t, e)| *t != (e.pc, e.icode, e.ifun)) {
                    return Err(format!("yis prints {} instructions before the fault, executed are {n}\n{src}", tr.len()));
                }
                if text.contains("total instructions") {
                    return Err(format!("yis prints a summary for a program that faults\n{src}"));
                }
            }
        }
    }

    // ysim
    let arch = match c.arch % 4 {
        0 | 1 => "seq_std",
        2 => "seq_plus_std",
        _ => "pipe_std",
    };
    ysim(c, arch, d, stem, &img, &src, obs)
}

/// In coloured output, the bytes of a memory word that differ look unlike the ones that do not.
fn highlight(raw: &str) -> Verdict {
    // the hexadecimal digits with their styles
    let digits = |t: &str| -> Vec<(char, String)> {
        let (mut v, mut style, mut it) = (vec![], String::new(), t.chars());
        while let Some(c) = it.next() {
            if c == '\x1b' {
                let seq: String = it.by_ref().skip(1).take_while(|c| *c != 'm').collect();
                if seq.is_empty() || seq == "0" {
                    style.clear();
                } else {
                    style += &seq;
                    style.push(';');
                }
            } else if c.is_ascii_hexdigit() {
                v.push((c, style.clone()));
            }
        }
        v
    };
    for l in raw.lines() {
        if parse_mem_diff(&strip_ansi(l)).len() != 1 || !l.contains('\x1b') {
            continue;
        }
        let Some((a, b)) = l.split_once("->") else { continue };
        let Some((_, a)) = a.split_once(": ") else { continue };
        let (a, b) = (digits(a), digits(b));
        if a.len() != 16 || b.len() != 16 {
            return Err(format!("a memory word is not printed as 8 bytes and 8 bytes: {l:?}"));
        }
        let differs = |i: usize| (a[i & !1].0, a[i | 1].0) != (b[i & !1].0, b[i | 1].0);
        for side in [&a, &b] {
            for i in (0..16).filter(|i| differs(*i)) {
                if let Some(j) = (0..16).find(|j| !differs(*j) && side[*j].1 == side[i].1) {
                    return Err(format!("byte {} of a memory word differs and byte {} does not, but they look the same: {l:?}", i / 2, j / 2));
                }
            }
        }
    }
    Ok(())
}

fn trace(text: &str) -> Vec<(u64, u8, u8)> {
    text.lines()
        .filter(|l| !is_log(l))
        .filter_map(|l| {
            let (a, rest) = l.split_once("icode: 0x")?;
            let pc = u64::from_str_radix(a.trim().strip_prefix("0x")?, 16).ok()?;
            let ic = u8::from_str_radix(rest.split_whitespace().next()?, 16).ok()?;
            let (_, f) = rest.split_once("ifun: ")?;
            let f = f.split([',', ' ']).next()?.trim().parse().ok()?;
            Some((pc, ic, f))
        })
        .collect()
}

const REGS: [&str; 16] = ["RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "RNONE"];

/// mnemonic, registers and constant of every printed instruction
fn operands(text: &str, img: &[u8]) -> Verdict {
    let mut m = Machine::new(img);
    for l in text.lines().filter(|l| !is_log(l)) {
        let Some((_, rest)) = l.split_once("icode: 0x") else { continue };
        let pc = m.pc as usize;
        let b: Vec<u8> = m.mem[pc..].iter().take(10).copied().collect();
        m.step();
        let ic = b[0] >> 4;
        let get = |k: &str| rest.split_once(k).map(|(_, r)| r.split([',', ' ']).next().unwrap_or("").trim());
        let wrong = |what: &str, want: &str| Err(format!("yis prints {l:?}, {what} is {want}"));
        let name = crate::p_pipe::CODES[ic as usize];
        if !get("(").is_some_and(|n| n.trim_end_matches(')').eq_ignore_ascii_case(name)) {
            return wrong("the instruction", name);
        }
        if matches!(ic, 2..=6 | 10..=12) {
            for (k, r) in [("rA: ", b[1] >> 4), ("rB: ", b[1] & 15)] {
                if !get(k).is_some_and(|n| n.eq_ignore_ascii_case(REGS[r as usize])) {
                    return wrong(k.trim_end_matches(": "), REGS[r as usize]);
                }
            }
        }
        let at = if matches!(ic, 7 | 8) { 1 } else { 2 };
        if b.len() >= at + 8 {
            let v = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
            let given = get("V: ");
            if matches!(ic, 3 | 7 | 8) && given.is_none() || given.is_some_and(|g| g.strip_prefix("0x").and_then(|g| u64::from_str_radix(g, 16).ok()) != Some(v)) {
                return wrong("the constant", &format!("{v:#x}"));
            }
        }
    }
    Ok(())
}

fn yis_output(text: &str, evs: &[Event], img: &[u8], m: &Machine) -> Verdict {
    let tr = trace(text);
    if tr.len() != evs.len() {
        return Err(format!("yis prints {} executed instructions, there are {}", tr.len(), evs.len()));
    }
    for (i, (t, e)) in tr.iter().zip(evs).enumerate() {
        if *t != (e.pc, e.icode, e.ifun) {
            return Err(format!("yis prints instruction {i} as {t:x?} (pc, icode, ifun), executed is {:x?}", (e.pc, e.icode, e.ifun)));
        }
    }
    operands(text, img)?;
    let lines: Vec<&str> = text.lines().filter(|l| !is_log(l)).collect();
    let Some(n) = lines.iter().find_map(|l| l.strip_prefix("total instructions:")) else {
        return Err("yis prints no instruction count".into());
    };
    if n.trim() != m.n.to_string() {
        return Err(format!("yis counts {} instructions, executed are {}", n.trim(), m.n));
    }
    let Some(r) = lines.windows(2).rev().find_map(|w| reg_lines(w[0], w[1])) else {
        return Err("yis prints no registers".into());
    };
    if r != m.regs[..8] {
        return Err(format!("yis prints registers {r:x?}, they are {:x?}", &m.regs[..8]));
    }
    let body = lines.join("\n");
    same_diff("yis", &parse_mem_diff(&body), &diff(img, &m.mem))
}

struct Cycle {
    n: u64,
    pc: u64,
    regs: [u64; 8],
    cc: (bool, bool, bool),
    signals: Vec<String>,
}

/// printed cycles, with the signals of -v
fn cycles(text: &str) -> Result<Vec<Cycle>, String> {
    let mut out: Vec<Cycle> = vec![];
    let mut plain: Vec<&str> = vec![];
    let (mut n, mut pc, mut sig) = (None, None, vec![]);
    let flush = |n: &mut Option<u64>, pc: &mut Option<u64>, plain: &mut Vec<&str>, sig: &mut Vec<String>, out: &mut Vec<Cycle>| -> Result<(), String> {
        if let Some(k) = n.take() {
            let pc = pc.take().ok_or(format!("ysim prints no program counter in cycle {k}"))?;
            let regs = plain.windows(2).find_map(|w| reg_lines(w[0], w[1])).ok_or(format!("ysim prints no registers in cycle {k}"))?;
            let cc = plain
                .iter()
                .find_map(|l| {
                    let f: Vec<&str> = l.split_whitespace().collect();
                    match f[..] {
                        ["sf", s, "of", o, "zf", z] => Some((s == "true", o == "true", z == "true")),
                        _ => None,
                    }
                })
                .ok_or(format!("ysim prints no condition codes in cycle {k}"))?;
            out.push(Cycle { n: k, pc, regs, cc, signals: std::mem::take(sig) });
        }
        plain.clear();
        sig.clear();
        Ok(())
    };
    for l in text.lines() {
        if let Some((_, r)) = l.split_once("[Cycle ").filter(|(a, _)| a.chars().all(|c| c == '=' || c == ' ')) {
            flush(&mut n, &mut pc, &mut plain, &mut sig, &mut out)?;
            n = r.split([' ', ']']).next().and_then(|x| x.parse().ok());
        } else if let Some(p) = l.strip_prefix("PC = 0x") {
            pc = u64::from_str_radix(p.trim(), 16).ok();
            sig.clear();
        } else if let Some(s) = l.strip_prefix(" INFO ") {
            sig.push(s.trim().to_string());
        } else if !is_log(l) {
            plain.push(l);
        }
    }
    flush(&mut n, &mut pc, &mut plain, &mut sig, &mut out)?;
    Ok(out)
}

fn ysim(c: &Case, arch: &'static str, d: &Path, stem: &str, img: &[u8], src: &str, obs: &mut Obs) -> Verdict {
    let cap = if fuel() == FUEL { 25_000 } else { 600_000u64 };
    let Ok(end) = crate::p_arch::run_arch(arch, img, cap) else {
        obs.label("ysim skipped: the architecture crashes");
        return Ok(());
    };
    let limit: Option<u64> = match (c.limit, end.done) {
        (None, true) => None,
        (None, false) => Some(60),
        (Some(l), true) => Some((end.cycles as i64 + l).max(0) as u64),
        (Some(l), false) => Some((l.rem_euclid(80)) as u64),
    };
    if !end.done {
        obs.label("ysim: program does not end");
    }
    let mut args = vec![stem.to_string()];
    if c.arch % 4 != 0 {
        match c.form % 3 {
            0 => args.extend(["-A".into(), arch.into()]),
            1 => args.extend([format!("--arch={arch}")]),
            _ => args.splice(0..0, ["--arch".to_string(), arch.to_string()]).for_each(drop),
        }
    }
    if let Some(l) = limit {
        if c.form & 8 == 0 {
            args.extend(["--max-cpu-cycle".into(), l.to_string()]);
        } else {
            args.splice(0..0, [format!("--max-cpu-cycle={l}")]).for_each(drop);
        }
    }
    // the deepest levels only for short programs
    let verbose = if end.cycles > 300 { c.verbose % 2 } else { c.verbose % 6 };
    args.extend(v_flags(verbose, c.form));
    let r = run("ysim", &args, d);
    let ok = r.success("ysim")?;
    let who = format!("ysim {args:?}");
    let ctx = |e: String| format!("{who}: {e}\n{src}");
    let fits = end.done && limit.unwrap_or(100_000) >= end.cycles;
    obs.nontrivial = end.done && end.cycles > 3;
    obs.label(match (fits, limit.is_some()) {
        (true, true) => "ysim within the given limit",
        (true, false) => "ysim within the default limit",
        (false, _) => "ysim beyond the limit",
    });
    obs.label(arch);
    obs.label_if(limit.is_none() && end.cycles == 100_000, "default limit exactly met");
    obs.label_if(limit.is_none() && end.cycles == 100_001, "one cycle beyond the default limit");
    if limit == Some(end.cycles) {
        obs.label("limit exactly met");
    }
    if fits && !ok {
        return Err(ctx(format!("fails though the program needs {} cycles: {}", end.cycles, strip_ansi(&r.err))));
    }
    if !fits && ok {
        return Err(ctx(format!("succeeds though the program needs {} cycles", if end.done { end.cycles.to_string() } else { "endless".into() })));
    }
    let text = strip_ansi(&r.out);
    let cs = cycles(&text).map_err(&ctx)?;
    // cycle by cycle
    let mut s = cut::new_sim(arch, img, false);
    let shown = if fits { end.cycles } else { limit.unwrap_or(100_000) };
    if (cs.len() as u64) < shown || cs.len() as u64 > shown + !fits as u64 {
        return Err(ctx(format!("prints {} cycles, expected {shown}", cs.len())));
    }
    for (k, c) in cs.iter().enumerate() {
        s.sim.propagate_signals();
        let at = |e: String| ctx(format!("cycle {}: {e}", k + 1));
        if c.n != k as u64 + 1 {
            return Err(at(format!("is printed as cycle {}", c.n)));
        }
        if c.pc != s.sim.program_counter() {
            return Err(at(format!("prints program counter {:#x}, it is {:#x}", c.pc, s.sim.program_counter())));
        }
        let regs = s.sim.registers();
        if c.regs != regs[..8] {
            return Err(at(format!("prints registers {:x?}, they are {:x?}", c.regs, &regs[..8])));
        }
        if arch != "pipe_std" {
            if let Some(cc) = s.cc() {
                if c.cc != (cc.sf, cc.of, cc.zf) {
                    return Err(at(format!("prints condition codes (sf, of, zf) {:?}, they are {cc:?}", c.cc)));
                }
            }
        }
        if (1..=4).contains(&verbose) {
            let mut have = c.signals.iter();
            for st in s.sim.get_stage_info() {
                if !have.by_ref().any(|l| l.trim_matches(['-', ' ']) == st.name.trim()) {
                    return Err(at(format!("-v does not show section {:?}", st.name)));
                }
                for (n, v) in st.signals {
                    let good = |l: &String| l.split_once(" = ").is_some_and(|(a, b)| a.trim() == n && b == v.trim());
                    if !have.by_ref().any(good) {
                        return Err(at(format!("-v does not show {n} = {v}, but {:?}", c.signals)));
                    }
                }
            }
        } else if verbose != 0 && !c.signals.is_empty() {
            return Err(at("signals are shown with -q".into()));
        }
        if s.sim.is_terminate() {
            break;
        }
        s.sim.initiate_next_cycle();
    }
    if fits {
        let body: String = text.lines().filter(|l| !is_log(l)).map(|l| format!("{l}\n")).collect();
        let got = parse_mem_diff(&body);
        same_diff("ysim", &got, &diff(img, &end.mem)).map_err(&ctx)?;
        highlight(&r.out).map_err(&ctx)?;
        // agreement with the instruction set
        let mut m = Machine::new(img);
        m.no_iopq = true;
        let (e, evs) = end_of(&mut m);
        if e == Some(Step::Halt) && (arch != "pipe_std" || !in_flight_self_modification(&evs, IN_FLIGHT)) {
            obs.label("compared with the instruction set");
            same_diff("ysim", &got, &diff(img, &m.mem)).map_err(&ctx)?;
            if cs.last().is_some_and(|c| c.regs != m.regs[..8]) {
                return Err(ctx(format!("prints final registers {:x?}, the instruction set gives {:x?}", cs.last().unwrap().regs, &m.regs[..8])));
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- failures

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// tool, the file is missing / a directory / not UTF-8
    Input(u8, u8),
    /// tool, program text that does not assemble
    Source(u8, String),
    /// architecture name
    Arch(String),
    /// the output cannot be written
    Output(u8),
    /// no input at all
    None(u8),
    /// listing line: address, separator and bytes
    Listing(String, String),
    /// unknown option or a bad number
    Option(u8, String),
    /// ydb with arguments it cannot use
    Debugger(Vec<String>),
    /// ydb on a port that is taken
    Taken(u8),
    /// ydb on a port that is free, or on its own choice
    Port(u8),
}

fn bad() -> BoxedStrategy<Bad> {
    let hexs = prop_oneof![
        2 => "[0-9a-f]{1,24}",
        1 => "[0-9a-z]{1,8}",
        1 => "([0-9a-f]{2}){0,3}[-+ _x.][0-9a-f]([0-9a-f]{2}){0,3}",
        1 => "[ -~]{1,8}",
        1 => "\\PC{1,4}",
        1 => Just(String::new()),
    ];
    let addr = prop_oneof![
        2 => (0u64..0x10010).prop_map(|a| format!("{a:#x}")),
        2 => (0xfff0u64..0x10010).prop_map(|a| format!("{a:#06x}")),
        1 => any::<u64>().prop_map(|a| format!("{a:#x}")),
        1 => (0xffff_ffff_ffff_fff0u64..=u64::MAX).prop_map(|a| format!("{a:#x}")),
        1 => any::<i64>().prop_map(|a| format!("{a}")),
        1 => "[ -~]{0,6}",
    ];
    prop_oneof![
        1 => (0u8..3, 0u8..3).prop_map(|(a, b)| Bad::Input(a, b)),
        3 => (0u8..2, prop::sample::select(SPOIL.to_vec()), prop::collection::vec(prop::sample::select(vec!["nop\n", "halt\n", "irmovq $5, %rax\n", "# x\n", "l:\n"]), 0..4)).prop_map(|(t, s, p)| Bad::Source(t, p.concat() + s)),
        1 => "[a-z_]{0,10}".prop_map(Bad::Arch),
        1 => prop::sample::select(vec!["seq", "pipe", "SEQ_STD", "seq_std ", " pipe_std", "pipe_std2", "seq_plus", "extra", "mod"]).prop_map(|s| Bad::Arch(s.into())),
        1 => any::<u8>().prop_map(Bad::Output),
        1 => (0u8..3).prop_map(Bad::None),
        6 => (addr, hexs).prop_map(|(a, h)| Bad::Listing(a, h)),
        1 => ydb_args().prop_map(Bad::Debugger),
        1 => any::<u8>().prop_map(Bad::Taken),
        1 => any::<u8>().prop_map(Bad::Port),
        1 => (0u8..3, prop::sample::select(vec!["--nope", "-Z", "--max-cpu-cycle=-1", "--max-cpu-cycle=x", "--max-cpu-cycle=99999999999999999999"])).prop_map(|(t, o)| Bad::Option(t, o.into())),
    ]
    .boxed()
}

/// arguments ydb has to refuse
fn ydb_args() -> BoxedStrategy<Vec<String>> {
    let v = |a: &[&str]| Just(a.iter().map(|s| s.to_string()).collect::<Vec<_>>()).boxed();
    let port = prop_oneof![(65_536u64..100_000).prop_map(|n| n.to_string()), any::<u64>().prop_map(|n| (n | 1 << 40).to_string()), (1i64..70_000).prop_map(|n| format!("-{n}")), "[a-z]{0,3}", Just("1.5".to_string()), Just("0x10".to_string()), Just("80 ".to_string())];
    let limit = prop_oneof![(1i64..70_000).prop_map(|n| format!("-{n}")), "[a-z]{0,3}", Just("99999999999999999999".to_string()), Just("1e3".to_string())];
    let arch = prop_oneof!["[a-z_]{0,10}", prop::sample::select(vec!["seq", "SEQ_STD", "pipe_std ", "pipe-std", "seq_std,pipe_std"]).prop_map(String::from)];
    let p0 = || vec!["-p".to_string(), "0".to_string()];
    prop_oneof![
        2 => (arch, any::<bool>()).prop_map(move |(a, eq)| [p0(), if eq { vec![format!("--arch={a}")] } else { vec!["--arch".into(), a] }].concat()),
        3 => (port, any::<bool>()).prop_map(|(p, short)| if short { vec![format!("-p={p}")] } else { vec![format!("--port={p}")] }),
        2 => limit.prop_map(move |l| [p0(), vec![format!("--max-cpu-cycle={l}")]].concat()),
        1 => v(&["-p", "0", "--nope"]),
        1 => v(&["-p", "0", "p.ys"]),
        1 => v(&["-p"]),
        1 => v(&["-p", "0", "--arch"]),
    ]
    .boxed()
}

/// starts ydb and reads the address it says to listen on
fn ydb_listens(args: &[String], d: &Path) -> Result<Option<std::net::SocketAddr>, String> {
    use std::io::BufRead;
    let mut ch = Command::new(tool("ydb")).args(args).current_dir(d).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().map_err(|e| {
        internal_error(format!("ydb: {e}"));
        format!("ydb: {e}")
    })?;
    let err = ch.stderr.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        for l in std::io::BufReader::new(err).lines().map_while(Result::ok) {
            let l = strip_ansi(&l);
            // the address is the part with the port
            let found = l.split([' ', ',']).find_map(|w| w.parse::<std::net::SocketAddr>().ok());
            if let Some(a) = found {
                let _ = tx.send(a);
            }
        }
    });
    let said = rx.recv_timeout(Duration::from_secs(20));
    let res = match said {
        Ok(a) => match std::net::TcpStream::connect_timeout(&a, Duration::from_secs(20)) {
            Ok(_) => Ok(Some(a)),
            Err(e) => Err(format!("ydb {args:?} says to listen on {a}, but: {e}")),
        },
        Err(_) => match ch.try_wait() {
            Ok(None) => {
                std::thread::sleep(Duration::from_millis(200));
                match ch.try_wait() {
                    Ok(Some(st)) if !st.success() && st.code().is_some_and(|c| c != 101) => Ok(None),
                    Ok(None) => Err(format!("ydb {args:?} does not say where it listens")),
                    o => Err(format!("ydb {args:?} ends with {o:?}")),
                }
            }
            Ok(Some(st)) if !st.success() && st.code().is_some_and(|c| c != 101) => Ok(None),
            o => Err(format!("ydb {args:?} ends with {o:?}")),
        },
    };
    let _ = ch.kill();
    let _ = ch.wait();
    let _ = h.join();
    res
}

const GOOD: &str = "irmovq $7, %rax\nrmmovq %rax, 0x100(%rbx)\nhalt\n";
const TOOLS: [&str; 3] = ["yas", "yis", "ysim"];

fn port_args(port: u16, form: u8) -> Vec<String> {
    let mut a = match form % 4 {
        0 => vec!["-p".to_string(), port.to_string()],
        1 => vec!["--port".to_string(), port.to_string()],
        2 => vec![format!("--port={port}")],
        _ => vec![format!("-p{port}")],
    };
    if form & 16 != 0 {
        a.push("--arch=pipe_std".into());
    }
    if form & 32 != 0 {
        a.insert(0, "--max-cpu-cycle=100".into());
    }
    a
}

/// the reference's reading of a number as an address
fn number(s: &str) -> Option<u64> {
    let (neg, t) = s.strip_prefix('-').map(|t| (true, t)).unwrap_or((false, s));
    let v = match t.strip_prefix("0x") {
        Some(h) if !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()) => u128::from_str_radix(h, 16).ok().filter(|v| *v <= u64::MAX as u128)?,
        Some(_) => return None,
        None if !t.is_empty() && t.chars().all(|c| c.is_ascii_digit()) => t.parse::<u128>().ok().filter(|v| *v <= i64::MAX as u128 + neg as u128)?,
        None => return None,
    } as u64;
    Some(if neg { v.wrapping_neg() } else { v })
}

fn failures(b: &Bad, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let d = &dir.0;
    obs.nontrivial = true;
    let must_fail = |tool: &str, args: &[String], why: &str| -> Verdict {
        let before = tree(d);
        let r = run(tool, args, d);
        if r.success(&format!("{tool} {args:?} ({why})"))? {
            return Err(format!("{tool} {args:?} reports success: {why}"));
        }
        if tree(d) != before {
            return Err(format!("{tool} {args:?} fails ({why}) but changes files"));
        }
        Ok(())
    };
    // the program the failing calls are given does work
    let good = |tool: &str| -> Verdict {
        std::fs::write(d.join("p.ys"), GOOD).unwrap();
        let args = ["p.ys".to_string()];
        if !run(tool, &args, d).success(tool)? {
            return Err(format!("{tool} fails on\n{GOOD}"));
        }
        Ok(())
    };
    let s = |x: &str| x.to_string();
    match b {
        Bad::Input(t, k) => {
            obs.label("unreadable input");
            let (f, why) = match k {
                0 => ("missing.ys", "the input file is missing"),
                1 => {
                    std::fs::create_dir(d.join("dir.ys")).unwrap();
                    ("dir.ys", "the input is a directory")
                }
                _ => {
                    std::fs::write(d.join("raw.ys"), b"nop\n\xff\xfe# \xc3\n").unwrap();
                    ("raw.ys", "the input is not text")
                }
            };
            must_fail(TOOLS[*t as usize % 3], &[s(f)], why)
        }
        Bad::Source(t, text) => {
            obs.label("unassemblable source");
            std::fs::write(d.join("p.ys"), text).unwrap();
            std::fs::write(d.join("p.yo"), "older").unwrap();
            must_fail(["yas", "ysim"][*t as usize % 2], &[s("p.ys")], &format!("the source does not assemble:\n{text}"))
        }
        Bad::Arch(a) => {
            if y86_sim::architectures::arch_names().contains(&a.as_str()) {
                obs.label("skipped: exists");
                return Ok(());
            }
            obs.label("unknown architecture");
            good("ysim")?;
            must_fail("ysim", &[s("p.ys"), format!("--arch={a}")], "the architecture does not exist")?;
            must_fail("ysim", &[s("-I"), format!("--arch={a}")], "the architecture does not exist")
        }
        Bad::Output(k) => {
            obs.label("unwritable output");
            good("yas")?;
            std::fs::remove_file(d.join("p.yo")).map_err(|e| format!("yas p.ys leaves no p.yo: {e}"))?;
            std::fs::create_dir(d.join("q.yo")).unwrap();
            must_fail("yas", &[s("p.ys"), s("-o"), s("no/such/dir.yo")], "the output directory does not exist")?;
            must_fail("yas", &[s("p.ys"), s("-o"), s("q.yo")], "the output is a directory")?;
            must_fail("yas", &[s("p.ys"), s("-o"), s("/dev/full")], "the output has no room")?;
            std::fs::create_dir(d.join("p.yo")).unwrap();
            must_fail("yas", &[s("p.ys")], "the default output is a directory")?;
            // the graph of ysim -I cannot be written
            let html = || std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "html"));
            let arch = crate::cut::ARCHS[*k as usize % 3];
            run("ysim", &[s("-A"), s(arch), s("-I")], d);
            let f = html().ok_or("ysim -I writes no graph")?;
            std::fs::remove_file(&f).map_err(|e| e.to_string())?;
            std::fs::create_dir(&f).unwrap();
            must_fail("ysim", &[s("-A"), s(arch), s("-I")], "the graph cannot be written")
        }
        Bad::None(t) => {
            obs.label("no input");
            must_fail(TOOLS[*t as usize % 3], &[], "there is no input")?;
            must_fail("ysim", &[s("-A"), s("seq_std")], "there is no input")
        }
        Bad::Option(t, o) => {
            obs.label("bad option");
            good("yas")?;
            let f = ["p.ys", "p.yo"][(*t % 3 == 1) as usize];
            must_fail(TOOLS[*t as usize % 3], &[s(f), o.clone()], "the option is not valid")
        }
        Bad::Debugger(args) => {
            let arch = args.iter().find_map(|a| a.strip_prefix("--arch=")).or(args.iter().position(|a| a == "--arch").and_then(|i| args.get(i + 1)).map(|a| a.as_str()));
            if arch.is_some_and(|a| y86_sim::architectures::arch_names().contains(&a)) {
                obs.label("skipped: exists");
                return Ok(());
            }
            obs.label("ydb arguments");
            let r = run_for(&tool("ydb"), args, d, 20);
            if r.success(&format!("ydb {args:?} (the arguments are not valid)"))? {
                return Err(format!("ydb {args:?} reports success: the arguments are not valid"));
            }
            Ok(())
        }
        Bad::Taken(form) => {
            obs.label("ydb: port taken");
            let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| {
                internal_error(format!("no port: {e}"));
                format!("no port: {e}")
            })?;
            let args = port_args(l.local_addr().unwrap().port(), *form);
            let r = run_for(&tool("ydb"), &args, d, 20);
            if r.success(&format!("ydb {args:?} (the port is taken)"))? {
                return Err(format!("ydb {args:?} reports success: the port is taken"));
            }
            Ok(())
        }
        Bad::Port(form) => {
            if form % 8 == 0 {
                obs.label("ydb: own port");
                return match ydb_listens(&[s("--arch=seq_std")], d)? {
                    Some(a) if a.port() != 2345 => Err(format!("ydb listens on {a}, the default port is 2345")),
                    _ => Ok(()),
                };
            }
            obs.label("ydb: port given");
            for _ in 0..5 {
                let port = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).map_err(|e| {
                    internal_error(format!("no port: {e}"));
                    format!("no port: {e}")
                })?;
                let args = port_args(port, *form);
                match ydb_listens(&args, d)? {
                    Some(a) if a.port() != port => return Err(format!("ydb {args:?} listens on {a}")),
                    Some(a) if !a.ip().is_loopback() => return Err(format!("ydb {args:?} listens on {a}, not only on this machine")),
                    Some(_) => return Ok(()),
                    // somebody else was faster
                    None => continue,
                }
            }
            Err("ydb does not start on any of 5 free ports".into())
        }
        Bad::Listing(a, h) => {
            obs.label("listing line");
            if a.contains([':', '|', '\n', '\r']) || h.contains([':', '|', '\n', '\r']) || a.contains('+') {
                obs.label("skipped: separators");
                return Ok(());
            }
            std::fs::write(d.join("p.yo"), format!("{a}: {h} | text\n")).unwrap();
            let v = h.trim();
            let at = number(a.trim());
            let n = v.len() as u64 / 2;
            let fine = at.is_some() && (v.is_empty() || v.len() % 2 == 0 && v.bytes().all(|c| c.is_ascii_hexdigit()) && at.unwrap().checked_add(n).is_some_and(|e| e <= 0x10000));
            if !fine {
                obs.label("unusable listing");
                return must_fail("yis", &[s("p.yo")], "the listing is not usable");
            }
            obs.label("usable listing");
            let mut img = vec![0u8; 0x10000];
            for i in 0..n as usize {
                img[at.unwrap() as usize + i] = u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap();
            }
            let mut m = Machine::new(&img);
            let (end, evs) = end_of(&mut m);
            match end {
                None | Some(Step::Fault(Fault::Field)) => Ok(()),
                Some(Step::Halt) => {
                    let r = run("yis", &[s("p.yo")], d);
                    if !r.success("yis")? {
                        return Err(format!("yis fails on the listing \"{a}: {h} |\": {}", strip_ansi(&r.err)));
                    }
                    yis_output(&strip_ansi(&r.out), &evs, &img, &m).map_err(|e| format!("{e}\nlisting \"{a}: {h} |\""))
                }
                Some(_) => must_fail("yis", &[s("p.yo")], "the program faults"),
            }
        }
    }
}

pub fn c17(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        Box::new(Part {
            name: "runs",
            rule: "generated programs assembled with yas, the listing run with yis, the source with ysim on a random architecture, cycle limit, verbosity and option form; files, traces, registers, signals, memory reports and statuses compared with the reference and an in-process simulation; non-trivial: ysim ends after more than 3 cycles.",
            cases: ctx.cases(9000),
            shrink_iters: 300,
            workers: WORKERS,
            strategy: Box::new(|| {
                (programs(2), 0u8..4, any::<u8>(), prop_oneof![2 => Just(None), 4 => prop::sample::select(vec![-2i64, -1, 0, 1]).prop_map(Some), 1 => (0i64..2000).prop_map(Some), 1 => (-40i64..0).prop_map(Some)], 0u8..12, any::<u8>())
                    .prop_map(|(what, arch, form, limit, v, names)| Case { what, arch, form, limit, verbose: if v < 6 { v } else { 0 }, names })
                    .boxed()
            }),
            check: Box::new(whole),
        }),
        Box::new(Part {
            name: "long",
            rule: "programs of up to some hundred thousand cycles, and of just as many as the default limit allows; non-trivial: ysim ends after more than 3 cycles.",
            cases: ctx.cases(48),
            shrink_iters: 60,
            workers: WORKERS,
            strategy: Box::new(|| {
                let what = prop_oneof![
                    1 => gen::long(false).prop_map(|p| What::Prog(p, vec![], 0)),
                    1 => (99_992u64..100_004).prop_map(exactly),
                ];
                (what, 0u8..4, any::<u8>(), prop_oneof![4 => Just(None), 1 => (-2i64..2).prop_map(Some)], any::<u8>())
                    .prop_map(|(what, arch, form, limit, names)| Case { what, arch, form, limit, verbose: 0, names })
                    .boxed()
            }),
            check: Box::new(|c: &Case, obs| with_fuel(LONG, || whole(c, obs))),
        }),
        Box::new(Part {
            name: "failures",
            rule: "missing, unreadable and unassemblable inputs, unknown architectures and options, unwritable outputs and generated listing lines: an error message, a failure status and no crash, exactly when the input is unusable; ydb on taken ports, free ports and with bad arguments; all non-trivial.",
            cases: ctx.cases(6000),
            shrink_iters: 300,
            workers: WORKERS,
            strategy: Box::new(bad),
            check: Box::new(failures),
        }),
    ]
}
