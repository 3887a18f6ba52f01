//! C21: what the logging of the tools writes down.
//!
//! A case is a highest level and what several threads log; it is run in a
//! process of its own (this program started again), since a process sets up
//! its logging once. The log file and the terminal output are read back.

use std::io::Write;
use std::process::{Command, Stdio};

use binutils::verbose;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::engine::*;
use crate::p_asm::Scratch;

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// highest level: one given directly, or the one of a verbosity option
    max: u8,
    option: Option<u8>,
    file: bool,
    /// per thread: level, text
    threads: Vec<Vec<(u8, String)>>,
}

fn level(i: u8) -> tracing::Level {
    [tracing::Level::ERROR, tracing::Level::WARN, tracing::Level::INFO, tracing::Level::DEBUG, tracing::Level::TRACE][i as usize % 5]
}

/// what -q, nothing, -v, -vv, -vvv, -vvvv stand for
fn option(k: u8) -> Option<verbose::Level> {
    match k % 6 {
        0 => None,
        1 => Some(verbose::Level::Error),
        2 => Some(verbose::Level::Warn),
        3 => Some(verbose::Level::Info),
        4 => Some(verbose::Level::Debug),
        _ => Some(verbose::Level::Trace),
    }
}

fn say(l: u8, t: &str) {
    match l % 5 {
        0 => tracing::error!("{}", t),
        1 => tracing::warn!("{}", t),
        2 => tracing::info!("{t}"),
        3 => tracing::debug!("{}", t),
        _ => tracing::trace!("{t}"),
    }
}

/// the process that logs: the case comes on standard input, the path as an
/// argument
pub fn child(path: &str) {
    let c: Case = serde_json::from_reader(std::io::stdin()).expect("case");
    let max = match c.option {
        Some(k) => binutils::verbose_level_to_trace(option(k)),
        None => level(c.max),
    };
    let f = c.file.then(|| std::sync::Arc::new(std::fs::File::create(path).expect("log file")));
    binutils::logging_setup(max, f);
    let n = c.threads.len();
    let bar = std::sync::Arc::new(std::sync::Barrier::new(n));
    let h: Vec<_> = c
        .threads
        .into_iter()
        .map(|v| {
            let bar = bar.clone();
            std::thread::spawn(move || {
                bar.wait();
                for (l, t) in v {
                    say(l, &t);
                }
            })
        })
        .collect();
    for t in h {
        t.join().expect("a logging thread crashes");
    }
}

fn wanted(c: &Case) -> u8 {
    match c.option {
        // -q: errors, otherwise warnings, -v: information, -vv: debugging,
        // -vvv and more: everything
        Some(k) => (k % 6).min(4),
        None => c.max % 5,
    }
}

fn check(c: &Case, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let path = dir.0.join("out.log");
    let mut ch = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .arg("log-child")
        .arg(&path)
        .env("NO_COLOR", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("the logging process does not start: {e}"))?;
    let spec = serde_json::to_vec(c).unwrap();
    let mut stdin = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(&spec);
    });
    let out = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if !out.status.success() {
        return Err(format!("the logging process fails ({}): {}", out.status, trunc(&err, 500)));
    }
    let max = wanted(c);
    let shown = |t: &[(u8, String)]| -> Vec<(u8, String)> { t.iter().map(|(l, t)| (l % 5, t.clone())).filter(|(l, _)| *l <= max).collect() };
    let want: Vec<Vec<(u8, String)>> = c.threads.iter().map(|t| shown(t)).collect();
    let total: usize = want.iter().map(|t| t.len()).sum();
    let all: usize = c.threads.iter().map(|t| t.len()).sum();
    obs.nontrivial = total > 0 && total < all;
    obs.count("messages shown", total as u64);
    obs.count("messages withheld", (all - total) as u64);
    obs.label_if(c.option.is_some(), "verbosity option");
    obs.label_if(c.threads.len() > 1, "several threads");

    if c.file {
        obs.label("log file");
        let text = std::fs::read_to_string(&path).map_err(|e| format!("the log file: {e}"))?;
        let mut left: Vec<&[(u8, String)]> = want.iter().map(|v| v.as_slice()).collect();
        let mut seen: Vec<(u8, String)> = vec![];
        for l in text.lines() {
            let v: Value = serde_json::from_str(l).map_err(|e| format!("a line of the log file is not a record ({e}): {}", trunc(l, 300)))?;
            let lv = LEVELS.iter().position(|n| v["level"] == *n).ok_or_else(|| format!("a record without a level: {}", trunc(l, 300)))? as u8;
            let m = v["fields"]["message"].as_str().ok_or_else(|| format!("a record without a message: {}", trunc(l, 300)))?;
            seen.push((lv, m.to_string()));
        }
        let mut a = seen.clone();
        let mut b: Vec<(u8, String)> = want.iter().flatten().cloned().collect();
        a.sort();
        b.sort();
        if a != b {
            let extra = a.iter().find(|x| !b.contains(x));
            let lost = b.iter().find(|x| !a.contains(x));
            return Err(format!("the log file holds {} records instead of {total}; lost: {lost:?}, not expected: {extra:?} (levels up to {})", seen.len(), LEVELS[max as usize]));
        }
        // every thread's messages in its order: where a text tells the thread
        for t in left.iter_mut() {
            let mine: Vec<&(u8, String)> = seen.iter().filter(|x| t.contains(x)).collect();
            let only = |x: &(u8, String)| want.iter().filter(|o| o.contains(x)).count() == 1;
            let mine: Vec<_> = mine.into_iter().filter(|x| only(x)).collect();
            let due: Vec<_> = t.iter().filter(|x| only(x)).collect();
            if mine != due {
                return Err("the log file has a thread's messages in another order".into());
            }
        }
    } else if path.exists() {
        return Err("a log file is written without being asked for".into());
    }

    // the terminal, where the texts are plain
    let plain = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric());
    if c.threads.iter().flatten().all(|(_, t)| plain(t)) {
        obs.label("terminal compared");
        let both = format!("{}{}", String::from_utf8_lossy(&out.stdout), err);
        let both = crate::p_asm::strip_ansi(&both);
        let mut a: Vec<(u8, String)> = vec![];
        for l in both.lines().filter(|l| !l.trim().is_empty()) {
            let ws: Vec<&str> = l.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).collect();
            let lv = ws.iter().find_map(|w| LEVELS.iter().position(|n| n == w)).ok_or_else(|| format!("a line on the terminal without a level: {}", trunc(l, 200)))?;
            a.push((lv as u8, ws.last().unwrap().to_string()));
        }
        let mut b: Vec<(u8, String)> = want.iter().flatten().cloned().collect();
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("the terminal shows {} messages instead of {total} (levels up to {}):\n{}", a.len(), LEVELS[max as usize], trunc(&both, 1500)));
        }
    }
    Ok(())
}

pub fn c21(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![Box::new(Part {
        name: "logging",
        rule: "messages of several threads and levels logged by a process of its own; non-trivial: some messages are shown and some withheld.",
        cases: ctx.cases(12_000),
        shrink_iters: 600,
        workers: WORKERS,
        strategy: Box::new(|| {
            let plain = || "[a-z][a-z0-9]{0,12}";
            let any_text = prop_oneof![2 => plain(), 1 => "\\PC{0,12}", 1 => "[\\x00-\\x7f]{0,12}", 1 => ".{0,200}", 1 => (prop_oneof![3 => 500usize..5000, 1 => 5000usize..80_000], "[a-z ]{1,9}").prop_map(|(n, w)| w.repeat(n / w.len() + 1))];
            let msgs = |t: BoxedStrategy<String>| prop::collection::vec(prop::collection::vec((0u8..5, t), 0..12), 1..6);
            (0u8..5, prop::option::of(0u8..6), prop::bool::weighted(0.8), prop_oneof![1 => msgs(plain().boxed()), 1 => msgs(any_text.boxed())])
                .prop_map(|(max, option, file, threads)| Case { max, option, file, threads })
                .boxed()
        }),
        check: Box::new(check),
    })]
}
