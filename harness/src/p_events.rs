//! C24: the changes of state ysim -v tells of, cycle by cycle.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::{self, Prog};
use crate::isa_ref::{Cc, Fault, Machine, Step};
use crate::p_asm::{strip_ansi, Scratch};
use crate::p_cli;
use crate::p_isa::{img_of, one, One};
use crate::pipe_ref::{Event, Pipe};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Prog(Prog),
    One(One),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub what: What,
    pub arch: u8,
    /// -q, nothing, -v, -vv, ...
    pub verbose: u8,
}

const REGS: [&str; 15] = ["RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14"];
const FUNS: [&str; 4] = ["ADD", "SUB", "AND", "XOR"];

/// the words of `dstE = RAX, valE = 0x5`, by key
fn pairs(l: &str) -> Vec<(&str, &str)> {
    l.split([',', '{', '}'])
        .filter_map(|p| {
            let (a, b) = p.split_once(" = ").or_else(|| p.split_once(": ").filter(|(_, b)| !b.trim().is_empty()))?;
            Some((a.split_whitespace().last()?, b.trim()))
        })
        .collect()
}

/// what a printed line tells of; None: of nothing
fn event(l: &str) -> Option<Result<Event, String>> {
    let p = pairs(l);
    let get = |k: &str| p.iter().find(|x| x.0 == k).map(|x| x.1);
    let hex = |s: &str| s.strip_prefix("0x").and_then(|s| u64::from_str_radix(s, 16).ok()).ok_or(format!("{s} in {l:?}"));
    // no register or function of that name: 99
    let code = |names: &[&str], s: &str| names.iter().position(|r| r.eq_ignore_ascii_case(s)).map_or(99, |i| i as u8);
    let flag = |k: &str| get(k).and_then(|v| v.parse::<bool>().ok()).ok_or(format!("no {k} in {l:?}"));
    let r = if let (Some(r), Some(v)) = (get("dstE"), get("valE")) {
        hex(v).map(|v| Event::E(code(&REGS, r), v))
    } else if let (Some(r), Some(v)) = (get("dstM"), get("valM")) {
        hex(v).map(|v| Event::M(code(&REGS, r), v))
    } else if let (Some(a), Some(v)) = (get("addr"), get("datain")) {
        hex(a).and_then(|a| Ok(Event::Store(a, hex(v)?)))
    } else if let (Some(a), Some(b), Some(e), Some(f)) = (get("a"), get("b"), get("e"), get("opfun")) {
        (|| {
            let cc = Cc { zf: flag("zf")?, sf: flag("sf")?, of: flag("of")? };
            Ok(Event::Flags(hex(a)?, hex(b)?, hex(e)?, code(&FUNS, f), cc))
        })()
    } else {
        return None;
    };
    Some(r)
}

/// per printed cycle
fn told(text: &str) -> Result<Vec<Vec<Event>>, String> {
    let mut out: Vec<Vec<Event>> = vec![];
    for l in text.lines() {
        if l.split_once("[Cycle ").is_some_and(|(a, _)| a.chars().all(|c| c == '=' || c == ' ')) {
            out.push(vec![]);
        } else if p_cli::is_log(l) {
            match (event(l), out.last_mut()) {
                (None, _) => {}
                (Some(e), Some(o)) => {
                    let e = e?;
                    if !o.contains(&e) {
                        o.push(e);
                    }
                }
                (Some(_), None) => return Err(format!("{l:?} is printed before the first cycle")),
            }
        }
    }
    Ok(out)
}

/// what one instruction does on a sequential architecture (None: not stated),
/// and whether it is the last one
fn sequential(m: &mut Machine) -> (Option<Vec<Event>>, bool) {
    let was = (m.regs, m.cc);
    let st = m.step();
    let e = m.last;
    let mut v = vec![];
    match st {
        Step::Halt => return (Some(v), true),
        Step::Fault(Fault::Fetch | Fault::Op | Fault::Mem) => return (Some(v), true),
        Step::Fault(_) => return (None, true),
        Step::Ok => {}
    }
    let sp = was.0[4];
    match e.icode {
        2 if !e.taken => {}
        2 | 3 => v.push(Event::E(e.dst_e, m.regs[e.dst_e as usize])),
        6 => {
            let (a, b) = (was.0[e.src[0] as usize], was.0[e.src[1] as usize]);
            let r = m.regs[e.dst_e as usize];
            v.push(Event::Flags(a, b, r, e.ifun, m.cc));
            v.push(Event::E(e.dst_e, r));
        }
        8 | 10 => v.push(Event::E(4, sp.wrapping_sub(8))),
        9 | 11 => v.push(Event::E(4, sp.wrapping_add(8))),
        _ => {}
    }
    if e.dst_m != 15 {
        v.push(Event::M(e.dst_m, m.regs[e.dst_m as usize]));
    }
    if let Some(a) = e.store {
        let a = a as usize;
        v.push(Event::Store(a as u64, u64::from_le_bytes(m.mem[a..a + 8].try_into().unwrap())));
    }
    (Some(v), false)
}

const CAP: u64 = 150;

fn check(c: &Case, obs: &mut Obs) -> Verdict {
    let (img, src) = match &c.what {
        What::Prog(p) => match img_of(p) {
            Some(i) => (i, crate::ast::plain(&p.lines())),
            None => {
                obs.label("skipped: overlapping layout");
                return Ok(());
            }
        },
        What::One(o) => {
            let i = o.image();
            let s = crate::ast::image_source(&i);
            (i, s)
        }
    };
    let arch = crate::cut::ARCHS[c.arch as usize % 3];
    let d = Scratch::new();
    std::fs::write(d.0.join("p.ys"), &src).expect("scratch file");
    let mut args = vec!["-A".to_string(), arch.to_string(), format!("--max-cpu-cycle={CAP}"), "p.ys".into()];
    match c.verbose % 6 {
        0 => args.push("-q".into()),
        1 => {}
        n => args.push(format!("-{}", "v".repeat(n as usize - 1))),
    }
    obs.note = Some(format!("ysim {}\n{src}", args.join(" ")));
    let r = p_cli::run("ysim", &args, &d.0);
    if r.late {
        obs.label("skipped: stopped after a while");
        return Ok(());
    }
    let text = strip_ansi(&r.out);
    let who = format!("ysim {}", args.join(" "));
    let got = told(&text).map_err(|e| format!("{who}: {e}"))?;
    obs.label(arch);
    if c.verbose % 6 < 2 {
        obs.label("not asked to tell");
        return match got.iter().position(|e| !e.is_empty()) {
            Some(k) => Err(format!("{who}: cycle {}: tells {:x?} without being asked", k + 1, got[k])),
            None => Ok(()),
        };
    }
    let mut m = Machine::new(&img);
    m.no_iopq = true;
    let mut p = Pipe::new(&img);
    let mut some = 0u64;
    for n in 1..=CAP as usize {
        let (want, open, end): (Vec<Event>, [u8; 2], bool);
        let mut flags = true;
        if arch == "pipe_std" {
            let y = p.cycle();
            flags = !y.unknown;
            (want, open, end) = (y.events, y.open, y.done || y.unknown);
        } else {
            let (w, e) = sequential(&mut m);
            let Some(w) = w else {
                obs.label("up to what is not stated");
                break;
            };
            (want, end) = (w, e);
            open = if e { [m.last.dst_e, m.last.dst_m] } else { [15; 2] };
            obs.label_if(e && m.last.icode != 0, "up to the fault");
        }
        let Some(have) = got.get(n - 1) else {
            return Err(format!("{who}: cycle {n} is not printed"));
        };
        // what an instruction that faults writes to its destinations is open
        let stated = |e: &&Event| match e {
            Event::E(r, _) | Event::M(r, _) => !open.contains(r),
            Event::Flags(..) => flags,
            Event::Store(..) => true,
        };
        let lost = want.iter().filter(stated).find(|e| !have.contains(e));
        let extra = have.iter().filter(stated).find(|e| !want.contains(e));
        if lost.is_some() || extra.is_some() {
            return Err(format!("{who}: cycle {n}: tells {have:x?}, what happens is {want:x?}"));
        }
        some += want.len() as u64;
        obs.label_if(want.len() > 2, "several changes in a cycle");
        obs.label_if(want.iter().any(|e| matches!(e, Event::M(4, _))), "popq or mrmovq to %rsp");
        if end {
            obs.label("to the end");
            break;
        }
    }
    obs.nontrivial = some > 3;
    obs.count("changes told", some);
    Ok(())
}

pub fn c24(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![Box::new(Part {
        name: "told",
        rule: "the state changes told by ysim for generated programs, on all architectures and levels of verbosity, compared with those that happen in each cycle; non-trivial: more than 3 changes.",
        cases: ctx.cases(16_000),
        shrink_iters: 300,
        workers: WORKERS,
        strategy: Box::new(|| {
            let what = prop_oneof![
                4 => gen::prog(false, 8, false).prop_map(What::Prog),
                2 => gen::prog(false, 6, true).prop_map(What::Prog),
                2 => one(true, true).prop_map(What::One),
            ];
            (what, 0u8..3, prop_oneof![5 => Just(2u8), 1 => 3u8..6, 1 => 0u8..2]).prop_map(|(what, arch, verbose)| Case { what, arch, verbose }).boxed()
        }),
        check: Box::new(check),
    })]
}
