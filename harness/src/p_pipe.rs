//! C23: the pipelined architecture cycle by cycle, against the model in
//! pipe_ref.rs.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::cut;
use crate::engine::*;
use crate::gen::{self, Prog};
use crate::p_asm::{strip_ansi, Scratch};
use crate::p_cli;
use crate::p_isa::{fuel, img_of, FUEL};
use crate::pipe_ref::*;

fn cap() -> u64 {
    if fuel() == FUEL {
        500
    } else {
        120_000
    }
}

fn label(obs: &mut Obs, c: &Cycle) {
    let [d, e, m, w] = &c.slots;
    let is = |s: &Option<Inst>, k: u8| s.is_some_and(|i| i.icode == k);
    obs.label_if(c.ctl[1] == Ctl::Stall, "load/use stall");
    let wrong = c.ctl[2] == Ctl::Bubble && c.ctl[1] == Ctl::Bubble;
    obs.label_if(wrong, "mispredicted jump");
    obs.label_if(wrong && is(d, 9), "mispredicted jump with ret behind it");
    obs.label_if(is(d, 9) && c.ctl[1] == Ctl::Stall, "load/use stall of ret");
    obs.label_if(is(w, 9), "return");
    obs.label_if(c.ctl[3] == Ctl::Bubble && e.is_some(), "instruction dropped behind an exception");
    obs.label_if(c.ctl[3] == Ctl::Bubble && is(e, 6), "condition codes kept behind an exception");
    obs.label_if(c.fetched.st == St::Adr, "fetch outside memory");
    obs.label_if(c.fetched.st == St::Adr && !c.done, "fetch outside memory, not the end");
    obs.label_if(c.done && w.is_some_and(|i| i.st == St::Adr), "ends with an address error");
    obs.label_if(c.done && w.is_some_and(|i| i.st == St::Ins), "ends with an invalid instruction");
    obs.label_if(m.is_none() && w.is_none() && d.is_some() && e.is_none(), "nearly empty");
}

fn staged(img: &[u8], obs: &mut Obs) -> Verdict {
    let r = guard(|| -> Verdict {
        let mut p = Pipe::new(img);
        let mut s = cut::new_sim("pipe_std", img, false);
        for n in 1..=cap() {
            if s.sim.is_terminate() {
                return Err(format!("has terminated before cycle {n}"));
            }
            s.sim.step();
            let c = p.cycle();
            label(obs, &c);
            let at = || {
                let who = |s: &Option<Inst>| s.map_or("-".to_string(), |i| format!("{:#x}", i.pc));
                format!("cycle {n} (fetch {:#x}, decode {}, execute {}, memory {}, write back {})", c.pc, who(&c.slots[0]), who(&c.slots[1]), who(&c.slots[2]), who(&c.slots[3]))
            };
            if !c.pc_open && s.sim.program_counter() != c.pc {
                return Err(format!("{}: program counter is {:#x}", at(), s.sim.program_counter()));
            }
            let mut got = s.sim.registers();
            for r in c.open {
                got[r as usize] = p.regs[r as usize];
            }
            got[15] = p.regs[15];
            if got != p.regs {
                return Err(format!("{}: {}", at(), cut::regs_diff(&got, &p.regs)));
            }
            if s.mem.read()[..] != p.mem[..] {
                return Err(format!("{}: memory {}", at(), cut::mem_diff(&s.mem.read()[..], &p.mem)));
            }
            if let Some(cc) = s.cc() {
                if cc != p.cc && !c.unknown {
                    return Err(format!("{}: condition codes {:?}, should be {:?}", at(), cc, p.cc));
                }
            }
            if s.sim.cycle_count() != n {
                return Err(format!("{}: cycle count is {}", at(), s.sim.cycle_count()));
            }
            if s.sim.is_terminate() != c.done {
                return Err(format!("{}: terminated is {}", at(), s.sim.is_terminate()));
            }
            obs.nontrivial = n > 8;
            if c.done || c.unknown {
                obs.count("compared cycles", n);
                obs.label(if c.done { "to the end" } else { "up to what is left open" });
                return Ok(());
            }
        }
        obs.count("compared cycles", cap());
        obs.label("runs on");
        Ok(())
    });
    match r {
        Ok(v) => v,
        Err(p) => Err(format!("crashed: {p}")),
    }
}

// -------------------------------------------------------------- printed table

pub const CODES: [&str; 13] =
    ["HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ", "POPQ", "IOPQ"];

/// `Key F a D b ...` as [a, b, ...]; None when it is not such a line
fn row(l: &str, key: &str) -> Option<Vec<String>> {
    let rest = l.strip_prefix(key)?;
    let mut out: Vec<String> = vec![];
    let mut names = "FDEMW".chars().peekable();
    for t in rest.split_whitespace() {
        if names.peek().is_some_and(|n| t.eq_ignore_ascii_case(&n.to_string())) {
            names.next();
            out.push(String::new());
        } else {
            let o = out.last_mut()?;
            if !o.is_empty() {
                o.push(' ');
            }
            o.push_str(t);
        }
    }
    (out.len() == 5).then_some(out)
}

fn stat(s: &Option<Inst>) -> &'static str {
    match s.map(|i| i.st) {
        None => "bub",
        Some(St::Aok) => "aok",
        Some(St::Hlt) => "hlt",
        Some(St::Adr) => "adr",
        Some(St::Ins) => "ins",
    }
}

fn code(s: &Option<Inst>) -> &'static str {
    s.map_or("NOP", |i| CODES.get(i.icode as usize).unwrap_or(&"no name"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shown {
    pub prog: Prog,
    pub verbose: u8,
}

fn table(c: &Shown, obs: &mut Obs) -> Verdict {
    let Some(img) = img_of(&c.prog) else {
        obs.label("skipped: overlapping layout");
        return Ok(());
    };
    let d = Scratch::new();
    let src = crate::ast::plain(&c.prog.lines());
    std::fs::write(d.0.join("p.ys"), &src).expect("scratch file");
    obs.note = Some(src);
    let mut args = vec!["--arch=pipe_std".to_string(), "--max-cpu-cycle=300".into(), "p.ys".into()];
    if c.verbose > 0 {
        args.push(format!("-{}", "v".repeat(c.verbose as usize)));
    }
    let r = p_cli::run("ysim", &args, &d.0);
    if r.late {
        obs.label("skipped: stopped after a while");
        return Ok(());
    }
    let text = strip_ansi(&r.out);
    let rows = |k: &str| text.lines().filter_map(|l| row(l, k)).collect::<Vec<_>>();
    let (stats, codes, ctls) = (rows("Stat"), rows("icode"), rows("Control"));
    let mut p = Pipe::new(&img);
    for n in 1..=300usize {
        let y = p.cycle();
        let at = |e: String| format!("ysim {}: cycle {n}: {e}", args.join(" "));
        let (Some(s), Some(i), Some(k)) = (stats.get(n - 1), codes.get(n - 1), ctls.get(n - 1)) else {
            return Err(at("the state of the stages is not shown".into()));
        };
        let odd = |s: &Option<Inst>| s.is_some_and(|i| i.odd);
        let mut all = vec![Some(y.fetched)];
        all.extend(y.slots);
        for j in 0..5 {
            if odd(&all[j]) {
                continue;
            }
            if j > 0 && s[j] != stat(&all[j]) {
                return Err(at(format!("shows the states {s:?}, stage {} is {}", "FDEMW".as_bytes()[j] as char, stat(&all[j]))));
            }
            if i[j] != code(&all[j]) {
                return Err(at(format!("shows the instructions {i:?}, in stage {} is {}", "FDEMW".as_bytes()[j] as char, code(&all[j]))));
            }
        }
        let want: Vec<String> = y.ctl.iter().map(|c| format!("{c:?}")).collect();
        if *k != want && !odd(&all[1]) && !odd(&all[2]) {
            return Err(at(format!("shows the control {k:?}, it is {want:?}")));
        }
        obs.nontrivial = n > 8;
        if y.done && (stats.len() != n || codes.len() != n || ctls.len() != n) {
            return Err(at("the program has ended, but the output goes on".into()));
        }
        if y.done || y.unknown {
            obs.count("compared cycles", n as u64);
            return Ok(());
        }
    }
    obs.count("compared cycles", 300);
    Ok(())
}

pub fn c23(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    use crate::p_arch::{part_long, part_one, part_prog};
    vec![
        part_prog(ctx, "short", "short gadget programs, every cycle compared with the pipeline model; non-trivial: more than 8 cycles.", 80_000, 4, false, staged),
        part_prog(ctx, "program", "gadget programs, every cycle compared with the pipeline model; non-trivial: more than 8 cycles.", 30_000, 20, false, staged),
        part_prog(ctx, "faulting", "gadget programs ending in a fault, every cycle compared with the pipeline model; non-trivial: more than 8 cycles.", 50_000, 8, true, staged),
        part_one(ctx, "instruction", "one instruction with arbitrary operands and pre-state, every cycle compared with the pipeline model; non-trivial: more than 8 cycles.", 60_000, true, staged),
        part_long(ctx, 32, staged),
        Box::new(Part {
            name: "table",
            rule: "the table of stages ysim prints for gadget programs, with and without -v, compared with the pipeline model in every cycle; non-trivial: more than 8 cycles.",
            cases: ctx.cases(1500),
            shrink_iters: 300,
            workers: WORKERS,
            strategy: Box::new(|| {
                (prop_oneof![2 => gen::prog(false, 8, false), 1 => gen::prog(false, 6, true)], prop_oneof![3 => Just(0u8), 1 => 1u8..3])
                    .prop_map(|(prog, verbose)| Shown { prog, verbose })
                    .boxed()
            }),
            check: Box::new(table),
        }),
    ]
}
