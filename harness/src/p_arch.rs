//! C06–C10: the built-in architectures against the reference machine.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ast;
use crate::cut::{self, ARCHS};
use crate::engine::*;
use crate::gen::{self, Prog};
use crate::isa_ref::{in_flight_self_modification, pipe_cycles, Cc, Event, Fault, Machine, Step};
use crate::p_isa::{fuel, img_of, label_events, with_fuel, One, FUEL, LONG};

/// instructions behind a store that are fetched before the store is done
pub const IN_FLIGHT: usize = 3;

// ------------------------------------------------------------ C06: SEQ lockstep

fn lockstep(img: &[u8], obs: &mut Obs) -> Verdict {
    let mut whole = Machine::new(img);
    whole.no_iopq = true;
    let (end, evs) = whole.run(if fuel() == FUEL { 600 } else { 70_000 });
    label_events(obs, &evs);
    obs.label(match end {
        Some(Step::Halt) => "halts",
        Some(_) => "faults in the end",
        None => "runs on",
    });
    let comparable = if end == Some(Step::Halt) || end.is_none() { evs.len() } else { evs.len() - 1 };
    obs.nontrivial = comparable > 6;
    obs.count("compared cycles", 2 * comparable as u64);
    for arch in &ARCHS[..2] {
        let r = guard(|| -> Verdict {
            let mut s = cut::new_sim(arch, img, false);
            let mut m = Machine::new(img);
            m.no_iopq = true;
            for n in 1..=comparable as u64 {
                let pc = m.pc;
                if s.sim.is_terminate() {
                    return Err(format!("{arch} has terminated before instruction {n}"));
                }
                s.sim.step();
                let st = m.step();
                let at = || format!("{arch}, cycle {n} (instruction at {pc:#x})");
                if s.sim.program_counter() != pc {
                    return Err(format!("{}: program counter is {:#x}", at(), s.sim.program_counter()));
                }
                if s.sim.registers()[..15] != m.regs[..15] {
                    return Err(format!("{}: {}", at(), cut::regs_diff(&s.sim.registers(), &m.regs)));
                }
                if s.mem.read()[..] != m.mem[..] {
                    return Err(format!("{}: memory {}", at(), cut::mem_diff(&s.mem.read()[..], &m.mem)));
                }
                if let Some(cc) = s.cc() {
                    if cc != m.cc {
                        return Err(format!("{}: condition codes {:?}, should be {:?}", at(), cc, m.cc));
                    }
                }
                if s.sim.cycle_count() != n {
                    return Err(format!("{}: cycle count is {}", at(), s.sim.cycle_count()));
                }
                if s.sim.is_terminate() != (st == Step::Halt) {
                    return Err(format!("{}: terminated is {}", at(), s.sim.is_terminate()));
                }
            }
            Ok(())
        });
        match r {
            Ok(v) => v?,
            Err(p) => return Err(format!("{arch} crashed: {p}")),
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- final state

pub struct End {
    pub mem: Vec<u8>,
    pub regs: [u64; 16],
    pub cc: Option<Cc>,
    pub cycles: u64,
    pub done: bool,
}

pub fn run_arch(arch: &str, img: &[u8], cap: u64) -> Result<End, String> {
    guard(|| {
        let mut s = cut::new_sim(arch, img, false);
        while !s.sim.is_terminate() && s.sim.cycle_count() < cap {
            s.sim.step();
        }
        let mem = s.mem.read().to_vec();
        End { mem, regs: s.sim.registers(), cc: s.cc(), cycles: s.sim.cycle_count(), done: s.sim.is_terminate() }
    })
}

fn reference(img: &[u8]) -> (Machine, Option<Step>, Vec<Event>) {
    let mut m = Machine::new(img);
    m.no_iopq = true;
    let (e, v) = m.run(fuel());
    (m, e, v)
}

fn label_hazards(obs: &mut Obs, evs: &[Event]) {
    for (i, e) in evs.iter().enumerate() {
        let Some(n) = evs.get(i + 1) else { continue };
        if e.dst_m != 15 && n.src.contains(&e.dst_m) {
            obs.label("load/use");
            obs.label_if(n.icode == 9, "load/use on ret");
            obs.label_if(e.dst_m == 4, "load/use of %rsp");
            obs.label_if(e.icode == 11 && e.dst_m == 4, "load/use after popq %rsp");
        }
        if e.dst_e != 15 && n.src.contains(&e.dst_e) {
            obs.label("forward from execute");
        }
        obs.label_if(e.icode == 2 && !e.taken && n.src.contains(&e.dst_e), "cmov not taken, then used");
        obs.label_if(e.icode == 7 && !e.taken, "mispredicted jump");
        obs.label_if(e.icode == 7 && !e.taken && n.icode == 9, "mispredicted jump, then ret");
        obs.label_if(e.icode == 9, "return");
    }
}

fn final_state(img: &[u8], obs: &mut Obs) -> Verdict {
    let (m, end, evs) = reference(img);
    if end != Some(Step::Halt) {
        obs.label("skipped: does not halt");
        return Ok(());
    }
    if in_flight_self_modification(&evs, IN_FLIGHT) {
        obs.label("skipped: overwrites instructions in flight");
        return Ok(());
    }
    obs.nontrivial = evs.len() > 6;
    label_events(obs, &evs);
    label_hazards(obs, &evs);
    obs.label_if(in_flight_self_modification(&evs, 40), "self-modifying");
    obs.count("instructions", evs.len() as u64);
    let cap = evs.len() as u64 * 6 + 100;
    let r = run_arch("pipe_std", img, cap).map_err(|p| format!("pipe_std crashed: {p}"))?;
    if !r.done {
        return Err(format!("pipe_std does not terminate within {cap} cycles of a program of {} instructions", evs.len()));
    }
    if r.regs[..15] != m.regs[..15] {
        return Err(format!("registers: {}", cut::regs_diff(&r.regs, &m.regs)));
    }
    if r.mem != m.mem {
        return Err(format!("memory: {}", cut::mem_diff(&r.mem, &m.mem)));
    }
    if r.cc.is_some_and(|c| c != m.cc) {
        return Err(format!("condition codes {:?}, should be {:?}", r.cc.unwrap(), m.cc));
    }
    Ok(())
}

// ------------------------------------------------------------------ C09: cycles

fn cycles(img: &[u8], obs: &mut Obs) -> Verdict {
    let (_, end, evs) = reference(img);
    if end != Some(Step::Halt) {
        obs.label("skipped: does not halt");
        return Ok(());
    }
    let n = evs.len() as u64;
    obs.nontrivial = n > 6;
    label_hazards(obs, &evs);
    for arch in ARCHS {
        let want = if arch == "pipe_std" {
            if in_flight_self_modification(&evs, IN_FLIGHT) {
                obs.label("pipe_std skipped: overwrites instructions in flight");
                continue;
            }
            pipe_cycles(&evs)
        } else {
            n
        };
        let r = run_arch(arch, img, want + 200).map_err(|p| format!("{arch} crashed: {p}"))?;
        if !r.done || r.cycles != want {
            return Err(format!(
                "{arch} takes {}{} cycles for {n} executed instructions, should be {want}",
                if r.done { "" } else { "more than " },
                r.cycles
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08: faults

fn precise(img: &[u8], obs: &mut Obs) -> Verdict {
    let (m, end, evs) = reference(img);
    let Some(Step::Fault(f)) = end else {
        obs.label("skipped: no fault");
        return Ok(());
    };
    if matches!(f, Fault::Fun | Fault::Field) {
        obs.label("skipped: undefined function code or field");
        return Ok(());
    }
    let ev = *evs.last().unwrap();
    obs.nontrivial = evs.len() > 3;
    obs.label(match (f, ev.icode) {
        (Fault::Fetch, _) => "fault: fetch",
        (Fault::Op, _) => "fault: opcode",
        (_, 4) => "fault: store",
        (_, 5) => "fault: load",
        (_, 8) => "fault: call",
        (_, 9) => "fault: ret",
        (_, 10) => "fault: push",
        _ => "fault: pop",
    });
    let selfmod = in_flight_self_modification(&evs, IN_FLIGHT);
    for arch in ARCHS {
        if arch == "pipe_std" && selfmod {
            obs.label("pipe_std skipped: overwrites instructions in flight");
            continue;
        }
        let cap = evs.len() as u64 * 6 + 100;
        let r = run_arch(arch, img, cap).map_err(|p| format!("{arch} crashed on a {f:?} fault at pc {:#x}: {p}", m.pc))?;
        let at = format!("{arch}, {f:?} fault at pc {:#x} after {} instructions", m.pc, m.n);
        if !r.done {
            return Err(format!("{at}: not terminated after {cap} cycles"));
        }
        let mut want = m.regs;
        for d in [ev.dst_e, ev.dst_m] {
            if d != 15 {
                want[d as usize] = r.regs[d as usize];
            }
        }
        if r.regs[..15] != want[..15] {
            return Err(format!("{at}: {}", cut::regs_diff(&r.regs, &want)));
        }
        if r.mem != m.mem {
            return Err(format!("{at}: memory {}", cut::mem_diff(&r.mem, &m.mem)));
        }
        if r.cc.is_some_and(|c| c != m.cc) {
            return Err(format!("{at}: condition codes {:?}, should be {:?}", r.cc.unwrap(), m.cc));
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C10: determinism

#[derive(PartialEq, Clone)]
pub struct Snap {
    pc: u64,
    term: bool,
    cycles: u64,
    regs: [u64; 16],
    stages: Vec<(&'static str, Vec<(String, String)>)>,
    mem: u64,
}

fn hash_mem(m: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in m.chunks_exact(8) {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
    }
    h
}

fn snap(s: &cut::Sim) -> Snap {
    Snap {
        pc: s.sim.program_counter(),
        term: s.sim.is_terminate(),
        cycles: s.sim.cycle_count(),
        regs: s.sim.registers(),
        stages: s.sim.get_stage_info().into_iter().map(|x| (x.name, x.signals)).collect(),
        mem: hash_mem(&s.mem.read()[..]),
    }
}

fn differs(a: &Snap, b: &Snap) -> String {
    if a.pc != b.pc {
        return format!("program counter {:#x} / {:#x}", a.pc, b.pc);
    }
    if a.term != b.term || a.cycles != b.cycles {
        return format!("terminated {} / {}, cycle count {} / {}", a.term, b.term, a.cycles, b.cycles);
    }
    if a.regs != b.regs {
        return format!("registers {:x?} / {:x?}", a.regs, b.regs);
    }
    if a.mem != b.mem {
        return "memory".into();
    }
    for (x, y) in a.stages.iter().zip(&b.stages) {
        for (p, q) in x.1.iter().zip(&y.1) {
            if p != q {
                return format!("signal {} of {}: {} / {} {}", p.0, x.0, p.1, q.0, q.1);
            }
        }
    }
    "list of signals".into()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Det {
    pub prog: Prog,
    pub cycles: u16,
    pub arch: u8,
}

fn same(what: &str, a: &Snap, b: &Snap) -> Verdict {
    if a == b {
        return Ok(());
    }
    Err(format!("{what}: cycle {}: {}", a.cycles, differs(a, b)))
}

fn deterministic(c: &Det, obs: &mut Obs) -> Verdict {
    let Some(img) = img_of(&c.prog) else {
        obs.label("skipped: overlapping layout");
        return Ok(());
    };
    obs.note = Some(ast::plain(&c.prog.lines()));
    let arch = ARCHS[c.arch as usize % 3];
    obs.label(arch);
    let r = guard(|| -> Result<u64, String> {
        let before = img.clone();
        // a: steps, quiet; b: steps, terminal output; p/q: separate phases
        let mut a = cut::new_sim(arch, &img, false);
        let mut b = cut::new_sim(arch, &img, true);
        let mut p = cut::new_sim(arch, &img, false);
        let mut q = cut::new_sim(arch, &img, true);
        let bystander = cut::new_sim(arch, &img, false);
        let orders: Vec<String> = [&a, &b, &p].iter().map(|s| s.sim.proporder().to_string()).collect();
        let mut distinct_orders = orders.clone();
        distinct_orders.sort();
        distinct_orders.dedup();
        let mut n = 0;
        while n < c.cycles as u64 && !a.sim.is_terminate() {
            n += 1;
            a.sim.step();
            b.sim.step();
            p.sim.propagate_signals();
            q.sim.propagate_signals();
            let (sa, sb) = (snap(&a), snap(&b));
            same(&format!("{arch}: two runs by steps, quiet / with terminal output"), &sa, &sb)?;
            let (sp, sq) = (snap(&p), snap(&q));
            same(&format!("{arch}: two runs by phases, quiet / with terminal output"), &sp, &sq)?;
            if !p.sim.is_terminate() {
                p.sim.initiate_next_cycle();
                q.sim.initiate_next_cycle();
            }
            same(&format!("{arch}: by steps / by phases"), &sa, &snap(&p))?;
            same(&format!("{arch}: by steps / by phases with terminal output"), &sa, &snap(&q))?;
        }
        if bystander.mem.read()[..] != before[..] || bystander.sim.registers() != [0; 16] || bystander.sim.cycle_count() != 0 {
            return Err(format!("{arch}: a simulator that was never advanced has changed"));
        }
        Ok(n)
    });
    match r {
        Ok(Ok(n)) => {
            obs.nontrivial = n > 6;
            obs.count("compared cycles", 4 * n);
            Ok(())
        }
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("{arch} crashed: {p}")),
    }
}

/// digest of a whole run (used across processes)
pub fn digest(arch: &str, img: &[u8], cycles: u64) -> String {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    let r = guard(|| {
        let mut s = cut::new_sim(arch, img, false);
        let mut n = 0;
        while n < cycles && !s.sim.is_terminate() {
            n += 1;
            s.sim.step();
            let x = snap(&s);
            (x.pc, x.term, x.cycles, x.regs, x.mem).hash(&mut h);
            for (a, b) in &x.stages {
                (a, b).hash(&mut h);
            }
        }
    });
    if r.is_err() {
        return "crash".into();
    }
    format!("{:016x}", h.finish())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    pub progs: Vec<Prog>,
}

fn across_processes(c: &Batch, obs: &mut Obs) -> Verdict {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let imgs: Vec<Vec<u8>> = c.progs.iter().filter_map(img_of).collect();
    obs.nontrivial = imgs.len() > 1;
    obs.count("programs", imgs.len() as u64);
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("arch-digest")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child process");
    let mut si = ch.stdin.take().unwrap();
    let data: Vec<u8> = imgs.concat();
    let th = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let out = ch.wait_with_output().expect("child process");
    th.join().unwrap();
    let theirs: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
    assert_eq!(theirs.len(), imgs.len() * 3, "child process gave no answer");
    // in the opposite order, so that anything left over from earlier runs shows
    for i in (0..imgs.len()).rev() {
        for (k, arch) in ARCHS.iter().enumerate() {
            if digest(arch, &imgs[i], 150) != theirs[i * 3 + k] {
                return Err(format!("{arch}: program {i} of the batch runs differently in another process"));
            }
        }
    }
    Ok(())
}

pub fn digest_child() {
    use std::io::Read;
    let mut all = vec![];
    std::io::stdin().read_to_end(&mut all).unwrap();
    install_panic_hook();
    for img in all.chunks_exact(crate::isa_ref::MEM) {
        for arch in ARCHS {
            println!("{}", digest(arch, img, 150));
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inter {
    pub sims: Vec<(Prog, u8)>,
    pub schedule: Vec<(u8, u8)>,
}

fn interleaved(c: &Inter, obs: &mut Obs) -> Verdict {
    let jobs: Vec<(Vec<u8>, &str)> =
        c.sims.iter().filter_map(|(p, a)| Some((img_of(p)?, ARCHS[*a as usize % 3]))).collect();
    if jobs.len() < 2 {
        obs.label("skipped: fewer than two programs");
        return Ok(());
    }
    let r = guard(|| -> Result<u64, String> {
        let mut live: Vec<cut::Sim> = jobs.iter().map(|(i, a)| cut::new_sim(a, i, false)).collect();
        let mut traces: Vec<Vec<Snap>> = vec![vec![]; live.len()];
        let mut n = 0;
        for (i, k) in &c.schedule {
            let i = *i as usize % live.len();
            for _ in 0..*k {
                if live[i].sim.is_terminate() {
                    break;
                }
                live[i].sim.step();
                traces[i].push(snap(&live[i]));
                n += 1;
            }
        }
        for (i, (img, arch)) in jobs.iter().enumerate() {
            let mut s = cut::new_sim(arch, img, false);
            for (k, t) in traces[i].iter().enumerate() {
                s.sim.step();
                let x = snap(&s);
                if x != *t {
                    return Err(format!("{arch}: simulator {i} interleaved with others / alone: cycle {}: {}", k + 1, differs(t, &x)));
                }
            }
        }
        Ok(n)
    });
    match r {
        Ok(Ok(n)) => {
            obs.nontrivial = n > 10;
            obs.count("compared cycles", n);
            Ok(())
        }
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("a simulator crashed: {p}")),
    }
}

// ----------------------------------------------------------------------- parts

fn on_prog(f: fn(&[u8], &mut Obs) -> Verdict) -> Box<dyn Fn(&Prog, &mut Obs) -> Verdict + Sync> {
    Box::new(move |p: &Prog, obs| {
        let Some(img) = img_of(p) else {
            obs.label("skipped: overlapping layout");
            return Ok(());
        };
        obs.note = Some(ast::plain(&p.lines()));
        f(&img, obs)
    })
}

fn on_one(f: fn(&[u8], &mut Obs) -> Verdict) -> Box<dyn Fn(&One, &mut Obs) -> Verdict + Sync> {
    Box::new(move |c: &One, obs| {
        obs.note = Some(format!("{c:x?}"));
        f(&c.image(), obs)
    })
}

pub fn part_prog(ctx: &Ctx, name: &'static str, rule: &'static str, n: u64, max: usize, faulty: bool, f: fn(&[u8], &mut Obs) -> Verdict) -> Box<dyn DynPart> {
    Box::new(Part {
        name,
        rule,
        cases: ctx.cases(n),
        shrink_iters: 3000,
        workers: WORKERS,
        strategy: Box::new(move || gen::prog(false, max, faulty)),
        check: on_prog(f),
    })
}

pub fn part_one(ctx: &Ctx, name: &'static str, rule: &'static str, n: u64, edge: bool, f: fn(&[u8], &mut Obs) -> Verdict) -> Box<dyn DynPart> {
    Box::new(Part {
        name,
        rule,
        cases: ctx.cases(n),
        shrink_iters: 3000,
        workers: WORKERS,
        strategy: Box::new(move || crate::p_isa::one(edge, edge)),
        check: on_one(f),
    })
}

pub fn part_long(ctx: &Ctx, n: u64, f: fn(&[u8], &mut Obs) -> Verdict) -> Box<dyn DynPart> {
    let f = on_prog(f);
    Box::new(Part {
        name: "long",
        rule: "programs with loops of up to 70000 rounds and recursion up to 4000 deep; non-trivial: more than 6 instructions or cycles.",
        cases: ctx.cases(n),
        shrink_iters: 100,
        workers: WORKERS,
        strategy: Box::new(|| gen::long(false)),
        check: Box::new(move |p: &Prog, obs| with_fuel(LONG, || f(p, obs))),
    })
}

pub fn c06(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        part_one(ctx, "instruction", "one instruction with arbitrary operands and pre-state on both sequential architectures, compared after every cycle; non-trivial: more than 6 compared cycles.", 60_000, true, lockstep),
        part_prog(ctx, "program", "gadget programs, compared after every cycle up to halt or the first fault; non-trivial: more than 6 compared cycles.", 40_000, 20, false, lockstep),
        part_prog(ctx, "faulting", "gadget programs ending in a fault, compared up to the fault; non-trivial: more than 6 compared cycles.", 15_000, 12, true, lockstep),
        part_long(ctx, 48, lockstep),
    ]
}

pub fn c07(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        part_prog(ctx, "short", "short gadget programs (up to 4 gadgets) on pipe_std; non-trivial: halts after more than 6 instructions.", 300_000, 4, false, final_state),
        part_prog(ctx, "program", "gadget programs on pipe_std, final state compared; non-trivial: halts after more than 6 instructions.", 150_000, 22, false, final_state),
        part_one(ctx, "instruction", "one instruction with arbitrary operands and pre-state; non-trivial: the program halts.", 60_000, true, final_state),
        part_long(ctx, 200, final_state),
    ]
}

pub fn c08(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        part_prog(ctx, "program", "gadget programs ending in a fault followed by instructions with visible effects, on all three architectures; non-trivial: faults after at least 3 instructions.", 150_000, 10, true, precise),
        part_one(ctx, "instruction", "one instruction with arbitrary opcode byte, operands and boundary addresses; non-trivial: it faults.", 150_000, true, precise),
    ]
}

pub fn c09(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        part_prog(ctx, "short", "short gadget programs on all three architectures; non-trivial: halts after more than 6 instructions.", 150_000, 4, false, cycles),
        part_prog(ctx, "program", "gadget programs on all three architectures; non-trivial: halts after more than 6 instructions.", 80_000, 20, false, cycles),
        part_long(ctx, 160, cycles),
    ]
}

pub fn c10(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    let prog = || prop_oneof![2 => gen::prog(true, 12, false), 1 => gen::prog(true, 8, true)];
    vec![
        Box::new(Part {
            name: "modes",
            rule: "one program run four times (by steps or phases, quiet or with terminal output), every signal compared in every cycle; non-trivial: more than 6 cycles.",
            cases: ctx.cases(24_000),
            shrink_iters: 600,
            workers: WORKERS,
            strategy: Box::new(move || (prog(), 1u16..150, 0u8..3).prop_map(|(prog, cycles, arch)| Det { prog, cycles, arch }).boxed()),
            check: Box::new(deterministic),
        }),
        Box::new(Part {
            name: "interleaved",
            rule: "several simulators advanced in random turns, each trace compared with that of a simulator alone; non-trivial: more than 10 cycles.",
            cases: ctx.cases(5000),
            shrink_iters: 400,
            workers: WORKERS,
            strategy: Box::new(move || {
                (prop::collection::vec((prog(), 0u8..3), 2..5), prop::collection::vec((0u8..5, 1u8..8), 1..40))
                    .prop_map(|(sims, schedule)| Inter { sims, schedule })
                    .boxed()
            }),
            check: Box::new(interleaved),
        }),
        Box::new(Part {
            name: "processes",
            rule: "batches of programs traced in this and in another process in different order on all architectures; non-trivial: at least two programs.",
            cases: ctx.cases(400),
            shrink_iters: 60,
            workers: WORKERS,
            strategy: Box::new(move || prop::collection::vec(prog(), 1..12).prop_map(|progs| Batch { progs }).boxed()),
            check: Box::new(across_processes),
        }),
    ]
}
