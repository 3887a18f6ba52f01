//! C04 / C05: the ISA simulator against the reference machine.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ast;
use crate::cut;
use crate::engine::*;
use crate::gen::{self, Prog};
use crate::isa_ref::{Fault, Machine, Step, MEM};

pub const FUEL: u64 = 4000;
/// for programs with long loops
pub const LONG: u64 = 400_000;

thread_local! { static LIMIT: std::cell::Cell<u64> = const { std::cell::Cell::new(FUEL) }; }

/// instructions the reference executes before it gives up
pub fn fuel() -> u64 {
    LIMIT.with(|l| l.get())
}

pub fn with_fuel<T>(n: u64, f: impl FnOnce() -> T) -> T {
    LIMIT.with(|l| l.set(n));
    let r = f();
    LIMIT.with(|l| l.set(FUEL));
    r
}

pub fn img_of(p: &Prog) -> Option<Vec<u8>> {
    ast::assemble(&p.lines()).ok().map(|a| a.image)
}

fn compare(img: &[u8], m: &Machine) -> Verdict {
    match cut::isa(img, m.n) {
        Err(p) => Err(format!("the ISA simulator crashed: {p}")),
        Ok(Err(e)) => Err(format!("the ISA simulator failed on a program that halts: {e}")),
        Ok(Ok(s)) => {
            if s.regs[..15] != m.regs[..15] {
                return Err(format!("registers: {}", cut::regs_diff(&s.regs, &m.regs)));
            }
            if s.mem != m.mem {
                return Err(format!("memory: {}", cut::mem_diff(&s.mem, &m.mem)));
            }
            if s.cc != m.cc {
                return Err(format!("condition codes {:?}, should be {:?}", s.cc, m.cc));
            }
            if s.pc != m.pc {
                return Err(format!("pc {:#x}, should be {:#x}", s.pc, m.pc));
            }
            if s.n != m.n {
                return Err(format!("{} instructions counted, should be {}", s.n, m.n));
            }
            Ok(())
        }
    }
}

pub fn label_events(obs: &mut Obs, evs: &[crate::isa_ref::Event]) {
    for e in evs {
        obs.label(match e.icode {
            2 => "cmov",
            4 | 5 => "load/store",
            6 => "opq",
            7 if !e.taken => "jump not taken",
            7 => "jump taken",
            8 => "call",
            9 => "ret",
            10 | 11 => "push/pop",
            12 => "iopq",
            _ => "other",
        });
        if e.icode == 10 && e.src[0] == 4 {
            obs.label("pushq %rsp");
        }
        if e.icode == 11 && e.dst_m == 4 {
            obs.label("popq %rsp");
        }
    }
}

fn halting(p: &Prog, obs: &mut Obs) -> Verdict {
    let Some(img) = img_of(p) else {
        obs.label("skipped: overlapping layout");
        return Ok(());
    };
    let mut m = Machine::new(&img);
    let (end, evs) = m.run(fuel());
    if end != Some(Step::Halt) {
        obs.label("skipped: does not halt");
        return Ok(());
    }
    obs.nontrivial = evs.len() > 6;
    label_events(obs, &evs);
    obs.count("instructions", evs.len() as u64);
    obs.label_if(evs.len() > 65_536, "more than 65536 instructions");
    obs.note = Some(ast::plain(&p.lines()));
    compare(&img, &m)
}

/// one instruction with freely chosen operands and pre-state
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    pub at: u64,
    pub bytes: Vec<u8>,
    pub regs: Vec<u64>,
    /// operation and operands that set the condition codes
    pub cc: (u8, u64, u64),
    pub mem: Vec<(u64, u64)>,
}

impl One {
    /// image: set up registers and condition codes, jump to `at`
    pub fn image(&self) -> Vec<u8> {
        let mut img = vec![0u8; MEM];
        let mut pc = 0;
        let mut put = |b: &[u8]| {
            img[pc..pc + b.len()].copy_from_slice(b);
            pc += b.len();
        };
        // condition codes from b op a
        for (r, v) in [(0u8, self.cc.1), (1, self.cc.2)] {
            put(&[0x30, 0xf0 | r]);
            put(&v.to_le_bytes());
        }
        put(&[0x60 | self.cc.0, 0x01]);
        for (r, v) in self.regs.iter().enumerate().take(15) {
            put(&[0x30, 0xf0 | r as u8]);
            put(&v.to_le_bytes());
        }
        put(&[0x70]);
        put(&self.at.to_le_bytes());
        for (a, v) in &self.mem {
            for (i, b) in v.to_le_bytes().iter().enumerate() {
                if let Some(x) = img.get_mut((*a as usize).wrapping_add(i)) {
                    *x = *b;
                }
            }
        }
        for (i, b) in self.bytes.iter().enumerate() {
            if let Some(x) = img.get_mut((self.at as usize).wrapping_add(i)) {
                *x = *b;
            }
        }
        img
    }
}

fn instr_bytes(anyfun: bool) -> BoxedStrategy<Vec<u8>> {
    let opcodes: Vec<u8> = {
        let mut v = vec![0x00, 0x10, 0x30, 0x40, 0x50, 0x80, 0x90, 0xa0, 0xb0];
        v.extend((0..7).flat_map(|f| [0x20 | f, 0x70 | f]));
        v.extend((0..4).flat_map(|f| [0x60 | f, 0xc0 | f]));
        v
    };
    let op = if anyfun { prop_oneof![3 => prop::sample::select(opcodes), 1 => any::<u8>()].boxed() } else { prop::sample::select(opcodes).boxed() };
    (op, 0u8..15, 0u8..15, prop_oneof![2 => gen::value().boxed(), 3 => (0u64..0x100).boxed(), 1 => (0u64..0x100).prop_map(|x| x.wrapping_neg()).boxed(), 2 => (0x1000u64..0xffff).boxed(), 1 => (0xfff0u64..0x10002).boxed()], any::<u8>())
        .prop_map(|(o, a, b, v, k)| {
            let o = if k % 8 == 0 { [0x40, 0x50, 0x80, 0x90, 0xa0, 0xb0][(k / 8) as usize % 6] } else { o };
            let mut out = vec![o];
            match o >> 4 {
                2 | 4 | 5 | 6 => out.push(a << 4 | b),
                3 | 12 => out.push(0xf0 | b),
                10 | 11 => out.push(a << 4 | 15),
                _ => {}
            }
            if matches!(o >> 4, 3 | 4 | 5 | 7 | 8 | 12) {
                out.extend(v.to_le_bytes());
            }
            out
        })
        .boxed()
}

fn addrish() -> BoxedStrategy<u64> {
    prop_oneof![2 => gen::value(), 5 => 0x1000u64..0xfff9, 1 => gen::bad_addr(), 2 => 0xffe0u64..0x10010].boxed()
}

pub fn one(anyfun: bool, edge: bool) -> BoxedStrategy<One> {
    let at = if edge {
        prop_oneof![2 => 0x400u64..0x1000, 3 => 0xffe8u64..0x10000].boxed()
    } else {
        prop_oneof![2 => 0x400u64..0x1000, 1 => 0xffe0u64..0xfff0].boxed()
    };
    (at, instr_bytes(anyfun), prop::collection::vec(addrish(), 15), gen::flags(), prop::collection::vec((0x1000u64..0xffe0, gen::value()), 0..3))
        .prop_map(|(at, bytes, regs, cc, mem)| One { at, bytes, regs, cc, mem })
        .boxed()
}

fn single(c: &One, obs: &mut Obs) -> Verdict {
    let img = c.image();
    let mut m = Machine::new(&img);
    let (end, evs) = m.run(FUEL);
    obs.note = Some(format!("{c:x?}"));
    judge(&img, m, end, &evs, obs)
}

fn judge(img: &[u8], m: Machine, end: Option<Step>, evs: &[crate::isa_ref::Event], obs: &mut Obs) -> Verdict {
    match end {
        None => {
            obs.label("skipped: runs on");
            Ok(())
        }
        Some(Step::Halt) => {
            obs.label("halts");
            obs.nontrivial = true;
            label_events(obs, evs);
            compare(img, &m)
        }
        Some(Step::Fault(Fault::Field)) => {
            // registers fields outside the canonical encoding: any result or error, no crash
            obs.label("non-canonical field");
            let mut l = Machine::new(img);
            l.lenient = true;
            if l.run(FUEL).0.is_none() {
                return Ok(());
            }
            cut::isa(img, l.n).map(|_| ()).map_err(|p| format!("the ISA simulator crashed: {p}"))
        }
        Some(Step::Fault(f)) => {
            obs.nontrivial = true;
            obs.label(match f {
                Fault::Fetch => "fault: fetch",
                Fault::Op => "fault: opcode",
                Fault::Fun => "fault: function code",
                _ => match evs.last().map(|e| e.icode) {
                    Some(4) => "fault: store",
                    Some(5) => "fault: load",
                    Some(8) => "fault: call",
                    Some(9) => "fault: ret",
                    Some(10) => "fault: push",
                    _ => "fault: pop",
                },
            });
            match cut::isa(img, m.n) {
                Err(p) => Err(format!("the ISA simulator crashed on a {f:?} fault at pc {:#x}: {p}", m.pc)),
                Ok(Ok(s)) => Err(format!("the ISA simulator reported a normal result (pc {:#x}, {} instructions) for a program with a {f:?} fault at pc {:#x}", s.pc, s.n, m.pc)),
                Ok(Err(_)) => Ok(()),
            }
        }
        Some(Step::Ok) => unreachable!(),
    }
}

fn faulting(p: &Prog, obs: &mut Obs) -> Verdict {
    let Some(img) = img_of(p) else {
        obs.label("skipped: overlapping layout");
        return Ok(());
    };
    let mut m = Machine::new(&img);
    let (end, evs) = m.run(FUEL);
    obs.note = Some(ast::plain(&p.lines()));
    judge(&img, m, end, &evs, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub bytes: Vec<u8>,
    pub tail: Vec<u8>,
    pub fill: u8,
}

fn raw(c: &Raw, obs: &mut Obs) -> Verdict {
    let mut img = vec![c.fill; MEM];
    img[..c.bytes.len()].copy_from_slice(&c.bytes);
    img[MEM - c.tail.len()..].copy_from_slice(&c.tail);
    let mut m = Machine::new(&img);
    let (end, evs) = m.run(if c.fill == 0x10 { 70_000 } else { FUEL });
    judge(&img, m, end, &evs, obs)
}

fn raw_strategy() -> BoxedStrategy<Raw> {
    let soup = prop::collection::vec(prop_oneof![6 => instr_bytes(true), 1 => any::<u8>().prop_map(|b| vec![b])], 0..30).prop_map(|v| v.concat());
    let noise = prop::collection::vec(any::<u8>(), 0..64);
    (prop_oneof![4 => soup.clone(), 1 => noise], prop::collection::vec(any::<u8>(), 0..12), prop_oneof![160 => Just(0u8), 1 => Just(0x10), 3 => any::<u8>()])
        .prop_map(|(bytes, tail, fill)| Raw { bytes, tail, fill })
        .boxed()
}

pub fn c04(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        Box::new(Part {
            name: "instruction",
            rule: "one instruction at any address with arbitrary operands, 15 register values, condition codes and memory; non-trivial: it executes and the program halts.",
            cases: ctx.cases(360_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| one(false, false)),
            check: Box::new(|c: &One, obs| {
                let img = c.image();
                let mut m = Machine::new(&img);
                let (end, evs) = m.run(FUEL);
                if end != Some(Step::Halt) {
                    obs.label("skipped: faults or runs on");
                    return Ok(());
                }
                obs.note = Some(format!("{c:x?}"));
                judge(&img, m, end, &evs, obs)
            }),
        }),
        Box::new(Part {
            name: "program",
            rule: "gadget programs (all 13 classes, loops, calls, stack, self-modification); non-trivial: halts after more than 6 instructions.",
            cases: ctx.cases(240_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| gen::prog(true, 24, false)),
            check: Box::new(halting),
        }),
        Box::new(Part {
            name: "long",
            rule: "programs with loops of up to 70000 rounds and recursion up to 4000 deep; non-trivial: halts after more than 6 instructions.",
            cases: ctx.cases(1600),
            shrink_iters: 400,
            workers: WORKERS,
            strategy: Box::new(|| gen::long(true)),
            check: Box::new(|p: &Prog, obs| with_fuel(LONG, || halting(p, obs))),
        }),
    ]
}

pub fn c05(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        Box::new(Part {
            name: "instruction",
            rule: "one instruction with arbitrary opcode byte, register values and boundary addresses, also in the last bytes of memory; non-trivial: it faults or halts under the reference.",
            cases: ctx.cases(300_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| one(true, true)),
            check: Box::new(single),
        }),
        Box::new(Part {
            name: "program",
            rule: "gadget programs ending in a fault of each kind at boundary addresses; non-trivial: the reference reaches the fault.",
            cases: ctx.cases(150_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| gen::prog(true, 12, true)),
            check: Box::new(faulting),
        }),
        Box::new(Part {
            name: "image",
            rule: "images of random instruction soup, random bytes, random last bytes and fill byte; non-trivial: execution ends within the instruction limit.",
            cases: ctx.cases(200_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(raw_strategy),
            check: Box::new(raw),
        }),
    ]
}
