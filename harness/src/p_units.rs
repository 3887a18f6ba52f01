//! C20: the hardware units against the documentation of their ports.
//!
//! A case is a memory and a history of activations of single units; signals
//! stay where they are between activations, as they do between cycles of a
//! simulation. A model of memory, registers and condition codes follows.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use y86_sim::framework::{HardwareUnits, MemData, MEM_SIZE};
use y86_sim::isa::ConditionCode;

use crate::engine::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Imem(u64),
    /// fetch where an instruction with this code is put into the memory
    Plant(u64, Vec<u8>),
    Align(bool, [u8; 9]),
    Inc(bool, bool, u64),
    Read(u8, u8),
    /// dstE, dstM, valE, valM
    Write(u8, u8, u64, u64),
    /// all ports of a register file that reads and writes
    Both(u8, u8, u8, u8, u64, u64),
    Alu(u64, u64, u8),
    /// set_cc, a, b, fun; e as the ALU gives it, or another value
    Cc(bool, u64, u64, u8, Option<u64>),
    Cond(u8, u8),
    /// test the condition codes that the register shows
    CondNow(u8),
    /// addr, datain, read, write
    Mem(u64, u64, bool, bool),
    /// the memory changes from outside
    Poke(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pipe: bool,
    memory: Vec<(u16, u64)>,
    acts: Vec<Act>,
}

struct Model {
    mem: Vec<u8>,
    regs: [u64; 16],
    /// sf, of, zf; unknown after an undefined operation
    cc: Option<[bool; 3]>,
}

fn length(icode: u8) -> Option<usize> {
    Some(match icode {
        0 | 1 | 9 => 1,
        2 | 6 | 10 | 11 => 2,
        7 | 8 => 9,
        3 | 4 | 5 | 12 => 10,
        _ => return None,
    })
}

fn op(fun: u8, a: u64, b: u64) -> Option<u64> {
    Some(match fun {
        0 => b.wrapping_add(a),
        1 => b.wrapping_sub(a),
        2 => b & a,
        3 => b ^ a,
        _ => return None,
    })
}

fn flags(fun: u8, a: u64, b: u64, e: u64) -> [bool; 3] {
    let (sa, sb) = (a as i64 as i128, b as i64 as i128);
    let exact = match fun {
        0 => sb + sa,
        1 => sb - sa,
        _ => e as i64 as i128,
    };
    [(e as i64) < 0, exact != exact as i64 as i128, e == 0]
}

fn holds(fun: u8, [sf, of, zf]: [bool; 3]) -> Option<bool> {
    Some(match fun {
        0 => true,
        1 => zf || sf != of,
        2 => sf != of,
        3 => zf,
        4 => !zf,
        5 => sf == of,
        6 => !zf && sf == of,
        _ => return None,
    })
}

fn code(c: [bool; 3]) -> ConditionCode {
    let mut r = ConditionCode::default();
    [r.sf, r.of, r.zf] = c;
    r
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |v, x| v << 8 | *x as u64)
}

macro_rules! module {
    ($name:ident, $hw:ident, $read:expr, $write:expr, $both:expr) => {
        fn $name(c: &Case, obs: &mut Obs) -> Verdict {
            use y86_sim::architectures::$hw::{UnitInputSignal, UnitOutputSignal, Units};
            let mut mem = [0u8; MEM_SIZE];
            for (a, v) in &c.memory {
                for (i, b) in v.to_le_bytes().iter().enumerate() {
                    if let Some(x) = mem.get_mut(*a as usize + i) {
                        *x = *b;
                    }
                }
            }
            let data = MemData::init(mem);
            let mut m = Model { mem: mem.to_vec(), regs: [0; 16], cc: Some([false; 3]) };
            let mut u = guard(|| Units::init(data.clone())).map_err(|e| format!("the units crash at the start: {e}"))?;
            let mut i = UnitInputSignal::default();
            let mut o = UnitOutputSignal::default();
            let mut done: Vec<String> = vec![];
            for a in &c.acts {
                done.push(format!("{a:?}"));
                let at = |m: String| format!("{} units: {m}\nafter {}", stringify!($hw), done.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; "));
                macro_rules! run {
                    ($u:expr) => {
                        guard(|| u.run($u, (&i, &mut o))).map_err(|e| at(format!("{} crashes: {e}", $u)))?
                    };
                }
                macro_rules! same {
                    ($what:expr, $got:expr, $want:expr) => {{
                        let (g, w) = ($got, $want);
                        if g != w {
                            return Err(at(format!("{} is {g:x?} instead of {w:x?}", $what)));
                        }
                        obs.count("outputs compared", 1);
                    }};
                }
                match a {
                    Act::Poke(p, b) => {
                        m.mem[*p as usize] = *b;
                        data.write()[*p as usize] = *b;
                    }
                    Act::Imem(_) | Act::Plant(..) => {
                        let pc = match a {
                            Act::Imem(pc) => *pc,
                            Act::Plant(pc, bytes) => {
                                for (k, b) in bytes.iter().enumerate() {
                                    if let Some(x) = usize::try_from(*pc).ok().and_then(|p| p.checked_add(k)).filter(|p| *p < MEM_SIZE) {
                                        m.mem[x] = *b;
                                        data.write()[x] = *b;
                                    }
                                }
                                *pc
                            }
                            _ => unreachable!(),
                        };
                        i.imem.pc = pc;
                        run!("imem");
                        let rest = if pc < MEM_SIZE as u64 { &m.mem[pc as usize..] } else { &[][..] };
                        if rest.is_empty() {
                            obs.label("fetch outside the memory");
                            same!("imem.error", o.imem.error, true);
                        } else {
                            same!("imem.icode", o.imem.icode, rest[0] >> 4);
                            same!("imem.ifun", o.imem.ifun, rest[0] & 15);
                            let n = rest.len().min(10);
                            same!("imem.align", &o.imem.align[..n - 1], &rest[1..n]);
                            if let Some(l) = length(rest[0] >> 4) {
                                obs.label_if(rest.len() < 10, "fetch at the end of the memory");
                                same!("imem.error", o.imem.error, l > rest.len());
                            } else if n == 10 {
                                same!("imem.error", o.imem.error, false);
                            }
                        }
                    }
                    Act::Align(need, b) => {
                        i.ialign.need_regids = *need;
                        i.ialign.align = *b;
                        run!("ialign");
                        if *need {
                            same!("ialign.rA", o.ialign.rA, b[0] >> 4);
                            same!("ialign.rB", o.ialign.rB, b[0] & 15);
                            same!("ialign.valC", o.ialign.valC, le(&b[1..]));
                        } else {
                            same!("ialign.rA", o.ialign.rA, 15);
                            same!("ialign.rB", o.ialign.rB, 15);
                            same!("ialign.valC", o.ialign.valC, le(&b[..8]));
                        }
                    }
                    Act::Inc(v, r, pc) => {
                        i.pc_inc.need_valC = *v;
                        i.pc_inc.need_regids = *r;
                        i.pc_inc.old_pc = *pc;
                        run!("pc_inc");
                        same!("pc_inc.new_pc", o.pc_inc.new_pc, pc.wrapping_add(1 + 8 * *v as u64 + *r as u64));
                    }
                    Act::Read(..) | Act::Write(..) | Act::Both(..) => {
                        let (sa, sb, de, dm, ve, vm) = match *a {
                            Act::Read(a, b) => (a % 16, b % 16, 15, 15, 3, 4),
                            Act::Write(e, m, ve, vm) => (15, 15, e % 16, m % 16, ve, vm),
                            Act::Both(a, b, e, m, ve, vm) => (a % 16, b % 16, e % 16, m % 16, ve, vm),
                            _ => unreachable!(),
                        };
                        let mut put = |m: &mut Model| {
                            if de != 15 {
                                m.regs[de as usize] = ve;
                            }
                            if dm != 15 {
                                m.regs[dm as usize] = vm;
                            }
                        };
                        let of = |m: &Model, r: u8| if r == 15 { 0 } else { m.regs[r as usize] };
                        obs.label_if(de == dm && de != 15, "both writes to one register");
                        let ports = (sa, sb, de, dm, ve, vm);
                        if let Some(f) = $both {
                            let f: fn(&mut UnitInputSignal, (u8, u8, u8, u8, u64, u64)) = f;
                            f(&mut i, ports);
                            run!("reg_file");
                            put(&mut m);
                            let r: fn(&UnitOutputSignal) -> (u64, u64) = $read;
                            same!("reg_file.valA", r(&o).0, of(&m, sa));
                            same!("reg_file.valB", r(&o).1, of(&m, sb));
                        } else {
                            let f: fn(&mut UnitInputSignal, (u8, u8, u8, u8, u64, u64)) = $write;
                            f(&mut i, ports);
                            run!("reg_read");
                            let r: fn(&UnitOutputSignal) -> (u64, u64) = $read;
                            same!("reg_read.valA", r(&o).0, of(&m, sa));
                            same!("reg_read.valB", r(&o).1, of(&m, sb));
                            run!("reg_write");
                            put(&mut m);
                        }
                        same!("the register file", &u.register_file()[..15], &m.regs[..15]);
                    }
                    Act::Alu(a, b, f) => {
                        (i.alu.a, i.alu.b, i.alu.fun) = (*a, *b, *f);
                        run!("alu");
                        if let Some(e) = op(*f, *a, *b) {
                            same!("alu.e", o.alu.e, e);
                        }
                    }
                    Act::Cc(set, a, b, f, e) => {
                        let e = e.or(op(*f, *a, *b)).unwrap_or(0);
                        let natural = op(*f, *a, *b) == Some(e);
                        i.reg_cc.set_cc = *set;
                        (i.reg_cc.a, i.reg_cc.b, i.reg_cc.e, i.reg_cc.opfun) = (*a, *b, e, *f);
                        run!("reg_cc");
                        if *set {
                            m.cc = natural.then(|| flags(*f, *a, *b, e));
                            obs.label_if(natural && flags(*f, *a, *b, e)[1], "overflow");
                        }
                        let g = [o.reg_cc.cc.sf, o.reg_cc.cc.of, o.reg_cc.cc.zf];
                        match m.cc {
                            Some(w) => same!("reg_cc.cc (sf, of, zf)", g, w),
                            // whatever it is, it stays
                            None => m.cc = Some(g),
                        }
                    }
                    Act::Cond(f, c) => {
                        let c = [c & 1 != 0, c & 2 != 0, c & 4 != 0];
                        i.cond.condfun = *f;
                        i.cond.cc = code(c);
                        run!("cond");
                        if let Some(w) = holds(*f, c) {
                            same!("cond.cnd", o.cond.cnd, w);
                        }
                    }
                    Act::CondNow(f) => {
                        i.cond.condfun = *f;
                        i.cond.cc = o.reg_cc.cc.clone();
                        let c = [o.reg_cc.cc.sf, o.reg_cc.cc.of, o.reg_cc.cc.zf];
                        run!("cond");
                        if let Some(w) = holds(*f, c) {
                            same!("cond.cnd", o.cond.cnd, w);
                        }
                    }
                    Act::Mem(addr, v, read, write) => {
                        (i.dmem.addr, i.dmem.datain, i.dmem.read, i.dmem.write) = (*addr, *v, *read, *write);
                        run!("dmem");
                        let ok = *addr <= MEM_SIZE as u64 - 8;
                        same!("dmem.error", o.dmem.error, !ok);
                        let w = if ok { Some(*addr as usize..*addr as usize + 8) } else { None };
                        let before = w.clone().map(|w| le(&m.mem[w])).unwrap_or(0);
                        if let (Some(w), true) = (&w, *write) {
                            m.mem[w.clone()].copy_from_slice(&v.to_le_bytes());
                        }
                        // doing both at once is not documented
                        match (*read, *write) {
                            (true, false) if ok => same!("dmem.dataout", o.dmem.dataout, before),
                            (false, _) => same!("dmem.dataout without reading", o.dmem.dataout, 0),
                            _ => {}
                        }
                        obs.label_if(!ok, "data address outside the memory");
                    }
                }
                if let Some(at_) = (*data.read() != m.mem[..]).then(|| (0..MEM_SIZE).find(|k| data.read()[*k] != m.mem[*k]).unwrap()) {
                    return Err(at(format!("memory byte {at_:#x} is {:#x} instead of {:#x}", data.read()[at_], m.mem[at_])));
                }
            }
            obs.nontrivial = c.acts.iter().any(|a| matches!(a, Act::Write(..) | Act::Both(..) | Act::Mem(_, _, _, true) | Act::Cc(true, ..)));
            Ok(())
        }
    };
}

type Ports = (u8, u8, u8, u8, u64, u64);
module!(
    seq,
    hardware_seq,
    |o| (o.reg_read.valA, o.reg_read.valB),
    |i: &mut UnitInputSignal, p: Ports| {
        (i.reg_read.srcA, i.reg_read.srcB) = (p.0, p.1);
        (i.reg_write.dstE, i.reg_write.dstM, i.reg_write.valE, i.reg_write.valM) = (p.2, p.3, p.4, p.5);
    },
    None::<fn(&mut UnitInputSignal, Ports)>
);
module!(
    pipe,
    hardware_pipe,
    |o| (o.reg_file.valA, o.reg_file.valB),
    |_: &mut UnitInputSignal, _: Ports| {},
    Some(|i: &mut UnitInputSignal, p: Ports| {
        let r = &mut i.reg_file;
        (r.srcA, r.srcB, r.dstE, r.dstM, r.valE, r.valM) = p;
    })
);

fn word() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        3 => prop::sample::select(vec![0u64, 1, 2, 7, 8, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 62, 1 << 32, (1 << 32) - 1, 0x0102030405060708]),
        2 => 0u64..20,
        1 => (0u64..20).prop_map(|v| v.wrapping_neg()),
        1 => (0u32..64).prop_map(|s| 1u64 << s),
    ]
    .boxed()
}

fn addr() -> BoxedStrategy<u64> {
    prop_oneof![
        5 => 0u64..48,
        3 => 65536u64 - 24..65536 + 12,
        2 => 0u64..65536,
        2 => word(),
        1 => (0u64..24).prop_map(|v| (1u64 << 32) + v),
        1 => (0u64..24).prop_map(|v| 0u64.wrapping_sub(v)),
    ]
    .boxed()
}

fn fun() -> BoxedStrategy<u8> {
    prop_oneof![6 => 0u8..4, 2 => 0u8..8, 1 => any::<u8>()].boxed()
}

fn act() -> BoxedStrategy<Act> {
    let r = || prop_oneof![4 => 0u8..4, 2 => 0u8..16, 2 => Just(15u8)];
    prop_oneof![
        2 => addr().prop_map(Act::Imem),
        2 => (addr(), (0u8..13), 0u8..8, prop::collection::vec(any::<u8>(), 0..10)).prop_map(|(a, i, f, mut v)| {
            v.insert(0, i << 4 | f);
            Act::Plant(a, v)
        }),
        1 => (any::<bool>(), any::<[u8; 9]>()).prop_map(|(a, b)| Act::Align(a, b)),
        1 => (any::<bool>(), any::<bool>(), addr()).prop_map(|(a, b, c)| Act::Inc(a, b, c)),
        2 => (r(), r()).prop_map(|(a, b)| Act::Read(a, b)),
        3 => (r(), r(), word(), word()).prop_map(|(a, b, c, d)| Act::Write(a, b, c, d)),
        3 => (r(), r(), r(), r(), word(), word()).prop_map(|(a, b, c, d, e, f)| Act::Both(a, b, c, d, e, f)),
        2 => (word(), word(), fun()).prop_map(|(a, b, f)| Act::Alu(a, b, f)),
        4 => (any::<bool>(), word(), word(), fun(), prop_oneof![9 => Just(None), 1 => word().prop_map(Some)]).prop_map(|(s, a, b, f, e)| Act::Cc(s, a, b, f, e)),
        1 => (prop_oneof![5 => 0u8..7, 1 => any::<u8>()], 0u8..8).prop_map(|(f, c)| Act::Cond(f, c)),
        1 => (0u8..7).prop_map(Act::CondNow),
        6 => (addr(), word(), any::<bool>(), prop_oneof![2 => Just(false), 1 => Just(true)]).prop_map(|(a, v, r, w)| Act::Mem(a, v, r, w)),
        1 => (addr().prop_map(|a| a as u16), any::<u8>()).prop_map(|(a, v)| Act::Poke(a, v)),
    ]
    .boxed()
}

pub fn c20(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![Box::new(Part {
        name: "units",
        rule: "at least one activation that changes a state (a register, the condition codes or the memory)",
        cases: ctx.cases(600_000),
        shrink_iters: 3000,
        workers: WORKERS,
        strategy: Box::new(|| {
            (any::<bool>(), prop::collection::vec((addr().prop_map(|a| a as u16), any::<u64>()), 0..8), prop::collection::vec(act(), 1..40))
                .prop_map(|(pipe, memory, acts)| Case { pipe, memory, acts })
                .boxed()
        }),
        check: Box::new(|c, obs| {
            obs.label(if c.pipe { "hardware_pipe" } else { "hardware_seq" });
            if c.pipe {
                pipe(c, obs)
            } else {
                seq(c, obs)
            }
        }),
    })]
}
