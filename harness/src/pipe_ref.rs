//! Cycle-level reference model of the five-stage PIPE design (CS:APP, section
//! 4.5): what is in which stage in every cycle. Instructions are decoded once,
//! when fetched, into objects that move from slot to slot.

use crate::isa_ref::{Cc, MEM};

pub const NONE: u8 = 15;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Aok,
    Hlt,
    Adr,
    Ins,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Ctl {
    #[default]
    Normal,
    Stall,
    Bubble,
}

/// an instruction on its way
#[derive(Clone, Copy, Debug)]
pub struct Inst {
    pub pc: u64,
    pub icode: u8,
    pub ifun: u8,
    pub st: St,
    pub src: [u8; 2],
    pub dst_e: u8,
    pub dst_m: u8,
    pub imm: u64,
    pub next: u64,
    /// the design says nothing about this encoding (or about what it is)
    pub odd: bool,
    val: [u64; 2],
    e: u64,
    m: u64,
    cnd: bool,
}

impl Inst {
    fn ends(&self) -> bool {
        self.st != St::Aok
    }
    fn loads(&self) -> bool {
        matches!(self.icode, 5 | 11)
    }
}

type Slot = Option<Inst>;

fn stops(s: &Slot) -> bool {
    s.is_some_and(|i| i.ends())
}

/// what changes the state
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Event {
    /// written by the execution result
    E(u8, u64),
    /// written from memory
    M(u8, u64),
    Store(u64, u64),
    /// operands, result, function, flags
    Flags(u64, u64, u64, u8, Cc),
}

/// what one cycle shows
pub struct Cycle {
    pub events: Vec<Event>,
    pub pc: u64,
    /// the fetch address is not determined by the instruction set
    pub pc_open: bool,
    pub fetched: Inst,
    /// decode, execute, memory, write back at the start of the cycle
    pub slots: [Slot; 4],
    /// fetch, decode, execute, memory, write back at its end
    pub ctl: [Ctl; 5],
    pub done: bool,
    /// registers whose value is not determined any more
    pub open: [u8; 2],
    /// nothing is determined after this cycle
    pub unknown: bool,
}

pub struct Pipe {
    pub mem: Vec<u8>,
    pub regs: [u64; 16],
    pub cc: Cc,
    /// None: behind an odd instruction
    pred: Option<u64>,
    d: Slot,
    e: Slot,
    m: Slot,
    w: Slot,
}

fn word(mem: &[u8], a: u64) -> Option<u64> {
    let a = usize::try_from(a).ok()?;
    Some(u64::from_le_bytes(mem.get(a..a.checked_add(8)?)?.try_into().unwrap()))
}

fn alu(f: u8, a: u64, b: u64) -> (u64, Cc) {
    let (sa, sb) = (a as i64 as i128, b as i64 as i128);
    let (r, of) = match f {
        0 => (b.wrapping_add(a), sb + sa != (sb + sa) as i64 as i128),
        1 => (b.wrapping_sub(a), sb - sa != (sb - sa) as i64 as i128),
        2 => (a & b, false),
        _ => (a ^ b, false),
    };
    (r, Cc { zf: r == 0, sf: (r as i64) < 0, of })
}

impl Pipe {
    pub fn new(img: &[u8]) -> Self {
        Pipe { mem: img.to_vec(), regs: [0; 16], cc: Cc::default(), pred: Some(0), d: None, e: None, m: None, w: None }
    }

    fn fetch(&self, pc: u64) -> Inst {
        let mut i = Inst {
            pc, icode: 1, ifun: 0, st: St::Adr, src: [NONE; 2], dst_e: NONE, dst_m: NONE,
            imm: 0, next: pc.wrapping_add(1), odd: false, val: [0; 2], e: 0, m: 0, cnd: false,
        };
        if pc >= MEM as u64 {
            return i;
        }
        let b = self.mem[pc as usize];
        let (icode, ifun) = (b >> 4, b & 15);
        let len: u64 = match icode {
            2 | 6 | 10 | 11 => 2,
            7 | 8 => 9,
            3 | 4 | 5 | 12 => 10,
            _ => 1,
        };
        if pc + len > MEM as u64 {
            return i;
        }
        i.icode = icode;
        i.ifun = ifun;
        if icode > 11 {
            i.st = St::Ins;
            i.odd = icode == 12;
            return i;
        }
        i.st = if icode == 0 { St::Hlt } else { St::Aok };
        i.next = pc + len;
        let top = match icode {
            2 | 7 => 6,
            6 => 3,
            _ => 0,
        };
        let mut canonical = ifun <= top;
        let (mut a, mut b) = (NONE, NONE);
        if matches!(len, 2 | 10) {
            let r = self.mem[pc as usize + 1];
            (a, b) = (r >> 4, r & 15);
            canonical &= (a != NONE) == (icode != 3) && (b != NONE) == matches!(icode, 2..=6);
        }
        if len >= 9 {
            i.imm = word(&self.mem, i.next - 8).unwrap();
        }
        match icode {
            2 => (i.src, i.dst_e) = ([a, NONE], b),
            3 => i.dst_e = b,
            4 => i.src = [a, b],
            5 => (i.src, i.dst_m) = ([NONE, b], a),
            6 => (i.src, i.dst_e) = ([a, b], b),
            8 => (i.src, i.dst_e) = ([NONE, 4], 4),
            9 => (i.src, i.dst_e) = ([4, 4], 4),
            10 => (i.src, i.dst_e) = ([a, 4], 4),
            11 => (i.src, i.dst_e, i.dst_m) = ([4, 4], 4, a),
            _ => {}
        }
        i.odd = !canonical;
        i
    }

    pub fn cycle(&mut self) -> Cycle {
        let slots = [self.d, self.e, self.m, self.w];
        let [mut d, mut e, mut m, w] = slots;
        let mut open = [NONE; 2];
        let mut events = vec![];
        // write back, before the registers are read
        if let Some(i) = w {
            if i.ends() {
                open = [i.dst_e, i.dst_m];
            }
            if i.dst_e != NONE {
                self.regs[i.dst_e as usize] = i.e;
                events.push(Event::E(i.dst_e, i.e));
            }
            if i.dst_m != NONE {
                self.regs[i.dst_m as usize] = i.m;
                events.push(Event::M(i.dst_m, i.m));
            }
        }
        // memory
        let mut stored = None;
        if let Some(i) = &mut m {
            match i.icode {
                4 | 8 | 10 => {
                    let v = if i.icode == 8 { i.next } else { i.val[0] };
                    if word(&self.mem, i.e).is_some() {
                        self.mem[i.e as usize..i.e as usize + 8].copy_from_slice(&v.to_le_bytes());
                        stored = Some(i.e);
                        events.push(Event::Store(i.e, v));
                    } else {
                        i.st = St::Adr;
                    }
                }
                5 | 9 | 11 => match word(&self.mem, if i.icode == 5 { i.e } else { i.val[0] }) {
                    Some(v) => i.m = v,
                    None => i.st = St::Adr,
                },
                _ => {}
            }
        }
        // execute
        let fault_ahead = stops(&m) || stops(&w);
        if let Some(i) = &mut e {
            let [a, b] = i.val;
            match i.icode {
                2 => i.e = a,
                3 => i.e = i.imm,
                4 | 5 => i.e = b.wrapping_add(i.imm),
                6 => {
                    let (v, cc) = alu(i.ifun, a, b);
                    i.e = v;
                    if !fault_ahead {
                        self.cc = cc;
                        events.push(Event::Flags(a, b, v, i.ifun, cc));
                    }
                }
                8 | 10 => i.e = b.wrapping_sub(8),
                9 | 11 => i.e = b.wrapping_add(8),
                _ => {}
            }
            i.cnd = self.cc.holds(i.ifun);
            if i.icode == 2 && !i.cnd {
                i.dst_e = NONE;
            }
        }
        // decode: the youngest instruction ahead that writes the register
        let at = |r: u8| -> u64 {
            if r == NONE {
                return 0;
            }
            for (k, s) in [e, m, w].iter().enumerate() {
                if let Some(i) = s {
                    if i.dst_m == r && k > 0 {
                        return i.m;
                    }
                    if i.dst_e == r {
                        return i.e;
                    }
                }
            }
            self.regs[r as usize]
        };
        if let Some(i) = &mut d {
            i.val = [at(i.src[0]), at(i.src[1])];
        }
        // fetch
        let mut pc = self.pred;
        if let Some(i) = w.filter(|i| i.icode == 9) {
            pc = Some(i.m).filter(|_| !i.ends());
        }
        if let Some(i) = m.filter(|i| i.icode == 7 && !i.cnd) {
            pc = Some(i.next);
        }
        let pc_open = pc.is_none();
        let pc = pc.unwrap_or(0);
        let mut f = self.fetch(pc);
        f.odd |= pc_open;
        let overlaps = |s: u64| (s as u128) < f.next as u128 && (pc as u128) < s as u128 + 8;
        f.odd |= stored.is_some_and(overlaps);
        let odd = |s: &Slot| s.is_some_and(|i| i.odd);
        let odd_ahead = odd(&e) || odd(&d) && e.is_some_and(|i| i.loads());
        let unknown = odd_ahead && !fault_ahead;
        // control
        let mut ctl = [Ctl::Normal; 5];
        let ret = [&d, &e, &m].iter().any(|s| s.is_some_and(|i| i.icode == 9));
        let wrong = e.is_some_and(|i| i.icode == 7 && !i.cnd);
        let load_use = e.is_some_and(|i| i.loads() && d.is_some_and(|n| n.src.contains(&i.dst_m)));
        if load_use || ret {
            ctl[0] = Ctl::Stall;
        }
        if load_use {
            ctl[1] = Ctl::Stall;
        } else if wrong || ret {
            ctl[1] = Ctl::Bubble;
        }
        if load_use || wrong {
            ctl[2] = Ctl::Bubble;
        }
        if fault_ahead {
            ctl[3] = Ctl::Bubble;
        }
        if stops(&w) {
            ctl[4] = Ctl::Stall;
        }
        // clock
        let jumps = matches!(f.icode, 7 | 8);
        if ctl[0] == Ctl::Normal {
            self.pred = Some(if jumps { f.imm } else { f.next }).filter(|_| !f.odd && !odd_ahead);
        }
        let mv = |c: Ctl, old: Slot, new: Slot| match c {
            Ctl::Normal => new,
            Ctl::Stall => old,
            Ctl::Bubble => None,
        };
        self.w = mv(ctl[4], self.w, m);
        self.m = mv(ctl[3], self.m, e);
        self.e = mv(ctl[2], self.e, d);
        self.d = mv(ctl[1], self.d, Some(f));
        Cycle { events, pc, pc_open, fetched: f, slots, ctl, done: stops(&w), open, unknown }
    }
}
