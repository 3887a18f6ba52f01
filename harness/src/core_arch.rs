//! A processor that runs one whole instruction per cycle on the reference
//! machine, with defects chosen at run time. Compiled both into the harness
//! (to predict what the architecture does) and into the architecture itself.

use super::isa_ref::{Machine, Step};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Defect {
    pub kind: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

/// flips register a by b when halting
pub const REG: u8 = 1;
/// flips memory byte a by b when halting
pub const MEMB: u8 = 2;
/// flips register a by b after instruction c, flips it back two cycles later
pub const TEMP: u8 = 3;
/// instruction a, function b (16: all) has no effect
pub const SKIP: u8 = 4;
/// jump (7) or move (2) a with condition b decides wrongly when the flags
/// say less (0), equal (1), greater (2) or ever (3)
pub const COND: u8 = 5;
/// instruction a, function b is not supported: stops there
pub const STOP: u8 = 6;
/// stops after a instructions
pub const EARLY: u8 = 7;
/// idles for a cycles after halt
pub const LATE: u8 = 8;
/// never reports termination
pub const STUCK: u8 = 9;
/// wrong condition codes at the end
pub const FLAGS: u8 = 10;
/// the result of instruction a, function b is off by c
pub const RESULT: u8 = 11;
/// flips memory byte a by b after instruction c, flips it back two cycles later
pub const TEMPM: u8 = 12;
/// swaps registers a and b at the end
pub const SWAP: u8 = 13;

impl Defect {
    pub fn parse(s: &str) -> Defect {
        let f: Vec<u64> = s.split(':').map(|x| x.parse().unwrap_or(0)).collect();
        let g = |i: usize| f.get(i).copied().unwrap_or(0);
        Defect { kind: g(0) as u8, a: g(1), b: g(2), c: g(3) }
    }
    pub fn text(&self) -> String {
        format!("{}:{}:{}:{}", self.kind, self.a, self.b, self.c)
    }
}

pub struct Core {
    pub m: Machine,
    pub d: Defect,
    pub cycles: u64,
    pub halted: bool,
    pub over: bool,
    idle: u64,
}

impl Core {
    pub fn new(image: &[u8], d: Defect) -> Self {
        Core { m: Machine::new(image), d, cycles: 0, halted: false, over: false, idle: 0 }
    }

    fn flip_mem(&mut self) {
        let a = self.d.a as usize % self.m.mem.len();
        self.m.mem[a] ^= self.d.b as u8;
    }

    fn flip_reg(&mut self) {
        self.m.regs[self.d.a as usize % 15] ^= self.d.b;
    }

    pub fn cycle(&mut self) {
        if self.over {
            return;
        }
        self.cycles += 1;
        let (k, a, b, c) = (self.d.kind, self.d.a, self.d.b, self.d.c);
        if self.halted {
            if self.idle == 0 {
                self.over = true;
            } else {
                self.idle -= 1;
            }
            return;
        }
        if k == EARLY && self.m.n >= a {
            self.over = true;
            return;
        }
        let pc = self.m.pc as usize;
        let b0 = self.m.mem.get(pc).copied();
        let hit = b0.is_some_and(|x| (x >> 4) as u64 == a && ((x & 15) as u64 == b || b == 16));
        if k == STOP && hit {
            self.over = true;
            return;
        }
        let was = self.m.clone_state();
        let mut flipped = false;
        if k == COND && hit {
            let s = self.m.cc.sf != self.m.cc.of;
            let rel = if self.m.cc.zf { 1 } else if s { 0 } else { 2 };
            flipped = c == 3 || c == rel;
        }
        match self.m.step() {
            Step::Halt => {
                self.halted = true;
                match k {
                    REG => self.flip_reg(),
                    MEMB => self.flip_mem(),
                    FLAGS => self.m.cc.zf = !self.m.cc.zf,
                    SWAP => self.m.regs.swap(a as usize % 15, b as usize % 15),
                    LATE => self.idle = a,
                    _ => {}
                }
                self.over = k != LATE && k != STUCK;
                if k == STUCK {
                    self.idle = u64::MAX;
                }
                return;
            }
            Step::Fault(_) => {
                self.over = true;
                return;
            }
            Step::Ok => {}
        }
        let ev = self.m.last;
        if k == SKIP && hit {
            self.m.regs = was.0;
            self.m.cc = was.1;
            if let Some(s) = ev.store {
                let s = s as usize;
                self.m.mem[s..s + 8].copy_from_slice(&was.2);
            }
            self.m.pc = ev.pc + ev.len;
        }
        if flipped {
            if ev.icode == 7 {
                let target = u64::from_le_bytes(self.m.mem[pc + 1..pc + 9].try_into().unwrap());
                self.m.pc = if ev.taken { ev.pc + ev.len } else { target };
            } else {
                let (d, s) = (ev.dst_e as usize, ev.src[0] as usize);
                self.m.regs[d] = if ev.taken { was.0[d] } else { was.0[s] };
            }
        }
        if k == RESULT && hit {
            for r in [ev.dst_m, ev.dst_e] {
                if r < 15 {
                    self.m.regs[r as usize] = self.m.regs[r as usize].wrapping_add(c);
                    break;
                }
            }
        }
        if k == TEMP && (self.cycles == c || self.cycles == c + 2) {
            self.flip_reg();
        }
        if k == TEMPM && (self.cycles == c || self.cycles == c + 2) {
            self.flip_mem();
        }
    }
}

impl Machine {
    fn clone_state(&self) -> ([u64; 16], super::isa_ref::Cc, [u8; 8]) {
        let mut w = [0u8; 8];
        // the only place a store can go below is known before the step
        let pc = self.pc as usize;
        if let Some(b0) = self.mem.get(pc) {
            let word = |i: usize| self.mem.get(i..i + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap())).unwrap_or(0);
            let at = match b0 >> 4 {
                4 => word(pc + 2).wrapping_add(self.regs[(self.mem.get(pc + 1).copied().unwrap_or(0) & 15) as usize]),
                8 | 10 => self.regs[4].wrapping_sub(8),
                _ => 0,
            };
            if let Some(s) = usize::try_from(at).ok().and_then(|a| self.mem.get(a..a.checked_add(8)?)) {
                w.copy_from_slice(s);
            }
        }
        (self.regs, self.cc, w)
    }
}
