//! Independent reference model of the Y86-64 instruction set, written from the
//! CS:APP definition (and the `iopq` extension), sharing no code with /repo.

pub const MEM: usize = 1 << 16;
pub const RSP: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Cc {
    pub zf: bool,
    pub sf: bool,
    pub of: bool,
}

impl Cc {
    /// cmov/jump conditions 0..=6
    pub fn holds(self, f: u8) -> bool {
        let lt = self.sf != self.of;
        match f {
            0 => true,
            1 => lt || self.zf,
            2 => lt,
            3 => self.zf,
            4 => !self.zf,
            5 => !lt,
            6 => !lt && !self.zf,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// some byte of the instruction lies outside memory
    Fetch,
    /// unknown opcode
    Op,
    /// function code not defined for the opcode
    Fun,
    /// register field other than the canonical encoding (don't-care)
    Field,
    /// data access with a byte outside memory
    Mem,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    Ok,
    Halt,
    Fault(Fault),
}

/// What one executed instruction did, for timing and hazard analysis.
#[derive(Clone, Copy, Debug, Default)]
pub struct Event {
    pub pc: u64,
    pub icode: u8,
    pub ifun: u8,
    pub len: u64,
    /// registers the decode stage reads (15 = none)
    pub src: [u8; 2],
    pub dst_e: u8,
    pub dst_m: u8,
    pub taken: bool,
    pub store: Option<u64>,
    pub load: Option<u64>,
}

#[derive(Clone)]
pub struct Machine {
    pub mem: Vec<u8>,
    pub regs: [u64; 16],
    pub cc: Cc,
    pub pc: u64,
    /// executed instructions, halt included
    pub n: u64,
    /// tolerate non-canonical register fields (only used to decide termination)
    pub lenient: bool,
    /// the extended iopq instruction is not supported (built-in architectures)
    pub no_iopq: bool,
    pub last: Event,
}

fn alu(f: u8, a: u64, b: u64) -> (u64, Cc) {
    // computes b OP a in 128-bit signed arithmetic, so the overflow flag is
    // derived from the mathematical result rather than from sign tricks
    let (sa, sb) = (a as i64 as i128, b as i64 as i128);
    let (r, of) = match f {
        0 => (b.wrapping_add(a), sb + sa != (sb + sa) as i64 as i128),
        1 => (b.wrapping_sub(a), sb - sa != (sb - sa) as i64 as i128),
        2 => (a & b, false),
        _ => (a ^ b, false),
    };
    (r, Cc { zf: r == 0, sf: (r as i64) < 0, of })
}

impl Machine {
    pub fn new(image: &[u8]) -> Self {
        assert_eq!(image.len(), MEM);
        Machine { mem: image.to_vec(), regs: [0; 16], cc: Cc::default(), pc: 0, n: 0, lenient: false, no_iopq: false, last: Event::default() }
    }

    fn ld(&self, a: u64) -> Option<u64> {
        let a = usize::try_from(a).ok()?;
        let s = self.mem.get(a..a.checked_add(8)?)?;
        Some(u64::from_le_bytes(s.try_into().unwrap()))
    }

    fn st(&mut self, a: u64, v: u64) -> Option<()> {
        let a = usize::try_from(a).ok()?;
        self.mem.get_mut(a..a.checked_add(8)?)?.copy_from_slice(&v.to_le_bytes());
        Some(())
    }

    /// Execute one instruction. On a fault nothing changes (except `last`).
    pub fn step(&mut self) -> Step {
        use Step::Fault as F;
        let pc = self.pc;
        if pc >= MEM as u64 {
            self.last = Event { pc, src: [15; 2], dst_e: 15, dst_m: 15, ..Event::default() };
            return F(Fault::Fetch);
        }
        let b0 = self.mem[pc as usize];
        let (icode, ifun) = (b0 >> 4, b0 & 15);
        let mut ev = Event { pc, icode, ifun, len: 1, src: [15; 2], dst_e: 15, dst_m: 15, ..Event::default() };
        self.last = ev;
        if icode > 12 || icode == 12 && self.no_iopq {
            return F(Fault::Op);
        }
        let maxfun = match icode {
            2 | 7 => 6,
            6 | 12 => 3,
            _ => 0,
        };
        let len: u64 = match icode {
            0 | 1 | 9 => 1,
            2 | 6 | 10 | 11 => 2,
            7 | 8 => 9,
            _ => 10,
        };
        ev.len = len;
        self.last = ev;
        if ifun > maxfun {
            return F(Fault::Fun);
        }
        if pc + len > MEM as u64 {
            return F(Fault::Fetch);
        }
        let byte = |i: u64| self.mem[(pc + i) as usize];
        let word = |i: u64| self.ld(pc + i).unwrap();
        let next = pc + len;
        let (mut ra, mut rb) = (15u8, 15u8);
        if matches!(len, 2 | 10) {
            ra = byte(1) >> 4;
            rb = byte(1) & 15;
            let (needa, needb) = match icode {
                2 | 4 | 5 | 6 => (true, true),
                3 | 12 => (false, true),
                _ => (true, false),
            };
            if matches!(icode, 3 | 12) && ra != 15 && self.lenient {
                return F(Fault::Field); // an error in the simulator as well
            }
            if ((ra != 15) != needa || (rb != 15) != needb) && !self.lenient {
                return F(Fault::Field);
            }
        }
        let (ia, ib) = (ra as usize, rb as usize);
        let r = self.regs;
        match icode {
            0 => {
                self.n += 1;
                self.last = ev;
                return Step::Halt;
            }
            1 => self.pc = next,
            2 => {
                ev.src = [ra, 15];
                ev.dst_e = rb;
                ev.taken = self.cc.holds(ifun);
                if ev.taken {
                    self.regs[ib] = r[ia];
                }
                self.pc = next;
            }
            3 => {
                ev.dst_e = rb;
                self.regs[ib] = word(2);
                self.pc = next;
            }
            4 => {
                ev.src = [ra, rb];
                let a = r[ib].wrapping_add(word(2));
                ev.store = Some(a);
                self.last = ev;
                if self.st(a, r[ia]).is_none() {
                    return F(Fault::Mem);
                }
                self.pc = next;
            }
            5 => {
                ev.src = [15, rb];
                ev.dst_m = ra;
                let a = r[ib].wrapping_add(word(2));
                ev.load = Some(a);
                self.last = ev;
                match self.ld(a) {
                    Some(v) => self.regs[ia] = v,
                    None => return F(Fault::Mem),
                }
                self.pc = next;
            }
            6 => {
                ev.src = [ra, rb];
                ev.dst_e = rb;
                let (v, cc) = alu(ifun, r[ia], r[ib]);
                self.regs[ib] = v;
                self.cc = cc;
                self.pc = next;
            }
            12 => {
                ev.src = [15, rb];
                ev.dst_e = rb;
                let (v, cc) = alu(ifun, word(2), r[ib]);
                self.regs[ib] = v;
                self.cc = cc;
                self.pc = next;
            }
            7 => {
                ev.taken = self.cc.holds(ifun);
                self.pc = if ev.taken { word(1) } else { next };
            }
            8 => {
                ev.src = [15, 4];
                ev.dst_e = 4;
                let dest = word(1);
                let a = r[RSP].wrapping_sub(8);
                ev.store = Some(a);
                self.last = ev;
                if self.st(a, next).is_none() {
                    return F(Fault::Mem);
                }
                self.regs[RSP] = a;
                self.pc = dest;
            }
            9 => {
                ev.src = [4, 4];
                ev.dst_e = 4;
                ev.load = Some(r[RSP]);
                self.last = ev;
                match self.ld(r[RSP]) {
                    Some(v) => {
                        self.regs[RSP] = r[RSP] + 8;
                        self.pc = v;
                    }
                    None => return F(Fault::Mem),
                }
            }
            10 => {
                ev.src = [ra, 4];
                ev.dst_e = 4;
                let a = r[RSP].wrapping_sub(8);
                ev.store = Some(a);
                self.last = ev;
                if self.st(a, r[ia]).is_none() {
                    return F(Fault::Mem);
                }
                self.regs[RSP] = a;
                self.pc = next;
            }
            _ => {
                ev.src = [4, 4];
                ev.dst_e = 4;
                ev.dst_m = ra;
                ev.load = Some(r[RSP]);
                self.last = ev;
                match self.ld(r[RSP]) {
                    Some(v) => {
                        self.regs[RSP] = r[RSP] + 8;
                        self.regs[ia] = v;
                    }
                    None => return F(Fault::Mem),
                }
                self.pc = next;
            }
        }
        self.last = ev;
        self.n += 1;
        Step::Ok
    }

    /// Run until halt, fault or `fuel` instructions; returns None when out of
    /// fuel, and the events of all executed instructions (faulting one last).
    pub fn run(&mut self, fuel: u64) -> (Option<Step>, Vec<Event>) {
        let mut evs = Vec::new();
        for _ in 0..fuel {
            let s = self.step();
            evs.push(self.last);
            if s != Step::Ok {
                return (Some(s), evs);
            }
        }
        (None, evs)
    }
}

/// True when some executed instruction byte was stored fewer than `window`
/// instructions earlier (the store may still be in flight in a pipeline when
/// that instruction is fetched).
pub fn in_flight_self_modification(evs: &[Event], window: usize) -> bool {
    for (i, e) in evs.iter().enumerate() {
        for s in evs[i.saturating_sub(window)..i].iter() {
            if let Some(a) = s.store {
                let (lo, hi) = (a as u128, a as u128 + 8);
                let (p, q) = (e.pc as u128, e.pc as u128 + e.len as u128);
                if lo < q && p < hi {
                    return true;
                }
            }
        }
    }
    false
}

/// Cycles the textbook five-stage pipeline needs, from the property text.
pub fn pipe_cycles(evs: &[Event]) -> u64 {
    let mut c = evs.len() as u64 + 4;
    for (i, e) in evs.iter().enumerate() {
        if matches!(e.icode, 5 | 11) {
            if let Some(n) = evs.get(i + 1) {
                if e.dst_m != 15 && n.src.contains(&e.dst_m) {
                    c += 1;
                }
            }
        }
        if e.icode == 7 && !e.taken {
            c += 2;
        }
        if e.icode == 9 {
            c += 3;
        }
    }
    c
}
