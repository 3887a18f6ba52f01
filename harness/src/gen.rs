//! Generators of machine programs: gadgets that create hazards, control flow,
//! stack traffic, self-modification and faults, lowered to assembly.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ast::{Imm, Ins, Line, Stmt};

pub const RSP: u8 = 4;

/// How the base register of a memory access gets its value.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Base {
    Imm,
    /// irmovq; addq
    Add(u8),
    /// pushed and popped (load/use on the address)
    Pop(u8),
    /// conditional move always taken from another register
    Mov(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Use {
    OpA(u8, u8),
    OpB(u8, u8),
    CmovA(u8, u8),
    CmovB(u8, u8),
    StData(u64),
    StBase,
    LdBase(u8),
    Push,
    /// overwritten without being read
    Over(u64),
    None,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Load { r: u8, base: u8, addr: u64, disp: u64 },
    Store { r: u8, base: u8, addr: u64, disp: u64 },
    Push(u64),
    Pop(u8, u64),
    Call(u64),
    Ret(u64),
    /// jump to an address outside memory
    Jump(u64),
    /// ret to an address outside memory
    RetTo(u64),
    CallTo(u64),
    /// raw opcode byte
    Byte(u8),
    /// straight-line code running off the end of memory: place the last
    /// instructions so that they end `k` bytes before the end
    RunOff(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum G {
    Nop,
    Op(u8, u8, u8),
    Iop(u8, u64, u8),
    Cmov(u8, u8, u8),
    Irmov(u64, u8),
    St { how: Base, base: u8, addr: u64, disp: Option<u64>, gap: u8, r: u8 },
    Ld { how: Base, base: u8, addr: u64, disp: Option<u64>, gap: u8, r: u8, gap2: u8, then: Use },
    Push(u8),
    Pop(u8, u8, Use),
    PushPop(u8, u8),
    SetRsp(u64),
    PopRsp(u64),
    /// compare two constants, then jump over n gadgets
    Cmp(u64, u64),
    /// an operation on two constants, then gadgets reading its flags
    Cond(u8, u64, u64, u8, Vec<G>),
    Skip(u8, u8),
    /// not-taken jump whose target is never valid code (address)
    Bait(u64, u8),
    /// not-taken jump to code of a chosen kind that is never executed
    Wrong(u8, u8),
    RetJump(u8, u8),
    Loop(u8, u8, Vec<G>),
    Call(u8, Vec<G>),
    /// subtract a register from another until that is zero
    Tight(u8, u8),
    /// a loop of many rounds
    Spin(u32, Vec<G>),
    /// a function that calls itself to the given depth
    Recur(u32, Vec<G>),
    /// overwrite the instruction `dist` nops ahead with another
    SelfMod(u8, u64),
    /// load a return address into %rsp-addressed memory and return at once
    LdRspRet(u64),
    /// forward jump whose target is an address that is also data
    Halt(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prog {
    pub regs: Vec<(u8, u64)>,
    pub stack: u64,
    pub start: u64,
    pub data: Vec<(u64, u64)>,
    pub body: Vec<G>,
    pub fault: Option<Fault>,
    /// gadgets placed right after the halt or fault
    pub shadow: Vec<G>,
}

pub struct Lower {
    pub lines: Vec<Line>,
    tail: Vec<Line>,
    abs: Vec<u64>,
    n: u32,
    dirty: bool,
    stack: u64,
}

impl Lower {
    fn i(&mut self, i: Ins) {
        self.lines.push(Line::ins(i));
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn lab(&mut self, l: &str) {
        self.lines.push(Line::label(l));
    }
    fn imm(&mut self, v: u64, r: u8) {
        if r == RSP {
            self.dirty = true;
        }
        self.i(Ins::Irmov(Imm::N(v), r));
    }
    fn nops(&mut self, n: u8) {
        for _ in 0..n {
            self.i(Ins::Nop);
        }
    }
    /// label naming an absolute address
    fn abs(&mut self, a: u64) -> String {
        if !self.abs.contains(&a) {
            self.abs.push(a);
        }
        format!("abs_{a:x}")
    }
    fn need_stack(&mut self) {
        if self.dirty {
            self.i(Ins::Irmov(Imm::N(self.stack), RSP));
            self.dirty = false;
        }
    }
    fn wr(&mut self, r: u8) {
        if r == RSP {
            self.dirty = true;
        }
    }
    fn base(&mut self, how: &Base, base: u8, v: u64) {
        match how {
            Base::Imm => self.imm(v, base),
            Base::Add(t) if *t != base => {
                self.imm(v.wrapping_sub(0x77), *t);
                self.imm(0x77, base);
                self.i(Ins::Op(0, *t, base));
            }
            Base::Pop(t) if *t != RSP && base != RSP => {
                self.need_stack();
                self.imm(v, *t);
                self.i(Ins::Push(*t));
                self.i(Ins::Pop(base));
            }
            Base::Mov(t) if *t != base => {
                self.imm(v, *t);
                self.i(Ins::Cmov(0, *t, base));
            }
            _ => self.imm(v, base),
        }
        self.wr(base);
    }
    fn using(&mut self, r: u8, u: &Use) {
        match u {
            Use::OpA(f, b) => {
                self.i(Ins::Op(*f, r, *b));
                self.wr(*b)
            }
            Use::OpB(f, a) => {
                self.i(Ins::Op(*f, *a, r));
                self.wr(r)
            }
            Use::CmovA(f, b) => {
                self.i(Ins::Cmov(*f, r, *b));
                self.wr(*b)
            }
            Use::CmovB(f, a) => {
                self.i(Ins::Cmov(*f, *a, r));
                self.wr(r)
            }
            Use::StData(a) => self.i(Ins::Rmmov(r, Some(*a), 14)),
            Use::StBase => self.i(Ins::Rmmov(r, None, r)),
            Use::LdBase(d) => {
                self.i(Ins::Mrmov(Some(0), r, *d));
                self.wr(*d)
            }
            Use::Push => {
                if r == RSP || !self.dirty {
                    self.i(Ins::Push(r))
                }
            }
            Use::Over(v) => self.imm(*v, r),
            Use::None => {}
        }
    }
    fn seq(&mut self, gs: &[G]) {
        // labels[k] is placed before gadget k when some Skip targets it
        let mut want: Vec<Option<String>> = vec![None; gs.len() + 1];
        for (k, g) in gs.iter().enumerate() {
            if let Some(l) = want[k].take() {
                self.lab(&l);
            }
            match g {
                G::Skip(f, n) => {
                    let t = (k + 1 + *n as usize).min(gs.len());
                    if want[t].is_none() {
                        want[t] = Some(self.fresh("S"));
                    }
                    let l = want[t].clone().unwrap();
                    self.i(Ins::J(*f, l));
                }
                g => self.gadget(g),
            }
        }
        if let Some(l) = want[gs.len()].take() {
            self.lab(&l);
        }
    }
    fn gadget(&mut self, g: &G) {
        match g {
            G::Nop => self.i(Ins::Nop),
            G::Op(f, a, b) => {
                self.i(Ins::Op(*f, *a, *b));
                self.wr(*b);
            }
            G::Iop(f, v, b) => {
                self.i(Ins::Iop(*f, Imm::N(*v), *b));
                self.wr(*b);
            }
            G::Cmov(f, a, b) => {
                self.i(Ins::Cmov(*f, *a, *b));
                self.wr(*b);
            }
            G::Irmov(v, b) => self.imm(*v, *b),
            G::St { how, base, addr, disp, gap, r } => {
                self.base(how, *base, addr.wrapping_sub(disp.unwrap_or(0)));
                self.nops(*gap);
                self.i(Ins::Rmmov(*r, *disp, *base));
            }
            G::Ld { how, base, addr, disp, gap, r, gap2, then } => {
                self.base(how, *base, addr.wrapping_sub(disp.unwrap_or(0)));
                self.nops(*gap);
                self.i(Ins::Mrmov(*disp, *base, *r));
                self.wr(*r);
                self.nops(*gap2);
                self.using(*r, then);
            }
            G::Push(r) => {
                self.need_stack();
                self.i(Ins::Push(*r));
            }
            G::Pop(r, gap, u) => {
                self.need_stack();
                self.i(Ins::Pop(*r));
                self.wr(*r);
                self.nops(*gap);
                self.using(*r, u);
            }
            G::PushPop(a, b) => {
                self.need_stack();
                self.i(Ins::Push(*a));
                self.i(Ins::Pop(*b));
                self.wr(*b);
            }
            G::SetRsp(v) => {
                self.imm(*v, RSP);
                self.dirty = false;
            }
            G::PopRsp(v) => {
                self.need_stack();
                self.imm(*v, 14);
                self.i(Ins::Push(14));
                self.i(Ins::Pop(RSP));
                self.dirty = false;
            }
            G::Cmp(a, b) => {
                self.imm(*a, 13);
                self.imm(*b, 14);
                self.i(Ins::Op(1, 13, 14));
            }
            G::Cond(f, a, b, gap, body) => {
                self.imm(*a, 13);
                self.imm(*b, 14);
                self.i(Ins::Op(*f, 13, 14));
                self.nops(*gap);
                self.seq(body);
            }
            G::Skip(f, n) => {
                // a skip on its own (not inside seq): jump over nops
                let l = self.fresh("S");
                self.i(Ins::J(*f, l.clone()));
                self.nops(*n);
                self.lab(&l);
            }
            G::Bait(a, f) => {
                // zero result: e, le, ge hold; ne, l, g do not
                self.i(Ins::Op(3, 14, 14));
                let l = self.abs(*a);
                self.i(Ins::J([4u8, 2, 6][*f as usize % 3], l));
            }
            G::Wrong(kind, f) => {
                self.i(Ins::Op(3, 14, 14));
                let l = self.fresh("W");
                self.i(Ins::J([4u8, 2, 6][*f as usize % 3], l.clone()));
                let save = std::mem::take(&mut self.lines);
                self.lab(&l);
                match kind % 10 {
                    0 | 1 => self.i(Ins::Ret),
                    2 => self.i(Ins::Halt),
                    3 => self.lines.push(Line::byte(0xf3)),
                    4 => self.i(Ins::J(0, l)),
                    5 => self.i(Ins::Call(l)),
                    6 => {
                        self.i(Ins::Nop);
                        self.i(Ins::Ret);
                    }
                    7 => {
                        self.i(Ins::Op(1, 1, 1));
                        self.i(Ins::Push(1));
                    }
                    8 => {
                        self.i(Ins::Rmmov(1, Some(8), 1));
                        self.i(Ins::Halt);
                    }
                    _ => {
                        self.i(Ins::J(1, l));
                        self.i(Ins::Ret);
                    }
                }
                let mut t = std::mem::replace(&mut self.lines, save);
                self.tail.append(&mut t);
            }
            G::RetJump(t, gap) => {
                self.need_stack();
                let l = self.fresh("R");
                let t = if *t == RSP { 14 } else { *t };
                self.i(Ins::Irmov(Imm::L(l.clone()), t));
                self.i(Ins::Push(t));
                self.nops(*gap);
                self.i(Ins::Ret);
                // wrong-path shadow
                self.i(Ins::Op(3, 1, 1));
                self.i(Ins::Irmov(Imm::N(0x666), 0));
                self.lab(&l);
            }
            G::Loop(n, nops, body) => {
                let c = 12;
                self.imm(1 + *n as u64, c);
                let l = self.fresh("L");
                self.lab(&l);
                self.dirty = true;
                self.seq(body);
                self.nops(*nops);
                self.imm(1, 13);
                self.i(Ins::Op(1, 13, c));
                self.i(Ins::J(4, l));
                self.dirty = true;
            }
            G::Call(gap, body) => {
                self.need_stack();
                let f = self.fresh("F");
                self.i(Ins::Call(f.clone()));
                self.nops(*gap);
                let save = std::mem::take(&mut self.lines);
                self.lab(&f);
                // stack gadgets in the body must keep the return address
                self.seq_balanced(body);
                self.i(Ins::Ret);
                let mut fl = std::mem::replace(&mut self.lines, save);
                self.tail.append(&mut fl);
                self.dirty = false;
            }
            G::Tight(a, b) => {
                let l = self.fresh("L");
                self.lab(&l);
                self.i(Ins::Op(1, *a, *b));
                self.i(Ins::J(4, l));
            }
            G::Spin(n, body) => {
                let c = 12;
                let l = self.fresh("L");
                self.dirty = true;
                self.imm(0, 13);
                self.imm(*n as u64 + 1, c);
                self.lab(&l);
                self.seq(body);
                self.imm(1, 13);
                self.i(Ins::Op(1, 13, c));
                self.i(Ins::J(4, l));
                self.dirty = true;
            }
            G::Recur(n, body) => {
                self.dirty = true;
                self.need_stack();
                let (f, e) = (self.fresh("F"), self.fresh("E"));
                self.imm(*n as u64 + 1, 12);
                self.i(Ins::Call(f.clone()));
                let save = std::mem::take(&mut self.lines);
                self.lab(&f);
                self.seq_balanced(body);
                self.imm(1, 13);
                self.i(Ins::Op(1, 13, 12));
                self.i(Ins::J(3, e.clone()));
                self.i(Ins::Call(f));
                self.lab(&e);
                self.i(Ins::Ret);
                let mut fl = std::mem::replace(&mut self.lines, save);
                self.tail.append(&mut fl);
                self.dirty = false;
            }
            G::SelfMod(dist, code) => {
                let l = self.fresh("M");
                self.i(Ins::Irmov(Imm::N(*code), 13));
                self.i(Ins::Irmov(Imm::L(l.clone()), 14));
                self.i(Ins::Rmmov(13, None, 14));
                self.nops(*dist);
                self.lab(&l);
                self.nops(8);
            }
            G::LdRspRet(slot) => {
                // mrmovq (b), %rsp ; ret   with memory prepared
                let l = self.fresh("Q");
                self.i(Ins::Irmov(Imm::L(l.clone()), 13));
                self.imm(*slot, 14);
                self.i(Ins::Rmmov(13, None, 14));
                self.i(Ins::Rmmov(14, Some(8), 14));
                self.i(Ins::Mrmov(Some(8), 14, RSP));
                self.i(Ins::Ret);
                self.i(Ins::Halt);
                self.lab(&l);
                self.dirty = false;
            }
            G::Halt(f) => {
                let l = self.fresh("H");
                self.i(Ins::J(*f, l.clone()));
                self.i(Ins::Halt);
                self.lab(&l);
            }
        }
    }
    fn seq_balanced(&mut self, gs: &[G]) {
        // saves %rsp in %r11 so that any stack damage is undone before ret
        self.i(Ins::Cmov(0, RSP, 11));
        self.dirty = false;
        self.seq(gs);
        self.i(Ins::Cmov(0, 11, RSP));
        self.dirty = false;
    }
}

impl Prog {
    pub fn lines(&self) -> Vec<Line> {
        let mut lo = Lower { lines: vec![], tail: vec![], abs: vec![], n: 0, dirty: false, stack: self.stack };
        if self.start != 0 {
            lo.i(Ins::J(0, "start".into()));
            lo.lines.push(Line::pos(self.start));
            lo.lab("start");
        }
        for (r, v) in &self.regs {
            lo.i(Ins::Irmov(Imm::N(*v), *r));
        }
        lo.i(Ins::Irmov(Imm::N(self.stack), RSP));
        // a valid base for displacement-only accesses
        lo.i(Ins::Irmov(Imm::N(0), 14));
        lo.seq(&self.body);
        match &self.fault {
            None => lo.i(Ins::Halt),
            Some(f) => match f {
                Fault::Load { r, base, addr, disp } => {
                    lo.imm(addr.wrapping_sub(*disp), *base);
                    lo.i(Ins::Mrmov(Some(*disp), *base, *r));
                }
                Fault::Store { r, base, addr, disp } => {
                    lo.imm(addr.wrapping_sub(*disp), *base);
                    lo.i(Ins::Rmmov(*r, Some(*disp), *base));
                }
                Fault::Push(v) => {
                    lo.imm(v.wrapping_add(8), RSP);
                    lo.i(Ins::Push(1));
                }
                Fault::Pop(r, v) => {
                    lo.imm(*v, RSP);
                    lo.i(Ins::Pop(*r));
                }
                Fault::Call(v) => {
                    lo.imm(v.wrapping_add(8), RSP);
                    let l = lo.fresh("T");
                    lo.i(Ins::Call(l.clone()));
                    lo.lab(&l);
                }
                Fault::Ret(v) => {
                    lo.imm(*v, RSP);
                    lo.i(Ins::Ret);
                }
                Fault::Jump(a) => {
                    let l = lo.abs(*a);
                    lo.i(Ins::J(0, l));
                }
                Fault::RetTo(a) => {
                    lo.need_stack();
                    lo.imm(*a, 14);
                    lo.i(Ins::Push(14));
                    lo.i(Ins::Ret);
                }
                Fault::CallTo(a) => {
                    lo.need_stack();
                    let l = lo.abs(*a);
                    lo.i(Ins::Call(l));
                }
                Fault::Byte(b) => lo.lines.push(Line::byte(*b)),
                Fault::RunOff(k) => {
                    // jump to an instruction that starts inside memory and
                    // ends `k` bytes beyond it
                    let k = *k as u64 % 9 + 1;
                    lo.i(Ins::J(0, "edge".into()));
                    let at = 0x10000 - (10 - k);
                    lo.tail.push(Line::pos(at));
                    lo.tail.push(Line::label("edge"));
                    for b in [0x30u8, 0xf3, 1, 2, 3, 4, 5, 6, 7, 8].iter().take((10 - k) as usize) {
                        lo.tail.push(Line::byte(*b));
                    }
                }
            },
        }
        let shadow = self.shadow.clone();
        lo.seq(&shadow);
        lo.i(Ins::Halt);
        let mut tail = std::mem::take(&mut lo.tail);
        lo.lines.append(&mut tail);
        for (a, v) in &self.data {
            lo.lines.push(Line::pos(*a));
            lo.lines.push(Line::quad(*v));
        }
        for a in lo.abs.clone() {
            lo.lines.push(Line::pos(a));
            lo.lines.push(Line { label: Some(format!("abs_{a:x}")), stmt: Stmt::None });
        }
        lo.lines
    }
}

// ---------------------------------------------------------------- strategies

pub fn value() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => prop::sample::select(vec![0u64, 1, 2, 7, 8, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 0x100, 0xff, 0x80, 1 << 32, u32::MAX as u64, 0x8000_0000]),
        2 => any::<u64>(),
        2 => 0u64..300,
        1 => (0u64..300).prop_map(|x| x.wrapping_neg()),
        1 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => 0u64..0x10000,
    ]
}

/// operation (0: addq ...) and operands whose result has one of the flag
/// patterns that exist: none, sf, zf, of, sf and of, zf and of
pub fn flags() -> impl Strategy<Value = (u8, u64, u64)> {
    let min = 1u64 << 63;
    prop_oneof![
        3 => prop::sample::select(vec![(0u8, 1u64, 1u64), (0, u64::MAX, 0), (3, 7, 7), (0, min, min | 5), (0, min - 1, min - 1), (0, min, min), (0, min, min), (1, min, 1), (1, 1, min), (1, 5, 5), (2, min, min), (1, min, min), (1, min, 0)]),
        1 => (0u8..4, value(), value()),
    ]
}

/// general registers: a small pool is preferred so that hazards are frequent
pub fn reg() -> impl Strategy<Value = u8> {
    prop_oneof![8 => prop::sample::select(vec![0u8, 1, 2, 3]), 3 => 5u8..11, 1 => Just(RSP), 1 => 0u8..15]
}
pub fn reg_nosp() -> impl Strategy<Value = u8> {
    prop_oneof![8 => prop::sample::select(vec![0u8, 1, 2, 3]), 3 => 5u8..11, 1 => 11u8..15]
}

pub fn data_addr() -> impl Strategy<Value = u64> {
    prop_oneof![
        6 => prop::sample::select(vec![0x2000u64, 0x2001, 0x2004, 0x2008, 0x2010, 0x7ff0, 0x7ff8, 0x8000]),
        2 => 0x2000u64..0x2040,
        1 => 0x2000u64..0xfff9,
        2 => prop::sample::select(vec![0xfff8u64, 0xfff7, 0xfff0, 0xffef]),
    ]
}

/// addresses at which no byte or not all of eight bytes exist
pub fn bad_addr() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => 0xfff9u64..=0x10000,
        2 => prop::sample::select(vec![0x10001u64, 0x10008, 0x1fff8, 0x20000, 1 << 16, 1 << 32, (1 << 32) + 0x100, 1 << 63, (1 << 63) - 8, (1 << 63) - 1, (1<<48) + 0x2000]),
        4 => (1u64..=16).prop_map(|k| k.wrapping_neg()),
        1 => 0x10000u64..=u64::MAX,
    ]
}

/// addresses at which no instruction can start
pub fn bad_pc() -> impl Strategy<Value = u64> {
    prop_oneof![
        4 => 0x10000u64..0x10010,
        2 => prop::sample::select(vec![0x1fff8u64, 1 << 32, (1 << 32) + 0x100, 1 << 63, (1 << 63) - 1]),
        4 => (1u64..=16).prop_map(|k| k.wrapping_neg()),
        1 => 0x10000u64..=u64::MAX,
    ]
}

fn disp() -> impl Strategy<Value = Option<u64>> {
    prop_oneof![2 => Just(None), 2 => (0u64..64).prop_map(Some), 1 => (1u64..64).prop_map(|d| Some(d.wrapping_neg())), 1 => any::<u64>().prop_map(Some)]
}

fn base_how() -> impl Strategy<Value = Base> {
    prop_oneof![4 => Just(Base::Imm), 1 => reg_nosp().prop_map(Base::Add), 2 => reg_nosp().prop_map(Base::Pop), 1 => reg_nosp().prop_map(Base::Mov)]
}

fn user() -> impl Strategy<Value = Use> {
    prop_oneof![
        2 => (0u8..4, reg()).prop_map(|(f, b)| Use::OpA(f, b)),
        2 => (0u8..4, reg()).prop_map(|(f, b)| Use::OpB(f, b)),
        1 => (0u8..7, reg()).prop_map(|(f, b)| Use::CmovA(f, b)),
        1 => (0u8..7, reg()).prop_map(|(f, b)| Use::CmovB(f, b)),
        1 => Just(Use::Push),
        1 => value().prop_map(Use::Over),
        1 => Just(Use::None),
    ]
}

fn gap() -> impl Strategy<Value = u8> {
    prop_oneof![5 => Just(0u8), 3 => 1u8..4, 1 => 4u8..6]
}

pub fn simple(iop: bool) -> BoxedStrategy<G> {
    let op = (0u8..4, reg(), reg()).prop_map(|(f, a, b)| G::Op(f, a, b));
    let iops = (0u8..4, value(), reg()).prop_map(move |(f, v, b)| if iop { G::Iop(f, v, b) } else { G::Irmov(v, b) });
    prop_oneof![
        8 => op,
        (if iop { 4 } else { 1 }) => iops,
        4 => (0u8..7, reg(), reg()).prop_map(|(f, a, b)| G::Cmov(f, a, b)),
        4 => (value(), reg()).prop_map(|(v, r)| G::Irmov(v, r)),
        3 => (base_how(), reg_nosp(), data_addr(), disp(), gap(), reg()).prop_map(|(how, base, addr, disp, gap, r)| G::St { how, base, addr, disp, gap, r }),
        4 => (base_how(), reg_nosp(), data_addr(), disp(), gap(), reg(), gap(), user())
            .prop_map(|(how, base, addr, disp, gap, r, gap2, then)| G::Ld { how, base, addr, disp, gap, r, gap2, then }),
        // a pointer is stored, loaded and used as an address at once
        2 => (reg_nosp(), reg_nosp(), data_addr(), data_addr(), gap(), reg(), any::<bool>()).prop_map(|(b, p, slot, tgt, g2, d, st)| G::Loop(0, 0, vec![
            G::Irmov(tgt, p), G::St { how: Base::Imm, base: b, addr: slot, disp: Some(0), gap: 0, r: p },
            G::Ld { how: Base::Imm, base: b, addr: slot, disp: Some(0), gap: 0, r: p, gap2: g2, then: if st { Use::StBase } else { Use::LdBase(d) } }])),
        2 => reg().prop_map(G::Push),
        3 => (reg(), gap(), user()).prop_map(|(r, g, u)| G::Pop(r, g, u)),
        2 => (reg(), reg()).prop_map(|(a, b)| G::PushPop(a, b)),
        1 => prop::sample::select(vec![0x7000u64, 0x7008, 0x7003, 0xfff8, 0x10000, 0xfff0]).prop_map(G::SetRsp),
        1 => prop::sample::select(vec![0x7000u64, 0x7008, 0x7003, 0xfff8, 0xfff0]).prop_map(G::PopRsp),
        2 => (value(), value()).prop_map(|(a, b)| G::Cmp(a, b)),
        2 => (flags(), gap(), 0u8..7, 0u8..7, reg(), reg()).prop_map(|((o, a, b), gap, f, g, x, y)| G::Cond(o, a, b, gap, vec![G::Cmov(f, x, y), G::Skip(g, 1), G::Irmov(0x5a, y)])),
        4 => (0u8..7, 0u8..3).prop_map(|(f, n)| G::Skip(f, n)),
        2 => (prop_oneof![2 => bad_pc(), 1 => 0x2000u64..0x10000, 2 => 0xfff4u64..0x10000], 0u8..3).prop_map(|(a, f)| G::Bait(a, f)),
        1 => (0u8..10, 0u8..3).prop_map(|(k, f)| G::Wrong(k, f)),
        2 => (reg_nosp(), gap()).prop_map(|(r, g)| G::RetJump(r, g)),
        1 => (0u8..7).prop_map(G::Halt),
        2 => Just(G::Nop),
        1 => prop::sample::select(vec![0x7100u64, 0xfff0 - 8, 0x2100]).prop_map(G::LdRspRet),
    ]
    .boxed()
}

fn selfmod() -> impl Strategy<Value = G> {
    // eight bytes of code to store over nops
    let code = prop_oneof![
        Just(u64::from_le_bytes([0x60, 0x01, 0x61, 0x12, 0x10, 0x10, 0x10, 0x10])),
        Just(u64::from_le_bytes([0x10, 0x63, 0x00, 0x10, 0x20, 0x13, 0x10, 0x00])),
        Just(u64::from_le_bytes([0xa0, 0x0f, 0xb0, 0x1f, 0x10, 0x10, 0x10, 0x10])),
    ];
    (0u8..9, code).prop_map(|(d, c)| G::SelfMod(d, c))
}

pub fn gadgets(iop: bool, max: usize) -> BoxedStrategy<Vec<G>> {
    let lvl0 = prop::collection::vec(simple(iop), 0..5);
    let compound = prop_oneof![
        12 => simple(iop),
        2 => (0u8..4, gap(), lvl0.clone()).prop_map(|(n, g, b)| G::Loop(n, g, b)),
        2 => (gap(), lvl0.clone()).prop_map(|(g, b)| G::Call(g, b)),
        1 => selfmod(),
    ];
    let inner = prop::collection::vec(compound.clone(), 0..4);
    let top = prop_oneof![
        14 => compound,
        1 => (0u8..4, gap(), inner.clone()).prop_map(|(n, g, b)| G::Loop(n, g, b)),
        1 => (gap(), inner).prop_map(|(g, b)| G::Call(g, b)),
    ];
    prop::collection::vec(top, 0..max).boxed()
}

/// programs that run for up to some hundred thousand instructions
pub fn long(iop: bool) -> BoxedStrategy<Prog> {
    let rounds = || prop_oneof![3 => 50u32..2000, 3 => 2000u32..30_000, 1 => Just(255u32), 1 => Just(65_535u32), 1 => 30_000u32..70_000];
    let mild = move || {
        let s = simple(iop).prop_filter("keeps the counter", |g| match g {
            G::Op(_, _, b) | G::Iop(_, _, b) | G::Cmov(_, _, b) | G::Irmov(_, b) => *b != 12 && *b != RSP,
            G::St { base, .. } => *base != 12,
            G::Push(_) | G::PushPop(..) | G::Nop | G::Skip(..) | G::Cmp(..) | G::Cond(..) | G::RetJump(..) => true,
            G::Ld { base, r, then, .. } => *base != 12 && *r != 12 && *r != RSP && matches!(then, Use::None | Use::Push),
            _ => false,
        });
        prop::collection::vec(s, 0..4)
    };
    let top = prop_oneof![
        3 => (rounds(), mild()).prop_map(|(n, b)| G::Spin(n, b)),
        1 => (prop_oneof![2 => 20u32..3000, 1 => 3000u32..4000], mild()).prop_map(|(n, b)| G::Recur(n, b)),
    ];
    (prop::collection::vec((0u8..4, value()), 0..4), prop::collection::vec(top, 1..3), gadgets(iop, 4))
        .prop_map(|(regs, mut body, more)| {
            body.extend(more);
            Prog { regs, stack: 0x9000, start: 0, data: vec![], body, fault: None, shadow: vec![] }
        })
        .boxed()
}

pub fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        3 => (reg_nosp(), reg_nosp(), bad_addr(), prop_oneof![Just(0u64), any::<u64>(), 0u64..32]).prop_map(|(r, base, addr, disp)| Fault::Load { r, base, addr, disp }),
        3 => (reg(), reg_nosp(), bad_addr(), prop_oneof![Just(0u64), any::<u64>(), 0u64..32]).prop_map(|(r, base, addr, disp)| Fault::Store { r, base, addr, disp }),
        1 => bad_addr().prop_map(Fault::Push),
        1 => (reg(), bad_addr()).prop_map(|(r, a)| Fault::Pop(r, a)),
        1 => bad_addr().prop_map(Fault::Call),
        1 => bad_addr().prop_map(Fault::Ret),
        2 => bad_pc().prop_map(Fault::Jump),
        1 => bad_pc().prop_map(Fault::RetTo),
        1 => bad_pc().prop_map(Fault::CallTo),
        2 => prop_oneof![0xd0u8..=0xff, Just(0xc0), Just(0xc3)].prop_map(Fault::Byte),
        2 => (0u8..9).prop_map(Fault::RunOff),
    ]
}

pub fn prog(iop: bool, max: usize, faulty: bool) -> BoxedStrategy<Prog> {
    let f = if faulty { fault().prop_map(Some).boxed() } else { Just(None).boxed() };
    (
        prop::collection::vec((prop_oneof![4 => 0u8..4, 1 => 5u8..11], value()), 0..4),
        prop_oneof![6 => Just(0x7000u64), 1 => Just(0x10000u64), 1 => Just(0xfff8), 1 => Just(0x7003)],
        prop_oneof![6 => Just(0u64), 1 => 0x20u64..0x1000, 1 => 0x8000u64..0xf000],
        prop::collection::vec((data_addr(), value()), 0..3),
        gadgets(iop, max),
        f,
        prop::collection::vec(shadow_gadget(iop), 0..4),
    )
        .prop_map(|(regs, stack, start, data, body, fault, shadow)| Prog { regs, stack, start, data, body, fault, shadow })
        .boxed()
}

/// instructions with an immediately visible effect, to be put behind a fault
fn shadow_gadget(iop: bool) -> BoxedStrategy<G> {
    prop_oneof![
        2 => (value(), reg()).prop_map(|(v, r)| G::Irmov(v, r)),
        3 => (0u8..4, reg(), reg()).prop_map(|(f, a, b)| G::Op(f, a, b)),
        2 => (reg()).prop_map(|r| G::St { how: Base::Imm, base: 9, addr: 0x2000, disp: None, gap: 0, r }),
        1 => Just(G::Push(2)),
        4 => simple(iop),
    ]
    .boxed()
}
