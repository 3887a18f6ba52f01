//! Model of the hardware description language: random descriptions, their
//! text, a reference interpreter and a structural shrinker.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write;

use serde::{Deserialize, Serialize};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum T {
    Bool,
    U8,
    U64,
    Stat,
    Cc,
    Arr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum V {
    Bool(bool),
    U8(u8),
    U64(u64),
    Stat(u8),
    Cc(bool, bool, bool),
    Arr([u8; 9]),
}

const STATS: [&str; 5] = ["Aok", "Bub", "Hlt", "Adr", "Ins"];
const CODES: [(&str, u8); 31] = [
    ("HALT", 0), ("NOP", 1), ("CMOVX", 2), ("IRMOVQ", 3), ("RMMOVQ", 4), ("MRMOVQ", 5), ("OPQ", 6), ("JX", 7), ("CALL", 8), ("RET", 9),
    ("PUSHQ", 10), ("POPQ", 11), ("IOPQ", 12), ("RAX", 0), ("RCX", 1), ("RDX", 2), ("RBX", 3), ("RSP", 4), ("RBP", 5), ("RSI", 6),
    ("RDI", 7), ("R8", 8), ("R10", 10), ("R11", 11), ("R12", 12), ("R14", 14), ("RNONE", 15), ("ADD", 0), ("SUB", 1), ("AND", 2), ("XOR", 3),
];

impl T {
    fn text(self) -> &'static str {
        match self {
            T::Bool => "bool",
            T::U8 => "u8",
            T::U64 => "u64",
            T::Stat => "Stat",
            T::Cc => "ConditionCode",
            T::Arr => "[u8; 9]",
        }
    }
}

impl V {
    pub fn ty(&self) -> T {
        match self {
            V::Bool(_) => T::Bool,
            V::U8(_) => T::U8,
            V::U64(_) => T::U64,
            V::Stat(_) => T::Stat,
            V::Cc(..) => T::Cc,
            V::Arr(_) => T::Arr,
        }
    }
    fn truth(&self) -> bool {
        match self {
            V::Bool(b) => *b,
            V::U8(n) => *n != 0,
            _ => panic!("not a condition"),
        }
    }
    /// Does a displayed value denote this one?
    pub fn shown_as(&self, s: &str) -> bool {
        let hex = |s: &str| u64::from_str_radix(s.trim().trim_start_matches("0x"), 16).ok();
        match self {
            V::Bool(b) => s == if *b { "true" } else { "false" },
            V::U8(n) => hex(s) == Some(*n as u64),
            V::U64(n) => hex(s) == Some(*n),
            V::Stat(n) => s == STATS[*n as usize],
            V::Cc(sf, of, zf) => {
                let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
                [("sf", sf), ("of", of), ("zf", zf)].iter().all(|(n, v)| s.contains(&format!("{n}:{v}")))
            }
            V::Arr(a) => {
                let inner = s.trim().trim_start_matches('[').trim_end_matches(']');
                let v: Vec<_> = inner.split(',').filter(|x| !x.trim().is_empty()).map(hex).collect();
                v.len() == 9 && v.iter().zip(a).all(|(x, y)| *x == Some(*y as u64))
            }
        }
    }
    fn text(&self) -> String {
        match self {
            V::Bool(b) => b.to_string(),
            V::U8(n) => n.to_string(),
            V::U64(n) => n.to_string(),
            V::Stat(n) => STATS[*n as usize].to_string(),
            V::Cc(false, false, false) => "CC_INIT".into(),
            V::Cc(a, b, c) => format!("ConditionCode {{ sf: {a}, of: {b}, zf: {c} }}"),
            V::Arr(a) => format!("{a:?}"),
        }
    }
}

/// Something that can be read in an expression.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ref {
    Sig(usize),
    Out(usize, usize),
    Field(usize, usize),
    /// field of a condition code
    Flag(Box<Ref>, u8),
    /// constant of the instruction set, or a status
    Code(usize),
    Stat(u8),
    CcInit,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
    Ref(Ref),
    /// literal and its notation
    Lit(V, u8),
    Paren(Box<E>),
    Not(Box<E>),
    Eq(Box<E>, Box<E>),
    Ne(Box<E>, Box<E>),
    In(Box<E>, Vec<Ref>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Src {
    Expr(E),
    Cases(Vec<(E, E)>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dest {
    Unit(usize, usize),
    Field(usize, usize),
    Stall(usize),
    Bubble(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sig {
    pub ty: T,
    pub src: Src,
    pub dests: Vec<Dest>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    /// counts the cycles
    Clk,
    Ctr,
    /// reads the memory
    Rom,
    Mix,
    Acc,
    Ccu,
    Tab,
    Arru,
    Sink,
}

impl Kind {
    pub fn ins(self) -> &'static [(&'static str, T)] {
        match self {
            Kind::Clk => &[],
            Kind::Ctr => &[("en", T::Bool)],
            Kind::Rom => &[("k", T::U8)],
            Kind::Mix => &[("a", T::U64), ("b", T::U64), ("f", T::Bool)],
            Kind::Acc => &[("x", T::U64), ("en", T::Bool)],
            Kind::Ccu => &[("a", T::U64), ("b", T::U64)],
            Kind::Tab => &[("x", T::U8), ("s", T::Stat)],
            Kind::Arru => &[("align", T::Arr), ("cc", T::Cc)],
            Kind::Sink => &[("x", T::U8)],
        }
    }
    pub fn outs(self) -> &'static [(&'static str, T)] {
        match self {
            Kind::Clk => &[("n", T::U8)],
            Kind::Ctr => &[("n", T::U8)],
            Kind::Rom => &[("w", T::U64), ("b", T::U8), ("f", T::Bool), ("g", T::Bool), ("st", T::Stat), ("arr", T::Arr)],
            Kind::Mix => &[("o", T::U64), ("z", T::Bool)],
            Kind::Acc => &[("sum", T::U64), ("runs", T::U8)],
            Kind::Ccu => &[("cc", T::Cc)],
            Kind::Tab => &[("y", T::U8), ("st", T::Stat), ("same", T::Bool)],
            Kind::Arru => &[("sum", T::U8), ("first", T::U8)],
            Kind::Sink => &[],
        }
    }
    fn body(self) -> &'static str {
        match self {
            Kind::Clk => "st_n: u64 } { *n = *st_n as u8; *st_n += 1; }",
            Kind::Ctr => "st_n: u64 } { *n = *st_n as u8; if en { *st_n += 1; } }",
            Kind::Rom => "mem: MemData } { let m: &[u8; MEM_SIZE] = &mem.read(); let at = (k as usize % 64) * 8; let v = u64::from_le_bytes(m[at..at + 8].try_into().unwrap()); \
                *w = v; *b = v as u8; *f = v >> 8 & 1 != 0; *g = v >> 9 & 1 != 0; *st = [Stat::Aok, Stat::Bub, Stat::Hlt, Stat::Adr, Stat::Ins][(v >> 16) as usize % 5]; arr.copy_from_slice(&m[at..at + 9]); }",
            Kind::Mix => "} { *o = if f { a.wrapping_mul(3).wrapping_add(b) } else { a ^ b.rotate_left(7) }; *z = *o & 3 == 0; }",
            Kind::Acc => "st_n: u64, st_r: u64 } { *st_r += 1; if en { *st_n = st_n.wrapping_add(x); } *sum = *st_n; *runs = *st_r as u8; }",
            Kind::Ccu => "} { cc.sf = a & 1 != 0; cc.of = a & 2 != 0; cc.zf = b & 1 != 0; }",
            Kind::Tab => "} { *y = x.wrapping_mul(31).wrapping_add(7); *st = [Stat::Aok, Stat::Bub, Stat::Hlt, Stat::Adr, Stat::Ins][x as usize % 5]; *same = *st == s; }",
            Kind::Arru => "} { *sum = align.iter().fold(cc.sf as u8, |p, q| p.wrapping_add(*q)); *first = align[0]; }",
            Kind::Sink => "st_n: u64 } { *st_n = st_n.wrapping_add(x as u64); }",
        }
    }
    fn init(self) -> &'static str {
        match self {
            Kind::Clk | Kind::Ctr | Kind::Sink => "st_n: 0",
            Kind::Rom => "mem: memory.clone()",
            Kind::Acc => "st_n: 0, st_r: 0",
            _ => "",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stage {
    pub fields: Vec<(T, V)>,
}

/// Nodes in an evaluation order.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum N {
    Sig(usize),
    Unit(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arch {
    pub stages: Vec<Stage>,
    pub units: Vec<Kind>,
    pub sigs: Vec<Sig>,
    pub rank: Vec<N>,
    pub pc: usize,
    pub term: usize,
    /// decides names, order of declarations, notation
    pub layout: u64,
    /// plain layout: declarations in order, no sections or decoration
    pub plain: bool,
    /// memory images to run it on (seeds) and how to drive it
    pub runs: Vec<(u64, bool)>,
    pub cycles: u32,
}

// ------------------------------------------------------------ generation

pub struct Profile {
    pub sigs: usize,
    pub stages: usize,
    pub stage_weight: usize,
    pub units: usize,
}

struct Gen<'a> {
    r: &'a mut Rng,
    a: Arch,
    avail: HashMap<T, Vec<Ref>>,
}

impl Gen<'_> {
    fn add_ref(&mut self, r: Ref, t: T) {
        if t == T::Cc {
            for f in 0..3 {
                self.avail.entry(T::Bool).or_default().push(Ref::Flag(Box::new(r.clone()), f));
            }
        }
        self.avail.entry(t).or_default().push(r);
    }

    fn reference(&mut self, t: T) -> Option<Ref> {
        let v = self.avail.get(&t)?;
        if v.is_empty() {
            return None;
        }
        // prefer recent ones, so that chains get long
        let n = v.len();
        let i = if self.r.chance(50) { n - 1 - self.r.below(n.min(6)) } else { self.r.below(n) };
        Some(v[i].clone())
    }

    fn constant(&mut self, t: T) -> E {
        match t {
            T::Bool => E::Lit(V::Bool(self.r.chance(50)), 0),
            T::U8 if self.r.chance(60) => E::Ref(Ref::Code(self.r.below(CODES.len()))),
            T::U8 => E::Lit(V::U8(if self.r.chance(70) { self.r.below(16) } else { self.r.below(256) } as u8), self.r.below(4) as u8),
            T::U64 => {
                let v = if self.r.chance(60) { self.r.below(64) as u64 } else { self.r.u64() >> self.r.below(64) };
                E::Lit(V::U64(v), self.r.below(4) as u8)
            }
            T::Stat => E::Ref(Ref::Stat(self.r.below(5) as u8)),
            T::Cc => E::Ref(Ref::CcInit),
            T::Arr => unreachable!(),
        }
    }

    /// an operand (primary expression) of the type
    fn operand(&mut self, t: T, depth: u32) -> Option<E> {
        if t == T::Bool && depth > 0 && self.r.chance(35) {
            return Some(E::Paren(Box::new(self.boolean(depth - 1))));
        }
        if t != T::Arr && self.r.chance(15) {
            return Some(self.constant(t));
        }
        let e = match self.reference(t) {
            Some(r) => E::Ref(r),
            None if t == T::Arr => return None,
            None => self.constant(t),
        };
        Some(if self.r.chance(6) { E::Paren(Box::new(e)) } else { e })
    }

    fn unary(&mut self, t: T, depth: u32) -> Option<E> {
        let e = self.operand(t, depth)?;
        Some(if t == T::Bool && self.r.chance(30) { E::Not(Box::new(e)) } else { e })
    }

    fn rel(&mut self, depth: u32) -> E {
        match self.r.below(10) {
            0..=3 => self.unary(T::Bool, depth).unwrap(),
            k => {
                let t = loop {
                    let t = *self.r.pick(&[T::U8, T::U8, T::U8, T::U64, T::Stat, T::Stat, T::Bool, T::Arr]);
                    if t != T::Arr || self.avail.contains_key(&T::Arr) {
                        break t;
                    }
                };
                if k < 7 {
                    let mut lhs = self.unary(t, depth).unwrap();
                    let rhs = self.unary(t, depth).unwrap();
                    // the type of two literals must be stated (in brackets too)
                    let mut inner = &mut lhs;
                    while let E::Paren(e) = inner {
                        inner = e;
                    }
                    if let E::Lit(V::U8(_) | V::U64(_), k) = inner {
                        *k = 1;
                    }
                    if k % 2 == 0 {
                        E::Eq(Box::new(lhs), Box::new(rhs))
                    } else {
                        E::Ne(Box::new(lhs), Box::new(rhs))
                    }
                } else {
                    let lhs = self.unary(t, depth).unwrap();
                    let n = 1 + if self.r.chance(6) { 4 + self.r.below(36) } else { self.r.below(4) };
                    let mut set = vec![];
                    for _ in 0..n {
                        let c = match t {
                            T::U8 if self.r.chance(60) => Some(Ref::Code(self.r.below(CODES.len()))),
                            T::Stat if self.r.chance(60) => Some(Ref::Stat(self.r.below(5) as u8)),
                            _ => self.reference(t),
                        };
                        set.extend(c);
                    }
                    if set.is_empty() {
                        return self.unary(T::Bool, depth).unwrap();
                    }
                    E::In(Box::new(lhs), set)
                }
            }
        }
    }

    fn and(&mut self, depth: u32) -> E {
        let l = self.rel(depth);
        if self.r.chance(30) {
            let r = self.and(depth);
            E::And(Box::new(l), Box::new(r))
        } else {
            l
        }
    }

    fn boolean(&mut self, depth: u32) -> E {
        let l = self.and(depth);
        if self.r.chance(25) {
            let r = self.boolean(depth);
            E::Or(Box::new(l), Box::new(r))
        } else {
            l
        }
    }

    fn value(&mut self, t: T, depth: u32) -> Option<E> {
        if t == T::Bool {
            return Some(self.boolean(depth));
        }
        self.operand(t, depth)
    }

    fn source(&mut self, t: T) -> Option<Src> {
        if self.r.chance(if t == T::Bool { 60 } else { 35 }) {
            return self.value(t, 2).map(Src::Expr);
        }
        let mut cases = vec![];
        let n = if self.r.chance(5) { 5 + self.r.below(25) } else { self.r.below(5) };
        for _ in 0..n {
            let c = if self.r.chance(4) { E::Lit(V::U8(self.r.below(2) as u8), 0) } else { self.boolean(1) };
            cases.push((c, self.value(t, 1)?));
        }
        let last = self.value(t, 1)?;
        if let (Some((c, _)), true) = (cases.last().cloned(), self.r.chance(10)) {
            // exhaustive without a catch-all case
            let c = if matches!(c, E::Lit(V::U8(_), _)) { None } else { Some(E::Not(Box::new(E::Paren(Box::new(c))))) };
            if let Some(c) = c {
                cases.push((c, last));
                return Some(Src::Cases(cases));
            }
        }
        let one = if self.r.chance(30) { E::Lit(V::U8(1), 0) } else { E::Lit(V::Bool(true), 0) };
        cases.push((one, last));
        // cases after the catch-all never match
        if self.r.chance(8) {
            let c = self.boolean(1);
            if let Some(v) = self.value(t, 1) {
                cases.push((c, v));
            }
        }
        Some(Src::Cases(cases))
    }

    fn new_sig(&mut self, t: T) -> Option<usize> {
        let src = self.source(t)?;
        let i = self.a.sigs.len();
        self.a.sigs.push(Sig { ty: t, src, dests: vec![] });
        self.a.rank.push(N::Sig(i));
        self.add_ref(Ref::Sig(i), t);
        Some(i)
    }

    /// a signal of the type to connect somewhere
    fn driver(&mut self, t: T) -> Option<usize> {
        let have: Vec<usize> = (0..self.a.sigs.len()).filter(|i| self.a.sigs[*i].ty == t).collect();
        if !have.is_empty() && self.r.chance(45) {
            return Some(*self.r.pick(&have));
        }
        self.new_sig(t).or_else(|| have.last().copied())
    }

    fn new_unit(&mut self, k: Kind) -> bool {
        let mut drivers = vec![];
        for (i, (_, t)) in k.ins().iter().enumerate() {
            match self.driver(*t) {
                Some(s) => drivers.push((s, i)),
                None => return false,
            }
        }
        let u = self.a.units.len();
        self.a.units.push(k);
        for (s, i) in drivers {
            self.a.sigs[s].dests.push(Dest::Unit(u, i));
        }
        self.a.rank.push(N::Unit(u));
        for (i, (_, t)) in k.outs().iter().enumerate() {
            self.add_ref(Ref::Out(u, i), *t);
        }
        true
    }
}

const TYPES: [T; 9] = [T::Bool, T::Bool, T::U8, T::U8, T::U64, T::U64, T::Stat, T::Cc, T::Arr];

fn default_of(r: &mut Rng, t: T) -> V {
    match t {
        T::Bool => V::Bool(r.chance(40)),
        T::U8 => V::U8(*r.pick(&[0, 1, 15, 7, 0x80, 255])),
        T::U64 => V::U64(if r.chance(40) { 0 } else { r.u64() >> r.below(60) }),
        T::Stat => V::Stat(r.below(5) as u8),
        T::Cc => {
            if r.chance(50) {
                V::Cc(false, false, false)
            } else {
                V::Cc(r.chance(50), r.chance(50), r.chance(50))
            }
        }
        T::Arr => V::Arr([r.below(256) as u8; 9]),
    }
}

pub fn generate(r: &mut Rng, p: &Profile) -> Arch {
    let a = Arch {
        stages: vec![],
        units: vec![],
        sigs: vec![],
        rank: vec![],
        pc: 0,
        term: 0,
        layout: r.u64(),
        plain: false,
        runs: (0..8).map(|_| (r.u64(), r.chance(50))).collect(),
        cycles: 40,
    };
    let mut g = Gen { r, a, avail: HashMap::new() };
    let ns = 1 + g.r.below(p.stages);
    for s in 0..ns {
        let nf = 1 + if g.r.chance(12) { 5 + g.r.below(FIELDS.len() - 5) } else { g.r.below(5) };
        let mut fields = vec![];
        for f in 0..nf {
            let t = *g.r.pick(&TYPES);
            let v = default_of(g.r, t);
            fields.push((t, v));
            for _ in 0..p.stage_weight {
                g.add_ref(Ref::Field(s, f), t);
            }
        }
        g.a.stages.push(Stage { fields });
    }
    // input sequence: cycle counter -> memory words
    let first = if g.r.chance(50) { Kind::Clk } else { Kind::Ctr };
    if first == Kind::Ctr {
        g.a.sigs.push(Sig { ty: T::Bool, src: Src::Expr(E::Lit(V::Bool(true), 0)), dests: vec![] });
        g.a.rank.push(N::Sig(0));
    }
    g.new_unit(first);
    let i = g.a.sigs.len();
    g.a.sigs.push(Sig { ty: T::U8, src: Src::Expr(E::Ref(Ref::Out(0, 0))), dests: vec![Dest::Unit(1, 0)] });
    g.a.rank.push(N::Sig(i));
    g.add_ref(Ref::Sig(i), T::U8);
    g.a.units.push(Kind::Rom);
    g.a.rank.push(N::Unit(1));
    for (i, (_, t)) in Kind::Rom.outs().iter().enumerate() {
        g.add_ref(Ref::Out(1, i), *t);
        g.add_ref(Ref::Out(1, i), *t);
    }
    let nunits = g.r.below(p.units + 1);
    let nsigs = p.sigs / 2 + g.r.below(p.sigs);
    let mut left = nunits;
    while g.a.sigs.len() < nsigs || left > 0 {
        if left > 0 && g.r.chance(25) {
            left -= 1;
            let k = *g.r.pick(&[Kind::Mix, Kind::Mix, Kind::Acc, Kind::Ccu, Kind::Tab, Kind::Tab, Kind::Arru, Kind::Sink, Kind::Ctr]);
            g.new_unit(k);
        } else {
            let t = *g.r.pick(&TYPES);
            g.new_sig(t);
        }
    }
    // stage fields get their next values from any signal of the type
    for s in 0..ns {
        for f in 0..g.a.stages[s].fields.len() {
            let t = g.a.stages[s].fields[f].0;
            let have: Vec<usize> = (0..g.a.sigs.len()).filter(|i| g.a.sigs[*i].ty == t).collect();
            let d = if !have.is_empty() && g.r.chance(80) { Some(*g.r.pick(&have)) } else { g.new_sig(t) };
            if let Some(d) = d {
                g.a.sigs[d].dests.push(Dest::Field(s, f));
            }
        }
        let pick = g.r.below(10);
        if pick < 7 {
            let bools: Vec<usize> = (0..g.a.sigs.len()).filter(|i| g.a.sigs[*i].ty == T::Bool).collect();
            let stall = if g.r.chance(60) && !bools.is_empty() { *g.r.pick(&bools) } else { g.new_sig(T::Bool).unwrap() };
            let want_stall = pick != 5;
            if want_stall {
                g.a.sigs[stall].dests.push(Dest::Stall(s));
            }
            if pick >= 2 {
                // never both at once
                let c = g.boolean(1);
                let src = if !want_stall {
                    Src::Expr(c)
                } else if g.r.chance(50) {
                    Src::Cases(vec![(E::Ref(Ref::Sig(stall)), E::Lit(V::Bool(false), 0)), (E::Lit(V::Bool(true), 0), c)])
                } else {
                    Src::Expr(E::And(Box::new(E::Not(Box::new(E::Ref(Ref::Sig(stall))))), Box::new(E::Paren(Box::new(c)))))
                };
                let i = g.a.sigs.len();
                g.a.sigs.push(Sig { ty: T::Bool, src, dests: vec![Dest::Bubble(s)] });
                g.a.rank.push(N::Sig(i));
                g.add_ref(Ref::Sig(i), T::Bool);
            }
        }
    }
    // what the stages hold, shown as it is
    for s in 0..ns {
        for f in 0..g.a.stages[s].fields.len() {
            if p.stage_weight > 1 || g.r.chance(30) {
                let i = g.a.sigs.len();
                let t = g.a.stages[s].fields[f].0;
                g.a.sigs.push(Sig { ty: t, src: Src::Expr(E::Ref(Ref::Field(s, f))), dests: vec![] });
                g.a.rank.push(N::Sig(i));
                g.add_ref(Ref::Sig(i), t);
            }
        }
    }
    g.a.pc = match (0..g.a.sigs.len()).filter(|i| g.a.sigs[*i].ty == T::U64).last() {
        Some(i) => i,
        None => {
            g.a.sigs.push(Sig { ty: T::U64, src: Src::Expr(E::Ref(Ref::Out(1, 0))), dests: vec![] });
            g.a.rank.push(N::Sig(g.a.sigs.len() - 1));
            g.a.sigs.len() - 1
        }
    };
    // terminate rarely: a byte of the input equals a constant
    let k = g.r.below(256) as u8;
    g.a.sigs.push(Sig { ty: T::Bool, src: Src::Expr(E::Eq(Box::new(E::Ref(Ref::Out(1, 1))), Box::new(E::Lit(V::U8(k), 1)))), dests: vec![] });
    g.a.term = g.a.sigs.len() - 1;
    g.a.rank.push(N::Sig(g.a.term));
    g.a
}

// ------------------------------------------------------------ text

const WORDS: [&str; 64] = [
    "pc", "icode", "ifun", "valA", "valB", "valE", "aluA", "x", "y2", "dstE", "srcB", "cnd", "f_pc", "d_stat", "need", "e_cnd", "sel", "k0", "t1", "Q",
    "foo", "foo_bar", "bar", "b", "a", "zz", "w_stat", "m_stat", "stat", "flag", "cc", "cc2", "s_cc", "new_pc", "prog_term", "align", "lhs", "rhs", "op", "addr",
    "rst", "en", "sum", "out1", "out2", "in1", "g", "h", "Zed", "res", "tmp", "v", "vv", "vvv", "n1", "n2", "n3", "mem_read", "mem_write", "hold", "kill", "go", "done", "x1",
];
const UNITS: [&str; 14] = ["imem", "rom", "alu", "reg_cc", "u1", "u2", "clk", "mixer", "acc", "aa", "zzz", "ialign", "M1", "dmem"];
const STAGES: [(&str, &str); 8] = [("D", "d"), ("E", "e"), ("FF", "f"), ("W", "w"), ("Old", "now"), ("S1", "s1"), ("P", "pp"), ("S2", "s2")];
const FIELDS: [&str; 12] = ["stat", "icode", "valC", "pc", "rA", "cnd", "valM", "t", "alpha", "dstM", "cc", "q"];

pub struct Names {
    pub sigs: Vec<String>,
    pub units: Vec<String>,
    pub alias: Vec<(String, String)>,
    pub fields: Vec<Vec<String>>,
}

impl Arch {
    pub fn names(&self) -> Names {
        let mut r = Rng::new(self.layout ^ 0x5151);
        let mut w: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
        r.shuffle(&mut w);
        let mut extra = 0;
        let mut units: Vec<String> = UNITS.iter().map(|s| s.to_string()).collect();
        r.shuffle(&mut units);
        while units.len() < self.units.len() {
            units.push(format!("hw{}", units.len()));
        }
        let mut al: Vec<(String, String)> = STAGES.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        r.shuffle(&mut al);
        let mut sigs = vec![];
        for i in 0..self.sigs.len() {
            sigs.push(if i < w.len() {
                w[i].clone()
            } else {
                extra += 1;
                format!("sig_{extra}")
            });
        }
        let fields = self
            .stages
            .iter()
            .map(|s| {
                let mut f: Vec<String> = FIELDS.iter().map(|s| s.to_string()).collect();
                r.shuffle(&mut f);
                f.truncate(s.fields.len());
                f
            })
            .collect();
        Names { sigs, units: units[..self.units.len()].to_vec(), alias: al[..self.stages.len()].to_vec(), fields }
    }

    fn ref_text(&self, n: &Names, r: &Ref) -> String {
        match r {
            Ref::Sig(i) => n.sigs[*i].clone(),
            Ref::Out(u, o) => format!("{}.{}", n.units[*u], self.units[*u].outs()[*o].0),
            Ref::Field(s, f) => format!("{}.{}", n.alias[*s].0, n.fields[*s][*f]),
            Ref::Flag(r, f) => format!("{}.{}", self.ref_text(n, r), ["sf", "of", "zf"][*f as usize]),
            Ref::Code(i) => CODES[*i].0.to_string(),
            Ref::Stat(i) => STATS[*i as usize].to_string(),
            Ref::CcInit => "CC_INIT".into(),
        }
    }

    fn expr_text(&self, n: &Names, e: &E) -> String {
        match e {
            E::Ref(r) => self.ref_text(n, r),
            E::Lit(V::U8(v), k) => match k {
                1 => format!("{v}u8"),
                2 => format!("{v:#x}"),
                3 => format!("{v:#b}"),
                _ => v.to_string(),
            },
            E::Lit(V::U64(v), k) => match k {
                1 => format!("{v}u64"),
                2 => format!("{v:#x}"),
                3 => format!("{v:#x}u64"),
                _ => v.to_string(),
            },
            E::Lit(v, _) => v.text(),
            E::Paren(e) => format!("({})", self.expr_text(n, e)),
            E::Not(e) => format!("!{}", self.expr_text(n, e)),
            E::Eq(a, b) => format!("{} == {}", self.expr_text(n, a), self.expr_text(n, b)),
            E::Ne(a, b) => format!("{} != {}", self.expr_text(n, a), self.expr_text(n, b)),
            E::In(a, s) => {
                let tail = if s.len() % 3 == 2 { "," } else { "" };
                format!("{} in {{ {}{tail} }}", self.expr_text(n, a), s.iter().map(|r| self.ref_text(n, r)).collect::<Vec<_>>().join(", "))
            }
            E::And(a, b) => format!("{} && {}", self.expr_text(n, a), self.expr_text(n, b)),
            E::Or(a, b) => format!("{} || {}", self.expr_text(n, a), self.expr_text(n, b)),
        }
    }

    fn dest_text(&self, n: &Names, d: &Dest) -> (String, String) {
        match d {
            Dest::Unit(u, i) => (n.units[*u].clone(), self.units[*u].ins()[*i].0.into()),
            Dest::Field(s, f) => (n.alias[*s].1.clone(), n.fields[*s][*f].clone()),
            Dest::Stall(s) => (n.alias[*s].1.clone(), "stall".into()),
            Dest::Bubble(s) => (n.alias[*s].1.clone(), "bubble".into()),
        }
    }

    /// Section of every signal, in the order it is declared.
    pub fn sections(&self) -> Vec<(String, Vec<usize>)> {
        self.text().1
    }

    pub fn source(&self) -> String {
        self.text().0
    }

    fn text(&self) -> (String, Vec<(String, Vec<usize>)>) {
        let n = self.names();
        let mut r = Rng::new(self.layout);
        let mut s = String::new();
        // hardware
        s += "mod hw {\nuse crate::framework::{HardwareUnits, MemData, MEM_SIZE};\npub use crate::isa::{ConditionCode, Stat, CC_INIT};\n#[allow(unused)]\nconst _: usize = MEM_SIZE;\ncrate::define_units! {\n";
        let mut uo: Vec<usize> = (0..self.units.len()).collect();
        if !self.plain {
            r.shuffle(&mut uo);
        }
        for u in &uo {
            let k = self.units[*u];
            let io = |v: &[(&str, T)]| v.iter().map(|(f, t)| format!("{f}: {}", t.text())).collect::<Vec<_>>().join(", ");
            let _ = writeln!(s, "Unit{u} {} {{", n.units[*u]);
            if !k.ins().is_empty() {
                let _ = writeln!(s, ".input({})", io(k.ins()));
            }
            if !k.outs().is_empty() {
                let _ = writeln!(s, ".output({})", io(k.outs()));
            }
            let _ = writeln!(s, "{}", k.body());
        }
        s += "}\nimpl std::fmt::Display for Units { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"~units\") } }\n";
        s += "impl HardwareUnits for Units {\n#[allow(unused)]\nfn init(memory: MemData) -> Self { Self {\n";
        for u in &uo {
            let _ = writeln!(s, "{}: Unit{u} {{ {} }},", n.units[*u], self.units[*u].init());
        }
        s += "} }\nfn register_file(&self) -> crate::isa::RegFile { std::array::from_fn(|i| 0x1100 + i as u64) }\n}\n}\n";
        // stages
        s += "crate::define_stages! {\n";
        let mut so: Vec<usize> = (0..self.stages.len()).collect();
        if !self.plain {
            r.shuffle(&mut so);
        }
        for i in &so {
            let f = self.stages[*i].fields.iter().enumerate().map(|(j, (t, v))| format!("{}: {} = {}", n.fields[*i][j], t.text(), v.text())).collect::<Vec<_>>().join(", ");
            let _ = writeln!(s, "Stage{i} {} {{ {f} }}", n.alias[*i].1);
        }
        s += "}\nsim_macro::hcl! {\n";
        let mut attrs = vec![
            "#![hardware = self::hw]".to_string(),
            format!("#![program_counter = {}]", n.sigs[self.pc]),
            format!("#![termination = {}]", n.sigs[self.term]),
            format!("#![stage_alias({})]", so.iter().map(|i| format!("{} => {}", n.alias[*i].0, n.alias[*i].1)).collect::<Vec<_>>().join(", ")),
        ];
        if !self.plain {
            r.shuffle(&mut attrs);
        }
        for a in attrs {
            let _ = writeln!(s, "{a}");
        }
        s += "use Stat::*;\n";
        // declarations
        enum D {
            Sig(usize),
            Set(String),
        }
        let mut decls = vec![];
        let mut groups: BTreeMap<(bool, String), Vec<(String, String)>> = BTreeMap::new();
        let mut arrows: Vec<Vec<(String, String)>> = vec![];
        for (i, sig) in self.sigs.iter().enumerate() {
            let mut ar = vec![];
            for d in &sig.dests {
                let (a, b) = self.dest_text(&n, d);
                if r.chance(if self.plain { 0 } else { 40 }) {
                    ar.push((a, b));
                } else {
                    groups.entry((matches!(d, Dest::Unit(..)), a)).or_default().push((b, n.sigs[i].clone()));
                }
            }
            arrows.push(ar);
            decls.push(D::Sig(i));
        }
        for ((unit, name), mut fs) in groups {
            if !self.plain {
                r.shuffle(&mut fs);
            }
            while !fs.is_empty() {
                let k = if !self.plain && r.chance(30) { 1 + r.below(fs.len()) } else { fs.len() };
                let part: Vec<_> = fs.drain(..k).collect();
                let tail = if r.chance(50) { "," } else { "" };
                decls.push(D::Set(format!(
                    "@{}({name}, {{ {}{tail} }});",
                    if unit { "set_input" } else { "set_stage" },
                    part.iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>().join(", ")
                )));
            }
        }
        if !self.plain {
            r.shuffle(&mut decls);
        }
        let mut sections: Vec<(String, Vec<usize>)> = vec![];
        let mut loose: Vec<usize> = vec![];
        let titled = !self.plain && r.chance(80);
        let mut nsec = 0;
        let tunnel = |r: &mut Rng, plain: bool| if !plain && r.chance(8) { format!("#[tunnel({})] ", ["TUN", "DE", "cc_x"][r.below(3)]) } else { String::new() };
        for d in &decls {
            if titled && r.chance(15) {
                let t = ["Fetch Stage", "Decode", "\"Write back\" Stage", "Pipeline Register Control", "A", "Fetch Stage"][r.below(6)];
                let bar = |r: &mut Rng| "=".repeat(1 + r.below(30));
                let (b1, b2) = (bar(&mut r), bar(&mut r));
                let _ = writeln!(s, ":{b1}: {t} :{b2}:");
                sections.push((t.replace('"', ""), vec![]));
                nsec += 1;
            }
            if !self.plain && r.chance(10) {
                s += ["// a note\n", "/* block\n comment */\n", "\n"][r.below(3)];
            }
            match d {
                D::Set(t) => {
                    let _ = writeln!(s, "{t}");
                }
                D::Sig(i) => {
                    if nsec == 0 {
                        loose.push(*i);
                    } else {
                        sections.last_mut().unwrap().1.push(*i);
                    }
                    let sig = &self.sigs[*i];
                    let _ = write!(s, "{} {} = ", sig.ty.text(), n.sigs[*i]);
                    match &sig.src {
                        Src::Expr(e) => {
                            let t = tunnel(&mut r, self.plain);
                            let _ = write!(s, "{t}{}", self.expr_text(&n, e));
                        }
                        Src::Cases(cs) => {
                            s += "[\n";
                            let semi = r.chance(70);
                            for (k, (c, v)) in cs.iter().enumerate() {
                                let t = tunnel(&mut r, self.plain);
                                let end = if k + 1 < cs.len() || semi { ";" } else { "" };
                                let _ = writeln!(s, "    {t}{} : {}{end}", self.expr_text(&n, c), self.expr_text(&n, v));
                            }
                            s += "]";
                        }
                    }
                    let ar = &arrows[*i];
                    if ar.len() == 1 && r.chance(70) {
                        let t = tunnel(&mut r, self.plain);
                        let _ = write!(s, " -> {t}{}.{}", ar[0].0, ar[0].1);
                    } else if !ar.is_empty() {
                        let ds = ar.iter().map(|(a, b)| format!("{}{a}.{b}", tunnel(&mut r, self.plain))).collect::<Vec<_>>().join(", ");
                        let _ = write!(s, " -> ({ds})");
                    }
                    s += ";\n";
                }
            }
        }
        s += "}\nimpl crate::framework::PipeSim<Arch> { fn print_state(&self) { println!(\"~state\"); } }\n";
        // signals declared before the first title belong to the first section
        if sections.is_empty() {
            sections.push((String::new(), loose));
        } else {
            let first = std::mem::take(&mut sections[0].1);
            sections[0].1 = loose.into_iter().chain(first).collect();
        }
        (s, sections)
    }

    // -------------------------------------------------------- meaning

    /// Direct predecessors in the dependency graph, as the printed graph has them.
    pub fn edges(&self) -> (Vec<(String, bool)>, Vec<(String, String)>) {
        let n = self.names();
        let mut run = vec![];
        let mut edges = vec![];
        for (u, k) in self.units.iter().enumerate() {
            run.push((n.units[u].clone(), true));
            for (f, _) in k.ins() {
                edges.push((format!("{}.{f}", n.units[u]), n.units[u].clone()));
            }
            for (f, _) in k.outs() {
                edges.push((n.units[u].clone(), format!("{}.{f}", n.units[u])));
            }
        }
        for (i, s) in self.sigs.iter().enumerate() {
            run.push((n.sigs[i].clone(), false));
            for r in reads(&s.src) {
                match base(&r) {
                    Ref::Sig(j) => edges.push((n.sigs[*j].clone(), n.sigs[i].clone())),
                    Ref::Out(u, o) => edges.push((format!("{}.{}", n.units[*u], self.units[*u].outs()[*o].0), n.sigs[i].clone())),
                    _ => {}
                }
            }
            for d in &s.dests {
                if let Dest::Unit(u, p) = d {
                    edges.push((n.sigs[i].clone(), format!("{}.{}", n.units[*u], self.units[*u].ins()[*p].0)));
                }
            }
        }
        (run, edges)
    }

    /// Values of all signals in every cycle, until termination, the given
    /// number of cycles, or a register is both stalled and bubbled.
    pub fn interpret(&self, mem: &[u8; 1024]) -> (Vec<Vec<V>>, bool, Stats) {
        let mut cur: Vec<Vec<V>> = self.stages.iter().map(|s| s.fields.iter().map(|f| f.1).collect()).collect();
        let mut state = vec![(0u64, 0u64); self.units.len()];
        let mut out = vec![];
        let mut st = Stats::default();
        for _ in 0..self.cycles {
            let mut next = self.stages.iter().map(|s| s.fields.iter().map(|f| f.1).collect::<Vec<_>>()).collect::<Vec<_>>();
            let mut stall = vec![false; self.stages.len()];
            let mut bubble = vec![false; self.stages.len()];
            let mut sv: Vec<Option<V>> = vec![None; self.sigs.len()];
            let mut uin: Vec<Vec<Option<V>>> = self.units.iter().map(|k| vec![None; k.ins().len()]).collect();
            let mut uout: Vec<Vec<V>> = vec![vec![]; self.units.len()];
            for nd in &self.rank {
                match nd {
                    N::Sig(i) => {
                        let v = {
                            let env = Env { a: self, sv: &sv, uout: &uout, cur: &cur };
                            match &self.sigs[*i].src {
                                Src::Expr(e) => env.eval(e),
                                Src::Cases(cs) => {
                                    let k = cs.iter().position(|(c, _)| env.eval(c).truth()).expect("no case matches");
                                    if k > 0 {
                                        st.later_case += 1;
                                    }
                                    env.eval(&cs[k].1)
                                }
                            }
                        };
                        sv[*i] = Some(v);
                        for d in &self.sigs[*i].dests {
                            match d {
                                Dest::Unit(u, p) => uin[*u][*p] = Some(v),
                                Dest::Field(s, f) => next[*s][*f] = v,
                                Dest::Stall(s) => stall[*s] = v.truth(),
                                Dest::Bubble(s) => bubble[*s] = v.truth(),
                            }
                        }
                    }
                    N::Unit(u) => {
                        let ins: Vec<V> = uin[*u].iter().map(|v| v.expect("undriven")).collect();
                        uout[*u] = run_unit(self.units[*u], &ins, &mut state[*u], mem);
                    }
                }
            }
            let vals: Vec<V> = sv.into_iter().map(|v| v.expect("unevaluated")).collect();
            let done = vals[self.term].truth();
            out.push(vals);
            if done {
                return (out, true, st);
            }
            for s in 0..self.stages.len() {
                if stall[s] && bubble[s] {
                    return (out, false, st);
                }
                if bubble[s] {
                    st.bubbles += 1;
                    cur[s] = self.stages[s].fields.iter().map(|f| f.1).collect();
                } else if stall[s] {
                    st.stalls += 1;
                } else {
                    cur[s] = next[s].clone();
                }
            }
        }
        (out, false, st)
    }
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub later_case: u64,
    pub stalls: u64,
    pub bubbles: u64,
}

pub fn memory(seed: u64) -> [u8; 1024] {
    let mut r = Rng::new(seed);
    let mut m = [0u8; 1024];
    for c in m.chunks_mut(8) {
        let v = match r.below(4) {
            0 => r.u64() & 0xf0f0f0f,
            1 => r.u64() & 0x3ff,
            _ => r.u64(),
        };
        c.copy_from_slice(&v.to_le_bytes());
    }
    m
}

struct Env<'a> {
    a: &'a Arch,
    sv: &'a [Option<V>],
    uout: &'a [Vec<V>],
    cur: &'a [Vec<V>],
}
impl Env<'_> {
    fn get(&self, r: &Ref) -> V {
        match r {
            Ref::Sig(i) => self.sv[*i].expect("read before written"),
            Ref::Out(u, o) => self.uout[*u][*o],
            Ref::Field(s, f) => self.cur[*s][*f],
            Ref::Flag(r, f) => match self.get(r) {
                V::Cc(a, b, c) => V::Bool([a, b, c][*f as usize]),
                _ => panic!("flag of a non-cc"),
            },
            Ref::Code(i) => V::U8(CODES[*i].1),
            Ref::Stat(i) => V::Stat(*i),
            Ref::CcInit => V::Cc(false, false, false),
        }
    }
    fn eval(&self, e: &E) -> V {
        let _ = self.a;
        match e {
            E::Ref(r) => self.get(r),
            E::Lit(v, _) => *v,
            E::Paren(e) => self.eval(e),
            E::Not(e) => V::Bool(!self.eval(e).truth()),
            E::Eq(a, b) => V::Bool(self.eval(a) == self.eval(b)),
            E::Ne(a, b) => V::Bool(self.eval(a) != self.eval(b)),
            E::In(a, s) => {
                let v = self.eval(a);
                V::Bool(s.iter().any(|r| self.get(r) == v))
            }
            E::And(a, b) => V::Bool(self.eval(a).truth() && self.eval(b).truth()),
            E::Or(a, b) => V::Bool(self.eval(a).truth() || self.eval(b).truth()),
        }
    }
}

fn run_unit(k: Kind, i: &[V], st: &mut (u64, u64), mem: &[u8; 1024]) -> Vec<V> {
    let b = |v: V| v.truth();
    let w = |v: V| match v {
        V::U64(x) => x,
        V::U8(x) => x as u64,
        _ => panic!("not a number"),
    };
    let word = |at: usize| u64::from_le_bytes(mem[at..at + 8].try_into().unwrap());
    match k {
        Kind::Clk => {
            st.0 += 1;
            vec![V::U8((st.0 - 1) as u8)]
        }
        Kind::Ctr => {
            let n = st.0 as u8;
            if b(i[0]) {
                st.0 += 1;
            }
            vec![V::U8(n)]
        }
        Kind::Rom => {
            let at = (w(i[0]) as usize % 64) * 8;
            let v = word(at);
            vec![
                V::U64(v),
                V::U8(v as u8),
                V::Bool(v >> 8 & 1 != 0),
                V::Bool(v >> 9 & 1 != 0),
                V::Stat(((v >> 16) % 5) as u8),
                V::Arr(mem[at..at + 9].try_into().unwrap()),
            ]
        }
        Kind::Mix => {
            let o = if b(i[2]) { w(i[0]).wrapping_mul(3).wrapping_add(w(i[1])) } else { w(i[0]) ^ w(i[1]).rotate_left(7) };
            vec![V::U64(o), V::Bool(o & 3 == 0)]
        }
        Kind::Acc => {
            st.1 += 1;
            if b(i[1]) {
                st.0 = st.0.wrapping_add(w(i[0]));
            }
            vec![V::U64(st.0), V::U8(st.1 as u8)]
        }
        Kind::Ccu => vec![V::Cc(w(i[0]) & 1 != 0, w(i[0]) & 2 != 0, w(i[1]) & 1 != 0)],
        Kind::Tab => {
            let x = w(i[0]) as u8;
            let s = x % 5;
            vec![V::U8(x.wrapping_mul(31).wrapping_add(7)), V::Stat(s), V::Bool(V::Stat(s) == i[1])]
        }
        Kind::Arru => match (i[0], i[1]) {
            (V::Arr(a), V::Cc(sf, ..)) => vec![V::U8(a.iter().fold(sf as u8, |p, q| p.wrapping_add(*q))), V::U8(a[0])],
            _ => panic!("bad unit input"),
        },
        Kind::Sink => vec![],
    }
}

pub fn base(r: &Ref) -> &Ref {
    match r {
        Ref::Flag(r, _) => base(r),
        r => r,
    }
}

fn expr_reads(e: &E, out: &mut Vec<Ref>) {
    match e {
        E::Ref(r) => out.push(r.clone()),
        E::Lit(..) => {}
        E::Paren(e) | E::Not(e) => expr_reads(e, out),
        E::Eq(a, b) | E::Ne(a, b) | E::And(a, b) | E::Or(a, b) => {
            expr_reads(a, out);
            expr_reads(b, out);
        }
        E::In(a, s) => {
            expr_reads(a, out);
            out.extend(s.iter().cloned());
        }
    }
}

pub fn reads(s: &Src) -> Vec<Ref> {
    let mut out = vec![];
    match s {
        Src::Expr(e) => expr_reads(e, &mut out),
        Src::Cases(cs) => cs.iter().for_each(|(c, v)| {
            expr_reads(c, &mut out);
            expr_reads(v, &mut out);
        }),
    }
    out
}

// ------------------------------------------------------------ shrinking

impl Arch {
    /// size used to choose among failing candidates
    pub fn weight(&self) -> usize {
        self.source().len() + self.runs.len() * 40 + self.sigs.len() * 100 + if self.plain { 0 } else { 300 }
    }

    /// Keep only what the given signals (and what they need) depend on.
    pub fn cone(&self, roots: &[usize]) -> Arch {
        let mut sig: BTreeSet<usize> = BTreeSet::new();
        let mut unit: BTreeSet<usize> = BTreeSet::new();
        let mut stage: BTreeSet<usize> = BTreeSet::new();
        let mut todo: Vec<usize> = roots.iter().copied().chain([self.pc, self.term]).collect();
        while let Some(i) = todo.pop() {
            if !sig.insert(i) {
                continue;
            }
            for r in reads(&self.sigs[i].src) {
                let drivers: Vec<usize> = match base(&r) {
                    Ref::Sig(j) => vec![*j],
                    Ref::Out(u, _) if unit.insert(*u) => (0..self.sigs.len()).filter(|j| self.sigs[*j].dests.iter().any(|d| matches!(d, Dest::Unit(x, _) if x == u))).collect(),
                    Ref::Field(s, _) if stage.insert(*s) => (0..self.sigs.len())
                        .filter(|j| self.sigs[*j].dests.iter().any(|d| matches!(d, Dest::Field(x, _) | Dest::Stall(x) | Dest::Bubble(x) if x == s)))
                        .collect(),
                    _ => vec![],
                };
                todo.extend(drivers);
            }
        }
        self.keep(&sig, &unit, &stage)
    }

    fn keep(&self, sig: &BTreeSet<usize>, unit: &BTreeSet<usize>, stage: &BTreeSet<usize>) -> Arch {
        let mut stage = stage.clone();
        if stage.is_empty() {
            stage.insert(0);
        }
        let sm: HashMap<usize, usize> = sig.iter().enumerate().map(|(k, i)| (*i, k)).collect();
        let um: HashMap<usize, usize> = unit.iter().enumerate().map(|(k, i)| (*i, k)).collect();
        let tm: HashMap<usize, usize> = stage.iter().enumerate().map(|(k, i)| (*i, k)).collect();
        let fr = |r: &Ref| map_ref(r, &|r| match r {
            Ref::Sig(i) => Ref::Sig(sm[i]),
            Ref::Out(u, o) => Ref::Out(um[u], *o),
            Ref::Field(s, f) => Ref::Field(tm[s], *f),
            r => r.clone(),
        });
        let mut a = self.clone();
        a.stages = stage.iter().map(|i| self.stages[*i].clone()).collect();
        a.units = unit.iter().map(|i| self.units[*i]).collect();
        a.sigs = sig
            .iter()
            .map(|i| {
                let s = &self.sigs[*i];
                Sig {
                    ty: s.ty,
                    src: map_src(&s.src, &fr),
                    dests: s
                        .dests
                        .iter()
                        .filter_map(|d| match d {
                            Dest::Unit(u, p) => um.get(u).map(|u| Dest::Unit(*u, *p)),
                            Dest::Field(s, f) => tm.get(s).map(|s| Dest::Field(*s, *f)),
                            Dest::Stall(s) => tm.get(s).map(|s| Dest::Stall(*s)),
                            Dest::Bubble(s) => tm.get(s).map(|s| Dest::Bubble(*s)),
                        })
                        .collect(),
                }
            })
            .collect();
        a.rank = self
            .rank
            .iter()
            .filter_map(|n| match n {
                N::Sig(i) => sm.get(i).map(|i| N::Sig(*i)),
                N::Unit(u) => um.get(u).map(|u| N::Unit(*u)),
            })
            .collect();
        a.pc = sm[&self.pc];
        a.term = sm[&self.term];
        a
    }

    pub fn is_closed(&self) -> bool {
        let n = self.units.iter().enumerate().all(|(u, k)| (0..k.ins().len()).all(|p| self.sigs.iter().any(|s| s.dests.contains(&Dest::Unit(u, p)))));
        let mut seen: HashSet<N2> = HashSet::new();
        for nd in &self.rank {
            match nd {
                N::Sig(i) => {
                    for r in reads(&self.sigs[*i].src) {
                        let ok = match base(&r) {
                            Ref::Sig(j) => seen.contains(&N2::S(*j)),
                            Ref::Out(u, _) => seen.contains(&N2::U(*u)),
                            _ => true,
                        };
                        if !ok {
                            return false;
                        }
                    }
                    seen.insert(N2::S(*i));
                }
                N::Unit(u) => {
                    for s in 0..self.sigs.len() {
                        if self.sigs[s].dests.iter().any(|d| matches!(d, Dest::Unit(x, _) if x == u)) && !seen.contains(&N2::S(s)) {
                            return false;
                        }
                    }
                    seen.insert(N2::U(*u));
                }
            }
        }
        n
    }

    /// Smaller descriptions of the same kind.
    pub fn reductions(&self, failing: Option<usize>, r: &mut Rng) -> Vec<Arch> {
        let mut out = vec![];
        if let Some(f) = failing {
            let mut a = self.cone(&[f]);
            out.push(a.clone());
            if self.pc != f && self.sigs[self.pc].ty == T::U64 {
                let mut b = self.clone();
                b.sigs[b.pc].src = Src::Expr(E::Lit(V::U64(0), 0));
                b.sigs[b.term].src = Src::Expr(E::Lit(V::Bool(false), 0));
                if f != b.term {
                    a = b.cone(&[f]);
                    out.push(a);
                }
            }
        }
        if !self.plain {
            let mut a = self.clone();
            a.plain = true;
            out.push(a);
        }
        for i in 0..self.runs.len() {
            if self.runs.len() > 1 {
                let mut a = self.clone();
                a.runs = vec![self.runs[i]];
                out.push(a);
            }
        }
        let roots: Vec<usize> = failing.into_iter().collect();
        let mut push = |a: Arch| {
            if !roots.is_empty() {
                out.push(a.cone(&roots));
            } else {
                out.push(a);
            }
        };
        for i in 0..self.sigs.len() {
            let s = &self.sigs[i];
            let mut with = |src: Src| {
                if src != s.src {
                    let mut a = self.clone();
                    a.sigs[i].src = src;
                    push(a);
                }
            };
            match &s.src {
                Src::Expr(e) => {
                    for e in sub(e) {
                        with(Src::Expr(e));
                    }
                    if !matches!(e, E::Lit(..)) {
                        match s.ty {
                            T::Bool => {
                                with(Src::Expr(E::Lit(V::Bool(false), 0)));
                                with(Src::Expr(E::Lit(V::Bool(true), 0)));
                            }
                            T::U8 => with(Src::Expr(E::Lit(V::U8(3), 0))),
                            T::U64 => with(Src::Expr(E::Lit(V::U64(3), 0))),
                            T::Stat => with(Src::Expr(E::Ref(Ref::Stat(0)))),
                            T::Cc => with(Src::Expr(E::Ref(Ref::CcInit))),
                            T::Arr => {}
                        }
                    }
                }
                Src::Cases(cs) => {
                    let always = |e: &E| matches!(e, E::Lit(V::Bool(true), _) | E::Lit(V::U8(1), _));
                    for k in 0..cs.len() {
                        with(Src::Expr(cs[k].1.clone()));
                        let mut c = cs.clone();
                        c.remove(k);
                        if c.iter().any(|(c, _)| always(c)) {
                            with(Src::Cases(c));
                        }
                        for e in sub(&cs[k].0) {
                            let mut c = cs.clone();
                            c[k].0 = e;
                            if c.iter().any(|(c, _)| always(c)) {
                                with(Src::Cases(c));
                            }
                        }
                    }
                }
            }
            for k in 0..s.dests.len() {
                if matches!(s.dests[k], Dest::Stall(_) | Dest::Bubble(_) | Dest::Field(..)) {
                    let mut a = self.clone();
                    a.sigs[i].dests.remove(k);
                    push(a);
                }
            }
        }
        let _ = r;
        out.retain(|a| a.is_closed());
        let mut seen = HashSet::new();
        let own = self.weight();
        out.retain(|a| a.weight() < own && seen.insert(a.source() + &format!("{:?}", a.runs)));
        out.sort_by_key(|a| a.weight());
        out
    }
}

#[derive(PartialEq, Eq, Hash)]
enum N2 {
    S(usize),
    U(usize),
}

fn map_ref(r: &Ref, f: &dyn Fn(&Ref) -> Ref) -> Ref {
    match r {
        Ref::Flag(r, k) => Ref::Flag(Box::new(map_ref(r, f)), *k),
        r => f(r),
    }
}
fn map_e(e: &E, f: &dyn Fn(&Ref) -> Ref) -> E {
    let b = |e: &E| Box::new(map_e(e, f));
    match e {
        E::Ref(r) => E::Ref(f(r)),
        E::Lit(..) => e.clone(),
        E::Paren(e) => E::Paren(b(e)),
        E::Not(e) => E::Not(b(e)),
        E::Eq(x, y) => E::Eq(b(x), b(y)),
        E::Ne(x, y) => E::Ne(b(x), b(y)),
        E::And(x, y) => E::And(b(x), b(y)),
        E::Or(x, y) => E::Or(b(x), b(y)),
        E::In(x, s) => E::In(b(x), s.iter().map(f).collect()),
    }
}
fn map_src(s: &Src, f: &dyn Fn(&Ref) -> Ref) -> Src {
    match s {
        Src::Expr(e) => Src::Expr(map_e(e, f)),
        Src::Cases(cs) => Src::Cases(cs.iter().map(|(c, v)| (map_e(c, f), map_e(v, f))).collect()),
    }
}

/// Expressions of the same type one step smaller.
fn sub(e: &E) -> Vec<E> {
    let mut out = vec![];
    match e {
        E::Ref(_) | E::Lit(..) => {}
        E::Paren(x) => {
            if matches!(**x, E::Ref(_) | E::Lit(..)) {
                out.push((**x).clone());
            }
            out.extend(sub(x).into_iter().map(|x| E::Paren(Box::new(x))));
        }
        E::Not(x) => {
            out.push((**x).clone());
            out.extend(sub(x).into_iter().filter(|x| matches!(x, E::Ref(_) | E::Lit(..) | E::Paren(_))).map(|x| E::Not(Box::new(x))));
        }
        E::Eq(..) | E::Ne(..) => {}
        E::In(x, s) => {
            for k in 0..s.len() {
                if s.len() > 1 {
                    let mut t = s.clone();
                    t.remove(k);
                    out.push(E::In(x.clone(), t));
                }
            }
        }
        E::And(x, y) => {
            out.push((**x).clone());
            out.push((**y).clone());
            out.extend(sub(y).into_iter().filter(|z| !matches!(z, E::Or(..))).map(|z| E::And(x.clone(), Box::new(z))));
        }
        E::Or(x, y) => {
            out.push((**x).clone());
            out.push((**y).clone());
            out.extend(sub(x).into_iter().filter(|z| !matches!(z, E::Or(..))).map(|z| E::Or(Box::new(z), y.clone())));
            out.extend(sub(y).into_iter().map(|z| E::Or(x.clone(), Box::new(z))));
        }
    }
    out
}
