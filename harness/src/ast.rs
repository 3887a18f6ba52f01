//! Y86-64 assembly: abstract syntax, an independent reference assembler and a
//! renderer producing many textual forms of the same program.

use std::collections::BTreeMap;
use serde::{Deserialize, Serialize};
use crate::isa_ref::MEM;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Imm {
    N(u64),
    L(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ins {
    Halt,
    Nop,
    Ret,
    Cmov(u8, u8, u8),
    Irmov(Imm, u8),
    /// ra, displacement, rb
    Rmmov(u8, Option<u64>, u8),
    /// displacement, rb, ra
    Mrmov(Option<u64>, u8, u8),
    Op(u8, u8, u8),
    Iop(u8, Imm, u8),
    J(u8, String),
    Call(String),
    Push(u8),
    Pop(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stmt {
    None,
    Ins(Ins),
    Data(u8, Imm),
    Pos(u64),
    Align(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Line {
    pub label: Option<String>,
    pub stmt: Stmt,
}

impl Line {
    pub fn ins(i: Ins) -> Line {
        Line { label: None, stmt: Stmt::Ins(i) }
    }
    pub fn label(l: impl Into<String>) -> Line {
        Line { label: Some(l.into()), stmt: Stmt::None }
    }
    pub fn pos(a: u64) -> Line {
        Line { label: None, stmt: Stmt::Pos(a) }
    }
    pub fn byte(b: u8) -> Line {
        Line { label: None, stmt: Stmt::Data(1, Imm::N(b as u64)) }
    }
    pub fn quad(v: u64) -> Line {
        Line { label: None, stmt: Stmt::Data(8, Imm::N(v)) }
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum AsmErr {
    Undefined(String),
    Range,
    Align,
}

pub struct Asm {
    pub image: Vec<u8>,
    pub symbols: BTreeMap<String, u64>,
    /// address of every line (None for lines without label or statement)
    pub addrs: Vec<Option<u64>>,
    /// number of bytes every line emits
    pub lens: Vec<usize>,
    /// some byte is emitted by two lines
    pub overlap: bool,
}

fn size(s: &Stmt) -> usize {
    match s {
        Stmt::None | Stmt::Pos(_) | Stmt::Align(_) => 0,
        Stmt::Data(w, _) => *w as usize,
        Stmt::Ins(i) => match i {
            Ins::Halt | Ins::Nop | Ins::Ret => 1,
            Ins::Cmov(..) | Ins::Op(..) | Ins::Push(_) | Ins::Pop(_) => 2,
            Ins::J(..) | Ins::Call(_) => 9,
            Ins::Irmov(..) | Ins::Rmmov(..) | Ins::Mrmov(..) | Ins::Iop(..) => 10,
        },
    }
}

fn resolve(i: &Imm, sym: &BTreeMap<String, u64>) -> Result<u64, AsmErr> {
    match i {
        Imm::N(n) => Ok(*n),
        Imm::L(l) => sym.get(l).copied().ok_or_else(|| AsmErr::Undefined(l.clone())),
    }
}

pub fn encode(i: &Ins, sym: &BTreeMap<String, u64>) -> Result<Vec<u8>, AsmErr> {
    let lab = |l: &String| resolve(&Imm::L(l.clone()), sym);
    let q = |head: &[u8], v: u64| {
        let mut b = head.to_vec();
        b.extend(v.to_le_bytes());
        b
    };
    Ok(match i {
        Ins::Halt => vec![0x00],
        Ins::Nop => vec![0x10],
        Ins::Ret => vec![0x90],
        Ins::Cmov(f, a, b) => vec![0x20 | f, a << 4 | b],
        Ins::Irmov(v, b) => q(&[0x30, 0xf0 | b], resolve(v, sym)?),
        Ins::Rmmov(a, d, b) => q(&[0x40, a << 4 | b], d.unwrap_or(0)),
        Ins::Mrmov(d, b, a) => q(&[0x50, a << 4 | b], d.unwrap_or(0)),
        Ins::Op(f, a, b) => vec![0x60 | f, a << 4 | b],
        Ins::J(f, l) => q(&[0x70 | f], lab(l)?),
        Ins::Call(l) => q(&[0x80], lab(l)?),
        Ins::Push(a) => vec![0xa0, a << 4 | 15],
        Ins::Pop(a) => vec![0xb0, a << 4 | 15],
        Ins::Iop(f, v, b) => q(&[0xc0 | f, 0xf0 | b], resolve(v, sym)?),
    })
}

pub fn assemble(lines: &[Line]) -> Result<Asm, AsmErr> {
    let mut cur: u64 = 0;
    let mut symbols = BTreeMap::new();
    let mut addrs = vec![];
    for l in lines {
        let mut here = if l.label.is_some() || l.stmt != Stmt::None { Some(cur) } else { None };
        match &l.stmt {
            Stmt::Pos(a) => {
                cur = *a;
                here = Some(cur);
            }
            Stmt::Align(n) => {
                if !n.is_power_of_two() {
                    return Err(AsmErr::Align);
                }
                cur = cur.checked_next_multiple_of(*n).ok_or(AsmErr::Range)?;
                here = Some(cur);
            }
            s => cur = cur.checked_add(size(s) as u64).ok_or(AsmErr::Range)?,
        }
        if let Some(n) = &l.label {
            symbols.insert(n.clone(), here.unwrap());
        }
        addrs.push(here);
    }
    let mut image = vec![0u8; MEM];
    let mut hit = vec![false; MEM];
    let mut overlap = false;
    let mut lens = vec![];
    for (l, a) in lines.iter().zip(&addrs) {
        let bytes = match &l.stmt {
            Stmt::Ins(i) => encode(i, &symbols)?,
            Stmt::Data(w, v) => resolve(v, &symbols)?.to_le_bytes()[..*w as usize].to_vec(),
            _ => vec![],
        };
        lens.push(bytes.len());
        if bytes.is_empty() {
            continue;
        }
        let a = usize::try_from(a.unwrap()).map_err(|_| AsmErr::Range)?;
        let end = a.checked_add(bytes.len()).ok_or(AsmErr::Range)?;
        if end > MEM {
            return Err(AsmErr::Range);
        }
        overlap |= hit[a..end].iter().any(|h| *h);
        hit[a..end].fill(true);
        image[a..end].copy_from_slice(&bytes);
    }
    Ok(Asm { image, symbols, addrs, lens, overlap })
}

pub const REGS: [&str; 15] = [
    "%rax", "%rcx", "%rdx", "%rbx", "%rsp", "%rbp", "%rsi", "%rdi", "%r8", "%r9", "%r10", "%r11", "%r12", "%r13", "%r14",
];
pub const CC: [&str; 7] = ["", "le", "l", "e", "ne", "ge", "g"];
pub const OPS: [&str; 4] = ["add", "sub", "and", "xor"];

/// Digits of a formatting seed; seed 0 always picks the canonical first form.
pub struct Bits(pub u64);
impl Bits {
    pub fn pick(&mut self, n: u64) -> u64 {
        let v = self.0 % n;
        self.0 /= n;
        v
    }
    pub fn of<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.pick(xs.len() as u64) as usize]
    }
}

pub fn number(v: u64, b: &mut Bits) -> String {
    let s = v as i64;
    let k = b.pick(61);
    match if k == 60 { 6 } else { k % 6 } {
        6 => {
            let zeros = "0".repeat([30, 64, 250, 1000][b.pick(4) as usize]);
            if b.pick(2) == 0 {
                format!("0x{zeros}{v:x}")
            } else {
                format!("{}{zeros}{}", if s < 0 { "-" } else { "" }, s.unsigned_abs())
            }
        }
        0 => format!("{s}"),
        1 => format!("{v:#x}"),
        2 => format!("0x{v:X}"),
        3 => format!("-{:#x}", v.wrapping_neg()),
        4 => format!("0x{v:020x}"),
        _ => {
            if s < 0 {
                format!("-{:021}", s.unsigned_abs())
            } else {
                format!("{s:08}")
            }
        }
    }
}

const COMMENTS: [&str; 12] = [
    "", "", "# x", "#", "#| 0x0000: 00", "# a:b | c", "# λ→日本語|:", "#\t# halt", "# 0x0008: ffffffffffffffff | .quad",
    "#\u{b}\u{c}\u{2028}\u{0}x", "# jmp L0, %rax $5", "#|||",
];

pub fn render_line(l: &Line, seed: u64) -> String {
    let mut b = Bits(seed);
    let lead = b.of(&["", "    ", "\t", " ", " \t "]);
    let mut gap = b.of(&[" ", "  ", "\t", " \t ", ""]);
    if let Stmt::Ins(Ins::J(f, l)) = &l.stmt {
        // `jl` + `e…` without space would read as `jle`
        if *f != 0 && l.starts_with('e') && gap.is_empty() {
            gap = " ";
        }
    }
    let comma = b.of(&[", ", ",", " ,", "\t,\t ", " , "]);
    let trail = b.of(&["", " ", "\t", "  \t"]);
    let comment = b.of(&COMMENTS);
    let lgap = b.of(&[" ", "", "\t\t", "  "]);
    // now and then something long
    let n = [60, 64, 100, 127, 128, 200, 255, 256, 300, 1000, 5000][(seed >> 40) as usize % 11];
    let (mut lead, mut gap, mut trail, mut comment) = (lead.to_string(), gap.to_string(), trail.to_string(), comment.to_string());
    match (seed >> 50) % 401 {
        1 => lead += &" ".repeat(n),
        2 => lead += &"\t".repeat(n),
        3 => gap += &" ".repeat(n),
        4 => trail += &" ".repeat(n),
        5 => comment = format!("#{}", "c: 0x1 |".repeat(n / 8)),
        6 => comment = format!("# {}", "é".repeat(n)),
        7 => comment = format!("{}# x", " ".repeat(n)),
        _ => {}
    }
    let (gap, comment) = (gap.as_str(), comment.as_str());
    let mut s = lead.clone();
    if let Some(n) = &l.label {
        s += n;
        s += ":";
        if l.stmt != Stmt::None {
            s += lgap;
        }
    }
    let r = |x: &u8| REGS[*x as usize];
    let imm = |i: &Imm, b: &mut Bits, dollar: bool| match i {
        Imm::N(v) => format!("{}{}", if dollar { "$" } else { "" }, number(*v, b)),
        Imm::L(l) => l.clone(),
    };
    let addr = |d: &Option<u64>, base: &u8, b: &mut Bits| match d {
        Some(v) => format!("{}({})", number(*v, b), r(base)),
        None => format!("({})", r(base)),
    };
    s += &match &l.stmt {
        Stmt::None => String::new(),
        Stmt::Pos(a) => format!(".pos{gap}{}", number(*a, &mut b)),
        Stmt::Align(a) => format!(".align{gap}{}", number(*a, &mut b)),
        Stmt::Data(w, i) => {
            let d = match w {
                1 => ".byte",
                2 => ".word",
                4 => ".long",
                _ => ".quad",
            };
            format!("{d}{gap}{}", imm(i, &mut b, false))
        }
        Stmt::Ins(i) => match i {
            Ins::Halt => "halt".into(),
            Ins::Nop => "nop".into(),
            Ins::Ret => "ret".into(),
            Ins::Cmov(0, x, y) => format!("rrmovq{gap}{}{comma}{}", r(x), r(y)),
            Ins::Cmov(f, x, y) => format!("cmov{}{gap}{}{comma}{}", CC[*f as usize], r(x), r(y)),
            Ins::Irmov(v, y) => format!("irmovq{gap}{}{comma}{}", imm(v, &mut b, true), r(y)),
            Ins::Rmmov(x, d, y) => format!("rmmovq{gap}{}{comma}{}", r(x), addr(d, y, &mut b)),
            Ins::Mrmov(d, y, x) => format!("mrmovq{gap}{}{comma}{}", addr(d, y, &mut b), r(x)),
            Ins::Op(f, x, y) => format!("{}q{gap}{}{comma}{}", OPS[*f as usize], r(x), r(y)),
            Ins::Iop(f, v, y) => format!("i{}q{gap}{}{comma}{}", OPS[*f as usize], imm(v, &mut b, true), r(y)),
            Ins::J(0, l) => format!("jmp{gap}{l}"),
            Ins::J(f, l) => format!("j{}{gap}{l}", CC[*f as usize]),
            Ins::Call(l) => format!("call{gap}{l}"),
            Ins::Push(x) => format!("pushq{gap}{}", r(x)),
            Ins::Pop(x) => format!("popq{gap}{}", r(x)),
        },
    };
    s += &trail;
    s += comment;
    s
}

/// `fmt[i]` formats line i (missing = canonical); `nl` picks the line endings.
pub fn render(lines: &[Line], fmt: &[u64], nl: u8) -> String {
    let mut out = String::new();
    for (i, l) in lines.iter().enumerate() {
        let f = fmt.get(i).copied().unwrap_or(0);
        out += &render_line(l, f);
        let last = i + 1 == lines.len();
        let e = match nl % 6 {
            0 | 4 => "\n",
            1 | 5 => "\r\n",
            2 => "\r",
            _ => ["\n", "\r\n", "\r"][(f >> 61) as usize % 3],
        };
        if !last || nl % 6 < 4 {
            // an empty line between CR and LF would vanish
            let e = if out.ends_with('\r') && e == "\n" { "\r" } else { e };
            out += e;
        }
    }
    out
}

pub fn plain(lines: &[Line]) -> String {
    render(lines, &[], 0)
}

/// Canonical program text placing an arbitrary image (non-zero runs only).
pub fn image_source(img: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < img.len() {
        if img[i] == 0 {
            i += 1;
            continue;
        }
        s += &format!(".pos {i:#x}\n");
        while i < img.len() && img[i] != 0 {
            s += &format!(".byte {:#x}\n", img[i]);
            i += 1;
        }
    }
    s
}
