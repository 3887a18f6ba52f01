//! C01–C03: the assembler, its listing and source map, and input handling.

use std::process::Command;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ast::{self, AsmErr, Imm, Ins, Line, Stmt, REGS};
use crate::cut;
use crate::engine::*;
use crate::gen;
use crate::isa_ref::MEM;

use y86_sim::{assemble, AssembleOption, ObjectExt};

fn asm(src: &str) -> Result<Result<ObjectExt, String>, String> {
    guard(|| assemble(src, AssembleOption::default()).map_err(|e| format!("{e:#}")))
}

// ------------------------------------------------------------------ generators

const LABELS: [&str; 26] = [
    "a", "b", "L1", "loop_2", "_", "_x9", "Main", "main", "ret", "halt", "rax", "le", "mp", "e", "ne2", "irmovq", "stack", "stack2", "pos",
    "x0", "zZ_", "q", "andq", "xorq_mask", "subq", "my_addq",
];

/// every word of the language, to be embedded in label names
const WORDS: [&str; 36] = [
    "halt", "nop", "ret", "rrmovq", "cmovle", "cmovl", "cmove", "cmovne", "cmovge", "cmovg", "irmovq", "rmmovq", "mrmovq", "addq", "subq",
    "andq", "xorq", "iaddq", "isubq", "iandq", "ixorq", "jmp", "jle", "jne", "call", "pushq", "popq", "pos", "align", "byte", "word", "long",
    "quad", "rax", "r14", "0x10",
];

fn label() -> BoxedStrategy<String> {
    prop_oneof![
        9 => prop::sample::select(LABELS.to_vec()).prop_map(|s| s.to_string()),
        3 => ("[a-z_]{0,2}", prop::sample::select(WORDS.to_vec()), "[a-z0-9_]{0,2}").prop_map(|(a, w, b)| {
            let s = format!("{a}{w}{b}");
            if s.starts_with(|c: char| c.is_ascii_digit()) { format!("_{s}") } else { s }
        }),
        1 => "[A-Za-z_][A-Za-z0-9_]{0,12}",
        // long ones that differ in the last characters only
        1 => (prop::sample::select(vec![14usize, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 253, 254, 255, 256, 300]), prop::sample::select(vec!["", "", "a", "b", "B", "ab", "1", "12"]))
            .prop_map(|(n, e)| "l".repeat(n) + e),
    ]
    .boxed()
}

fn imm() -> BoxedStrategy<Imm> {
    prop_oneof![3 => gen::value().prop_map(Imm::N), 2 => label().prop_map(Imm::L)].boxed()
}

fn r() -> std::ops::Range<u8> {
    0..15
}

fn ins() -> BoxedStrategy<Ins> {
    let disp = || prop_oneof![1 => Just(None), 3 => gen::value().prop_map(Some)];
    prop_oneof![
        1 => Just(Ins::Halt),
        1 => Just(Ins::Nop),
        1 => Just(Ins::Ret),
        3 => (0u8..7, r(), r()).prop_map(|(f, a, b)| Ins::Cmov(f, a, b)),
        3 => (imm(), r()).prop_map(|(v, b)| Ins::Irmov(v, b)),
        2 => (r(), disp(), r()).prop_map(|(a, d, b)| Ins::Rmmov(a, d, b)),
        2 => (disp(), r(), r()).prop_map(|(d, b, a)| Ins::Mrmov(d, b, a)),
        3 => (0u8..4, r(), r()).prop_map(|(f, a, b)| Ins::Op(f, a, b)),
        3 => (0u8..4, imm(), r()).prop_map(|(f, v, b)| Ins::Iop(f, v, b)),
        3 => (0u8..7, label()).prop_map(|(f, l)| Ins::J(f, l)),
        2 => label().prop_map(Ins::Call),
        1 => r().prop_map(Ins::Push),
        1 => r().prop_map(Ins::Pop),
    ]
    .boxed()
}

/// `wild`: positions and alignments that may leave the memory
fn stmt(wild: bool) -> BoxedStrategy<Stmt> {
    let pos = if wild {
        prop_oneof![3 => 0u64..0x10000, 3 => 0xfff0u64..0x10012, 1 => gen::value()].boxed()
    } else {
        prop_oneof![2 => 0u64..0x200, 2 => 0u64..0xfff0, 1 => 0xff00u64..0xfff7].boxed()
    };
    let align = if wild {
        prop_oneof![3 => (0u32..64).prop_map(|k| 1u64 << k), 1 => gen::value(), 1 => 0u64..20].boxed()
    } else {
        (0u32..9).prop_map(|k| 1u64 << k).boxed()
    };
    prop_oneof![
        10 => ins().prop_map(Stmt::Ins),
        4 => (prop::sample::select(vec![1u8, 2, 4, 8]), imm()).prop_map(|(w, v)| Stmt::Data(w, v)),
        1 => pos.prop_map(Stmt::Pos),
        2 => align.prop_map(Stmt::Align),
        2 => Just(Stmt::None),
    ]
    .boxed()
}

fn lines(wild: bool, max: usize) -> BoxedStrategy<Vec<Line>> {
    let line = (prop_oneof![2 => Just(None), 1 => label().prop_map(Some)], stmt(wild)).prop_map(|(label, stmt)| Line { label, stmt });
    prop::collection::vec(line, 0..max).boxed()
}

/// defines every label that is used and not defined
fn close(mut v: Vec<Line>) -> Vec<Line> {
    let used = |s: &Stmt| match s {
        Stmt::Data(_, Imm::L(l)) => Some(l.clone()),
        Stmt::Ins(Ins::Irmov(Imm::L(l), _) | Ins::Iop(_, Imm::L(l), _) | Ins::J(_, l) | Ins::Call(l)) => Some(l.clone()),
        _ => None,
    };
    let want: Vec<String> = v.iter().filter_map(|l| used(&l.stmt)).collect();
    for (i, w) in want.iter().enumerate() {
        if !v.iter().any(|l| l.label.as_deref() == Some(w)) {
            let at = if i % 2 == 0 { v.len() } else { i * 7 % (v.len() + 1) };
            v.insert(at, Line::label(w.clone()));
        }
    }
    v
}

fn fmts() -> BoxedStrategy<Vec<u64>> {
    prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(any::<u64>(), 0..48)].boxed()
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Src {
    pub lines: Vec<Line>,
    pub fmt: Vec<u64>,
    pub nl: u8,
    pub fmt2: Vec<u64>,
    pub nl2: u8,
}

fn diff_asm(o: &ObjectExt, want: &ast::Asm) -> Verdict {
    let img = o.obj.init_mem();
    if img[..] != want.image[..] {
        return Err(format!("image: {}", cut::mem_diff(&img, &want.image)));
    }
    if o.obj.symbols != want.symbols {
        return Err(format!("symbols {:x?}, should be {:x?}", o.obj.symbols, want.symbols));
    }
    Ok(())
}

fn c01_check(c: &Src, obs: &mut Obs) -> Verdict {
    let want = match ast::assemble(&c.lines) {
        Ok(a) => a,
        Err(_) => {
            obs.label("skipped: does not fit into memory");
            return Ok(());
        }
    };
    obs.nontrivial = want.lens.iter().filter(|n| **n > 0).count() >= 3;
    obs.label_if(want.overlap, "overwriting statements");
    obs.label_if(!want.symbols.is_empty(), "labels");
    for l in &c.lines {
        match &l.stmt {
            Stmt::Pos(_) => obs.label(".pos"),
            Stmt::Align(_) => obs.label(".align"),
            Stmt::Data(..) => obs.label("data"),
            Stmt::Ins(Ins::Iop(..)) => obs.label("iopq"),
            _ => {}
        }
        obs.label_if(l.label.is_some() && l.stmt != Stmt::None, "label and statement on one line");
    }
    obs.count("bytes", want.lens.iter().sum::<usize>() as u64);
    for (f, n) in [(&c.fmt, c.nl), (&c.fmt2, c.nl2)] {
        let src = ast::render(&c.lines, f, n);
        obs.note = Some(src.clone());
        match asm(&src) {
            Err(p) => return Err(format!("the assembler crashed: {p}")),
            Ok(Err(e)) => return Err(format!("a well-formed program is rejected: {}", e.replace('\n', " "))),
            Ok(Ok(o)) => diff_asm(&o, &want)?,
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn split_lines(src: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut it = src.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\n' => out.push(std::mem::take(&mut cur)),
            '\r' => {
                if it.peek() == Some(&'\n') {
                    it.next();
                }
                out.push(std::mem::take(&mut cur));
            }
            c => cur.push(c),
        }
    }
    out.push(cur);
    out
}

fn check_listing(src: &str, lines: &[Line], want: &ast::Asm, obs: &mut Obs) -> Result<String, String> {
    let o = match asm(src) {
        Err(p) => return Err(format!("the assembler crashed: {p}")),
        Ok(Err(e)) => return Err(format!("a well-formed program is rejected: {}", e.replace('\n', " "))),
        Ok(Ok(o)) => o,
    };
    let listing = guard(|| o.to_string()).map_err(|p| format!("printing the listing crashed: {p}"))?;
    let rows: Vec<&str> = {
        let mut v: Vec<&str> = listing.split('\n').collect();
        if v.last() == Some(&"") {
            v.pop();
        }
        v
    };
    let srcs = split_lines(src);
    // blank rows may follow the last source line
    let blank = rows.iter().skip(srcs.len()).all(|r| r.split_once('|').is_some_and(|(a, b)| a.trim().is_empty() && b.trim().is_empty()));
    if rows.len() < srcs.len() || !blank {
        return Err(format!("the listing has {} lines for {} source lines", rows.len(), srcs.len()));
    }
    for (i, (row, s)) in rows.iter().zip(&srcs).enumerate() {
        let Some((left, right)) = row.split_once('|') else {
            return Err(format!("listing line {} has no separator: {row:?}", i + 1));
        };
        if right.strip_prefix(' ') != Some(s.as_str()) {
            return Err(format!("listing line {} shows {right:?} for source line {s:?}", i + 1));
        }
        let addr = want.addrs.get(i).copied().flatten();
        let len = want.lens.get(i).copied().unwrap_or(0);
        let got = match left.split_once(':') {
            None if left.trim().is_empty() => None,
            None => return Err(format!("listing line {}: {left:?}", i + 1)),
            Some((a, b)) => {
                let a = a.trim().strip_prefix("0x").and_then(|a| u64::from_str_radix(a, 16).ok());
                let Some(a) = a else { return Err(format!("listing line {}: address {left:?}", i + 1)) };
                Some((a, b.trim().to_string()))
            }
        };
        let shown = addr.map(|a| (a, (0..len).map(|k| format!("{:02x}", want.image[a as usize + k])).collect::<String>()));
        if got != shown {
            return Err(format!("listing line {} annotates {got:x?}, should be {shown:x?}", i + 1));
        }
        // the source map
        let m = guard(|| o.source.get_line(i as i64 + 1).map(|l| (l.addr, l.src.clone()))).map_err(|p| format!("get_line({}) crashed: {p}", i + 1))?;
        if m != Some((addr, s.clone())) {
            return Err(format!("get_line({}) gives {m:x?}, should be {:x?}", i + 1, (addr, s)));
        }
    }
    for extra in [srcs.len() as i64 + 1, srcs.len() as i64 + 7, i64::MAX] {
        match guard(|| o.source.get_line(extra).is_some_and(|l| l.addr.is_some() || !l.src.is_empty())) {
            Ok(false) => {}
            Ok(true) => return Err(format!("get_line({extra}) finds a line in a source of {} lines", srcs.len())),
            Err(p) => return Err(format!("get_line({extra}) crashed: {p}")),
        }
    }
    let mut probes: Vec<u64> = want.addrs.iter().flatten().copied().collect();
    probes.sort();
    probes.dedup();
    probes.extend(probes.clone().iter().flat_map(|a| [a.wrapping_add(1), a.wrapping_sub(1), a.wrapping_add(0x10000)]));
    for a in probes {
        let exists = want.addrs.contains(&Some(a));
        let n = guard(|| o.source.get_line_number_by_addr(a)).map_err(|p| format!("get_line_number_by_addr crashed: {p}"))?;
        match n {
            None if exists => return Err(format!("no line is found for address {a:#x}, though one is placed there")),
            Some(_) if !exists => return Err(format!("a line is found for address {a:#x}, though none is placed there")),
            Some(n) if n < 1 || want.addrs.get(n as usize - 1).copied().flatten() != Some(a) => {
                return Err(format!("line {n} is given for address {a:#x}, but it is not placed there"))
            }
            _ => {}
        }
        obs.count("address look-ups", 1);
    }
    let _ = lines;
    Ok(listing)
}

fn c02_check(c: &Src, obs: &mut Obs) -> Verdict {
    let Ok(want) = ast::assemble(&c.lines) else {
        obs.label("skipped: does not fit into memory");
        return Ok(());
    };
    obs.nontrivial = want.lens.iter().filter(|n| **n > 0).count() >= 2;
    let src = ast::render(&c.lines, &c.fmt, c.nl);
    obs.note = Some(src.clone());
    let listing = check_listing(&src, &c.lines, &want, obs)?;
    // an independent loader of the listing: rebuild the image
    let mut img = vec![0u8; MEM];
    for row in listing.lines() {
        let left = row.split('|').next().unwrap();
        if let Some((a, b)) = left.split_once(':') {
            let a = usize::from_str_radix(a.trim().trim_start_matches("0x"), 16).unwrap();
            let b = b.trim();
            for k in 0..b.len() / 2 {
                img[a + k] = u8::from_str_radix(&b[2 * k..2 * k + 2], 16).unwrap();
            }
        }
    }
    if img != want.image {
        return Err(format!("the image read back from the listing: {}", cut::mem_diff(&img, &want.image)));
    }
    Ok(())
}

/// program text whose execution flips all bits of memory words in two windows,
/// so that the loader's image shows in the memory difference yis prints
const FLIP: &str = "irmovq $0x100, %rsp
irmovq $8, %r8
irmovq $-1, %r9
irmovq $0x100, %rbx
irmovq $0x800, %rcx
call flip_
irmovq $0xf800, %rbx
irmovq $0x10000, %rcx
call flip_
halt
flip_:
mrmovq (%rbx), %rax
xorq %r9, %rax
rmmovq %rax, (%rbx)
addq %r8, %rbx
rrmovq %rbx, %rdx
subq %rcx, %rdx
jne flip_
ret
.pos 0x100
";
const WINDOWS: [(usize, usize); 2] = [(0x100, 0x800), (0xf800, 0x10000)];

/// bin: yis; loads `listing` and returns (initial, final) of every printed word
pub fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn parse_mem_diff(out: &str) -> Vec<(u64, [u8; 8], [u8; 8])> {
    let hex8 = |s: &str| -> Option<[u8; 8]> {
        if s.len() != 16 || !s.is_ascii() {
            return None;
        }
        let mut b = [0; 8];
        for (i, x) in b.iter_mut().enumerate() {
            *x = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()?;
        }
        Some(b)
    };
    out.lines()
        .filter_map(|l| {
            let (a, rest) = l.split_once(": ")?;
            let (x, y) = rest.split_once(" -> ")?;
            let a = u64::from_str_radix(a.strip_prefix("0x")?, 16).ok()?;
            Some((a, hex8(x.trim())?, hex8(y.trim())?))
        })
        .collect()
}

pub fn tool(name: &str) -> std::path::PathBuf {
    let d = std::env::var_os("VH_BINS").map(std::path::PathBuf::from).unwrap_or_else(|| "/verif/target/cli/debug".into());
    d.join(name)
}

/// a scratch directory that goes away with the value
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = verif_dir().join(format!("scratch/{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn c02_load(c: &Src, obs: &mut Obs) -> Verdict {
    // keep the generated part inside the two windows
    let lines: Vec<Line> = c
        .lines
        .iter()
        .cloned()
        .map(|mut l| {
            if let Stmt::Pos(a) = &mut l.stmt {
                *a = if *a % 3 == 0 { 0xf800 + *a % 0x7f0 } else { 0x100 + *a % 0x600 };
            }
            if let Some(n) = &mut l.label {
                if n == "flip_" {
                    *n = "flip".into();
                }
            }
            l
        })
        .collect();
    let head_n = split_lines(FLIP).len() - 1;
    let mut head: Vec<Line> = vec![];
    for s in split_lines(FLIP).iter().take(head_n) {
        head.push(parse_line(s).expect("prelude").expect("prelude"));
    }
    let all: Vec<Line> = head.into_iter().chain(lines).collect();
    let Ok(want) = ast::assemble(&all) else {
        obs.label("skipped: does not fit into memory");
        return Ok(());
    };
    // nothing may overwrite the prelude
    let plain = ast::assemble(&all[..head_n]).unwrap();
    if want.image[..0x100] != plain.image[..0x100] {
        obs.label("skipped: overwrites the prelude");
        return Ok(());
    }
    obs.nontrivial = want.image[0x100..].iter().any(|b| *b != 0);
    // canonical prelude, formatted rest
    let mut fmt = vec![0u64; head_n];
    fmt.extend(&c.fmt);
    let src = ast::render(&all, &fmt, c.nl);
    obs.note = Some(src.clone());
    let listing = check_listing(&src, &all, &want, obs)?;
    let dir = Scratch::new();
    let path = dir.0.join("p.yo");
    std::fs::write(&path, &listing).expect("scratch file");
    let out = Command::new(tool("yis")).arg(&path).current_dir(&dir.0).output().expect("yis");
    let text = strip_ansi(&String::from_utf8_lossy(&out.stdout));
    if !out.status.success() {
        return Err(format!("yis fails on the listing: {}", strip_ansi(&String::from_utf8_lossy(&out.stderr)).replace('\n', " ")));
    }
    let diff = parse_mem_diff(&text);
    let mut img = vec![0u8; MEM];
    for (a, b) in WINDOWS {
        for x in img[a..b].iter_mut() {
            *x = 0xee; // not shown
        }
    }
    let mut seen = 0;
    for (a, before, _) in &diff {
        if WINDOWS.iter().any(|(x, y)| (*x as u64) <= *a && *a < *y as u64) {
            img[*a as usize..*a as usize + 8].copy_from_slice(before);
            seen += 1;
        }
    }
    obs.count("words read back through yis", seen);
    for (a, b) in WINDOWS {
        if img[a..b] != want.image[a..b] {
            let mut w = want.image.clone();
            for i in 0..MEM {
                if !WINDOWS.iter().any(|(x, y)| (*x..*y).contains(&i)) {
                    w[i] = img[i];
                }
            }
            return Err(format!("the image yis loads from the listing: {}", cut::mem_diff(&img, &w)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

/// Number text allowed by the grammar; None: not representable.
fn number(s: &str) -> Option<u64> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    if let Some(h) = t.strip_prefix("0x") {
        let mut v: u64 = 0;
        for c in h.chars() {
            if v >> 60 != 0 {
                return None;
            }
            v = v << 4 | c.to_digit(16)? as u64;
        }
        return Some(if neg { v.wrapping_neg() } else { v });
    }
    let mut v: u128 = 0;
    for c in t.chars() {
        v = v * 10 + c.to_digit(10)? as u128;
        if v > 1 << 63 {
            return None;
        }
    }
    match (neg, v) {
        (true, v) => Some((v as u64).wrapping_neg()),
        (false, v) if v < 1 << 63 => Some(v as u64),
        _ => None,
    }
}

struct P<'a> {
    s: &'a str,
    range: bool,
}

impl<'a> P<'a> {
    fn eat(&mut self, t: &str) -> bool {
        match self.s.strip_prefix(t) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn ws(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\t']);
    }
    fn label(&mut self) -> Option<String> {
        let mut n = 0;
        for (i, c) in self.s.char_indices() {
            let ok = c == '_' || c.is_ascii_alphabetic() || i > 0 && c.is_ascii_digit();
            if !ok {
                break;
            }
            n = i + 1;
        }
        if n == 0 {
            return None;
        }
        let (a, b) = self.s.split_at(n);
        self.s = b;
        Some(a.to_string())
    }
    fn num(&mut self) -> Option<u64> {
        let save = self.s;
        let start = self.s;
        self.eat("-");
        let digits = |s: &str, f: fn(&char) -> bool| s.chars().take_while(f).count();
        let n = if self.s.starts_with("0x") && digits(&self.s[2..], |c| c.is_ascii_hexdigit()) > 0 {
            2 + digits(&self.s[2..], |c| c.is_ascii_hexdigit())
        } else {
            digits(self.s, |c| c.is_ascii_digit())
        };
        if n == 0 {
            self.s = save;
            return None;
        }
        self.s = &self.s[n..];
        let text = &start[..start.len() - self.s.len()];
        match number(text) {
            Some(v) => Some(v),
            None => {
                self.range = true;
                Some(0)
            }
        }
    }
    fn reg(&mut self) -> Option<u8> {
        let mut best: Option<(usize, u8)> = None;
        for (i, n) in REGS.iter().enumerate() {
            if self.s.starts_with(n) && best.is_none_or(|(l, _)| n.len() > l) {
                best = Some((n.len(), i as u8));
            }
        }
        let (l, i) = best?;
        self.s = &self.s[l..];
        Some(i)
    }
    fn comma(&mut self) -> Option<()> {
        self.ws();
        if !self.eat(",") {
            return None;
        }
        self.ws();
        Some(())
    }
    fn imm_or_label(&mut self, dollar: bool) -> Option<Imm> {
        if dollar {
            if self.eat("$") {
                return self.num().map(Imm::N);
            }
        } else if let Some(n) = self.num() {
            return Some(Imm::N(n));
        }
        self.label().map(Imm::L)
    }
    fn addr(&mut self) -> Option<(Option<u64>, u8)> {
        let d = self.num();
        if !self.eat("(") {
            return None;
        }
        let r = self.reg()?;
        self.eat(")").then_some((d, r))
    }
    fn cc(&mut self) -> Option<u8> {
        for (t, f) in [("le", 1u8), ("l", 2), ("ge", 5), ("g", 6), ("e", 3), ("ne", 4)] {
            if self.eat(t) {
                return Some(f);
            }
        }
        None
    }
    fn stmt(&mut self) -> Option<Stmt> {
        use Stmt::Ins as I;
        for (t, i) in [("ret", Ins::Ret), ("halt", Ins::Halt), ("nop", Ins::Nop)] {
            if self.eat(t) {
                return Some(I(i));
            }
        }
        if self.eat("mrmovq") {
            self.ws();
            let (d, b) = self.addr()?;
            self.comma()?;
            return Some(I(Ins::Mrmov(d, b, self.reg()?)));
        }
        if self.eat("rmmovq") {
            self.ws();
            let a = self.reg()?;
            self.comma()?;
            let (d, b) = self.addr()?;
            return Some(I(Ins::Rmmov(a, d, b)));
        }
        if self.eat("irmovq") {
            self.ws();
            let v = self.imm_or_label(true)?;
            self.comma()?;
            return Some(I(Ins::Irmov(v, self.reg()?)));
        }
        for (f, o) in ["addq", "subq", "andq", "xorq"].iter().enumerate() {
            let f = f as u8;
            if self.s.starts_with('i') && self.s[1..].starts_with(o) {
                self.s = &self.s[5..];
                self.ws();
                let v = self.imm_or_label(true)?;
                self.comma()?;
                return Some(I(Ins::Iop(f, v, self.reg()?)));
            }
            if self.eat(o) {
                self.ws();
                let a = self.reg()?;
                self.comma()?;
                return Some(I(Ins::Op(f, a, self.reg()?)));
            }
        }
        let cmov = if self.eat("rrmovq") {
            Some(0)
        } else if self.eat("cmov") {
            Some(self.cc()?)
        } else {
            None
        };
        if let Some(f) = cmov {
            self.ws();
            let a = self.reg()?;
            self.comma()?;
            return Some(I(Ins::Cmov(f, a, self.reg()?)));
        }
        if self.eat("j") {
            let f = match self.cc() {
                Some(f) => f,
                None if self.eat("mp") => 0,
                None => return None,
            };
            self.ws();
            return Some(I(Ins::J(f, self.label()?)));
        }
        if self.eat("call") {
            self.ws();
            return Some(I(Ins::Call(self.label()?)));
        }
        if self.eat("pushq") {
            self.ws();
            return Some(I(Ins::Push(self.reg()?)));
        }
        if self.eat("popq") {
            self.ws();
            return Some(I(Ins::Pop(self.reg()?)));
        }
        if self.eat(".pos") {
            self.ws();
            return Some(Stmt::Pos(self.num()?));
        }
        if self.eat(".align") {
            self.ws();
            return Some(Stmt::Align(self.num()?));
        }
        for (t, w) in [(".byte", 1u8), (".word", 2), (".long", 4), (".quad", 8)] {
            if self.eat(t) {
                self.ws();
                return Some(Stmt::Data(w, self.imm_or_label(false)?));
            }
        }
        None
    }
}

/// One source line by the documented grammar. Err: not in the grammar;
/// Ok(None): a number is not representable.
pub fn parse_line(text: &str) -> Result<Option<Line>, ()> {
    let mut p = P { s: text, range: false };
    p.ws();
    let save = p.s;
    let mut label = p.label();
    if label.is_some() {
        if p.eat(":") {
            p.ws();
        } else {
            label = None;
            p.s = save;
        }
    }
    let here = p.s;
    let stmt = match p.stmt() {
        Some(s) => s,
        None => {
            p.s = here;
            p.range = false;
            Stmt::None
        }
    };
    p.ws();
    if !(p.s.is_empty() || p.s.starts_with('#')) {
        return Err(());
    }
    Ok((!p.range).then_some(Line { label, stmt }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text(pub String);

fn c03_check(c: &Text, obs: &mut Obs) -> Verdict {
    let mut lines = Some(vec![]);
    let mut syntax = true;
    for l in split_lines(&c.0) {
        match parse_line(&l) {
            Ok(Some(l)) => {
                if let Some(v) = &mut lines {
                    v.push(l)
                }
            }
            Ok(None) => lines = None,
            Err(()) => {
                syntax = false;
                break;
            }
        }
    }
    let mut why = "";
    let want = if !syntax {
        why = "a line does not follow the grammar";
        None
    } else {
        match &lines {
            None => {
                why = "a number is not representable";
                None
            }
            Some(v) => match ast::assemble(v) {
                Ok(a) => Some(a),
                Err(AsmErr::Undefined(_)) => {
                    why = "a label is undefined";
                    None
                }
                Err(AsmErr::Align) => {
                    why = "an alignment is not a power of two";
                    None
                }
                Err(AsmErr::Range) => {
                    why = "bytes lie outside the memory";
                    None
                }
            },
        }
    };
    obs.nontrivial = c.0.len() > 3;
    obs.label(if why.is_empty() { "accepted" } else { why });
    obs.note = Some(c.0.clone());
    match (asm(&c.0), want) {
        (Err(p), _) => Err(format!("the assembler crashed ({}): {p}", if why.is_empty() { "well-formed text" } else { why })),
        (Ok(Err(_)), None) => Ok(()),
        (Ok(Err(e)), Some(_)) => Err(format!("a well-formed text is rejected: {}", trunc(&e.replace('\n', " "), 300))),
        (Ok(Ok(o)), Some(w)) => {
            diff_asm(&o, &w)?;
            guard(|| o.to_string()).map(|_| ()).map_err(|p| format!("printing the listing crashed: {p}"))
        }
        (Ok(Ok(_)), None) => {
            // the address after an alignment may be beyond 2^64; nothing is said about that
            if why == "bytes lie outside the memory" && lines.as_ref().is_some_and(|v| align_overflow(v)) {
                obs.label("alignment beyond 2^64");
                return Ok(());
            }
            Err(format!("a text is accepted although {why}"))
        }
    }
}

fn align_overflow(v: &[Line]) -> bool {
    let bytes = |l: &Line| matches!(l.stmt, Stmt::Ins(_) | Stmt::Data(..));
    // only alignments can leave 64 bits when no bytes are emitted up there
    let mut k = 0;
    for i in 0..=v.len() {
        match ast::assemble(&v[..i].iter().filter(|l| !matches!(l.stmt, Stmt::Ins(Ins::J(..) | Ins::Call(_)))).cloned().collect::<Vec<_>>()) {
            Err(AsmErr::Range) => {
                k = i;
                break;
            }
            _ => continue,
        }
    }
    k > 0 && matches!(v[k - 1].stmt, Stmt::Align(_)) && !bytes(&v[k - 1])
}

const TOKENS: [&str; 74] = [
    "halt", "nop", "ret", "rrmovq", "cmovle", "cmovl", "cmove", "cmovne", "cmovge", "cmovg", "cmov", "irmovq", "rmmovq", "mrmovq", "addq", "subq",
    "andq", "xorq", "iaddq", "isubq", "iandq", "ixorq", "jmp", "jle", "jl", "je", "jne", "jge", "jg", "call", "pushq", "popq", ".pos", ".align",
    ".byte", ".word", ".long", ".quad", "%rax", "%rsp", "%r8", "%r14", "%r15", "%eax", "%r1", "$", "-", "0x", "(", ")", ",", ":", "#", "|", " ",
    " ", "  ", "\t", "\n", "\n", "\r\n", "\r", "a", "b:", "a:", "\u{a0}", "é", "\0", "\u{2028}", "\u{b}", "+", "$a", "%", ".",
];

fn numtext() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (gen::value(), any::<u64>()).prop_map(|(v, f)| ast::number(v, &mut ast::Bits(f))),
        2 => prop::sample::select(vec![
            "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
            "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "-0x1", "-0xffffffffffffffff", "-0x8000000000000000", "0x0000000000000000000001",
            "000000000000000000000000000012", "-0", "0xFfFf", "65535", "65536", "0x10000", "0xfff8", "0xfff9", "0xffff", "340282366920938463463374607431768211456", "-0x10000000000000000", "0xg", "1_000", "0X10", "1e3", "- 1", "--1", "$5", "-$5", "0b1",
        ]).prop_map(|s| s.to_string()),
        1 => "-?[0-9]{1,25}",
        1 => "-?0x[0-9a-fA-F]{0,20}",
    ]
    .boxed()
}

fn soup() -> BoxedStrategy<Text> {
    let tok = prop_oneof![8 => prop::sample::select(TOKENS.to_vec()).prop_map(|s| s.to_string()), 2 => numtext(), 1 => label()];
    prop::collection::vec((tok, any::<bool>()), 0..24)
        .prop_map(|v| Text(v.into_iter().map(|(t, sp)| if sp { t + " " } else { t }).collect()))
        .boxed()
}

/// statements of the right shape with arbitrary operand texts
fn shaped() -> BoxedStrategy<Text> {
    let reg = || prop_oneof![12 => r().prop_map(|x| REGS[x as usize].to_string()), 1 => prop::sample::select(vec!["%r15", "%rip", "rax", "%rAx", "%eax", "%r08", ""]).prop_map(|s| s.to_string())];
    let immt = || prop_oneof![6 => numtext().prop_map(|n| format!("${n}")), 1 => numtext(), 2 => label(), 1 => label().prop_map(|l| format!("${l}"))];
    let gap = || prop::sample::select(vec![" ", "", "\t", "  ", " \t"]);
    let comma = || prop::sample::select(vec![", ", ",", " , ", "", " ", ",,", "\t,"]);
    let disp = || prop_oneof![2 => numtext(), 2 => Just(String::new()), 1 => label(), 1 => numtext().prop_map(|n| format!("{n} "))];
    let line = prop_oneof![
        3 => (prop::sample::select(vec![".pos", ".align"]), gap(), numtext()).prop_map(|(d, g, n)| format!("{d}{g}{n}")),
        2 => (prop::sample::select(vec![".byte", ".word", ".long", ".quad", ".data"]), gap(), prop_oneof![numtext(), label()]).prop_map(|(d, g, n)| format!("{d}{g}{n}")),
        3 => (prop::sample::select(vec!["irmovq", "iaddq", "isubq", "iandq", "ixorq", "rrmovq"]), gap(), immt(), comma(), reg()).prop_map(|(m, g, i, c, r)| format!("{m}{g}{i}{c}{r}")),
        3 => (gap(), disp(), reg(), comma(), reg()).prop_map(|(g, d, b, c, a)| format!("mrmovq{g}{d}({b}){c}{a}")),
        2 => (gap(), disp(), reg(), comma(), reg()).prop_map(|(g, d, b, c, a)| format!("rmmovq{g}{a}{c}{d}({b})")),
        2 => (prop::sample::select(vec!["addq", "subq", "andq", "xorq", "rrmovq", "cmovl", "cmovle", "cmovg", "cmovge", "cmove", "cmovne", "cmov", "cmovmp"]), gap(), reg(), comma(), reg()).prop_map(|(m, g, a, c, b)| format!("{m}{g}{a}{c}{b}")),
        3 => (prop::sample::select(vec!["jmp", "jl", "jle", "jg", "jge", "je", "jne", "j", "call"]), gap(), prop_oneof![4 => label(), 1 => numtext(), 1 => reg()]).prop_map(|(m, g, l)| format!("{m}{g}{l}")),
        1 => (prop::sample::select(vec!["pushq", "popq", "halt", "ret", "nop"]), gap(), prop_oneof![2 => reg().boxed(), 1 => Just(String::new()).boxed()]).prop_map(|(m, g, r)| format!("{m}{g}{r}")),
        2 => (label(), prop::sample::select(vec![":", ": ", " :", ":halt", "::"])).prop_map(|(l, c)| format!("{l}{c}")),
    ];
    (prop::collection::vec((line, prop::sample::select(vec!["", "", "", " ", "#x", " # |:"])), 0..8), any::<bool>())
        .prop_map(|(v, defs)| {
            let mut s: String = v.into_iter().map(|(l, t)| format!("{l}{t}\n")).collect();
            if defs {
                for l in LABELS {
                    s += &format!("{l}:\n");
                }
            }
            Text(s)
        })
        .boxed()
}

fn mutated() -> BoxedStrategy<Text> {
    (lines(true, 14), fmts(), any::<u8>(), prop::collection::vec((any::<u16>(), 0u8..6, prop::sample::select(TOKENS.to_vec())), 0..4), any::<bool>())
        .prop_map(|(l, f, nl, edits, closed)| {
            let l = if closed { close(l) } else { l };
            let mut s: Vec<char> = ast::render(&l, &f, nl).chars().collect();
            for (at, what, tok) in edits {
                if s.is_empty() {
                    break;
                }
                let i = at as usize % s.len();
                match what {
                    0 => {
                        s.remove(i);
                    }
                    1 => {
                        s.splice(i..i, tok.chars());
                    }
                    2 => {
                        s.splice(i..i + 1, tok.chars());
                    }
                    3 => s.truncate(i),
                    4 => {
                        let n = (i + 5).min(s.len());
                        let cp: Vec<char> = s[i..n].to_vec();
                        s.splice(i..i, cp);
                    }
                    _ => {
                        let j = (i * 7 + 3) % s.len();
                        s.swap(i, j);
                    }
                }
            }
            Text(s.into_iter().collect())
        })
        .boxed()
}

// ------------------------------------------------------------------ parts

fn src(max: usize) -> BoxedStrategy<Src> {
    (lines(false, max), fmts(), any::<u8>(), fmts(), any::<u8>())
        .prop_map(|(l, fmt, nl, fmt2, nl2)| Src { lines: close(l), fmt, nl, fmt2, nl2 })
        .boxed()
}

/// sources of hundreds or thousands of lines with as many labels
fn large_src() -> BoxedStrategy<Src> {
    let name = || prop_oneof![
        6 => (0u16..2000).prop_map(|k| format!("l{k}")),
        1 => (0u16..40, 1usize..400).prop_map(|(k, n)| format!("{}{k}", "long_name_".repeat(n / 10 + 1))),
        1 => label(),
    ];
    let value = move || prop_oneof![1 => gen::value().prop_map(Imm::N), 2 => name().prop_map(Imm::L)];
    let stmt = prop_oneof![
        6 => ins().prop_map(Stmt::Ins),
        2 => (value(), r()).prop_map(|(v, b)| Stmt::Ins(Ins::Irmov(v, b))),
        2 => (0u8..7, name()).prop_map(|(f, l)| Stmt::Ins(Ins::J(f, l))),
        1 => name().prop_map(|l| Stmt::Ins(Ins::Call(l))),
        2 => (prop::sample::select(vec![1u8, 2, 4, 8]), value()).prop_map(|(w, v)| Stmt::Data(w, v)),
        1 => (0u32..6).prop_map(|k| Stmt::Align(1u64 << k)),
        2 => Just(Stmt::None),
    ];
    let line = (prop_oneof![2 => Just(None), 1 => name().prop_map(Some)], stmt).prop_map(|(label, stmt)| Line { label, stmt });
    let n = prop_oneof![3 => 100usize..600, 1 => 600usize..2500];
    (n.prop_flat_map(move |n| prop::collection::vec(line.clone(), n)), prop::collection::vec(any::<u64>(), 1..200), any::<u8>(), fmts(), any::<u8>())
        .prop_map(|(l, fmt, nl, fmt2, nl2)| Src { lines: close(l), fmt, nl, fmt2, nl2 })
        .boxed()
}

fn large_part(ctx: &Ctx, n: u64, f: fn(&Src, &mut Obs) -> Verdict) -> Box<dyn DynPart> {
    Box::new(Part {
        name: "large",
        rule: "sources of 100 to several thousand lines with as many, also very long, labels; non-trivial: at least 3 statements emit bytes.",
        cases: ctx.cases(n),
        shrink_iters: 2000,
        workers: WORKERS,
        strategy: Box::new(large_src),
        check: Box::new(f),
    })
}

pub fn c01(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![large_part(ctx, 1500, c01_check), Box::new(Part {
        name: "programs",
        rule: "programs of all instructions, directives and labels, each rendered twice in random notation; non-trivial: at least 3 statements emit bytes.",
        cases: ctx.cases(300_000),
        shrink_iters: 4000,
        workers: WORKERS,
        strategy: Box::new(|| src(26)),
        check: Box::new(c01_check),
    })]
}

pub fn c02(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        large_part(ctx, 1500, c02_check),
        Box::new(Part {
            name: "listing",
            rule: "programs with comments that contain listing syntax: every listing line, the image read back from the listing and the source map compared with the reference placement; non-trivial: at least 2 statements emit bytes.",
            cases: ctx.cases(400_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| src(22)),
            check: Box::new(c02_check),
        }),
        Box::new(Part {
            name: "yis",
            rule: "the listing of a program that flips every bit of two memory windows is run by yis, whose memory difference shows the image it loaded; non-trivial: the windows are not empty.",
            cases: ctx.cases(8000),
            shrink_iters: 300,
            workers: WORKERS,
            strategy: Box::new(|| src(30)),
            check: Box::new(c02_load),
        }),
    ]
}

pub fn c03(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    let part = |name, rule, n, s: fn() -> BoxedStrategy<Text>| -> Box<dyn DynPart> {
        Box::new(Part { name, rule, cases: ctx.cases(n), shrink_iters: 4000, workers: WORKERS, strategy: Box::new(s), check: Box::new(c03_check) })
    };
    vec![
        part("shaped", "lines of statement shape with boundary, malformed and out-of-range operands; non-trivial: longer than 3 bytes.", 700_000, shaped),
        part("mutated", "well-formed programs with positions and alignments anywhere in 64 bits, and up to 3 random edits; non-trivial: longer than 3 bytes.", 500_000, mutated),
        part("tokens", "random token sequences; non-trivial: longer than 3 bytes.", 500_000, soup),
        part("text", "random unicode text; non-trivial: longer than 3 bytes.", 150_000, || {
            prop_oneof![any::<String>(), "[ -~\n\t]{0,60}", "([a-z%$0-9,.():#]{1,7}[ \n]?){0,10}"].prop_map(Text).boxed()
        }),
    ]
}
