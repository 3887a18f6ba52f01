//! C18: the architecture tester's verdicts.

use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::OnceLock;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ast;
use crate::batch::{self, Batch, Conn};
use crate::core_arch::{self as ca, Core, Defect};
use crate::cut;
use crate::engine::*;
use crate::gen::{self, Prog};
use crate::isa_ref::{Machine, Step};
use crate::p_asm::Scratch;
use crate::p_isa::{self, fuel, with_fuel, One, LONG};

const NAME: &str = "core";

fn core_source() -> String {
    format!(
        r##"pub mod hw {{
pub mod isa_ref {{
#![allow(unused)]
{}
}}
pub mod core_arch {{
#![allow(unused)]
{}
}}
use core_arch::{{Core, Defect}};
use crate::framework::{{HardwareUnits, MemData}};
crate::define_units! {{
CoreUnit core {{
.input(en: bool)
.output(pc: u64, done: bool)
mem: MemData, core: Core }} {{ if en {{ core.cycle(); mem.write().copy_from_slice(&core.m.mem); }} *pc = core.m.pc; *done = core.over; }}
}}
impl std::fmt::Display for Units {{ fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}
impl HardwareUnits for Units {{
fn init(memory: MemData) -> Self {{
let d = Defect::parse(&std::env::var("VH_DEFECT").unwrap_or_default());
let core = Core::new(&memory.read()[..], d);
Self {{ core: CoreUnit {{ mem: memory, core }} }} }}
fn register_file(&self) -> crate::isa::RegFile {{ self.core.core.m.regs }}
}}
}}
crate::define_stages! {{
Stage0 f {{ last: u64 = 0 }}
}}
sim_macro::hcl! {{
#![hardware = self::hw]
#![program_counter = pc]
#![termination = done]
#![stage_alias(F => f)]
bool on = true -> core.en;
u64 pc = core.pc -> f.last;
bool done = core.done;
}}
impl crate::framework::PipeSim<Arch> {{ fn print_state(&self) {{}} }}
"##,
        include_str!("isa_ref.rs").lines().filter(|l| !l.starts_with("//!")).collect::<Vec<_>>().join("\n"),
        include_str!("core_arch.rs").lines().filter(|l| !l.starts_with("//!")).collect::<Vec<_>>().join("\n"),
    )
}

static BATCH: OnceLock<Result<Batch, String>> = OnceLock::new();

fn batch() -> Result<&'static Batch, String> {
    BATCH
        .get_or_init(|| {
            let b = match batch::build_n(1, &[(NAME.to_string(), core_source())])? {
                batch::Built::Yes(b) => b,
                batch::Built::No(_, e) => return Err(format!("the simulator does not build with the core architecture: {e}")),
            };
            match b.refused.get(NAME) {
                Some(e) => Err(format!("the core architecture does not compile: {e}")),
                None => Ok(b),
            }
        })
        .as_ref()
        .map_err(|e| e.clone())
}

struct Link {
    conn: Conn,
    dir: Scratch,
}

thread_local! {
    static LINK: RefCell<Option<Link>> = const { RefCell::new(None) };
}

/// Err(outer) = no verdict; Err(inner) = the tester's error
fn ask(req: &str, keep_dir: &mut Option<String>) -> Result<Result<(), String>, String> {
    LINK.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            let b = batch()?;
            let dir = Scratch::new();
            let conn = Conn::open(&b.runners[0], &dir.0)?;
            *l = Some(Link { conn, dir });
        }
        let link = l.as_mut().unwrap();
        let file = link.dir.0.join("test-failure.ys");
        let _ = std::fs::remove_file(&file);
        let r = link.conn.ask(req);
        *keep_dir = std::fs::read_to_string(&file).ok();
        match r {
            Err(e) => {
                *l = None;
                Ok(Err(format!("@{e}")))
            }
            Ok(a) => {
                if let Some(p) = a.panic {
                    return Ok(Err(format!("@the tester crashed: {p}")));
                }
                let f = a.lines.first().ok_or("no verdict from the runner")?;
                Ok(match f.get(1).map(|s| s.as_str()) {
                    Some("ok") => Ok(()),
                    _ => Err(f.get(2).cloned().unwrap_or_default()),
                })
            }
        }
    })
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Prog(Prog, Vec<u64>, u8),
    One(One),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    what: What,
    /// text added at the end that makes the program unassemblable
    spoil: String,
    defect: (u8, u64, u64, u64),
}

pub const SPOIL: [&str; 8] = [
    "jmp nowhere\n",
    "bogus %rax\n",
    "irmovq $99999999999999999999, %rax\n",
    ".pos 0x10000\n.byte 1\n",
    "addq %rax\n",
    ".align 3\n",
    "mrmovq (%rax), 5\n",
    "a b c\n",
];

impl What {
    pub fn parts(&self) -> Option<(Vec<u8>, String)> {
        match self {
            What::Prog(p, fmt, nl) => {
                let lines = p.lines();
                let a = ast::assemble(&lines).ok()?;
                Some((a.image, ast::render(&lines, fmt, *nl)))
            }
            What::One(o) => {
                let img = o.image();
                let src = ast::image_source(&img);
                Some((img, src))
            }
        }
    }
}

fn defect() -> BoxedStrategy<(u8, u64, u64, u64)> {
    let bits = || prop_oneof![3 => (0u32..64).prop_map(|b| 1u64 << b), 1 => any::<u64>()];
    let byte = || prop_oneof![4 => (0u32..8).prop_map(|b| 1u64 << b), 1 => 1u64..256];
    let addr = || prop_oneof![2 => 0u64..0x10000, 1 => 0u64..0x200, 1 => 0xffe0u64..0x10000, 1 => prop::sample::select(vec![0u64, 7, 8, 0xfff, 0x1000, 0x7fff, 0x8000, 0xffff, 0xfff8, 0x6ff8, 0x6fff])];
    let op = || {
        prop_oneof![
            (prop::sample::select(vec![2u64, 7]), 0u64..7),
            (prop::sample::select(vec![6u64, 12]), 0u64..4),
            (prop::sample::select(vec![1u64, 3, 4, 5, 8, 9, 10, 11]), Just(0u64)),
        ]
    };
    prop_oneof![
        3 => Just((0, 0, 0, 0)),
        6 => (0u64..15, bits()).prop_map(|(a, b)| (ca::REG, a, b, 0)),
        6 => (addr(), byte()).prop_map(|(a, b)| (ca::MEMB, a, b, 0)),
        1 => (0u64..15, bits(), 1u64..20).prop_map(|(a, b, c)| (ca::TEMP, a, b, c)),
        1 => (addr(), byte(), 1u64..20).prop_map(|(a, b, c)| (ca::TEMPM, a, b, c)),
        2 => op().prop_map(|(a, b)| (ca::SKIP, a, b, 0)),
        2 => (prop::sample::select(vec![2u64, 7]), 0u64..7, 0u64..4).prop_map(|(a, b, c)| (ca::COND, a, b, c)),
        2 => op().prop_map(|(a, b)| (ca::STOP, a, b, 0)),
        2 => (0u64..30).prop_map(|a| (ca::EARLY, a, 0, 0)),
        1 => (0u64..50).prop_map(|a| (ca::LATE, a, 0, 0)),
        1 => Just((ca::FLAGS, 0, 0, 0)),
        2 => (op(), prop_oneof![bits(), Just(1), Just(u64::MAX)]).prop_map(|((a, b), c)| (ca::RESULT, a, b, c)),
        1 => (0u64..15, 0u64..15).prop_map(|(a, b)| (ca::SWAP, a, b, 0)),
    ]
    .boxed()
}

/// a program of exactly so many instructions, halt included
pub fn exactly(total: u64) -> What {
    let n = (total - 10) / 2;
    let mut body = vec![gen::G::Irmov(n, 0), gen::G::Irmov(1, 1)];
    // 2 instructions come before the body, 3 around the loop
    for _ in 0..total - 2 * n - 5 {
        body.push(gen::G::Nop);
    }
    body.push(gen::G::Tight(1, 0));
    What::Prog(Prog { regs: vec![], stack: 0x7000, start: 0, data: vec![], body, fault: None, shadow: vec![] }, vec![], 0)
}

pub fn programs(faulty: u32) -> BoxedStrategy<What> {
    let fmt = || (prop_oneof![Just(vec![]), prop::collection::vec(any::<u64>(), 0..40)], any::<u8>());
    prop_oneof![
        8 => (gen::prog(true, 10, false), fmt()).prop_map(|(p, (f, n))| What::Prog(p, f, n)),
        faulty => (gen::prog(true, 8, true), fmt()).prop_map(|(p, (f, n))| What::Prog(p, f, n)),
        3 => p_isa::one(false, false).prop_map(What::One),
    ]
    .boxed()
}

fn spoils() -> BoxedStrategy<String> {
    prop_oneof![15 => Just(String::new()), 1 => prop::sample::select(SPOIL.to_vec()).prop_map(|s| s.to_string())].boxed()
}

/// The text, and whether and how it ends; None when it is not decided here.
fn setting(w: &What, spoil: &str, obs: &mut Obs) -> Option<(String, Vec<u8>, Option<Machine>)> {
    let Some((img, src)) = w.parts() else {
        obs.label("skipped: overlapping layout");
        return None;
    };
    if !spoil.is_empty() {
        obs.label("does not assemble");
        let sep = if src.is_empty() || src.ends_with(['\n', '\r']) { "" } else { "\n" };
        return Some((format!("{src}{sep}{spoil}"), img, None));
    }
    let mut m = Machine::new(&img);
    let (end, evs) = m.run(fuel());
    match end {
        None => {
            obs.label("skipped: does not end");
            None
        }
        Some(Step::Halt) => Some((src, img, Some(m))),
        Some(_) => {
            // the simulator may tolerate undefined register fields
            if evs.last().is_some_and(|_| end == Some(Step::Fault(crate::isa_ref::Fault::Field))) {
                obs.label("skipped: undefined register field");
                return None;
            }
            obs.label("faults under the ISA");
            Some((src, img, None))
        }
    }
}

fn same(m: &Machine, regs: &[u64; 16], mem: &[u8]) -> bool {
    m.regs[..15] == regs[..15] && m.mem == mem
}

fn on_core(c: &Case, obs: &mut Obs) -> Verdict {
    let Some((src, img, m)) = setting(&c.what, &c.spoil, obs) else { return Ok(()) };
    let d = Defect { kind: c.defect.0, a: c.defect.1, b: c.defect.2, c: c.defect.3 };
    let mut core = Core::new(&img, d.clone());
    let want = match &m {
        None => false,
        Some(m) => {
            while !core.over && core.cycles < 20000 {
                core.cycle();
            }
            if !core.over {
                obs.label("skipped: the architecture does not end");
                return Ok(());
            }
            same(m, &core.m.regs, &core.m.mem)
        }
    };
    obs.nontrivial = m.is_some();
    if m.is_some() {
        obs.label(if want { "matching run" } else { "differing run" });
        obs.label_if(!want && core.m.regs[..15] != m.as_ref().unwrap().regs[..15] && core.m.mem == m.as_ref().unwrap().mem, "only registers differ");
        obs.label_if(!want && core.m.regs[..15] == m.as_ref().unwrap().regs[..15], "only memory differs");
        obs.label_if(want && d.kind != 0, "defect without consequence");
        obs.label_if(d.kind == 0, "correct architecture");
    }
    obs.note = Some(format!("defect {}\n{}", d.text(), trunc(&src, 600)));
    let r = ask(&format!("test\t{NAME}\t{}\t{}", d.text(), hex(src.as_bytes())), &mut None);
    match r {
        Err(e) => {
            internal_error(e);
            Ok(())
        }
        Ok(Err(e)) if e.starts_with('@') => Err(format!("{} (defect {})\n{src}", &e[1..], d.text())),
        Ok(Ok(())) if !want => Err(match &m {
            None => format!("the tester accepts a program that does not assemble or halt\n{src}"),
            Some(m) => format!(
                "the tester accepts an architecture whose result differs: registers {}; memory {} (defect {})\n{src}",
                cut::regs_diff(&core.m.regs, &m.regs),
                cut::mem_diff(&core.m.mem, &m.mem),
                d.text()
            ),
        }),
        Ok(Err(e)) if want => Err(format!("the tester rejects an architecture whose result is right: {e} (defect {})\n{src}", d.text())),
        Ok(_) => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Built {
    what: What,
    spoil: String,
    arch: u8,
}

fn on_builtin(c: &Built, obs: &mut Obs) -> Verdict {
    let Some((src, img, m)) = setting(&c.what, &c.spoil, obs) else { return Ok(()) };
    let arch = ["seq_std", "seq_plus_std", "pipe_std"][c.arch as usize % 3];
    let want = match &m {
        None => false,
        Some(m) => {
            let cap = 6 * fuel() + 100;
            let Ok(e) = crate::p_arch::run_arch(arch, &img, cap) else {
                obs.label("skipped: the architecture crashes");
                return Ok(());
            };
            if !e.done {
                obs.label("skipped: the architecture does not end");
                return Ok(());
            }
            same(m, &e.regs, &e.mem)
        }
    };
    obs.nontrivial = m.is_some();
    if m.is_some() {
        obs.label(if want { "matching run" } else { "differing run" });
    }
    obs.label(arch);
    let r = guard(|| {
        y86_sim::test::SimTester::new(arch).expect("built-in architecture").test_isa(&src).map(|r| {
            let mem = r.mem.read().to_vec();
            (r.answer.regs, r.answer.bin.to_vec(), r.sim.registers(), mem)
        })
    });
    match r {
        Err(p) => Err(format!("the tester crashed: {p}\n{src}")),
        Ok(Ok(_)) if !want => Err(format!("the tester accepts a run of {arch} that does not match the ISA\n{src}")),
        Ok(Err(e)) if want => Err(format!("the tester rejects a run of {arch} that matches the ISA: {e:#}\n{src}")),
        Ok(Ok((ar, am, sr, sm))) => {
            let m = m.unwrap();
            if !same(&m, &ar, &am) || !same(&m, &sr, &sm) {
                return Err(format!("the accepted run of {arch} carries another state than the ISA's\n{src}"));
            }
            Ok(())
        }
        Ok(Err(_)) => Ok(()),
    }
}

// ----------------------------------------------------------------- sweeps

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sweep {
    arch: String,
    sweep: String,
    defect: (u8, u64, u64, u64),
    /// None: either way
    passes: bool,
    stuck: bool,
}

fn sweeps() -> Vec<Sweep> {
    let mut v = vec![];
    let all = ["opq", "iopq", "cmov", "jm"];
    let mut add = |sweep: &str, d: (u8, u64, u64, u64), passes: bool| v.push(Sweep { arch: NAME.into(), sweep: sweep.into(), defect: d, passes, stuck: false });
    for s in all {
        add(s, (0, 0, 0, 0), true);
        add(s, (ca::FLAGS, 0, 0, 0), true);
        add(s, (ca::LATE, 7, 0, 0), true);
        for r in 0..15 {
            add(s, (ca::REG, r, 1 << (r * 4), 0), false);
        }
        for a in [0u64, 3, 0xff, 0x1234, 0x7fff, 0x8000, 0xfff7, 0xffff] {
            add(s, (ca::MEMB, a, 1, 0), false);
        }
        add(s, (ca::EARLY, 1, 0, 0), false);
        add(s, (ca::STOP, 3, 0, 0), false);
        add(s, (ca::SKIP, 3, 0, 0), false);
    }
    for (s, i, n) in [("opq", 6u64, 4u64), ("iopq", 12, 4), ("cmov", 2, 7), ("jm", 7, 7)] {
        for f in 0..n {
            add(s, (ca::SKIP, i, f, 0), false);
            if i != 7 {
                add(s, (ca::RESULT, i, f, 1), false);
            }
            if (i, f) != (7, 0) {
                add(s, (ca::STOP, i, f, 0), false);
            }
        }
        add(s, (ca::SKIP, i, 16, 0), false);
        add(s, (ca::STOP, i, 16, 0), false);
        // instructions the sweep does not need may be missing
        for other in [8u64, 9, 10, 11, 4, 5] {
            add(s, (ca::STOP, other, 0, 0), true);
            add(s, (ca::SKIP, other, 0, 0), true);
        }
    }
    for (s, i) in [("cmov", 2u64), ("jm", 7)] {
        for f in 0..7 {
            for rel in 0..4 {
                add(s, (ca::COND, i, f, rel), false);
            }
        }
    }
    for a in ["seq_std", "seq_plus_std", "pipe_std"] {
        for s in all {
            v.push(Sweep { arch: a.into(), sweep: s.into(), defect: (0, 0, 0, 0), passes: s != "iopq", stuck: false });
        }
    }
    v.push(Sweep { arch: "no_such_arch".into(), sweep: "opq".into(), defect: (0, 0, 0, 0), passes: false, stuck: false });
    v.push(Sweep { arch: NAME.into(), sweep: "opq".into(), defect: (ca::STUCK, 0, 0, 0), passes: false, stuck: true });
    v
}

/// The known finding: test_iopq fails on a program of its own that no assembler
/// takes. Anything else the sweep does is judged as usual.
const UNASSEMBLABLE: &str = "iopq-sweep";

fn own_program_does_not_assemble(s: &Sweep, file: &Option<String>) -> bool {
    s.sweep == "iopq" && file.as_ref().is_some_and(|src| src.split('\n').any(|l| crate::p_asm::parse_line(l).is_err()))
}

fn judge_sweep(s: &Sweep, known: &mut bool) -> Result<Verdict, String> {
    let d = Defect { kind: s.defect.0, a: s.defect.1, b: s.defect.2, c: s.defect.3 };
    let mut file = None;
    let r = ask(&format!("sweep\t{}\t{}\t{}", s.arch, d.text(), s.sweep), &mut file)?;
    let who = format!("test_{} on {} with defect {} (kind:operands of core_arch.rs)", s.sweep, s.arch, d.text());
    if s.passes && matches!(&r, Err(e) if !e.starts_with('@')) && own_program_does_not_assemble(s, &file) && known_finding("C18", UNASSEMBLABLE).is_some() {
        *known = true;
        return Ok(Ok(()));
    }
    Ok(match r {
        Err(e) if e.starts_with('@') => Err(format!("{who}: {}", &e[1..])),
        Ok(()) if !s.passes => Err(format!("{who} passes")),
        Err(e) if s.passes => Err(format!("{who} fails: {e}")),
        Ok(()) => match file {
            Some(_) => Err(format!("{who} passes but leaves a failing program")),
            None => Ok(()),
        },
        Err(_) if s.arch == NAME && !s.stuck => match file {
            None => Err(format!("{who} fails without leaving the failing program in test-failure.ys")),
            Some(src) => match ask(&format!("test\t{}\t{}\t{}", s.arch, d.text(), hex(src.as_bytes())), &mut None)? {
                Ok(()) => Err(format!("{who} fails, but the program it leaves passes:\n{src}")),
                Err(_) => Ok(()),
            },
        },
        Err(_) => Ok(()),
    })
}

fn sweep_part() -> Box<dyn DynPart> {
    Box::new(Custom {
        name: "sweeps",
        run: Box::new(|_ctx| {
            let mut rep = Report { rule: "every instruction sweep on a correct core, on cores with one instruction missing, skipped, mis-computed or mis-decided, with one wrong register or memory byte, and on the built-in architectures; all non-trivial.".into(), ..Default::default() };
            let all = sweeps();
            let results = std::sync::Mutex::new(vec![]);
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for _ in 0..WORKERS {
                    sc.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let Some(s) = all.get(i) else { break };
                        let mut known = false;
                        let r = judge_sweep(s, &mut known);
                        results.lock().unwrap().push((i, r, known));
                    });
                }
            });
            let mut results = results.into_inner().unwrap();
            results.sort_by_key(|(i, _, _)| *i);
            if results.iter().any(|r| r.2) {
                rep.known.extend(known_finding("C18", UNASSEMBLABLE));
            }
            let mut seen = HashSet::new();
            for (i, r, _) in results {
                rep.evaluations += 1;
                seen.insert(serde_json::to_string(&all[i]).unwrap());
                *rep.labels.entry(if all[i].passes { "must pass" } else { "must fail" }.into()).or_default() += 1;
                match r {
                    Err(e) => internal_error(e),
                    Ok(Err(m)) if rep.failure.is_none() => rep.failure = Some((serde_json::to_value(&all[i]).unwrap(), m)),
                    _ => {}
                }
            }
            rep.distinct_nontrivial = seen.len() as u64;
            rep.samples.push(serde_json::json!({"part": "sweeps", "case": serde_json::to_value(&all[all.len() / 2]).unwrap()}));
            rep
        }),
        replay: Box::new(|v| judge_sweep(&serde_json::from_value(v.clone()).map_err(|e| e.to_string())?, &mut false)),
    })
}

// ----------------------------------------------------------------- the limit

/// the tester gives up after so many cycles
const LIMIT: u64 = 3_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Close {
    arch: u8,
    /// cycles more than the limit
    over: i64,
}

fn at_limit(c: &Close, obs: &mut Obs) -> Verdict {
    let arch = ["seq_std", "seq_plus_std", "pipe_std"][c.arch as usize % 3];
    // one jump is not taken in the pipeline, and it has to drain
    let extra = if arch == "pipe_std" { 6 } else { 0 };
    let what = exactly((LIMIT as i64 + c.over) as u64 - extra);
    let (img, src) = what.parts().expect("a plain program");
    obs.nontrivial = true;
    obs.label(if c.over <= 0 { "within the limit" } else { "beyond the limit" });
    obs.label(arch);
    let got = guard(|| y86_sim::test::SimTester::new(arch).expect("built-in architecture").test_isa(&src).map(|r| (r.sim.cycle_count(), r.sim.registers())));
    match got {
        Err(p) => Err(format!("the tester crashed: {p}\n{src}")),
        Ok(Err(e)) if c.over <= 0 => {
            // is it what it is built to be?
            let r = crate::p_arch::run_arch(arch, &img, LIMIT + 10)?;
            if !r.done || r.cycles != (LIMIT as i64 + c.over) as u64 {
                obs.label("skipped: takes another number of cycles");
                return Ok(());
            }
            Err(format!("the tester rejects a run of {arch} that needs {} cycles: {e:#}\n{src}", r.cycles))
        }
        Ok(Ok((n, _))) if c.over > 0 && n > LIMIT => Err(format!("the tester accepts a run of {arch} that needs {n} cycles\n{src}")),
        Ok(Ok((n, _))) if n != (LIMIT as i64 + c.over) as u64 => {
            obs.label("skipped: takes another number of cycles");
            Ok(())
        }
        Ok(_) => Ok(()),
    }
}

pub fn c18(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        Box::new(Part {
            name: "core",
            rule: "generated sources (halting, faulting, unassemblable) tested on an architecture with a random defect; expected verdict from the reference and a model of the defective machine; non-trivial: halts under the ISA.",
            cases: ctx.cases(40_000),
            shrink_iters: 400,
            workers: WORKERS,
            strategy: Box::new(|| (programs(1), spoils(), defect()).prop_map(|(what, spoil, defect)| Case { what, spoil, defect }).boxed()),
            check: Box::new(on_core),
        }),
        Box::new(Part {
            name: "built-in",
            rule: "generated sources tested on the built-in architectures; expected verdict from the reference and the architecture's own final state; non-trivial: halts under the ISA.",
            cases: ctx.cases(60_000),
            shrink_iters: 600,
            workers: WORKERS,
            strategy: Box::new(|| (programs(1), spoils(), 0u8..3).prop_map(|(what, spoil, arch)| Built { what, spoil, arch }).boxed()),
            check: Box::new(on_builtin),
        }),
        Box::new(Part {
            name: "long",
            rule: "programs with loops of up to 70000 rounds and recursion up to 4000 deep tested on the built-in architectures; non-trivial: halts under the ISA.",
            cases: ctx.cases(160),
            shrink_iters: 100,
            workers: WORKERS,
            strategy: Box::new(|| (gen::long(false), 0u8..3).prop_map(|(p, arch)| Built { what: What::Prog(p, vec![], 0), spoil: String::new(), arch }).boxed()),
            check: Box::new(|c: &Built, obs| with_fuel(LONG, || on_builtin(c, obs))),
        }),
        Box::new(Part {
            name: "limit",
            rule: "programs of just as many cycles as the tester allows, and a few more or less; all non-trivial.",
            cases: ctx.cases(8),
            shrink_iters: 4,
            workers: WORKERS,
            strategy: Box::new(|| (0u8..3, prop_oneof![2 => Just(0i64), 1 => -3i64..0, 2 => 1i64..3]).prop_map(|(arch, over)| Close { arch, over }).boxed()),
            check: Box::new(at_limit),
        }),
        sweep_part(),
    ]
}
