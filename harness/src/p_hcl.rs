//! C12, C13 (and the description part of C11): generated architectures are
//! compiled with the working tree and compared with the interpreter in hcl.rs.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Mutex;

use serde::{Deserialize, Serialize};

use crate::batch::{self, Answer, Batch, Conn};
use crate::engine::*;
use crate::hcl::{self, generate, memory, Arch, Dest, N, Profile, Ref, Rng, Src, E};
use crate::p_asm::Scratch;
use crate::p_order;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    /// all signals in all cycles
    Values,
    /// evaluation order and refusals
    Order,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    arch: Arch,
    /// "" or what makes the circuit impossible
    spoilt: String,
}

struct Outcome {
    message: String,
    signal: Option<usize>,
}

#[derive(Default)]
struct Tally {
    runs: u64,
    cycles: u64,
    values: u64,
    stalls: u64,
    bubbles: u64,
    later: u64,
    terminated: u64,
    refused: u64,
    cut: u64,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Compare one compiled architecture with its meaning.
fn judge(conn: &mut Conn, name: &str, c: &Case, what: What, t: &mut Tally) -> Result<Option<Outcome>, String> {
    let a = &c.arch;
    let n = a.names();
    let fail = |message: String, signal| Ok(Some(Outcome { message, signal }));
    for (seed, step) in &a.runs {
        let mem = memory(*seed);
        let cycles = if what == What::Order { 1 } else { a.cycles };
        let ans: Answer = conn.ask(&format!("run\t{name}\t{cycles}\t{}\t{}", if *step { "step" } else { "phases" }, hex(&mem)))?;
        t.runs += 1;
        if !c.spoilt.is_empty() {
            return match ans.panic {
                Some(_) => {
                    t.refused += 1;
                    Ok(None)
                }
                None => fail(format!("a description with {} is accepted", c.spoilt), None),
            };
        }
        if let Some(p) = ans.panic {
            return fail(format!("the simulator crashes: {}", trunc(&p, 300)), None);
        }
        let mut lines = ans.lines.iter();
        let head = lines.next().ok_or("no answer")?;
        if what == What::Order {
            let o = match p_order::parse_order(&head[2].replace("\\n", "\n")) {
                Ok(o) => o,
                Err(e) => return fail(e, None),
            };
            let (run, edges) = a.edges();
            // levels of units without inputs are not stated
            let exact = !a.units.contains(&hcl::Kind::Clk);
            match p_order::demand(&run, &edges, &o, exact) {
                Err(e) => {
                    let sig = n.sigs.iter().position(|s| e.starts_with(&format!("{s} ")));
                    return fail(e, sig);
                }
                Ok(most) => {
                    if exact && head[1] != (most + 1).to_string() {
                        return fail(format!("the cycle cost is {} but the longest dependency chain has {most} units", head[1]), None);
                    }
                }
            }
            return Ok(None);
        }
        let (want, done, st) = a.interpret(&mem);
        t.stalls += st.stalls;
        t.bubbles += st.bubbles;
        t.later += st.later_case;
        t.terminated += done as u64;
        t.cut += (!done && want.len() < a.cycles as usize) as u64;
        let secs = a.sections();
        for (k, w) in want.iter().enumerate() {
            let Some(l) = lines.next() else {
                return fail(format!("the simulation ends after {k} cycles, but it should run on"), Some(a.term));
            };
            t.cycles += 1;
            let at = |s: &str| format!("cycle {}: {s}", k + 1);
            if l[1] != (k + 1).to_string() {
                return fail(at(&format!("the cycle count is {}", l[1])), None);
            }
            let mut seen: HashMap<&str, (&str, &str)> = HashMap::new();
            let mut layout: Vec<(String, Vec<&str>)> = vec![];
            for s in &l[4..] {
                let mut it = s.split('\u{1}');
                it.next();
                let sec = it.next().unwrap_or_default();
                let mut names = vec![];
                for nv in it {
                    let (a, b) = nv.split_once('=').unwrap_or((nv, ""));
                    if seen.insert(a, (sec, b)).is_some() {
                        return fail(at(&format!("signal {a} is shown twice")), None);
                    }
                    names.push(a);
                }
                layout.push((sec.to_string(), names));
            }
            for (i, v) in w.iter().enumerate() {
                t.values += 1;
                match seen.get(n.sigs[i].as_str()) {
                    None => return fail(at(&format!("signal {} is not shown", n.sigs[i])), Some(i)),
                    Some((_, s)) if !v.shown_as(s) => {
                        // report the earliest wrong signal in evaluation order
                        let first = a
                            .rank
                            .iter()
                            .filter_map(|r| if let N::Sig(j) = r { Some(*j) } else { None })
                            .find(|j| seen.get(n.sigs[*j].as_str()).is_none_or(|(_, s)| !w[*j].shown_as(s)))
                            .unwrap_or(i);
                        let s = seen.get(n.sigs[first].as_str()).map(|x| x.1).unwrap_or("nothing");
                        return fail(at(&format!("signal {} is {s}, expected {:?}", n.sigs[first], w[first])), Some(first));
                    }
                    _ => {}
                }
            }
            if seen.len() != w.len() {
                return fail(at(&format!("{} signals are shown, {} are declared", seen.len(), w.len())), None);
            }
            for (j, (title, sigs)) in secs.iter().enumerate() {
                let have = layout.get(j);
                let names: HashSet<&str> = sigs.iter().map(|i| n.sigs[*i].as_str()).collect();
                let ok = have.is_some_and(|(t, s)| (title.is_empty() || t == title) && s.iter().copied().collect::<HashSet<_>>() == names);
                if !ok || layout.len() != secs.len() {
                    return fail(at(&format!("section {title:?} should show {names:?}, the sections are {layout:?}")), None);
                }
            }
            let term = matches!(w[a.term], hcl::V::Bool(true));
            if l[3] != term.to_string() {
                return fail(at(&format!("terminated is {}, expected {term}", l[3])), Some(a.term));
            }
            let hcl::V::U64(pc) = w[a.pc] else { unreachable!() };
            if l[2] != pc.to_string() {
                return fail(at(&format!("the program counter is {}, expected {pc}", l[2])), Some(a.pc));
            }
        }
        if done && lines.next().is_some() {
            return fail("the simulation goes on after the termination signal".into(), Some(a.term));
        }
    }
    Ok(None)
}

const CANARY: &str = "canary";
const HOPELESS: &str = "the simulator does not build with a valid description";

pub fn canary() -> Arch {
    let mut r = Rng::new(7);
    let mut a = generate(&mut r, &Profile { sigs: 1, stages: 1, stage_weight: 1, units: 0 });
    // the smallest description that uses a unit, a stage and a signal of each connection
    a.plain = true;
    a.runs.truncate(1);
    a.sigs[a.term].src = Src::Expr(E::Lit(hcl::V::Bool(false), 0));
    a.sigs[a.pc].src = Src::Expr(E::Lit(hcl::V::U64(0), 0));
    a.cone(&[])
}

fn name_of(i: usize) -> String {
    match i % 4 {
        0 => format!("g{i}"),
        1 => format!("my_cpu_{i}"),
        2 => format!("pipe_{i}x"),
        _ => format!("seq{i}_std"),
    }
}

/// Build and judge a set of cases. First element: outcome per case.
fn run_batch(cases: &[Case], what: What, t: &mut Tally) -> Result<Vec<Option<Outcome>>, String> {
    let mut archs = vec![(CANARY.to_string(), canary().source())];
    archs.extend(cases.iter().enumerate().map(|(i, c)| (name_of(i), c.arch.source())));
    let b: Batch = match batch::build(&archs)? {
        batch::Built::Yes(b) => b,
        batch::Built::No(n, e) => {
            let o = |i| (n == CANARY || n == name_of(i)).then(|| Outcome { message: format!("{HOPELESS}: {e}"), signal: None });
            return Ok((0..cases.len()).map(o).collect());
        }
    };
    if let Some(e) = b.refused.get(CANARY) {
        return Ok(cases.iter().map(|_| Some(Outcome { message: format!("{HOPELESS}, not even the plainest: {e}"), signal: None })).collect());
    }
    let dir = Scratch::new();
    let results: Mutex<BTreeMap<usize, Option<Outcome>>> = Mutex::new(BTreeMap::new());
    let tallies: Mutex<Vec<Tally>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for (k, runner) in b.runners.iter().enumerate() {
            let (b, dir, results, tallies, errors) = (&b, &dir, &results, &tallies, &errors);
            s.spawn(move || {
                let mut t = Tally::default();
                let mut conn: Option<Conn> = None;
                for (i, c) in cases.iter().enumerate() {
                    let name = name_of(i);
                    if b.shard[&name] != k {
                        continue;
                    }
                    if let Some(e) = b.refused.get(&name) {
                        let o = Outcome { message: format!("a valid description is refused by the compiler: {e}"), signal: None };
                        results.lock().unwrap().insert(i, Some(o));
                        continue;
                    }
                    if conn.is_none() {
                        match Conn::open(runner, &dir.0) {
                            Ok(c) => conn = Some(c),
                            Err(e) => {
                                errors.lock().unwrap().push(e);
                                return;
                            }
                        }
                        let ans = conn.as_mut().unwrap().ask("names");
                        let have: Vec<String> = ans.ok().and_then(|a| a.lines.first().and_then(|l| l.get(1).cloned())).unwrap_or_default().split(' ').map(|s| s.into()).collect();
                        for (j, _) in cases.iter().enumerate() {
                            let n = name_of(j);
                            if b.shard[&n] == k && !b.refused.contains_key(&n) && !have.contains(&n) {
                                let o = Outcome { message: format!("the architecture in {n}.rs is not available under its name, only {have:?}"), signal: None };
                                results.lock().unwrap().insert(j, Some(o));
                            }
                        }
                    }
                    if results.lock().unwrap().contains_key(&i) {
                        continue;
                    }
                    let o = match judge(conn.as_mut().unwrap(), &name, c, what, &mut t) {
                        Ok(o) => o,
                        Err(e) => {
                            let hung = e.contains("does not answer");
                            conn = None;
                            let o = Some(Outcome { message: e, signal: None });
                            if hung {
                                results.lock().unwrap().insert(i, o);
                                break;
                            }
                            o
                        }
                    };
                    results.lock().unwrap().insert(i, o);
                }
                tallies.lock().unwrap().push(t);
            });
        }
    });
    if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    for x in tallies.into_inner().unwrap() {
        t.runs += x.runs;
        t.cycles += x.cycles;
        t.values += x.values;
        t.stalls += x.stalls;
        t.bubbles += x.bubbles;
        t.later += x.later;
        t.terminated += x.terminated;
        t.refused += x.refused;
        t.cut += x.cut;
    }
    let mut r = results.into_inner().unwrap();
    Ok((0..cases.len()).map(|i| r.remove(&i).unwrap_or(None)).collect())
}

/// Make the circuit impossible: a dependency cycle or an undriven input.
fn spoil(a: &mut Arch, r: &mut Rng) -> Option<String> {
    if r.chance(40) {
        // leave a unit input without a driver
        let mut at = vec![];
        for (i, s) in a.sigs.iter().enumerate() {
            for (k, d) in s.dests.iter().enumerate() {
                if matches!(d, Dest::Unit(..)) {
                    at.push((i, k));
                }
            }
        }
        let (i, k) = *r.pick(&at);
        a.sigs[i].dests.remove(k);
        return Some("an undriven unit input".into());
    }
    // the signal at some place reads something that depends on it
    let (run, edges) = a.edges();
    let _ = run;
    let n = a.names();
    let mut next: HashMap<&str, Vec<&str>> = HashMap::new();
    for (x, y) in &edges {
        next.entry(x).or_default().push(y);
    }
    for _ in 0..20 {
        let i = r.below(a.sigs.len());
        let mut seen: HashSet<&str> = HashSet::new();
        let mut todo = vec![n.sigs[i].as_str()];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(next.get(x).into_iter().flatten());
            }
        }
        let mut cand = vec![];
        for (j, s) in a.sigs.iter().enumerate() {
            if seen.contains(n.sigs[j].as_str()) {
                if s.ty == hcl::T::Bool {
                    cand.push(Ref::Sig(j));
                }
                if s.ty == hcl::T::Cc {
                    cand.push(Ref::Flag(Box::new(Ref::Sig(j)), r.below(3) as u8));
                }
            }
        }
        for (u, k) in a.units.iter().enumerate() {
            for (o, (f, t)) in k.outs().iter().enumerate() {
                if seen.contains(format!("{}.{f}", n.units[u]).as_str()) {
                    match t {
                        hcl::T::Bool => cand.push(Ref::Out(u, o)),
                        hcl::T::Cc => cand.push(Ref::Flag(Box::new(Ref::Out(u, o)), r.below(3) as u8)),
                        _ => {}
                    }
                }
            }
        }
        if cand.is_empty() {
            continue;
        }
        let bad = E::Ref(r.pick(&cand).clone());
        match &mut a.sigs[i].src {
            Src::Cases(cs) => {
                let v = cs[0].1.clone();
                cs.insert(0, (bad, v));
            }
            Src::Expr(e) => {
                let old = e.clone();
                a.sigs[i].src = Src::Cases(vec![(bad, old.clone()), (E::Lit(hcl::V::Bool(true), 0), old)]);
            }
        }
        return Some("a dependency cycle".into());
    }
    None
}

fn shrink(first: Case, o: Outcome, what: What) -> (Case, String) {
    let (mut best, mut msg) = (first, o);
    let long = msg.message.starts_with(HOPELESS) || msg.message.contains("does not answer");
    if !best.spoilt.is_empty() || long {
        return (best, msg.message);
    }
    let mut r = Rng::new(1);
    let t0 = std::time::Instant::now();
    for _ in 0..10 {
        if t0.elapsed().as_secs() > 240 {
            break;
        }
        let all = best.arch.reductions(msg.signal, &mut r);
        if all.is_empty() {
            break;
        }
        // the smallest, and a spread of the others
        let mut pick: Vec<usize> = (0..all.len().min(40)).collect();
        let step = (all.len() / 24).max(1);
        pick.extend((40..all.len()).step_by(step));
        let cands: Vec<Case> = pick.into_iter().map(|i| Case { arch: all[i].clone(), spoilt: String::new() }).collect();
        let Ok(res) = run_batch(&cands, what, &mut Tally::default()) else { break };
        let Some((c, o)) = cands.into_iter().zip(res).filter_map(|(c, o)| o.map(|o| (c, o))).min_by_key(|(c, _)| c.arch.weight()) else { break };
        best = c;
        msg = o;
    }
    (best, msg.message)
}

fn campaign(ctx: &Ctx, part: &str, what: What, profiles: &[Profile], per: usize, batches: u64) -> Report {
    let mut rep = Report::default();
    let mut distinct = HashSet::new();
    let mut t = Tally::default();
    for b in 0..batches {
        let mut rng = Rng::new(ctx.seed.wrapping_mul(0x1000003) ^ (b << 32) ^ ctx.id.bytes().chain(part.bytes()).fold(0u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64)));
        let mut cases = vec![];
        for i in 0..per {
            let mut arch = generate(&mut rng, &profiles[i % profiles.len()]);
            let mut spoilt = String::new();
            if what == What::Order {
                arch.runs.truncate(1);
                if rng.chance(40) {
                    spoilt = spoil(&mut arch, &mut rng).unwrap_or_default();
                }
            }
            cases.push(Case { arch, spoilt });
        }
        let res = match run_batch(&cases, what, &mut t) {
            Ok(r) => r,
            Err(e) => {
                internal_error(e);
                return rep;
            }
        };
        for c in &cases {
            rep.evaluations += 1;
            let a = &c.arch;
            if a.sigs.len() >= 5 {
                distinct.insert(a.source());
            }
            for (l, y) in [
                ("dependency cycle", c.spoilt == "a dependency cycle"),
                ("undriven input", c.spoilt == "an undriven unit input"),
                ("sections", a.sections().len() > 1),
                ("stall or bubble", a.sigs.iter().any(|s| s.dests.iter().any(|d| matches!(d, Dest::Stall(_) | Dest::Bubble(_))))),
                ("stateful units", a.units.contains(&hcl::Kind::Acc)),
                ("flag of a signal or unit output", a.sigs.iter().any(|s| hcl::reads(&s.src).iter().any(|r| matches!(r, Ref::Flag(b, _) if !matches!(**b, Ref::Field(..)))))),
            ] {
                if y {
                    *rep.labels.entry(l.into()).or_default() += 1;
                }
            }
            *rep.counts.entry("signals".into()).or_default() += a.sigs.len() as u64;
            if rep.samples.is_empty() {
                rep.samples.push(serde_json::json!({"part": part, "case": trunc(&a.source(), 3000)}));
            }
        }
        let fails: Vec<(Case, Outcome)> = cases.into_iter().zip(res).filter_map(|(c, o)| o.map(|o| (c, o))).collect();
        if let Some((c, o)) = fails.into_iter().min_by_key(|(c, _)| c.arch.weight()) {
            let (c, m) = shrink(c, o, what);
            let m = format!("{m}\n{}", c.arch.source());
            rep.failure = Some((serde_json::to_value(&c).unwrap_or_default(), m));
            break;
        }
    }
    rep.distinct_nontrivial = distinct.len() as u64;
    for (k, v) in [
        ("runs", t.runs),
        ("cycles compared", t.cycles),
        ("values compared", t.values),
        ("stalls", t.stalls),
        ("bubbles", t.bubbles),
        ("later cases chosen", t.later),
        ("runs to termination", t.terminated),
        ("refused", t.refused),
        ("runs cut at stall and bubble together", t.cut),
    ] {
        rep.counts.insert(k.into(), v);
    }
    rep
}

fn part(id_part: &'static str, rule: &'static str, what: What, profiles: fn() -> Vec<Profile>, per: usize, batches: u64) -> Box<dyn DynPart> {
    Box::new(Custom {
        name: id_part,
        run: Box::new(move |ctx| {
            let mut r = campaign(ctx, id_part, what, &profiles(), per, batches);
            r.rule = rule.into();
            r
        }),
        replay: Box::new(move |v| {
            let c: Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            let r = run_batch(&[c.clone()], what, &mut Tally::default())?;
            Ok(match r.into_iter().next().flatten() {
                Some(o) => Err(format!("{}\n{}", o.message, c.arch.source())),
                None => Ok(()),
            })
        }),
    })
}

pub fn mixed() -> Vec<Profile> {
    vec![
        Profile { sigs: 24, stages: 2, stage_weight: 1, units: 4 },
        Profile { sigs: 14, stages: 1, stage_weight: 1, units: 2 },
        Profile { sigs: 40, stages: 3, stage_weight: 1, units: 8 },
    ]
}

fn stages() -> Vec<Profile> {
    vec![Profile { sigs: 10, stages: 4, stage_weight: 3, units: 2 }, Profile { sigs: 6, stages: 6, stage_weight: 4, units: 1 }]
}

pub fn c12(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![part(
        "descriptions",
        "random architecture files (custom units, stages, expressions, case lists, declaration orders, notation), compiled and run on 8 memories each; every signal in every cycle compared with the interpreter; non-trivial: at least 5 signals.",
        What::Values,
        mixed,
        PER,
        ctx.cases(6),
    )]
}

pub fn c13(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![part(
        "registers",
        "random architecture files with 1 to 6 pipeline registers under random stall and bubble controls, every field shown in every cycle; non-trivial: at least 5 signals.",
        What::Values,
        stages,
        PER,
        ctx.cases(6),
    )]
}

pub fn order_part(ctx: &Ctx) -> Box<dyn DynPart> {
    part(
        "descriptions",
        "random architecture files, 4 in 10 with a dependency cycle or an undriven unit input: printed order, cycle cost and refusal against the graph of the description; non-trivial: at least 5 signals.",
        What::Order,
        mixed,
        PER,
        ctx.cases(1),
    )
}

pub const PER: usize = 160;
