//! C11: the order in which units and signals are evaluated.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use y86_sim::framework::PropOrderBuilder;

use crate::engine::*;
use crate::p_asm::{strip_ansi, tool, Scratch};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    unit: bool,
    nin: u8,
    nout: u8,
    /// picks among the earlier nodes
    deps: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Graph {
    nodes: Vec<Node>,
    /// additional edges (from node, to node, port), in any direction
    wild: Vec<(u8, u8, u8)>,
    /// input to leave undriven
    undriven: Option<u8>,
    order: u64,
    names: u64,
    dup: u8,
    /// a node to declare a second time
    #[serde(default)]
    again: Option<(u8, bool)>,
}

fn pool() -> &'static (Vec<&'static str>, Vec<&'static str>) {
    static P: OnceLock<(Vec<&'static str>, Vec<&'static str>)> = OnceLock::new();
    P.get_or_init(|| {
        let mut rng = Rng(0x9e3779b97f4a7c15);
        let mut names = vec![];
        while names.len() < 320 {
            let n = 1 + rng.next(5) as usize;
            let s: String = (0..n).map(|i| if i > 0 && rng.next(5) == 0 { '_' } else { (b'a' + rng.next(26) as u8) as char }).collect();
            let s = if rng.next(3) == 0 { s.to_uppercase() } else { s };
            let s: &'static str = Box::leak(s.into_boxed_str());
            if !names.contains(&s) {
                names.push(s);
            }
        }
        let fields = names.iter().take(6).copied().chain(["a", "zz", "e", "error", "Z", "m"]).collect::<Vec<_>>();
        let mut f = vec![];
        for x in fields {
            if !f.contains(&x) {
                f.push(x)
            }
        }
        (names, f)
    })
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 ^ (self.0 >> 33);
        (x.wrapping_mul(0xff51afd7ed558ccd) >> 33) % n
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.next(i as u64 + 1) as usize);
        }
    }
}

pub struct Order {
    /// (displayed level, name) in evaluation order
    pub items: Vec<(u64, String)>,
}

pub fn parse_order(text: &str) -> Result<Order, String> {
    let text = strip_ansi(text);
    let mut items = vec![];
    let mut last = 0;
    for l in text.lines() {
        let Some(r) = l.strip_prefix("lv.") else { continue };
        let (n, names) = r.split_once(':').ok_or_else(|| format!("cannot read the printed order: {l}"))?;
        let n: u64 = n.parse().map_err(|_| format!("cannot read the printed order: {l}"))?;
        if n <= last && !items.is_empty() {
            return Err(format!("level {n} is printed after level {last}"));
        }
        last = n;
        items.extend(names.split_whitespace().map(|s| (n, s.to_string())));
    }
    Ok(Order { items })
}

/// What a dependency graph demands of an order. Nodes are names; the runnable
/// ones are listed with whether they are units.
pub fn demand(runnable: &[(String, bool)], edges: &[(String, String)], order: &Order, exact_levels: bool) -> Result<u64, String> {
    let mut preds: HashMap<&str, Vec<&str>> = HashMap::new();
    for (a, b) in edges {
        preds.entry(b).or_default().push(a);
    }
    let mut pos: HashMap<&str, (usize, u64)> = HashMap::new();
    for (i, (l, n)) in order.items.iter().enumerate() {
        if pos.insert(n, (i, *l)).is_some() {
            return Err(format!("{n} is listed twice in the order"));
        }
    }
    let run: HashMap<&str, bool> = runnable.iter().map(|(n, u)| (n.as_str(), *u)).collect();
    for (n, _) in runnable {
        if !pos.contains_key(n.as_str()) {
            return Err(format!("{n} is missing from the order"));
        }
    }
    for (_, n) in &order.items {
        if !run.contains_key(n.as_str()) {
            return Err(format!("{n} is in the order but is neither a unit nor a signal"));
        }
    }
    // nearest runnable ancestors and largest number of units on a chain
    struct W<'a> {
        preds: &'a HashMap<&'a str, Vec<&'a str>>,
        run: &'a HashMap<&'a str, bool>,
        memo: HashMap<&'a str, u64>,
    }
    impl<'a> W<'a> {
        fn depth(&mut self, n: &'a str) -> u64 {
            if let Some(d) = self.memo.get(n) {
                return *d;
            }
            let own = *self.run.get(n).unwrap_or(&false) as u64;
            let mut d = own;
            for p in self.preds.get(n).cloned().unwrap_or_default() {
                d = d.max(self.depth(p) + own);
            }
            self.memo.insert(n, d);
            d
        }
        fn anc(&self, n: &'a str, out: &mut HashSet<&'a str>, seen: &mut HashSet<&'a str>) {
            for p in self.preds.get(n).into_iter().flatten() {
                if self.run.contains_key(p) {
                    out.insert(p);
                } else if seen.insert(p) {
                    self.anc(p, out, seen);
                }
            }
        }
    }
    let mut w = W { preds: &preds, run: &run, memo: HashMap::new() };
    let mut most = 0;
    for (n, _) in runnable {
        let n = n.as_str();
        let mut a = HashSet::new();
        w.anc(n, &mut a, &mut HashSet::new());
        for d in a {
            if pos[d].0 > pos[n].0 {
                return Err(format!("{n} depends on {d} but is evaluated before it"));
            }
        }
        let d = w.depth(n);
        most = most.max(d);
        if exact_levels && pos[n].1 != d + 1 {
            return Err(format!("{n} has {d} unit(s) on its longest dependency chain but is printed at level {}", pos[n].1));
        }
    }
    Ok(most)
}

fn concrete(g: &Graph) -> (Vec<(&'static str, bool, Vec<&'static str>, Vec<&'static str>)>, Vec<(String, String)>) {
    let (names, fields) = pool();
    let mut rng = Rng(g.names);
    let mut names = names.clone();
    rng.shuffle(&mut names);
    let nodes: Vec<_> = g
        .nodes
        .iter()
        .enumerate()
        .map(|(i, n)| {
            let mut f = fields.clone();
            rng.shuffle(&mut f);
            let nin = if n.unit { n.nin as usize } else { 0 };
            let nout = if n.unit { n.nout as usize } else { 0 };
            (names[i], n.unit, f[..nin].to_vec(), f[nin..nin + nout].to_vec())
        })
        .collect();
    let out_of = |j: usize, pick: usize| -> Option<String> {
        let (n, u, _, outs) = &nodes[j];
        match u {
            false => Some(n.to_string()),
            true if outs.is_empty() => None,
            true => Some(format!("{n}.{}", outs[pick % outs.len()])),
        }
    };
    let mut edges = vec![];
    for (k, n) in g.nodes.iter().enumerate() {
        if n.unit {
            for (i, f) in nodes[k].2.iter().enumerate() {
                let to = format!("{}.{f}", nodes[k].0);
                let mut ds: Vec<_> = n.deps.iter().skip(i).step_by(nodes[k].2.len()).copied().collect();
                if ds.is_empty() {
                    ds.push(i as u16);
                }
                for d in ds {
                    if k == 0 {
                        continue;
                    }
                    let from = out_of(d as usize % k, d as usize / 7).or_else(|| out_of(0, 0));
                    if let Some(f) = from {
                        edges.push((f, to.clone()));
                    }
                }
            }
        } else if k > 0 {
            for d in &n.deps {
                if let Some(f) = out_of(*d as usize % k, *d as usize / 7) {
                    edges.push((f, nodes[k].0.to_string()));
                }
            }
        }
    }
    for (a, b, p) in &g.wild {
        let (a, b) = (*a as usize % nodes.len(), *b as usize % nodes.len());
        let Some(from) = out_of(a, *p as usize) else { continue };
        let (n, u, ins, _) = &nodes[b];
        if !u {
            edges.push((from, n.to_string()));
        } else if !ins.is_empty() {
            edges.push((from, format!("{n}.{}", ins[*p as usize % ins.len()])));
        }
    }
    if let Some(x) = g.undriven {
        let ports: Vec<String> = nodes.iter().flat_map(|(n, _, ins, _)| ins.iter().map(move |f| format!("{n}.{f}"))).collect();
        if !ports.is_empty() {
            let p = &ports[x as usize % ports.len()];
            edges.retain(|(_, t)| t != p);
        }
    }
    for _ in 0..g.dup {
        if !edges.is_empty() {
            let e = edges[rng.next(edges.len() as u64) as usize].clone();
            edges.push(e);
        }
    }
    (nodes, edges)
}

fn has_cycle(edges: &[(String, String)]) -> bool {
    let mut out: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for (a, b) in edges {
        out.entry(a).or_default().push(b);
    }
    fn go<'a>(n: &'a str, out: &BTreeMap<&'a str, Vec<&'a str>>, st: &mut HashMap<&'a str, u8>) -> bool {
        match st.get(n) {
            Some(1) => return true,
            Some(_) => return false,
            None => {}
        }
        st.insert(n, 1);
        for m in out.get(n).into_iter().flatten() {
            if go(m, out, st) {
                return true;
            }
        }
        st.insert(n, 2);
        false
    }
    let mut st = HashMap::new();
    out.keys().any(|n| go(n, &out, &mut st))
}

fn graph_check(g: &Graph, obs: &mut Obs) -> Verdict {
    let (nodes, edges) = concrete(g);
    // every way of entering the same graph
    enum Op {
        Unit(usize),
        Inter(usize),
        Edge(usize),
        /// declare the name once more
        Again(usize, bool),
    }
    let mut ops: Vec<Op> = (0..nodes.len()).map(|i| if nodes[i].1 { Op::Unit(i) } else { Op::Inter(i) }).collect();
    ops.extend((0..edges.len()).map(Op::Edge));
    let again = g.again.map(|(i, unit)| (i as usize % nodes.len(), unit));
    ops.extend(again.map(|(i, unit)| Op::Again(i, unit)));
    Rng(g.order).shuffle(&mut ops);
    let mut all = edges.clone();
    for (n, u, ins, outs) in &nodes {
        if *u {
            all.extend(ins.iter().map(|f| (format!("{n}.{f}"), n.to_string())));
            all.extend(outs.iter().map(|f| (n.to_string(), format!("{n}.{f}"))));
        }
    }
    let cyclic = has_cycle(&all);
    let undriven = nodes.iter().any(|(n, _, ins, _)| ins.iter().any(|f| edges.iter().all(|(_, t)| *t != format!("{n}.{f}"))));
    let sourceless = nodes.iter().any(|(_, u, ins, _)| *u && ins.is_empty());
    let runnable: Vec<(String, bool)> = nodes.iter().map(|(n, u, ..)| (n.to_string(), *u)).collect();
    obs.nontrivial = edges.len() >= 3;
    obs.label(if cyclic { "cyclic" } else if undriven { "undriven input" } else { "circuit" });
    obs.label_if(sourceless, "unit without inputs");
    obs.label_if(again.is_some(), "a name declared twice");
    obs.count("edges", edges.len() as u64);
    let got = guard(|| {
        let mut b = PropOrderBuilder::new();
        for o in &ops {
            match o {
                Op::Unit(i) => {
                    let (n, _, ins, outs) = &nodes[*i];
                    b.add_unit_node(n);
                    ins.iter().for_each(|f| b.add_unit_input(n, f));
                    outs.iter().for_each(|f| b.add_unit_output(n, f));
                }
                Op::Inter(i) => b.add_intermediate(nodes[*i].0),
                Op::Again(i, true) => b.add_unit_node(nodes[*i].0),
                Op::Again(i, false) => b.add_intermediate(nodes[*i].0),
                Op::Edge(i) => b.add_edge(edges[*i].0.clone(), edges[*i].1.clone()),
            }
        }
        b.build().to_string()
    });
    let text = || format!("units {:?}, edges {:?}", nodes.iter().filter(|n| n.1).map(|n| n.0).collect::<Vec<_>>(), edges);
    match got {
        Err(_) if cyclic || undriven || again.is_some() => Ok(()),
        Err(e) => Err(format!("a realisable circuit is refused: {}; {}", trunc(&e, 200), text())),
        Ok(_) if cyclic => Err(format!("a circuit with a dependency cycle is accepted: {}", text())),
        Ok(_) if undriven => Err(format!("a circuit with an undriven unit input is accepted: {}", text())),
        Ok(_) if again.is_some_and(|(i, unit)| nodes[i].1 != unit) => Err(format!("one name for a unit and a signal is accepted: {}", text())),
        Ok(s) => {
            let o = parse_order(&s)?;
            // levels of units without inputs are not stated
            let most = demand(&runnable, &all, &o, !sourceless).map_err(|e| format!("{e}; {}", text()))?;
            obs.label_if(most >= 3, "3 or more units on a chain");
            Ok(())
        }
    }
}

fn node() -> BoxedStrategy<Node> {
    (prop::bool::weighted(0.35), 0u8..4, 0u8..4, prop::collection::vec(any::<u16>(), 0..6), prop::bool::weighted(0.9))
        .prop_map(|(unit, nin, nout, deps, fed)| Node { unit, nin: if fed { nin.max(1) } else { nin }, nout, deps })
        .boxed()
}

fn graph(size: std::ops::Range<usize>) -> BoxedStrategy<Graph> {
    (
        prop::collection::vec(node(), size),
        prop_oneof![3 => Just(vec![]).boxed(), 2 => prop::collection::vec(any::<(u8, u8, u8)>(), 1..3).boxed()],
        prop::option::weighted(0.12, any::<u8>()),
        any::<u64>(),
        any::<u64>(),
        0u8..4,
        prop::option::weighted(0.05, any::<(u8, bool)>()),
    )
        .prop_map(|(mut nodes, wild, undriven, order, names, dup, again)| {
            nodes[0].unit = false;
            Graph { nodes, wild, undriven, order, names, dup, again }
        })
        .boxed()
}

// ------------------------------------------------------ built-in circuits

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Info {
    arch: String,
    run: u16,
}

/// `"source": "a", "target": "b"` pairs and node names of an exported graph.
pub fn parse_graph(html: &str) -> Result<(Vec<(String, String)>, Vec<String>), String> {
    let s = html.find("var option = ").ok_or("no graph data in the exported file")? + "var option = ".len();
    let mut de = serde_json::Deserializer::from_str(&html[s..]).into_iter::<serde_json::Value>();
    let v = de.next().and_then(|r| r.ok()).ok_or("cannot read the graph data in the exported file")?;
    let ser = &v["series"][0];
    let st = |v: &serde_json::Value| v.as_str().unwrap_or_default().to_string();
    let links = ser["links"].as_array().ok_or("the exported graph has no links")?.iter().map(|l| (st(&l["source"]), st(&l["target"]))).collect();
    let nodes = ser["data"].as_array().map(|d| d.iter().map(|n| st(&n["name"])).collect()).unwrap_or_default();
    Ok((links, nodes))
}

fn info_check(c: &Info, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let out = std::process::Command::new(tool("ysim")).args(["-I", "-A", &c.arch]).current_dir(&dir.0).output().map_err(|e| e.to_string())?;
    obs.nontrivial = true;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() {
        return Err(format!("ysim -I -A {} fails: {}", c.arch, String::from_utf8_lossy(&out.stderr)));
    }
    let o = parse_order(&text)?;
    let file = std::fs::read_dir(&dir.0).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "html"));
    let html = std::fs::read_to_string(file.ok_or("ysim -I writes no graph file")?).map_err(|e| e.to_string())?;
    let (links, nodes) = parse_graph(&html)?;
    // units are the nodes that have ports of their own
    let ports: Vec<&String> = nodes.iter().filter(|n| n.contains('-')).collect();
    let runnable: Vec<(String, bool)> = nodes
        .iter()
        .filter(|n| !n.contains('-'))
        .map(|n| (n.clone(), ports.iter().any(|p| p.split('-').next() == Some(n))))
        .collect();
    if runnable.len() < 5 || links.len() < 10 {
        return Err(format!("the exported graph of {} is nearly empty", c.arch));
    }
    obs.count("links", links.len() as u64);
    let most = demand(&runnable, &links, &o, true).map_err(|e| format!("ysim -I -A {}: {e}", c.arch))?;
    let cost = guard(|| y86_sim::architectures::create_sim(c.arch.clone(), y86_sim::framework::MemData::init([0; 1 << 16]), false).cycle_cost())?;
    if cost != most + 1 {
        return Err(format!("the cycle cost of {} is {cost}, but its longest dependency chain has {most} units", c.arch));
    }
    Ok(())
}

pub fn c11(ctx: &Ctx) -> Vec<Box<dyn DynPart>> {
    vec![
        crate::p_hcl::order_part(ctx),
        Box::new(Part {
            name: "graphs",
            rule: "random dependency graphs of up to 25 units and signals (acyclic, cyclic, with undriven inputs), entered in random order under random names; non-trivial: at least 3 edges.",
            cases: ctx.cases(300_000),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| graph(1..26)),
            check: Box::new(graph_check),
        }),
        Box::new(Part {
            name: "large",
            rule: "random dependency graphs of 30 to 300 units and signals; non-trivial: at least 3 edges.",
            cases: ctx.cases(1500),
            shrink_iters: 4000,
            workers: WORKERS,
            strategy: Box::new(|| graph(30..300)),
            check: Box::new(graph_check),
        }),
        Box::new(Part {
            name: "built-in",
            rule: "ysim -I for every available architecture in fresh processes: the printed order against the exported graph and the cycle cost; every case is non-trivial.",
            cases: ctx.cases(1600),
            shrink_iters: 20,
            workers: WORKERS,
            strategy: Box::new(|| {
                (prop::sample::select(y86_sim::architectures::arch_names()), any::<u16>()).prop_map(|(a, run)| Info { arch: a.into(), run }).boxed()
            }),
            check: Box::new(info_check),
        }),
    ]
}
