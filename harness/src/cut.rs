//! Thin wrappers around the code under test.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use y86_sim::architectures::create_sim;
use y86_sim::framework::{CpuSim, MemData};

use crate::engine::guard;
use crate::isa_ref::{Cc, MEM};

pub const ARCHS: [&str; 3] = ["seq_std", "seq_plus_std", "pipe_std"];

pub fn image(v: &[u8]) -> [u8; MEM] {
    v.try_into().unwrap()
}

pub struct Std {
    pub mem: Vec<u8>,
    pub regs: [u64; 16],
    pub cc: Cc,
    pub pc: u64,
    pub n: u64,
}

// --- hang watchdog for isa::simulate -------------------------------------

struct Slot {
    since: Instant,
    image: Vec<u8>,
    expect: u64,
}
static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());
static NEXT: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static MY: u64 = {
        let i = NEXT.fetch_add(1, Ordering::Relaxed);
        let mut s = SLOTS.lock().unwrap();
        while s.len() <= i as usize { s.push(None); }
        i
    };
}

/// Runs the ISA simulator; the outer error is a panic. `expect` is the number
/// of instructions the reference needs (used to tell a hang from slowness).
pub fn isa(img: &[u8], expect: u64) -> Result<Result<Std, String>, String> {
    let me = MY.with(|m| *m) as usize;
    SLOTS.lock().unwrap()[me] = Some(Slot { since: Instant::now(), image: img.to_vec(), expect });
    let r = guard(|| y86_sim::isa::simulate(image(img), false));
    SLOTS.lock().unwrap()[me] = None;
    Ok(match r? {
        Ok(r) => Ok(Std {
            mem: r.bin.to_vec(),
            regs: r.regs,
            cc: Cc { zf: r.cc.zf, sf: r.cc.sf, of: r.cc.of },
            pc: r.pc as u64,
            n: r.n_insts,
        }),
        Err(e) => Err(format!("{e:#}")),
    })
}

/// Started for the checks that call `isa`: when a call does not come back, a
/// child process repeats it with tracing on and counts executed instructions.
/// Only a count far beyond the reference's is reported as a violation.
pub fn start_watchdog(property: String, out_fd: std::fs::File) {
    std::thread::spawn(move || {
        use std::io::{BufRead, BufReader, Write};
        let mut out = out_fd;
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let mut found = None;
            for s in SLOTS.lock().unwrap().iter_mut().flatten() {
                if s.since.elapsed() > Duration::from_secs(10) && found.is_none() {
                    found = Some((s.image.clone(), s.expect));
                    s.since = Instant::now() + Duration::from_secs(3600);
                }
            }
            let Some((img, expect)) = found else { continue };
            let dir = crate::engine::verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{property}-hang.json"));
            let case = serde_json::json!({"property": property, "part": "hang", "message": "the ISA simulator does not stop",
                "case": {"source": crate::ast::image_source(&img), "expect": expect}});
            let _ = std::fs::write(&path, serde_json::to_string(&case).unwrap());
            let limit = expect * 10 + 1000;
            if hang_judge(&crate::ast::image_source(&img), limit) {
                let _ = writeln!(out, "{property}: the ISA simulator executes more than {limit} instructions where the ISA halts or faults after {expect}");
                let _ = writeln!(out, "VIOLATION property={property} replay={}", path.display());
                let _ = out.flush();
                unsafe { libc::_exit(1) }
            }
            let _ = BufReader::new(std::io::empty()).lines();
        }
    });
}

/// true when the simulator prints more than `limit` executed instructions
pub fn hang_judge(source: &str, limit: u64) -> bool {
    use std::io::{BufRead, BufReader, Write};
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    let Ok(mut ch) = Command::new(exe).arg("isa-trace").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else {
        return false;
    };
    let mut si = ch.stdin.take().unwrap();
    let _ = si.write_all(source.as_bytes());
    drop(si);
    let mut n = 0;
    for l in BufReader::new(ch.stdout.take().unwrap()).split(b'\n') {
        let Ok(l) = l else { break };
        if l.windows(6).any(|w| w == b"icode:") {
            n += 1;
        }
        if n > limit {
            break;
        }
    }
    let _ = ch.kill();
    let _ = ch.wait();
    n > limit
}

// --- architectures ----------------------------------------------------------

pub struct Sim {
    pub sim: Box<dyn CpuSim>,
    pub mem: MemData,
}

pub fn new_sim(arch: &str, img: &[u8], tty: bool) -> Sim {
    let mem = MemData::init(image(img));
    Sim { sim: create_sim(arch.to_string(), mem.clone(), tty), mem }
}

impl Sim {
    /// condition codes as shown among the signals (None: not shown)
    pub fn cc(&self) -> Option<Cc> {
        for st in self.sim.get_stage_info() {
            for (_, v) in st.signals {
                if let Some(rest) = v.strip_prefix("ConditionCode") {
                    let f = |k: &str| {
                        let i = rest.find(k)? + k.len();
                        let t = rest[i..].trim_start_matches([':', ' ']);
                        Some(t.starts_with("true"))
                    };
                    return Some(Cc { zf: f("zf")?, sf: f("sf")?, of: f("of")? });
                }
            }
        }
        None
    }
    pub fn signals(&self) -> Vec<(String, String)> {
        self.sim.get_stage_info().into_iter().flat_map(|s| s.signals).collect()
    }
}

pub fn regs15(r: &[u64; 16]) -> [u64; 15] {
    r[..15].try_into().unwrap()
}

pub fn mem_diff(got: &[u8], want: &[u8]) -> String {
    let d: Vec<String> = (0..MEM)
        .filter(|i| got[*i] != want[*i])
        .take(8)
        .map(|i| format!("[{i:#x}] is {:#04x}, should be {:#04x}", got[i], want[i]))
        .collect();
    d.join(", ")
}

pub fn regs_diff(got: &[u64], want: &[u64]) -> String {
    (0..15)
        .filter(|i| got[*i] != want[*i])
        .map(|i| format!("{} is {:#x}, should be {:#x}", crate::ast::REGS[i], got[i], want[i]))
        .collect::<Vec<_>>()
        .join(", ")
}
