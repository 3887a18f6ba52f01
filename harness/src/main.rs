mod ast;
mod batch;
mod core_arch;
mod cut;
mod engine;
mod gen;
mod hcl;
mod isa_ref;
mod p_arch;
mod p_cli;
mod p_dbg;
mod p_events;
mod p_asm;
mod p_hcl;
mod p_isa;
mod p_order;
mod p_pipe;
mod pipe_ref;
mod p_tester;
mod p_user;
#[cfg(feature = "log")]
mod p_log;
#[cfg(feature = "units")]
mod p_units;

use engine::*;

fn parts(id: &str, ctx: &Ctx) -> Option<(Vec<Box<dyn DynPart>>, Vec<&'static str>)> {
    Some(match id {
        "C01" => (p_asm::c01(ctx), vec!["the reference assembler in harness/src/ast.rs states the encoding"]),
        "C02" => (p_asm::c02(ctx), vec!["lines end at LF, CR LF or CR, as in the grammar"]),
        "C03" => (p_asm::c03(ctx), vec!["an alignment beyond 2^64 may be accepted or rejected"]),
        "C04" => (p_isa::c04(ctx), vec!["the reference machine in harness/src/isa_ref.rs states the Y86-64 semantics"]),
        "C05" => (p_isa::c05(ctx), vec!["non-canonical register fields may give a result or an error"]),
        "C06" => (p_arch::c06(ctx), vec!["condition codes are compared where the architecture shows them among its signals"]),
        "C07" => (p_arch::c07(ctx), vec!["programs that overwrite one of the next 3 executed instructions are skipped"]),
        "C08" => (p_arch::c08(ctx), vec!["undefined function codes and register fields are skipped"]),
        "C09" => (p_arch::c09(ctx), vec!["programs that overwrite one of the next 3 executed instructions are skipped on pipe_std"]),
        "C10" => (p_arch::c10(ctx), vec!["signals are compared in the text form get_stage_info gives"]),
        "C11" => (p_order::c11(ctx), vec!["the level of units without inputs is not stated"]),
        "C12" => (p_hcl::c12(ctx), vec!["the value of a case list without a matching case is not stated"]),
        "C13" => (p_hcl::c13(ctx), vec!["stalling and bubbling a register at once is not stated"]),
        "C14" => (p_dbg::c14(ctx), vec!["line addresses come from the reference assembler, program states from an in-process simulator"]),
        "C15" => (p_dbg::c15(ctx), vec!["the state of cycle n is that of an in-process simulator driven for n cycles"]),
        "C16" => (p_dbg::c16(ctx), vec!["requests are well-formed for the protocol library and follow an initialize request"]),
        "C17" => (p_cli::c17(ctx), vec!["the printed trace, registers and memory words are read from standard output after removing colours and log lines"]),
        "C19" => (p_dbg::c19(ctx), vec!["sessions alone are observed each on a server of its own"]),
        "C22" => (p_user::c22(ctx), vec!["the tools are built from scratch after architecture files are added: cargo does not notice new files in the directory"]),
        "C23" => (p_pipe::c23(ctx), vec!["nothing is compared after an undefined encoding is fetched, or bytes a store writes in the same cycle"]),
        "C24" => (p_events::c24(ctx), vec!["writing one register twice in one cycle may be told once or twice, lines in any order within the cycle"]),
        "C18" => (p_tester::c18(ctx), vec!["programs that never halt under the ISA give no verdict and are skipped"]),
        #[cfg(feature = "units")]
        "C20" => (p_units::c20(ctx), vec!["register codes are at most 15; outputs of undefined function codes and of reading and writing at once are not stated"]),
        #[cfg(feature = "log")]
        "C21" => (p_log::c21(ctx), vec!["records of the log file are JSON objects with level and fields.message; terminal lines carry the level's name and end with the message"]),
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("isa-trace") => {
            let mut src = String::new();
            use std::io::Read;
            std::io::stdin().read_to_string(&mut src).unwrap();
            let mut img = [0u8; isa_ref::MEM];
            let mut at = 0usize;
            for l in src.lines() {
                if let Some(a) = l.strip_prefix(".pos 0x") {
                    at = usize::from_str_radix(a, 16).unwrap();
                } else if let Some(b) = l.strip_prefix(".byte 0x") {
                    img[at] = u8::from_str_radix(b, 16).unwrap();
                    at += 1;
                }
            }
            let _ = y86_sim::isa::simulate(img, true);
        }
        #[cfg(feature = "log")]
        Some("log-child") => p_log::child(&args[2]),
        Some("arch-digest") => p_arch::digest_child(),
        Some("replay") => {
            let mut out = Out::capture();
            install_panic_hook();
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let r: Replay = serde_json::from_str(&txt).expect("replay file");
            let ctx = Ctx { id: r.property.clone(), seed: 1, thorough: false, factor: 1 };
            let (ps, _) = parts(&r.property, &ctx).expect("unknown property");
            if r.part == "hang" {
                let src = r.case["source"].as_str().unwrap();
                let lim = r.case["expect"].as_u64().unwrap() * 10 + 1000;
                if cut::hang_judge(src, lim) {
                    out.line(&format!("VIOLATION property={} replay={}", r.property, args[2]));
                    std::process::exit(1);
                }
                return;
            }
            watch_cases(r.property.clone(), (&args[2]).into(), out.dup());
            let p = ps.iter().find(|p| p.name() == r.part).expect("unknown part");
            match p.replay(&r.case) {
                Ok(Ok(())) => out.line("holds on this case"),
                Ok(Err(m)) => {
                    out.line(&m);
                    out.line(&format!("VIOLATION property={} replay={}", r.property, args[2]));
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(3);
                }
            }
        }
        Some(id) => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            let factor = std::env::var("VH_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 12 } else { 1 });
            let ctx = Ctx { id: id.to_string(), seed, thorough, factor };
            let Some((ps, assumptions)) = parts(id, &ctx) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let mut out = Out::capture();
            install_panic_hook();
            cut::start_watchdog(id.to_string(), out.dup());
            let rc = run_property(&ctx, &ps, &assumptions, &mut out);
            p_dbg::stop_servers();
            std::process::exit(rc);
        }
        None => {
            eprintln!("usage: vh <property> | replay <file>");
            std::process::exit(2);
        }
    }
}
