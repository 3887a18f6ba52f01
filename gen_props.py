#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Assembler emits exactly the Y86-64 encoding of the source",
  "For every well-formed Y86-64 assembly source, the assembled memory image holds, at the address each statement is placed at, exactly the Y86-64 byte encoding of that instruction or data directive (little-endian, two's complement; labels replaced by their addresses; .pos and .align honoured; later statements overwrite earlier ones), and zero everywhere else. The image and the symbol table do not depend on spacing, comments, line endings, the notation of numbers (decimal, hexadecimal, negative) or whether labels are used before or after their definition.",
  ["inputs", "programs"], "all well-formed sources: every instruction and directive, every register, every literal notation and value, any layout, label graph and formatting",
  "The only assembler tests parse one fixed program and check that one undefined label is an error; no test compares a single emitted byte with anything.",
  ["sim/src/asm/grammer.pest", "sim/src/asm/mod.rs", "sim/src/object.rs", "sim/src/utils.rs"],
  [("PEG grammar", "sim/src/asm/grammer.pest"), ("two-pass layout and symbol table", "sim/src/asm/mod.rs assemble"), ("byte emission", "sim/src/object.rs LineInfo::write_object"), ("literal parsing", "sim/src/utils.rs parse_literal")],
  [("binary", "64 KiB memory image", "sim/src/object.rs Object"), ("symbols", "label -> address", "sim/src/object.rs Object")],
  ["y86_sim::assemble(..).obj.init_mem()", "ObjectExt.obj.symbols"])

p("C02", "Listings and source maps agree with the assembled image",
  "For every program the assembler accepts, the listing it prints contains every source line in order, annotated with the address the line was placed at and the bytes stored there, and loading that listing with the ISA simulator's loader reconstructs the memory image bit for bit, whatever the comments contain. The source map agrees with it: looking up a line number gives that line's address, and looking up an address gives a line placed at that address exactly when there is one.",
  ["inputs", "programs"], "all accepted sources, including comments containing the listing's own separators and arbitrary Unicode, addresses above 0xfff, overlapping statements and label-only lines",
  "test_assemble only prints one listing; no test reads a listing back or checks a line/address lookup.",
  ["sim/src/object.rs", "sim/src/bin/yas.rs", "sim/src/bin/yis.rs", "sim/src/utils.rs"],
  [("listing printer", "sim/src/object.rs Display for ObjectExt"), ("listing loader", "sim/src/bin/yis.rs main"), ("hex decoding", "sim/src/utils.rs decode_hex"), ("source map", "sim/src/object.rs SourceInfo")],
  [], ["yas output file", "yis execution trace and memory report", "SourceInfo::get_line / get_line_number_by_addr"])

p("C03", "Assembler accepts or cleanly rejects every input text",
  "For every input text the assembler returns either an image or an error; it never crashes, whatever the text, numbers, addresses or alignments in it. It accepts a text exactly when every line follows the documented grammar, every number is representable (decimal within signed 64 bits, hexadecimal within unsigned 64 bits, optionally negated), every referenced label is defined, every alignment is a power of two and all emitted bytes lie inside the 64 KiB memory.",
  ["inputs"], "arbitrary Unicode texts: random strings, grammar-token soups, mutations of valid programs, extreme literals, addresses and alignments",
  "One test checks one undefined label; nothing feeds malformed or extreme text.",
  ["sim/src/asm/grammer.pest", "sim/src/asm/mod.rs", "sim/src/object.rs", "sim/src/utils.rs"],
  [("PEG grammar", "sim/src/asm/grammer.pest"), ("error propagation", "sim/src/asm/mod.rs assemble"), ("label and range errors", "sim/src/object.rs"), ("literal parsing", "sim/src/utils.rs parse_literal")],
  [], ["Result of y86_sim::assemble", "exit status of yas"])

p("C04", "ISA simulator executes the Y86-64 semantics exactly",
  "For every memory image whose execution from address 0 reaches halt through valid instructions and in-range accesses, the ISA simulator stops there with exactly the registers, memory, condition codes, program counter and instruction count defined by the Y86-64 instruction set (including iaddq/isubq/iandq/ixorq, 64-bit wrap-around, signed overflow, all seven conditions, and push/pop of %rsp itself).",
  ["inputs", "programs"], "all halting programs over all 13 instruction classes, all operand values and aliasing of registers and addresses",
  "The ISA simulator is the oracle of the only semantic test and is itself checked by nothing; that test uses three operand values and straight-line code.",
  ["sim/src/isa.rs", "sim/src/utils.rs"],
  [("fetch-decode-execute loop", "sim/src/isa.rs simulate"), ("ALU", "sim/src/isa.rs arithmetic_compute"), ("condition codes", "sim/src/isa.rs ConditionCode")],
  [("reg_file, reg_cc, bin, pc", "architectural state", "sim/src/isa.rs simulate")],
  ["y86_sim::isa::simulate -> StandardResult"])

p("C05", "ISA simulator turns every machine fault into an error",
  "For every memory image whose execution reaches an invalid instruction (unknown opcode or function code), a fetch outside the 64 KiB memory, or a memory access any byte of which lies outside it, the ISA simulator returns an error; it never crashes and never reports a normal result. For arbitrary images it ends in a result or an error whenever execution ends at all.",
  ["inputs", "programs"], "arbitrary 64 KiB images, in particular programs that fault at boundary addresses (around 0, 0xfff8..0x10000 and 2^64) after arbitrary prefixes",
  "No test runs a faulting program on the ISA simulator.",
  ["sim/src/isa.rs"],
  [("pc and address checks", "sim/src/isa.rs simulate")],
  [], ["Result of y86_sim::isa::simulate", "exit status of yis"])

p("C06", "Sequential architectures follow the ISA instruction by instruction",
  "On the seq_std and seq_plus_std architectures every cycle executes exactly one instruction: after cycle n the reported program counter is the address of the n-th executed instruction, and the register file, the 64 KiB memory and the condition codes are exactly those the Y86-64 ISA prescribes after n instructions, for every program of supported instructions. The simulation terminates in the cycle that executes halt, and not before.",
  ["inputs", "programs", "histories"], "all programs (halting or not, self-modifying included) over the twelve base instruction classes, compared after every cycle",
  "test_builtin compares only final states of a few straight-line programs (opq, cmov, one forward jump) with three operand values; call, ret, push, pop, loads, stores and loops are never run.",
  ["sim/src/architectures/builtin/seq_std.rs", "sim/src/architectures/builtin/seq_plus_std.rs", "sim/src/architectures/hardware_seq.rs", "sim/src/framework/propagate.rs", "sim/src/dsl.rs", "sim_macro/src/lib.rs"],
  [("HCL description", "sim/src/architectures/builtin/seq*_std.rs"), ("hardware units", "sim/src/architectures/hardware_seq.rs"), ("cycle engine", "sim_macro/src/lib.rs render_update")],
  [("PipeSim", "simulator state", "sim/src/framework/mod.rs")],
  ["CpuSim::{program_counter,registers,is_terminate,cycle_count}", "MemData"])

p("C07", "The pipelined architecture computes what the ISA prescribes",
  "For every halting program of supported instructions whose stores do not overwrite instructions already in flight, the pipe_std architecture terminates with exactly the registers, memory and condition codes the Y86-64 ISA prescribes. This holds for every combination of data hazards, load/use hazards, mispredicted branches and returns, including wrong-path fetches from invalid addresses or of invalid instructions, which must leave no trace.",
  ["inputs", "programs", "schedules"], "all halting programs; every distance and combination of data, load/use and control hazards between in-flight instructions",
  "pipe_std is never run by any test.",
  ["sim/src/architectures/builtin/pipe_std.rs", "sim/src/architectures/hardware_pipe.rs", "sim/src/dsl.rs", "sim_macro/src/lib.rs"],
  [("forwarding", "sim/src/architectures/builtin/pipe_std.rs d_valA/d_valB"), ("stall and bubble control", "sim/src/architectures/builtin/pipe_std.rs"), ("hardware units", "sim/src/architectures/hardware_pipe.rs")],
  [("PipeRegs", "pipeline registers", "sim/src/dsl.rs define_stages")],
  ["CpuSim::{registers,is_terminate}", "MemData"])

p("C08", "Faults stop every architecture at the faulting instruction, precisely",
  "When a program reaches an instruction whose fetch or data address is outside the 64 KiB memory, or whose opcode the architecture does not support, every built-in architecture terminates without crashing. At that point memory, condition codes and all registers other than the faulting instruction's own destinations hold exactly the effects of the instructions before it: none is missing and nothing of any later instruction is visible.",
  ["inputs", "programs", "fault_sequences"], "all programs that fault after an arbitrary prefix, for each fault kind, boundary address (0xfff9.., 2^64-8..) and following instructions already in the pipeline",
  "No test makes an architecture fault; pipe_std is never run.",
  ["sim/src/architectures/hardware_seq.rs", "sim/src/architectures/hardware_pipe.rs", "sim/src/architectures/builtin/pipe_std.rs", "sim/src/architectures/builtin/seq_std.rs", "sim/src/architectures/builtin/seq_plus_std.rs"],
  [("memory range checks", "imem/dmem units"), ("status propagation", "f_stat/m_stat/prog_stat in pipe_std.rs, stat in seq*_std.rs"), ("exception gating", "set_cc, m_bubble, w_stall in pipe_std.rs")],
  [], ["CpuSim::is_terminate", "CpuSim::registers", "MemData"])

p("C09", "Cycle counts equal instructions plus the documented penalties",
  "For every halting program the sequential architectures take exactly one cycle per executed instruction, halt included. pipe_std takes exactly the executed instructions plus 4 cycles to drain, plus 1 for each load/use hazard (mrmovq or popq whose loaded register the next instruction reads), 2 for each conditional jump not taken and 3 for each return.",
  ["programs", "histories"], "all halting programs; every mix of hazards, including combined ones (load/use before ret, ret after a mispredicted branch)",
  "No test looks at a cycle count.",
  ["sim/src/architectures/builtin/pipe_std.rs", "sim_macro/src/lib.rs"],
  [("stall and bubble conditions", "sim/src/architectures/builtin/pipe_std.rs"), ("cycle counter", "sim_macro/src/lib.rs propagate_signals")],
  [], ["CpuSim::cycle_count"])

p("C10", "Simulation is deterministic, isolated and unaffected by observation",
  "Running the same program twice on the same architecture gives the same cycle-by-cycle trace of every signal, program counter, register and memory byte: across independently built simulators and processes, whether cycles are advanced by whole steps or by separate propagate/latch phases, and whether terminal output is on or off. Simulators running interleaved do not influence one another, and one simulator changes no memory but its own.",
  ["programs", "schedules", "histories", "configurations"], "all programs, every architecture, every interleaving of two simulators and every way of driving and observing them",
  "The evaluation order of the signals is derived from randomly seeded hash sets, so a run in a test only samples one order; no test compares two runs.",
  ["sim/src/framework/mod.rs", "sim/src/framework/propagate.rs", "sim_macro/src/lib.rs", "sim/src/dsl.rs"],
  [("topological evaluation order", "sim/src/framework/propagate.rs"), ("step / propagate_signals / initiate_next_cycle", "sim_macro/src/lib.rs")],
  [("MemData", "shared memory handle", "sim/src/framework/mod.rs")],
  ["CpuSim::get_stage_info", "CpuSim::registers", "MemData"])

p("C11", "Signals are evaluated in dependency order; impossible circuits are refused",
  "For every circuit, the computed propagation order lists every unit and signal exactly once, each after everything it depends on, with levels equal to the largest number of units on any dependency chain ending there and a cycle cost consistent with the longest chain. A circuit with a dependency cycle, with a unit input that nothing drives, or with one name for a unit and a signal, is refused. The information printed for a built-in architecture describes such a valid order for the dependency graph it exports.",
  ["inputs", "configurations"], "all dependency graphs (random DAGs, cyclic graphs, undriven inputs) and all built-in architectures",
  "Two tests check one two-signal cycle and one missing source; no test looks at an order.",
  ["sim/src/framework/propagate.rs", "sim/src/utils.rs", "sim/src/bin/ysim.rs"],
  [("topological sort", "sim/src/framework/propagate.rs topo"), ("level computation", "sim/src/framework/propagate.rs PropOrderBuilder::build"), ("undriven input check", "sim/src/framework/propagate.rs PropOrderBuilder::build")],
  [], ["Display of PropOrder", "ysim -I", "CpuSim::cycle_cost"])

p("C12", "HCL descriptions behave as the HCL-rs reference says",
  "For every architecture a user writes in the hardware description language, in every cycle each signal has the value the language reference gives it: first matching case of a case list, operator precedence and set membership as documented, sources read in the current cycle, and every connected unit input receiving the signal's value. Every signal is shown under the section it was declared in; apart from that the order of declarations, section titles and extra observed signals make no difference, and the architecture is available under its file name.",
  ["programs", "inputs", "histories"], "all well-typed descriptions (random expression trees, case lists, custom units and dependency graphs in random declaration order) and all input sequences",
  "The tests only compile the shipped descriptions and run two of them; the translation of the language itself is untested.",
  ["sim_macro/src/lib.rs", "sim_macro/src/expr.rs", "sim_macro/src/items.rs", "sim/src/dsl.rs", "sim/src/framework/propagate.rs", "assets/hcl-rs.typ"],
  [("expression parser and printer", "sim_macro/src/expr.rs"), ("signal updaters and dependency edges", "sim_macro/src/lib.rs render_signal_updater/render_build_circuit"), ("set membership", "sim/src/dsl.rs mtc"), ("architecture discovery", "sim_macro/src/lib.rs extra_pipelines")],
  [], ["CpuSim::get_stage_info of generated architectures"])

p("C13", "Pipeline registers latch, stall and bubble as documented",
  "In every user-defined architecture a pipeline-register field reads as its declared default in the first cycle and, in every later cycle, as the value assigned to it in the previous cycle, except that a stalled register keeps all its fields and a bubbled one returns all of them to their defaults. Registers are independent: stalling or bubbling one never affects another, and values written in a cycle are not visible before the next.",
  ["programs", "histories"], "all register declarations, assignments and all sequences of stall/bubble controls over time",
  "Stall and bubble are used only by pipe_std, which no test runs.",
  ["sim/src/dsl.rs", "sim_macro/src/lib.rs"],
  [("mux", "sim/src/dsl.rs define_stages"), ("set_stage", "sim_macro/src/lib.rs")],
  [("PipeRegs", "current and next pipeline registers", "sim/src/dsl.rs")],
  ["CpuSim::get_stage_info of generated architectures"])

p("C14", "Debugger stepping, continuing and breakpoints follow the program",
  "In every debugging session, 'next' advances the program by exactly one cycle, 'continue' runs to the first later cycle whose program counter is the address of a line carrying a breakpoint, to termination, or to the cycle limit, whichever comes first; a terminated program never advances. After each of them the client receives exactly one stopped event naming the program counter and cycle count of that point and, as the reason, 'breakpoint' (with the id of a breakpoint at that address) when a breakpoint is there, otherwise 'step' after next or at the cycle limit and 'pause' on termination. configurationDone stops at the entry without advancing.",
  ["histories", "programs", "configurations"], "all programs, architectures and sequences of setBreakpoints/next/continue/inspection requests, including breakpoints on labels, directives and several lines at one address",
  "The debugger crate has no tests.",
  ["debugger/src/server.rs", "sim/src/object.rs"],
  [("run loop", "debugger/src/server.rs run_prog"), ("line/address map", "sim/src/object.rs SourceInfo")],
  [("breakpoints, status", "session state", "debugger/src/server.rs DebugServer")],
  ["DAP messages of ydb"])

p("C15", "Debugger views show the simulated machine's actual state",
  "Whenever the debugged program is stopped, the values the debugger reports - every register, every signal of every section, the sections themselves and the current source line - are those of the simulated machine at that cycle, in the program's own state and not that of an earlier stop. The reported source line is placed at the current program counter whenever such a line exists, frames and scopes name the launched program as their source, and asking for views never changes the program's state.",
  ["histories", "programs"], "all stops reachable by any request sequence, on every architecture",
  "The debugger crate has no tests.",
  ["debugger/src/server.rs", "sim_macro/src/lib.rs"],
  [("variables/scopes/stackTrace handlers", "debugger/src/server.rs handle_request"), ("stage info refresh", "debugger/src/server.rs start"), ("get_stage_info", "sim_macro/src/lib.rs")],
  [("stage_info", "snapshot shown to the client", "debugger/src/server.rs Inner")],
  ["DAP responses of ydb"])

p("C16", "Every debugger request gets exactly one answer; bad ones do no harm",
  "After initialize, every request of the debug adapter protocol receives exactly one response carrying its sequence number and outcome, in request order (disconnect included, after which the session ends), and the initialized event follows the initialize response. A request that cannot be served (unknown frame, thread or variable reference, breakpoint on a line that does not exist, missing or unassemblable program, program not launched yet, unsupported command) is answered as a failure or an unverified breakpoint and leaves the session and the program's state usable and unchanged: leaving such requests out changes no other answer.",
  ["histories", "inputs", "fault_sequences"], "all sequences of well-formed DAP requests with valid and invalid arguments in any order",
  "The debugger crate has no tests.",
  ["debugger/src/server.rs", "sim/src/object.rs", "sim/src/asm/mod.rs"],
  [("request dispatch and error response", "debugger/src/server.rs serve_req/handle_request"), ("session loop", "debugger/src/server.rs start")],
  [], ["DAP messages of ydb"])

p("C17", "Command-line tools report true results, limits and failures",
  "For every program, yas writes the listing to the requested (or default .yo) file; yis and ysim print the executed instructions (with operands) or cycles, the registers and exactly the memory words that differ between the initial and final memory, and all tools agree with each other on every architecture. With -v, ysim also shows every signal of every section in each cycle. Colours set the bytes of a printed memory word that differ apart from the others. ydb listens on the port of this machine it is given (2345 if none) or fails. Failures (missing or unreadable file, unassemblable source, unusable listing, unknown architecture, bad option or number, taken port, faulting program in yis, more cycles than the given limit in ysim) give an error message and non-zero exit status without crashing or writing files, and a program needing no more cycles than the limit is never cut off.",
  ["programs", "configurations"], "all programs, every architecture and verbosity, cycle limits around the actual count, bad inputs",
  "No test runs any of the binaries.",
  ["sim/src/bin/yas.rs", "sim/src/bin/yis.rs", "sim/src/bin/ysim.rs", "sim/src/utils.rs", "binutils/src/lib.rs", "debugger/src/main.rs", "debugger/src/lib.rs"],
  [("main functions", "sim/src/bin/*.rs"), ("mem_diff, format_reg_file", "sim/src/utils.rs"), ("verbosity", "binutils/src/lib.rs")],
  [], ["stdout, exit status and files of yas, yis, ysim", "exit status and listening address of ydb"])

p("C18", "The architecture tester accepts exactly the runs that match the ISA",
  "For every program and architecture, the architecture tester reports success if and only if the program assembles and halts under the ISA and the architecture terminates (within the tester's limit of 3,000,000 cycles) with exactly the ISA's registers and memory. An architecture that differs in a single register or memory byte at the end is reported as a mismatch, and a correct one is never rejected. Its instruction sweeps pass every correct architecture, fail one on which a swept instruction is missing or wrong, and leave the failing program in test-failure.ys.",
  ["programs", "configurations"], "all programs, run on correct architectures and on architectures with seeded defects or missing instructions",
  "The tester is only ever run on correct architectures, so it would pass if it compared nothing.",
  ["sim/src/test/mod.rs", "sim/src/test/diff.rs", "sim/src/test/inst.rs"],
  [("state comparison", "sim/src/test/diff.rs TestIsaResult::check"), ("instruction sweeps", "sim/src/test/inst.rs")],
  [], ["y86_sim::test::SimTester::{test_isa,test_opq,test_iopq,test_cmov,test_jm}"])

p("C19", "Concurrent debugging sessions are independent",
  "Several clients connected to one debug server at the same time each observe exactly what they would observe alone: their own program, breakpoints, stops, registers and signals. This holds for every interleaving of their requests and when another session fails, disconnects abruptly or sends garbage; the server keeps accepting new sessions, also after more clients connected at once than it had file descriptors or threads for, until Ctrl+C ends it with success, whatever its sessions are doing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the requests of several sessions, including abrupt disconnects and malformed traffic on others",
  "The debugger crate has no tests.",
  ["debugger/src/lib.rs", "debugger/src/server.rs"],
  [("thread per connection", "debugger/src/lib.rs start_tcp_listener"), ("per-session state", "debugger/src/server.rs DebugServer")],
  [], ["DAP messages of ydb"])

p("C20", "Hardware units do what they document, for every input and history",
  "Every hardware unit of both hardware modules gives, for every input and after every history of activations, exactly the outputs its documentation states, never left-over ones: instruction bytes split into icode, ifun and operands with an error exactly where the instruction does not fit the memory, aligned register ids and constants, the incremented program counter, registers last written (RNONE reads 0 and ignores writes, dstM wins over dstE, the pipelined file writes before it reads), ALU results, condition codes that change only when set_cc is given, condition tests, and data memory that returns the addressed word when reading, 0 when not reading, and an error exactly for addresses outside the memory. A unit changes nothing but its own state: a write changes exactly its register or its eight bytes.",
  ["inputs", "histories"], "all port values (register codes up to 15) and all sequences of activations of the units of hardware_seq and hardware_pipe",
  "Units are only exercised by the built-in architectures in the tests, so port combinations they never use are never seen; users build their own architectures from the same units.",
  ["sim/src/architectures/hardware_seq.rs", "sim/src/architectures/hardware_pipe.rs", "sim/src/isa.rs", "sim/src/utils.rs", "sim/src/dsl.rs"],
  [("units", "sim/src/architectures/hardware_*.rs define_units!"), ("ALU, condition codes", "sim/src/isa.rs arithmetic_compute, ConditionCode"), ("unit dispatch", "sim/src/dsl.rs define_units")],
  [("register file", "shared by reading and writing ports", "RegFile"), ("condition codes", "kept by reg_cc", "RegisterCC"), ("memory", "shared by imem, dmem and the caller", "MemData")],
  ["Units::run, HardwareUnits::register_file"])

p("C21", "Logs hold exactly the messages of the chosen verbosity, complete and in order",
  "For every highest level, given directly or by a verbosity option, and every history of messages from any number of threads, the log file holds exactly one JSON record per message at or above that level and no other: with its level and its text unaltered whatever characters it contains, records of different threads unmixed, and each thread's in its order. The terminal shows exactly the same messages. Without a log file none is written. Quiet stands for errors only, no option for warnings, and each -v for one level more.",
  ["inputs", "schedules"], "all message texts, levels, verbosity options and thread interleavings of the logging every tool sets up",
  "The only test prints the log and asserts nothing about it; loss and mixing depend on threads and on characters in the text.",
  ["binutils/src/lib.rs"],
  [("set-up of terminal and file log", "binutils/src/lib.rs logging_setup"), ("verbosity options", "binutils/src/lib.rs verbose_level_to_trace")],
  [("log file", "a writer shared by all threads", "logging_setup")],
  ["logging_setup, verbose_level_to_trace"])

p("C22", "User architectures are first class in the simulator and the debugger",
  "For any set of architecture files in the directory for user architectures, whatever their legal names and whatever other files and folders lie beside them, tools built from the tree know exactly the built-in architectures and those files by name: --help of ysim and ydb lists exactly these, any other name is refused with an error, and the built-in ones stay what they are. Under its name every such architecture behaves as its description says in both tools: ysim -I prints an evaluation order of the circuit and exports a graph with exactly the dependencies of the description; ysim prints in every cycle the program counter, the architecture's own state and units and with -v every signal in its section with the value the description gives it, up to the termination signal or the cycle limit; ydb offers its sections and shows those values, the registers and the source line at every stop, and stops at breakpoints by its program counter.",
  ["inputs", "histories"], "all sets of user architecture files, their names and neighbours, descriptions, programs, limits and debugging sessions on them",
  "The tests know the three built-in architectures only; no user architecture is ever built by them, and the generated registry has no test.",
  ["sim_macro/src/lib.rs", "sim/src/architectures/", "sim/src/bin/ysim.rs", "debugger/src/", "sim/src/utils.rs"],
  [("registry of user architectures", "sim_macro/src/lib.rs extra_pipelines"), ("selection by name", "sim/src/architectures/mod.rs arch_names, create_sim"), ("generated step and stage information", "sim_macro/src/lib.rs render, render_get_stage_info"), ("exported graph", "sim/src/utils.rs render_arch_dependency_graph"), ("scopes and variables", "debugger/src/server.rs init_program, Variables")],
  [("name", "file name without .rs", "extra/")],
  ["ysim, ydb command lines with --arch; --help; -I"])

p("C23", "pipe_std passes instructions through its stages as the five-stage design does",
  "For every program on pipe_std and in every cycle: the fetch address is the one the design gives (predicted: the target of a jump or call, otherwise the next instruction; corrected after a mispredicted jump; the return address when ret reaches write back, held until then; held for one cycle by a load/use hazard), and every instruction changes memory in its memory stage, the condition codes in its execute stage and the registers in its write-back stage, exactly 3, 2 and 4 cycles after its fetch plus its stalls, and not at all when it was cancelled or follows an exception. Execution ends in the cycle in which a halt or fault is in write back. The table that ysim prints shows for every cycle the status and instruction in each stage and which stages are stalled or bubbled at its end.",
  ["programs", "histories"], "all machine programs, halting, faulting or endless, in every cycle, including what is fetched on wrong paths",
  "The tests compare final states only; a user of the simulator or debugger watches the stages cycle by cycle, where hazards, wrong paths and exceptions combine in ways a sample does not cover.",
  ["sim/src/architectures/builtin/pipe_std.rs", "sim/src/architectures/hardware_pipe.rs", "sim_macro/src/lib.rs", "sim/src/framework/", "sim/src/utils.rs"],
  [("stages and control", "sim/src/architectures/builtin/pipe_std.rs hcl!"), ("table", "sim/src/architectures/builtin/pipe_std.rs print_state"), ("stall and bubble", "sim_macro/src/lib.rs, sim/src/dsl.rs define_stages")],
  [("pipeline registers", "five, advanced together", "PipeRegs"), ("registers, condition codes, memory", "one writer stage each", "Units")],
  ["CpuSim::step, program_counter, registers, is_terminate, get_stage_info", "standard output of ysim --arch pipe_std"])

p("C24", "ysim -v tells of every change of state in the cycle it happens, and of no other",
  "For every program, on every built-in architecture and at every verbosity from -v on, ysim names in each printed cycle exactly the changes that happen in it: every register written, with the value, and whether it comes from the execution result (E) or from memory (M, also when both write one register); every update of the condition codes, with both operands, the result, the function and the new flags; every word written to memory, with its address. Values are those of the instruction set. Nothing is told for instructions that are cancelled, dropped behind an exception or do not write (a conditional move not taken). Without -v or with -q none of this is printed.",
  ["programs", "configurations"], "all programs, on all architectures and verbosity levels, in every cycle",
  "No test runs ysim or looks at what the hardware units log; the log is what a user traces a wrong result with.",
  ["sim/src/architectures/hardware_seq.rs", "sim/src/architectures/hardware_pipe.rs", "sim/src/architectures/builtin/", "sim/src/bin/ysim.rs", "binutils/src/lib.rs", "sim/src/isa.rs", "sim_macro/src/lib.rs"],
  [("messages of the units", "sim/src/architectures/hardware_*.rs tracing::info!"), ("names", "sim/src/isa.rs reg_code, op_code name_of"), ("level", "binutils/src/lib.rs verbose_level_to_trace"), ("each unit active once in a cycle", "sim/src/framework/propagate.rs")],
  [("register file, condition codes, data memory", "written by one unit each", "Units")],
  ["standard output of ysim -v"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
