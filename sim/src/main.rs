mod cfg;
mod ctx;
mod gen;
mod prng;
mod props;
mod rel;
mod runner;
mod scenario;
mod tlv;
mod world;

use runner::{Opts, Report};

const REAL: [&str; 3] = ["the whole pemv binary built from /repo: option parsing, configuration loading, all parsers, all output", "its dependencies (clap, figment, toml, termcolor, atty) and the Rust standard library", "glibc's user-space code"];
const STUB: [&str; 5] = ["the kernel: files, directories, descriptors, terminal, clock, randomness, identity, signals of the run (shim.c)", "the heap allocator (shim.c)", "getenv and the clock functions (shim.c)", "thread creation and locks (shim.c scheduler)", "readers of stdout and stderr"];

fn report(prop: &str) -> Report {
    let (level, rule): (&'static str, &str) = match prop {
        "C01" => ("fault_enumeration", "seeded invocations (operations, settings from random sources, random worlds) each run undisturbed and then under drawn sets of EINTR and short transfers on stdout, stderr, configuration file, open, poll and random calls; non-trivial: at least one fault really fired; distinct: by plan and system call trace"),
        "C02" => ("fault_enumeration", "seeded breakdown runs with a hard error on standard output at a drawn byte or a drawn write call, once, several times or for ever, with or without a short transfer first; non-trivial: the error really fired; distinct: by plan and system call trace"),
        "C03" => ("exploration", "seeded TLV blocks (BER, Ingenico, auto-detected; nested, masked, long-form, damaged, deep, wide, large) with masks and sorting from random sources, report parsed back against a reference decoder, a third of the runs under interruptions and short writes; non-trivial: the reference decoder gives a definite answer and it was compared"),
        "C04" => ("exploration", "seeded subsets of statements in command line, environment and three file sections for the three settings, compared with the reference resolution given on the command line alone, with the reference report model and with the colour rule; non-trivial: at least one statement present"),
        "C05" => ("exploration", "seeded directory trees with candidates, look-alikes (directories, pipes, sockets, devices, links, loops), decoys and missing or unreachable working directories; non-trivial: every case where the reference search gives a definite answer"),
        "C06" => ("fault_enumeration", "seeded unusable configurations: open errors, read errors at a drawn read call, non-configuration text, ill-typed effective values from each source; non-trivial: the defect took effect"),
        "C07" => ("fault_enumeration", "seeded schedules of atomic replacement, creation and removal of configuration files at drawn steps of the run, against the results for each version alone; non-trivial: at least one change happened during the run"),
        "C08" => ("fault_enumeration", "seeded acceptable and unacceptable inputs for every operation, undisturbed and with one of the two streams failing; non-trivial: a report or message was produced, or a fault fired"),
        "C09" => ("fault_enumeration", "seeded runs of every kind and every kind of ending (including kills, failed allocations, failing streams), also after supplying variables, files and directories the program was seen looking for; every system call that could leave a trace is recorded"),
        "C10" => ("exploration", "pairs of runs of one invocation in two worlds differing in randomness, clocks, identity, memory layout, descriptors, unrelated variables and files (including those the program was seen looking for); non-trivial: every pair"),
        "C11" => ("exploration", "seeded argument lists, hostile lengths, deep and wide blocks, random bytes, interruption storms under simulated memory, stack, step and time limits; non-trivial: every run that was measured against the budgets"),
        "C12" => ("fault_enumeration", "seeded operations under every colour setting and source, kind of standard output, TERM, NO_COLOR and failing terminal queries, against forced-on and forced-off runs; non-trivial: the operation produced a report"),
        "C14" => ("fault_enumeration", "seeded releases by the real script: version tags, repository states (clean, dirty in five ways, badly formatted, failing lint, tag already there, unwritable changelog) and one or two drawn failures of drawn commands (exit codes, signals to the command, the script or the whole group; before, halfway or after its work); non-trivial: a failure fired or the state was not a plain one; distinct: by plan and command log"),
        "C15" => ("fault_enumeration", "seeded requests for outputs (environment or dotenv file; existing, missing and unusable directories; stale files) with interruptions, short transfers, write and open errors, full disk, kills and failed allocations in the generator; non-trivial: a fault fired, a directory was unusable or nothing was requested"),
        "C16" => ("fault_enumeration", "seeded invocations of every kind (also with '-' and names of streams as values) with standard input holding data of several sorts, under would-block answers, short transfers, failing queries, hard errors, kills and failed allocations, also after supplying what the program was seen looking for; every call on the inherited streams is recorded"),
        "C17" => ("fault_enumeration", "seeded pairs of inputs of one structure (accepted, and refused for structure or length) with unlike contents in the objects that carry no coded meaning, each pair run in one world undisturbed, under failing streams, kills, failed allocations, an unusable configuration, and in surroundings that answer what the program asks for; non-trivial: every pair"),
        "C18" => ("fault_enumeration", "seeded inputs, masks and settings full of control sequences (as data of objects, as text of arguments, in file and environment), undisturbed and under every kind of fault and ending; every byte of both streams is judged; non-trivial: every run that is no usage error"),
        "C19" => ("exploration", "seeded invocations of every kind (operations with values of any content, numbers at the edges of their types, unusable configurations, surroundings that answer) each run in the same world by the build with debug assertions and overflow checks and by the optimised build, undisturbed, interrupted, and with standard output failing at a drawn byte; non-trivial: every pair"),
        "C24" => ("exploration", "seeded texts of either format (well-formed, damaged, readable as both, next to nothing) under settings from every source, each run by auto-detection and by both explicit options, undisturbed, with the auto run's transfers interrupted or cut into pieces, and with standard output failing at the same byte of the report in both; non-trivial: every text that option parsing takes"),
        "C25" => ("exploration", "seeded hexadecimal arguments of every operation (accepted and refused), each run in canonical spelling and respelt (letter case, separators, zero padding, entry separators), the same stream and configuration faults falling on both runs; non-trivial: every pair"),
        "C26" => ("exploration", "seeded requests, each run in its primary spelling and in another (aliases, short forms, ways to attach a value, order of options), and seeded misuses of the options, the same stream and configuration faults falling on both runs; non-trivial: every pair and every misuse"),
        "C21" => ("exploration", "seeded tags (dictionary, random, malformed), each identified in a simulated world, undisturbed and with transfers interrupted or cut, against the tag's own bits and the reports of objects with that tag in both formats; non-trivial: every identification that option parsing takes"),
        "C27" => ("exploration", "seeded blocks in either format under settings from every source, undisturbed and interrupted, each compared with the runs on its objects alone, on the children of each constructed object alone, on the same objects in the other format and on its coded values by their own options; non-trivial: every block"),
        _ => ("fault_enumeration", "seeded breakdown runs killed by a signal at a drawn step (also inside a write) or with drawn allocations failing; non-trivial: the cut happened during the run"),
    };
    let mut assumptions = vec!["the simulated kernel answers as Linux does for the calls the program makes".to_string(), "sampling, not enumeration: schedules, faults and inputs not drawn were not run".into()];
    match prop {
        "C03" => assumptions.push("names and meanings printed for tags and coded values are not judged here; blocks with coded values outside the always-valid set may be refused; indefinite length (0x80) is not judged".into()),
        "C05" => assumptions.push("stat errors on an existing candidate are not injected (the library treats the candidate as absent)".into()),
        "C14" => assumptions = vec!["git, cargo and git-cliff are modelled by stand-ins that keep a simulated repository".into(), "sampling, not enumeration, of failure sequences beyond one failing command".into()],
        "C15" => assumptions.push("errors reported only by closing a file are not injected (the Rust standard library ignores them)".into()),
        "C11" => assumptions.push(format!("memory budget {} bytes + {} x input bytes x (1 + nesting depth); nesting kept at or below 450 outside the known finding's case", props::MEM_BASE, props::MEM_FACTOR)),
        _ => {}
    }
    let (mut real, mut stub) = (REAL.to_vec(), STUB.to_vec());
    if prop == "C14" { real = vec!["release.sh, interpreted by the real bash", "sed"]; stub = vec!["git, git-cliff, cargo, gpg (stand-ins on a simulated repository)"]; }
    if prop == "C15" { real[0] = "the build script's generator, built from /repo/build.rs and src/cli.rs without debug assertions"; }
    Report { level, rule: rule.into(), assumptions, real, stub }
}
fn quick_cases(p: &str) -> u64 {
    match p { "C01" => 14400, "C02" => 12000, "C03" => 78000, "C04" => 60000, "C05" => 60000, "C06" => 72000, "C07" => 12000, "C08" => 30000, "C09" => 30000, "C10" => 21600, "C11" => 18000, "C12" => 24000, "C14" => 1500, "C15" => 6000, "C16" => 18000, "C17" => 24000, "C18" => 36000, "C19" => 36000, "C24" => 36000, "C25" => 30000, "C26" => 30000, "C21" => 54000, "C27" => 24000, _ => 14400 }
}
extern "C" { fn signal(s: i32, h: usize) -> usize; fn sigprocmask(how: i32, set: *const u64, old: *mut u64) -> i32; }
fn main() {
    // ignored or blocked signals would be inherited by the simulated processes
    // SAFETY: plain calls with valid arguments; the set is larger than the kernel reads
    unsafe { for s in 1..32 { if !matches!(s, 9 | 13 | 19) { signal(s, 0); } } let z = [0u64; 16]; sigprocmask(2, z.as_ptr(), std::ptr::null_mut()); }
    if let Some(rc) = rel::stub() { std::process::exit(rc); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let exes: Vec<(String, String)> = a.windows(3).filter(|w| w[0] == "--exe").map(|w| (w[1].clone(), w[2].clone())).collect();
    let shim = get("--shim").unwrap_or_default();
    let verif = get("--verif").unwrap_or_else(|| "/verif".into());
    let rc = match a.get(1).map(String::as_str) {
        Some("check") => {
            let prop = get("--prop").unwrap_or_default();
            let tier = get("--tier").unwrap_or_else(|| "quick".into());
            let th = tier == "thorough";
            let seed = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let cases = get("--cases").and_then(|x| x.parse().ok()).unwrap_or(if th { u64::MAX } else { quick_cases(&prop) });
            let wall = get("--wall").and_then(|x| x.parse().ok()).unwrap_or(if th { 600 } else { 150 });
            let workers = get("--workers").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get().clamp(2, 16)));
            if let Some(e) = exes.first() { gen::learn_names(&e.1); }
            let o = Opts { prop: prop.clone(), tier, seed, exes, shim, verif, cases, wall, workers };
            runner::check(&o, &report(&prop))
        }
        Some("replay") => runner::replay(&a[2], &exes, &shim),
        Some("case") => { // an explicit finding case, as a replay file on stdout
            for (_, p) in props::finding_cases(&get("--prop").unwrap_or_default()) { print!("exe {}\n{}", exes.first().map_or("dev", |e| &e.0), p.text()); }
            0
        }
        Some("run") => { // one scenario file, for inspection
            let t = std::fs::read_to_string(&a[2]).unwrap_or_default();
            let mut w = world::World::new(&exes[0].1, &shim);
            match scenario::Sc::parse(&t).ok_or("bad scenario".to_string()).and_then(|s| w.run(&s)) { Ok(r) => { println!("end {}\nstdout {}\nstderr {}\ntrace\n{}", r.end, ctx::lossy(&r.out, 4000), ctx::lossy(&r.err, 4000), String::from_utf8_lossy(&r.trace)); 0 } Err(e) => { eprintln!("{e}"); 2 } }
        }
        _ => { eprintln!("usage: pemvsim check|replay|run"); 2 }
    };
    std::process::exit(rc);
}
