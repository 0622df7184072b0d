//! Seeded search over cases: worker pool, minimisation, replay files, known findings, evidence.
use crate::ctx::{Ctx, Plan, Stats, Viol};
use crate::prng::Rng;
use crate::props;
use crate::world::World;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Opts { pub prop: String, pub tier: String, pub seed: u64, pub exes: Vec<(String, String)>, pub shim: String, pub verif: String, pub cases: u64, pub wall: u64, pub workers: usize }
pub struct Report { pub level: &'static str, pub rule: String, pub assumptions: Vec<String>, pub real: Vec<&'static str>, pub stub: Vec<&'static str> }

pub fn known(verif: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| { let l = l.strip_prefix("finding: property=")?; let (p, r) = l.split_once(' ')?; let (k, d) = r.strip_prefix("key=")?.split_once(' ')?; Some((p.to_string(), k.to_string(), d.to_string())) }).collect()
}
pub fn listed(kn: &[(String, String, String)], prop: &str, v: &Viol) -> bool { v.finding.is_some_and(|f| kn.iter().any(|k| k.0 == prop && k.1 == f)) }

/// Cases that compare two builds run on the first and have the second at hand.
const PAIRED: &str = "C19";
fn context(prop: &str, exes: &[(String, String)], e: usize, shim: &str) -> Ctx {
    let mut c = Ctx::new(World::new(&exes[e].1, shim));
    if prop == PAIRED { c.other = exes.get(1).map(|x| World::new(&x.1, shim)); }
    c
}
pub fn case_seed(seed: u64, prop: &str, i: u64) -> Rng { Rng::derive(seed, prop, i) }

pub fn minimise(c: &mut Ctx, kn: &[(String, String, String)], p: Plan, v: Viol, max: Duration) -> (Plan, Viol, u64) {
    let t0 = Instant::now();
    let (mut best, mut bv, mut tried) = (p, v, 0u64);
    'outer: loop {
        for q in props::shrinks(&best) {
            if t0.elapsed() > max || tried > 4000 { break 'outer; }
            tried += 1;
            c.forget();
            if let Ok(o) = props::eval(&q, c) {
                if let Some(w) = o.viol { if w.class == bv.class && !listed(kn, &best.prop, &w) { best = q; bv = w; continue 'outer; } }
            }
        }
        break;
    }
    (best, bv, tried)
}
pub fn write_replay(verif: &str, prop: &str, exe: &str, v: &Viol, p: &Plan, c: &mut Ctx, extra: &str) -> String {
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.replay", p.hash());
    let mut o = format!("# Violation of {prop} ({}): {}\n# Replay: bash {verif}/run.sh replay {path}\n# Build replayed: {exe}\n{extra}# What is run: {}\n", v.class, v.msg.replace('\n', "\\n"), props::describe(p));
    c.forget();
    let (t, d) = props::trace(c, p);
    o.push_str(&t);
    o.push_str(&format!("digest {d}\n"));
    o.push_str(&format!("exe {exe}\nclass {}\nmessage {}\n", v.class, crate::scenario::hex(v.msg.as_bytes())));
    o.push_str(&p.text());
    let _ = std::fs::write(&path, o);
    path
}
pub fn replay(path: &str, exes: &[(String, String)], shim: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else { eprintln!("cannot read {path}"); return 2 };
    let body: String = t.lines().filter(|l| !l.starts_with('#')).map(|l| format!("{l}\n")).collect();
    let Some(p) = Plan::parse(&body) else { eprintln!("{path} is not a replay file"); return 2 };
    let field = |k: &str| body.lines().find_map(|l| l.strip_prefix(k).map(str::to_string));
    let want = field("exe ").unwrap_or_default();
    let exe = if p.prop == PAIRED { 0 } else { exes.iter().position(|e| e.0 == want).unwrap_or(0) };
    let mut c = context(&p.prop, exes, exe, shim);
    c.verbose = true;
    c.verbose = false;
    let (_, digest) = props::trace(&mut c, &p);
    c.verbose = true;
    match props::eval(&p, &mut c) {
        Ok(o) => match o.viol {
            Some(v) => {
                println!("violation ({}): {}", v.class, v.msg);
                let same = field("digest ").as_deref() == Some(&digest) && field("message ").as_deref() == Some(&crate::scenario::hex(v.msg.as_bytes()));
                println!("{}", if same { "reproduced exactly (same digest, same message)" } else { "reproduced, but not byte for byte (was the code changed since?)" });
                println!("VIOLATION property={} replay={path}", p.prop);
                1
            }
            None => { println!("the property holds on this execution"); 0 }
        },
        Err(e) => { eprintln!("simulator error: {e}"); 2 }
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
pub fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ")) }
pub fn jarr(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")) }
pub struct Sum<'a> { pub o: &'a Opts, pub st: &'a Stats, pub wall: f64, pub search: f64, pub viol: u64, pub extra: Vec<(String, String)>, pub rep: &'a Report, pub findings: Vec<String> }
pub fn evidence(s: &Sum) -> String {
    let st = s.st;
    let per_h = |n: u64| if s.search > 0.0 { (n as f64 * 3600.0 / s.search) as u64 } else { 0 };
    let mut f = vec![
        ("evaluations".to_string(), st.evals.to_string()), ("distinct_nontrivial".into(), st.keys.len().to_string()), ("rule".into(), js(&s.rep.rule)), ("samples".into(), jarr(&st.samples)),
        ("simulated_runs".into(), st.runs.to_string()), ("simulated_runs_per_hour".into(), per_h(st.runs).to_string()), ("simulated_steps".into(), st.steps.to_string()),
        ("simulated_seconds_of_program_time".into(), format!("{:.3}", st.sim_ns as f64 / 1e9)), ("faults_injected".into(), jmap(&st.fired)), ("endings".into(), jmap(&st.ends)), ("cases_by_kind".into(), jmap(&st.kinds)),
        ("distinct_executions_by_system_call_trace".into(), st.traces.len().to_string()), ("distinct_execution_shapes_ignoring_sizes_and_data".into(), st.shapes.len().to_string()),
        ("high_water_marks".into(), jmap(&st.max)), ("observations".into(), jmap(&st.notes)),
        ("ran_real_code".into(), jarr(&s.rep.real.iter().map(|x| (*x).to_string()).collect::<Vec<_>>())), ("ran_stub".into(), jarr(&s.rep.stub.iter().map(|x| (*x).to_string()).collect::<Vec<_>>())), ("known_findings_seen".into(), jarr(&s.findings)),
    ];
    f.extend(s.extra.iter().cloned());
    let cov = f.iter().map(|(k, v)| format!("    {}: {v}", js(k))).collect::<Vec<_>>().join(",\n");
    format!("{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n{cov}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", js(&s.o.prop), js(&s.o.tier), s.o.seed, js(s.rep.level), jarr(&s.rep.assumptions), s.wall, s.viol)
}
pub fn save_evidence(o: &Opts, text: &str) { let d = format!("{}/evidence", o.verif); let _ = std::fs::create_dir_all(&d); if let Err(e) = std::fs::write(format!("{d}/{}.json", o.prop), text) { eprintln!("cannot write evidence: {e}"); } }

pub fn check(o: &Opts, rep: &Report) -> i32 {
    let t0 = Instant::now();
    let kn = known(&o.verif);
    let mut findings = vec![];
    let mut total = Stats::default();
    // listed findings: their exact cases, run first
    {
        let mut c = Ctx::new(World::new(&o.exes[0].1, &o.shim));
        for (k, p) in props::finding_cases(&o.prop) {
            let Some(f) = kn.iter().find(|x| x.0 == o.prop && x.1 == k) else { continue };
            match props::eval(&p, &mut c) {
                Ok(x) => if x.viol.is_some_and(|v| v.finding == Some(k)) { println!("KNOWN-FINDING: property={} {}", o.prop, f.2); findings.push(f.2.clone()); },
                Err(e) => eprintln!("finding case {k}: {e}"),
            }
        }
        total.merge(std::mem::take(&mut c.st));
    }
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let limit = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<(u64, usize, Plan, Viol)>> = Mutex::new(vec![]);
    let all = Mutex::new(total);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mism: Mutex<Vec<String>> = Mutex::new(vec![]);
    let repeated = AtomicU64::new(0);
    let s0 = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..o.workers {
            sc.spawn(|| {
                let mut cs: Vec<Ctx> = (0..o.exes.len()).map(|e| context(&o.prop, &o.exes, e, &o.shim)).collect();
                loop {
                    if stop.load(Ordering::Relaxed) || s0.elapsed().as_secs() >= o.wall { break; }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= o.cases || i > limit.load(Ordering::Relaxed) { break; }
                    let e = if o.prop == PAIRED { 0 } else if o.exes.len() == 2 { usize::from(i % 3 == 2) } else { (i % o.exes.len() as u64) as usize };
                    let c = &mut cs[e];
                    c.forget();
                    c.selfcheck = i < 24 || i % 997 == 0;
                    let before = c.st.runs;
                    let mut rng = case_seed(o.seed, &o.prop, i);
                    let res = (|| -> Result<Option<(Plan, Viol)>, String> {
                        for p in props::plans(&o.prop, i, &mut rng, c)? {
                            let out = props::eval(&p, c)?;
                            if let Some(k) = out.key { if c.st.keys.insert(k) && (i == 0 || (c.st.samples.len() < 2 && i % 7 == 3)) { c.st.samples.push(format!("case {i} {}: {}", p.kind, props::describe(&p))); } }
                            if let Some(v) = out.viol { if listed(&kn, &o.prop, &v) { c.st.note(&format!("known finding {} met", v.finding.unwrap_or(""))); } else { return Ok(Some((p, v))); } }
                        }
                        Ok(None)
                    })();
                    if c.selfcheck { repeated.fetch_add(c.st.runs - before, Ordering::Relaxed); if let Some(m) = c.mismatch.take() { mism.lock().unwrap().push(m); } }
                    match res {
                        Ok(Some((p, v))) => { limit.fetch_min(i, Ordering::Relaxed); found.lock().unwrap().push((i, e, p, v)); }
                        Ok(None) => { done.fetch_add(1, Ordering::Relaxed); }
                        Err(x) => { let mut g = errors.lock().unwrap(); g.push(format!("case {i}: {x}")); if g.len() > 50 { stop.store(true, Ordering::Relaxed); } }
                    }
                }
                for c in cs { all.lock().unwrap().merge(c.st); }
            });
        }
    });
    let search = s0.elapsed().as_secs_f64();
    let mut st = all.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let errors = errors.into_inner().unwrap();
    let mism = mism.into_inner().unwrap();
    let mut rc = 0;
    let viols = u64::from(!found.is_empty());
    let mut extra = vec![("cases".to_string(), done.load(Ordering::Relaxed).to_string()), ("case_seeds_per_hour".into(), if search > 0.0 { ((done.load(Ordering::Relaxed) as f64) * 3600.0 / search) as u64 } else { 0 }.to_string()),
        ("search_seconds".into(), format!("{search:.2}")), ("runs_repeated_to_confirm_determinism".into(), repeated.load(Ordering::Relaxed).to_string()), ("repeats_that_differed".into(), mism.len().to_string()), ("builds_simulated".into(), jarr(&o.exes.iter().map(|e| e.0.clone()).collect::<Vec<_>>()))];
    if let Some((i, e, p, v)) = found.into_iter().next() {
        let mut c = context(&o.prop, &o.exes, e, &o.shim);
        let (q, w, tried) = minimise(&mut c, &kn, p, v, Duration::from_secs(25));
        let path = write_replay(&o.verif, &o.prop, &o.exes[if o.prop == PAIRED { o.exes.len() - 1 } else { e }].0, &w, &q, &mut c, &format!("# Found as case {i} of seed {}; minimised with {tried} trials\n", o.seed));
        println!("{}: {}", o.prop, w.msg);
        println!("  run: {}", props::describe(&q));
        println!("VIOLATION property={} replay={path}", o.prop);
        extra.push(("violation".into(), js(&w.msg)));
        rc = 1;
    }
    if !mism.is_empty() { eprintln!("{} repeated runs differed from the first; the first scenario:\n{}", mism.len(), mism[0].to_string().chars().take(3000).collect::<String>()); }
    if rc == 0 && !errors.is_empty() {
        eprintln!("{} simulator errors, e.g. {}", errors.len(), errors[0]);
        extra.push(("simulator_errors".into(), errors.len().to_string()));
        if errors.len() as u64 * 20 > done.load(Ordering::Relaxed) { rc = 2; }
    }
    if rc == 0 && st.keys.is_empty() { eprintln!("nothing non-trivial was explored"); rc = 2; }
    st.samples.truncate(8);
    let text = evidence(&Sum { o, st: &st, wall: t0.elapsed().as_secs_f64(), search, viol: viols, extra, rep, findings });
    save_evidence(o, &text);
    println!("{}: {} cases, {} simulated runs, {} distinct non-trivial, {} distinct executions, {:.1} s", o.prop, done.load(Ordering::Relaxed), st.runs, st.keys.len(), st.traces.len(), t0.elapsed().as_secs_f64());
    rc
}
