//! Running scenarios with accounting; plans; outcomes.
use crate::prng::mix;
use crate::scenario::{hex, unhex, Sc};
use crate::world::{End, Res, World};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64, pub runs: u64, pub steps: u64, pub sim_ns: u64, pub fired: BTreeMap<String, u64>, pub ends: BTreeMap<String, u64>, pub kinds: BTreeMap<String, u64>,
    pub traces: HashSet<u64>, pub shapes: HashSet<u64>, pub keys: HashSet<u64>, pub samples: Vec<String>, pub notes: BTreeMap<String, u64>, pub max: BTreeMap<String, u64>,
}
impl Stats {
    pub fn bump(m: &mut BTreeMap<String, u64>, k: &str, n: u64) { if let Some(v) = m.get_mut(k) { *v += n; } else { m.insert(k.into(), n); } }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals; self.runs += o.runs; self.steps += o.steps; self.sim_ns += o.sim_ns;
        for (k, v) in o.fired { *self.fired.entry(k).or_default() += v; }
        for (k, v) in o.ends { *self.ends.entry(k).or_default() += v; }
        for (k, v) in o.kinds { *self.kinds.entry(k).or_default() += v; }
        for (k, v) in o.notes { *self.notes.entry(k).or_default() += v; }
        for (k, v) in o.max { let e = self.max.entry(k).or_default(); *e = (*e).max(v); }
        self.traces.extend(o.traces); self.shapes.extend(o.shapes); self.keys.extend(o.keys);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
    }
    pub fn note(&mut self, k: &str) { Stats::bump(&mut self.notes, k, 1); }
    pub fn high(&mut self, k: &str, v: u64) { let e = self.max.entry(k.into()).or_default(); *e = (*e).max(v); }
}
pub fn errname(e: i64) -> String {
    match e { 4 => "EINTR".into(), 5 => "EIO".into(), 9 => "EBADF".into(), 11 => "EAGAIN".into(), 12 => "ENOMEM".into(), 13 => "EACCES".into(), 20 => "ENOTDIR".into(), 21 => "EISDIR".into(), 23 => "ENFILE".into(), 24 => "EMFILE".into(), 25 => "ENOTTY".into(), 27 => "EFBIG".into(), 28 => "ENOSPC".into(), 32 => "EPIPE".into(), 40 => "ELOOP".into(), 116 => "ESTALE".into(), 122 => "EDQUOT".into(), n => format!("errno{n}") }
}
pub fn endname(e: &End) -> String { match e { End::Exit(c) => format!("exit {c}"), End::Signal(s) => format!("signal {s}"), End::SimKill => "killed".into(), End::Steps => "step budget".into(), End::Mem => "memory budget".into(), End::Output => "output budget".into(), End::Deadlock => "deadlock".into() } }

pub struct Ctx { pub w: World, pub other: Option<World>, pub st: Stats, cache: HashMap<u64, Rc<Res>>, pub verbose: bool, pub selfcheck: bool, pub mismatch: Option<String>, pub rel: Option<crate::rel::Rel>, pub said: Option<String> }
fn hash(b: &[u8]) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for c in b.chunks(8) { let mut v = 0u64; for x in c { v = v << 8 | u64::from(*x); } h = mix(h ^ v ^ (c.len() as u64) << 60); } h }
impl Ctx {
    pub fn new(w: World) -> Ctx { Ctx { w, other: None, st: Stats::default(), cache: HashMap::new(), verbose: false, selfcheck: false, mismatch: None, rel: None, said: None } }
    pub fn forget(&mut self) { self.cache.clear(); }
    /// A run whose result several plans of one case share (reference runs).
    pub fn reference(&mut self, s: &Sc) -> Result<Rc<Res>, String> {
        let k = hash(s.wire().as_bytes());
        if let Some(r) = self.cache.get(&k) { return Ok(r.clone()); }
        let r = Rc::new(self.run(s)?);
        self.cache.insert(k, r.clone());
        Ok(r)
    }
    pub fn run(&mut self, s: &Sc) -> Result<Res, String> {
        let r = self.w.run(s)?;
        if self.selfcheck { let q = self.w.run(s)?; if q.digest() != r.digest() && self.mismatch.is_none() { self.mismatch = Some(s.wire()); } }
        let st = &mut self.st;
        st.runs += 1; st.steps += r.steps; st.sim_ns += r.simtime_ns;
        st.traces.insert(r.tracehash); st.shapes.insert(r.shapehash);
        Stats::bump(&mut st.ends, &endname(&r.end), 1);
        for (i, f) in s.faults.iter().enumerate() { let n = u64::from(r.fired[i.min(255)]); if n > 0 { let k = if f.kind == "short" { format!("{} short transfer", f.cls) } else if f.kind == "delay" { format!("{} answered late", f.cls) } else { format!("{} {}", f.cls, errname(f.arg)) }; Stats::bump(&mut st.fired, &k, n); } }
        for c in &s.caps { let n = u64::from(r.capfired[c.fd as usize]); if n > 0 { Stats::bump(&mut st.fired, &format!("fd{} {} after a byte count{}", c.fd, errname(c.err.into()), if c.oneshot { ", once" } else { "" }), n); } }
        if r.killfired > 0 { if let Some(k) = &s.kill { Stats::bump(&mut st.fired, &format!("signal {} at a step", k.sig), 1); } }
        if r.oomfired > 0 { Stats::bump(&mut st.fired, "failed allocation", r.oomfired.into()); }
        if r.editsfired > 0 { Stats::bump(&mut st.fired, "concurrent change of a file", r.editsfired.into()); }
        if s.cjump.is_some() { Stats::bump(&mut st.fired, "clock jump armed", 1); }
        if s.cwd_err != 0 { Stats::bump(&mut st.fired, "working directory gone", 1); }
        for n in &s.nodes { if n.open_err != 0 && r.probes.iter().all(|(k, p)| *k != 'R' || p != n.path.as_bytes()) { Stats::bump(&mut st.fired, &format!("file with open error {}", errname(n.open_err.into())), 1); } if n.search_err != 0 { Stats::bump(&mut st.fired, "unsearchable directory", 1); } }
        if self.verbose {
            println!("--- run: {}", describe(s));
            println!("    end: {}; {} steps, {} bytes on stdout, {} on stderr", r.end, r.steps, r.out.len(), r.err.len());
            if !r.err.is_empty() { println!("    stderr: {}", lossy(&r.err, 600)); }
        }
        Ok(r)
    }
}
pub fn lossy(b: &[u8], max: usize) -> String { let s: String = b.iter().take(max).map(|c| if (0x20..0x7f).contains(c) { (*c as char).to_string() } else if *c == b'\n' { "\\n".into() } else if *c == b'\t' { "\\t".into() } else { format!("\\x{c:02x}") }).collect(); if b.len() > max { format!("{s}...({} bytes)", b.len()) } else { s } }
pub fn describe(s: &Sc) -> String {
    let mut o = String::new();
    for (k, v) in &s.env { if k.starts_with(b"PEMV_") || k == b"TERM" || k == b"NO_COLOR" { o.push_str(&format!("{}={} ", lossy(k, 60), lossy(v, 80))); } }
    for a in &s.argv { o.push_str(&lossy(a, 160)); o.push(' '); }
    if s.fd[1] != 'p' { o.push_str(&format!("[stdout {}] ", s.fd[1])); }
    for f in &s.faults { o.push_str(&if f.kind == "delay" { format!("[{} #{}+{} takes {} ms] ", f.cls, f.from, f.count, f.arg) } else if f.kind == "short" { format!("[{} #{}+{} transfers {} byte(s)] ", f.cls, f.from, f.count, f.arg) } else { format!("[{} #{}+{} fails {}] ", f.cls, f.from, f.count, errname(f.arg)) }); }
    for c in &s.caps { o.push_str(&format!("[fd{} fails {} after {} bytes{}{}] ", c.fd, errname(c.err.into()), c.bytes, if c.oneshot { " once" } else { "" }, if c.partial { " short first" } else { "" })); }
    if let Some(k) = &s.kill { o.push_str(&format!("[signal {} at step {}{}] ", k.sig, k.step, if k.part >= 0 { format!(" after {} bytes of that write", k.part) } else { String::new() })); }
    if let Some((a, n)) = s.oom { o.push_str(&format!("[allocation {a}+{n} fails] ")); }
    for e in &s.edits { o.push_str(&format!("[step {}: {} {}] ", e.step, match e.op { 'r' => "replace", 'c' => "create", 'u' => "remove", 'w' => "rewrite", _ => "make directory" }, e.path)); }
    if s.cwd_err != 0 { o.push_str("[cwd gone] "); }
    for n in &s.nodes { if n.t != 'd' || n.open_err != 0 || n.search_err != 0 { o.push_str(&format!("[{} {}{}{}] ", match n.t { 'f' => "file", 'l' => "link", 'p' => "fifo", 'd' => "dir", 's' => "socket", 'c' => "chardev", _ => "dev" }, n.path, if n.open_err != 0 { format!(" open fails {}", errname(n.open_err.into())) } else { String::new() }, if n.search_err != 0 { " unsearchable" } else { "" })); } }
    o.trim_end().to_string()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan { pub prop: String, pub kind: String, pub sc: Sc, pub kv: Vec<(String, String)> }
impl Plan {
    pub fn new(prop: &str, kind: &str, sc: Sc) -> Plan { Plan { prop: prop.into(), kind: kind.into(), sc, kv: vec![] } }
    pub fn with(mut self, k: &str, v: &str) -> Plan { self.kv.push((k.into(), v.into())); self }
    pub fn get(&self, k: &str) -> Option<&str> { self.kv.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }
    pub fn all<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a str> + 'a { self.kv.iter().filter(move |x| x.0 == k).map(|x| x.1.as_str()) }
    pub fn text(&self) -> String {
        let mut o = format!("plan {} {}\n", self.prop, self.kind);
        for (k, v) in &self.kv { o.push_str(&format!("kv {} {}\n", k, hex(v.as_bytes()))); }
        for l in self.sc.wire().lines() { o.push_str("sc "); o.push_str(l); o.push('\n'); }
        o
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan::new("", "", Sc::default());
        let mut w = String::new();
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("plan ") { let mut i = x.split_whitespace(); p.prop = i.next()?.into(); p.kind = i.next()?.into(); }
            else if let Some(x) = l.strip_prefix("kv ") { let (k, v) = x.split_once(' ')?; p.kv.push((k.into(), String::from_utf8(unhex(v)).ok()?)); }
            else if let Some(x) = l.strip_prefix("sc ") { w.push_str(x); w.push('\n'); }
        }
        p.sc = Sc::parse(&w)?;
        if p.prop.is_empty() { None } else { Some(p) }
    }
    pub fn hash(&self) -> u64 { hash(self.text().as_bytes()) }
}
#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub msg: String, pub finding: Option<&'static str> }
#[derive(Default)]
pub struct Outcome { pub viol: Option<Viol>, pub key: Option<u64> }
impl Outcome {
    pub fn fine(key: u64) -> Outcome { Outcome { viol: None, key: Some(key) } }
    pub fn trivial() -> Outcome { Outcome::default() }
    pub fn bad(class: &str, msg: String) -> Outcome { Outcome { viol: Some(Viol { class: class.into(), msg, finding: None }), key: None } }
}
