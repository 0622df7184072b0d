//! A scenario: everything that decides one simulated run. Its text form is both
//! the request sent to the simulated world and what a replay file contains.
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() { return "-".into(); }
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push(D[(x >> 4) as usize] as char); s.push(D[(x & 15) as usize] as char); }
    s
}
pub fn hexu(b: &[u8]) -> String { if b.is_empty() { String::new() } else { hex(b).to_uppercase() } }
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    let b = s.as_bytes();
    b.chunks(2).filter(|c| c.len() == 2).map(|c| {
        let v = |x: u8| match x { b'0'..=b'9' => x - b'0', b'a'..=b'f' => x - b'a' + 10, b'A'..=b'F' => x - b'A' + 10, _ => 0 };
        v(c[0]) << 4 | v(c[1])
    }).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node { pub t: char, pub path: String, pub open_err: i32, pub stat_err: i32, pub search_err: i32, pub data: Vec<u8> }
impl Node {
    pub fn dir(p: &str) -> Node { Node { t: 'd', path: p.into(), open_err: 0, stat_err: 0, search_err: 0, data: vec![] } }
    pub fn file(p: &str, d: &[u8]) -> Node { Node { t: 'f', data: d.to_vec(), ..Node::dir(p) } }
    pub fn link(p: &str, to: &str) -> Node { Node { t: 'l', data: to.as_bytes().to_vec(), ..Node::dir(p) } }
    pub fn special(p: &str, t: char) -> Node { Node { t, ..Node::dir(p) } }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fault { pub cls: String, pub from: u64, pub count: u64, pub kind: String, pub arg: i64 }
impl Fault {
    pub fn err(cls: &str, from: u64, count: u64, e: i32) -> Fault { Fault { cls: cls.into(), from, count, kind: "err".into(), arg: e.into() } }
    /// The call is answered only after so many milliseconds.
    pub fn delay(cls: &str, from: u64, count: u64, ms: i64) -> Fault { Fault { cls: cls.into(), from, count, kind: "delay".into(), arg: ms } }
    pub fn short(cls: &str, from: u64, count: u64, n: i64) -> Fault { Fault { cls: cls.into(), from, count, kind: "short".into(), arg: n } }
}
/// File names are bytes: those that are not UTF-8 are kept as private-use characters U+F700 + byte.
pub fn raw(p: &str) -> Vec<u8> { let mut v = vec![]; for c in p.chars() { let n = c as u32; if (0xF780..=0xF7FF).contains(&n) { v.push((n - 0xF700) as u8); } else { let mut b = [0; 4]; v.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); } } v }
pub fn cooked(b: &[u8]) -> String { let mut o = String::new(); for c in b.utf8_chunks() { o.push_str(c.valid()); for x in c.invalid() { o.push(char::from_u32(0xF700 + u32::from(*x)).unwrap_or('?')); } } o }
#[derive(Clone, Debug, PartialEq)]
pub struct Cap { pub fd: u8, pub bytes: u64, pub err: i32, pub oneshot: bool, pub partial: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct Kill { pub step: u64, pub sig: i32, pub part: i64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Edit { pub step: u64, pub op: char, pub path: String, pub data: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
pub struct Sc {
    pub argv: Vec<Vec<u8>>, pub env: Vec<(Vec<u8>, Vec<u8>)>, pub cwd: String, pub cwd_err: i32, pub nodes: Vec<Node>, pub fd: [char; 3],
    pub stdin: Vec<u8>, pub win: (u32, u32), pub faults: Vec<Fault>, pub caps: Vec<Cap>, pub kill: Option<Kill>, pub edits: Vec<Edit>,
    pub seed: u64, pub sched: u64, pub clock: (i64, i64, i64), pub cjump: Option<(i64, i64)>, pub pid: i64, pub uid: i64, pub cpus: u32,
    pub heap: u64, pub stackoff: u64, pub attr: u64, pub lim: (u64, u64, u64, u64), pub oom: Option<(u64, u64)>,
}
pub const MAXCOUNT: u64 = 1_000_000_000;
impl Default for Sc {
    fn default() -> Self {
        Sc { argv: vec![b"pemv".to_vec()], env: vec![], cwd: "/work".into(), cwd_err: 0, nodes: vec![Node::dir("/work")], fd: ['n', 'p', 'p'], stdin: vec![], win: (24, 80),
            faults: vec![], caps: vec![], kill: None, edits: vec![], seed: 1, sched: 1, clock: (1_700_000_000, 0, 1000), cjump: None, pid: 4242, uid: 1000, cpus: 4,
            heap: 0, stackoff: 0, attr: 0, lim: (400_000, 512 << 20, 8 << 20, 30), oom: None }
    }
}
impl Sc {
    pub fn arg(mut self, a: &str) -> Self { self.argv.push(a.as_bytes().to_vec()); self }
    pub fn args(mut self, v: &[Vec<u8>]) -> Self { self.argv.extend_from_slice(v); self }
    pub fn setenv(&mut self, k: &str, v: &[u8]) { self.env.retain(|e| e.0 != k.as_bytes()); self.env.push((k.as_bytes().to_vec(), v.to_vec())); }
    pub fn getenv(&self, k: &str) -> Option<&[u8]> { self.env.iter().find(|e| e.0 == k.as_bytes()).map(|e| e.1.as_slice()) }
    /// Adds a node, its missing parent directories included; replaces one already at that path.
    pub fn add(&mut self, n: Node) {
        let mut p = String::new();
        let parts: Vec<&str> = n.path.split('/').filter(|x| !x.is_empty()).collect();
        for c in &parts[..parts.len().saturating_sub(1)] {
            p.push('/'); p.push_str(c);
            if !self.nodes.iter().any(|x| x.path == p) { self.nodes.push(Node::dir(&p)); }
        }
        self.nodes.retain(|x| x.path != n.path);
        self.nodes.push(n);
    }
    pub fn has(&self, p: &str) -> bool { p == "/" || self.nodes.iter().any(|x| x.path == p) }
    pub fn clear_faults(&mut self) { self.faults.clear(); self.caps.clear(); self.kill = None; self.oom = None; }
    pub fn without_faults(&self) -> Sc { let mut s = self.clone(); s.clear_faults(); s }
    pub fn wire(&self) -> String {
        use std::fmt::Write;
        let mut o = String::new();
        for a in &self.argv { let _ = writeln!(o, "argv {}", hex(a)); }
        for (k, v) in &self.env { let mut e = k.clone(); e.push(b'='); e.extend_from_slice(v); let _ = writeln!(o, "env {}", hex(&e)); }
        let _ = writeln!(o, "cwd {}", hex(&raw(&self.cwd)));
        if self.cwd_err != 0 { let _ = writeln!(o, "cwderr {}", self.cwd_err); }
        for n in &self.nodes { let _ = writeln!(o, "node {} {} {} {} {} {}", n.t, hex(&raw(&n.path)), n.open_err, n.stat_err, n.search_err, hex(&n.data)); }
        for i in 0..3 { let _ = writeln!(o, "fd {} {}", i, self.fd[i]); }
        if !self.stdin.is_empty() { let _ = writeln!(o, "stdin {}", hex(&self.stdin)); }
        let _ = writeln!(o, "win {} {}", self.win.0, self.win.1);
        for f in &self.faults { let _ = writeln!(o, "fault {} {} {} {} {}", f.cls, f.from, f.count, f.kind, f.arg); }
        for c in &self.caps { let _ = writeln!(o, "cap {} {} {} {} {}", c.fd, c.bytes, c.err, u8::from(c.oneshot), u8::from(c.partial)); }
        if let Some(k) = &self.kill { let _ = writeln!(o, "kill {} {} {}", k.step, k.sig, k.part); }
        for e in &self.edits { let _ = writeln!(o, "edit {} {} {} {}", e.step, e.op, hex(&raw(&e.path)), hex(&e.data)); }
        let _ = writeln!(o, "seed {}\nsched {}\nclock {} {} {}", self.seed, self.sched, self.clock.0, self.clock.1, self.clock.2);
        if let Some(c) = self.cjump { let _ = writeln!(o, "cjump {} {}", c.0, c.1); }
        let _ = writeln!(o, "pid {}\nuid {}\ncpus {}\nheap {}\nstackoff {}\nlim {} {} {} {}", self.pid, self.uid, self.cpus, self.heap, self.stackoff, self.lim.0, self.lim.1, self.lim.2, self.lim.3);
        if self.attr != 0 { let _ = writeln!(o, "attr {}", self.attr); }
        if let Some(x) = self.oom { let _ = writeln!(o, "oom {} {}", x.0, x.1); }
        o
    }
    pub fn parse(t: &str) -> Option<Sc> {
        let mut s = Sc { argv: vec![], nodes: vec![], ..Sc::default() };
        let st = |x: &str| Some(cooked(&unhex(x)));
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() { continue; }
            let n = |i: usize| -> i64 { w.get(i).and_then(|x| x.parse::<i64>().ok().or_else(|| x.parse::<u64>().ok().map(|v| v as i64))).unwrap_or(0) };
            let u = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) };
            match w[0] {
                "argv" => s.argv.push(unhex(w.get(1)?)),
                "env" => { let e = unhex(w.get(1)?); let i = e.iter().position(|b| *b == b'=')?; s.env.push((e[..i].to_vec(), e[i + 1..].to_vec())); }
                "cwd" => s.cwd = st(w.get(1)?)?,
                "cwderr" => s.cwd_err = n(1) as i32,
                "node" => s.nodes.push(Node { t: w.get(1)?.chars().next()?, path: st(w.get(2)?)?, open_err: n(3) as i32, stat_err: n(4) as i32, search_err: n(5) as i32, data: unhex(w.get(6)?) }),
                "fd" => s.fd[n(1) as usize] = w.get(2)?.chars().next()?,
                "stdin" => s.stdin = unhex(w.get(1)?),
                "win" => s.win = (n(1) as u32, n(2) as u32),
                "fault" => s.faults.push(Fault { cls: (*w.get(1)?).into(), from: u(2), count: u(3), kind: (*w.get(4)?).into(), arg: n(5) }),
                "cap" => s.caps.push(Cap { fd: n(1) as u8, bytes: u(2), err: n(3) as i32, oneshot: n(4) == 1, partial: n(5) == 1 }),
                "kill" => s.kill = Some(Kill { step: u(1), sig: n(2) as i32, part: n(3) }),
                "edit" => s.edits.push(Edit { step: u(1), op: w.get(2)?.chars().next()?, path: st(w.get(3)?)?, data: unhex(w.get(4)?) }),
                "seed" => s.seed = u(1), "sched" => s.sched = u(1), "clock" => s.clock = (n(1), n(2), n(3)), "cjump" => s.cjump = Some((n(1), n(2))),
                "pid" => s.pid = n(1), "uid" => s.uid = n(1), "cpus" => s.cpus = n(1) as u32, "heap" => s.heap = u(1), "stackoff" => s.stackoff = u(1), "attr" => s.attr = u(1),
                "lim" => s.lim = (u(1), u(2), u(3), u(4)), "oom" => s.oom = Some((u(1), u(2))),
                _ => return None,
            }
        }
        Some(s)
    }
}
