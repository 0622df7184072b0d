//! Client side of the fork server: one `World` runs scenarios one after another
//! in fresh forks of the real program under the simulated kernel (shim.c).
use crate::scenario::Sc;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const CLASSES: [&str; 16] = ["wout", "werr", "wfile", "rfile", "rstdin", "open", "stat", "getcwd", "ioctl", "poll", "fstat", "random", "close", "readlink", "mmap", "other"];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End { Exit(i32), Signal(i32), SimKill, Steps, Mem, Output, Deadlock }
impl End {
    pub fn ok(&self) -> bool { *self == End::Exit(0) }
}
impl std::fmt::Display for End {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            End::Exit(c) => write!(f, "exit status {c}"), End::Signal(s) => write!(f, "died of signal {s}"), End::SimKill => write!(f, "killed by the simulator"),
            End::Steps => write!(f, "still running after the step budget"), End::Mem => write!(f, "exceeded the memory budget"), End::Output => write!(f, "exceeded the output budget"), End::Deadlock => write!(f, "blocked for ever"),
        }
    }
}
#[allow(dead_code)]
#[derive(Clone, Debug)]
pub struct Res {
    pub end: End, pub steps: u64, pub nalloc: u64, pub peak: u64, pub tracehash: u64, pub shapehash: u64, pub simtime_ns: u64, pub slept: u64,
    pub counts: [u32; 16], pub fired: Vec<u32>, pub capfired: [u32; 3], pub oomfired: u32, pub killfired: u32, pub editsfired: u32, pub nthreads: u32, pub switches: u32, pub unknown: u32, pub steps_at_fault: u64,
    pub out: Vec<u8>, pub err: Vec<u8>, pub trace: Vec<u8>, pub effects: Vec<String>, pub probes: Vec<(char, Vec<u8>)>, pub wlog: Vec<u8>,
}
impl Res {
    pub fn count(&self, c: &str) -> u64 { CLASSES.iter().position(|x| *x == c).map_or(0, |i| self.counts[i].into()) }
    /// A digest of everything observable, for determinism comparisons.
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut f = |b: &[u8]| for x in b { h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3); };
        f(&self.out); f(b"|"); f(&self.err); f(format!("|{:?}|{}|{}|{}|{}", self.end, self.steps, self.nalloc, self.peak, self.tracehash).as_bytes()); f(&self.wlog);
        h
    }
    pub fn any_fault_fired(&self) -> bool { self.fired.iter().any(|x| *x > 0) || self.capfired.iter().any(|x| *x > 0) || self.oomfired > 0 || self.killfired > 0 }
}

pub struct World { pub exe: String, shim: String, legacy: bool, proc_: Option<(Child, ChildStdin, ChildStdout)> }
impl Drop for World { fn drop(&mut self) { self.stop(); } }

extern "C" { fn personality(p: u64) -> i32; }

impl World {
    pub fn new(exe: &str, shim: &str) -> World { World { exe: exe.into(), shim: shim.into(), legacy: false, proc_: None } }
    pub fn stop(&mut self) { if let Some((mut c, i, o)) = self.proc_.take() { drop(i); drop(o); let _ = c.kill(); let _ = c.wait(); } }
    fn start(&mut self) -> Result<(), String> {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new(&self.exe);
        c.env_clear().env("LD_PRELOAD", &self.shim).env("PEMVSIM_SERVER", "1").current_dir("/").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit());
        let legacy = self.legacy;
        // SAFETY: personality is async-signal-safe
        unsafe { c.pre_exec(move || { let p = 0x004_0000 | if legacy { 0x020_0000 } else { 0 }; if personality(p) < 0 { return Err(std::io::Error::last_os_error()); } Ok(()) }); }
        let mut ch = c.spawn().map_err(|e| format!("cannot start {}: {e}", self.exe))?;
        let i = ch.stdin.take().unwrap();
        let o = ch.stdout.take().unwrap();
        self.proc_ = Some((ch, i, o));
        Ok(())
    }
    pub fn run(&mut self, s: &Sc) -> Result<Res, String> {
        if self.proc_.is_none() { self.start()?; }
        let w = s.wire();
        match self.exchange(w.as_bytes()) {
            Ok(r) => Ok(r),
            Err(e) => { self.stop(); Err(e) }
        }
    }
    fn exchange(&mut self, req: &[u8]) -> Result<Res, String> {
        let (_, i, o) = self.proc_.as_mut().unwrap();
        let io = |e: std::io::Error| format!("simulation server lost: {e}");
        i.write_all(&(req.len() as u32).to_le_bytes()).map_err(io)?;
        i.write_all(req).map_err(io)?;
        i.flush().map_err(io)?;
        let mut b4 = [0u8; 4];
        o.read_exact(&mut b4).map_err(io)?;
        let mut h = vec![0u8; u32::from_le_bytes(b4) as usize];
        o.read_exact(&mut h).map_err(io)?;
        let mut p = 0usize;
        let mut u32_ = || { let v = u32::from_le_bytes(h[p..p + 4].try_into().unwrap()); p += 4; v };
        let magic = u32_();
        if magic != 0x5045_4d56 { return Err("bad response".into()); }
        let endkind = u32_(); let code = u32_() as i32; let st = u32_();
        let mut q = [0u64; 14];
        for v in &mut q { let lo = u32_(); let hi = u32_(); *v = u64::from(lo) | u64::from(hi) << 32; }
        let mut counts = [0u32; 16];
        for v in &mut counts { *v = u32_(); }
        let fired: Vec<u32> = (0..256).map(|_| u32_()).collect();
        let capfired = [u32_(), u32_(), u32_()];
        let (oomfired, killfired, editsfired, _trunc, nthreads, switches, unknown) = (u32_(), u32_(), u32_(), u32_(), u32_(), u32_(), u32_());
        if p % 8 != 0 { p += 4; }
        let steps_at_fault = u64::from_le_bytes(h[p..p + 8].try_into().unwrap());
        let slept = u64::from_le_bytes(h[p + 8..p + 16].try_into().unwrap());
        let mut secs = vec![];
        for k in 8..14 { let mut v = vec![0u8; q[k] as usize]; o.read_exact(&mut v).map_err(io)?; secs.push(v); }
        let mut it = secs.into_iter();
        let (out, err, trace, eff, prb, wlog) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        let end = match endkind {
            0 => if st & 0x7f != 0 { End::Signal((st & 0x7f) as i32) } else { return Err(format!("run ended outside the simulation, wait status {st:#x}")) },
            1 => End::Exit(code), 2 => End::SimKill, 3 => End::Steps, 4 => End::Mem, 5 => End::Output, 6 => End::Deadlock,
            k => return Err(format!("simulator error {k}/{code}")),
        };
        Ok(Res {
            end, steps: q[0], nalloc: q[1], peak: q[2], tracehash: q[5], shapehash: q[6], simtime_ns: q[7], counts, fired, capfired, oomfired, killfired, editsfired, nthreads, switches, unknown, steps_at_fault, slept,
            out, err, trace, effects: String::from_utf8_lossy(&eff).lines().map(str::to_owned).collect(),
            probes: prb.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(|l| (l[0] as char, l[1..].to_vec())).collect(), wlog,
        })
    }
}
