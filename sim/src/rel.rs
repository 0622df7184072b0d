//! The release script: the real bash runs the real release.sh in a scratch directory where git,
//! cargo and sed are this program, working on a simulated repository and failing to plan.
use crate::ctx::{lossy, Ctx, Outcome, Plan, Stats};
use crate::prng::{mix, Rng};
use crate::scenario::{hex, unhex, Sc};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" { fn kill(p: i32, s: i32) -> i32; fn getpgrp() -> i32; fn getpid() -> i32; fn getuid() -> u32; fn signal(s: i32, h: usize) -> usize; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }

type Tree = BTreeMap<String, Vec<u8>>;
fn tree_text(t: &Tree) -> String { t.iter().map(|(k, v)| format!("{}={}", hex(k.as_bytes()), hex(v))).collect::<Vec<_>>().join(",") }
fn text_tree(s: &str) -> Tree { s.split(',').filter_map(|e| e.split_once('=')).map(|(k, v)| (String::from_utf8_lossy(&unhex(k)).into_owned(), unhex(v))).collect() }
#[derive(Default, Clone, Debug)]
struct Commit { id: String, msg: String, tree: Tree }
#[derive(Default, Clone, Debug)]
struct Tag { name: String, commit: String, msg: String, signed: bool }
#[derive(Default, Clone, Debug)]
struct Model { commits: Vec<Commit>, tags: Vec<Tag>, index: Tree }
impl Model {
    fn text(&self) -> String {
        let mut o = String::new();
        for c in &self.commits { o.push_str(&format!("commit {} {} {}\n", c.id, hex(c.msg.as_bytes()), tree_text(&c.tree))); }
        for t in &self.tags { o.push_str(&format!("tag {} {} {} {}\n", hex(t.name.as_bytes()), t.commit, hex(t.msg.as_bytes()), u8::from(t.signed))); }
        o.push_str(&format!("index {}\n", tree_text(&self.index)));
        o
    }
    fn parse(s: &str) -> Model {
        let mut m = Model::default();
        let st = |x: &str| String::from_utf8_lossy(&unhex(x)).into_owned();
        for l in s.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "commit" if w.len() > 3 => m.commits.push(Commit { id: w[1].into(), msg: st(w[2]), tree: text_tree(w[3]) }),
                "tag" if w.len() > 4 => m.tags.push(Tag { name: st(w[1]), commit: w[2].into(), msg: st(w[3]), signed: w[4] == "1" }),
                "index" if w.len() > 1 => m.index = text_tree(w[1]),
                _ => {}
            }
        }
        m
    }
    fn head(&self) -> &Commit { self.commits.last().unwrap() }
}
fn worktree(d: &Path) -> Tree {
    fn go(base: &Path, d: &Path, t: &mut Tree) {
        let Ok(l) = fs::read_dir(d) else { return };
        for e in l.flatten() {
            let p = e.path();
            let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if n == ".git" || n == "target" { continue; } // what .gitignore hides
            let Ok(ft) = e.file_type() else { continue };
            if ft.is_dir() { go(base, &p, t); } else if ft.is_file() { t.insert(n, fs::read(&p).unwrap_or_default()); }
        }
    }
    let mut t = Tree::new();
    go(d, d, &mut t);
    t
}

// ---------------------------------------------------------------- the stand-ins
/// The version a manifest states.
fn version_of(t: &[u8]) -> String { String::from_utf8_lossy(t).lines().find_map(|l| l.strip_prefix("version = \"").and_then(|x| x.split('"').next()).map(str::to_string)).unwrap_or_default() }
fn changelog(tag: &str, seed: &str) -> String { format!("# Changelog\n\n{}\n## [0.4.2] - 2022-10-25\n\nolder entries\n", notes(tag, seed)) }
fn notes(tag: &str, seed: &str) -> String { format!("## [{tag}]\n\n### Features\n\n- Change number {seed} with \"quotes\", $dollars and `ticks`\n- *(cli)* Another\n") }
/// The name by which the program was started decides whether it is a stand-in.
pub fn stub() -> Option<i32> {
    let dir = std::env::var_os("SIMREL_DIR")?;
    let arg0 = std::env::args_os().next()?;
    let name = Path::new(&arg0).file_name()?.to_string_lossy().into_owned();
    if !matches!(name.as_str(), "git" | "cargo" | "sed" | "gpg" | "gh" | "sleep") { return None; }
    let args: Vec<String> = std::env::args_os().skip(1).map(|a| a.to_string_lossy().into_owned()).collect();
    Some(act(&name, &args, Path::new(&dir)))
}
/// Whether this process is part of a pipeline or a command substitution (and not a command of its own).
fn piped() -> bool { use std::os::unix::fs::FileTypeExt; ["/proc/self/fd/0", "/proc/self/fd/1"].iter().any(|p| fs::metadata(p).is_ok_and(|m| m.file_type().is_fifo())) }
/// What a command stands for in the release, or "other".
fn role(name: &str, a: &[String]) -> &'static str {
    let first = |k: usize| a.iter().filter(|x| !x.starts_with('-') && !x.starts_with('+')).nth(k).map_or("", String::as_str);
    match name {
        "sed" => if a.iter().any(|x| x.starts_with("-i") || x == "--in-place" || x.ends_with('i') && x.starts_with('-') && !x.starts_with("--")) || a.iter().any(|x| x.ends_with("Cargo.toml")) && !piped() { "version" } else { "other" },
        "cargo" => match first(0) { "fmt" => "format", "clippy" | "check" | "build" | "test" => "lint", _ => "other" },
        "git" => match first(0) {
            "status" | "diff" | "diff-index" => "status",
            "cliff" => if a.iter().any(|x| x == "--unreleased" || x == "-u") { "notes" } else { "changelog" },
            "add" | "stage" => "add", "commit" => "commit",
            "tag" => if a.iter().any(|x| x == "-v" || x == "--verify") { "verify" } else if a.iter().any(|x| x == "-d" || x == "--delete" || x == "-l" || x == "--list") { "other" } else if first(1).is_empty() { "other" } else { "tag" },
            _ => "other",
        },
        _ => "other",
    }
}
fn act(name: &str, a: &[String], dir: &Path) -> i32 {
    let plan = fs::read_to_string(dir.join("plan")).unwrap_or_default();
    let field = |k: &str| plan.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix(' '))).map(str::to_string);
    let seed = field("seed").unwrap_or_default();
    let role = role(name, a);
    // a filter in a pipeline runs at the same time as its neighbours: numbering it would make the count depend on the
    // host's scheduling, so it is the real program and neither counted nor made to fail
    if name == "sed" && role == "other" { use std::os::unix::process::CommandExt; let _ = Command::new("/usr/bin/sed").args(a).exec(); return 127; }
    let logp = dir.join("log");
    let log = fs::read_to_string(&logp).unwrap_or_default();
    let k = log.lines().filter(|l| l.starts_with("run ")).count();
    let fault = plan.lines().filter_map(|l| l.strip_prefix("fault ")).map(|l| l.split(' ').collect::<Vec<_>>()).find(|w| w[0] == k.to_string()).map(|w| w[1].to_string());
    let mut line = format!("run {k} {role} {} {}", hex(format!("{name} {}", a.join(" ")).as_bytes()), fault.as_deref().unwrap_or("-"));
    line.push('\n');
    use std::io::Write;
    if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(&logp) { let _ = f.write_all(line.as_bytes()); }
    let main = unsafe { getpgrp() };
    let die = |sig: i32| -> ! { unsafe { signal(sig, 0); kill(getpid(), sig); } std::process::exit(128 + sig) };
    let (effect, end) = match fault.as_deref() { None => (2, ""), Some(f) => { let (e, n) = f.split_once(':').unwrap_or(("none", "exit1")); (match e { "none" => 0, "part" => 1, _ => 2 }, n) } };
    // a shared repository may change under the script
    let rc = if effect > 0 { work(name, role, a, dir, &seed, effect == 1, &field) } else { 0 };
    let _ = std::io::stdout().flush();
    match end {
        "" => rc,
        "killscript" => { unsafe { kill(main, 9); } 0 }
        "termgroup" => { unsafe { signal(15, 0); kill(-main, 15); } std::thread::sleep(Duration::from_millis(500)); die(9) }
        "intgroup" => { unsafe { signal(2, 0); kill(-main, 2); } std::thread::sleep(Duration::from_millis(500)); die(9) }
        e if e.starts_with("sig") => die(e[3..].parse().unwrap_or(9)),
        e => e.trim_start_matches("exit").parse().unwrap_or(1),
    }
}
fn work(name: &str, role: &str, a: &[String], dir: &Path, seed: &str, part: bool, field: &dyn Fn(&str) -> Option<String>) -> i32 {
    let cwd = PathBuf::from(".");
    let mp = dir.join("model");
    let mut m = Model::parse(&fs::read_to_string(&mp).unwrap_or_default());
    let say = |s: &str| { use std::io::Write; let b = s.as_bytes(); let b = if part { &b[..b.len() / 2] } else { b }; let _ = std::io::stdout().write_all(b); };
    let has = |x: &str| a.iter().any(|y| y == x);
    let opt = |names: &[&str]| -> Vec<String> { let mut v = vec![]; let mut i = 0; while i < a.len() { for n in names { if a[i] == *n { if let Some(x) = a.get(i + 1) { v.push(x.clone()); } } else if n.starts_with("--") { if let Some(x) = a[i].strip_prefix(&format!("{n}=")) { v.push(x.into()); } } } i += 1; } v };
    let pos = |k: usize| -> String { let mut v = vec![]; let mut i = 0; while i < a.len() { if ["-m", "--message", "--tag", "-t", "--strip", "-F", "-u"].contains(&a[i].as_str()) && name == "git" { i += 2; continue; } if !a[i].starts_with('-') { v.push(a[i].clone()); } i += 1; } v.get(k).cloned().unwrap_or_default() };
    let mut rc = 0;
    match (name, role) {
        ("sed", _) => {
            if part {
                let inplace = a.iter().any(|x| x.starts_with("-i") || x == "--in-place");
                if !inplace { if let Ok(o) = Command::new("/usr/bin/sed").args(a).output() { use std::io::Write; let _ = std::io::stdout().write_all(&o.stdout[..o.stdout.len() / 2]); } }
                return 0;
            }
            return match Command::new("/usr/bin/sed").args(a).status() { Ok(s) => s.code().unwrap_or(1), Err(_) => 127 };
        }
        ("cargo", "format") => {
            let bad = field("unformatted").is_some();
            if bad && has("--check") { say("Diff in src/main.rs at line 1\n"); return 1; }
            if bad { let _ = fs::write("src/main.rs", "fn main() {}\n"); }
        }
        ("cargo", "lint") => {
            if field("lint").is_some() { say("error: could not compile `pemv`\n"); return 101; }
            let v = version_of(&fs::read("Cargo.toml").unwrap_or_default());
            if !part && !v.is_empty() { let _ = fs::write("Cargo.lock", format!("[[package]]\nname = \"pemv\"\nversion = \"{v}\"\n")); }
        }
        ("git", "changelog") | ("git", "notes") => {
            let tag = opt(&["--tag", "-t"]).pop().unwrap_or_else(|| "unreleased".into());
            let t = if role == "notes" { notes(&tag, seed) } else { changelog(&tag, seed) };
            let out = opt(&["--output", "-o"]).pop();
            if let Some(o) = out { let n = if part { t.len() / 2 } else { t.len() }; if fs::write(o, &t.as_bytes()[..n]).is_err() { return 1; } } else { say(&t); }
        }
        ("git", "status") => {
            let w = worktree(&cwd);
            let mut o = String::new();
            let untracked = !has("-uno") && !has("--untracked-files=no") && pos(0) == "status";
            for (p, d) in &w { match m.index.get(p) { None => if untracked { o.push_str(&format!("?? {p}\n")); }, Some(x) if x != d => o.push_str(&format!(" M {p}\n")), _ => if m.head().tree.get(p) != m.index.get(p) { o.push_str(&format!("M  {p}\n")) } } }
            for p in m.index.keys() { if !w.contains_key(p) { o.push_str(&format!(" D {p}\n")); } }
            if pos(0) == "status" { say(&o); } else { if !has("--quiet") { say(&o); } if has("--quiet") || has("--exit-code") { rc = i32::from(!o.is_empty()); } }
        }
        ("git", "add") => {
            let w = worktree(&cwd);
            let paths: Vec<String> = a.iter().filter(|x| !x.starts_with('-')).skip(1).cloned().collect();
            let all = has("-A") || has("--all") || paths.iter().any(|p| p == "." || p == "*" || p == ":/");
            if part { if let Some(p) = w.keys().next() { m.index.insert(p.clone(), w[p].clone()); } }
            else if all { m.index = w; }
            else if has("-u") { for (p, d) in w { if m.index.contains_key(&p) { m.index.insert(p, d); } } }
            else { for p in paths { let p = p.trim_start_matches("./").to_string(); match w.get(&p) { Some(d) => { m.index.insert(p, d.clone()); } None => { eprintln!("fatal: pathspec '{p}' did not match any files"); rc = 128; } } } }
        }
        ("git", "commit") => {
            if a.iter().any(|x| x == "-a" || x == "--all" || x == "-am") { for (p, d) in worktree(&cwd) { if m.index.contains_key(&p) { m.index.insert(p, d); } } }
            if m.index == m.head().tree { say("nothing to commit, working tree clean\n"); return 1; }
            let mut msgs = opt(&["-m", "--message"]);
            msgs.extend(opt(&["-am"]));
            let id = format!("{:016x}", mix(m.commits.iter().fold(7, |h, c| mix(h ^ c.tree.len() as u64 ^ c.msg.len() as u64)) ^ m.commits.len() as u64));
            m.commits.push(Commit { id: id.clone(), msg: msgs.join("\n\n"), tree: m.index.clone() });
            say(&format!("[master {}] {}\n", &id[..7], msgs.first().cloned().unwrap_or_default()));
        }
        ("git", "tag") => {
            let n = pos(1);
            if m.tags.iter().any(|t| t.name == n) && !has("-f") && !has("--force") { eprintln!("fatal: tag '{n}' already exists"); return 128; }
            m.tags.retain(|t| t.name != n);
            let to = pos(2);
            let commit = if to.is_empty() || to == "HEAD" { m.head().id.clone() } else if to.starts_with("HEAD~") || to.starts_with("HEAD^") { m.commits.iter().rev().nth(1).map_or(String::new(), |c| c.id.clone()) } else { to };
            let mut msgs = opt(&["-m", "--message"]);
            for f in opt(&["-F", "--file"]) { msgs.push(if f == "-" { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut s); s } else { fs::read_to_string(f).unwrap_or_default() }); }
            m.tags.push(Tag { name: n, commit, msg: msgs.join("\n\n"), signed: a.iter().any(|x| x == "--sign" || x == "-u" || (x.starts_with('-') && !x.starts_with("--") && x.contains('s'))) });
        }
        ("git", "verify") => {
            let n = pos(1);
            match m.tags.iter().find(|t| t.name == n) { Some(t) if t.signed => eprintln!("gpg: Good signature from \"U\"\ntag {n}"), Some(_) => { eprintln!("error: no signature found"); rc = 1; } None => { eprintln!("error: tag '{n}' not found."); rc = 1; } }
        }
        ("git", _) => match pos(0).as_str() {
            "show" => say(&format!("commit {}\n    {}\n", m.head().id, m.head().msg)),
            "rev-parse" => if has("-q") || has("--verify") || pos(1) != "HEAD" { let n = pos(1).trim_start_matches("refs/tags/").to_string(); let n = n.split("^{").next().unwrap_or("").to_string(); if n == "HEAD" { say(&format!("{}\n", m.head().id)); } else if let Some(t) = m.tags.iter().find(|t| t.name == n) { say(&format!("{}\n", t.commit)); } else if has("--is-inside-work-tree") { say("true\n"); } else if has("--show-toplevel") { say(&format!("{}\n", std::env::current_dir().unwrap_or_default().display())); } else if has("--abbrev-ref") { say("master\n"); } else { rc = 128; } } else { say(&format!("{}\n", m.head().id)); },
            "tag" => if has("-d") || has("--delete") { let n = pos(1); let k = m.tags.len(); m.tags.retain(|t| t.name != n); rc = i32::from(m.tags.len() == k); } else { for t in &m.tags { let p = pos(1); if p.is_empty() || p == t.name { say(&format!("{}\n", t.name)); } } },
            "verify-tag" => { let n = pos(1); rc = i32::from(!m.tags.iter().any(|t| t.name == n && t.signed)); }
            "branch" => say("master\n"),
            "log" => for c in m.commits.iter().rev() { say(&format!("{} {}\n", c.id, c.msg)); },
            _ => {}
        },
        _ => {}
    }
    let tmp = dir.join("model.new");
    if fs::write(&tmp, m.text()).is_ok() { let _ = fs::rename(&tmp, &mp); }
    rc
}

// ---------------------------------------------------------------- driving it
const TOOLS: &[&str] = &["cat", "grep", "egrep", "awk", "head", "tail", "cut", "tr", "mktemp", "date", "basename", "dirname", "tee", "sort", "uniq", "wc", "env", "true", "false", "test", "[", "printf", "echo", "ls", "diff", "cmp", "xargs", "bash", "sh", "touch", "mkdir", "seq", "expr", "paste", "fold", "readlink", "realpath", "stat", "id", "whoami", "nl", "tac", "comm", "sha256sum"];
const TOOLS_UNPRIV: &[&str] = &["rm", "mv", "cp", "ln", "rmdir", "install", "perl"];
pub struct Rel { base: PathBuf, script: PathBuf, manifest: Vec<u8>, unpriv: bool }
impl Drop for Rel { fn drop(&mut self) { let b = self.base.to_string_lossy().into_owned(); if b.starts_with("/tmp/pemvsim-rel-") { let _ = fs::remove_dir_all(&self.base); } } }
#[derive(Clone, Debug)]
pub struct RelRes { pub cmds: Vec<(String, String, String)>, pub out: String, pub end: String, model: Model, cargo: Vec<u8>, pub digest: u64 }
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Rel {
    pub fn new(repo: &str) -> Result<Rel, String> {
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = PathBuf::from(format!("/tmp/pemvsim-rel-{}-{n}", unsafe { getpid() }));
        let e = |x: std::io::Error| format!("scratch directory: {x}");
        // orphans of a killed script come to us, so that their end can be awaited
        unsafe { prctl(36, 1, 0, 0, 0); }
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(base.join("bin")).map_err(e)?;
        fs::create_dir_all(base.join("run")).map_err(e)?;
        let me = std::env::current_exe().map_err(e)?;
        fs::copy(&me, base.join("standin")).map_err(e)?;
        fs::set_permissions(base.join("standin"), fs::Permissions::from_mode(0o755)).map_err(e)?;
        let script = base.join("release.sh");
        fs::copy(format!("{repo}/release.sh"), &script).map_err(|x| format!("{repo}/release.sh: {x}"))?;
        fs::set_permissions(&script, fs::Permissions::from_mode(0o755)).map_err(e)?;
        let manifest = fs::read(format!("{repo}/Cargo.toml")).map_err(e)?;
        let mut r = Rel { base, script, manifest, unpriv: false };
        if unsafe { getuid() } == 0 {
            r.unpriv = Command::new("/bin/true").uid(65534).gid(65534).env_clear().stdin(Stdio::null()).status().is_ok_and(|s| s.success());
        } else { r.unpriv = true; }
        for t in ["git", "cargo", "sed", "gpg", "gh", "sleep"] { std::os::unix::fs::symlink("../standin", r.base.join("bin").join(t)).map_err(e)?; }
        for t in TOOLS.iter().chain(if r.unpriv { TOOLS_UNPRIV } else { &[] }) { for d in ["/usr/bin", "/bin"] { let p = Path::new(d).join(t); if p.exists() { let _ = std::os::unix::fs::symlink(&p, r.base.join("bin").join(t)); break; } } }
        Ok(r)
    }
    pub fn run(&self, p: &Plan) -> Result<RelRes, String> {
        let e = |x: std::io::Error| format!("scratch directory: {x}");
        let run = self.base.join("run");
        let _ = fs::remove_dir_all(&run);
        let work = run.join("repo");
        fs::create_dir_all(work.join("src")).map_err(e)?;
        fs::create_dir_all(work.join("target")).map_err(e)?; // there after any build
        let mut t = Tree::new();
        t.insert("Cargo.toml".into(), self.manifest.clone());
        let old = version_of(&self.manifest);
        t.insert("Cargo.lock".into(), format!("[[package]]\nname = \"pemv\"\nversion = \"{old}\"\n").into_bytes());
        t.insert("CHANGELOG.md".into(), b"# Changelog\n\nolder entries\n".to_vec());
        t.insert("src/main.rs".into(), if p.get("unformatted").is_some() { b"fn main( ){ }\n".to_vec() } else { b"fn main() {}\n".to_vec() });
        t.insert("release.sh".into(), fs::read(&self.script).map_err(e)?);
        let mut m = Model { commits: vec![Commit { id: "0000000000000001".into(), msg: "feat: earlier".into(), tree: t.clone() }], tags: vec![], index: t.clone() };
        m.tags.push(Tag { name: format!("v{old}"), commit: "0000000000000001".into(), msg: "old".into(), signed: true });
        if p.get("tagexists").is_some() { if let Some(tag) = p.get("tag") { if !tag.is_empty() { m.tags.push(Tag { name: tag.into(), commit: "0000000000000001".into(), msg: "theirs".into(), signed: true }); } } }
        match p.get("dirty") { Some("modified") => { t.insert("src/main.rs".into(), b"fn main() { todo!() }\n".to_vec()); } Some("untracked") => { t.insert("notes.txt".into(), b"draft\n".to_vec()); } Some("staged") => { t.insert("src/main.rs".into(), b"fn main() { }\n".to_vec()); m.index = t.clone(); } Some("deleted") => { t.remove("src/main.rs"); } Some("changelog") => { t.insert("CHANGELOG.md".into(), b"edited\n".to_vec()); } _ => {} }
        for (k, v) in &t { fs::write(work.join(k), v).map_err(e)?; }
        if p.get("nochangelog").is_some() { let _ = fs::remove_file(work.join("CHANGELOG.md")); fs::create_dir(work.join("CHANGELOG.md")).map_err(e)?; m.commits[0].tree.remove("CHANGELOG.md"); m.index.remove("CHANGELOG.md"); }
        let mut plan = format!("seed {}\n", p.get("seed").unwrap_or("1"));
        for k in ["unformatted", "lint"] { if p.get(k).is_some() { plan.push_str(&format!("{k} 1\n")); } }
        for f in p.all("fault") { plan.push_str(&format!("fault {f}\n")); }
        fs::write(run.join("plan"), plan).map_err(e)?;
        fs::write(run.join("model"), m.text()).map_err(e)?;
        fs::write(run.join("log"), "").map_err(e)?;
        let open = |f: &str| fs::File::create(run.join(f)).map_err(e);
        if self.unpriv && unsafe { getuid() } == 0 {
            fn own(p: &Path) { let _ = std::os::unix::fs::chown(p, Some(65534), Some(65534)); if p.is_dir() { if let Ok(l) = fs::read_dir(p) { for e in l.flatten() { own(&e.path()); } } } }
            own(&run);
        }
        let mut c = Command::new("/usr/bin/bash");
        fs::set_permissions(work.join("release.sh"), fs::Permissions::from_mode(0o755)).map_err(e)?;
        c.arg(work.join("release.sh"));
        if let Some(t) = p.get("tag") { c.arg(t); }
        c.current_dir(&work).env_clear().env("PATH", self.base.join("bin")).env("HOME", &run).env("TMPDIR", &run).env("SIMREL_DIR", &run).env("LC_ALL", "C").env("TERM", "dumb");
        c.stdin(Stdio::null()).stdout(open("out")?).stderr(open("err")?).process_group(0);
        if self.unpriv && unsafe { getuid() } == 0 { c.gid(65534).uid(65534); }
        let mut ch = c.spawn().map_err(e)?;
        let pg = ch.id() as i32;
        let t0 = Instant::now();
        let mut st = None;
        while st.is_none() {
            st = ch.try_wait().map_err(e)?;
            if st.is_none() { if t0.elapsed() > Duration::from_secs(20) { unsafe { kill(-pg, 9); } let _ = ch.wait(); break; } std::thread::sleep(Duration::from_micros(300)); }
        }
        // whatever the script left running finishes or is ended
        loop {
            let w = unsafe { waitpid(-pg, std::ptr::null_mut(), 1) };
            if w < 0 { break; }
            if t0.elapsed() > Duration::from_secs(22) { unsafe { kill(-pg, 9); } }
            if t0.elapsed() > Duration::from_secs(25) { break; }
            if w == 0 { std::thread::sleep(Duration::from_micros(200)); }
        }
        let end = match st { None => "hung".to_string(), Some(s) => { use std::os::unix::process::ExitStatusExt; match s.code() { Some(c) => format!("exit {c}"), None => format!("signal {}", s.signal().unwrap_or(0)) } } };
        let log = fs::read_to_string(run.join("log")).unwrap_or_default();
        let cmds: Vec<(String, String, String)> = log.lines().filter_map(|l| { let w: Vec<&str> = l.split(' ').collect(); if w.len() == 5 { Some((w[2].into(), String::from_utf8_lossy(&unhex(w[3])).replace(&*self.base.to_string_lossy(), "<scratch>"), w[4].into())) } else { None } }).collect();
        let out = String::from_utf8_lossy(&fs::read(run.join("out")).unwrap_or_default()).into_owned();
        let model = Model::parse(&fs::read_to_string(run.join("model")).unwrap_or_default());
        let cargo = fs::read(work.join("Cargo.toml")).unwrap_or_default();
        let mut d = 11u64;
        for b in format!("{cmds:?}{out}{end}{}", model.text()).bytes() { d = mix(d ^ u64::from(b)); }
        Ok(RelRes { cmds, out, end, model, cargo, digest: d })
    }
}
fn rel(c: &mut Ctx) -> Result<(), String> { if c.rel.is_none() { c.rel = Some(Rel::new(&c.w.exe)?); } Ok(()) }
fn run(c: &mut Ctx, p: &Plan) -> Result<RelRes, String> {
    rel(c)?;
    let r = c.rel.as_ref().unwrap().run(p)?;
    if c.selfcheck { let q = c.rel.as_ref().unwrap().run(p)?; if q.digest != r.digest && c.mismatch.is_none() { c.mismatch = Some(format!("{}{:?}\n{:?}", p.text(), r, q)); } }
    let st = &mut c.st;
    st.runs += 1; st.steps += r.cmds.len() as u64; st.traces.insert(r.digest);
    st.shapes.insert(r.cmds.iter().fold(3, |h, x| { let mut h = h; for b in x.0.bytes().chain(x.2.bytes()) { h = mix(h ^ u64::from(b)); } h }));
    Stats::bump(&mut st.ends, &r.end, 1);
    for x in &r.cmds { if x.2 != "-" { Stats::bump(&mut st.fired, &format!("{}: {}", x.0, x.2), 1); } }
    if c.verbose { println!("--- release.sh {}: {}", p.get("tag").unwrap_or("(no tag)"), r.end); for x in &r.cmds { println!("    {} [{}]{}", lossy(x.1.as_bytes(), 160), x.0, if x.2 == "-" { String::new() } else { format!(" *{}", x.2) }); } }
    Ok(r)
}
pub fn trace(c: &mut Ctx, p: &Plan) -> (String, String) {
    match run(c, p) { Ok(r) => (format!("# Commands of the run (*fault); it ended with: {}\n{}# Output: {}\n", r.end, r.cmds.iter().map(|x| format!("#   {} [{}] {}\n", lossy(x.1.as_bytes(), 200), x.0, if x.2 == "-" { String::new() } else { format!("*{}", x.2) })).collect::<String>(), lossy(r.out.as_bytes(), 600)), format!("{:016x}", r.digest)), Err(e) => (format!("# {e}\n"), String::new()) }
}
pub fn describe(p: &Plan) -> String {
    let mut o = format!("release.sh {}", p.get("tag").map_or("(no tag)".to_string(), |t| format!("'{t}'")));
    for (k, v) in &p.kv { if !matches!(k.as_str(), "tag" | "seed") { o.push_str(&format!(" [{k} {v}]")); } }
    o
}

// ---------------------------------------------------------------- cases and judgement
const ENDS: &[&str] = &["exit1", "exit1", "exit2", "exit127", "exit128", "exit101", "sig15", "sig9", "sig2", "sig13", "killscript", "termgroup", "intgroup"];
pub fn plans(i: u64, r: &mut Rng, c: &mut Ctx) -> Result<Vec<Plan>, String> {
    let tag = format!("v{}.{}.{}{}", r.below(3), r.below(20), r.range(3, 40), r.pick(&["", "", "", "-rc.1", "-beta"]));
    let tag = if r.chance(1, 12) { tag[1..].to_string() } else { tag };
    let mut p = Plan::new("C14", "release", Sc::default()).with("seed", &r.below(100_000).to_string());
    if !r.chance(1, 40) { p = p.with("tag", if r.chance(1, 60) { "" } else { &tag }); }
    match r.below(12) {
        0 => p = p.with("dirty", r.pick(&["modified", "untracked", "staged", "deleted", "changelog"])),
        1 => p = p.with("unformatted", "1"), 2 => p = p.with("lint", "1"), 3 if r.chance(1, 2) => p = p.with("tagexists", "1"), 4 if r.chance(1, 2) => p = p.with("nochangelog", "1"),
        _ => {}
    }
    p.kind = "as is".into();
    let base = run(c, &p)?;
    let mut v = vec![p.clone()];
    let n = base.cmds.len();
    if n == 0 { return Ok(v); }
    for k in 0..4 {
        let mut q = p.clone();
        q.kind = "faults".into();
        let at = if k == 0 { (i as usize) % n } else { r.us(n) };
        q = q.with("fault", &format!("{at} {}:{}", r.pick(&["none", "part", "done"]), r.pick(ENDS)));
        if r.chance(1, 5) { let b = r.us(n + 1); if b != at { q = q.with("fault", &format!("{b} {}:{}", r.pick(&["none", "part", "done"]), r.pick(ENDS))); } }
        v.push(q);
    }
    Ok(v)
}
const NEEDED: &[&str] = &["status", "version", "format", "lint", "changelog", "add", "commit", "notes"];
pub fn eval(p: &Plan, c: &mut Ctx) -> Result<Outcome, String> {
    let r = run(c, p)?;
    // what success says, learnt from an undisturbed release
    let mut good = Plan::new("C14", "as is", Sc::default()).with("seed", "1").with("tag", "v9.9.9");
    good.kind = "as is".into();
    // (the line that speaks of success, or else the last one)
    let said = match &c.said { Some(s) => s.clone(), None => { let g = run(c, &good)?; let own = |l: &&str| !l.trim().is_empty() && l.to_lowercase().contains("success"); let s = g.out.lines().rfind(own).or(g.out.lines().rfind(|l| !l.trim().is_empty())).unwrap_or("").to_string(); c.said = Some(s.clone()); s } };
    let tag = p.get("tag").unwrap_or("");
    let preexisting = p.get("tagexists").is_some();
    let t = r.model.tags.iter().find(|t| t.name == tag && !tag.is_empty());
    let fired: Vec<&(String, String, String)> = r.cmds.iter().filter(|x| x.2 != "-").collect();
    let success = !said.is_empty() && r.out.lines().any(|l| l == said.replace("v9.9.9", tag).replace("9.9.9", tag.trim_start_matches('v')));
    let hit: Vec<&str> = fired.iter().filter(|x| NEEDED.contains(&x.0.as_str())).map(|x| x.0.as_str()).collect();
    // a command that did its work and then only the script was killed has not failed
    let failed: Vec<&str> = fired.iter().filter(|x| NEEDED.contains(&x.0.as_str()) && x.2 != "done:killscript").map(|x| x.0.as_str()).collect();
    let bad = |c: &str, m: String| Ok(Outcome::bad(c, m));
    if r.end == "hung" { return bad("hung", "the release script did not end".into()); }
    let natural = if tag.is_empty() { Some("no tag was given") } else if p.get("dirty").is_some() { Some("the tree was not clean") } else if p.get("unformatted").is_some() { Some("the formatting check fails") } else if p.get("lint").is_some() { Some("the lint check fails") } else if p.get("nochangelog").is_some() { Some("the changelog cannot be written") } else { None };
    let new = r.model.tags.iter().filter(|t| t.name != format!("v{}", version_of(&c.rel.as_ref().unwrap().manifest)) && !(preexisting && t.msg == "theirs")).collect::<Vec<_>>();
    if !new.is_empty() {
        if let Some(w) = natural { return bad("tag", format!("a tag was created although {w}")); }
        if let Some(f) = failed.first() { return bad("tag", format!("a tag was created although the {f} step failed ({})", hit.len())); }
        if new.len() > 1 { return bad("tags", format!("{} tags were created", new.len())); }
        if new[0].name != tag { return bad("name", format!("the tag is named '{}'", new[0].name)); }
        let t = new[0];
        let Some(cm) = r.model.commits.iter().find(|x| x.id == t.commit) else { return bad("commit", "the tag names no commit".into()) };
        if t.commit == "0000000000000001" || cm.id != r.model.head().id { return bad("commit", "the tag does not name the release commit".into()); }
        let v = tag.strip_prefix('v').unwrap_or(tag);
        let f = |n: &str| cm.tree.get(n).cloned().unwrap_or_default();
        if version_of(&f("Cargo.toml")) != v { return bad("version", format!("the tagged commit states version {}", version_of(&f("Cargo.toml")))); }
        if version_of(&f("Cargo.lock")) != v { return bad("lock", format!("the tagged commit locks version {}", version_of(&f("Cargo.lock")))); }
        let seed = p.get("seed").unwrap_or("1");
        if f("CHANGELOG.md") != changelog(tag, seed).as_bytes() { return bad("changelog", format!("the tagged commit's changelog is \"{}\"", lossy(&f("CHANGELOG.md"), 200))); }
        if !t.msg.contains(notes(tag, seed).trim_end()) { return bad("notes", format!("the tag's notes are \"{}\"", lossy(t.msg.as_bytes(), 200))); }
        if !t.signed { return bad("signature", "the tag is not signed".into()); }
        for w in ["format", "lint"] { if !r.cmds.iter().any(|x| x.0 == w) { return bad("checks", format!("tagged without the {w} check")); } }
    }
    if preexisting && natural.is_none() && !t.is_some_and(|t| t.msg == "theirs") { return bad("overwrite", "the existing tag of that name was replaced".into()); }
    if success {
        if let Some(w) = natural { return bad("message", format!("success was reported although {w}")); }
        if preexisting { return bad("message", "success was reported although the tag existed before".into()); }
        if let Some(f) = fired.iter().find(|x| (NEEDED.contains(&x.0.as_str()) || matches!(x.0.as_str(), "tag" | "verify")) && !x.2.starts_with("done:killscript")) { return bad("message", format!("success was reported although the {} step failed", f.0)); }
        if new.is_empty() { return bad("message", "success was reported without a tag".into()); }
    }
    if natural.is_none() && !preexisting && fired.is_empty() {
        if new.is_empty() { return bad("release", format!("nothing failed and no tag was created ({})", r.end)); }
        if !success { return bad("release", format!("nothing failed and success was not reported ({})", r.end)); }
    }
    if natural.is_some_and(|w| w.starts_with("no tag") || w.starts_with("the tree")) && (r.model.commits.len() > 1 || r.cargo != c.rel.as_ref().unwrap().manifest) { return bad("refuse", format!("the script went to work although {}", natural.unwrap())); }
    let mut h = r.digest;
    for b in p.text().bytes() { h = mix(h ^ u64::from(b)); }
    Ok(if fired.is_empty() && natural.is_none() && !preexisting && p.kind == "faults" { Outcome::trivial() } else { Outcome::fine(h) })
}
pub fn shrinks(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.kv.len() { if p.kv[i].0 == "tag" || p.kv[i].0 == "seed" { continue; } let mut q = p.clone(); q.kv.remove(i); v.push(q); }
    for i in 0..p.kv.len() { if p.kv[i].0 == "fault" { let (a, f) = p.kv[i].1.split_once(' ').unwrap_or(("0", "none:exit1")); for g in ["none:exit1", "done:exit1"] { if f != g && f != "none:exit1" { let mut q = p.clone(); q.kv[i].1 = format!("{a} {g}"); v.push(q); } } } }
    if p.get("tag").is_some_and(|t| t != "v1.0.0" && !t.is_empty()) { let mut q = p.clone(); for k in &mut q.kv { if k.0 == "tag" { k.1 = "v1.0.0".into(); } } v.push(q); }
    if p.get("seed") != Some("1") { let mut q = p.clone(); for k in &mut q.kv { if k.0 == "seed" { k.1 = "1".into(); } } v.push(q); }
    v
}
