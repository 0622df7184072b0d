//! What each property means for a simulated run: `plans` draws cases, `eval` decides one.
use crate::cfg::{self, Layer, Settings};
use crate::ctx::{lossy, Ctx, Outcome, Plan, Viol};
use crate::gen::{self, Expect, Want};
use crate::prng::Rng;
use crate::scenario::{raw, unhex, Cap, Edit, Fault, Kill, Node, Sc, MAXCOUNT};
use crate::tlv::{self, Format, Parsed};
use crate::world::{End, Res};

pub const EINTR: i32 = 4;
const EIO: i32 = 5;
const EAGAIN: i32 = 11;
const EACCES: i32 = 13;
const ENOSPC: i32 = 28;
const EPIPE: i32 = 32;

type R<T> = Result<T, String>;
fn prefix(a: &[u8], b: &[u8]) -> bool { a.len() <= b.len() && b[..a.len()] == *a }
fn at_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let f = i.saturating_sub(30);
    format!("first difference at byte {i}: got \"{}\", expected \"{}\"", lossy(&a[f.min(a.len())..], 70), lossy(&b[f.min(b.len())..], 70))
}
fn key(p: &Plan, r: &Res) -> u64 { crate::prng::mix(p.hash() ^ r.tracehash) }

// ---------------------------------------------------------------- building blocks
/// An operation with settings from random sources in a random world.
fn invocation(r: &mut Rng, op: &gen::Op, with_file: bool) -> (Sc, Settings) {
    let mut s = gen::world(r);
    let profile = *r.pick(&["default", "default", "release"]);
    let layers = if r.chance(1, 3) { vec![] } else { cfg::rand_layers(r, op.tlv, with_file, profile) };
    if profile != "default" { s.setenv("PEMV_PROFILE", profile.as_bytes()); }
    let has_file = layers.iter().any(|l| l.src.starts_with("file:"));
    let path = if r.chance(1, 3) { let p = format!("{}/settings.toml", r.pick(&["/etc", "/home/u", "/work"])); if has_file { s.setenv("PEMV_CONFIG", p.as_bytes()); } p } else { format!("{}/pemv.toml", s.cwd) };
    cfg::apply(&mut s, &op.args, &layers, &path, r.u64() >> 1, has_file);
    (s, cfg::resolve(&layers, profile))
}
/// Interruptions and short transfers, placed where the reference run made such calls.
fn benign(r: &mut Rng, base: &Res) -> Vec<Fault> {
    let mut v = vec![];
    let n = *r.pick(&[1, 1, 1, 2, 3, 6]);
    for _ in 0..n {
        let cls = match r.below(12) { 0..=5 => "wout", 6 => "werr", 7..=9 => "rfile", 10 => "open", _ => *r.pick(&["random", "poll", "rfile", "wout"]) };
        let c = base.count(cls);
        if c == 0 { continue; }
        let from = if r.chance(1, 6) { 0 } else if r.chance(1, 6) { c - 1 } else { r.below(c + 2) };
        let cnt = match r.below(8) { 0..=4 => 1, 5 => 2 + r.below(3), 6 => 1 + r.below(60), _ => if r.chance(1, 2) { MAXCOUNT } else { 300 } };
        let short = matches!(cls, "wout" | "werr" | "rfile") && r.chance(1, 2);
        if short { v.push(Fault::short(cls, from, cnt, r.range(1, 40) as i64)); } else { v.push(Fault::err(cls, from, cnt.min(400), EINTR)); }
    }
    if v.is_empty() { v.push(if r.chance(1, 2) { Fault::err("wout", 0, 1, EINTR) } else { Fault::short("wout", 0, MAXCOUNT, 1) }); }
    v
}
/// A machine that takes its time: calls that return late, a clock that runs on between them.
fn slow(r: &mut Rng, t: &mut Sc) {
    for _ in 0..1 + r.us(3) { let cls = *r.pick(&["open", "rfile", "wout", "werr", "stat", "getcwd", "poll"]); let at = r.logu(12); let (n, ms) = *r.pick(&[(1, 60), (1, 1_500), (1, 600_000), (1, 90_000_000), (4, 20_000), (4, 4_000_000), (MAXCOUNT, 1), (MAXCOUNT, 1_500)]); t.faults.push(Fault::delay(cls, at, n, ms)); }
    if r.chance(1, 2) { t.clock.2 = r.logu(60_000_000_000) as i64 + 1; }
}
/// A block on which all three settings show: unsorted tags, a value wholly made of each masking character.
pub fn reveal(r: &mut Rng) -> Vec<u8> {
    let mut tags: Vec<&[u8]> = vec![&[0x5A], &[0x57], &[0x9F, 0x26], &[0x4F], &[0x50], &[0x84], &[0x9F, 0x02], &[0x5F, 0x20], &[0x9A], &[0x81], &[0x9F, 0x37]];
    r.shuffle(&mut tags);
    let mut vals: Vec<Vec<u8>> = cfg::MASKS.iter().map(|m| vec![*m as u8; 2 + r.us(4)]).collect();
    vals.push(r.bytes(3)); vals.push(vec![]);
    r.shuffle(&mut vals);
    let n: Vec<tlv::TNode> = tags.iter().zip(vals).map(|(t, v)| tlv::TNode { tag: t.to_vec(), val: tlv::Val::Prim(v), lenform: 0 }).collect();
    let mut n = n;
    if r.chance(1, 2) { let k = r.us(n.len() - 2); let c = n.split_off(k + 2); n.insert(r.us(k + 1), tlv::TNode { tag: vec![*r.pick(&[0x70u8, 0x61, 0xE0])], val: tlv::Val::Cons(c), lenform: 0 }); }
    tlv::enc(&n)
}
fn reveal_args(r: &mut Rng) -> (Format, String, Vec<Vec<u8>>) {
    let b = reveal(r);
    let f = *r.pick(&[Format::Ber, Format::Ber, Format::Auto, Format::Ing]);
    let t = if f == Format::Ing { let c = tlv::GenCfg { mask_rate: 0, masks: vec!['\u{1}'], ..tlv::gen_cfg(r) }; let n = tlv::to_tree(&b).unwrap_or_default(); tlv::ing_text(r, &n, &c) } else { tlv::hex_text(r, &b) };
    (f, t.clone(), gen::tlv_args(r, f, &t))
}
fn fmtname(f: Format) -> &'static str { match f { Format::Ber => "ber", Format::Ing => "ing", Format::Auto => "auto" } }
fn fmtof(s: &str) -> Format { match s { "ing" => Format::Ing, "auto" => Format::Auto, _ => Format::Ber } }

fn is_tty_auto(s: &Sc) -> bool { s.fd[1] == 't' && !s.faults.iter().any(|f| f.cls == "ioctl") }
fn term_ok(s: &Sc) -> bool { s.getenv("TERM").is_some_and(|t| t != b"dumb") && s.getenv("NO_COLOR").is_none() }
fn wants_colour(s: &Sc, colour: &str) -> bool { match colour { "always" | "ansi" => true, "auto" => is_tty_auto(s) && term_ok(s), _ => false } }
pub fn has_esc(b: &[u8]) -> bool { b.contains(&0x1b) }
/// Is the last attribute change in the output a reset (or is there none)?
fn ends_reset(b: &[u8]) -> bool {
    let mut i = 0; let mut clean = true;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && !(0x40..=0x7e).contains(&b[j]) { j += 1; }
            if j >= b.len() { return false; }
            if b[j] == b'm' { let p = &b[i + 2..j]; clean = p.is_empty() || p == b"0"; }
            i = j;
        }
        i += 1;
    }
    clean
}
fn bad_end(r: &Res) -> bool { !r.end.ok() }

// ---------------------------------------------------------------- plans
pub fn plans(prop: &str, i: u64, r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut v = raw_plans(prop, i, r, c)?;
    // C09 and C10 do this on their own, C05 with configuration files
    if !matches!(prop, "C05" | "C09" | "C10" | "C14") && r.chance(1, 6) { provoke(r, c, &mut v)?; }
    Ok(v)
}
/// Gives all runs of a case what the program asked its surroundings for without finding it.
fn provoke(r: &mut Rng, c: &mut Ctx, v: &mut [Plan]) -> R<()> {
    let Some(first) = v.first() else { return Ok(()) };
    let base = c.reference(&shown(first).without_faults())?;
    let mut t = first.sc.clone();
    enrich(r, &mut t, &base, true);
    // a variable that a dotenv file mentions is one of its settings
    let named = |k: &[u8]| first.prop == "C15" && first.sc.nodes.iter().any(|n| k.is_empty() || n.data.windows(k.len()).any(|w| w == k));
    let env: Vec<_> = t.env.iter().filter(|e| !first.sc.env.contains(e) && !named(&e.0)).cloned().collect();
    let wanted: Vec<String> = if first.prop == "C15" { [OUT_MAN, OUT_COMP].iter().filter_map(|k| want_dir(&first.sc, k)).collect() } else { vec![] };
    let nodes: Vec<Node> = t.nodes.iter().filter(|n| !first.sc.has(&n.path) && !wanted.iter().any(|d| n.path.starts_with(d.as_str()) || d.starts_with(&n.path))).cloned().collect();
    if env.is_empty() && nodes.is_empty() { return Ok(()); }
    for p in v {
        for e in &env { p.sc.setenv(&String::from_utf8_lossy(&e.0), &e.1); }
        for n in &nodes { if !p.sc.has(&n.path) { p.sc.add(n.clone()); } }
    }
    c.st.note("cases in surroundings that answer what the program asks for");
    Ok(())
}
fn raw_plans(prop: &str, i: u64, r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    match prop {
        "C01" => c01(r, c), "C02" => c02(r, c), "C03" => c03(r, i), "C04" => c04(r), "C05" => c05(r, c), "C06" => c06(r, c), "C07" => c07(r, c), "C08" => c08(r, c),
        "C09" => c09(r, c), "C10" => c10(r, c), "C11" => c11(r, i), "C12" => c12(r), "C13" => c13(r, c), "C14" => crate::rel::plans(i, r, c), "C15" => c15(r, c), "C16" => c16(r, c), "C17" => c17(r, c), "C18" => c18(r, c), "C19" => c19(r, c), "C24" => c24(r, c), "C25" => c25(r, c), "C26" => c26(r, c), "C27" => c27(r, c), "C21" => c21(r, c), _ => Err(format!("unknown property {prop}")),
    }
}
fn big_op(r: &mut Rng) -> gen::Op {
    // reports longer than any buffer on the way
    let mut c = gen::small_cfg(r);
    c.max_nodes = 60; c.max_val = 300; c.max_depth = 6;
    gen::tlv_op(r, &c, Want::Accept)
}
fn c01(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let op = match r.below(12) { 0 => gen::other_op(r), 1 => big_op(r), _ => gen::any_op(r, Want::Any) };
    let (mut s, _) = if op.name == "other" { let mut s = gen::world(r); s.argv.extend(op.args.clone()); (s, Settings::default()) } else { invocation(r, &op, true) };
    if r.chance(1, 25) { // an unusable configuration must stay unusable in the same way
        let p = format!("{}/pemv.toml", s.cwd);
        s.env.retain(|e| e.0 != b"PEMV_CONFIG");
        s.add(Node::file(&p, r.pick(&["[default]\ncli_colour = 5\n", "[default\n", "top = 1\n", "[default]\ncli_colour = \"mauve\"\n"]).as_bytes()));
    }
    let base = c.reference(&s)?;
    let mut v = vec![];
    for _ in 0..5 {
        let mut t = s.clone();
        t.faults = benign(r, &base);
        if r.chance(1, 4) { t.cjump = Some((r.below(4) as i64, r.range(0, 2_000_000_000) as i64 - 1_000_000_000)); }
        if r.chance(1, 3) { slow(r, &mut t); }
        v.push(Plan::new("C01", "benign", t));
    }
    if r.chance(1, 8) && base.count("wout") > 0 && base.count("wout") < 400 { // every write in turn, systematically
        for k in 0..base.count("wout").min(12) { let mut t = s.clone(); let at = if base.count("wout") > 12 { r.below(base.count("wout")) } else { k }; t.faults = vec![if r.chance(1, 2) { Fault::err("wout", at, 1, EINTR) } else { Fault::short("wout", at, 1, 1) }]; v.push(Plan::new("C01", "benign", t)); }
    }
    Ok(v)
}
fn breakdown(r: &mut Rng, c: &mut Ctx, colour: Option<bool>) -> R<Option<(Sc, std::rc::Rc<Res>)>> {
    for _ in 0..8 {
        let op = match r.below(12) { 0 => big_op(r), _ => gen::any_op(r, Want::Accept) };
        let (mut s, _) = invocation(r, &op, true);
        if let Some(on) = colour { s.argv.retain(|a| !a.starts_with(b"--colo")); s.argv.retain(|a| !cfg::COLOURS.iter().any(|c| c.as_bytes() == a.as_slice())); s.argv.push(if on { b"--colour=always".to_vec() } else { b"--colour=never".to_vec() }); }
        let base = c.reference(&s)?;
        if base.end.ok() && !base.out.is_empty() { return Ok(Some((s, base))); }
    }
    Ok(None)
}
fn c02(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let colour = match r.below(5) { 0 => Some(true), 1 | 2 => Some(false), _ => None };
    let Some((s, base)) = breakdown(r, c, colour)? else { return Ok(vec![]) };
    let n = base.out.len() as u64;
    let w = base.count("wout");
    let mut v = vec![];
    for _ in 0..6 {
        let mut t = s.clone();
        let e = *r.pick(&[ENOSPC, ENOSPC, EPIPE, EPIPE, EIO, EAGAIN, 27, 122, 12, 6, 104]);
        match r.below(10) {
            0..=4 => { let bytes = match r.below(6) { 0 => 0, 1 => n - 1, 2 => n - r.below(n.min(40)).max(1), _ => r.below(n) }; t.caps.push(Cap { fd: 1, bytes, err: e, oneshot: r.chance(1, 4), partial: r.chance(1, 2) }); }
            5..=7 => { let from = match r.below(4) { 0 => w - 1, 1 => 0, _ => r.below(w) }; t.faults.push(Fault::err("wout", from, *r.pick(&[1, 1, 2, 5, MAXCOUNT, MAXCOUNT]), e)); }
            8 => { t.faults.push(Fault::short("wout", r.below(w), *r.pick(&[1, 3, MAXCOUNT]), r.range(1, 30) as i64)); t.caps.push(Cap { fd: 1, bytes: r.below(n), err: e, oneshot: false, partial: r.chance(1, 2) }); }
            _ => { t.faults.push(Fault::err("wout", r.below(w), 1 + r.below(4), EINTR)); t.faults.push(Fault::err("wout", r.below(w), *r.pick(&[1, MAXCOUNT]), e)); }
        }
        t.lim.0 = base.steps * 2 + n * 2 + 3000;
        v.push(Plan::new("C02", "hard", t));
    }
    Ok(v)
}
fn c03(r: &mut Rng, i: u64) -> R<Vec<Plan>> {
    let mut g = tlv::gen_cfg(r);
    let mut f = gen::format(r);
    let mut text = match r.below(600) {
        // lengths around what 16 bits hold, which only the denser of the formats can carry in one argument
        3 => { let n = *r.pick(&[65_535usize, 65_536, 65_537, 70_000, 100_000, 126_000]); let ch = *r.pick(&['K', 'z', '5']); let mut t: String = (0..n).map(|_| ch).collect(); if !r.chance(1, 4) { let k = r.us(n); t.replace_range(k..=k, "#"); } format!("T5A:{}:a{t}~T9F33:03:hE0F8C8", if n < 65_536 { format!("{n:04X}") } else { format!("{n:06X}") }) }
        4 => { g.max_nodes = 2600; g.max_val = 3; g.max_depth = 3; g.bigval_rate = 0; gen::block_text(r, f, &g) }
        0 => { let d = 100 + r.us(220); let b = tlv::gen_chain(r, d); tlv::hex_text(r, &b) }
        1 => { g.max_nodes = 700; g.max_val = 6; g.max_depth = 2; gen::block_text(r, f, &g) }
        2 => { g.bigval_rate = 0; let n = *r.pick(&[255, 256, 1023, 1024, 1025, 8192, 32767, 32768, 40000]); let m = r.bytes(n); let b = tlv::enc(&[tlv::TNode { tag: vec![0x5A], val: tlv::Val::Prim(m), lenform: 0 }]); tlv::hex_text(r, &b) }
        _ => gen::block_text(r, f, &g),
    };
    let _ = i;
    if text.starts_with("T5A:") && text.len() > 65_000 { f = if r.chance(1, 2) { Format::Ing } else { Format::Auto }; }
    if r.chance(1, 5) { text = gen::damage(r, f, &text); }
    if text.starts_with('-') || text.contains('\0') || text.len() > 131_000 { return Ok(vec![]); }
    let mut s = gen::world(r);
    let sort = r.chance(1, 2);
    let masks: String = g.masks.iter().collect();
    let mut layers = vec![];
    let src = |r: &mut Rng| (*r.pick(&["cli", "cli", "env", "file:default", "file:global"])).to_string();
    if g.masks != ['*'] || r.chance(1, 4) { layers.push(Layer { src: src(r), key: 'm', val: masks.clone() }); }
    if !sort || r.chance(1, 2) { layers.push(Layer { src: src(r), key: 's', val: sort.to_string() }); }
    if r.chance(1, 2) { layers.push(Layer { src: src(r), key: 'c', val: (*r.pick(&["always", "never", "ansi"])).into() }); }
    let path = format!("{}/pemv.toml", s.cwd);
    let has = layers.iter().any(|l| l.src.starts_with("file"));
    let flag = format!("--{}", gen::opname(f));
    cfg::apply(&mut s, &[], &layers, &path, r.u64() >> 1, has);
    s.argv.push(flag.into_bytes()); s.argv.push(text.into_bytes());
    if r.chance(1, 3) { for _ in 0..1 + r.us(3) { let at = r.logu(200); s.faults.push(if r.chance(1, 2) { Fault::err("wout", at, 1 + r.below(3), EINTR) } else { Fault::short("wout", at, *r.pick(&[1, 5, MAXCOUNT]), r.range(1, 60) as i64) }); } }
    Ok(vec![Plan::new("C03", "report", s).with("fmt", fmtname(f)).with("masks", &masks).with("sort", if sort { "1" } else { "0" })])
}
fn c04(r: &mut Rng) -> R<Vec<Plan>> {
    let mut s = gen::world(r);
    let profile = *r.pick(&["default", "default", "release", "corp2"]);
    if profile != "default" || r.chance(1, 6) { s.setenv("PEMV_PROFILE", profile.as_bytes()); }
    let tlv_ = r.chance(5, 6);
    let mut p = Plan::new("C04", "layers", s);
    let mut layers = if r.chance(1, 30) { vec![] } else { cfg::rand_layers(r, tlv_, true, profile) };
    if r.chance(1, 3) && !layers.is_empty() { // one setting decided in exactly one place
        let k = r.us(layers.len()); layers = vec![layers[k].clone()];
    }
    let args = if tlv_ { let (f, t, a) = reveal_args(r); p = p.with("fmt", fmtname(f)).with("text", &t); a } else { gen::value_op(r, false).args };
    for a in &args { p = p.with("op", &String::from_utf8_lossy(a)); }
    if r.chance(1, 3) { // values of the wrong kind where they are not in force
        let mut extra = vec![];
        for l in &layers { for src in ["env", "file:global", "file:release", "file:corp2", "file:default", "file:other"] {
            if r.chance(1, 5) && !layers.iter().any(|x| x.src == src && x.key == l.key) { extra.push(Layer { src: src.into(), key: l.key, val: format!("\u{2}{}", ill_typed(r, l.key, src == "env")) }); }
        } }
        layers.extend(extra);
    }
    for l in &layers { p = p.with("layer", &l.line()); }
    let place = r.below(4);
    let cwd = p.sc.cwd.clone();
    let path = match place { 0 => "/etc/card.toml".to_string(), 1 => { let up = cwd.rsplit_once('/').map_or("", |x| x.0).to_string(); format!("{up}/pemv.toml") } _ => format!("{cwd}/pemv.toml") };
    if place == 0 { p.sc.setenv("PEMV_CONFIG", path.as_bytes()); }
    // decided by terminal and environment too when automatic
    if r.chance(1, 8) { p.sc.setenv("NO_COLOR", b"1"); }
    if r.chance(1, 10) { p.sc.setenv("TERM", b"dumb"); }
    let has = layers.iter().any(|l| l.src.starts_with("file"));
    Ok(vec![p.with("profile", profile).with("path", &path).with("file", if has || r.chance(1, 4) { "1" } else { "0" }).with("style", &(r.u64() >> 1).to_string())])
}
/// The C04 scenario as run, and its canonical single-source equivalent.
fn c04_build(p: &Plan) -> (Sc, Sc, Settings) {
    let layers: Vec<Layer> = p.all("layer").filter_map(Layer::parse).collect();
    let layers = cfg::shadowed_only(layers, p.get("profile").unwrap_or("default"));
    let op: Vec<Vec<u8>> = p.all("op").map(|x| x.as_bytes().to_vec()).collect();
    let mut s = p.sc.clone();
    cfg::apply(&mut s, &op, &layers, p.get("path").unwrap_or("/work/pemv.toml"), p.get("style").and_then(|x| x.parse().ok()).unwrap_or(1), p.get("file") == Some("1"));
    let want = cfg::resolve(&layers, p.get("profile").unwrap_or("default"));
    let mut q = p.sc.clone();
    q.env.retain(|e| !e.0.starts_with(b"PEMV_"));
    q.argv.truncate(1);
    q.argv.extend(op);
    q.argv.extend(want.cli(p.get("text").is_some()));
    (s, q, want)
}
fn c05(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut s = gen::world(r);
    let names = ["a", "b", "cards", "x y", "\u{e9}t\u{e9}", "pemv", "deep.er", "pemv.toml.d", "b\u{f7ff}d", "\u{f7c3}"];
    let depth = if r.chance(1, 8) { 8 + r.us(30) } else { 1 + r.us(5) };
    let mut cwd = String::new();
    let mut chain = vec![String::new()];
    for _ in 0..depth { cwd.push('/'); cwd.push_str(r.pick(&names)); if !s.nodes.iter().any(|n| n.path == cwd) { s.nodes.push(Node::dir(&cwd)); } chain.push(cwd.clone()); }
    s.cwd = cwd.clone();
    // marks that other tools stop at, and owners, modes, file systems and dates of every kind
    for d in &chain { if r.chance(1, 6) { let m = format!("{d}/{}", r.pick(&[".git", ".hg", "Cargo.toml", ".root", ".pemv", "package.json"])); if !s.has(&m) { if m.contains("/.") { s.nodes.push(Node::dir(&m)); } else { s.nodes.push(Node::file(&m, b"x = 1\n")); } } } }
    if r.chance(1, 4) { let h = r.pick(&chain).clone(); let h = if h.is_empty() { b"/".to_vec() } else { raw(&h) }; s.setenv("HOME", &h); }
    if r.chance(1, 2) { s.attr = r.u64() >> 1; s.uid = *r.pick(&[0, 1000, 1000, 65534]); }
    let (f, t, args) = reveal_args(r);
    s.argv.extend(args);
    let mut p = Plan::new("C05", "search", s).with("fmt", fmtname(f)).with("text", &t);
    let mut name = "pemv.toml".to_string();
    let mut absolute = None;
    match r.below(6) {
        0 | 1 => {}
        2 => { name = (*r.pick(&["other.toml", "conf", "pemv.tml", "settings/pemv.toml", "./local.toml", "pemv", "a/b.toml", "../shared.toml", "./../pemv.toml", "a/../up.toml", ".pemvrc", "with space.toml", "\u{e9}.toml", "pemv.toml/", "", "~/mine.toml", "$HOME/mine.toml", "%h/mine.toml", "pemv.toml:/etc/pemv.toml", "*.toml", "file:pemv.toml"])).to_string(); p.sc.setenv("PEMV_CONFIG", name.as_bytes()); }
        3 => { let a = (*r.pick(&["/etc/pemv.toml", "/home/u/my.toml", "/opt/c/pemv.toml", "/work/pemv.toml", "/opt/~/x.toml"])).to_string(); p.sc.setenv("PEMV_CONFIG", a.as_bytes()); absolute = Some(a); }
        _ => {}
    }
    let mut used: Vec<Settings> = vec![];
    let put = |r: &mut Rng, p: &mut Plan, path: &str, used: &mut Vec<Settings>| {
        if p.sc.has(path) { return; }
        if r.chance(1, 14) { // a file that says nothing is still the file in force
            p.sc.add(Node::file(path, r.pick(&[&b""[..], b"\n", b"# nothing here\n", b"[default]\n", b"[other]\nsort_parsed_tags = false\n"])));
            p.kv.push(("cfg".into(), format!("auto * true {path}")));
            return;
        }
        let mut st = cfg::rand_settings(r);
        for _ in 0..6 { if used.contains(&st) || st == Settings::default() { st = cfg::rand_settings(r); } }
        used.push(st.clone());
        let ls: Vec<Layer> = [('c', st.colour.clone()), ('m', st.masks.iter().collect()), ('s', st.sort.to_string())].into_iter().map(|(key, val)| Layer { src: (*r.pick(&["file:default", "file:global"])).into(), key, val }).collect();
        let txt = cfg::toml(r, &ls.iter().collect::<Vec<_>>());
        p.sc.add(Node::file(path, txt.as_bytes()));
        let m: String = st.masks.iter().collect();
        p.kv.push(("cfg".into(), format!("{} {} {} {path}", st.colour, m, st.sort)));
    };
    // candidates at each level: absent, a file, or something that only looks like one
    let rate = *r.pick(&[0, 25, 40, 70]);
    for d in chain.iter().rev() {
        let path = norm("", &format!("{d}/{name}"));
        if name.is_empty() || p.sc.has(&path) || p.sc.nodes.iter().any(|n| n.t != 'd' && path.starts_with(&format!("{}/", n.path))) { continue; }
        if name.contains("a/..") && !p.sc.has(&format!("{d}/a")) { if r.chance(1, 3) { continue; } p.sc.add(Node::dir(&format!("{d}/a"))); }
        if !r.chance(rate, 100) && !(d.is_empty() && r.chance(1, 2)) { continue; }
        match r.below(10) {
            0 => p.sc.add(Node::dir(&path)),
            1 => p.sc.add(Node::special(&path, 'p')),
            2 => { p.sc.add(Node::special(&path, *r.pick(&['s', 'c', 'b']))) }
            3 => { let k = r.below(4); let target = format!("/srv/real{}.toml", r.below(3)); match k { 0 => p.sc.add(Node::link(&path, "/nowhere/at/all")), 1 => p.sc.add(Node::link(&path, name.rsplit('/').next().unwrap())), 2 => { p.sc.add(Node::dir("/srv/dir")); p.sc.add(Node::link(&path, "/srv/dir")); } _ => { put(r, &mut p, &target, &mut used); p.sc.add(Node::link(&path, &target)); } } }
            _ => put(r, &mut p, &path, &mut used),
        }
    }
    if let Some(a) = absolute { match r.below(5) { 0 => {} 1 => { p.sc.add(Node::dir(&a)); } _ => { if !p.sc.has(&a) { put(r, &mut p, &a, &mut used); } } } }
    // files that must not matter
    let mut decoys: Vec<String> = vec!["/home/u/.config/pemv/pemv.toml".into(), "/home/u/.config/pemv.toml".into(), "/home/u/.pemv.toml".into(), "/etc/pemv.toml".into(), "/etc/pemv/pemv.toml".into(), "/etc/xdg/pemv.toml".into(), "/usr/share/pemv.toml".into(), "/tmp/pemv.toml".into(), "/home/u/pemv.toml".into(), "/home/u/mine.toml".into()];
    for d in &chain { for n in ["pemv.toml.bak", "pemv.tom", ".pemv.toml", "Pemv.toml", "PEMV.TOML", "pemv.json", "pemv", "config.toml", ".config/pemv.toml", "sub/pemv.toml", "pemv.local.toml", "pemv.toml~"] { if r.chance(1, 6) { decoys.push(format!("{d}/{n}")); } } }
    for d in decoys { if r.chance(1, 3) { let sys = !chain.iter().any(|c| !c.is_empty() && d.starts_with(c.as_str())); if (sys || d.contains("pemv")) && !p.sc.nodes.iter().any(|n| n.t != 'd' && d.starts_with(&format!("{}/", n.path))) { put(r, &mut p, &d, &mut used); } } }
    if r.chance(1, 3) { let v = r.pick(&["/tmp", "/home/u", "/etc"]).to_string(); p.sc.setenv("PWD", v.as_bytes()); if r.chance(1, 2) { p.sc.setenv("OLDPWD", b"/work"); } put(r, &mut p, &format!("{v}/pemv.toml"), &mut used); } else if r.chance(1, 2) { let c = raw(&p.sc.cwd); p.sc.setenv("PWD", &c); }
    // configuration files wherever the program looks for something it does not find
    if r.chance(1, 4) {
        for _ in 0..2 {
            let base = c.reference(&p.sc)?;
            let before = p.sc.nodes.len() + p.sc.env.len();
            for (k, name) in &base.probes {
                let Ok(n) = String::from_utf8(name.clone()) else { continue };
                match k {
                    'E' if ambient(&n) && r.chance(2, 3) && p.sc.getenv(&n).is_none() => {
                        let v = *r.pick(&["/srv/alt", "/srv/alt", "/srv/alt.toml", "alt.toml", "1", "never", ""]);
                        p.sc.setenv(&n, v.as_bytes());
                        for f in ["/srv/alt.toml", "/srv/alt/pemv.toml", "/srv/alt/pemv/pemv.toml"] { put(r, &mut p, f, &mut used); }
                        if v == "alt.toml" { put(r, &mut p, &format!("{cwd}/alt.toml"), &mut used); }
                    }
                    'F' if n.starts_with('/') && !systemic(&n) && !p.sc.has(&n) && !p.sc.nodes.iter().any(|x| x.t != 'd' && n.starts_with(&format!("{}/", x.path))) => match r.below(8) {
                        0 => p.sc.add(Node::dir(&n)),
                        1..=3 => put(r, &mut p, &n, &mut used),
                        _ => {}
                    },
                    _ => {}
                }
            }
            if p.sc.nodes.len() + p.sc.env.len() == before { break; }
            c.st.note("cases with files where the program looked");
        }
    }
    if r.chance(1, 12) { p.sc.cwd_err = 2; }
    else if r.chance(1, 12) { let c = format!("{cwd}/"); if !p.sc.nodes.iter().any(|n| n.path.starts_with(&c)) { for n in &mut p.sc.nodes { if n.path == cwd { n.search_err = EACCES; } } } }
    if r.chance(1, 3) { let n = p.sc.nodes.len(); p.sc.faults = vec![Fault::err("rfile", r.below(3), 1 + r.below(3), EINTR), Fault::short("rfile", r.below(3), 4, r.range(1, 20) as i64)]; let _ = n; }
    Ok(vec![p])
}
/// Follows symbolic links in the simulated tree.
fn lookup<'a>(s: &'a Sc, path: &str) -> Option<&'a Node> {
    fn go<'a>(s: &'a Sc, path: &str, n: u32) -> Option<&'a Node> {
        if n > 40 { return None; }
        let mut cur = String::new();
        let parts: Vec<&str> = path.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
        for (i, c) in parts.iter().enumerate() {
            if let Some(d) = s.nodes.iter().find(|x| x.path == cur) { if d.search_err != 0 || d.t != 'd' { return None; } }
            if *c == ".." { cur.truncate(cur.rfind('/').unwrap_or(0)); continue; }
            let next = format!("{cur}/{c}");
            let node = s.nodes.iter().find(|x| x.path == next)?;
            if node.t == 'l' {
                let to = String::from_utf8_lossy(&node.data).into_owned();
                let rest = parts[i + 1..].join("/");
                let full = if to.starts_with('/') { format!("{to}/{rest}") } else { format!("{cur}/{to}/{rest}") };
                return go(s, full.trim_end_matches('/'), n + 1);
            }
            if i + 1 == parts.len() { return Some(node); }
            if node.t != 'd' { return None; }
            cur = next;
        }
        None
    }
    go(s, path, 0)
}
/// The file that configuration discovery designates.
fn designated(s: &Sc) -> Option<&Node> {
    let name = s.getenv("PEMV_CONFIG").map_or("pemv.toml".to_string(), |v| String::from_utf8_lossy(v).into_owned());
    let file = |p: &str| if p.ends_with('/') { None } else { lookup(s, p).filter(|n| n.t == 'f') };
    if name.starts_with('/') { return file(&name); }
    if s.cwd_err != 0 { return None; }
    let mut d = s.cwd.clone();
    loop {
        if let Some(n) = file(&format!("{d}/{name}")) { return Some(n); }
        if d.is_empty() { return None; }
        d.truncate(d.rfind('/').unwrap_or(0));
    }
}
fn settings_of(p: &Plan, path: &str) -> Option<Settings> {
    p.all("cfg").find_map(|l| { let mut i = l.splitn(4, ' '); let (c, m, s, f) = (i.next()?, i.next()?, i.next()?, i.next()?); if f == path { Some(Settings { colour: c.into(), masks: m.chars().collect(), sort: s == "true" }) } else { None } })
}
/// The run that states these settings on the command line and has no other source at all.
fn canonical(s: &Sc, st: &Settings) -> Sc {
    let mut q = s.without_faults();
    q.env.retain(|e| !e.0.starts_with(b"PEMV_"));
    q.nodes = vec![Node::dir("/work")]; q.cwd = "/work".into(); q.cwd_err = 0; q.edits.clear();
    q.argv.extend(st.cli(true));
    q
}
const BROKEN: &[&[u8]] = &[b"[default\n", b"[default]\ncli_colour = \n", b"[default]\ncli_colour = \"never\n", b"[default]\nmasking_characters = [\"*\"\n", b"top_level = 1\n", b"cli_colour = \"never\"\n", b"[default]\nsort_parsed_tags = tru\n", b"\xff\xfe[default]\n", b"[default]\n# \xc3\x28 not UTF-8\n", b"= 3\n", b"[]\n", b"[default]\n[default]\n", b"{\"default\": {}}\n", b"\x00\x01\x02", b"[default]\nmasking_characters = ['*']\nx = 'unterminated\n"];
fn ill_typed(r: &mut Rng, key: char, env: bool) -> String {
    let v: &[&str] = match (key, env) {
        ('c', false) => &["5", "true", "[\"never\"]", "\"purple\"", "\"\"", "{ a = 1 }", "1.5", "\"Always\"", "\"nevers\""],
        ('c', true) => &["purple", "5", "true", "[never]", "Always", "neve", ""],
        ('m', false) => &["\"**\"", "5", "true", "[\"ab\"]", "[5]", "[\"\"]", "[true]", "{ a = 1 }", "[\"*\", 7]", "[[\"*\"]]"],
        ('m', true) => &["**", "5", "true", "[ab]", "[true]", "[\"\"]", "[\"*\",\"ab\"]", "", "ab", "\"*\"", "{a=1}"],
        (_, false) => &["\"maybe\"", "[true]", "2", "{ a = 1 }", "\"\"", "1.5"],
        (_, true) => &["maybe", "[true]", "2", "yep", "1.5", "", "\"true\"", "tru"],
    };
    (*r.pick(v)).to_string()
}
fn c06(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let op = if r.chance(1, 4) { gen::any_op(r, Want::Any) } else { let (_, _, a) = reveal_args(r); gen::Op { name: "ber-tlv", args: a, tlv: true, expect: Expect::Accept } };
    let mut s = gen::world(r);
    let path = match r.below(4) { 0 => { s.setenv("PEMV_CONFIG", b"/etc/p.toml"); "/etc/p.toml".to_string() } 1 => { s.setenv("PEMV_CONFIG", b"mine.toml"); format!("{}/mine.toml", s.cwd) } 2 => "/pemv.toml".into(), _ => format!("{}/pemv.toml", s.cwd) };
    let profile = *r.pick(&["default", "default", "release"]);
    if profile != "default" { s.setenv("PEMV_PROFILE", profile.as_bytes()); }
    let mut layers = cfg::rand_layers(r, op.tlv, true, profile);
    let kind = r.below(6);
    let style = r.u64() >> 1;
    match kind {
        5 => { // a value of the wrong kind on the command line
            let bad: &[&str] = r.pick(&[&["--colour=purple"][..], &["--color", "nevers"], &["--colour=5"], &["--colour="], &["--colour=never,always"], &["-m", "ab"], &["--masking-character="], &["--masking=**"], &["-m", "*", "-m", "##"], &["--sort=maybe"], &["--no-sort=5"], &["--sort-parsed-tags=[true]"], &["--no-sort-parsed-tags=x"]]);
            let key = if bad[0].starts_with("--col") { 'c' } else if bad[0].starts_with("-m") || bad[0].starts_with("--mask") { 'm' } else { 's' };
            layers.retain(|l| l.key != key || l.src != "cli");
            let has = layers.iter().any(|l| l.src.starts_with("file"));
            let (_, _, a) = reveal_args(r);
            cfg::apply(&mut s, &a, &layers, &path, style, has);
            for (i, b) in bad.iter().enumerate() { s.argv.insert(1 + i, b.as_bytes().to_vec()); }
            Ok(vec![Plan::new("C06", "option", s)])
        }
        0 => { // cannot be opened
            cfg::apply(&mut s, &op.args, &layers, &path, style, true);
            let e = *r.pick(&[EACCES, EIO, 24, 23, 12, 1, 116]);
            for n in &mut s.nodes { if n.path == path { n.open_err = e; } }
            Ok(vec![Plan::new("C06", "open", s)])
        }
        1 => { // cannot be read to its end
            cfg::apply(&mut s, &op.args, &layers, &path, style, true);
            if r.chance(1, 2) { for n in &mut s.nodes { if n.path == path { for _ in 0..40 + r.us(400) { n.data.extend_from_slice(b"# more lines to read, one after another\n"); } } } }
            let mut base = s.clone();
            if r.chance(1, 2) { base.faults.push(Fault::short("rfile", 0, MAXCOUNT, r.range(1, 60) as i64)); }
            let b = c.reference(&base)?;
            let n = b.count("rfile");
            if n == 0 { return Ok(vec![]); }
            base.faults.insert(0, Fault::err("rfile", r.below(n), *r.pick(&[1, 1, MAXCOUNT]), *r.pick(&[EIO, 21, 116, EAGAIN, 12])));
            Ok(vec![Plan::new("C06", "read", base)])
        }
        2 | 3 => { // not configuration text
            cfg::apply(&mut s, &op.args, &layers, &path, style, true);
            let bad = *r.pick(BROKEN);
            let good: Vec<u8> = s.nodes.iter().find(|n| n.path == path).map(|n| n.data.clone()).unwrap_or_default();
            let mut t = Vec::new();
            let solo = bad.starts_with(b"top") || bad.starts_with(b"cli") || bad.starts_with(b"\x00") || bad.starts_with(b"\xff") || bad.starts_with(b"{");
            if solo || r.chance(1, 2) { t.extend_from_slice(bad); if r.chance(1, 2) { t.extend_from_slice(&good); } } else { t.extend_from_slice(&good); if good.last() != Some(&b'\n') { t.push(b'\n'); } t.extend_from_slice(bad); }
            for n in &mut s.nodes { if n.path == path { n.data = t.clone(); } }
            Ok(vec![Plan::new("C06", "text", s)])
        }
        _ => { // a setting in force has a value of the wrong kind
            let k = *r.pick(&['c', 'm', 's']);
            let env = r.chance(1, 3);
            let prof = *r.pick(if profile == "default" { &["file:default", "file:global"] } else { &["file:default", "file:global", "file:release"] });
            // nothing that takes precedence states the same setting
            let order = ["cli", "env", "file:global", "file:release", "file:default"];
            let rank = |x: &str| order.iter().position(|o| *o == x).unwrap_or(9);
            let at = rank(if env { "env" } else { prof });
            layers.retain(|l| l.key != k || rank(&l.src) > at);
            let has = layers.iter().any(|l| l.src.starts_with("file")) || !env;
            cfg::apply(&mut s, &op.args, &layers, &path, style, has);
            let v = ill_typed(r, k, env);
            if env { s.setenv(&cfg::env_name(k), v.as_bytes()); } else {
                let t = format!("{} = {v}\n", cfg::name_of(k));
                let h = format!("[{}]", &prof[5..]);
                for n in &mut s.nodes { if n.path == path {
                    let cur = String::from_utf8_lossy(&n.data).into_owned();
                    n.data = match cur.find(&h) { Some(i) => { let e = cur[i..].find('\n').map_or(cur.len(), |x| i + x + 1); format!("{}{t}{}", &cur[..e], &cur[e..]) } None => format!("{cur}\n{h}\n{t}") }.into_bytes();
                } }
            }
            Ok(vec![Plan::new("C06", "value", s)])
        }
    }
}
fn version(r: &mut Rng, used: &mut Vec<Settings>, profile: &str) -> (String, Settings) {
    let mut st = cfg::rand_settings(r);
    for _ in 0..30 { if used.iter().any(|u| u.colour == st.colour || u.masks.iter().any(|m| st.masks.contains(m))) || st.masks.contains(&'*') { st = cfg::rand_settings(r); } }
    st.colour = (*r.pick(if used.len() % 2 == 0 { &["always", "ansi"] } else { &["never", "auto"] })).into();
    if let Some(u) = used.last() { st.sort = !u.sort; }
    used.push(st.clone());
    let mut ls: Vec<Layer> = [('c', st.colour.clone()), ('m', st.masks.iter().collect()), ('s', st.sort.to_string())].into_iter().map(|(key, val)| Layer { src: "file:default".into(), key, val }).collect();
    if r.chance(1, 5) { let k = r.us(3); ls[k].val = format!("\u{2}{}", ill_typed(r, ls[k].key, false)); } // a version that cannot be used
    else if r.chance(1, 8) { let k = r.us(3); ls.remove(k); }
    if profile != "default" { // with or without the profile the run selects, and other values beside it
        let mode = r.below(3);
        if mode > 0 { for l in &mut ls { if mode == 1 || r.chance(1, 2) { l.src = format!("file:{}", if mode == 1 || r.chance(2, 3) { profile } else { "global" }); } } }
        let other = cfg::rand_settings(r);
        let flip = (if matches!(st.colour.as_str(), "always" | "ansi") { "never" } else { "always" }).to_string();
        for (key, val) in [('c', flip), ('m', other.masks.iter().collect()), ('s', (!st.sort).to_string())] { if !ls.iter().any(|l| l.key == key && l.src == "file:default") && r.chance(2, 3) { ls.push(Layer { src: "file:default".into(), key, val }); } }
    }
    let mut t = cfg::toml(r, &ls.iter().collect::<Vec<_>>());
    if r.chance(1, 20) { t.push_str("[default\n"); }
    if r.chance(1, 6) { for _ in 0..r.us(600) { t.push_str("# a longer file takes more reads to load\n"); } }
    (t, st)
}
fn c07(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut s = gen::world(r);
    s.fd[1] = 'p';
    let (_, _, args) = reveal_args(r);
    s.argv.extend(args);
    let up = s.cwd.rsplit_once('/').map_or(String::new(), |x| x.0.to_string());
    let near = format!("{}/pemv.toml", s.cwd);
    let far = format!("{up}/pemv.toml");
    let mut used = vec![];
    let profile = *r.pick(&["default", "default", "release"]);
    if profile != "default" { s.setenv("PEMV_PROFILE", profile.as_bytes()); }
    if r.chance(4, 5) { let v = version(r, &mut used, profile); s.add(Node::file(&near, v.0.as_bytes())); }
    if r.chance(1, 3) { let v = version(r, &mut used, profile); s.add(Node::file(&far, v.0.as_bytes())); }
    if r.chance(1, 5) { s.setenv("PEMV_CONFIG", near.as_bytes()); }
    let base = c.reference(&s)?;
    // steps at which the configuration is looked for and read
    let hot: Vec<u64> = String::from_utf8_lossy(&base.trace).lines().filter(|l| l.contains(".toml") || l.contains("getcwd") || l.contains("read")).filter_map(|l| l.split_whitespace().next().and_then(|x| x.parse().ok())).collect();
    let mut v = vec![];
    for _ in 0..5 {
        let mut t = s.clone();
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        let mut u = used.clone();
        for _ in 0..n {
            let step = if !hot.is_empty() && r.chance(3, 4) { (*r.pick(&hot)).saturating_add(r.below(5)).saturating_sub(2) } else { r.below(base.steps.max(1)) };
            let path = if r.chance(3, 4) { near.clone() } else { far.clone() };
            let op = *r.pick(&['r', 'r', 'r', 'u']);
            let d = if op == 'u' { vec![] } else { version(r, &mut u, profile).0.into_bytes() };
            t.edits.push(Edit { step, op, path, data: d });
        }
        t.edits.sort_by_key(|e| e.step);
        if r.chance(1, 3) { t.faults = vec![Fault::short("rfile", 0, MAXCOUNT, r.range(5, 80) as i64)]; }
        v.push(Plan::new("C07", "swap", t));
    }
    Ok(v)
}
fn c08(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let want = if r.chance(3, 5) { Want::Reject } else { Want::Accept };
    let mut op = gen::any_op(r, want);
    if want == Want::Reject && r.chance(1, 3) { // a long good part before the defect
        let mut g = gen::small_cfg(r); g.max_nodes = *r.pick(&[3, 30, 120]); g.max_depth = 5; op = gen::tlv_op(r, &g, Want::Reject);
    }
    if r.chance(1, 25) { // help, version, usage errors
        let mut s = gen::world(r);
        s.argv.extend(gen::other_op(r).args);
        return Ok(vec![Plan::new("C08", "usage", s)]);
    }
    let (s, st) = invocation(r, &op, true);
    let e = if st.masks == ['*'] || !op.tlv { op.expect } else { Expect::Open };
    let exp = match e { Expect::Accept => "accept", Expect::Reject => "reject", Expect::Open => "open" };
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C08", "split", s.clone()).with("expect", exp)];
    for _ in 0..2 {
        let mut t = s.clone();
        let kind;
        let e = *r.pick(&[EIO, EPIPE, ENOSPC, EAGAIN]);
        if r.chance(1, 2) {
            kind = "errfault";
            match r.below(3) { 0 => t.fd[2] = 'c', 1 => t.faults.push(Fault::err("werr", 0, MAXCOUNT, e)), _ => t.caps.push(Cap { fd: 2, bytes: r.below(base.err.len() as u64 + 1), err: e, oneshot: r.chance(1, 3), partial: r.chance(1, 2) }) }
        } else {
            kind = "outfault";
            match r.below(3) { 0 => t.fd[1] = 'c', 1 => t.faults.push(Fault::err("wout", r.below(base.count("wout") + 1), MAXCOUNT, e)), _ => t.caps.push(Cap { fd: 1, bytes: r.below(base.out.len() as u64 + 1), err: e, oneshot: r.chance(1, 3), partial: r.chance(1, 2) }) }
        }
        v.push(Plan::new("C08", kind, t));
    }
    Ok(v)
}
/// Any ending at all: success, rejection, unusable configuration, failing output, kill, failed allocation.
fn hard(r: &mut Rng, t: &mut Sc, base: &Res) {
    match r.below(6) {
        0 => t.caps.push(Cap { fd: 1, bytes: { let n = base.out.len() as u64; if r.chance(1, 3) { n - r.below(n.min(12) + 1) } else { r.below(n + 1) } }, err: *r.pick(&[ENOSPC, EPIPE, EIO]), oneshot: r.chance(1, 3), partial: r.chance(1, 2) }),
        1 => t.kill = Some(Kill { step: r.below(base.steps.max(1)), sig: *r.pick(&[9, 15, 2, 1, 13]), part: -1 }),
        2 => t.oom = Some((r.below(base.nalloc.max(1)), *r.pick(&[1, 1, MAXCOUNT]))),
        3 => t.faults.push(Fault::err("wout", r.below(base.count("wout").max(1)), MAXCOUNT, *r.pick(&[EIO, EPIPE]))),
        4 => { let p = format!("{}/pemv.toml", t.cwd); t.env.retain(|e| e.0 != b"PEMV_CONFIG"); t.add(Node::file(&p, r.pick(BROKEN))); }
        _ => t.faults.push(Fault::err("werr", 0, MAXCOUNT, EIO)),
    }
}
fn c09(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let op = match r.below(10) { 0 => gen::other_op(r), 1 => big_op(r), _ => gen::any_op(r, Want::Any) };
    let (mut s, _) = if op.name == "other" { let mut s = gen::world(r); s.argv.extend(op.args.clone()); (s, Settings::default()) } else { invocation(r, &op, true) };
    for (k, v) in [("HOME", "/home/u"), ("TMPDIR", "/tmp"), ("XDG_STATE_HOME", "/home/u/.local/state"), ("XDG_DATA_HOME", "/home/u/.local/share")] { if r.chance(4, 5) { s.setenv(k, v.as_bytes()); } }
    for n in ["/dev/tty", "/dev/console", "/dev/kmsg", "/dev/pts/0"] { if r.chance(3, 4) { s.add(Node::special(n, 'c')); } }
    for n in ["/dev/log", "/run/systemd/journal/socket", "/tmp/.X11-unix/X0", "/run/user/1000/bus"] { if r.chance(1, 2) { s.add(Node::special(n, 's')); } }
    for n in ["/home/u/.bash_history", "/home/u/.pemv_history", "/var/log/syslog", "/work/pemv.log", "/tmp/pemv.out", "/home/u/.cache/pemv/state"] { if r.chance(1, 3) { s.add(Node::file(n, b"old\n")); } }
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C09", "trace", s.clone())];
    let mut t = s.clone();
    hard(r, &mut t, &base);
    v.push(Plan::new("C09", "trace", t));
    // switch on whatever the program asked its surroundings for
    let mut t = s.clone();
    enrich(r, &mut t, &base, true);
    if r.chance(1, 2) { let b = c.reference(&t)?; enrich(r, &mut t, &b, true); } // and for what it asks for then
    if r.chance(1, 3) { hard(r, &mut t, &base); }
    v.push(Plan::new("C09", "trace", t));
    Ok(v)
}
fn c16(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let op = match r.below(10) { 0 => gen::other_op(r), 1 => big_op(r), 2 => gen::Op { name: "value", args: vec![format!("--{}={}", r.pick(&["ber-tlv", "auto-tlv", "ingenico-tlv", "tvr", "cvm-list", "service-code", "ccd-iad", "identify"]), r.pick(&["-", "@-", "/dev/stdin", "-", "/dev/fd/0"])).into_bytes()], tlv: false, expect: Expect::Open }, _ => gen::any_op(r, Want::Any) };
    let (mut s, _) = if op.name == "other" || op.name == "value" { let mut s = gen::world(r); s.argv.extend(op.args.clone()); (s, Settings::default()) } else { invocation(r, &op, true) };
    s.fd[0] = *r.pick(&['p', 'p', 'f', 'f', 't', 'n', 'c']);
    s.stdin = match s.fd[0] { 'n' | 'c' => vec![], _ => match r.below(4) { 0 => vec![], 1 => b"5A0847617300000001199F3303E0F8C8\n9F2701809F360200019F26081122334455667788\n".to_vec(), 2 => b"[default]\ncli_colour = \"always\"\n".to_vec(), _ => { let n = r.us(3000); r.bytes(n) } } };
    for n in SHARED { if r.chance(3, 4) { s.add(Node::special(n, 'c')); } }
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C16", "plain", s.clone())];
    for k in 0..4 {
        let mut t = s.clone();
        if k < 2 { // what a stream may answer without being broken
            for _ in 0..1 + r.us(3) { let cls = *r.pick(&["wout", "wout", "werr", "rfile", "poll", "ioctl", "fstat"]); let e = match cls { "wout" | "werr" => *r.pick(&[EINTR, EAGAIN, EAGAIN]), "rfile" => EINTR, "poll" => *r.pick(&[EINTR, EAGAIN]), "ioctl" => *r.pick(&[5, 25]), _ => 9 }; if cls == "fstat" { continue; } t.faults.push(Fault::err(cls, r.below(base.count(cls) + 1), *r.pick(&[1, 1, 3, 20]), e)); }
            if r.chance(1, 2) { t.faults.push(Fault::short("wout", 0, MAXCOUNT, r.range(1, 60) as i64)); }
        } else { hard(r, &mut t, &base); }
        if k % 2 == 1 { enrich(r, &mut t, &base, true); if r.chance(1, 3) { let b = c.reference(&t)?; enrich(r, &mut t, &b, true); } }
        v.push(Plan::new("C16", if k < 2 { "benign" } else { "hard" }, t));
    }
    Ok(v)
}
/// Data objects whose values carry no coded meaning.
const OPAQUE: &[&[u8]] = &[&[0x5A], &[0x57], &[0x5F, 0x20], &[0x9F, 0x1F], &[0x9F, 0x20], &[0x9F, 0x26], &[0x9F, 0x37], &[0x9F, 0x6B], &[0x56], &[0x42], &[0x50], &[0x4F], &[0x84], &[0x5F, 0x24], &[0x9F, 0x02], &[0x9F, 0x4B], &[0xDF, 0x01], &[0xDF, 0x81, 0x29], &[0xC1], &[0x99], &[0x9F, 0x1E]];
/// A value that is no masked one however it is spelt: two different hexadecimal digits in it.
fn content(r: &mut Rng, n: usize, style: u64) -> Vec<u8> {
    if n == 0 { return vec![]; }
    loop {
        let v: Vec<u8> = match style {
            0 => (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect(), // text
            1 => (0..n).map(|_| (r.below(10) << 4 | r.below(10)) as u8).collect(), // decimal digits
            2 => { // a number with a valid check digit
                let mut d: Vec<u64> = (0..2 * n).map(|_| r.below(10)).collect();
                let s: u64 = d[..2 * n - 1].iter().rev().enumerate().map(|(i, x)| if i % 2 == 0 { let y = 2 * x; if y > 9 { y - 9 } else { y } } else { *x }).sum();
                d[2 * n - 1] = (10 - s % 10) % 10;
                d.chunks(2).map(|c| (c[0] << 4 | c[1]) as u8).collect()
            }
            3 => { let b = r.u64() as u8; let mut v = vec![b; n]; let k = r.us(n); v[k] ^= 1; v } // all but one alike
            _ => r.bytes(n),
        };
        if v.iter().any(|x| x >> 4 != v[0] >> 4 || x & 15 != v[0] >> 4) && (n == 1 || v.iter().any(|x| *x != v[0])) { return v; }
    }
}
/// One structure, two contents: the same tags, lengths and nesting around unlike values.
fn twins(r: &mut Rng, budget: &mut usize, depth: usize) -> (Vec<tlv::TNode>, Vec<tlv::TNode>) {
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..1 + r.us(4) {
        if *budget == 0 { break; }
        *budget -= 1;
        let lenform = if r.chance(1, 12) { 1 + r.below(3) as u8 } else { 0 };
        if depth < 3 && r.chance(1, 5) {
            let tag = r.pick(&[&[0x70u8][..], &[0x77], &[0xE1], &[0x6F], &[0xA5], &[0xBF, 0x0C]]).to_vec();
            let (x, y) = twins(r, budget, depth + 1);
            a.push(tlv::TNode { tag: tag.clone(), val: tlv::Val::Cons(x), lenform });
            b.push(tlv::TNode { tag, val: tlv::Val::Cons(y), lenform });
        } else if r.chance(1, 5) { // something both have
            let tag = r.pick(tlv::VALUE).to_vec();
            let x = tlv::TNode { val: tlv::Val::Prim(tlv::gen_value(r, &tag, false)), tag, lenform };
            a.push(x.clone());
            b.push(x);
        } else {
            let tag = r.pick(OPAQUE).to_vec();
            let n = match r.below(6) { 0 => r.us(40), 1 => *r.pick(&[0, 1, 2, 300]), _ => *r.pick(&[3, 6, 8, 8, 10, 19]) };
            let (p, q) = (r.below(6), r.below(6));
            a.push(tlv::TNode { tag: tag.clone(), val: tlv::Val::Prim(content(r, n, p)), lenform });
            b.push(tlv::TNode { tag, val: tlv::Val::Prim(content(r, n, q)), lenform });
        }
    }
    (a, b)
}
fn c17(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let (which, ta, tb): (&str, String, String) = if r.chance(1, 8) { // refused for its length alone
        let which = *r.pick(&["tvr", "tsi", "tvr"]);
        let n = loop { let n = r.us(40); if n > 0 && n != 5 && n != 2 { break n; } };
        let (p, q) = (r.below(6), r.below(6));
        (which, crate::scenario::hexu(&content(r, n, p)), crate::scenario::hexu(&content(r, n, q)))
    } else {
        let mut budget = *r.pick(&[1, 2, 4, 12]);
        let (a, b) = twins(r, &mut budget, 0);
        let f = gen::format(r);
        if f == Format::Ing || (f == Format::Auto && r.chance(1, 2)) {
            let sep = *r.pick(&['~', '|', ';', ',']);
            let upper = r.chance(2, 3);
            let text = |n: &[tlv::TNode]| n.iter().map(|x| { let v = match &x.val { tlv::Val::Prim(v) => v.clone(), tlv::Val::Cons(k) => tlv::enc(k) }; let h = crate::scenario::hexu(&v); format!("T{}:{:04X}:h{}", crate::scenario::hexu(&x.tag), v.len(), if upper { h } else { h.to_lowercase() }) }).collect::<Vec<_>>().join(&sep.to_string());
            let (mut x, mut y) = (text(&a), text(&b));
            // (a damaged one may be read as the other format, where it depends on the content)
            match if f == Format::Auto { 9 } else { r.below(4) } { // damage that lies in the structure
                0 => { let j = *r.pick(&["~T5A", "~T5A:04:h01", "~T95:01:h00", "~T5A:01:x01", "~T9F33:FFFFFFFF:h00"]); x.push_str(j); y.push_str(j); }
                1 => { x.pop(); y.pop(); }
                _ => {}
            }
            if x.is_empty() { return Ok(vec![]); }
            (gen::opname(f), x, y)
        } else {
            let (mut x, mut y) = (tlv::enc(&a), tlv::enc(&b));
            match r.below(4) {
                0 => { let j = *r.pick(&[&[0x5A][..], &[0x9F], &[0x5A, 0x05, 0x01], &[0x9F, 0x33, 0x81], &[0x5A, 0x84, 0xff, 0xff, 0xff, 0xff], &[0x95, 0x01, 0x00], &[0x9F, 0x33, 0x02, 1, 2]]); x.extend_from_slice(j); y.extend_from_slice(j); }
                1 => { x.pop(); y.pop(); }
                _ => {}
            }
            if x.is_empty() { return Ok(vec![]); }
            let mut r2 = r.clone();
            let (x, y) = (tlv::hex_text(r, &x), tlv::hex_text(&mut r2, &y));
            (gen::opname(f), x, y)
        }
    };
    let op = gen::Op { name: "twin", args: gen::opt_for(r, which, ta.clone().into_bytes()), tlv: which.ends_with("tlv"), expect: Expect::Open };
    let (mut s, _) = invocation(r, &op, true);
    for (k, v) in [("HOME", "/home/u"), ("TMPDIR", "/tmp"), ("XDG_STATE_HOME", "/home/u/.local/state")] { if r.chance(1, 2) { s.setenv(k, v.as_bytes()); } }
    if r.chance(1, 8) { s.setenv("RUST_BACKTRACE", b"1"); }
    let base = c.reference(&s)?;
    let mut v = vec![];
    for k in 0..4 {
        let mut t = s.clone();
        if k > 0 && r.chance(2, 3) { hard(r, &mut t, &base); }
        if k > 1 { enrich(r, &mut t, &base, true); if r.chance(1, 3) { let b = c.reference(&t)?; enrich(r, &mut t, &b, true); } }
        v.push(Plan::new("C17", if k == 0 { "plain" } else { "hard" }, t).with("was", &ta).with("twin", &tb));
    }
    Ok(v)
}
/// What may act on a terminal, or be taken for something else by whoever reads a log.
const HOSTILE: &[&[u8]] = &[b"\x1b]0;x\x07", b"\x1b[2J", b"\x1b[31m", b"\x1bc", b"\x1b[6n", b"\x1b]52;c;QQ==\x1b\\", b"\x07", b"\x08\x08", b"\r", b"\n", b"\r\n", b"\x7f", b"\x9b2J", b"\xc2\x9b2J", b"\x0e", b"\x85", b"\xe2\x80\xae", b"\x0b\x0c", b"\t", b"\x01\x02\x03", b"\xff\xfe", b"\x1b", b"\x00\x00", b"\n\x1b[1mTag: 0x5A", b"%n%s", b"\x90q\x9c"];
fn hostile(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.us(n) { if r.chance(1, 2) { let k = r.us(5); v.extend((0..k).map(|_| r.range(0x20, 0x7e) as u8)); } v.extend_from_slice(r.pick(HOSTILE)); }
    v
}
fn c18(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let clean = |v: Vec<u8>| -> Vec<u8> { v.into_iter().filter(|b| *b != 0 && *b < 0x80).collect() };
    let f = gen::format(r);
    let mut masks: Option<String> = None;
    let args = match r.below(8) {
        0 => { // a value that is no hexadecimal text at all, or has such text in it
            let which = *r.pick(&["tvr", "tsi", "ccd-cvr", "ccd-iad", "cvm-results", "cvm-list", "identify", "service-code", "ber-tlv", "auto-tlv", "ingenico-tlv"]);
            let mut t = clean(hostile(r, 3));
            if r.chance(2, 3) { let h = crate::scenario::hexu(&r.bytes(5)).into_bytes(); let k = r.us(t.len() + 1); t.splice(k..k, h); }
            if t.first() == Some(&b'-') || t.is_empty() { t.insert(0, b'0'); }
            gen::opt_for(r, which, t)
        }
        1 => { // coded values
            let which = *r.pick(&["tvr", "tsi", "cvm-list", "cvm-results", "ccd-iad"]);
            let v = hostile(r, 4);
            gen::opt_for(r, which, crate::scenario::hexu(&v).into_bytes())
        }
        _ => {
            let mut b = vec![];
            for _ in 0..1 + r.us(4) {
                let tag = match r.below(5) { 0 => tlv::rand_tag(r, false), 1 => r.pick(tlv::VALUE).to_vec(), _ => r.pick(OPAQUE).to_vec() };
                let v = if r.chance(1, 6) { let m = *r.pick(&[0x1bu8, 0x07, 0x08, 0x7f, 0x0d, 0x9b]); masks = Some((m as char).to_string()); vec![m; 2 + r.us(4)] } else if tlv::VALUE.contains(&&tag[..]) && r.chance(2, 3) { { let bad = r.chance(1, 3); tlv::gen_value(r, &tag, bad) } } else { hostile(r, 6) };
                let n = tlv::TNode { tag, val: tlv::Val::Prim(v), lenform: 0 };
                b.push(if r.chance(1, 6) { tlv::TNode { tag: vec![0x70], val: tlv::Val::Cons(vec![n]), lenform: 0 } } else { n });
            }
            let mut t = if f == Format::Ing || (f == Format::Auto && r.chance(1, 2)) {
                b.iter().map(|x| { let v = match &x.val { tlv::Val::Prim(v) => v.clone(), tlv::Val::Cons(k) => tlv::enc(k) }; let a = clean(v.clone()); if a.len() == v.len() && r.chance(3, 4) { let mut o = format!("T{}:{:02X}:a", crate::scenario::hexu(&x.tag), v.len() & 0xff).into_bytes(); o.extend(v); o } else { format!("T{}:{:04X}:h{}", crate::scenario::hexu(&x.tag), v.len(), crate::scenario::hexu(&v)).into_bytes() } }).collect::<Vec<_>>().join(&[*r.pick(b"~|;\x1c\x1b\x07")][..])
            } else { tlv::hex_text(r, &tlv::enc(&b)).into_bytes() };
            if r.chance(1, 6) { let k = r.us(t.len() + 1); let h = clean(hostile(r, 1)); t.splice(k..k, h); }
            if r.chance(1, 6) { let k = 1 + r.us(4); t.truncate(t.len().saturating_sub(k).max(1)); }
            gen::tlv_args(r, f, &String::from_utf8_lossy(&t))
        }
    };
    let op = gen::Op { name: "hostile", args, tlv: f != Format::Ber || masks.is_some(), expect: Expect::Open };
    let (mut s, _) = invocation(r, &op, true);
    let mut kind = "data";
    if let (Some(m), false) = (masks, s.argv.iter().any(|a| a.starts_with(b"-m") || a.starts_with(b"--mask"))) { if op.args[0].ends_with(b"tlv") || op.args[0].starts_with(b"--") { s.argv.push(b"-m".to_vec()); s.argv.push(m.into_bytes()); } }
    match r.below(8) { // a configuration from somebody else
        0 => {
            kind = "settings";
            s.env.retain(|e| e.0 != b"PEMV_CONFIG");
            let p = format!("{}/pemv.toml", s.cwd);
            let h = |r: &mut Rng| String::from_utf8_lossy(&clean(hostile(r, 2))).into_owned();
            let esc = |t: &str| t.chars().map(|c| if c.is_control() || c == '"' || c == '\\' { format!("\\u{:04x}", c as u32) } else { c.to_string() }).collect::<String>();
            let x = h(r);
            let t = match r.below(7) { 0 => format!("[default]\ncli_colour = \"{}\"\n", esc(&x)), 1 => format!("[default]\nmasking_characters = \"{}\"\n", esc(&x)), 2 => format!("[default]\nsort_parsed_tags = \"{}\"\n", esc(&x)), 3 => format!("[\"{}\"]\na = 1\n[\"{}\"]\na = 1\n", esc(&x), esc(&x)), 4 => format!("[default]\n{x}\n"), 5 => format!("[default]\nmasking_characters = [\"{}\", 5]\n", esc(&x)), _ => format!("\"{}\" = 1\n", esc(&x)) };
            s.add(Node::file(&p, t.as_bytes()));
        }
        1 => { kind = "settings"; let v = clean(hostile(r, 2)); let n = *r.pick(&["PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS", "PEMV_PROFILE", "PEMV_CONFIG"]); s.setenv(n, &v); }
        _ => {}
    }
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C18", kind, s.clone())];
    let mut t = s.clone();
    hard(r, &mut t, &base);
    v.push(Plan::new("C18", kind, t));
    let mut t = s.clone();
    t.faults = benign(r, &base);
    v.push(Plan::new("C18", kind, t));
    let mut t = s;
    enrich(r, &mut t, &base, true);
    v.push(Plan::new("C18", kind, t));
    Ok(v)
}
/// One invocation for two builds of the program.
fn c19(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let op = match r.below(14) {
        0 => gen::other_op(r), 1 => big_op(r),
        2 => { // coded values of any content and length
            let which = *r.pick(&gen::VALUE_OPS);
            let n = r.us(40);
            let v = r.bytes(n);
            let t = if which == "service-code" { match r.below(3) { 0 => format!("{}", r.below(70_000)), 1 => format!("{}{}{}", r.below(10), r.below(10), r.below(10)), _ => format!("{}", r.u64()) } } else { tlv::hex_text(r, &v) };
            gen::Op { name: which, args: gen::opt_for(r, which, if t.is_empty() { b"z".to_vec() } else { t.into_bytes() }), tlv: false, expect: Expect::Open }
        }
        3 => { // numbers at the edges of their types
            let t = match r.below(3) {
                0 => { let mut b = vec![0x5A, 0x80 | r.range(1, 9) as u8]; for _ in 0..8 { b.push(*r.pick(&[0, 0xff, 0x7f, 0x80, 1])); } tlv::hex_text(r, &b) }
                1 => format!("T{}:{}:{}{}", r.pick(&["5A", "005A", "DFFF01", "00", "0000"]), r.pick(&["FFFFFFFF", "80000000", "7FFFFFFF", "00000000", "0100000000", "FFFFFFFFFFFFFFFF", "0001", "01"]), r.pick(&['a', 'h']), r.pick(&["", "00", "12", "4A4B"])),
                _ => { let d = 200 + r.us(220); let b = tlv::gen_chain(r, d); tlv::hex_text(r, &b) }
            };
            let f = gen::format(r);
            gen::Op { name: gen::opname(f), args: gen::tlv_args(r, f, &t), tlv: true, expect: Expect::Open }
        }
        _ => gen::any_op(r, Want::Any),
    };
    let mut s = if op.name == "other" { let mut s = gen::world(r); s.argv.extend(op.args.clone()); s } else { invocation(r, &op, true).0 };
    s.lim.0 = s.lim.0.max(4_000_000);
    if r.chance(1, 12) { let p = format!("{}/pemv.toml", s.cwd); s.env.retain(|e| e.0 != b"PEMV_CONFIG"); s.add(Node::file(&p, r.pick(BROKEN))); }
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C19", "plain", s.clone())];
    if r.chance(1, 2) { let mut t = s.clone(); t.faults = benign(r, &base).into_iter().filter(|f| f.cls != "random").collect(); v.push(Plan::new("C19", "benign", t)); }
    if r.chance(1, 2) && !base.out.is_empty() { let mut t = s.clone(); let n = base.out.len() as u64; t.caps.push(Cap { fd: 1, bytes: if r.chance(1, 3) { n - r.below(n.min(12) + 1) } else { r.below(n + 1) }, err: *r.pick(&[ENOSPC, EPIPE, EIO, EAGAIN]), oneshot: r.chance(1, 3), partial: r.chance(1, 2) }); v.push(Plan::new("C19", "hard", t)); }
    Ok(v)
}
/// Text for automatic detection: either format, damaged, readable as both, or next to nothing.
fn auto_text(r: &mut Rng, g: &tlv::GenCfg) -> String {
    match r.below(10) {
        0 | 1 => gen::block_text(r, Format::Ber, g),
        2 | 3 => gen::block_text(r, Format::Ing, g),
        4 => { let t = gen::block_text(r, Format::Ber, g); gen::damage(r, Format::Ber, &t) }
        5 => { let t = gen::block_text(r, Format::Ing, g); gen::damage(r, Format::Ing, &t) }
        6 | 7 => { // the digits of one format, in the clothes of the other
            let b = tlv::gen_block(r, g);
            let sep = *r.pick(&["~", "|", ";", "", " ", "T", "a", "0", "G"]);
            let mut t = b.iter().map(|x| { let v = match &x.val { tlv::Val::Prim(v) => v.clone(), tlv::Val::Cons(k) => tlv::enc(k) }; let f = *r.pick(&['h', 'h', 'h', 'h', 'a', 'x']); let ty = *r.pick(&['T', 'T', 'T', 'D', 't', '5']); let mut lb = vec![]; tlv::enc_len(v.len(), 0, &mut lb); format!("{ty}{}:{}:{f}{}", crate::scenario::hexu(&x.tag), crate::scenario::hexu(&lb), crate::scenario::hexu(&v)) }).collect::<Vec<_>>().join(sep);
            if r.chance(1, 3) && !t.is_empty() { let k = r.us(t.len()); t.replace_range(k..=k, r.pick(&["", ":", "h", "a", "T", "0", "::"])); }
            t
        }
        8 => { let mut t = gen::block_text(r, Format::Ber, g); for _ in 0..1 + r.us(4) { let k = (0..=t.len()).filter(|k| t.is_char_boundary(*k)).nth(r.us(t.len())).unwrap_or(0); t.insert_str(k, r.pick(&[":", ":h", "T", "a", ":a", "::", "\u{e9}", "~"])); } t }
        _ => { let n = 1 + r.us(14); (0..n).map(|_| *r.pick(&['T', 'T', ':', ':', '0', '1', '5', 'A', 'a', 'h', 'D', '~', ' ', '9', 'F', 'z', '\u{e9}'])).collect() }
    }
}
fn c24(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut g = gen::small_cfg(r);
    let profile = "default";
    let cut = r.chance(1, 3);
    let mut layers = if r.chance(1, 3) { vec![] } else { cfg::rand_layers(r, true, true, profile) };
    if cut { layers.retain(|l| l.key != 'c'); layers.push(Layer { src: "cli".into(), key: 'c', val: "never".into() }); }
    let st = cfg::resolve(&layers, profile);
    if r.chance(1, 2) { g.masks = if st.masks.is_empty() { vec!['*'] } else { st.masks.clone() }; }
    let text = auto_text(r, &g);
    if text.is_empty() || text.contains('\0') { return Ok(vec![]); }
    let mut s = gen::world(r);
    let path = format!("{}/pemv.toml", s.cwd);
    let has = layers.iter().any(|l| l.src.starts_with("file:"));
    cfg::apply(&mut s, &[], &layers, &path, r.u64() >> 1, has);
    s.argv.push(format!("--auto-tlv={text}").into_bytes());
    let masks: String = st.masks.iter().collect();
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C24", "plain", s.clone()).with("masks", &masks)];
    if r.chance(1, 3) { let mut t = s.clone(); t.faults = benign(r, &base); v.push(Plan::new("C24", "benign", t).with("masks", &masks)); }
    if cut && base.out.len() > 30 {
        for _ in 0..2 { let mut t = s.clone(); let n = base.out.len() as u64; t.caps.push(Cap { fd: 1, bytes: if r.chance(1, 3) { n - r.below(n.min(12) + 1) } else { r.below(n + 1) }, err: *r.pick(&[ENOSPC, EPIPE, EIO]), oneshot: false, partial: true }); v.push(Plan::new("C24", "cut", t).with("masks", &masks)); }
    }
    Ok(v)
}
/// The option that gives a block (in BER form) to the program in one of the formats.
fn block_arg(fmt: &str, b: &[u8]) -> Option<Vec<u8>> {
    if fmt == "ber" || fmt == "auto-ber" { return Some(format!("--{}-tlv={}", if fmt == "ber" { "ber" } else { "auto" }, crate::scenario::hexu(b)).into_bytes()); }
    let v = tlv::read(b)?.iter().map(|n| { let d = n.data.clone().unwrap_or_default(); format!("T{}:{:X}:h{}", crate::scenario::hexu(&n.tag), L(d.len()), crate::scenario::hexu(&d)) }).collect::<Vec<_>>().join("~");
    Some(format!("--{}-tlv={v}", if fmt == "ing" { "ingenico" } else { "auto" }).into_bytes())
}
/// A length in whole bytes of hexadecimal.
struct L(usize);
impl std::fmt::UpperHex for L { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let mut b = vec![]; tlv::enc_len(self.0, 4, &mut b); let k = b[1..].iter().position(|z| *z != 0).unwrap_or(3); f.write_str(&crate::scenario::hexu(&b[1 + k..])) } }
fn c27(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut g = gen::small_cfg(r);
    g.value_tags = g.value_tags || r.chance(2, 3);
    g.max_nodes = g.max_nodes.min(12);
    let profile = "default";
    let mut layers = if r.chance(1, 4) { vec![] } else { cfg::rand_layers(r, true, true, profile) };
    layers.retain(|l| l.key == 'c' || l.src != "cli"); // (the options of single values refuse the others)
    if r.chance(1, 2) { layers.push(Layer { src: "cli".into(), key: 'c', val: "always".into() }); }
    let st = cfg::resolve(&layers, profile);
    if r.chance(1, 2) { g.masks = if st.masks.is_empty() { vec!['*'] } else { st.masks.clone() }; }
    let mut b = tlv::enc(&tlv::gen_block(r, &g));
    if r.chance(1, 3) { // values met alone as well
        let w = *r.pick(&["tvr", "tsi", "ccd-iad", "cvm-results", "cvm-list", "cvm-list"]);
        let mut v = gen::good_value(r, w);
        match r.below(16) { 0 => { let n = r.us(v.len()); v.truncate(n); } 1 => { let n = 1 + r.us(3); let b = *r.pick(&[0u8, 0, 0xFF, 0x20, 0x80]); v.extend(std::iter::repeat(b).take(n)); } 2 => { v.push(r.u64() as u8); } 3 => { v.insert(0, 0); } 4 => { let k = r.us(v.len()); v[k] = r.u64() as u8; } _ => {} }
        let tag: &[u8] = match w { "tvr" => &[0x95], "tsi" => &[0x9B], "ccd-iad" => &[0x9F, 0x10], "cvm-results" => &[0x9F, 0x34], _ => &[0x8E] };
        let mut o = vec![tlv::TNode { tag: tag.to_vec(), val: tlv::Val::Prim(v), lenform: 0 }];
        for _ in 0..r.us(4) { o = vec![tlv::TNode { tag: r.pick(&[&[0x70u8][..], &[0x77], &[0xBF, 0x0C], &[0xE1]]).to_vec(), val: tlv::Val::Cons(o), lenform: 0 }]; }
        let mut e = tlv::enc(&o);
        if r.chance(1, 2) { e.extend_from_slice(&b); b = e; } else { b.extend_from_slice(&e); }
    }
    let Some(n) = tlv::read(&b) else { return Ok(vec![]) };
    let fmt = *r.pick(&["ber", "ber", "ing", "auto-ber", "auto-ing"]);
    if b.is_empty() || b.len() > 20_000 || (fmt.ends_with("ing") && n.iter().any(|n| n.tag[0] == 0)) { return Ok(vec![]); }
    let Some(a) = block_arg(fmt, &b) else { return Ok(vec![]) };
    let mut s = gen::world(r);
    let path = format!("{}/pemv.toml", s.cwd);
    let has = layers.iter().any(|l| l.src.starts_with("file:"));
    cfg::apply(&mut s, &[], &layers, &path, r.u64() >> 1, has);
    s.argv.push(a);
    let masks: String = st.masks.iter().collect();
    let plan = |k: &str, t: Sc| Plan::new("C27", k, t).with("block", &crate::scenario::hex(&b)).with("fmt", fmt).with("masks", &masks).with("sort", if st.sort { "1" } else { "0" }).with("text", "1");
    let base = c.reference(&s)?;
    let mut v = vec![plan("plain", s.clone())];
    if r.chance(1, 2) { let mut t = s.clone(); t.faults = benign(r, &base); v.push(plan("benign", t)); }
    Ok(v)
}
fn c21(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let tag = match r.below(6) {
        0 => tlv::rand_tag(r, true), 1 => tlv::rand_tag(r, false), 2 => r.pick(tlv::VALUE).to_vec(),
        3 => match r.below(3) { 0 => vec![0x5F, r.range(0x20, 0x57) as u8], 1 => vec![r.range(0x40, 0x9E) as u8], _ => vec![0x9F, r.range(0x01, 0x7F) as u8] },
        4 => gen::good_value(r, "identify"),
        _ => { let n = 1 + r.us(6); let mut t = r.bytes(n); if r.chance(1, 2) { let mut k = r.pick(tlv::VALUE).to_vec(); k.append(&mut t); t = k; } if r.chance(1, 4) { t.insert(0, 0); } t }
    };
    let val = match r.below(5) { 0 => vec![b'*'; 2 + r.us(4)], 1 => { let n = r.us(9); r.bytes(n) } _ => tlv::gen_value(r, &tag, false) };
    let probe = gen::Op { name: "identify", args: vec![b"@".to_vec()], tlv: false, expect: Expect::Open };
    let (mut s, _) = invocation(r, &probe, true);
    s.argv.retain(|a| a != b"@");
    s.argv.push(format!("--identify={}", crate::scenario::hexu(&tag)).into_bytes());
    let base = c.reference(&s)?;
    let plan = |k: &str, t: Sc| Plan::new("C21", k, t).with("tag", &crate::scenario::hex(&tag)).with("val", &crate::scenario::hex(&val)).with("text", "1");
    let mut v = vec![plan("plain", s.clone())];
    if r.chance(1, 2) { let mut t = s.clone(); t.faults = benign(r, &base); v.push(plan("benign", t)); }
    Ok(v)
}
/// The digits of a hexadecimal argument written another way.
fn respell(r: &mut Rng, digits: &str, colons: bool) -> String {
    let style = r.below(4);
    let sep = *r.pick(&[" ", " ", "-", ":", "\n", "\t", ",", ".", "_", "  ", " - ", "\r\n", "\u{a0}", "\u{e9}", "h", "x", "|", "'", "\u{2003}", "#", ";", "//", "/", "\"", "=", "+", "*", "(", "]", "{", "@", "$", "%", "&", "!", "\\", "\\x", "<", "~", "^", "`", "?", "--", "; ", ", ", "\u{b}", "\u{7f}", "\u{1b}", "g", "O", "l", "\u{ff11}", "\u{feff}", "\u{200b}", "\u{2028}", "\u{85}"]);
    let sep = if !colons && sep == ":" { " " } else { sep };
    let every = *r.pick(&[2usize, 2, 2, 4, 8, 1, 32]);
    let seps = r.chance(3, 4);
    let mut o = String::new();
    for (i, ch) in digits.chars().enumerate() {
        if seps && i > 0 && (if every == 1 { r.chance(1, 3) } else { i % every == 0 }) { o.push_str(sep); }
        o.push(match style { 0 => ch.to_ascii_lowercase(), 1 => ch, _ => if r.chance(1, 2) { ch.to_ascii_lowercase() } else { ch } });
    }
    if r.chance(1, 5) { o.push_str(sep); }
    if r.chance(1, 5) { o.insert_str(0, sep); }
    o
}
fn anycase(r: &mut Rng, t: &str) -> String { t.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c }).collect() }
/// Faults that fall on two runs of the same output alike.
fn alike(r: &mut Rng, t: &mut Sc, base: &Res) {
    let e = *r.pick(&[ENOSPC, EPIPE, EIO, EAGAIN]);
    match r.below(7) {
        0 | 1 => { let n = base.out.len() as u64; t.caps.push(Cap { fd: 1, bytes: if r.chance(1, 3) { n - r.below(n.min(12) + 1) } else { r.below(n + 1) }, err: e, oneshot: r.chance(1, 3), partial: r.chance(1, 2) }); }
        2 => t.caps.push(Cap { fd: 2, bytes: r.below(base.err.len() as u64 + 1), err: e, oneshot: r.chance(1, 3), partial: r.chance(1, 2) }),
        3 => t.faults.push(Fault::err("wout", r.below(base.count("wout").max(1)), MAXCOUNT, e)),
        4 => { let p = format!("{}/pemv.toml", t.cwd); t.env.retain(|e| e.0 != b"PEMV_CONFIG"); t.add(Node::file(&p, r.pick(BROKEN))); }
        5 => t.fd[1 + r.us(2)] = 'c',
        _ => t.faults = benign(r, base).into_iter().filter(|f| f.cls != "random" && f.cls != "poll").collect(),
    }
}
fn words(v: &[Vec<u8>]) -> String { v.iter().map(|a| crate::scenario::hex(a)).collect::<Vec<_>>().join(" ") }
fn c25(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut g = gen::small_cfg(r);
    let which = *r.pick(&["tvr", "tsi", "ccd-cvr", "ccd-iad", "cvm-results", "cvm-list", "identify", "ber-tlv", "ber-tlv", "ber-tlv", "auto-tlv", "auto-tlv", "ingenico-tlv", "ingenico-tlv", "auto-tlv"]);
    let tlvop = which.ends_with("tlv");
    let ing = which == "ingenico-tlv" || (which == "auto-tlv" && r.chance(1, 3));
    let probe = gen::Op { name: which, args: vec![b"@".to_vec()], tlv: tlvop, expect: Expect::Open };
    let (mut s, st) = invocation(r, &probe, true);
    s.argv.retain(|a| a != b"@");
    let mut segs: Vec<(usize, usize)> = vec![(0, 0)]; // where both texts can be taken apart alike
    let (was, twin) = if ing {
        g.masks = vec!['*'];
        g.mask_rate = 10;
        let letters = !st.masks.iter().any(|m| m.is_ascii_hexdigit() && m.is_ascii_alphabetic());
        let b: Vec<_> = tlv::gen_block(r, &g).into_iter().filter(|x| x.tag[0] != 0).collect();
        let (s1, s2) = (*r.pick(&['~', '|', ';']), *r.pick(&['~', '|', ';', ',', ' ', '\u{1c}', ':', 'T', 'a', '0', '\n']));
        let (mut x, mut y) = (String::new(), String::new());
        for (k, n) in b.iter().enumerate() {
            let v = match &n.val { tlv::Val::Prim(v) => v.clone(), tlv::Val::Cons(k) => tlv::enc(k) };
            let (tag, len) = (crate::scenario::hexu(&n.tag), crate::scenario::hexu(&{ let b = (v.len() as u32).to_be_bytes(); let k = b.iter().position(|z| *z != 0).unwrap_or(3); b[k..].to_vec() }));
            let pad = |r: &mut Rng, t: &str, max: usize| { let mut o = t.to_string(); while o.len() < max && r.chance(1, 5) { o.insert_str(0, "00"); } o };
            let ascii = !v.is_empty() && v.iter().all(|b| (0x20..0x7f).contains(b)) && r.chance(1, 2);
            let val = if ascii { format!("a{}", String::from_utf8_lossy(&v)) } else { format!("h{}", if r.chance(1, 12) && (which == "ingenico-tlv" || (v.len() > 0 && st.masks.contains(&'*'))) { "*".repeat(v.len() * 2) } else { crate::scenario::hexu(&v) }) };
            let val2 = if ascii || !letters { val.clone() } else { format!("h{}", anycase(r, &val[1..])) };
            if k > 0 { x.push(s1); y.push(s2); }
            x.push_str(&format!("T{tag}:{len}:{val}"));
            let (t2, l2) = (pad(r, &tag, tag.len() + 6), pad(r, &len, 8));
            y.push_str(&format!("T{}:{}:{val2}", anycase(r, &t2), anycase(r, &l2)));
            segs.push((x.len(), y.len()));
        }
        if r.chance(1, 3) { y.push(s2); }
        // (what lacks the layout is read as the other format by auto-detection, where padding is data)
        if which == "ingenico-tlv" && r.chance(1, 6) { let d = *r.pick(&["~T5A:04:h01", "~T95:01:h00", "~T5A:01:x01", "~T9F33:FFFFFFFF:h00", "~T5A:01:h0"]); if !y.ends_with(s2) || b.is_empty() { x.push_str(d); y.push_str(d); } }
        (x, y)
    } else {
        let mut v = match which { "ber-tlv" | "auto-tlv" => { let b = tlv::gen_block(r, &g); tlv::enc(&b) } w => gen::good_value(r, w) };
        if r.chance(1, 5) { if r.chance(1, 2) { let k = r.us(v.len() + 1); v.truncate(k); } else { v.push(r.u64() as u8); } }
        let mut d = crate::scenario::hexu(&v);
        if r.chance(1, 15) { d.push(*r.pick(&['0', '9', 'F'])); }
        let y = respell(r, &d, which != "auto-tlv");
        let ends: Vec<usize> = tlv::to_tree(&v).map(|t| { let mut n = 0; t.iter().map(|x| { n += 2 * tlv::enc(std::slice::from_ref(x)).len(); n }).collect() }).unwrap_or_default();
        let ends: Vec<usize> = if tlvop && !ends.is_empty() { ends } else { (1..=d.len() / 2).map(|k| 2 * k).collect() };
        let at: Vec<usize> = y.char_indices().filter(|(_, c)| c.is_ascii_hexdigit()).map(|(i, _)| i + 1).collect();
        for e in ends { if e <= d.len() && e <= at.len() { segs.push((e, at[e - 1])); } }
        (d, y)
    };
    if was.is_empty() || twin.is_empty() || was.contains('\0') || twin.contains('\0') || was.len() > 120_000 || twin.len() > 120_000 { return Ok(vec![]); }
    s.argv.push(format!("--{which}={was}").into_bytes());
    let mut other = s.argv.clone();
    other.pop();
    other.push(format!("--{which}={twin}").into_bytes());
    let base = c.reference(&s)?;
    let mut v = vec![];
    for k in 0..3 { let mut t = s.clone(); if k > 0 { alike(r, &mut t, &base); } v.push(Plan::new("C25", if k == 0 { "plain" } else { "fault" }, t).with("other", &words(&other)).with("text", "1").with("segs", &segs.iter().map(|s| format!("{},{}", s.0, s.1)).collect::<Vec<_>>().join(" "))); }
    Ok(v)
}
/// Options that cannot be taken as they stand.
fn misuse(r: &mut Rng) -> Vec<Vec<u8>> {
    let w = |v: &[&str]| v.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>();
    let value = |r: &mut Rng| -> (&'static str, Vec<Vec<u8>>) { let o = gen::value_op(r, false); (o.name, o.args) };
    let block = |r: &mut Rng| -> (&'static str, Vec<Vec<u8>>) { let g = gen::small_cfg(r); let o = gen::tlv_op(r, &g, Want::Any); (o.name, o.args) };
    let op = |r: &mut Rng| if r.chance(1, 2) { value(r) } else { block(r) };
    let mask: &[&str] = r.pick(&[&["-m", "*"][..], &["--masking", "#", "X"], &["--masking-character=*"], &["--masking-char", "#"]]);
    let sort: &[&str] = r.pick(&[&["--sort"][..], &["--sort=true"], &["--sort-parsed-tags=false"], &["--sort-parsed-tags"]]);
    let nosort: &[&str] = r.pick(&[&["--no-sort"][..], &["--no-sort=true"], &["--no-sort-parsed-tags=false"], &["--no-sort-parsed-tags"]]);
    let mut parts: Vec<Vec<Vec<u8>>> = match r.below(19) {
        16 => { // an option whose value is missing, followed by something that is none
            let n = *r.pick(&["--tvr", "--95", "--ber-tlv", "-b", "-t", "--id", "--identify", "--8e", "--cvm-list", "-a", "--parse", "--auto-tlv", "-i", "--ingenico-tlv", "--cvm-result", "-r", "--service-code", "--5f30", "--ccd-iad", "--9f10", "--ccd-cvr", "--tsi", "--9b"]);
            let next: &[&str] = r.pick(&[&["--colour=never"][..], &["--color=always"], &["--colour", "never"], &["--colour=never", "--color=auto"], &["-h"], &["--bogus"], &["-5A"], &["-z9F"], &["--5A0101"]]);
            if next[0] == "-h" { return w(&[n]); }
            return w(&[&[n], next].concat());
        }
        17 => vec![block(r).1, w(&[*r.pick(&["--masking-character", "--masking", "--masking-char", "-m"]), *r.pick(&["*,#", "#,X", "* #", "*;#", "*|X", ",,", "XX", "*#X", "  ", "\\*", "U+2A", "0x2A", "asterisk", "\u{e9}\u{e9}", "[\"*\"]"])])],
        18 => vec![op(r).1, w(&[*r.pick(&["--colour", "--color"]), *r.pick(&["Auto", "NEVER", "Ansi", "alwayS", " never", "never ", "true", "false", "on", "off", "always,never", "a", "nev", "1", "0", "\"auto\"", "no", "none", "default"])])],
        0 | 1 => loop { let (a, x) = op(r); let (b, y) = op(r); if a != b { break vec![x, y]; } },
        2 => { let (a, x) = value(r); let y = gen::opt_for(r, a, b"01".to_vec()); vec![x, y] }
        3 => vec![value(r).1, w(mask)],
        4 => vec![value(r).1, w(sort)],
        5 => vec![value(r).1, w(nosort)],
        6 => vec![block(r).1, w(sort), w(nosort)],
        7 => vec![w(*r.pick(&[mask, sort, nosort]))],
        8 => { let n = *r.pick(&["--tvr", "--95", "--ber-tlv", "-b", "-t", "--id", "--8e", "-a", "--parse", "-i", "--cvm-result", "-r", "--service-code", "--masking", "-m", "--colour", "--color"]); return if r.chance(1, 2) || n.contains("mask") || n == "-m" || n.contains("colo") { let (_, mut x) = block(r); x.push(n.as_bytes().to_vec()); x } else { w(&[n]) }; }
        9 => vec![w(&[*r.pick(&["--tvr=", "--95=", "--ber=", "--auto=", "--id=", "--5f30=", "--9F10=", "--cvm-results=", "--ingenico="])])],
        10 => vec![op(r).1, w(*r.pick(&[&["--colour=purple"][..], &["--color=ALWAYS"], &["--colour", "yes"], &["--colour="], &["--color=auto,always"]]))],
        11 => vec![block(r).1, w(*r.pick(&[&["-m", "ab"][..], &["--masking-character="], &["--masking=**"], &["--masking-char", ""]]))],
        12 => vec![block(r).1, w(*r.pick(&[&["--sort=maybe"][..], &["--no-sort=0"], &["--sort-parsed-tags=TRUE"], &["--no-sort="], &["--sort", "--sort"], &["--no-sort", "--no-sort-parsed-tags"]]))],
        13 => vec![op(r).1, w(&[*r.pick(&["extra", "5A0101", "-z", "--bogus", "--sort-tags", "--mask", "--TVR", "--Ber-Tlv", "--ber-t", "--ident", "--colou", "--auto-tl", "-B", "-s", "-c", "--9F33", "--8F", "--verbose", "-v", "-q", "--output=x", "--config=x", "--format=json"])])],
        14 => vec![op(r).1, w(&["--colour=never"]), w(&["--color=always"])],
        _ => { let n = *r.pick(&["--TVR", "--Tvr", "--ber_tlv", "--berTlv", "--BER", "--AUTO", "--9B0", "--95h", "--0x95", "--tags", "--parse-ber", "--cvm", "--iads", "--service", "--ccd", "--tlv"]); vec![w(&[&format!("{n}=0000000000")])] }
    };
    if r.chance(1, 4) && !parts.iter().flatten().any(|a| a.starts_with(b"--colo")) { parts.push(w(&[*r.pick(&["--colour=always", "--color=never"])])); }
    r.shuffle(&mut parts);
    parts.concat()
}
fn c26(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut v = vec![];
    if r.chance(1, 4) { // to be refused, whatever else is wrong
        let a = misuse(r);
        if a.iter().any(|x| x.contains(&0)) { return Ok(vec![]); }
        let mut s = gen::world(r);
        s.argv.extend(a);
        let base = c.reference(&s)?;
        for k in 0..2 { let mut t = s.clone(); if k > 0 { alike(r, &mut t, &base); } v.push(Plan::new("C26", "usage", t).with("text", "1")); }
        return Ok(v);
    }
    let mut put = vec![];
    let (mut s, other) = if r.chance(1, 12) {
        let mut s = gen::world(r);
        let (a, b) = *r.pick(&[("-h", "-?"), ("-?", "-h"), ("--version", "-V"), ("-V", "--version")]);
        s.argv.push(a.as_bytes().to_vec());
        (s, vec![b"pemv".to_vec(), b.as_bytes().to_vec()])
    } else {
        let (which, val): (&str, Vec<u8>) = if r.chance(1, 2) {
            let f = gen::format(r);
            let g = gen::small_cfg(r);
            let t = gen::block_text(r, f, &g);
            (gen::opname(f), if r.chance(1, 4) { gen::damage(r, f, &t) } else { t }.into_bytes())
        } else {
            let w = *r.pick(&gen::VALUE_OPS);
            (w, if w == "service-code" { format!("{}", r.below(1100)).into_bytes() } else { let mut b = gen::good_value(r, w); if r.chance(1, 5) { b.push(7); } tlv::hex_text(r, &b).into_bytes() })
        };
        if val.is_empty() || val.contains(&0) || val[0] == b'-' || val[0] == b'=' || val.len() > 100_000 { return Ok(vec![]); }
        let op = gen::Op { name: "alias", args: vec![], tlv: which.ends_with("tlv"), expect: Expect::Open };
        let (mut s, _) = invocation(r, &op, true);
        let cli: Vec<Layer> = cfg::rand_layers(r, op.tlv, false, "default").into_iter().filter(|l| l.src == "cli" && !l.val.is_empty()).collect();
        let refs: Vec<&Layer> = cli.iter().collect();
        let mut a = vec![b"pemv".to_vec(), format!("--{which}").into_bytes(), val.clone()];
        for l in &refs { match l.key { 'c' => a.push(format!("--colour={}", l.val).into_bytes()), 'm' => a.extend(l.val.chars().map(|m| format!("--masking-character={m}").into_bytes())), _ => a.push(format!("--sort-parsed-tags={}", l.val).into_bytes()) } }
        s.argv = a;
        let o = cfg::options(r, &refs);
        put.clone_from(&val);
        let x = gen::opt_for(r, which, val);
        let mut b = vec![b"pemv".to_vec()];
        if r.chance(1, 2) { b.extend(o); b.extend(x); } else { b.extend(x); b.extend(o); }
        (s, b)
    };
    s.lim.0 = s.lim.0.max(1_000_000);
    let base = c.reference(&s)?;
    for k in 0..3 { let mut t = s.clone(); if k > 0 { alike(r, &mut t, &base); } v.push(Plan::new("C26", if k == 0 { "plain" } else { "fault" }, t).with("other", &words(&other)).with("text", "1").with("val", &crate::scenario::hex(&put))); }
    Ok(v)
}
/// Whether a variable is none that has a part in what the program, its runtime or its libraries document.
fn ambient(n: &str) -> bool { !n.starts_with("PEMV_CONFIG") && !n.starts_with("PEMV_PROFILE") && !matches!(n, "PARSE_DEBUG" | "TERM" | "NO_COLOR") && !n.starts_with("LD_") && !n.starts_with("MALLOC") && !n.starts_with("RUST_") && n != OUT_MAN && n != OUT_COMP }
fn is_generator(t: &Sc) -> bool { t.argv.first().is_some_and(|a| a == b"build-script-build") }
/// Paths that belong to the system rather than to anybody's files.
fn systemic(n: &str) -> bool { n.starts_with("/proc") || n.starts_with("/sys") || n.starts_with("/lib") || n.starts_with("/usr/lib") || n.starts_with("/dev") || n.contains(".so") || n.contains('\0') }
/// Gives the program things it looked for and did not find: variables, files, directories.
fn enrich(r: &mut Rng, t: &mut Sc, base: &Res, paths: bool) {
    for (k, name) in &base.probes {
        let Ok(n) = String::from_utf8(name.clone()) else { continue };
        match k {
            'E' if ambient(&n) && r.chance(2, 3) && t.getenv(&n).is_none() => t.setenv(&n, r.pick(&["/tmp/x.log", "/tmp", "1", "1", "/home/u/.cache", "debug", "0", "40", "true", "always", "never", "yes", "", "*", "#", "/dev/tty", "/dev/pts/0", "/var/log/syslog"]).as_bytes()),
            'F' if paths && r.chance(1, 2) => {
                let base_ = n.rsplit('/').next().unwrap_or("");
                // a configuration file has a say, a dotenv file of the generator as well
                let ours = if is_generator(t) { base_ == ".env" } else { base_.ends_with(".toml") };
                if systemic(&n) || ours { continue; }
                if t.getenv("PEMV_CONFIG").is_some_and(|c| { let c = String::from_utf8_lossy(c).into_owned(); n.ends_with(c.trim_start_matches("./")) }) { continue; }
                if n.starts_with('/') && !t.has(&n) { if r.chance(1, 2) { t.add(Node::dir(&n)); } else { t.add(Node::file(&n, r.pick(&[&b""[..], b"1\n", b"UTC0\n", b"[default]\nsort_parsed_tags = false\n", b"x"]))); } }
            }
            _ => {}
        }
    }
}
fn c10(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut op = match r.below(10) { 0 => big_op(r), _ => gen::any_op(r, Want::Any) };
    // values that look like something to be read from elsewhere are values
    let mut named: Vec<&str> = vec![];
    if r.chance(1, 12) {
        let v = *r.pick(&["-", "-", "/dev/stdin", "@block.hex", "block.hex", "./block.hex", "<block.hex", "file:block.hex", "@-", "/tmp/block.hex", "$CARD", "%CARD%", "${CARD}"]);
        let o = *r.pick(&["ber-tlv", "auto-tlv", "ingenico-tlv", "tvr", "cvm-list", "service-code", "ccd-iad", "identify"]);
        op = gen::Op { name: o, args: vec![format!("--{o}={v}").into_bytes()], tlv: o.ends_with("tlv"), expect: Expect::Open };
        named = vec!["block.hex", "/tmp/block.hex", "@block.hex", "/dev/stdin"];
    }
    let (s, _) = invocation(r, &op, true);
    let base = c.reference(&s)?;
    if !matches!(base.end, End::Exit(0)) { return Ok(vec![]); }
    let mut v = vec![];
    for k in 0..4u64 {
        let mut t = s.clone();
        let all = k == 0;
        let on = |r: &mut Rng| all || r.chance(1, 4);
        if on(r) { t.seed = r.u64() >> 1; }
        if on(r) { t.clock = (r.below(1 << 40) as i64, r.below(1_000_000_000) as i64, r.logu(3_600_000_000_000) as i64); }
        if on(r) { t.cjump = Some((r.below(5) as i64, r.below(4_000_000_000) as i64 - 2_000_000_000)); }
        if on(r) { t.pid = r.range(1, 4_000_000) as i64; }
        if on(r) { t.attr = r.u64() >> 1; }
        if on(r) { t.uid = *r.pick(&[0, 1, 1000, 65534, 4_000_000]); }
        if on(r) { t.cpus = r.range(1, 128) as u32; }
        if on(r) { t.heap = r.u64() >> 40; }
        if on(r) { t.lim.2 = *r.pick(&[8 << 20, 16 << 20, 64 << 20]); }
        if on(r) { t.stackoff = r.below(64) * 16; }
        if on(r) { t.sched = r.u64() >> 1; }
        if on(r) { t.fd[0] = *r.pick(&['n', 'p', 'f', 't', 'c']); let n = r.us(200); t.stdin = if t.fd[0] == 'n' || t.fd[0] == 'c' { vec![] } else { let mut b = r.bytes(n); if r.chance(1, 2) { b = b"5A0847617300000001199F3303E0F8C8\n".to_vec(); } b }; }
        if on(r) { t.fd[2] = *r.pick(&['p', 't', 'f']); }
        if on(r) && t.fd[1] != 't' { t.fd[1] = *r.pick(&['p', 'f']); }
        if on(r) { t.win = (r.below(300) as u32, r.below(400) as u32); }
        if on(r) {
            for n in ["LANG", "LC_ALL", "TZ", "HOME", "USER", "COLUMNS", "LINES", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "EDITOR", "PAGER", "SHELL", "HOSTNAME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "TMPDIR", "PATH", "CI", "DEBUG", "PWD", "LS_COLORS", "MASKING_CHARACTERS", "CLI_COLOUR", "SORT_PARSED_TAGS", "CONFIG", "PROFILE", "ROCKET_PROFILE", "PEMVX_CLI_COLOUR", "SOURCE_DATE_EPOCH", "RANDOM", "SSH_TTY", "TERM_PROGRAM", "POSIXLY_CORRECT", "LC_CTYPE", "LC_MESSAGES", "LC_NUMERIC", "LC_MONETARY", "LANGUAGE", "CARGO_MANIFEST_DIR", "FIGMENT_PROFILE"] {
                match r.below(4) { 0 => t.setenv(n, r.pick(&["1", "", "0", "C", "tr_TR.UTF-8", "de_DE.UTF-8", "fr_FR@euro", "ja_JP.eucJP", "POSIX", "never", "/tmp", "false", "always", "release", "dumb"]).as_bytes()), 1 => t.env.retain(|e| e.0 != n.as_bytes()), _ => {} }
            }
        }
        if on(r) { enrich(r, &mut t, &base, true); if r.chance(1, 4) { let b = c.reference(&t)?; enrich(r, &mut t, &b, true); } }
        if on(r) { for n in ["/work/notes.txt", "/etc/emv.conf", "/home/u/.pemvrc", "/tmp/pemv.sock", "/etc/localtime", "/home/u/.config/pemv/config.toml", "/etc/pemv.conf", "/usr/share/pemv/tags.json"] { if r.chance(1, 3) && !t.has(n) { t.add(Node::file(n, b"[default]\nsort_parsed_tags = false\n")); } } }
        if !named.is_empty() {
            let text = r.pick(&[&b"5A0847617300000001199F3303E0F8C8\n"[..], b"T5A:02:h4761", b"0000008000\n", b"201"]).to_vec();
            for n in &named { let p = norm(&t.cwd, n); if !t.has(&p) && r.chance(2, 3) { t.add(Node::file(&p, &text)); } }
            t.setenv("CARD", &text);
            t.fd[0] = 'p'; t.stdin = text;
        }
        if on(r) { r.shuffle(&mut t.nodes); }
        if t == s { t.seed ^= 1; }
        v.push(Plan { prop: "C10".into(), kind: "ambient".into(), sc: s.clone(), kv: vec![("alt".into(), t.wire())] });
    }
    Ok(v)
}
fn c11(r: &mut Rng, _i: u64) -> R<Vec<Plan>> {
    let mut s = gen::world(r);
    let colour = r.chance(1, 3);
    let mut kind = "any";
    match r.below(17) {
        0 => { let op = gen::other_op(r); s.argv.extend(op.args); }
        1 => { // arbitrary arguments
            let flags = ["-b", "-a", "-i", "-t", "-r", "--tvr", "--tsi", "--ccd-cvr", "--ccd-iad", "--cvm-list", "--cvm-results", "--identify", "--service-code", "--colour", "-m", "--sort", "--no-sort", "--", "-", "--help", "--sort=maybe", "--masking", "--95", "--id"];
            for _ in 0..1 + r.us(6) { if r.chance(1, 2) { s.argv.push(r.pick(&flags).as_bytes().to_vec()); } else { let n = r.us(30); let mut b = r.bytes(n); b.retain(|x| *x != 0); if r.chance(2, 3) { b.iter_mut().for_each(|x| *x = 0x20 + *x % 0x5f); } s.argv.push(b); } }
        }
        2 | 3 => { // random bytes as every kind of value
            let n = match r.below(6) { 0 => r.us(4), 1 => 8 + 2 * r.us(20), 2 => 32, _ => r.us(60) };
            let mut b = r.bytes(n);
            if n == 32 { b[0] = 0x0F; if r.chance(3, 4) { b[16] = 0x0F; } if r.chance(3, 4) { b[1] = *r.pick(&[0xA5, 0xA6]); } }
            let w = *r.pick(&gen::VALUE_OPS[..7]);
            s.argv.push(format!("--{w}").into_bytes()); let t = tlv::hex_text(r, &b); s.argv.push(if t.is_empty() { b" ".to_vec() } else { t.into_bytes() });
        }
        4 => { let w = r.pick(&["201", "0", "999", "65535", "65536", "99999999999999999999", "-1", "+1", " 101 ", "1e3", "\u{661}", "000201", "18446744073709551616"]).to_string(); s.argv.push(format!("--service-code={w}").into_bytes()); }
        5 | 6 => { // lengths that claim far more than there is
            kind = "hostile";
            let f = *r.pick(&[Format::Ber, Format::Ing, Format::Auto]);
            let t = if f == Format::Ing || r.chance(1, 3) {
                format!("T{}:{}:{}{}", r.pick(&["5A", "9F33", "70", "005A"]), r.pick(&["FFFFFFFF", "7FFFFFFF", "80000000", "80000001", "10000000", "FFFFFFFE", "00FFFFFF", "40000000", "0100000001", "FFFFFFFFFFFFFFFF", "55555555"]), r.pick(&['a', 'h']), "AB".repeat(r.us(20)))
            } else {
                let mut b = vec![];
                for _ in 0..r.us(5) { b.push(0x70); b.extend_from_slice(r.pick(&[&[0x84u8, 0xff, 0xff, 0xff, 0xff][..], &[0x84, 0x7f, 0xff, 0xff, 0xff], &[0x83, 0xff, 0xff, 0xff], &[0x20], &[0x81, 0xff], &[0x82, 0x10, 0x00]])); }
                b.extend_from_slice(r.pick(&[&[0x5Au8][..], &[0x9F, 0x33], &[0xDF, 0xFF, 0xFF, 0xFF, 0x01], &[0x1f]]));
                b.extend_from_slice(r.pick(&[&[0x84u8, 0xff, 0xff, 0xff, 0xff][..], &[0x84, 0x80, 0, 0, 0], &[0x84, 0, 0, 0, 1], &[0x88, 0, 0, 0, 0, 0, 0, 0, 1], &[0xff], &[0x80], &[0x85, 1, 0, 0, 0, 0], &[0x84, 0x40, 0, 0, 0], &[0x83, 0x7f, 0xff, 0xff], &[0x84, 0xff]]));
                let n = r.us(20); b.extend(r.bytes(n));
                tlv::hex_text(r, &b)
            };
            s.argv.push(format!("--{}", gen::opname(f)).into_bytes()); s.argv.push(t.into_bytes());
        }
        7 => { kind = "deep"; let d = *r.pick(&[20, 60, 100, 250, 258, 300, 300, 450]); let b = tlv::gen_chain(r, d); s.argv.push(b"-b".to_vec()); s.argv.push(tlv::hex_text(r, &b).into_bytes()); }
        8 => { kind = "wide"; let n = if r.chance(1, 12) { 20_000 + r.us(12_000) } else { r.us(1500) }; let t: &[u8] = r.pick(&[&[0x5Au8, 0x00][..], &[0x70, 0x00], &[0x70, 0x02, 0x5A, 0x00], &[0x9F, 0x33, 0x03, 1, 2, 3], &[0x95, 0x05, 0xff, 0xff, 0xff, 0xff, 0xff]]); s.argv.push(b"-b".to_vec()); let n = n.min(65_000 / t.len()); s.argv.push(crate::scenario::hexu(&t.repeat(n + 1)).into_bytes()); }
        9 => { // random bytes as a block
            let n = r.us(80); let mut b = r.bytes(n); if r.chance(1, 2) { for x in &mut b { if r.chance(1, 3) { *x = *r.pick(&[0x70, 0x02, 0x81, 0x84, 0x9F, 0x5A, 0, 0xff, 0x1f]); } } }
            s.argv.push((*r.pick(&[&b"-b"[..], b"-a"])).to_vec()); let t = tlv::hex_text(r, &b); s.argv.push(if t.is_empty() { b" ".to_vec() } else { t.into_bytes() });
        }
        10 => { let n = r.us(60); let t: String = (0..n).map(|_| *r.pick(&['T', ':', '5', 'A', '0', '1', 'h', 'a', '~', 'F', '9', '\u{e9}', ' '])).collect(); s.argv.push((*r.pick(&[&b"-i"[..], b"-a"])).to_vec()); s.argv.push(format!("T{t}").into_bytes()); }
        11 => { let op = big_op(r); s.argv.extend(op.args); }
        12 | 13 => { // values of every length for the data objects that are taken apart, whatever their content
            let mut b = vec![];
            for _ in 0..1 + r.us(5) {
                let tag = r.pick(tlv::VALUE).to_vec();
                let n = if r.chance(1, 6) { r.us(70) } else { r.us(13) };
                let mut v = if r.chance(1, 3) { tlv::gen_value(r, &tag, false) } else { r.bytes(n) };
                match r.below(4) { 0 => { v.truncate(n); } 1 => v.push(r.u64() as u8), _ => {} }
                b.push(tlv::TNode { tag, val: tlv::Val::Prim(v), lenform: 0 });
            }
            if r.chance(1, 3) { b = vec![tlv::TNode { tag: vec![0x70], val: tlv::Val::Cons(b), lenform: 0 }]; }
            if r.chance(1, 2) { s.argv.push((*r.pick(&[&b"-b"[..], b"-a"])).to_vec()); let t = tlv::hex_text(r, &tlv::enc(&b)); s.argv.push(t.into_bytes()); }
            else { let g = tlv::gen_cfg(r); s.argv.push(b"-i".to_vec()); s.argv.push(tlv::ing_text(r, &b, &g).into_bytes()); }
        }
        _ => { let op = gen::any_op(r, Want::Any); let c = s.clone(); let (t, _) = invocation(r, &op, true); s = t; s.win = c.win; }
    }
    // odd places for the configuration, odd names of a profile, settings out of the ordinary
    if r.chance(1, 8) { let v = match r.below(8) { 0 => vec![b'x'; 5000], 1 => b"/".to_vec(), 2 => b"".to_vec(), 3 => b"..".to_vec(), 4 => b"/tmp".to_vec(), 5 => b"\xff\xfe/pemv.toml".to_vec(), 6 => "../".repeat(300).into_bytes(), _ => b"./".to_vec() }; s.setenv("PEMV_CONFIG", &v); }
    if r.chance(1, 8) { let v = match r.below(7) { 0 => vec![b'p'; 3000], 1 => b"global".to_vec(), 2 => b"".to_vec(), 3 => b"\xff".to_vec(), 4 => b"a.b.c".to_vec(), 5 => "\u{1F4B3}".as_bytes().to_vec(), _ => b"[default]".to_vec() }; s.setenv("PEMV_PROFILE", &v); }
    if r.chance(1, 10) && s.getenv("PEMV_MASKING_CHARACTERS").is_none() { s.setenv("PEMV_MASKING_CHARACTERS", r.pick(&["[]", "[\"\u{1F4B3}\",\"\u{e9}\"]", "[\"A\",\"A\",\"A\"]", "[\"0\",\"1\",\"2\",\"3\",\"4\",\"5\",\"6\",\"7\",\"8\",\"9\"]"]).as_bytes()); }
    if colour && r.chance(1, 2) && !matches!(kind, "any") { s.argv.push(b"--colour=always".to_vec()); }
    if r.chance(1, 5) { for i in 0..3 { if r.chance(1, 3) { s.fd[i] = *r.pick(if i == 0 { &['n', 'p', 'f', 't', 'c'] } else { &['n', 'p', 'f', 't', 'p'] }); } } }
    if r.chance(1, 4) { for cls in ["wout", "werr", "rfile", "open", "poll", "random"] { if r.chance(1, 2) { let n = if r.chance(1, 8) { 500 } else { 1 + r.below(20) }; let at = r.logu(100); s.faults.push(Fault::err(cls, at, n, EINTR)); } } if r.chance(1, 2) { s.faults.push(Fault::short("wout", 0, MAXCOUNT, r.range(1, 50) as i64)); } }
    if r.chance(1, 14) { // unusable settings: no orderly status is asked for, an end all the same
        kind = "unusable";
        let p = format!("{}/pemv.toml", s.cwd);
        match r.below(4) {
            0 => s.setenv(&cfg::env_name(*r.pick(&['c', 'm', 's'])), r.pick(&["purple", "5", "[", "maybe"]).as_bytes()),
            1 => { s.env.retain(|e| e.0 != b"PEMV_CONFIG"); let mut n = Node::file(&p, b"[default]\n"); n.open_err = EACCES; s.add(n); }
            _ => { s.env.retain(|e| e.0 != b"PEMV_CONFIG"); s.add(Node::file(&p, r.pick(BROKEN))); }
        }
    }
    Ok(vec![Plan::new("C11", kind, s)])
}
fn c12(r: &mut Rng) -> R<Vec<Plan>> {
    let op = match r.below(12) { 0 => big_op(r), _ => gen::any_op(r, Want::Any) };
    let mut s = gen::world(r);
    s.env.retain(|e| e.0 != b"TERM");
    match r.below(5) { 0 => {} 1 => s.setenv("TERM", b"dumb"), _ => s.setenv("TERM", r.pick(&["xterm", "xterm-256color", "screen", "linux", "vt100", "dumber", "", "Dumb", "unknown", "emacs"]).as_bytes()) }
    if r.chance(1, 4) { s.setenv("NO_COLOR", r.pick(&["1", "0", "true", "", "false"]).as_bytes()); }
    for n in ["FORCE_COLOR", "CLICOLOR", "CI", "TERM_PROGRAM", "TMUX", "SSH_TTY", "INSIDE_EMACS", "WT_SESSION", "ANSICON", "PAGER", "COLUMNS", "NO_COLOUR", "NOCOLOR", "COLOR", "COLORFGBG", "LS_COLORS"] { if r.chance(1, 10) { s.setenv(n, r.pick(&["0", "1", "", "true", "dumb", "never", "always"]).as_bytes()); } }
    s.fd[1] = *r.pick(&['t', 't', 't', 'p', 'f', 'n']);
    if r.chance(1, 4) { s.setenv("COLORTERM", b"truecolor"); }
    if r.chance(1, 4) { s.setenv("CLICOLOR_FORCE", b"1"); }
    if s.fd[1] == 't' && r.chance(1, 5) { s.faults.push(Fault::err("ioctl", 0, MAXCOUNT, *r.pick(&[25, 22, EIO, 9]))); }
    s.argv.extend(op.args);
    let src = *r.pick(&["cli", "cli", "env", "file:default", "file:global", "none"]);
    let v = *r.pick(&cfg::COLOURS);
    let path = format!("{}/pemv.toml", s.cwd);
    match src { "cli" => s.argv.push(format!("--colour={v}").into_bytes()), "env" => s.setenv("PEMV_CLI_COLOUR", v.as_bytes()), "none" => {} f => s.add(Node::file(&path, format!("[{}]\ncli_colour = \"{v}\"\n", &f[5..]).as_bytes())) }
    let v = if src == "none" { "auto" } else { v };
    Ok(vec![Plan::new("C12", "mode", s).with("colour", v)])
}
fn c13(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let Some((s, base)) = breakdown(r, c, None)? else { return Ok(vec![]) };
    let writes: Vec<u64> = String::from_utf8_lossy(&base.trace).lines().filter(|l| l.contains("write")).filter_map(|l| l.split_whitespace().next().and_then(|x| x.parse().ok())).collect();
    let mut v = vec![];
    for _ in 0..6 {
        let mut t = s.clone();
        match r.below(3) {
            0 => { let late = base.nalloc * 3 / 4; t.oom = Some((if r.chance(1, 2) { r.below(base.nalloc.max(1)) } else { late + r.below((base.nalloc - late).max(1)) }, *r.pick(&[1, 1, 1, MAXCOUNT]))); }
            _ => { let st = if !writes.is_empty() && r.chance(2, 3) { *r.pick(&writes) } else { r.below(base.steps + 2) }; t.kill = Some(Kill { step: st, sig: *r.pick(&[9, 9, 15, 2, 1, 3, 14, 10]), part: if r.chance(1, 2) { r.below(60) as i64 } else { -1 } }); }
        }
        if r.chance(1, 4) { t.faults = benign(r, &base); }
        v.push(Plan::new("C13", "cut", t));
    }
    Ok(v)
}

const OUT_MAN: &str = "MAN_PAGE_OUT_DIR";
const OUT_COMP: &str = "COMPLETION_SCRIPTS_OUT_DIR";
/// The build script's generator in a simulated build directory.
fn c15(r: &mut Rng, c: &mut Ctx) -> R<Vec<Plan>> {
    let mut s = gen::world(r);
    s.argv = vec![b"build-script-build".to_vec()];
    s.cwd = "/src/pemv".into();
    s.nodes.push(Node::dir("/src")); s.nodes.push(Node::dir("/src/pemv"));
    s.add(Node::file("/src/pemv/Cargo.toml", b"[package]\n"));
    s.setenv("OUT_DIR", b"/src/pemv/target/out"); s.add(Node::dir("/src/pemv/target/out"));
    let dirs = ["/out", "/out/man", "/out/comp", "/usr/share/man/man1", "gen", "target/gen dir", "/home/u/.local/share/man", "./x/../gen"];
    let mut bad = false;
    let mut dotenv = String::new();
    for k in [OUT_MAN, OUT_COMP] {
        if r.chance(1, 6) { continue; }
        let d = *r.pick(&dirs);
        if r.chance(1, 5) { dotenv.push_str(&format!("{k}=\"{d}\"\n")); } else { s.setenv(k, d.as_bytes()); }
        let full = norm(&s.cwd, d);
        if d.contains("/x/") { s.add(Node::dir("/src/pemv/x")); }
        match r.below(14) { 0 if !s.has(&full) => bad = true, 1 if !s.has(&full) => { s.add(Node::file(&full, b"a file\n")); bad = true; } _ => if !s.has(&full) { s.add(Node::dir(&full)); } }
    }
    if !dotenv.is_empty() || r.chance(1, 8) { if r.chance(1, 3) { dotenv.push_str("RUST_LOG=info\n"); } let at = *r.pick(&["/src/pemv/.env", "/src/.env"]); s.add(Node::file(at, dotenv.as_bytes())); }
    for (k, n) in [(OUT_MAN, "pemv.1"), (OUT_COMP, "pemv.bash"), (OUT_COMP, "_pemv"), (OUT_COMP, "pemv.fish")] { // files of an earlier build, longer than the new ones
        if let Some(d) = want_dir(&s, k) { if r.chance(1, 4) && s.nodes.iter().any(|x| x.path == d && x.t == 'd') { let f = format!("{d}/{n}"); s.add(Node::file(&f, &b"stale line of an earlier build\n".repeat(if r.chance(1, 2) { 3 } else { 4000 }))); } }
    }
    let base = c.reference(&s)?;
    let mut v = vec![Plan::new("C15", if bad { "baddir" } else { "benign" }, s.clone())];
    let w = base.count("wfile");
    for k in 0..6 {
        let mut t = s.clone();
        let mut kind = if bad { "baddir" } else { "hard" };
        let at = |r: &mut Rng| if w == 0 { 0 } else { match r.below(5) { 0 => w - 1, 1 => r.below(3), _ => r.below(w) } };
        match if k < 2 { 0 } else { r.below(8) } {
            0 => { if !bad { kind = "benign"; } for _ in 0..1 + r.us(4) { let cls = *r.pick(&["wfile", "wfile", "wfile", "open", "wout", "rfile"]); let a = if cls == "wfile" { at(r) } else { r.below(base.count(cls) + 1) }; t.faults.push(if cls == "open" || r.chance(1, 2) { Fault::err(cls, a, *r.pick(&[1, 1, 3, 40]), EINTR) } else { Fault::short(cls, a, *r.pick(&[1, 5, 500]), r.range(1, 50) as i64) }); } }
            1 | 2 => { let a = at(r); t.faults.push(Fault::err("wfile", a, *r.pick(&[1, 1, 3, MAXCOUNT, MAXCOUNT]), *r.pick(&[ENOSPC, ENOSPC, EIO, 122, 27]))); if r.chance(1, 3) && a > 0 { t.faults.insert(0, Fault::short("wfile", a - 1, 1, r.range(1, 30) as i64)); } }
            3 => { let full: Vec<String> = [OUT_MAN, OUT_COMP].iter().filter_map(|k| want_dir(&s, k)).collect(); if full.is_empty() { continue; } let d = r.pick(&full).clone(); for n in &mut t.nodes { if n.path == d { n.search_err = EACCES; } } kind = "baddir"; }
            4 => { let n = base.count("open"); t.faults.push(Fault::err("open", r.below(n + 1), *r.pick(&[1, 2, MAXCOUNT]), *r.pick(&[EACCES, ENOSPC, 24, 30, EIO]))); }
            5 => { t.kill = Some(Kill { step: r.below(base.steps.max(1)), sig: *r.pick(&[9, 15, 2]), part: if r.chance(1, 2) { r.below(100) as i64 } else { -1 } }); }
            6 => { t.oom = Some((r.below(base.nalloc.max(1)), *r.pick(&[1, 1, MAXCOUNT]))); }
            _ => { t.caps.push(Cap { fd: 1, bytes: r.below(base.out.len() as u64 + 1), err: *r.pick(&[ENOSPC, EPIPE, EIO]), oneshot: r.chance(1, 3), partial: r.chance(1, 2) }); }
        }
        v.push(Plan::new("C15", kind, t));
    }
    Ok(v)
}
fn norm(cwd: &str, d: &str) -> String {
    let mut v: Vec<&str> = vec![];
    let full = if d.starts_with('/') { d.to_string() } else { format!("{cwd}/{d}") };
    for c in full.split('/') { match c { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } }
    format!("/{}", v.join("/"))
}
/// The directory requested for a kind of output: environment first, then a dotenv file.
fn want_dir(s: &Sc, k: &str) -> Option<String> {
    if let Some(v) = s.getenv(k) { return Some(norm(&s.cwd, &String::from_utf8_lossy(v))); }
    let f = s.nodes.iter().filter(|n| n.path.ends_with("/.env")).max_by_key(|n| n.path.len())?;
    let t = String::from_utf8_lossy(&f.data).into_owned();
    t.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix('='))).map(|x| norm(&s.cwd, x.trim_matches('"')))
}

// ---------------------------------------------------------------- judging
pub fn eval(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    c.st.evals += 1;
    crate::ctx::Stats::bump(&mut c.st.kinds, &p.kind, 1);
    match p.prop.as_str() {
        "C01" => e01(p, c), "C02" => e02(p, c), "C03" => e03(p, c), "C04" => e04(p, c), "C05" => e05(p, c), "C06" => e06(p, c), "C07" => e07(p, c), "C08" => e08(p, c),
        "C09" => e09(p, c), "C10" => e10(p, c), "C11" => e11(p, c), "C12" => e12(p, c), "C13" => e13(p, c), "C14" => crate::rel::eval(p, c), "C15" => e15(p, c), "C16" => e16(p, c), "C17" => e17(p, c), "C18" => e18(p, c), "C19" => e19(p, c), "C24" => e24(p, c), "C25" => same(p, c), "C26" => e26(p, c), "C27" => e27(p, c), "C21" => e21(p, c), x => Err(format!("unknown property {x}")),
    }
}
fn e01(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let b = c.reference(&p.sc.without_faults())?;
    let mut s = p.sc.clone();
    // a byte per call for everything written and every file read
    s.lim.0 = b.steps * 2 + (b.out.len() + b.err.len()) as u64 * 2 + 3 * s.nodes.iter().map(|n| n.data.len() as u64).sum::<u64>() + 40_000;
    let r = c.run(&s)?;
    if r.end != b.end { return Ok(Outcome::bad("status", format!("the interrupted run ended with {}, the undisturbed one with {}", r.end, b.end))); }
    if r.out != b.out { return Ok(Outcome::bad("stdout", format!("standard output differs from the undisturbed run; {}", at_diff(&r.out, &b.out)))); }
    if r.err != b.err { return Ok(Outcome::bad("stderr", format!("standard error differs from the undisturbed run; {}", at_diff(&r.err, &b.err)))); }
    Ok(if r.any_fault_fired() { Outcome::fine(key(p, &r)) } else { Outcome::trivial() })
}
/// What is left of `full` when some whole escape sequences are taken out of it?
fn minus_escapes(got: &[u8], full: &[u8]) -> bool {
    let (mut i, mut j) = (0, 0);
    // greedy is exact: an escape sequence that matches is kept
    while j < full.len() {
        if full[j] == 0x1b {
            let mut k = j + 2;
            while k < full.len() && !(0x40..=0x7e).contains(&full[k]) { k += 1; }
            let seq = &full[j..(k + 1).min(full.len())];
            if got[i.min(got.len())..].starts_with(seq) { i += seq.len(); }
            j = k + 1;
        } else { if got.get(i) != Some(&full[j]) { return false; } i += 1; j += 1; }
    }
    i == got.len()
}
/// Indentation long enough to fill the output buffer before an escape sequence (known finding).
/// Whether some line of a report is too long for the buffer of standard output (1024 bytes), so that a write may happen in its midst.
fn long_line(out: &[u8]) -> bool { out.split(|b| *b == b'\n').any(|l| l.len() >= 1000) }
fn e02(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let mut q = p.sc.without_faults();
    if q.lim.2 == Sc::default().lim.2 { q.lim = Sc::default().lim; }
    let b = c.reference(&q)?;
    if !b.end.ok() || b.out.is_empty() { return Ok(Outcome::trivial()); }
    let r = c.run(&p.sc)?;
    let hit = r.capfired[1] > 0 || p.sc.faults.iter().enumerate().any(|(i, f)| f.cls == "wout" && f.kind == "err" && f.arg != i64::from(EINTR) && r.fired[i] > 0);
    match &r.end {
        End::Exit(0) => {
            if r.out == b.out { return Ok(if hit { Outcome::fine(key(p, &r)) } else { Outcome::trivial() }); }
            let transient = p.sc.caps.iter().all(|c| c.oneshot) && p.sc.faults.iter().all(|f| f.kind != "err" || f.count < 1000);
            let mut v = Viol { class: "success".into(), msg: format!("exit status 0 although standard output failed and {} of {} bytes were delivered; {}", r.out.len(), b.out.len(), at_diff(&r.out, &b.out)), finding: None };
            if transient && long_line(&b.out) && has_esc(&b.out) && minus_escapes(&r.out, &b.out) { v.finding = Some("lost-escapes"); }
            Ok(Outcome { viol: Some(v), key: None })
        }
        End::Exit(_) | End::Signal(_) => {
            if !prefix(&r.out, &b.out) {
                let mut v = Viol { class: "prefix".into(), msg: format!("what was delivered before the failure ({}) is not a prefix of the full report; {}", r.end, at_diff(&r.out, &b.out)), finding: None };
                let transient = p.sc.caps.iter().any(|c| c.oneshot) || p.sc.faults.iter().any(|f| f.kind == "err" && f.count < 1000);
                if transient && long_line(&b.out) && has_esc(&b.out) && (0..=b.out.len()).any(|k| k >= r.out.len() && minus_escapes(&r.out, &b.out[..k])) { v.finding = Some("lost-escapes"); }
                return Ok(Outcome { viol: Some(v), key: None });
            }
            if !hit { return Ok(Outcome::bad("status", format!("{} although nothing failed", r.end))); }
            Ok(Outcome::fine(key(p, &r)))
        }
        e => Ok(Outcome::bad("bounded", format!("after standard output failed the process did not end: {e}"))),
    }
}
fn e03(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let f = fmtof(p.get("fmt").unwrap_or("ber"));
    let masks: Vec<char> = p.get("masks").unwrap_or("*").chars().collect();
    let text = p.sc.argv.last().cloned().unwrap_or_default();
    if p.sc.argv.len() < 3 || text.is_empty() { return Ok(Outcome::trivial()); }
    let mut s = p.sc.clone();
    s.lim.0 = 20_000_000; // one byte per write of a deep report takes many calls
    let r = c.run(&s)?;
    let (m, name) = tlv::model(f, &text, &masks, p.get("sort") == Some("1"));
    let rejected = r.out.is_empty() && !r.err.is_empty();
    match m {
        Parsed::Unsure => Ok(Outcome::trivial()),
        Parsed::Reject => if rejected && r.end == End::Exit(0) || rejected && !matches!(r.end, End::Exit(101)) { c.st.note("blocks refused as the reference decoder does"); Ok(Outcome::fine(key(p, &r))) } else { Ok(Outcome::bad("accepted", format!("a malformed block was not refused ({}): \"{}\"", r.end, lossy(&r.out, 200)))) },
        Parsed::Ok(n) => {
            if rejected { return if tlv::certain(&n) { Ok(Outcome::bad("refused", format!("a well-formed block was refused ({}): {}", r.end, lossy(&r.err, 200)))) } else { c.st.note("blocks refused for a coded value"); Ok(Outcome::trivial()) }; }
            if !r.end.ok() { return Ok(Outcome::bad("end", format!("{}: {}", r.end, lossy(&r.err, 300)))); }
            c.st.high("data objects in one block", tlv::count(&n) as u64); c.st.high("nesting depth", tlv::depth(&n) as u64); c.st.high("report bytes", r.out.len() as u64);
            let name = if f == Format::Auto { name } else { None };
            if let Err(e) = tlv::check_report(&tlv::strip(&r.out), &n, name) { return Ok(Outcome::bad("report", e)); }
            Ok(Outcome::fine(key(p, &r)))
        }
    }
}
fn model_check(p: &Plan, st: &Settings, r: &Res) -> Option<String> {
    let t = p.get("text")?;
    let f = fmtof(p.get("fmt")?);
    if let (Parsed::Ok(n), name) = tlv::model(f, t.as_bytes(), &st.masks, st.sort) {
        if tlv::certain(&n) || !r.out.is_empty() { return tlv::check_report(&tlv::strip(&r.out), &n, if f == Format::Auto { name } else { None }).err(); }
    }
    None
}
fn e04(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let (s, q, want) = c04_build(p);
    let r = c.run(&s)?;
    let b = c.run(&q)?;
    let w = || format!("colour {}, masking {:?}, sorting {}", want.colour, want.masks, want.sort);
    if r.end != b.end { return Ok(Outcome::bad("status", format!("{} instead of {} with {} given on the command line alone; {}", r.end, b.end, w(), lossy(&r.err, 200)))); }
    if r.out != b.out || r.err != b.err { return Ok(Outcome::bad("settings", format!("the result is not the one for the resolved settings ({}); {}", w(), at_diff(&r.out, &b.out)))); }
    if let Some(e) = model_check(p, &want, &r) { return Ok(Outcome::bad("model", format!("the report does not show the resolved settings ({}): {e}", w()))); }
    if b.end.ok() && !b.out.is_empty() && has_esc(&r.out) != wants_colour(&s, &want.colour) { return Ok(Outcome::bad("colour", format!("escape sequences {} although the colour setting in force is {}", if has_esc(&r.out) { "present" } else { "absent" }, want.colour))); }
    Ok(if p.all("layer").count() > 0 { Outcome::fine(key(p, &r)) } else { Outcome::trivial() })
}
fn e05(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let d = designated(&p.sc);
    let st = match d { Some(n) => match settings_of(p, &n.path) { Some(s) => s, None => return Ok(Outcome::trivial()) }, None => Settings::default() };
    let r = c.run(&p.sc)?;
    let b = c.run(&canonical(&p.sc, &st))?;
    let w = || d.map_or("no file, so defaults".to_string(), |n| n.path.clone());
    if r.end != b.end || r.out != b.out || r.err != b.err { return Ok(Outcome::bad("file", format!("the result is not the one for the designated configuration ({}): {}; {} {}", w(), r.end, at_diff(&r.out, &b.out), lossy(&r.err, 200)))); }
    if let Some(e) = model_check(p, &st, &r) { return Ok(Outcome::bad("model", format!("the report does not show the settings of the designated configuration ({}): {e}", w()))); }
    c.st.note(if d.is_some() { "a file in force" } else { "no file in force" });
    Ok(Outcome::fine(key(p, &r)))
}
fn e06(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let r = c.run(&p.sc)?;
    if p.kind == "read" && r.fired[0] == 0 { return Ok(Outcome::trivial()); }
    if !r.out.is_empty() { return Ok(Outcome::bad("output", format!("the configuration is unusable but standard output received \"{}\" ({})", lossy(&r.out, 100), r.end))); }
    match &r.end {
        End::Exit(0) => Ok(Outcome::bad("status", "the configuration is unusable but the run reports success".into())),
        End::Exit(_) | End::Signal(6) => if r.err.is_empty() { Ok(Outcome::bad("diagnostic", "the configuration is unusable and nothing is said about it".into())) } else { Ok(Outcome::fine(key(p, &r))) },
        e => Ok(Outcome::bad("end", format!("the configuration is unusable and the run ended with: {e}"))),
    }
}
fn apply_edit(s: &mut Sc, e: &Edit) { s.nodes.retain(|n| n.path != e.path); if e.op != 'u' { s.nodes.push(Node::file(&e.path, &e.data)); } }
fn e07(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let r = c.run(&p.sc)?;
    if r.editsfired == 0 { return Ok(Outcome::trivial()); }
    let mut base = p.sc.without_faults();
    base.edits.clear();
    let mut ok = vec![];
    let mut cur = base.clone();
    ok.push(c.reference(&cur)?);
    for e in &p.sc.edits { apply_edit(&mut cur, e); ok.push(c.reference(&cur)?); }
    let near = format!("{}/pemv.toml", base.cwd);
    let mut bare = base.clone();
    bare.nodes.retain(|n| n.t == 'd');
    ok.push(c.reference(&bare)?);
    // a version may have been the one in force where it lay, before a nearer one appeared (a diagnostic names its place)
    let versions: Vec<(&str, &Vec<u8>)> = p.sc.nodes.iter().filter(|n| n.t == 'f').map(|n| (n.path.as_str(), &n.data)).chain(p.sc.edits.iter().filter(|e| e.op != 'u').map(|e| (e.path.as_str(), &e.data))).collect();
    for (at, t) in versions { for path in [near.as_str(), at] { let mut q = bare.clone(); q.add(Node::file(path, t)); ok.push(c.reference(&q)?); } }
    if ok.iter().any(|o| o.end == r.end && o.out == r.out && o.err == r.err) { return Ok(Outcome::fine(key(p, &r))); }
    let gone = p.sc.edits.iter().any(|e| e.op == 'u');
    if gone && r.out.is_empty() && !r.err.is_empty() && bad_end(&r) { return Ok(Outcome::fine(key(p, &r))); }
    Ok(Outcome::bad("mixed", format!("the result ({}, {} bytes) is the result for no single version of the configuration; against the first version: {}", r.end, r.out.len(), at_diff(&r.out, &ok[0].out))))
}
fn one_message(e: &[u8]) -> bool { !e.is_empty() && e.last() == Some(&b'\n') && e.iter().filter(|x| **x == b'\n').count() == 1 && e.len() > 5 }
fn e08(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let b = c.reference(&p.sc.without_faults()).map(|x| x.clone())?;
    let mut clean = p.sc.without_faults();
    clean.fd = [p.sc.fd[0], if p.sc.fd[1] == 'c' { 'p' } else { p.sc.fd[1] }, if p.sc.fd[2] == 'c' { 'p' } else { p.sc.fd[2] }];
    let b = if clean.fd != p.sc.fd { c.reference(&clean)? } else { b };
    if p.kind == "usage" {
        return Ok(match b.end { End::Exit(0) if !b.err.is_empty() || b.out.is_empty() => Outcome::bad("usage", format!("success with {} bytes on standard output and \"{}\" on standard error", b.out.len(), lossy(&b.err, 120))), End::Exit(0) => Outcome::fine(key(p, &b)), End::Exit(n) if n != 101 && !b.err.is_empty() && b.out.is_empty() => Outcome::fine(key(p, &b)), _ => Outcome::bad("usage", format!("{}: \"{}\" on standard output, \"{}\" on standard error", b.end, lossy(&b.out, 100), lossy(&b.err, 100))) });
    }
    if p.kind == "split" {
        if !matches!(b.end, End::Exit(_)) || b.end == End::Exit(101) { return Ok(Outcome::bad("end", format!("{}: {}", b.end, lossy(&b.err, 200)))); }
        match p.get("expect").unwrap_or("open") {
            "accept" if b.out.is_empty() || !b.err.is_empty() => return Ok(Outcome::bad("accept", format!("an acceptable input gave {} bytes on standard output and \"{}\" on standard error", b.out.len(), lossy(&b.err, 120)))),
            "reject" if !b.out.is_empty() || !one_message(&b.err) => return Ok(Outcome::bad("reject", format!("an unacceptable input gave \"{}\" on standard output and \"{}\" on standard error", lossy(&b.out, 120), lossy(&b.err, 120)))),
            _ => {}
        }
        if b.end == End::Exit(2) && p.get("expect") == Some("open") { return Ok(Outcome::trivial()); } // option parsing's own usage text
        if b.out.is_empty() && b.err.is_empty() { return Ok(Outcome::bad("silent", "neither a report nor a message".into())); }
        if !b.out.is_empty() && !b.err.is_empty() { return Ok(Outcome::bad("both", format!("a report (\"{}\") and a message (\"{}\")", lossy(&b.out, 100), lossy(&b.err, 100)))); }
        if b.out.is_empty() && !one_message(&b.err) { return Ok(Outcome::bad("message", format!("not exactly one message: \"{}\"", lossy(&b.err, 300)))); }
        c.st.note(if b.out.is_empty() { "refused inputs" } else { "accepted inputs" });
        return Ok(Outcome::fine(key(p, &b)));
    }
    let r = c.run(&p.sc)?;
    if p.kind == "errfault" {
        // standard output must not notice
        if r.out != b.out { return Ok(Outcome::bad("crosstalk", format!("a failing standard error changed standard output; {}", at_diff(&r.out, &b.out)))); }
        if b.err.is_empty() && r.end != b.end { return Ok(Outcome::bad("errend", format!("{} although standard error was not needed", r.end))); }
    } else {
        if !b.err.is_empty() && r.err != b.err { return Ok(Outcome::bad("crosstalk", format!("a failing standard output changed the message; {}", at_diff(&r.err, &b.err)))); }
        if b.err.is_empty() && r.end.ok() && !r.err.is_empty() { return Ok(Outcome::bad("diagnostic", format!("success with a message: {}", lossy(&r.err, 200)))); }
    }
    Ok(if r.any_fault_fired() || p.sc.fd[1] == 'c' || p.sc.fd[2] == 'c' { Outcome::fine(key(p, &r)) } else { Outcome::trivial() })
}
fn e09(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let r = c.run(&p.sc)?;
    if let Some(e) = r.effects.iter().find(|e| !["readstdin", "blockfifo", "stream-"].iter().any(|k| e.starts_with(k))) { return Ok(Outcome::bad("trace", format!("the run did this to its surroundings: {e} ({} such actions)", r.effects.len()))); }
    if !r.wlog.is_empty() { return Ok(Outcome::bad("files", "the run changed the file system".into())); }
    Ok(Outcome::fine(key(p, &r)))
}
/// Other names of the streams a run inherits, and of the terminal they may lead to.
const SHARED: &[&str] = &["/dev/stdin", "/dev/stdout", "/dev/stderr", "/dev/fd/0", "/dev/fd/1", "/proc/self/fd/0", "/proc/self/fd/1", "/dev/tty"];
fn e16(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let r = c.run(&p.sc)?;
    if let Some(e) = r.effects.iter().find(|e| e.starts_with("readstdin")) { return Ok(Outcome::bad("taken", format!("the run took input that was left for another program ({e})"))); }
    if let Some(e) = r.effects.iter().find(|e| e.starts_with("stream-") || e.starts_with("terminal")) { return Ok(Outcome::bad("altered", format!("the run altered a stream it shares with other programs: {e}"))); }
    if let Some((_, n)) = r.probes.iter().find(|(k, n)| *k == 'R' && SHARED.iter().any(|s| s.as_bytes() == &n[..])) { return Ok(Outcome::bad("taken", format!("the run opened {} beside the streams it was given", lossy(n, 60)))); }
    Ok(Outcome::fine(key(p, &r)))
}
fn e17(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let (Some(was), Some(twin)) = (p.get("was"), p.get("twin")) else { return Err("bad plan".into()) };
    let mut q = p.sc.clone();
    let Some(a) = q.argv.iter_mut().skip(1).find(|a| { let n = a.len().saturating_sub(was.len()); a.ends_with(was.as_bytes()) && (n == 0 || a[n - 1] == b'=' || (n == 2 && a[0] == b'-' && a[1] != b'-')) }) else { return Ok(Outcome::trivial()) };
    let n = a.len() - was.len();
    a.truncate(n);
    a.extend_from_slice(twin.as_bytes());
    let x = c.run(&p.sc)?;
    let y = c.run(&q)?;
    if x.end == End::Exit(2) && y.end == x.end { return Ok(Outcome::trivial()); } // option parsing repeats the argument it does not know
    if x.err != y.err { return Ok(Outcome::bad("told", format!("standard error tells one content of the same structure from another; {}", at_diff(&x.err, &y.err)))); }
    if x.end != y.end { return Ok(Outcome::bad("ending", format!("the content of the data decides how the run ends: {} or {}", x.end, y.end))); }
    let seen = |r: &Res| { let mut v: Vec<_> = r.probes.iter().filter(|(k, _)| "EFRD".contains(*k)).map(|(k, n)| format!("{k} {}", lossy(n, 200))).chain(r.effects.iter().cloned()).collect(); v.sort(); v };
    let (f, g) = (seen(&x), seen(&y));
    if f != g { let d = f.iter().find(|e| !g.contains(e)).or_else(|| g.iter().find(|e| !f.contains(e))); return Ok(Outcome::bad("traced", format!("the content of the data shows in what the run does to its surroundings: {}", d.map_or("", |d| d.as_str())))); }
    if x.wlog != y.wlog { return Ok(Outcome::bad("traced", "the content of the data shows in files".into())); }
    if x.out != y.out { c.st.note("pairs whose reports differ"); } else { c.st.note("pairs with equal standard output (refused, cut short or alike)"); }
    Ok(Outcome::fine(key(p, &x)))
}
/// The first thing in a stream that is neither printable text, a line or tab, nor a change of colour.
fn unprintable(b: &[u8], cut: bool) -> Option<usize> {
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\n' | b'\t' | 0x20..=0x7e => i += 1,
            0x1b => {
                let mut j = i + 1;
                if j < b.len() && b[j] == b'[' { j += 1; while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') { j += 1; } if j < b.len() && b[j] == b'm' { i = j + 1; continue; } }
                return if cut && j == b.len() { None } else { Some(i) };
            }
            x if x >= 0x80 => { // text beyond ASCII, but no control characters
                let n = match x { 0xc2..=0xdf => 2, 0xe0..=0xef => 3, 0xf0..=0xf4 => 4, _ => return Some(i) };
                if i + n > b.len() { return if cut { None } else { Some(i) }; }
                match std::str::from_utf8(&b[i..i + n]) { Ok(t) if !t.chars().any(|c| c.is_control() || matches!(c as u32, 0x200e..=0x200f | 0x202a..=0x202e | 0x2066..=0x2069)) => i += n, _ => return Some(i) }
            }
            _ => return Some(i),
        }
    }
    None
}
fn e18(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let r = c.run(&p.sc)?;
    if r.end == End::Exit(2) { return Ok(Outcome::trivial()); } // option parsing repeats the argument it does not know
    // what a short write or a failed one leaves out may be the middle of a sequence of colour
    let cut = !r.end.ok() || r.any_fault_fired();
    if let Some(i) = unprintable(&r.out, cut) { return Ok(Outcome::bad("stdout", format!("standard output carries something of the input to the terminal at byte {i}: \"{}\"", lossy(&r.out[i.saturating_sub(40)..], 80)))); }
    if let Some(i) = unprintable(&r.err, cut) { return Ok(Outcome::bad("stderr", format!("standard error carries something of the input to the terminal at byte {i}: \"{}\"", lossy(&r.err[i.saturating_sub(40)..], 80)))); }
    if r.out.contains(&0x1b) && p.sc.argv.iter().any(|a| a == b"--colour=never") { return Ok(Outcome::bad("stdout", "escape sequences although colour is off".into())); }
    Ok(Outcome::fine(key(p, &r)))
}
fn e19(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let a = c.reference(&p.sc)?;
    let Some(w) = c.other.as_mut() else { return Err("one build only".into()) };
    let b = w.run(&p.sc)?;
    c.st.runs += 1; c.st.steps += b.steps; c.st.sim_ns += b.simtime_ns; c.st.traces.insert(b.tracehash);
    if a.end != b.end { return Ok(Outcome::bad("status", format!("{} in the build with checks, {} in the optimised one: \"{}\", \"{}\"", a.end, b.end, lossy(&a.err, 200), lossy(&b.err, 200)))); }
    if a.out != b.out { return Ok(Outcome::bad("stdout", format!("standard output of the optimised build differs from that of the build with checks; {}", at_diff(&b.out, &a.out)))); }
    if a.err != b.err { return Ok(Outcome::bad("stderr", format!("standard error of the optimised build differs from that of the build with checks; {}", at_diff(&b.err, &a.err)))); }
    let seen = |r: &Res| { let mut v: Vec<_> = r.probes.iter().filter(|(k, n)| "EFR".contains(*k) && n != b"PARSE_DEBUG").map(|(k, n)| format!("{k} {}", lossy(n, 200))).chain(r.effects.iter().cloned()).collect(); v.sort(); v };
    let (f, g) = (seen(&a), seen(&b));
    if f != g { let d = f.iter().find(|e| !g.contains(e)).or_else(|| g.iter().find(|e| !f.contains(e))); return Ok(Outcome::bad("surroundings", format!("one build looks at or does something the other does not: {}", d.map_or("", |d| d.as_str())))); }
    Ok(Outcome::fine(key(p, &a)))
}
fn refused(r: &Res) -> bool { r.out.is_empty() && !r.err.is_empty() }
fn e24(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let Some(at) = p.sc.argv.iter().position(|a| a.starts_with(b"--auto-tlv=")) else { return Ok(Outcome::trivial()) };
    let text = p.sc.argv[at][11..].to_vec();
    let masks: Vec<char> = p.get("masks").unwrap_or("*").chars().collect();
    let clean = p.sc.without_faults();
    let with = |s: &Sc, o: &str| { let mut t = s.clone(); t.argv[at] = [format!("--{o}=").as_bytes(), &text[..]].concat(); t };
    let (i, b) = (c.reference(&with(&clean, "ingenico-tlv"))?, c.reference(&with(&clean, "ber-tlv"))?);
    if i.end == End::Exit(2) || b.end == End::Exit(2) { return Ok(Outcome::trivial()); }
    let cut = p.kind == "cut";
    let a = if cut { (*c.reference(&clean)?).clone() } else { c.run(&p.sc)? };
    let taken = |r: &Res| r.end.ok() && r.err.is_empty();
    // where the text has the layout of an Ingenico block, that decoder's word is final
    let layout = match tlv::model(Format::Auto, &text, &masks, false) { (Parsed::Unsure, _) => None, (_, Some("Ingenico")) => Some(true), _ => Some(false) };
    let say = |r: &Res| format!("{}, \"{}\"", r.end, lossy(&r.err, 80));
    let (fmt, e) = if taken(&i) { ("Ingenico", &i) } else if taken(&b) && (layout == Some(false) || (layout.is_none() && taken(&a))) { ("BER-TLV", &b) } else {
        if !refused(&a) || a.end != i.end { return Ok(Outcome::bad("taken", format!("auto-detection reports a block that the option for its format refuses (Ingenico: {}; BER-TLV: {}): {} \"{}\"", say(&i), say(&b), a.end, lossy(&a.out, 80)))); }
        if layout == Some(true) && a.err != i.err { return Ok(Outcome::bad("message", format!("the text has the Ingenico layout, but is refused otherwise than by that option; {}", at_diff(&a.err, &i.err)))); }
        return Ok(Outcome::fine(key(p, &a)));
    };
    if !taken(&a) { return Ok(Outcome::bad("lost", format!("auto-detection does not take a block that the {fmt} option reports: {}", say(&a)))); }
    let n = a.out.len().wrapping_sub(e.out.len());
    let head = format!("TLV Format: {fmt}\n\n");
    if a.out.len() < e.out.len() || tlv::strip(&a.out[..n]) != head.as_bytes() { return Ok(Outcome::bad("format", format!("expected the announcement of {fmt} and that option's report; {}", at_diff(&tlv::strip(&a.out), &[head.as_bytes(), &tlv::strip(&e.out)[..]].concat())))); }
    if a.out[n..] != e.out[..] { return Ok(Outcome::bad("report", format!("the report differs from that under the {fmt} option; {}", at_diff(&a.out[n..], &e.out)))); }
    if cut {
        let Some(cap) = p.sc.caps.first() else { return Ok(Outcome::trivial()) };
        let at_ = cap.bytes;
        let x = c.run(&p.sc)?;
        if (at_ as usize) < n { return Ok(Outcome::trivial()); }
        let mut t = with(&p.sc, if fmt == "Ingenico" { "ingenico-tlv" } else { "ber-tlv" });
        t.caps[0].bytes = at_ - n as u64;
        let y = c.run(&t)?;
        if x.end != y.end || x.err != y.err { return Ok(Outcome::bad("ending", format!("standard output fails at the same byte of the report, but the runs end unlike: {} and {}", say(&x), say(&y)))); }
        if x.out.len() < n || x.out[n..] != y.out[..] { return Ok(Outcome::bad("report", format!("standard output fails at the same byte of the report, but what was delivered differs; {}", at_diff(&x.out[n.min(x.out.len())..], &y.out)))); }
        return Ok(Outcome::fine(key(p, &x)));
    }
    Ok(Outcome::fine(key(p, &a)))
}
type Lines = Vec<Vec<(u8, u64)>>;
fn line_diff(got: &Lines, want: &Lines) -> String {
    let k = (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k)).unwrap_or(0);
    let show = |l: Option<&Vec<(u8, u64)>>| l.map_or("nothing".into(), |l| format!("\"{}\"", lossy(&l.iter().map(|c| c.0).collect::<Vec<_>>(), 120)));
    let (a, b) = (got.get(k), want.get(k));
    let only = a.zip(b).is_some_and(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0));
    format!("line {}: {} instead of {}{}", k + 1, show(a), show(b), if only { " (other colours)" } else { "" })
}
fn e27(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let (Some(b), Some(fmt)) = (p.get("block").map(unhex), p.get("fmt")) else { return Err("bad plan".into()) };
    let masks: Vec<char> = p.get("masks").unwrap_or("").chars().collect();
    let Some(nodes) = tlv::read(&b) else { return Ok(Outcome::trivial()) };
    let clean = p.sc.without_faults();
    let one = |n: &tlv::MNode| { let d = n.data.clone().unwrap_or_default(); let mut o = n.tag.clone(); tlv::enc_len(d.len(), 0, &mut o); o.extend(d); o };
    let with = |a: Vec<u8>| { let mut t = clean.clone(); *t.argv.last_mut().unwrap() = a; t };
    let ask = |c: &mut Ctx, f: &str, b: &[u8]| -> R<std::rc::Rc<Res>> { c.reference(&with(block_arg(f, b).ok_or("block")?)) };
    let taken = |r: &Res| r.end.ok() && r.err.is_empty();
    let usual = |r: &Res| taken(r) || (refused(r) && r.end != End::Exit(2));
    let r = c.run(&p.sc)?;
    if r.end == End::Exit(2) { return Ok(Outcome::trivial()); }
    // the block is the sum of its objects
    let single = fmt.trim_start_matches("auto-");
    let mut parts = vec![];
    for n in &nodes { let x = ask(c, single, &one(n))?; if !usual(&x) { return Ok(Outcome::trivial()); } parts.push((n, x)); }
    if parts.iter().any(|x| !taken(&x.1)) {
        if !refused(&r) { return Ok(Outcome::bad("refusal", format!("one of the objects is refused alone, but the block with it is reported ({} bytes)", r.out.len()))); }
    } else {
        if !taken(&r) { return Ok(Outcome::bad("refusal", format!("every object is reported alone, but not the block of them: {}, \"{}\"", r.end, lossy(&r.err, 100)))); }
        if p.get("sort") == Some("1") { parts.sort_by(|a, b| a.0.tag.cmp(&b.0.tag)); }
        let mut want = if fmt.starts_with("auto") { format!("TLV Format: {}\n\n", if single == "ber" { "BER-TLV" } else { "Ingenico" }).into_bytes() } else { vec![] };
        for (k, x) in parts.iter().enumerate() { if k > 0 { want.push(b'\n'); } want.extend_from_slice(&x.1.out); }
        let (mut x, mut y) = (tlv::cells(&r.out), tlv::cells(&want));
        if fmt.starts_with("auto") { for l in [&mut x, &mut y] { if let Some(l) = l.first_mut() { for c in l { c.1 = 0; } } } } // (how the announcement looks is C24's)
        if x != y { return Ok(Outcome::bad("sum", format!("the report is not that of its objects one after another; {}", line_diff(&x, &y)))); }
    }
    // the same object, in the other format
    for n in nodes.iter().take(4) {
        let d = n.data.clone().unwrap_or_default();
        let h = crate::scenario::hexu(&d);
        if n.tag[0] == 0 || (d.len() > 0 && (h.bytes().all(|x| x == h.as_bytes()[0]) || d.iter().all(|x| *x == d[0]))) { continue; }
        let (x, y) = (ask(c, "ber", &one(n))?, ask(c, "ing", &one(n))?);
        if !usual(&x) || !usual(&y) { continue; }
        if taken(&x) != taken(&y) { return Ok(Outcome::bad("format", format!("object {} is taken in one format and refused in the other", crate::scenario::hexu(&one(n))))); }
        let (x, y) = (tlv::cells(&x.out), tlv::cells(&y.out));
        if x != y { return Ok(Outcome::bad("format", format!("the same object is reported otherwise when it comes in the other format; {}", line_diff(&y, &x)))); }
    }
    // every constructed object holds its children's report, every value with an option of its own that option's
    let mut todo: Vec<tlv::MNode> = nodes;
    let mut done = 0;
    while let Some(n) = todo.pop() {
        let d = n.data.clone().unwrap_or_default();
        if tlv::masked(&d, &masks) || d.is_empty() { continue; }
        if !n.children.is_empty() {
            if done < 24 {
                done += 1;
                let (x, k) = (ask(c, "ber", &one(&n))?, ask(c, "ber", &d)?);
                if usual(&x) && usual(&k) {
                    if taken(&x) != taken(&k) { return Ok(Outcome::bad("refusal", format!("constructed object {} is {}, but its children alone are {}", crate::scenario::hexu(&n.tag), if taken(&x) { "reported" } else { "refused" }, if taken(&k) { "reported" } else { "refused" }))); }
                    let (x, k) = (tlv::cells(&x.out), tlv::indent(&tlv::cells(&k.out), 1));
                    if taken_lines(&x, &k).is_none() { let tail: Lines = x[x.len().saturating_sub(k.len())..].to_vec(); return Ok(Outcome::bad("children", format!("the children of {} are reported otherwise than as a block of their own; from their {}", crate::scenario::hexu(&n.tag), line_diff(&tail, &k)))); }
                }
            }
            todo.extend(n.children.clone());
            continue;
        }
        let digits = |x: u8| x & 15 < 10 && x >> 4 < 10;
        let own = match &n.tag[..] { [0x95] => "tvr", [0x9B] => "tsi", [0x9F, 0x10] => "ccd-iad", [0x9F, 0x34] => "cvm-results", [0x8E] => "cvm-list", [0x5F, 0x30] if d.len() == 2 && d.iter().all(|x| digits(*x)) => "service-code", _ => continue };
        if done >= 32 { continue; }
        done += 1;
        let h = crate::scenario::hexu(&d);
        let x = ask(c, "ber", &one(&n))?;
        let y = c.reference(&with(format!("--{own}={}", if own == "service-code" { h.trim_start_matches('0').to_string() } else { h.clone() }).into_bytes()))?;
        if !usual(&x) || !usual(&y) { continue; }
        if own == "ccd-iad" && !taken(&y) { if taken(&x) && tlv::strip(&x.out).windows(8).any(|w| w == b"\nParsed:") { return Ok(Outcome::bad("alone", "issuer application data that its own option refuses is explained in a block".into())); } continue; }
        if taken(&x) != taken(&y) { return Ok(Outcome::bad("alone", format!("value {h} is {} by its own option --{own}, and {} in a block", if taken(&y) { "taken" } else { "refused" }, if taken(&x) { "taken" } else { "refused" }))); }
        if !taken(&x) { continue; }
        let (x, k) = (tlv::cells(&x.out), tlv::indent(&tlv::cells(&y.out), 1));
        match taken_lines(&x, &k) {
            Some(rest) if rest.last().is_some_and(|l| l.iter().map(|c| c.0).eq(b"Parsed:".iter().copied())) => {}
            _ => { let tail: Lines = x[x.len().saturating_sub(k.len())..].to_vec(); return Ok(Outcome::bad("alone", format!("value {h} is explained otherwise in a block than by its own option --{own}; {}", line_diff(&tail, &k)))); }
        }
    }
    Ok(Outcome::fine(key(p, &r)))
}
/// What comes before these lines, if they end the report.
fn taken_lines<'a>(x: &'a Lines, end: &Lines) -> Option<&'a [Vec<(u8, u64)>]> { (x.len() >= end.len() && x[x.len() - end.len()..] == end[..]).then(|| &x[..x.len() - end.len()]) }
fn e21(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let (Some(tag), Some(val)) = (p.get("tag").map(unhex), p.get("val").map(unhex)) else { return Err("bad plan".into()) };
    if tag.is_empty() { return Ok(Outcome::trivial()); }
    let r = c.run(&p.sc)?;
    if r.end == End::Exit(2) { return Ok(Outcome::trivial()); }
    let h = crate::scenario::hexu(&tag);
    if !r.end.ok() || !r.err.is_empty() { return Ok(Outcome::bad("refused", format!("tag {h} is not identified: {}, \"{}\"", r.end, lossy(&r.err, 100)))); }
    let text = String::from_utf8_lossy(&tlv::strip(&r.out)).into_owned();
    let field = |n: &str| text.lines().find_map(|l| l.strip_prefix(n)).map(|l| l.trim_start().to_string());
    let (Some(name), Some(shown), Some(class), Some(kind)) = (field("Name:"), field("Tag:"), field("Class:"), field("Data Object Type:")) else { return Ok(Outcome::bad("fields", format!("the identification of {h} lacks a field: \"{}\"", lossy(text.as_bytes(), 160)))) };
    if shown != format!("0x{h}") { return Ok(Outcome::bad("tag", format!("asked about {h}, told about {shown}"))); }
    let want = ["Universal", "Application", "Context-Specific", "Private"][usize::from(tag[0] >> 6)];
    if class != want { return Ok(Outcome::bad("class", format!("the class of {h} is {want}, told: {class}"))); }
    let want = if tag[0] & 0x20 == 0 { "Primitive" } else { "Constructed" };
    if kind != want { return Ok(Outcome::bad("type", format!("the type of {h} is {want}, told: {kind}"))); }
    let mut block = tag.clone();
    tlv::enc_len(val.len(), 0, &mut block);
    block.extend_from_slice(&val);
    let well = tlv::read(&block).is_some_and(|n| n.len() == 1 && n[0].tag == tag);
    let clean = p.sc.without_faults();
    let mut seen = 0;
    for f in ["ber", "ing"] {
        if f == "ber" && !well || f == "ing" && tag[0] == 0 { continue; }
        let a = if f == "ber" { format!("--ber-tlv={}", crate::scenario::hexu(&block)) } else { format!("--ingenico-tlv=T{h}:{:X}:h{}", L(val.len()), crate::scenario::hexu(&val)) };
        let mut t = clean.clone();
        *t.argv.last_mut().unwrap() = a.into_bytes();
        let x = c.reference(&t)?;
        if !x.end.ok() || !x.err.is_empty() { continue; }
        seen += 1;
        let text = String::from_utf8_lossy(&tlv::strip(&x.out)).into_owned();
        let line = text.lines().next().unwrap_or("");
        let mut w = line.splitn(3, " - ");
        let (t, _, n) = (w.next().unwrap_or(""), w.next(), w.next().unwrap_or(""));
        if t != format!("Tag: 0x{h}") { return Ok(Outcome::bad("tag", format!("an object with tag {h} is reported as \"{line}\""))); }
        // (the name of an object whose value may be beyond recognition says which it is)
        let bare = |s: &str| if matches!(&tag[..], [0x8A | 0x9C] | [0x9F, 0x10]) { s.split(" (").next().unwrap_or("").to_string() } else { s.to_string() };
        if bare(n) != bare(&name) { return Ok(Outcome::bad("name", format!("tag {h} is identified as \"{name}\", but an object with it is reported as \"{n}\""))); }
    }
    if seen > 0 { c.st.note("identifications compared with a report"); }
    Ok(Outcome::fine(key(p, &r)))
}
fn same(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let Some(o) = p.get("other") else { return Err("bad plan".into()) };
    let mut q = p.sc.clone();
    q.argv = o.split(' ').map(unhex).collect();
    let x = c.run(&p.sc)?;
    let y = c.run(&q)?;
    let how = || format!("as \"{}\"", q.argv[1..].iter().map(|a| lossy(a, 60)).collect::<Vec<_>>().join(" "));
    if x.end == End::Exit(2) && y.end == x.end && p.prop == "C25" { return Ok(Outcome::trivial()); }
    if x.end != y.end { return Ok(Outcome::bad("ending", format!("written {}, the same request ends otherwise: {} instead of {}: \"{}\"", how(), y.end, x.end, lossy(&y.err, 160)))); }
    if x.out != y.out { return Ok(Outcome::bad("stdout", format!("written {}, the same request gives another report; {}", how(), at_diff(&y.out, &x.out)))); }
    if x.err != y.err { return Ok(Outcome::bad("stderr", format!("written {}, the same request gives another message; {}", how(), at_diff(&y.err, &x.err)))); }
    Ok(Outcome::fine(key(p, &x)))
}
fn e26(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    if p.kind != "usage" { return same(p, c); }
    let r = c.run(&p.sc)?;
    if r.end != End::Exit(2) { return Ok(Outcome::bad("usage", format!("options that conflict, lack something or do not exist are not refused as such: {}, \"{}\"", r.end, lossy(&r.err, 160)))); }
    if !r.out.is_empty() { return Ok(Outcome::bad("usage", format!("a usage error, but standard output has \"{}\"", lossy(&r.out, 80)))); }
    if r.err.is_empty() && p.sc.fd[2] != 'c' && p.sc.caps.iter().all(|x| x.fd != 2) && p.sc.faults.iter().all(|f| f.cls != "werr") { return Ok(Outcome::bad("usage", "a usage error without a word on standard error".into())); }
    Ok(Outcome::fine(key(p, &r)))
}
fn e10(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let Some(alt) = p.get("alt").and_then(Sc::parse) else { return Err("bad plan".into()) };
    let a = c.reference(&p.sc)?;
    let b = c.run(&alt)?;
    if a.end != b.end { return Ok(Outcome::bad("status", format!("{} in one world, {} in the other: {}", a.end, b.end, lossy(&b.err, 200)))); }
    if a.out != b.out { return Ok(Outcome::bad("stdout", format!("standard output depends on the surroundings; {}", at_diff(&b.out, &a.out)))); }
    if a.err != b.err { return Ok(Outcome::bad("stderr", format!("standard error depends on the surroundings; {}", at_diff(&b.err, &a.err)))); }
    Ok(Outcome::fine(key(p, &b)))
}
pub fn nesting(text: &[u8]) -> usize {
    let b = tlv::hex_lenient(text);
    // iterative: how many constructed headers enclose the innermost object
    let (mut lo, mut hi, mut d) = (0usize, b.len(), 0);
    loop {
        if lo >= hi { return d; }
        let cons = b[lo] & 0x20 != 0;
        let mut i = lo + 1;
        if b[lo] & 0x1f == 0x1f { while i < hi && b[i] & 0x80 != 0 { i += 1; } i += 1; }
        if i >= hi || !cons { return d; }
        let l0 = b[i]; i += 1;
        let len = if l0 < 0x80 { usize::from(l0) } else { let n = usize::from(l0 & 0x7f); if n > 4 || i + n > hi { return d; } let v = b[i..i + n].iter().fold(0usize, |a, x| a << 8 | usize::from(*x)); i += n; v };
        if i + len > hi { return d; }
        d += 1; lo = i; hi = i + len;
    }
}
pub const MEM_BASE: u64 = 1_000_000;
pub const MEM_FACTOR: u64 = 120;
fn e11(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let input: u64 = p.sc.argv.iter().map(|a| a.len() as u64).sum::<u64>() + p.sc.nodes.iter().map(|n| n.data.len() as u64).sum::<u64>();
    let depth = p.sc.argv.iter().map(|a| nesting(a)).max().unwrap_or(0) as u64;
    let budget = MEM_BASE + MEM_FACTOR * input * (1 + depth);
    let mut s = p.sc.clone();
    s.lim.1 = budget.max(64 << 20);
    let intr: u64 = s.faults.iter().filter(|f| f.kind == "err").map(|f| f.count).sum();
    s.lim.0 = 4_000_000;
    if s.faults.iter().any(|f| f.kind == "short") {
        let b = c.reference(&s.without_faults())?;
        let out = (b.out.len() + b.err.len()) as u64;
        if out > 1_000_000 { s.faults.retain(|f| f.kind != "short"); } // a call per byte would take too long here
        s.lim.0 += 2 * out;
    }
    let r = c.run(&s)?;
    match &r.end {
        End::Exit(101) if p.kind != "unusable" => return Ok(Outcome::bad("panic", format!("internal error: {}", lossy(&r.err, 300)))),
        End::Exit(_) => {}
        End::Signal(n) => { let mut v = Viol { class: "crash".into(), msg: format!("died of signal {n} (nesting depth {depth}): {}", lossy(&r.err, 200)), finding: None }; if (*n == 11 || *n == 6) && depth >= 2500 { v.finding = Some("deep-nesting"); } return Ok(Outcome { viol: Some(v), key: None }); }
        e => return Ok(Outcome::bad("endless", format!("{e} (steps {}, peak memory {})", r.steps, r.peak))),
    }
    c.st.high("peak memory in bytes", r.peak); c.st.high("system calls of one run", r.steps); c.st.high("nesting depth", depth);
    c.st.high("percent of the memory budget", r.peak * 100 / budget);
    if r.peak > budget { return Ok(Outcome::bad("memory", format!("peak allocation {} bytes for {input} bytes of input at nesting depth {depth} (allowed {budget})", r.peak))); }
    let shorts: u64 = if s.faults.iter().any(|f| f.kind == "short") { (r.out.len() + r.err.len() + 64 * s.nodes.len()) as u64 } else { 0 };
    let cfgbytes: u64 = p.sc.nodes.iter().map(|n| n.data.len() as u64).sum::<u64>();
    let max = 400 + 2 * (r.out.len() + r.err.len()) as u64 + intr + shorts + cfgbytes / 8;
    // time may pass while a transfer is delayed, not because the run chooses to wait
    let grace: u64 = if p.kind == "unusable" { 0 } else { r.fired.iter().map(|f| u64::from(*f)).sum::<u64>() * 1_000_000_000 };
    if r.slept > grace { return Ok(Outcome::bad("waits", format!("the run waited for {} ms of its own accord", r.slept / 1_000_000))); }
    c.st.high("percent of the system call budget", r.steps * 100 / max);
    if r.steps > max { return Ok(Outcome::bad("steps", format!("{} system calls for {} bytes of output (allowed {max})", r.steps, r.out.len() + r.err.len()))); }
    Ok(Outcome::fine(key(p, &r)))
}
fn e12(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let colour = p.get("colour").unwrap_or("auto");
    let r = c.run(&p.sc)?;
    // the same invocation forced off and forced on
    let mut s = p.sc.without_faults();
    s.env.retain(|e| e.0 != b"PEMV_CLI_COLOUR");
    s.argv.retain(|a| !a.starts_with(b"--colour="));
    s.nodes.retain(|n| !n.path.ends_with("/pemv.toml"));
    s.fd[1] = if p.sc.fd[1] == 'n' { 'n' } else { 'p' };
    let with = |s: &Sc, v: &str| { let mut t = s.clone(); t.argv.push(format!("--colour={v}").into_bytes()); t };
    let never = c.reference(&with(&s, "never"))?;
    let always = c.reference(&with(&s, "always"))?;
    let ansi = c.reference(&with(&s, "ansi"))?;
    // a usage error: option parsing's own text names the options given, in their order
    if [&r, &never, &always, &ansi].iter().all(|x| x.end == End::Exit(2) && x.out.is_empty()) { return Ok(Outcome::trivial()); }
    if has_esc(&never.out) { return Ok(Outcome::bad("never", "escape sequences with colour switched off".into())); }
    if tlv::strip(&always.out) != never.out { return Ok(Outcome::bad("text", format!("the text changes with colour; {}", at_diff(&tlv::strip(&always.out), &never.out)))); }
    if ansi.out != always.out { return Ok(Outcome::bad("ansi", format!("'ansi' and 'always' differ; {}", at_diff(&ansi.out, &always.out)))); }
    if !never.out.is_empty() && !has_esc(&always.out) { return Ok(Outcome::bad("always", "no escape sequences with colour forced on".into())); }
    if !ends_reset(&always.out) { return Ok(Outcome::bad("reset", format!("attributes are not reset at the end: ...{}", lossy(&always.out[always.out.len().saturating_sub(60)..], 80)))); }
    if [&never, &always, &ansi].iter().any(|x| x.end != r.end) || r.err != never.err || always.err != never.err || ansi.err != never.err { return Ok(Outcome::bad("end", format!("status or messages depend on colour: {} / {}", r.end, never.end))); }
    let want = wants_colour(&p.sc, colour);
    let expect = if want { &always.out } else { &never.out };
    if r.out != *expect { return Ok(Outcome::bad("mode", format!("colour should be {} here (setting {colour}, standard output {}, TERM {:?}, NO_COLOR {}); {}", if want { "on" } else { "off" }, p.sc.fd[1], p.sc.getenv("TERM").map(|t| lossy(t, 20)), p.sc.getenv("NO_COLOR").is_some(), at_diff(&r.out, expect)))); }
    Ok(if never.out.is_empty() { Outcome::trivial() } else { Outcome::fine(key(p, &r)) })
}
fn e13(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    let b = c.reference(&p.sc.without_faults())?;
    if !b.end.ok() || b.out.is_empty() { return Ok(Outcome::trivial()); }
    let r = c.run(&p.sc)?;
    let cut = r.killfired > 0 || r.oomfired > 0;
    if !prefix(&r.out, &b.out) { return Ok(Outcome::bad("prefix", format!("what was delivered before the run was cut short is not a prefix of the full report; {}", at_diff(&r.out, &b.out)))); }
    match &r.end {
        End::Exit(0) => if r.out != b.out { return Ok(Outcome::bad("success", format!("exit status 0 with {} of {} bytes delivered", r.out.len(), b.out.len()))); },
        End::Steps | End::Mem | End::Output | End::Deadlock => return Ok(Outcome::bad("end", format!("the run did not end: {}", r.end))),
        _ => if !cut { return Ok(Outcome::bad("status", format!("{} although nothing cut the run short", r.end))); },
    }
    Ok(if cut { Outcome::fine(key(p, &r)) } else { Outcome::trivial() })
}

/// The files as they are after a run, and the paths it touched.
fn after(s: &Sc, log: &[u8]) -> (std::collections::BTreeMap<String, Vec<u8>>, std::collections::BTreeSet<String>) {
    let mut m: std::collections::BTreeMap<String, Vec<u8>> = s.nodes.iter().filter(|n| n.t == 'f').map(|n| (n.path.clone(), n.data.clone())).collect();
    let mut touched = std::collections::BTreeSet::new();
    let mut i = 0;
    while i + 5 <= log.len() {
        let op = log[i]; let pl = u32::from_le_bytes(log[i + 1..i + 5].try_into().unwrap()) as usize; i += 5;
        let path = String::from_utf8_lossy(&log[i..i + pl]).into_owned(); i += pl;
        let n8 = |i: usize| u64::from_le_bytes(log[i..i + 8].try_into().unwrap()) as usize;
        let (off, n) = (n8(i), n8(i + 8)); i += 16;
        let d = &log[i..i + n]; i += n;
        touched.insert(path.clone());
        match op {
            b'c' => { m.insert(path, vec![]); }
            b'w' => { let f = m.entry(path).or_default(); if f.len() < off + n { f.resize(off + n, 0); } f[off..off + n].copy_from_slice(d); }
            b't' => { let f = m.entry(path).or_default(); f.truncate(off); }
            b'u' => { m.remove(&path); }
            b'r' => { if let Some(f) = m.remove(&path) { let to = String::from_utf8_lossy(d).into_owned(); touched.insert(to.clone()); m.insert(to, f); } }
            _ => {}
        }
    }
    (m, touched)
}
const COMPLETIONS: [&str; 5] = ["pemv.bash", "pemv.elv", "pemv.fish", "_pemv.ps1", "_pemv"];
fn e15(p: &Plan, c: &mut Ctx) -> R<Outcome> {
    // what the generator makes of it when nothing interferes
    let mut q = Sc { argv: p.sc.argv.clone(), ..Sc::default() };
    q.add(Node::dir("/m")); q.add(Node::dir("/c"));
    q.setenv(OUT_MAN, b"/m"); q.setenv(OUT_COMP, b"/c");
    let g = c.reference(&q)?;
    if !g.end.ok() { return Ok(Outcome::bad("plain", format!("the generator fails on its own: {} {}", g.end, lossy(&g.err, 200)))); }
    let (want, _) = after(&q, &g.wlog);
    for (d, n) in [("/m", "pemv.1")].into_iter().chain(COMPLETIONS.map(|n| ("/c", n))) {
        let Some(f) = want.get(&format!("{d}/{n}")) else { return Ok(Outcome::bad("plain", format!("{n} is not generated"))) };
        let t = String::from_utf8_lossy(f).replace('\\', "");
        for o in ["ber-tlv", "ingenico-tlv", "cvm-list", "service-code", "masking-character"] { if !t.contains(o) { return Ok(Outcome::bad("plain", format!("the generated {n} lacks the option {o}"))); } }
    }
    let r = c.run(&p.sc)?;
    let (have, touched) = after(&p.sc, &r.wlog);
    let dirs = [want_dir(&p.sc, OUT_MAN), want_dir(&p.sc, OUT_COMP)];
    for t in &touched { if !dirs.iter().flatten().any(|d| t.starts_with(&format!("{d}/")) || d.starts_with(t.as_str()) && !p.sc.has(t)) { return Ok(Outcome::bad("outside", format!("the generator wrote to {t}, outside what was requested"))); } }
    if let Some(e) = r.effects.iter().find(|e| ["fork", "clone", "exec", "socket", "net", "link", "meta", "kill"].iter().any(|k| e.starts_with(&format!("{k} ")))) { return Ok(Outcome::bad("outside", format!("the generator did: {e}"))); }
    let hard = p.sc.faults.iter().any(|f| (f.cls == "open" || f.cls == "rfile") && f.kind == "err" && f.arg != i64::from(EINTR));
    // the known finding: a request made only in a dotenv file that cannot be opened or read is forgotten
    let forgotten = |k: &str| hard && p.sc.getenv(k).is_none() && p.sc.nodes.iter().any(|n| n.path.ends_with("/.env"));
    let mut finding = None;
    let missing = [("pemv.1", &dirs[0], "/m")].into_iter().chain(COMPLETIONS.iter().map(|n| (*n, &dirs[1], "/c"))).filter(|x| { let f = forgotten(if x.2 == "/m" { OUT_MAN } else { OUT_COMP }) && !touched.iter().any(|t| x.1.as_ref().is_some_and(|d| t.starts_with(&format!("{d}/")) && t.ends_with(x.0))); if f && r.end.ok() && x.1.is_some() { finding = Some("unreadable-dotenv"); } !f || !r.end.ok() }).find_map(|(n, d, w)| d.as_ref().and_then(|d| { let f = have.get(&format!("{d}/{n}")); if f == want.get(&format!("{w}/{n}")) { None } else { Some(format!("{d}/{n} is {}", f.map_or("missing".to_string(), |f| format!("incomplete ({} of {} bytes)", f.len(), want[&format!("{w}/{n}")].len())))) } }));
    if r.end.ok() { if let Some(m) = missing { return Ok(Outcome::bad("incomplete", format!("the build reports success although {m}"))); } }
    if finding.is_some() { return Ok(Outcome { viol: Some(Viol { class: "incomplete".into(), msg: "the build reports success although the dotenv file with the request could not be read and nothing was generated".into(), finding }), key: None }); }
    if p.kind == "benign" && !r.end.ok() { return Ok(Outcome::bad("status", format!("{} although nothing worse than interruptions and short transfers happened: {}", r.end, lossy(&r.err, 200)))); }
    if !matches!(r.end, End::Exit(_) | End::Signal(_) | End::SimKill) { return Ok(Outcome::bad("end", format!("{}", r.end))); }
    if r.end.ok() { c.st.note("generations completed"); } else { c.st.note("generations that failed"); }
    Ok(if r.any_fault_fired() || p.kind == "baddir" || (dirs[0].is_none() && dirs[1].is_none()) { Outcome::fine(key(p, &r)) } else { Outcome::trivial() })
}

// ---------------------------------------------------------------- known findings: their exact cases
const LOST_AT: u64 = 126_002;
pub fn finding_cases(prop: &str) -> Vec<(&'static str, Plan)> {
    match prop {
        "C11" => {
            let mut r = Rng::new(7);
            let b = tlv::gen_chain(&mut r, 13_000);
            let s = Sc::default().arg("-b").args(&[crate::scenario::hexu(&b).into_bytes()]);
            vec![("deep-nesting", Plan::new("C11", "deep", s))]
        }
        "C02" => {
            // an indentation that fills the output buffer exactly where an escape sequence follows
            let mut n = tlv::TNode { tag: vec![0x5A], val: tlv::Val::Prim(vec![1]), lenform: 0 };
            for _ in 0..1030 { n = tlv::TNode { tag: vec![0x70], val: tlv::Val::Cons(vec![n]), lenform: 0 }; }
            let b = tlv::enc(&[n]);
            let mut s = Sc::default().arg("--colour=always").arg("-b").args(&[crate::scenario::hexu(&b).into_bytes()]);
            s.lim = (2_000_000, 1 << 30, 128 << 20, 60);
            s.faults.push(Fault::err("wout", LOST_AT, 1, EAGAIN));
            vec![("lost-escapes", Plan::new("C02", "hard", s))]
        }
        "C15" => {
            let mut s = Sc { argv: vec![b"build-script-build".to_vec()], cwd: "/src".into(), ..Sc::default() };
            s.add(Node::dir("/src")); s.add(Node::dir("/out")); s.add(Node::file("/src/.env", b"MAN_PAGE_OUT_DIR=/out\n"));
            s.faults.push(Fault::err("open", 1, 1, EACCES));
            vec![("unreadable-dotenv", Plan::new("C15", "hard", s))]
        }
        _ => vec![],
    }
}

// ---------------------------------------------------------------- what a plan really runs
/// The scenario under judgement, with whatever the evaluation adds to it.
pub fn shown(p: &Plan) -> Sc {
    match p.prop.as_str() { "C04" => c04_build(p).0, "C10" => p.get("alt").and_then(Sc::parse).unwrap_or_else(|| p.sc.clone()), _ => p.sc.clone() }
}

pub fn describe(p: &Plan) -> String { if p.prop == "C14" { crate::rel::describe(p) } else { crate::ctx::describe(&shown(p)) } }
/// A readable trace of the run and its digest.
pub fn trace(c: &mut Ctx, p: &Plan) -> (String, String) {
    if p.prop == "C14" { return crate::rel::trace(c, p); }
    c.forget();
    match c.w.run(&shown(p)) {
        Ok(r) => {
            let mut o = format!("# Trace of the run (step, call, result, *fault); it ended with: {}\n", r.end);
            for l in String::from_utf8_lossy(&r.trace).lines().take(400) { o.push_str("#   "); o.push_str(l); o.push('\n'); }
            (o, format!("{:016x}", r.digest()))
        }
        Err(e) => (format!("# {e}\n"), String::new()),
    }
}

// ---------------------------------------------------------------- shrinking
/// Blocks with one object less, or one object replaced by its children or by a shorter one.
fn prune(t: &[tlv::TNode], out: &mut Vec<Vec<tlv::TNode>>) {
    if t.len() > 3 { out.push(t[..t.len() / 2].to_vec()); out.push(t[t.len() / 2..].to_vec()); }
    for i in 0..t.len() {
        let mut u = t.to_vec(); u.remove(i); out.push(u);
        let put = |v: tlv::Val| { let mut u = t.to_vec(); u[i].val = v; u };
        match &t[i].val {
            tlv::Val::Cons(k) => {
                let mut u = t.to_vec(); u.splice(i..=i, k.iter().cloned()); out.push(u);
                let mut sub = vec![]; prune(k, &mut sub);
                for s in sub { if !s.is_empty() { out.push(put(tlv::Val::Cons(s))); } }
            }
            tlv::Val::Prim(v) if !v.is_empty() => { out.push(put(tlv::Val::Prim(v[..v.len() / 2].to_vec()))); out.push(put(tlv::Val::Prim(v[..v.len() - 1].to_vec()))); if v.iter().any(|b| *b != 0) { out.push(put(tlv::Val::Prim(vec![0; v.len()]))); } }
            tlv::Val::Prim(_) => {}
        }
    }
}
/// Simpler variants of a plan, most drastic first.
pub fn shrinks(p: &Plan) -> Vec<Plan> {
    if p.prop == "C14" { return crate::rel::shrinks(p); }
    let mut v = vec![];
    let s = &p.sc;
    // what a case records beside its scenario (the settings in force, whether the input is acceptable, a second
    // world) must stay true of every variant: those parts of the scenario it was derived from are kept
    let envdep = matches!(p.prop.as_str(), "C06" | "C15");
    let pinned = matches!(p.prop.as_str(), "C03" | "C04" | "C12" | "C24" | "C25" | "C26" | "C27");
    let both = p.prop == "C10";
    let judged = p.get("expect").is_some_and(|e| e != "open");
    let mut push = |f: &dyn Fn(&mut Plan)| { let mut q = p.clone(); f(&mut q); if q != *p { v.push(q); } };
    for i in 0..s.faults.len() { if p.kind == "read" && i == 0 { continue; } push(&|q| { q.sc.faults.remove(i); }); }
    for i in 0..s.edits.len() { push(&|q| { q.sc.edits.remove(i); }); }
    for i in 0..s.caps.len() { if s.caps.len() + s.faults.len() > 1 { push(&|q| { q.sc.caps.remove(i); }); } }
    for i in 0..s.faults.len() { if s.faults[i].count > 1 { push(&|q| q.sc.faults[i].count = 1); } if s.faults[i].from > 0 { push(&|q| q.sc.faults[i].from = 0); push(&|q| q.sc.faults[i].from /= 2); push(&|q| q.sc.faults[i].from -= 1); } }
    for i in 0..s.caps.len() { if s.caps[i].bytes > 0 { push(&|q| q.sc.caps[i].bytes = 0); push(&|q| q.sc.caps[i].bytes /= 2); push(&|q| q.sc.caps[i].bytes -= 1); } }
    if let Some(k) = &s.kill { if k.part >= 0 { push(&|q| q.sc.kill.as_mut().unwrap().part = -1); } if k.step > 0 { push(&|q| q.sc.kill.as_mut().unwrap().step /= 2); push(&|q| q.sc.kill.as_mut().unwrap().step -= 1); } }
    if let Some((a, n)) = s.oom { if n > 1 { push(&|q| q.sc.oom = Some((a, 1))); } if a > 0 { push(&|q| q.sc.oom = Some((a / 2, n))); push(&|q| q.sc.oom = Some((a - 1, n))); } }
    let layers: Vec<usize> = p.kv.iter().enumerate().filter(|(_, k)| k.0 == "layer").map(|x| x.0).collect();
    for i in layers { push(&|q| { q.kv.remove(i); }); }
    if !envdep && !both {
        for i in 0..s.env.len() { if pinned && s.env[i].0.starts_with(b"PEMV_") { continue; } push(&|q| { q.sc.env.remove(i); }); }
        for i in 0..s.nodes.len() { let n = &s.nodes[i]; if pinned && n.path.ends_with(".toml") { continue; } if n.t != 'd' || (n.path != s.cwd && !s.nodes.iter().any(|m| m.path.starts_with(&format!("{}/", n.path))) && !s.cwd.starts_with(&format!("{}/", n.path))) { push(&|q| { q.sc.nodes.remove(i); }); } }
    } else if envdep { for i in 0..s.env.len() { if !s.env[i].0.starts_with(b"PEMV_") && (p.prop == "C06" || !s.env[i].0.ends_with(b"_OUT_DIR")) { push(&|q| { q.sc.env.remove(i); }); } } }
    // arguments
    let setdep = matches!(p.prop.as_str(), "C03" | "C12" | "C24") || p.get("text").is_some();
    if !setdep && !both && !judged && p.prop != "C06" && p.prop != "C15" { for i in 1..s.argv.len() { push(&|q| { q.sc.argv.remove(i); }); } }
    if p.get("text").is_none() && !judged {
        for i in 1..s.argv.len() { for t in shrink_text(&s.argv[i]) { let t2 = t.clone(); let old = s.argv[i].clone(); push(&|q| { for a in &mut q.sc.argv { if *a == old { *a = t2.clone(); } } if let Some(k) = q.kv.iter().position(|k| k.0 == "alt") { if let Some(mut sc) = Sc::parse(&q.kv[k].1) { for a in &mut sc.argv { if *a == old { *a = t2.clone(); } } q.kv[k].1 = sc.wire(); } } }); } }
    }
    // a block that is asked for in parts as well
    if let (Some(b), Some(fmt)) = (p.get("block").map(unhex), p.get("fmt")) {
        if let Some(t) = tlv::to_tree(&b) {
            let mut cand = vec![];
            prune(&t, &mut cand);
            for t in cand.into_iter().take(300) {
                let e = tlv::enc(&t);
                let Some(a) = block_arg(fmt, &e) else { continue };
                if e.is_empty() || e == b { continue; }
                let mut q = p.clone();
                *q.sc.argv.last_mut().unwrap() = a;
                if let Some(k) = q.kv.iter_mut().find(|k| k.0 == "block") { k.1 = crate::scenario::hex(&e); }
                v.push(q);
            }
        }
    }
    // requests written two ways: both texts lose the same part
    if let (Some(o), Some(i)) = (p.get("other"), p.kv.iter().position(|k| k.0 == "other")) {
        let o: Vec<Vec<u8>> = o.split(' ').map(unhex).collect();
        if let Some(k) = p.kv.iter().position(|k| k.0 == "segs") {
            let g: Vec<(usize, usize)> = p.kv[k].1.split(' ').filter_map(|x| { let (a, b) = x.split_once(',')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect();
            let (Some(x), Some(y)) = (s.argv.last(), o.last()) else { return v };
            let pre = x.iter().position(|c| *c == b'=').unwrap_or(0) + 1;
            let n = g.len();
            let mut ranges: Vec<(usize, usize)> = vec![(n / 2, n.saturating_sub(1)), (0, n / 2)];
            ranges.extend((0..n.saturating_sub(1)).take(40).map(|j| (j, j + 1)));
            for (a, b) in ranges {
                if a >= b || b >= n || pre + g[b].0 > x.len() || pre + g[b].1 > y.len() { continue; }
                let mut q = p.clone();
                let (mut x2, mut y2) = (x.clone(), y.clone());
                x2.drain(pre + g[a].0..pre + g[b].0); y2.drain(pre + g[a].1..pre + g[b].1);
                if x2.len() <= pre || y2.len() <= pre { continue; }
                let (d, e) = (g[b].0 - g[a].0, g[b].1 - g[a].1);
                q.kv[k].1 = g[..=a].iter().copied().chain(g[b + 1..].iter().map(|z| (z.0 - d, z.1 - e))).map(|z| format!("{},{}", z.0, z.1)).collect::<Vec<_>>().join(" ");
                *q.sc.argv.last_mut().unwrap() = x2;
                let mut o2 = o.clone(); *o2.last_mut().unwrap() = y2;
                q.kv[i].1 = words(&o2);
                v.push(q);
            }
        }
        if let Some(k) = p.kv.iter().position(|k| k.0 == "val") {
            let val = unhex(&p.kv[k].1);
            for t in if val.is_empty() { vec![] } else { shrink_text(&val) } {
                let sub = |a: &[Vec<u8>]| -> Vec<Vec<u8>> { a.iter().map(|w| if w.ends_with(&val) && (w.len() == val.len() || w.starts_with(b"-")) { [&w[..w.len() - val.len()], &t[..]].concat() } else { w.clone() }).collect() };
                let mut q = p.clone();
                q.sc.argv = sub(&s.argv); q.kv[i].1 = words(&sub(&o)); q.kv[k].1 = crate::scenario::hex(&t);
                v.push(q);
            }
        }
    }
    let mut push = |f: &dyn Fn(&mut Plan)| { let mut q = p.clone(); f(&mut q); if q != *p { v.push(q); } };
    // surroundings back to the ordinary
    if let Some(k) = p.kv.iter().position(|k| k.0 == "alt") {
        if let Some(a) = Sc::parse(&p.kv[k].1) {
            let mut alts: Vec<Sc> = vec![];
            let mut add = |f: &dyn Fn(&mut Sc)| { let mut b = a.clone(); f(&mut b); if b != a { alts.push(b); } };
            add(&|b| b.env = s.env.clone()); add(&|b| b.nodes = s.nodes.clone()); add(&|b| { b.seed = s.seed; b.sched = s.sched; }); add(&|b| { b.clock = s.clock; b.cjump = None; }); add(&|b| { b.pid = s.pid; b.uid = s.uid; b.cpus = s.cpus; }); add(&|b| b.attr = s.attr); add(&|b| { b.heap = s.heap; b.stackoff = s.stackoff; b.lim = s.lim; }); add(&|b| { b.fd = s.fd; b.stdin = s.stdin.clone(); }); add(&|b| b.win = s.win);
            for i in 0..a.env.len() { if !s.env.contains(&a.env[i]) { add(&|b| { b.env.remove(i); }); } }
            for i in 0..a.nodes.len() { if !s.nodes.contains(&a.nodes[i]) && a.nodes[i].t != 'd' { add(&|b| { b.nodes.remove(i); }); } }
            for b in alts { push(&|q| q.kv[k].1 = b.wire()); }
        }
    } else {
        let d = Sc::default();
        push(&|q| { q.sc.clock = d.clock; q.sc.cjump = None; }); push(&|q| { q.sc.seed = 1; q.sc.sched = 1; }); push(&|q| q.sc.pid = d.pid); push(&|q| q.sc.attr = 0); push(&|q| q.sc.win = d.win);
        if !s.stdin.is_empty() { push(&|q| q.sc.stdin.clear()); }
        if !setdep { push(&|q| q.sc.fd = d.fd); } push(&|q| q.sc.fd[0] = 'n'); push(&|q| if q.sc.fd[2] != 'c' { q.sc.fd[2] = 'p' });
    }
    v
}
fn shrink_text(a: &[u8]) -> Vec<Vec<u8>> {
    let (pre, body) = match a.iter().position(|c| *c == b'=') { Some(i) if a.starts_with(b"--") => a.split_at(i + 1), _ => (&a[..0], a) };
    let (pre, body) = if pre.is_empty() && body.starts_with(b"-") && body.len() > 2 && body[1] != b'-' { body.split_at(2) } else { (pre, body) };
    if body.len() < 3 || body.starts_with(b"-") { return vec![]; }
    let mut out: Vec<Vec<u8>> = vec![];
    let mut put = |t: Vec<u8>| { if !t.is_empty() && t != body { let mut x = pre.to_vec(); x.extend(t); out.push(x); } };
    if body.contains(&b':') {
        // remove or keep one entry of an Ingenico block, found by its leading type letter
        let starts: Vec<usize> = body.iter().enumerate().filter(|(i, c)| (**c == b'T' || **c == b'D') && (*i == 0 || body[i + 1..].iter().take(12).filter(|x| **x == b':').count() >= 1)).map(|x| x.0).collect();
        for w in starts.windows(2) { let mut t = body[..w[0]].to_vec(); t.extend_from_slice(&body[w[1]..]); put(t); }
        if let Some(l) = starts.last() { if *l > 0 { put(body[..*l].to_vec()); } }
        return out;
    }
    if !body.iter().all(|c| c.is_ascii_hexdigit() || *c == b' ') { return out; }
    let b = tlv::hex_lenient(body);
    let hx = |b: &[u8]| crate::scenario::hexu(b).into_bytes();
    put(hx(&b));
    if let Some(n) = tlv::to_tree(&b) {
        if n.len() > 3 { put(hx(&tlv::enc(&n[..n.len() / 2]))); put(hx(&tlv::enc(&n[n.len() / 2..]))); }
        for i in 0..n.len().min(40) {
            if n.len() > 1 { let mut m = n.clone(); m.remove(i); put(hx(&tlv::enc(&m))); }
            match &n[i].val {
                tlv::Val::Prim(x) if x.len() > 1 => { let mut m = n.clone(); m[i].val = tlv::Val::Prim(x[..x.len() / 2].to_vec()); put(hx(&tlv::enc(&m))); let mut m = n.clone(); m[i].val = tlv::Val::Prim(x[..x.len() - 1].to_vec()); put(hx(&tlv::enc(&m))); }
                tlv::Val::Cons(k) => { let mut m = n.clone(); m.splice(i..=i, k.iter().cloned()); put(hx(&tlv::enc(&m))); for j in 0..k.len().min(20) { let mut kk = k.clone(); kk.remove(j); let mut m = n.clone(); m[i].val = tlv::Val::Cons(kk); put(hx(&tlv::enc(&m))); } }
                tlv::Val::Prim(_) => {}
            }
        }
    }
    for k in [b.len() / 2, b.len().saturating_sub(1)] { if k > 0 { put(hx(&b[..k])); } }
    out
}
