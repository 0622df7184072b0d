//! Generators of simulated worlds and of invocations.
use crate::prng::Rng;
use crate::scenario::{Node, Sc};
use crate::tlv::{self, Format, GenCfg, Parsed};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Expect { Accept, Reject, Open }
#[derive(Clone, Debug)]
pub struct Op { pub name: &'static str, pub args: Vec<Vec<u8>>, pub tlv: bool, pub expect: Expect }

static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
/// Names of settings the program might know besides the documented ones: look-alikes, and what its binary mentions.
pub fn learn_names(exe: &str) {
    let mut v: Vec<String> = ["COLOUR", "COLOR", "CLI_COLOR", "CLICOLOUR", "MASKING", "MASK", "MASKING_CHARACTER", "MASKING_CHARS", "SORT", "SORT_TAGS", "SORTED", "NO_SORT_PARSED_TAGS", "NO_COLOR", "DEBUG", "VERBOSE", "LOG", "CONFIG_FILE", "CONFIG_PATH", "CONFIG_DIR", "PROFILES", "CLI_COLOURS", "DEFAULT_CLI_COLOUR", "_CLI_COLOUR", "FORCE_COLOUR"].iter().map(|x| format!("PEMV_{x}")).collect();
    v.extend(["CLI_COLOUR", "MASKING_CHARACTERS", "SORT_PARSED_TAGS", "XPEMV_CLI_COLOUR", "PEMVCLI_COLOUR", "CONFIG", "PROFILE", "APP_PROFILE", "FIGMENT_PROFILE"].iter().map(|x| x.to_string()));
    let b = std::fs::read(exe).unwrap_or_default();
    let mut i = 0;
    while let Some(k) = b[i..].windows(5).position(|w| w == b"PEMV_") {
        let at = i + k;
        let n = b[at..].iter().take(48).take_while(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || **c == b'_').count();
        let t = String::from_utf8_lossy(&b[at..at + n]).into_owned();
        if n > 5 && !["PEMV_CONFIG", "PEMV_PROFILE", "PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS"].contains(&t.as_str()) && !v.contains(&t) { v.push(t.clone()); v.push(t); }
        i = at + 5;
    }
    let _ = NAMES.set(v);
}
/// Variables named like settings that are none.
fn lookalikes(r: &mut Rng, s: &mut Sc) {
    let Some(v) = NAMES.get() else { return };
    for _ in 0..1 + r.us(3) {
        let n = r.pick(v).clone();
        let val = *r.pick(&["always", "never", "ansi", "1", "0", "true", "false", "#", "[\"#\"]", "release", "corp2", "/etc/pemv.toml", "", "[", "mauve"]);
        s.setenv(&n, val.as_bytes());
    }
}

/// A plausible machine around the program: home, temporary and system directories that
/// could be written to, a terminal description, standard descriptors of assorted kinds.
pub fn world(r: &mut Rng) -> Sc {
    let mut s = Sc::default();
    s.nodes.clear();
    for d in ["/home", "/home/u", "/home/u/.config", "/home/u/.cache", "/home/u/.local", "/home/u/.local/share", "/home/u/.local/state", "/tmp", "/var", "/var/tmp", "/var/log", "/run", "/run/user", "/run/user/1000", "/etc", "/dev", "/dev/shm", "/work", "/usr", "/usr/share"] { s.nodes.push(Node::dir(d)); }
    s.cwd = (*r.pick(&["/work", "/home/u", "/work/cards/today", "/tmp"])).to_string();
    if s.cwd == "/work/cards/today" { s.nodes.push(Node::dir("/work/cards")); s.nodes.push(Node::dir("/work/cards/today")); }
    for (k, v) in [("HOME", "/home/u"), ("USER", "u"), ("LOGNAME", "u"), ("PATH", "/usr/bin:/bin"), ("TMPDIR", "/tmp"), ("XDG_CACHE_HOME", "/home/u/.cache"), ("XDG_CONFIG_HOME", "/home/u/.config"), ("XDG_RUNTIME_DIR", "/run/user/1000"), ("LANG", "en_GB.UTF-8")] {
        if r.chance(3, 4) { s.setenv(k, v.as_bytes()); }
    }
    if r.chance(4, 5) { s.setenv("TERM", r.pick(&["xterm-256color", "xterm", "screen", "vt100"]).as_bytes()); }
    if r.chance(1, 5) { lookalikes(r, &mut s); }
    s.fd = [*r.pick(&['n', 'p', 'f', 't']), *r.pick(&['p', 'p', 'f', 't']), *r.pick(&['p', 'p', 't', 'f'])];
    if s.fd[0] != 'n' { let n = r.us(40); s.stdin = r.bytes(n); }
    s.seed = r.u64() >> 1;
    s.sched = r.u64() >> 1;
    s.clock = (r.range(1, 4_000_000_000) as i64, r.below(1_000_000_000) as i64, r.logu(1_000_000_000) as i64 + 1);
    s.win = (r.range(0, 60) as u32, r.range(0, 200) as u32);
    s.pid = r.range(2, 4_000_000) as i64;
    s
}

fn hexarg(r: &mut Rng, b: &[u8]) -> Vec<u8> { tlv::hex_text(r, b).into_bytes() }
/// Chooses one spelling of an option and attaches the value one of the ways clap allows.
fn opt(r: &mut Rng, longs: &[&str], short: Option<char>, val: Vec<u8>) -> Vec<Vec<u8>> {
    if let Some(c) = short { if r.chance(1, 3) { if r.chance(1, 2) { return vec![format!("-{c}").into_bytes(), val]; } let mut v = format!("-{c}").into_bytes(); if !val.starts_with(b"=") { v.extend_from_slice(&val); return vec![v]; } } }
    let l = r.pick(longs);
    if r.chance(1, 2) { vec![format!("--{l}").into_bytes(), val] } else { let mut v = format!("--{l}=").into_bytes(); v.extend_from_slice(&val); vec![v] }
}
pub const VALUE_OPS: [&str; 8] = ["tvr", "tsi", "ccd-cvr", "ccd-iad", "cvm-results", "cvm-list", "identify", "service-code"];
pub fn good_value(r: &mut Rng, which: &str) -> Vec<u8> {
    match which {
        "tvr" => if r.chance(1, 6) { vec![*r.pick(&[0u8, 0xff]); 5] } else { r.bytes(5) },
        "tsi" => r.bytes(2),
        "ccd-cvr" => { let mut v = r.bytes(5); if r.chance(1, 2) { v[0] &= 0x0f; v[0] |= *r.pick(&[0xA0, 0x90, 0x50, 0x60]); } v }
        "ccd-iad" => { let mut v = r.bytes(32); v[0] = 0x0F; v[16] = 0x0F; v[1] = *r.pick(&[0xA5, 0xA6]); v[3] = (v[3] & 0x0f) | *r.pick(&[0xA0, 0x90, 0x50, 0x60]); if r.chance(1, 2) { for b in &mut v[17..] { *b = 0; } } v }
        "cvm-results" => vec![*r.pick(&[0x5E, 0x1E, 0x42, 0x1F, 0x02, 0x3F, 0x44, 0x00]), r.below(10) as u8, r.below(3) as u8],
        "cvm-list" => { let mut v = r.bytes(8); if r.chance(1, 2) { v[..8].fill(0); } let n = match r.below(48) { 0 => 250 + r.us(20), 1..=3 => 20 + r.us(200), _ => 1 + r.us(8) }; for _ in 0..n { v.push(*r.pick(&[0x42, 0x1E, 0x5E, 0x1F, 0x04, 0x02, 0x00, 0x41, 0x03, 0x43, 0x05, 0x45, 0x44, 0x01])); v.push(r.below(10) as u8); } v }
        "identify" => match r.below(4) { 0 => tlv::rand_tag(r, false), 1 => tlv::rand_tag(r, true), _ => r.pick(&[&[0x95u8][..], &[0x9F, 0x33], &[0x9B], &[0x5A], &[0x6F], &[0xBF, 0x0C], &[0x9F, 0x10], &[0x82], &[0x8E], &[0x9F, 0x1A]]).to_vec() },
        _ => vec![],
    }
}
pub fn opt_for(r: &mut Rng, which: &str, val: Vec<u8>) -> Vec<Vec<u8>> {
    match which {
        "tvr" => opt(r, &["tvr", "95", "iac", "tac"], Some('t'), val),
        "tsi" => opt(r, &["tsi", "9B", "9b"], None, val),
        "ccd-cvr" => opt(r, &["ccd-cvr", "cvr"], None, val),
        "ccd-iad" => opt(r, &["ccd-iad", "9F10", "9f10", "iad"], None, val),
        "cvm-results" => opt(r, &["cvm-results", "9F34", "9f34", "cvm-result"], Some('r'), val),
        "cvm-list" => opt(r, &["cvm-list", "8E", "8e"], None, val),
        "identify" => opt(r, &["identify", "id"], None, val),
        "service-code" => opt(r, &["service-code", "5F30", "5f30"], None, val),
        "ber-tlv" => opt(r, &["ber-tlv", "ber"], Some('b'), val),
        "ingenico-tlv" => opt(r, &["ingenico-tlv", "ingenico"], Some('i'), val),
        _ => opt(r, &["auto-tlv", "auto", "parse-tlv", "parse"], Some('a'), val),
    }
}
pub fn value_op(r: &mut Rng, reject: bool) -> Op {
    let which = *r.pick(&VALUE_OPS);
    if which == "service-code" {
        let t = if reject { r.pick(&["abc", "", "1000", "99999", "777", "-1x", "8", "12a", "2O1", "340"]).to_string() } else { format!("{}{}{}", r.pick(&[1, 2, 5, 6, 7, 9]), r.pick(&[0, 2, 4]), r.below(8)) };
        let t = if t.is_empty() { "x".to_string() } else { t };
        return Op { name: which, args: opt_for(r, which, t.into_bytes()), tlv: false, expect: if reject { Expect::Open } else { Expect::Accept } };
    }
    let mut v = good_value(r, which);
    let expect = if reject {
        match which {
            "cvm-list" => { if r.chance(1, 2) { v.truncate(r.us(8)); } else { v.push(0x1E); } Expect::Open }
            "identify" => { v = vec![]; Expect::Open }
            _ => { if r.chance(1, 2) { let k = r.us(v.len()); v.truncate(k); } else { v.push(r.u64() as u8); } Expect::Reject }
        }
    } else { match which { "tvr" | "tsi" => Expect::Accept, _ => Expect::Open } };
    let txt = hexarg(r, &v);
    let txt = if txt.is_empty() { b"zz".to_vec() } else { txt };
    Op { name: which, args: opt_for(r, which, txt), tlv: false, expect }
}
/// Text of a block in the given format, guaranteed non-empty.
pub fn block_text(r: &mut Rng, f: Format, c: &GenCfg) -> String {
    let mut b = tlv::gen_block(r, c);
    if b.is_empty() { b = vec![tlv::TNode { tag: vec![0x5A], val: tlv::Val::Prim(vec![1, 2]), lenform: 0 }]; }
    match f { Format::Ber => tlv::hex_text(r, &tlv::enc(&b)), Format::Ing => tlv::ing_text(r, &b, c), Format::Auto => if r.chance(1, 2) { tlv::hex_text(r, &tlv::enc(&b)) } else { tlv::ing_text(r, &b, c) } }
}
pub fn opname(f: Format) -> &'static str { match f { Format::Ber => "ber-tlv", Format::Ing => "ingenico-tlv", Format::Auto => "auto-tlv" } }
pub fn format(r: &mut Rng) -> Format { *r.pick(&[Format::Ber, Format::Ber, Format::Ing, Format::Auto]) }
pub fn tlv_args(r: &mut Rng, f: Format, text: &str) -> Vec<Vec<u8>> { opt_for(r, opname(f), text.as_bytes().to_vec()) }
/// Damages a block somewhere, near its end more often than not, so that it is no longer well-formed.
pub fn damage(r: &mut Rng, f: Format, text: &str) -> String {
    if f == Format::Ber || (f == Format::Auto && !text.contains(':')) {
        let mut b = tlv::hex_lenient(text.as_bytes());
        match r.below(6) {
            0 | 1 => { let k = 1 + r.us(3.min(b.len().max(1))); b.truncate(b.len().saturating_sub(k)); }
            2 => { let k = r.us(b.len() + 1); b.truncate(k); }
            3 => b.extend_from_slice(r.pick(&[&[0x5A][..], &[0x9F], &[0x5A, 0x05, 0x01], &[0x9F, 0x33, 0x81], &[0x5A, 0x85, 0, 0, 0, 0, 1, 1], &[0x5A, 0x84, 0xff, 0xff, 0xff, 0xff], &[0x95, 0x01, 0x00], &[0x9F, 0x33, 0x02, 1, 2]])),
            4 => { let k = r.us(b.len().max(1)); if k < b.len() { b[k] ^= 1 << r.below(8); } }
            _ => { b.extend_from_slice(&[0x70, 0x03, 0x9B, 0x01, 0x00]); }
        }
        if b.is_empty() { b.push(0x5A); }
        return tlv::hex_text(r, &b);
    }
    let mut t = text.to_string();
    match r.below(5) {
        0 | 1 => { let k = 1 + r.us(4); t.truncate(t.len().saturating_sub(k)); }
        2 => { let k = r.us(t.len() + 1); t.truncate(k); }
        3 => t.push_str(r.pick(&["T5A", "T5A:04:h01", "T5A:01:x01", "T5A:01:hzz", "T:01:h00", "T95:01:h00", "TzA:01:h00", "T5A:0000000001:h00", "T9F33:FFFFFFFF:h00", "T5A:1:h01", "T5F3:01:h01"])),
        _ => { let k = r.us(t.len().max(1)); let mut b = t.into_bytes(); if k < b.len() { b[k] = *r.pick(b"0FTa:~"); } t = String::from_utf8_lossy(&b).into_owned(); }
    }
    if t.is_empty() { t = "T".into(); }
    t
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Want { Accept, Reject, Any }
/// A TLV operation with no setting options on it.
pub fn tlv_op(r: &mut Rng, c: &GenCfg, want: Want) -> Op {
    for _ in 0..40 {
        let f = format(r);
        let mut t = block_text(r, f, c);
        if want == Want::Reject || (want == Want::Any && r.chance(1, 3)) { t = damage(r, f, &t); }
        if t.starts_with('-') || t.contains('\0') { continue; }
        let expect = match tlv::model(f, t.as_bytes(), &['*'], true).0 { Parsed::Ok(n) => if tlv::certain(&n) { Expect::Accept } else { Expect::Open }, Parsed::Reject => Expect::Reject, Parsed::Unsure => Expect::Open };
        if (want == Want::Accept && expect == Expect::Reject) || (want == Want::Reject && expect != Expect::Reject) { continue; }
        return Op { name: opname(f), args: tlv_args(r, f, &t), tlv: true, expect };
    }
    Op { name: "ber-tlv", args: vec![b"-b".to_vec(), if want == Want::Reject { b"5A05".to_vec() } else { b"5A0101".to_vec() }], tlv: true, expect: if want == Want::Reject { Expect::Reject } else { Expect::Accept } }
}
pub fn any_op(r: &mut Rng, want: Want) -> Op {
    let c = small_cfg(r);
    if r.chance(2, 5) { tlv_op(r, &c, want) } else { let rej = match want { Want::Accept => false, Want::Reject => true, Want::Any => r.chance(1, 3) }; value_op(r, rej) }
}
pub fn small_cfg(r: &mut Rng) -> GenCfg {
    let mut c = tlv::gen_cfg(r);
    if r.chance(3, 4) { c.max_nodes = c.max_nodes.min(6); c.max_val = c.max_val.min(40); }
    c.masks = vec!['*'];
    c
}
/// Invocations that print something other than a breakdown.
pub fn other_op(r: &mut Rng) -> Op {
    let a: &[&str] = r.pick(&[&["--help"][..], &["-h"], &["-?"], &["--version"], &["-V"], &[], &["--colour", "never"], &["--bogus"], &["--tvr"], &["--colour", "purple", "--tvr", "0000000000"], &["-m", "ab", "-b", "5A0101"], &["--sort", "--tsi", "0000"], &["--tvr", "0000000000", "--tsi", "0000"], &["--tvr="], &["--sort", "--no-sort", "-b", "5A0101"], &["--colour=always"], &["extra"]]);
    Op { name: "other", args: a.iter().map(|x| x.as_bytes().to_vec()).collect(), tlv: false, expect: Expect::Open }
}
