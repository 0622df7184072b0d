//! Reference model of TLV blocks and their report, written from the formats'
//! rules, plus the generator of blocks.
use crate::prng::Rng;
use crate::scenario::hexu;

// ------------------------------------------------------------------ model
#[derive(Clone, Debug, PartialEq)]
pub struct MNode { pub tag: Vec<u8>, pub data: Option<Vec<u8>>, pub children: Vec<MNode> }
#[derive(Clone, Debug, PartialEq)]
pub enum Parsed { Ok(Vec<MNode>), Reject, Unsure }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Format { Ber, Ing, Auto }

fn masked_units(units: &[u32], masks: &[char]) -> bool { units.len() >= 2 && masks.iter().any(|m| units.iter().all(|u| *u == *m as u32)) }

/// None = rejected; the flag is raised where the format leaves the answer open.
fn ber(b: &[u8], masks: &[char], unsure: &mut bool) -> Option<Vec<MNode>> {
    let mut out = vec![];
    let mut rest = b;
    while let Some((&first, mut r)) = rest.split_first() {
        let mut tag = vec![first];
        if first & 0x1f == 0x1f {
            loop {
                let (&t, r2) = r.split_first()?;
                tag.push(t);
                r = r2;
                if t & 0x80 == 0 { break; }
            }
        }
        let (&l0, r2) = r.split_first()?;
        r = r2;
        let len = if l0 < 0x80 { usize::from(l0) } else {
            let n = usize::from(l0 & 0x7f);
            if n == 0 { *unsure = true; }
            if n > 4 || r.len() < n { return None; }
            let v = r[..n].iter().fold(0usize, |a, x| a << 8 | usize::from(*x));
            r = &r[n..];
            v
        };
        if r.len() < len { return None; }
        let (val, r3) = r.split_at(len);
        rest = r3;
        let masked = masked_units(&val.iter().map(|x| u32::from(*x)).collect::<Vec<_>>(), masks);
        let children = if first & 0x20 != 0 && !masked { ber(val, masks, unsure).unwrap_or_default() } else { vec![] };
        out.push(MNode { tag, data: (!masked).then(|| val.to_vec()), children });
    }
    Some(out)
}
fn fixed_len(tag: &[u8]) -> Option<usize> {
    match tag { [0x95] | [0x9F, 0x0D..=0x0F] => Some(5), [0x9B] => Some(2), [0x9F, 0x33] => Some(3), [0x9F, 0x40] => Some(5), _ => None }
}
fn value_tag(tag: &[u8]) -> bool { fixed_len(tag).is_some() || matches!(tag, [0x5F, 0x30] | [0x8A] | [0x8E] | [0x9C] | [0x9F, 0x10 | 0x34 | 0x35 | 0x39]) }
/// Some(true) certainly valid, Some(false) certainly not, None: depends on value tables this model leaves out
fn values_ok(n: &[MNode]) -> Option<bool> {
    let mut open = false;
    for x in n {
        if let Some(d) = &x.data {
            if let Some(l) = fixed_len(&x.tag) { if d.len() != l { return Some(false); } } else if value_tag(&x.tag) { open = true; }
        }
        match values_ok(&x.children) { Some(false) => return Some(false), None => open = true, _ => {} }
    }
    if open { None } else { Some(true) }
}
pub fn hex_lenient(s: &[u8]) -> Vec<u8> {
    let d: Vec<u8> = s.iter().filter_map(|c| (*c as char).to_digit(16).map(|x| x as u8)).collect();
    d.chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect()
}
fn hex_field(s: &[u8], unsure: &mut bool) -> Option<Vec<u8>> {
    if !s.iter().all(u8::is_ascii_hexdigit) { return None; }
    if s.len() % 2 != 0 || s.is_empty() { *unsure = true; }
    Some(hex_lenient(s))
}
fn ing(s: &[u8], masks: &[char], unsure: &mut bool) -> Option<Vec<MNode>> {
    if !s.is_ascii() { return None; }
    let mut out = vec![];
    let mut r = s;
    while let Some((&ty, r1)) = r.split_first() {
        let i = r1.iter().position(|c| *c == b':')?;
        let mut tag = hex_field(&r1[..i], unsure)?;
        while tag.len() > 1 && tag[0] == 0 { tag.remove(0); }
        if tag.is_empty() { return None; }
        let r2 = &r1[i + 1..];
        let j = r2.iter().position(|c| *c == b':')?;
        let lb = hex_field(&r2[..j], unsure)?;
        if lb.len() > 4 { return None; }
        let len = lb.iter().fold(0usize, |a, x| a << 8 | usize::from(*x));
        let (&fmt, r3) = r2[j + 1..].split_first()?;
        let chars = match fmt { b'a' => len, b'h' => len * 2, _ => return None };
        if r3.len() < chars { return None; }
        let (txt, r4) = r3.split_at(chars);
        let masked = masked_units(&txt.iter().map(|x| u32::from(*x)).collect::<Vec<_>>(), masks);
        let data = if masked { None } else if fmt == b'a' { Some(txt.to_vec()) } else { if !txt.iter().all(u8::is_ascii_hexdigit) { return None; } Some(hex_lenient(txt)) };
        r = if r4.is_empty() { r4 } else { &r4[1..] };
        if ty != b'T' { continue; }
        let children = match &data { Some(d) if tag[0] & 0x20 != 0 => ber(d, masks, unsure).unwrap_or_default(), _ => vec![] };
        out.push(MNode { tag, data, children });
    }
    Some(out)
}
pub fn sort(n: &mut [MNode]) { n.sort_by(|a, b| a.tag.cmp(&b.tag)); for x in n { sort(&mut x.children); } }
/// What the block means under `f`, and the announced format for auto-detection.
pub fn model(f: Format, text: &[u8], masks: &[char], sorted: bool) -> (Parsed, Option<&'static str>) {
    let mut unsure = false;
    let (p, name) = match f {
        Format::Ber => (ber(&hex_lenient(text), masks, &mut unsure), None),
        Format::Ing => (ing(text, masks, &mut unsure), None),
        Format::Auto => match ing(text, masks, &mut unsure) {
            Some(p) => (Some(p), Some("Ingenico")),
            None => (ber(&hex_lenient(text), masks, &mut unsure), Some("BER-TLV")),
        },
    };
    if unsure { return (Parsed::Unsure, name); }
    match p {
        None => (Parsed::Reject, name),
        Some(mut n) => {
            if values_ok(&n) == Some(false) { return (Parsed::Reject, name); }
            if sorted { sort(&mut n); }
            (Parsed::Ok(n), name)
        }
    }
}
pub fn certain(n: &[MNode]) -> bool { values_ok(n) == Some(true) }
pub fn count(n: &[MNode]) -> usize { n.iter().map(|x| 1 + count(&x.children)).sum() }
pub fn depth(n: &[MNode]) -> usize { n.iter().map(|x| 1 + depth(&x.children)).max().unwrap_or(0) }

// ------------------------------------------------------------------ report
pub fn strip(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            if i + 1 < b.len() && b[i + 1] == b'[' {
                i += 2;
                while i < b.len() && !(0x40..=0x7e).contains(&b[i]) { i += 1; }
            }
            i += 1;
        } else { o.push(b[i]); i += 1; }
    }
    o
}
fn hexdump(d: &[u8], depth: usize) -> Vec<Vec<u8>> {
    d.chunks(16).map(|c| {
        let mut l = vec![b'\t'; depth];
        let h: Vec<String> = c.iter().map(|x| format!("{x:02X}")).collect();
        l.extend_from_slice(format!("{:<47}  ", h.join(" ")).as_bytes());
        l.extend(c.iter().map(|x| if (0x20..=0x7e).contains(x) { *x } else { b'.' }));
        l
    }).collect()
}
struct Rd<'a> { lines: Vec<&'a [u8]>, i: usize }
fn show(l: Option<&&[u8]>) -> String { l.map_or("<end of report>".into(), |x| { let s = String::from_utf8_lossy(x).into_owned(); if s.len() > 160 { format!("{:?}...", s.chars().take(160).collect::<String>()) } else { format!("{s:?}") } }) }
impl<'a> Rd<'a> {
    fn expect(&mut self, want: &[u8]) -> Result<(), String> {
        if self.lines.get(self.i).copied() == Some(want) { self.i += 1; return Ok(()); }
        Err(format!("line {}: expected {}, found {}", self.i + 1, show(Some(&want)), show(self.lines.get(self.i))))
    }
}
fn tabs(d: usize, s: &str) -> Vec<u8> { let mut v = vec![b'\t'; d]; v.extend_from_slice(s.as_bytes()); v }
fn check_nodes(r: &mut Rd, n: &[MNode], d: usize) -> Result<(), String> {
    for (k, x) in n.iter().enumerate() {
        if k > 0 { r.expect(b"")?; }
        let head = match &x.data { Some(v) => format!("Tag: 0x{} - {} byte{} - ", hexu(&x.tag), v.len(), if v.len() == 1 { "" } else { "s" }), None => format!("Tag: 0x{} - ?? bytes - ", hexu(&x.tag)) };
        let want = tabs(d, &head);
        match r.lines.get(r.i) {
            Some(l) if l.starts_with(&want) && l.len() > want.len() => r.i += 1,
            o => return Err(format!("line {}: expected data object {} at depth {d}, found {}", r.i + 1, show(Some(&&want[..])), show(o))),
        }
        match &x.data {
            None => r.expect(&tabs(d, "* Masked *"))?,
            Some(v) if v.is_empty() => {}
            Some(v) => { r.expect(&tabs(d, "Raw:"))?; for l in hexdump(v, d + 1) { r.expect(&l)?; } }
        }
        let parsed = tabs(d, "Parsed:");
        let must = x.data.is_some() && fixed_len(&x.tag).is_some();
        if x.data.is_some() && value_tag(&x.tag) && r.lines.get(r.i).copied() == Some(&parsed[..]) {
            r.i += 1;
            let inner = vec![b'\t'; d + 1];
            let mut any = false;
            while let Some(l) = r.lines.get(r.i) {
                let next_inner = || r.lines.get(r.i + 1).is_some_and(|z| z.starts_with(&inner));
                if l.starts_with(&inner) || (l.is_empty() && next_inner()) { r.i += 1; any = true; } else { break; }
            }
            if !any { return Err(format!("line {}: nothing below {}", r.i + 1, show(Some(&&parsed[..])))); }
        } else if must { r.expect(&parsed)?; }
        if !x.children.is_empty() {
            r.expect(&tabs(d, "Constructed Data Object's Child Tags:"))?;
            check_nodes(r, &x.children, d + 1)?;
        }
    }
    Ok(())
}
/// Does the (escape-free) report show exactly these data objects?
pub fn check_report(out: &[u8], n: &[MNode], header: Option<&str>) -> Result<(), String> {
    if out.is_empty() { return if n.is_empty() && header.is_none() { Ok(()) } else { Err("the report is empty".into()) }; }
    if *out.last().unwrap() != b'\n' { return Err("the report ends inside a line".into()); }
    let mut r = Rd { lines: out[..out.len() - 1].split(|b| *b == b'\n').collect(), i: 0 };
    if let Some(h) = header { r.expect(format!("TLV Format: {h}").as_bytes())?; r.expect(b"")?; }
    check_nodes(&mut r, n, 0)?;
    if r.i != r.lines.len() { return Err(format!("line {}: nothing more expected, found {}", r.i + 1, show(r.lines.get(r.i)))); }
    Ok(())
}
/// The exact report text when no value is broken down further (names as wildcards are impossible here,

// ------------------------------------------------------------------ generation
#[derive(Clone, Debug)]
pub struct TNode { pub tag: Vec<u8>, pub val: Val, pub lenform: u8 }
#[derive(Clone, Debug)]
pub enum Val { Prim(Vec<u8>), Cons(Vec<TNode>) }
pub fn enc_len(n: usize, form: u8, o: &mut Vec<u8>) {
    let need = if n < 0x80 { 0 } else if n < 0x100 { 1 } else if n < 0x1_0000 { 2 } else if n < 0x100_0000 { 3 } else { 4 };
    let k = need.max(usize::from(form.min(4)));
    if k == 0 { o.push(n as u8); } else { o.push(0x80 | k as u8); o.extend_from_slice(&(n as u32).to_be_bytes()[4 - k..]); }
}
pub fn enc(n: &[TNode]) -> Vec<u8> {
    let mut o = vec![];
    for x in n {
        let v = match &x.val { Val::Prim(v) => v.clone(), Val::Cons(c) => enc(c) };
        o.extend_from_slice(&x.tag);
        enc_len(v.len(), x.lenform, &mut o);
        o.extend_from_slice(&v);
    }
    o
}
/// Reads a BER block back into editable form (for minimising).
pub fn to_tree(b: &[u8]) -> Option<Vec<TNode>> {
    let mut u = false;
    fn conv(m: &[MNode]) -> Vec<TNode> { m.iter().map(|x| TNode { tag: x.tag.clone(), val: if x.children.is_empty() { Val::Prim(x.data.clone().unwrap_or_default()) } else { Val::Cons(conv(&x.children)) }, lenform: 0 }).collect() }
    ber(b, &[], &mut u).map(|m| conv(&m))
}
/// Reads a BER block without regard to masking; nothing where it is malformed or open to interpretation.
pub fn read(b: &[u8]) -> Option<Vec<MNode>> { let mut u = false; ber(b, &[], &mut u).filter(|_| !u) }
pub fn masked(b: &[u8], masks: &[char]) -> bool { masked_units(&b.iter().map(|x| u32::from(*x)).collect::<Vec<_>>(), masks) }
/// What a report shows, line by line: characters with the colours they have (blank space has none).
pub fn cells(b: &[u8]) -> Vec<Vec<(u8, u64)>> {
    let mut v = vec![vec![]];
    let (mut i, mut sgr, mut h) = (0, Vec::<u8>::new(), 0u64);
    while i < b.len() {
        if b[i] == 0x1b && i + 1 < b.len() && b[i + 1] == b'[' {
            let k = (i + 2..b.len()).find(|k| (0x40..=0x7e).contains(&b[*k])).unwrap_or(b.len());
            let code = &b[(i + 2).min(k)..k];
            if code == b"0" || code.is_empty() { sgr.clear(); h = 0; } else { sgr.extend_from_slice(code); sgr.push(b'm'); h = sgr.iter().fold(0xcbf2_9ce4_8422_2325, |h, c| (h ^ u64::from(*c)).wrapping_mul(0x0100_0000_01b3)); }
            i = k + 1;
        } else if b[i] == b'\n' { v.push(vec![]); i += 1; } else { v.last_mut().unwrap().push((b[i], if b[i] == b' ' || b[i] == b'\t' { 0 } else { h })); i += 1; }
    }
    while v.last().is_some_and(Vec::is_empty) { v.pop(); }
    v
}
pub fn indent(v: &[Vec<(u8, u64)>], n: usize) -> Vec<Vec<(u8, u64)>> { v.iter().map(|l| if l.is_empty() { vec![] } else { let mut o = vec![(b'\t', 0); n]; o.extend_from_slice(l); o }).collect() }
#[derive(Clone, Debug)]
pub struct GenCfg { pub max_nodes: usize, pub max_depth: usize, pub max_val: usize, pub masks: Vec<char>, pub value_tags: bool, pub bad_values: bool, pub pool: Vec<Vec<u8>>, pub long_forms: bool, pub mask_rate: u64, pub bigval_rate: u64 }
const PLAIN: &[&[u8]] = &[&[0x42], &[0x4F], &[0x50], &[0x57], &[0x5A], &[0x5F, 0x20], &[0x5F, 0x24], &[0x5F, 0x2A], &[0x5F, 0x34], &[0x81], &[0x82], &[0x84], &[0x87], &[0x94], &[0x9A], &[0x9F, 0x02], &[0x9F, 0x03], &[0x9F, 0x06], &[0x9F, 0x1A], &[0x9F, 0x1E], &[0x9F, 0x26], &[0x9F, 0x27], &[0x9F, 0x36], &[0x9F, 0x37], &[0x9F, 0x41], &[0x9F, 0x4E]];
const CONS: &[&[u8]] = &[&[0x61], &[0x6F], &[0x70], &[0x71], &[0x72], &[0x73], &[0x77], &[0xA5], &[0xBF, 0x0C], &[0xE0], &[0x30], &[0x20], &[0x7F, 0x21], &[0xFF, 0x81, 0x01], &[0x3F, 0x00]];
pub const VALUE: &[&[u8]] = &[&[0x5F, 0x30], &[0x8A], &[0x8E], &[0x95], &[0x9B], &[0x9C], &[0x9F, 0x0D], &[0x9F, 0x0E], &[0x9F, 0x0F], &[0x9F, 0x10], &[0x9F, 0x33], &[0x9F, 0x34], &[0x9F, 0x35], &[0x9F, 0x39], &[0x9F, 0x40]];
const ODD: &[&[u8]] = &[&[0x00], &[0x01], &[0xC0], &[0xDF, 0x01], &[0xDF, 0x81, 0x29], &[0xDF, 0x82, 0x83, 0x04], &[0x9F, 0x80, 0x00], &[0x1F, 0x7F], &[0x9F, 0xA0, 0x20], &[0xDF, 0xFF, 0xFF, 0xFF, 0x01], &[0xDF, 0xFF, 0xFF, 0xFF, 0x02], &[0xDF, 0xFF, 0xFF, 0xFF, 0xFF, 0x01]];
/// Tags that agree in their first few bytes, so that their order is decided late.
fn kin(r: &mut Rng) -> Vec<Vec<u8>> {
    let mut stem = vec![*r.pick(&[0x1Fu8, 0x5F, 0x9F, 0xDF])];
    for _ in 0..1 + r.us(9) { stem.push(r.u64() as u8 | 0x80); }
    (0..2 + r.us(4)).map(|_| { let mut t = stem.clone(); if r.chance(1, 4) { t.truncate(2 + r.us(t.len() - 1)); } if r.chance(1, 4) { t.push(r.u64() as u8 | 0x80); } t.push(r.u64() as u8 & 0x7f); t }).collect()
}
pub fn rand_tag(r: &mut Rng, cons: bool) -> Vec<u8> {
    let mut b = (r.u64() as u8) & !0x20;
    if cons { b |= 0x20; }
    let mut t = vec![b];
    if b & 0x1f == 0x1f {
        for _ in 0..r.below(3) { t.push(r.u64() as u8 | 0x80); }
        t.push(r.u64() as u8 & 0x7f);
    }
    t
}
pub fn gen_cfg(r: &mut Rng) -> GenCfg {
    let masks = match r.below(6) { 0..=2 => vec!['*'], 3 => vec!['#'], 4 => vec!['*', '#', 'X'], _ => { let p = ['*', '#', 'X', '0', 'F', '.', '\u{e9}', '\u{ff}', '\u{20ac}', '\u{12a}', '\u{158}', '\u{230}', '1', 'f']; let n = 1 + r.us(3); (0..n).map(|_| *r.pick(&p)).collect() } };
    let mut pool = vec![];
    for _ in 0..1 + r.us(8) {
        let s: &[&[u8]] = match r.below(4) { 0 | 1 => PLAIN, 2 => ODD, _ => PLAIN };
        pool.push(r.pick(s).to_vec());
    }
    if r.chance(1, 3) { for _ in 0..4 { pool.push(rand_tag(r, false)); } }
    if r.chance(1, 6) { pool.extend(kin(r)); }
    if r.chance(1, 3) { for _ in 0..3 { pool.push(match r.below(4) { 0 => vec![0x5F, r.range(0x20, 0x57) as u8], 1 => { let b = r.range(0x80, 0x9E) as u8; vec![b] } _ => vec![0x9F, r.range(0x01, 0x7F) as u8] }); } pool.retain(|t| !value_tag(t)); if pool.is_empty() { pool.push(vec![0x5A]); } }
    let max_nodes = match r.below(10) { 0 => 1, 1..=5 => 6, 6..=8 => 14, _ => 60 };
    if max_nodes < 60 && r.chance(1, 20) { // a tag whose line does not fit in the buffer of standard output
        let n = *r.pick(&[300, 480, 505, 515, 700, 1100]) + r.us(12);
        let mut t = vec![if r.chance(1, 5) { 0xFF } else { 0xDF }];
        t.extend((1..n).map(|_| r.range(0x81, 0xFF) as u8)); t.push(r.range(1, 0x7F) as u8);
        pool.push(t);
    }
    GenCfg {
        max_nodes,
        max_depth: match r.below(10) { 0..=2 => 1, 3..=7 => 4, 8 => 9, _ => 30 },
        max_val: *r.pick(&[3, 8, 17, 40, 130, 300]), masks, value_tags: r.chance(1, 2), bad_values: r.chance(1, 8), pool, long_forms: r.chance(1, 4), mask_rate: *r.pick(&[0, 5, 20, 50]), bigval_rate: 200,
    }
}
pub fn gen_value(r: &mut Rng, tag: &[u8], bad: bool) -> Vec<u8> {
    let rb = |r: &mut Rng, n| r.bytes(n);
    if bad && r.chance(1, 3) { let n = r.us(8); return rb(r, n); }
    match tag {
        [0x95] | [0x9F, 0x0D..=0x0F] | [0x9F, 0x40] => { if r.chance(1, 4) { vec![0; 5] } else { rb(r, 5) } }
        [0x9B] => rb(r, 2),
        [0x9F, 0x33] => rb(r, 3),
        [0x5F, 0x30] => vec![r.range(1, 2) as u8, (r.below(3) as u8 * 2) << 4 | r.below(8) as u8],
        [0x8A] => r.pick(&[b"00", b"05", b"Y1", b"Z3", b"51", b"ZZ"]).to_vec(),
        [0x8E] => { let mut v = rb(r, 8); if r.chance(1, 2) { v[..6].fill(0); } for _ in 0..1 + r.us(4) { v.push(*r.pick(&[0x00, 0x01, 0x42, 0x1E, 0x5E, 0x1F, 0x04, 0x3F])); v.push(r.below(10) as u8); } v }
        [0x9C] => vec![*r.pick(&[0x00, 0x01, 0x09, 0x20, 0x77])],
        [0x9F, 0x10] => { let mut v = rb(r, 32); v[0] = 0x0F; v[16] = 0x0F; v[1] = *r.pick(&[0xA5, 0xA6, 0xA5, 0x11]); v[3] = *r.pick(&[0xA2, 0x52, 0x90, 0x65]); v }
        [0x9F, 0x34] => vec![*r.pick(&[0x5E, 0x1F, 0x42, 0x02]), r.below(10) as u8, r.below(3) as u8],
        [0x9F, 0x35] => vec![*r.pick(&[0x11, 0x22, 0x21, 0x25, 0x34, 0x99])],
        [0x9F, 0x39] => vec![*r.pick(&[0x00, 0x05, 0x07, 0x90, 0x91, 0x77])],
        _ => rb(r, 4),
    }
}
fn gen_bytes(r: &mut Rng, c: &GenCfg) -> Vec<u8> {
    if c.bigval_rate > 0 && r.chance(1, c.bigval_rate) { let n = *r.pick(&[127, 128, 129, 255, 256, 257, 1000, 4096]); return r.bytes(n); }
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => *r.pick(&[15, 16, 17, 31, 32, 33]), _ => r.us(c.max_val + 1) }.min(c.max_val.max(2));
    if n >= 1 && r.chance(c.mask_rate, 100) {
        let m = *r.pick(&c.masks) as u32;
        let b = if m < 256 { m as u8 } else if r.chance(2, 3) { m as u8 } else { b'*' }; // the low byte alone is no mask
        let mut v = vec![b; n];
        if r.chance(1, 5) && n > 1 { let k = r.us(n); v[k] ^= 1; } // almost masked
        return v;
    }
    match r.below(4) { 0 => (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect(), _ => r.bytes(n) }
}
pub fn gen_nodes(r: &mut Rng, c: &GenCfg, budget: &mut usize, depth: usize) -> Vec<TNode> {
    let mut out = vec![];
    let n = if depth == 0 { 1 + r.us(c.max_nodes) } else { match r.below(12) { 0 => r.us(25), 1 => 4 + r.us(7), _ => r.us(4) } };
    for _ in 0..n {
        if *budget == 0 { break; }
        *budget -= 1;
        let lenform = if c.long_forms && r.chance(1, 3) { 1 + r.below(4) as u8 } else { 0 };
        let k = r.below(10);
        if depth + 1 < c.max_depth && k < 3 {
            let tag = if r.chance(1, 5) { rand_tag(r, true) } else { r.pick(CONS).to_vec() };
            let val = if r.chance(1, 8) { Val::Prim(gen_bytes(r, c)) } else { Val::Cons(gen_nodes(r, c, budget, depth + 1)) };
            out.push(TNode { tag, val, lenform });
        } else if c.value_tags && k < 6 {
            let tag = r.pick(VALUE).to_vec();
            let v = gen_value(r, &tag, c.bad_values);
            out.push(TNode { tag, val: Val::Prim(v), lenform });
        } else {
            let tag = r.pick(&c.pool).clone();
            let v = gen_bytes(r, c);
            out.push(TNode { tag, val: Val::Prim(v), lenform });
        }
    }
    out
}
/// A chain of `d` constructed objects around one primitive (hex grows by two or more bytes per level).
pub fn gen_chain(r: &mut Rng, d: usize) -> Vec<u8> {
    let mut v = vec![0x5A, 0x01, r.u64() as u8];
    let t = *r.pick(&[0x61u8, 0x70, 0xA5, 0xE0]);
    for _ in 0..d { let mut o = vec![t]; enc_len(v.len(), 0, &mut o); o.extend_from_slice(&v); v = o; }
    v
}
pub fn gen_block(r: &mut Rng, c: &GenCfg) -> Vec<TNode> { let mut b = c.max_nodes * 2; gen_nodes(r, c, &mut b, 0) }
pub fn hex_text(r: &mut Rng, b: &[u8]) -> String {
    let s = hexu(b);
    match r.below(5) { 0 => s.to_lowercase(), 1 => { let mut o = String::new(); for (i, c) in s.chars().enumerate() { if i > 0 && i % 2 == 0 && r.chance(1, 4) { o.push(' '); } o.push(if r.chance(1, 2) { c.to_ascii_lowercase() } else { c }); } o } _ => s }
}
/// An Ingenico block holding these objects (with some non-EMV entries among them).
pub fn ing_text(r: &mut Rng, n: &[TNode], c: &GenCfg) -> String {
    let mut o = String::new();
    let sep = *r.pick(&['~', '|', ';', '\u{1c}', ',', ':', 'T']);
    for x in n {
        if r.chance(1, 8) { let l = r.us(5); let txt: String = (0..l).map(|_| r.range(0x30, 0x7a) as u8 as char).collect(); o.push_str(&format!("D10{:02X}:{:02X}:a{txt}{sep}", r.below(256), l)); }
        let v = match &x.val { Val::Prim(v) => v.clone(), Val::Cons(k) => enc(k) };
        let mut tag = hexu(&x.tag);
        if r.chance(1, 6) { tag = format!("00{tag}"); }
        if r.chance(1, 6) { tag = tag.to_lowercase(); }
        let mut len = hexu(&{ let b = (v.len() as u32).to_be_bytes(); let k = b.iter().position(|z| *z != 0).unwrap_or(3); b[k..].to_vec() });
        while len.len() < 8 && r.chance(1, 6) { len = format!("00{len}"); }
        let all_masked = masked_units(&v.iter().map(|z| u32::from(*z)).collect::<Vec<_>>(), &c.masks) || (!v.is_empty() && r.chance(c.mask_rate, 300));
        let ascii_ok = v.iter().all(|b| (0x20..0x7f).contains(b)) && !v.is_empty();
        if all_masked {
            let m = *r.pick(&c.masks);
            let m = if m.is_ascii() { m } else { '*' };
            let (f, k) = if r.chance(1, 2) { ('h', v.len() * 2) } else { ('a', v.len()) };
            let ok = f == 'a' || m.is_ascii_hexdigit() || c.masks.contains(&m);
            if ok { o.push_str(&format!("T{tag}:{len}:{f}{}", m.to_string().repeat(k))); } else { o.push_str(&format!("T{tag}:{len}:h{}", hexu(&v))); }
        } else if ascii_ok && r.chance(1, 2) { o.push_str(&format!("T{tag}:{len}:a{}", String::from_utf8(v).unwrap())); }
        else { let h = hexu(&v); o.push_str(&format!("T{tag}:{len}:h{}", if r.chance(1, 4) { h.to_lowercase() } else { h })); }
        o.push(sep);
    }
    if r.chance(1, 2) { o.pop(); }
    o
}
