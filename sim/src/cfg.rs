//! The three settings, the sources they can come from, and the rule that resolves them.
use crate::prng::Rng;
use crate::scenario::{Node, Sc};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Settings { pub colour: String, pub masks: Vec<char>, pub sort: bool }
impl Default for Settings { fn default() -> Self { Settings { colour: "auto".into(), masks: vec!['*'], sort: true } } }
impl Settings {
    /// Options that state all three settings (only the colour for operations that take no others).
    pub fn cli(&self, tlv: bool) -> Vec<Vec<u8>> {
        let mut v = vec![format!("--colour={}", self.colour).into_bytes()];
        if tlv {
            if self.masks.is_empty() { v.push("--masking-character=\u{E000}".as_bytes().to_vec()); } // one that no value can consist of
            for m in &self.masks { v.push(format!("--masking-character={m}").into_bytes()); }
            v.push(format!("--sort-parsed-tags={}", self.sort).into_bytes());
        }
        v
    }
}
pub const COLOURS: [&str; 4] = ["auto", "always", "ansi", "never"];
pub const MASKS: [char; 9] = ['*', '#', 'X', '0', 'F', '.', '~', 'q', '\u{e9}'];
pub fn rand_masks(r: &mut Rng) -> Vec<char> {
    let n = if r.chance(1, 8) { 1 + r.us(12) } else { 1 + r.us(3) };
    let mut v: Vec<char> = vec![];
    for _ in 0..n { let c = if r.chance(1, 12) { *r.pick(&['\u{20ac}', '\u{1F4B3}', 'Z', '\u{100}']) } else { *r.pick(&MASKS) }; if !v.contains(&c) { v.push(c); } }
    v
}
pub fn rand_settings(r: &mut Rng) -> Settings { Settings { colour: (*r.pick(&COLOURS)).to_string(), masks: rand_masks(r), sort: r.chance(1, 2) } }

/// One source's statement about one setting: (source, key, value). Sources: "cli", "env", "file:<profile>".
/// Values: colour word, mask characters, or true/false.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Layer { pub src: String, pub key: char, pub val: String }
impl Layer {
    pub fn line(&self) -> String { format!("{} {} {}", self.src, self.key, self.val) }
    pub fn parse(s: &str) -> Option<Layer> { let mut i = s.splitn(3, ' '); Some(Layer { src: i.next()?.into(), key: i.next()?.chars().next()?, val: i.next()?.into() }) }
}
pub fn name_of(key: char) -> &'static str { match key { 'c' => "cli_colour", 'm' => "masking_characters", _ => "sort_parsed_tags" } }
pub fn rand_val(r: &mut Rng, key: char) -> String { match key { 'c' => (*r.pick(&COLOURS)).to_string(), 'm' => rand_masks(r).into_iter().collect(), _ => r.chance(1, 2).to_string() } }
fn quote(c: char) -> String { match c { '"' => "\"\\\"\"".into(), '\\' => "\"\\\\\"".into(), _ => format!("\"{c}\"") } }
pub fn toml_val(key: char, val: &str) -> String { if let Some(raw) = val.strip_prefix('\u{2}') { return raw.into(); } match key { 'c' => format!("\"{val}\""), 'm' => format!("[{}]", val.chars().map(quote).collect::<Vec<_>>().join(", ")), _ => val.to_string() } }
pub fn env_val(key: char, val: &str) -> String { if let Some(raw) = val.strip_prefix('\u{2}') { return raw.into(); } match key { 'c' => val.to_string(), 'm' => format!("[{}]", val.chars().map(quote).collect::<Vec<_>>().join(",")), _ => val.to_string() } }
pub fn env_name(key: char) -> String { format!("PEMV_{}", name_of(key).to_uppercase()) }

/// Writes the statements of a configuration file, in an order and layout drawn from `r`.
pub fn toml(r: &mut Rng, layers: &[&Layer]) -> String {
    let mut profiles: Vec<&str> = vec![];
    for l in layers { let p = &l.src[5..]; if !profiles.contains(&p) { profiles.push(p); } }
    r.shuffle(&mut profiles);
    let mut o = String::new();
    if r.chance(1, 3) { o.push_str("# pemv settings\n\n"); }
    for p in profiles {
        o.push_str(&format!("[{p}]{}\n", if r.chance(1, 6) { " # profile" } else { "" }));
        let mut ls: Vec<&&Layer> = layers.iter().filter(|l| &l.src[5..] == p).collect();
        r.shuffle(&mut ls);
        if r.chance(1, 6) { o.push_str(r.pick(&["unrelated_key = 5\n", "colour = \"always\"\n", "color = \"always\"\n", "cli-colour = \"never\"\n", "cli_color = \"ansi\"\n", "CLI_COLOUR = \"always\"\n", "masking_character = \"#\"\n", "masking = [\"#\"]\n", "sort = false\n", "no_sort_parsed_tags = true\n", "sort-parsed-tags = false\n", "profile = \"release\"\n", "include = \"/etc/pemv.toml\"\n", "extends = \"release\"\n"])); }
        for l in ls {
            let eq = *r.pick(&[" = ", "=", "  =  "]);
            let mut v = toml_val(l.key, &l.val);
            if !l.val.starts_with('\u{2}') && !v.contains(['\\', '\'']) { // other ways to write the same value
                if l.key != 's' && r.chance(1, 10) { v = v.replace('"', "'"); }
                if l.key == 'm' && !l.val.is_empty() && r.chance(1, 12) && l.val.chars().all(|c| c != ',' && c != '[' && c != ']') { v = v.replace(", ", ",\n\t").replace('[', "[ # one to a line\n\t").replace(']', ",\n]").replace("\t,\n]", "]"); }
                if r.chance(1, 12) { v.push_str("  # as agreed"); }
            }
            let n = name_of(l.key);
            let n = if r.chance(1, 14) { format!("\"{n}\"") } else { n.to_string() };
            o.push_str(&format!("{n}{eq}{v}\n"));
        }
        if r.chance(1, 2) { o.push('\n'); }
    }
    if r.chance(1, 20) { o = o.replace('\n', "\r\n"); }
    if r.chance(1, 10) { // anywhere in the file
        let n = if r.chance(1, 12) { r.us(3000) } else { r.us(300) };
        let pad = "# padding so that the file needs more than one read \u{e9}\u{20ac}\n".repeat(n);
        let at: Vec<usize> = std::iter::once(0).chain(o.match_indices('\n').map(|x| x.0 + 1)).collect();
        o.insert_str(*r.pick(&at), &pad);
    }
    o
}
pub fn options(r: &mut Rng, layers: &[&Layer]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<Vec<u8>>> = vec![];
    for l in layers {
        let s = |x: String| x.into_bytes();
        v.push(match l.key {
            'c' => { let o = *r.pick(&["--colour", "--color"]); if r.chance(1, 2) { vec![s(format!("{o}={}", l.val))] } else { vec![s(o.into()), s(l.val.clone())] } }
            'm' => match r.below(4) {
                0 => { let mut k = vec![s("--masking".into())]; k.extend(l.val.chars().map(|c| s(c.to_string()))); k }
                1 => l.val.chars().map(|c| s(format!("--masking-character={c}"))).collect(),
                2 => l.val.chars().map(|c| s(format!("--masking-char={c}"))).collect(),
                _ => l.val.chars().flat_map(|c| vec![s("-m".into()), s(c.to_string())]).collect(),
            },
            _ => { let t = l.val == "true"; match r.below(5) {
                0 => vec![s(format!("--sort-parsed-tags={}", l.val))],
                1 => vec![s(format!("--no-sort-parsed-tags={}", !t))],
                2 => vec![s(format!("--sort={}", l.val))],
                3 => vec![s("--no-sort".into()), s((!t).to_string())],
                _ => vec![s(if t { "--sort-parsed-tags" } else { "--no-sort-parsed-tags" }.into())],
            } }
        });
    }
    r.shuffle(&mut v);
    v.into_iter().flatten().collect()
}
/// Drops values of the wrong kind (marked) wherever nothing that takes precedence states the same setting.
pub fn shadowed_only(layers: Vec<Layer>, profile: &str) -> Vec<Layer> {
    let order = ["cli".to_string(), "env".into(), "file:global".into(), format!("file:{profile}"), "file:default".into()];
    let rank = |s: &str| order.iter().position(|o| o == s).unwrap_or(9);
    let good: Vec<Layer> = layers.iter().filter(|l| !l.val.starts_with('\u{2}')).cloned().collect();
    layers.into_iter().filter(|l| !l.val.starts_with('\u{2}') || rank(&l.src) == 9 || good.iter().any(|g| g.key == l.key && rank(&g.src) < rank(&l.src))).collect()
}
/// Command line, then environment, then file (global, selected profile, default), then built-in.
pub fn resolve(layers: &[Layer], profile: &str) -> Settings {
    let mut s = Settings::default();
    for key in ['c', 'm', 's'] {
        let order = ["cli".to_string(), "env".into(), "file:global".into(), format!("file:{profile}"), "file:default".into()];
        if let Some(l) = order.iter().find_map(|o| layers.iter().find(|l| l.src == *o && l.key == key)) {
            match key { 'c' => s.colour = l.val.clone(), 'm' => s.masks = l.val.chars().collect(), _ => s.sort = l.val == "true" }
        }
    }
    s
}
/// Applies statements to a world: options after `op`, variables, and the file at `path` (rendering drawn from `style`).
pub fn apply(s: &mut Sc, op: &[Vec<u8>], layers: &[Layer], path: &str, style: u64, with_file: bool) {
    let mut r = Rng::new(style);
    let cli: Vec<&Layer> = layers.iter().filter(|l| l.src == "cli").collect();
    let mut o = options(&mut r, &cli);
    s.argv.truncate(1);
    // an option taking several values would swallow nothing after it here: the operation is an option itself
    if r.chance(1, 2) { s.argv.extend(op.iter().cloned()); s.argv.append(&mut o); } else { s.argv.append(&mut o); s.argv.extend(op.iter().cloned()); }
    for l in layers.iter().filter(|l| l.src == "env") { s.setenv(&env_name(l.key), env_val(l.key, &l.val).as_bytes()); }
    let f: Vec<&Layer> = layers.iter().filter(|l| l.src.starts_with("file:")).collect();
    let t = toml(&mut r, &f);
    if with_file { s.add(Node::file(path, t.as_bytes())); }
}
/// Some random statements from some of the sources; at most one per source and setting.
pub fn rand_layers(r: &mut Rng, tlv: bool, file: bool, profile: &str) -> Vec<Layer> {
    let mut v = vec![];
    let other = *r.pick(&["debug", "corp", "x1"]);
    let mut srcs = vec!["cli".to_string(), "env".into()];
    if file { srcs.extend(["file:default".to_string(), "file:global".into()]); if profile != "default" { srcs.push(format!("file:{profile}")); } if other != profile { srcs.push(format!("file:{other}")); } }
    let rate = *r.pick(&[20, 40, 60, 90]);
    for s in &srcs { for k in ['c', 'm', 's'] { if r.chance(rate, 100) { if s == "cli" && k != 'c' && !tlv { continue; } let val = if k == 'm' && s != "cli" && r.chance(1, 14) { String::new() } else { rand_val(r, k) }; v.push(Layer { src: s.clone(), key: k, val }); } } }
    v
}
