//! Reference of what the encoder writes: document model + options (by name) -> element tree.
use crate::model::*;
use crate::xmlw::Xn;
use std::collections::BTreeMap;

/// Encoder options by their textual names; what is missing keeps its default.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct ECfg(pub BTreeMap<&'static str, String>);
impl ECfg {
    pub fn set(mut self, k: &'static str, v: &str) -> Self {
        self.0.insert(k, v.into());
        self
    }
    pub fn config(&self) -> svd_encoder::Config {
        let mut c = svd_encoder::Config::default();
        for (k, v) in &self.0 {
            c.update(k, v);
        }
        c
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &'static str, def: &'static str, v: u64) -> String {
        number(v, self.get(k).unwrap_or(def))
    }
    fn case(&self, k: &'static str, s: &str) -> String {
        change_case(s, self.get(k))
    }
}
pub fn number(v: u64, f: &str) -> String {
    let hex = |upper: bool, w: usize| {
        let d: String = if upper { format!("{v:X}") } else { format!("{v:x}") };
        format!("0x{}{d}", "0".repeat(w.saturating_sub(d.len())))
    };
    match f {
        "UpperHex" => hex(true, 0),
        "UpperHex8" => hex(true, 8),
        "UpperHex16" => hex(true, if v > 0xffff_ffff { 16 } else { 8 }),
        "LowerHex" => hex(false, 0),
        "LowerHex8" => hex(false, 8),
        "LowerHex16" => hex(false, if v > 0xffff_ffff { 16 } else { 8 }),
        "Bin" => format!("0b{v:b}"),
        "Dec" => v.to_string(),
        _ => panic!("model: number format {f}"),
    }
}
pub const NUM_FMTS: [&str; 8] = ["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin"];
pub const CASES: [&str; 4] = ["Camel", "Pascal", "Snake", "Constant"];
pub const BITS_FMTS: [&str; 3] = ["BitRange", "OffsetWidth", "MsbLsb"];

/// words: separated by '_', '-', ' ' (dropped), between letters of different case, and before the last capital of a run
pub fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let (up, lo) = (|c: char| c.is_uppercase(), |c: char| c.is_lowercase());
    let mut out = vec![];
    let mut w = String::new();
    for i in 0..c.len() {
        if "_- ".contains(c[i]) {
            out.push(std::mem::take(&mut w));
            continue;
        }
        let two = i > 0 && ((lo(c[i - 1]) && up(c[i])) || (up(c[i - 1]) && lo(c[i])));
        let three = i > 0 && i + 1 < c.len() && up(c[i - 1]) && up(c[i]) && lo(c[i + 1]);
        if two || three {
            out.push(std::mem::take(&mut w));
        }
        w.push(c[i]);
    }
    out.push(w);
    out.retain(|w| !w.is_empty());
    out
}
pub fn change_case(s: &str, case: Option<&str>) -> String {
    let Some(case) = case else { return s.to_string() };
    let cap = |w: &str| {
        let mut i = w.chars();
        i.next().map(|c| c.to_uppercase().collect::<String>() + &i.as_str().to_lowercase()).unwrap_or_default()
    };
    let ws = words(s);
    match case {
        "Snake" => ws.iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join("_"),
        "Constant" => ws.iter().map(|w| w.to_uppercase()).collect::<Vec<_>>().join("_"),
        "Pascal" => ws.iter().map(|w| cap(w)).collect(),
        "Camel" => ws.iter().enumerate().map(|(i, w)| if i == 0 { w.to_lowercase() } else { cap(w) }).collect(),
        _ => panic!("model: case {case}"),
    }
    .replace("%S", "%s")
}
/// A reference is converted name by name, each the way the element it names is.
pub fn change_path(s: &str, k: K, c: &ECfg) -> String {
    let comps: Vec<&str> = s.split('.').collect();
    let tail: &[&'static str] = match k {
        K::Periph => &["peripheral_name"],
        K::Cluster => &["cluster_name"],
        K::Register => &["register_name"],
        K::Field => &["register_name", "field_name"],
        _ => &["register_name", "field_name", "enumerated_values_name"],
    };
    let n = comps.len();
    let out: Vec<String> = comps
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let from_end = n - 1 - i;
            let o = if from_end < tail.len() {
                tail[tail.len() - 1 - from_end]
            } else if i == 0 {
                "peripheral_name"
            } else {
                "cluster_name"
            };
            change_case(s, c.get(o))
        })
        .collect();
    out.join(".")
}

fn parts<'a>(c: &'a ECfg, k: &str) -> Vec<&'a str> {
    c.get(k).map(|s| s.split(',').collect()).unwrap_or_default()
}
fn derived(e: &El) -> bool {
    e.s("@derivedFrom").is_some() || (e.k == K::Field && e.list("enumeratedValues").iter().any(|v| v.s("@derivedFrom").is_some()))
}
fn pos(e: &El) -> u64 {
    match e.k {
        K::Periph => e.n("baseAddress").unwrap_or(0),
        K::Field => e.br().0 as u64,
        _ => e.n("addressOffset").unwrap_or(0),
    }
}
/// order of a list under the words of a sorting option
pub fn sorted(l: &[El], p: &[&str]) -> Vec<El> {
    // stable insertion by "strictly before"
    let key = |e: &El| {
        let group = if p.contains(&"RegistersFirst") {
            (e.k == K::Cluster) as u8
        } else if p.contains(&"ClustersFirst") {
            (e.k != K::Cluster) as u8
        } else {
            0
        };
        let der = (p.contains(&"DerivedLast") && derived(e)) as u8;
        (group, der)
    };
    let before = |a: &El, b: &El| {
        let (ka, kb) = (key(a), key(b));
        if ka != kb {
            return ka < kb;
        }
        if p.contains(&"Offset") {
            pos(a) < pos(b)
        } else if p.contains(&"OffsetReversed") {
            pos(a) > pos(b)
        } else if p.contains(&"Name") {
            a.name() < b.name()
        } else {
            false
        }
    };
    let mut out: Vec<El> = vec![];
    for e in l {
        let at = out.iter().position(|x| before(e, x)).unwrap_or(out.len());
        // everything after `at` must also come after e
        out.insert(at, e.clone());
    }
    out
}
/// numeric text: only the value counts
const NUM: char = '\u{1}';
const BOOL: char = '\u{2}';

pub fn tree(e: &El, c: &ECfg) -> Xn {
    let mut x = Xn::new(e.k.tag());
    for (t, ty, _) in fields(e.k) {
        let Some(v) = e.f.get(t) else { continue };
        if *t == "@derivedFrom" {
            if let V::S(s) = v {
                x.attrs.push(("derivedFrom".into(), change_path(s, e.k, c)));
            }
            continue;
        }
        if t.starts_with('@') {
            continue;
        }
        match v {
            V::S(s) => {
                let o = match (e.k, *t) {
                    (K::Periph, "name" | "alternatePeripheral" | "prependToName" | "appendToName" | "headerStructName") => "peripheral_name",
                    (K::Interrupt, "name") => "interrupt_name",
                    (K::Cluster, "name" | "alternateCluster") => "cluster_name",
                    (K::Register, "name" | "alternateRegister") => "register_name",
                    (K::Field, "name") => "field_name",
                    (K::Enums, "name") => "enumerated_values_name",
                    (K::EnumV, "name") => "enumerated_value_name",
                    (K::DimArr, "headerEnumName") => "dim_array_index_header_enum_name",
                    _ => "",
                };
                x.kids.push(Xn::leaf(t, if o.is_empty() { s.clone() } else { c.case(o, s) }));
            }
            V::N(n) => {
                let s = match (e.k, *t) {
                    (K::Periph, "baseAddress") => c.num("peripheral_base_address", "UpperHex8", *n),
                    (K::AddrBlock, "offset") => c.num("address_block_offset", "UpperHex", *n),
                    (K::AddrBlock, "size") => c.num("address_block_size", "UpperHex", *n),
                    (K::Cluster, "addressOffset") => c.num("cluster_address_offset", "UpperHex", *n),
                    (K::Register, "addressOffset") => c.num("register_address_offset", "UpperHex", *n),
                    (_, "size") => c.num("register_size", "LowerHex", *n),
                    (_, "resetValue") => c.num("register_reset_value", "UpperHex16", *n),
                    (_, "resetMask") => c.num("register_reset_mask", "UpperHex16", *n),
                    (K::EnumV, "value") => c.num("enumerated_value_value", "Dec", *n),
                    (_, "dim") => c.num("dim_dim", "Dec", *n),
                    (_, "dimIncrement") => c.num("dim_increment", "UpperHex", *n),
                    _ => format!("{NUM}{n}"),
                };
                x.kids.push(Xn::leaf(t, s));
            }
            V::B(b) => x.kids.push(Xn::leaf(t, format!("{BOOL}{b}"))),
            // written as a list or as a range: its value is checked by reading it back
            V::L(_) => x.kids.push(Xn::leaf(t, "\u{3}")),
            V::BR(o, w, k) => {
                let f = c.get("field_bit_range").unwrap_or(BITS_FMTS[*k as usize]);
                let msb = *o as u64 + *w as u64 - 1;
                match f {
                    "BitRange" => x.kids.push(Xn::leaf("bitRange", format!("[{msb}:{o}]"))),
                    "OffsetWidth" => {
                        x.kids.push(Xn::leaf("bitOffset", format!("{NUM}{o}")));
                        x.kids.push(Xn::leaf("bitWidth", format!("{NUM}{w}")));
                    }
                    _ => {
                        x.kids.push(Xn::leaf("lsb", format!("{NUM}{o}")));
                        x.kids.push(Xn::leaf("msb", format!("{NUM}{msb}")));
                    }
                }
            }
            V::WAR(b) => x.kids.push(wrap(t, vec![Xn::leaf("writeAsRead", format!("{BOOL}{b}"))])),
            V::UEV(b) => x.kids.push(wrap(t, vec![Xn::leaf("useEnumeratedValues", format!("{BOOL}{b}"))])),
            V::Range(a, b) => {
                let r = wrap("range", vec![Xn::leaf("minimum", format!("{NUM}{a}")), Xn::leaf("maximum", format!("{NUM}{b}"))]);
                x.kids.push(wrap(t, vec![r]))
            }
        }
        let _ = ty;
    }
    for (g, w, _) in groups(e.k) {
        let Some(l) = e.c.get(g) else { continue };
        if *g == "fields" && l.is_empty() {
            continue;
        }
        let l = match *g {
            "peripherals" => sorted(l, &parts(c, "peripheral_sorting")),
            "registers" => sorted(l, &parts(c, "register_cluster_sorting")),
            "fields" => sorted(l, &parts(c, "field_sorting")),
            _ => l.clone(),
        };
        let kids: Vec<Xn> = l.iter().map(|x| tree(x, c)).collect();
        if w.is_empty() {
            x.kids.extend(kids);
        } else {
            x.kids.push(wrap(w, kids));
        }
    }
    x
}
fn wrap(t: &str, kids: Vec<Xn>) -> Xn {
    let mut x = Xn::new(t);
    x.kids = kids;
    x
}
/// The written text as a tree; namespaces and the attributes of the device are left to reading back.
pub fn read(xml: &str) -> Result<Xn, String> {
    let d = roxmltree::Document::parse(xml).map_err(|e| e.to_string())?;
    fn rec(n: roxmltree::Node) -> Xn {
        let mut x = Xn::new(n.tag_name().name());
        if x.tag != "device" {
            x.attrs = n.attributes().map(|a| (a.name().to_string(), a.value().to_string())).collect();
        }
        x.kids = n.children().filter(|c| c.is_element()).map(rec).collect();
        if x.kids.is_empty() {
            let t: String = n.children().filter_map(|c| c.text()).collect();
            if !t.is_empty() {
                x.text = Some(t);
            }
        }
        x
    }
    Ok(rec(d.root_element()))
}
fn value(s: &str) -> Option<u64> {
    let s = s.trim();
    if let Some(h) = s.strip_prefix("0x").or(s.strip_prefix("0X")) {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = s.strip_prefix("0b").or(s.strip_prefix('#')) {
        u64::from_str_radix(b, 2).ok()
    } else {
        s.parse().ok()
    }
}
/// First difference; the order of differently named siblings has no meaning (registers and clusters together do).
pub fn compare(want: &Xn, got: &Xn) -> Option<String> {
    let key = |x: &Xn| if x.tag == "cluster" { "register".to_string() } else { x.tag.clone() };
    if want.tag != got.tag {
        return Some(format!("<{}> expected, got <{}>", want.tag, got.tag));
    }
    if want.attrs != got.attrs {
        return Some(format!("{}: attributes {:?} expected, got {:?}", want.tag, want.attrs, got.attrs));
    }
    let (w, g) = (want.text.as_deref().unwrap_or(""), got.text.as_deref().unwrap_or(""));
    let same = match w.chars().next() {
        Some(NUM) => value(g).map(|v| v.to_string()).as_deref() == Some(&w[1..]),
        Some(BOOL) => match g {
            "true" | "1" => &w[1..] == "true",
            "false" | "0" => &w[1..] == "false",
            _ => false,
        },
        Some('\u{3}') => !g.is_empty(),
        _ => w == g,
    };
    if !same {
        return Some(format!("{}: text {w:?} expected, got {g:?}", want.tag));
    }
    let (mut a, mut b): (Vec<&Xn>, Vec<&Xn>) = (want.kids.iter().collect(), got.kids.iter().collect());
    a.sort_by_key(|x| key(x));
    b.sort_by_key(|x| key(x));
    let name = |x: &Xn| match x.kids.iter().find(|k| k.tag == "name").and_then(|k| k.text.clone()).filter(|n| !n.is_empty()) {
        Some(n) => format!("{} {n}", x.tag),
        None => x.tag.clone(),
    };
    let (na, nb): (Vec<String>, Vec<String>) = (a.iter().map(|x| name(x)).collect(), b.iter().map(|x| name(x)).collect());
    if na != nb {
        return Some(format!("{}: children {na:?} expected, got {nb:?}", want.tag));
    }
    a.iter().zip(b).find_map(|(x, y)| compare(x, y))
}
