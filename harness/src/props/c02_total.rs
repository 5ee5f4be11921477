//! C02: every input gives a device or an error, and what was parsed can be used without a panic.
use super::util::*;

/// what a caller does with a device
fn exercise(d: &svd::Device, encs: &[svd_encoder::Config], n: &mut u64) -> Result<String, (String, String)> {
    let mut seen = String::new();
    macro_rules! step {
        ($name:expr, $e:expr) => {{
            *n += 1;
            match sut(|| $e) {
                Ok(r) => r,
                Err(p) => return Err(($name.to_string(), p)),
            }
        }};
    }
    for l in LEVELS {
        let r = step!("validate_all", d.validate_all(l).is_ok());
        seen.push(if r { 'v' } else { '-' });
    }
    let mut devs = vec![d.clone()];
    let x = step!("expand", svd_parser::expand(d).ok());
    seen.push(if x.is_some() { 'x' } else { '-' });
    devs.extend(x);
    let mut e = d.clone();
    step!("expand_properties", svd_parser::expand_properties(&mut e));
    if let Some(x) = step!("expand_properties, expand", svd_parser::expand(&e).ok()) {
        devs.push(x);
    }
    step!("Index::create", {
        let i = svd_parser::expand::Index::create(d);
        for (p, x) in &i.peripherals {
            let _ = (p.to_string(), p.name().len(), p.parent(), x.name.len());
        }
        for (p, _) in &i.fields {
            let _ = p.to_string();
        }
    });
    for (k, x) in devs.iter().enumerate() {
        for (j, c) in encs.iter().enumerate() {
            if k > 0 && j > 0 {
                break;
            }
            step!("encode", svd_encoder::encode_with_config(x, c).map(|s| s.len()).unwrap_or(0));
        }
        step!("walk", {
            let mut s = 0u64;
            for p in &x.peripherals {
                for r in p.all_registers() {
                    s ^= r.bitmask();
                    for f in r.fields() {
                        s ^= f.bitmask() ^ f.bit_range.msb() as u64 ^ f.bit_range.lsb() as u64 ^ f.bit_width() as u64;
                        let _ = f.bit_range.bit_range();
                        for e in &f.enumerated_values {
                            let _ = (e.usage(), e.default_value().is_some());
                        }
                        let _ = (f.get_enumerated_values(svd::Usage::Read).is_some(), f.get_enumerated_values(svd::Usage::Write).is_some());
                    }
                }
                for i in p.registers().count()..p.clusters().count() {
                    s ^= i as u64;
                }
            }
            s
        });
    }
    let js = step!("serialise", serde_json::to_string(d).unwrap_or_default());
    step!("deserialise", serde_json::from_str::<svd::Device>(&js).is_ok());
    Ok(seen)
}
fn huge(x: &str) -> bool {
    // arrays of more elements than this are only parsed, see DESIGN.md
    let mut rest = x;
    while let Some(i) = rest.find("<dim>") {
        rest = &rest[i + 5..];
        let t = rest.split('<').next().unwrap_or("").trim();
        let n = match t.get(..2) {
            Some("0x") | Some("0X") => u64::from_str_radix(&t[2..], 16).unwrap_or(0),
            Some("0b") | Some("0B") => u64::from_str_radix(&t[2..], 2).unwrap_or(0),
            _ => match t.strip_prefix('#') {
                Some(b) => u64::from_str_radix(b, 2).unwrap_or(0),
                None => t.parse().unwrap_or(0),
            },
        };
        if n > 300 {
            return true;
        }
    }
    false
}
pub struct Pk {
    encs: Vec<svd_encoder::Config>,
}
impl Pk {
    pub fn new() -> Pk {
        Pk { encs: enc_configs() }
    }
    /// parse in these configurations and use what comes out
    pub fn poke(&self, c: &mut Ctx, x: &str, mode: u8) -> Res {
        c.sample = c.want_sample.then(|| x.to_string());
        let mut seen = String::new();
        let big = huge(x);
        for lvl in 0..3 {
            for ign in [false, true] {
                for (ex, pr) in [(false, false), (true, true), (true, false), (false, true)] {
                    if (big && ex) || (mode < 2 && ((ign && lvl != 0) || (pr != ex) || (ex && lvl != 0))) || (mode == 0 && (lvl == 1 || ign)) {
                        continue;
                    }
                    c.execs += 1;
                    match parse(x, &pcfg(lvl, ex, pr, ign)) {
                        Out::Panic(p) => return fail(format!("parse panics: {}", site(&p)), format!("level {:?} expand={ex} expand_properties={pr} ignore_enums={ign}: {p}", LEVELS[lvl]), x.to_string()),
                        Out::Err(_) => seen.push('e'),
                        Out::Ok(d) => {
                            seen.push('o');
                            if lvl == 0 && !ex && !pr && !big {
                                let mut n = 0;
                                match exercise(&d, if mode == 0 { &self.encs[..2] } else { &self.encs }, &mut n) {
                                    Ok(s) => seen.push_str(&s),
                                    Err((w, p)) => return fail(format!("{w} panics: {}", site(&p)), format!("{w}: {p}"), x.to_string()),
                                }
                                c.execs += n;
                            }
                        }
                    }
                }
            }
        }
        hres(seen)
    }
}
fn site(p: &str) -> String {
    match p.rfind('(') {
        Some(i) => p[i..].to_string(),
        None => p.to_string(),
    }
}
pub fn all_tags() -> Vec<&'static str> {
    let mut t: Vec<&str> = ALL_KINDS.iter().flat_map(|k| fields(*k).iter().map(|f| f.0).filter(|t| !t.starts_with('@') && *t != "bits")).collect();
    t.extend(ALL_KINDS.iter().map(|k| k.tag()));
    t.extend(["bitRange", "bitOffset", "bitWidth", "lsb", "msb", "registers", "peripherals", "fields", "range", "minimum", "maximum", "writeAsRead", "useEnumeratedValues", "fpuDP", "vendorExtensions", "junk"]);
    t.sort();
    t.dedup();
    t
}
pub const JUNK: &[&str] = &["", " ", "x", "0", "-1", "1x", "0x", "#", "0x1_0", "99999999999999999999", "\u{e9}", "%s", "[%s]", "[", "[:]", "[0:1]", "[1:0]", "a.b.c.d", ".", "true", "0-4", "A-Z", "9-0", ",", "1,,2", "read-write"];
fn number_leaves(x: &Xn) -> Vec<Vec<usize>> {
    x.paths().into_iter().filter(|p| x.at(p).text.as_deref().is_some_and(|t| t.starts_with(|c: char| c.is_ascii_digit()) && x.at(p).tag != "version" && x.at(p).tag != "dimIndex")).collect()
}
const EXT: &[u64] = &[0, 1, 3, 31, 32, 33, 63, 64, 65, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX - 3, u64::MAX];
/// one of everything with a number in it, arrays of arrays, references
fn numeric_doc() -> El {
    let evs = El::new(K::Enums).st("name", "E").kid("values", ev("A", 1)).kid("values", ev("B", 2));
    let f = El::new(K::Field).st("name", "F%s").with("bits", V::BR(4, 4, 1)).arr(2, 8).with("writeConstraint", V::Range(1, 3)).kids("enumeratedValues", vec![evs]);
    let f2 = fld("G", 0, 2).with("bits", V::BR(0, 2, 2));
    let r = reg("R%s", 8).arr(2, 16).nu("size", 32).nu("resetValue", 5).nu("resetMask", 7).kids("fields", vec![f, f2]);
    let cl = clu("C%s", 0x20, vec![r, reg("S", 4).st("@derivedFrom", "R%s")]).arr(2, 0x100).nu("size", 16);
    let p = per("P%s", 0x1000, vec![cl, reg("T", 0)]).arr(2, 0x100).kid("addressBlock", El::new(K::AddrBlock).nu("offset", 4).nu("size", 8).st("usage", "registers")).kid("interrupt", El::new(K::Interrupt).st("name", "I").nu("value", 3));
    dev(vec![p, El::new(K::Periph).st("name", "Q").nu("baseAddress", 0x9000).st("@derivedFrom", "P%s")]).kid("cpu", cpu_min())
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let pk = Arc::new(Pk::new());
    // ---- structural faults
    let tags = all_tags();
    for (what, base) in [("rich document", base_rich()), ("document with nested arrays", numeric_doc())] {
        let x = xmlw::to_xn(&base, &Style::default());
        let paths = x.paths();
        let pk = pk.clone();
        let tags = tags.clone();
        let n_el = paths.len();
        v.push(space(
            format!("one structural fault, {what}"),
            format!("{n_el} elements x (delete, duplicate, empty, hoist, rename, {} texts, {} attributes, insert one of {} tags{})", JUNK.len(), 4 * JUNK.len(), tags.len(), if q { " with 2 contents" } else { " with 4 contents at 2 places, copy in one of the other elements" }),
            move |c| {
                let p = &paths[c.choose(paths.len())];
                let mut y = x.clone();
                let op = c.choose(if q { 8 } else { 9 });
                if p.is_empty() && matches!(op, 0 | 1 | 3) {
                    return Res::Skip;
                }
                match op {
                    0 => {
                        y.at_mut(&p[..p.len() - 1]).kids.remove(p[p.len() - 1]);
                    }
                    1 => {
                        let e = y.at(p).clone();
                        y.at_mut(&p[..p.len() - 1]).kids.insert(p[p.len() - 1], e);
                    }
                    2 => {
                        let e = y.at_mut(p);
                        e.kids.clear();
                        e.text = None;
                    }
                    3 => {
                        let e = y.at(p).clone();
                        let i = p[p.len() - 1];
                        let par = y.at_mut(&p[..p.len() - 1]);
                        par.kids.splice(i..i + 1, e.kids);
                    }
                    4 => y.at_mut(p).tag = c.pick(&tags).to_string(),
                    5 => {
                        let j = *c.pick(JUNK);
                        let e = y.at_mut(p);
                        if c.flag() {
                            e.kids.clear();
                        } else if e.kids.is_empty() {
                            return Res::Skip;
                        }
                        e.text = Some(j.to_string());
                    }
                    6 => {
                        let a = *c.pick(&["derivedFrom", "schemaVersion", "xmlns:xs", "id"]);
                        let j = *c.pick(JUNK);
                        let e = y.at_mut(p);
                        e.attrs.retain(|x| x.0 != a);
                        e.attrs.push((a.to_string(), j.to_string()));
                    }
                    7 => {
                        let t = *c.pick(&tags);
                        let e = match c.choose(if q { 2 } else { 4 }) {
                            0 => Xn::new(t),
                            1 => Xn::leaf(t, "1"),
                            2 => Xn::leaf(t, "x"),
                            _ => {
                                let mut e = Xn::new(t);
                                e.kids.push(Xn::leaf("name", "N"));
                                e
                            }
                        };
                        let at = c.choose(if q { 1 } else { 2 });
                        let par = y.at_mut(p);
                        let i = if at == 0 { 0 } else { par.kids.len() };
                        par.kids.insert(i, e);
                    }
                    _ => {
                        let o = &paths[c.choose(paths.len())];
                        // leaves and small parts only
                        if x.at(o).kids.len() > 12 {
                            return Res::Skip;
                        }
                        let e = x.at(o).clone();
                        y.at_mut(p).kids.insert(0, e);
                    }
                }
                if !c.state(&y) {
                    return Res::Skip;
                }
                let s = xmlw::write(&y, &Style::default()).0;
                pk.poke(c, &s, if q { 0 } else { 1 })
            },
        ));
    }
    // ---- text damage
    let s: String = xmlw::xml(&base_rich(), &Style::default());
    let chars: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    let pk2 = pk.clone();
    v.push(space("truncation and damage of the text", format!("{} characters: cut off here, removed, or replaced by one of 10 characters", chars.len()), move |c| {
        let i = chars[c.choose(chars.len())];
        let j = s[i..].char_indices().nth(1).map(|x| i + x.0).unwrap_or(s.len());
        let x = match c.choose(12) {
            0 => s[..i].to_string(),
            1 => format!("{}{}", &s[..i], &s[j..]),
            k => format!("{}{}{}", &s[..i], ["<", ">", "&", "\"", "\0", " ", "%", "\u{e9}", "9", "/"][k - 2], &s[j..]),
        };
        if !c.state(&x) {
            return Res::Skip;
        }
        pk2.poke(c, &x, 1)
    }));
    // ---- extreme numbers
    let doc = numeric_doc();
    let x = xmlw::to_xn(&doc, &Style::default());
    let nl = number_leaves(&x);
    let depth = 2;
    let pk2 = pk.clone();
    let ext: &'static [u64] = if q { &[0, 1, 32, 64, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, u64::MAX] } else { EXT };
    v.push(space(format!("{depth} extreme numbers"), format!("every set of {depth} of {} numbers, each one of {} values", nl.len(), ext.len()), move |c| {
        let mut y = x.clone();
        let mut from = 0;
        for _ in 0..depth {
            if from >= nl.len() {
                break;
            }
            let i = from + c.choose(nl.len() - from);
            y.at_mut(&nl[i]).text = Some(c.pick(ext).to_string());
            from = i + 1;
        }
        if !c.state(&y) {
            return Res::Skip;
        }
        let s = xmlw::write(&y, &Style::default()).0;
        pk2.poke(c, &s, 0)
    }));
    // ---- all configurations
    let r = Arc::new(DocSpace::new(base_rich(), ANY_DEL));
    let pk2 = pk.clone();
    v.push(space("rich document, one edit, all parser configurations", format!("{} edits x 24 configurations", r.n()), move |c| match r.upto(c, 1) {
        Some(d) => {
            if !c.state(&d) {
                return Res::Skip;
            }
            pk2.poke(c, &xmlw::xml(&d, &Style::default()), 2)
        }
        None => Res::Skip,
    }));
    // ---- degenerate documents
    let toks: &'static [&'static str] = &["<device>", "</device>", "<device/>", "<name>N</name>", "<peripherals>", "</peripherals>", "<peripherals/>", "<peripheral>", "</peripheral>", "<!--c-->", "<?xml version=\"1.0\"?>", "t", "<a b=\"c\"/>", "<cpu/>", "<![CDATA[x]]>", "&amp;", "\u{feff}"];
    let n = if q { 4 } else { 5 };
    let pk2 = pk.clone();
    v.push(space("degenerate documents", format!("all sequences of at most {n} out of {} XML tokens", toks.len()), move |c| {
        let s = token_string(c, toks, n);
        if !c.state(&s) {
            return Res::Skip;
        }
        pk2.poke(c, &s, 0)
    }));
    // ---- names, references and index texts
    let nt: &'static [&'static str] = &["%s", "[", "]", "A", "P", "R", ".", "1", "\u{e9}", " "];
    let n = if q { 3 } else { 4 };
    let places: Arc<Vec<(Vec<usize>, bool)>> = {
        let x = xmlw::to_xn(&refdoc(), &Style::default());
        Arc::new(x.paths().into_iter().filter(|p| matches!(x.at(p).tag.as_str(), "name" | "displayName" | "description" | "dimIndex")).map(|p| (p, false)).chain(x.paths().into_iter().filter(|p| !x.at(p).attrs.is_empty() && !p.is_empty()).map(|p| (p, true))).collect())
    };
    let x = xmlw::to_xn(&refdoc(), &Style::default());
    let pk2 = pk.clone();
    let pl = places.clone();
    v.push(space("names, references and index texts", format!("every string of at most {n} out of {} tokens at each of {} names, descriptions, index texts and references, with and without expanding", nt.len(), places.len()), move |c| {
        let (p, attr) = &pl[c.choose(pl.len())];
        let s = token_string(c, nt, n);
        let mut y = x.clone();
        if *attr {
            y.at_mut(p).attrs[0].1 = s;
        } else {
            y.at_mut(p).text = Some(s);
        }
        if !c.state(&y) {
            return Res::Skip;
        }
        pk2.poke(c, &xmlw::write(&y, &Style::default()).0, 0)
    }));
    let it: &'static [&'static str] = &["0", "9", "-", ",", "A", "Z", "a", "4294967295", " ", "\u{e9}", "\n", "18446744073709551616"];
    let n = if q { 4 } else { 5 };
    let x = xmlw::to_xn(&refdoc(), &Style::default());
    let ip: Vec<Vec<usize>> = x.paths().into_iter().filter(|p| x.at(p).tag == "dimIndex").collect();
    let pk2 = pk.clone();
    v.push(space("index texts", format!("every dimIndex of at most {n} out of {} tokens, ranges of more than a million numbers left out", it.len()), move |c| {
        let s = token_string(c, it, n);
        if let Some((a, b)) = s.split_once('-') {
            if let (Ok(a), Ok(b)) = (a.trim().parse::<u32>(), b.trim().parse::<u32>()) {
                if b > a && b - a > 1_000_000 {
                    return Res::Skip;
                }
            }
        }
        let mut y = x.clone();
        y.at_mut(&ip[0]).text = Some(s);
        if !c.state(&y) {
            return Res::Skip;
        }
        pk2.poke(c, &xmlw::write(&y, &Style::default()).0, 0)
    }));
    // ---- long texts of wide characters, together with a fault
    let texts = wide_texts(!q);
    let nt = texts.len();
    let pk2 = pk.clone();
    let bases = [base_rich(), numeric_doc(), refdoc()];
    v.push(space("long texts of wide characters", format!("3 documents whose texts are {nt} long texts of characters of 2 and 4 bytes (a cut at any byte is inside of one), references resolving or not, one element of them taken away, emptied, renamed or with a bad text, or none"), move |c| {
        let mut d = bases[c.choose(3)].clone();
        let s = c.pick(&texts).clone();
        let refs = c.flag();
        let mut n = 0;
        let mut map = BTreeMap::new();
        d.walk_mut(&mut |e| {
            n += 1;
            for (t, ty, _) in fields(e.k) {
                if !matches!(ty, T::Text) {
                    continue;
                }
                if let Some(V::S(x)) = e.f.get_mut(t) {
                    let ph = if x.contains("[%s]") { "[%s]" } else if x.contains("%s") { "%s" } else { "" };
                    let y = if *t == "name" { format!("{s}{n}{ph}") } else { format!("{s}{ph}") };
                    if *t == "name" {
                        map.insert(x.clone(), y.clone());
                    }
                    *x = y;
                }
            }
        });
        d.walk_mut(&mut |e| {
            if let Some(V::S(x)) = e.f.get_mut("@derivedFrom") {
                *x = if refs { x.split('.').map(|p| map.get(p).cloned().unwrap_or_else(|| s.clone())).collect::<Vec<_>>().join(".") } else { s.clone() };
            }
        });
        let mut x = xmlw::to_xn(&d, &Style::default());
        let paths = x.paths();
        let p = paths[c.choose(paths.len())].clone();
        match c.choose(6) {
            0 => {
                if !p.is_empty() {
                    x.at_mut(&p[..p.len() - 1]).kids.remove(p[p.len() - 1]);
                }
            }
            1 => {
                let e = x.at_mut(&p);
                e.kids.clear();
                e.text = None;
            }
            2 => x.at_mut(&p).tag = s.chars().filter(|c| c.is_alphabetic()).collect(),
            k => {
                let e = x.at_mut(&p);
                if e.text.is_none() {
                    return Res::Skip;
                }
                e.text = Some([s.clone(), "-1".into(), format!("1{s}")][k - 3].clone());
            }
        }
        if !c.state(&x) {
            return Res::Skip;
        }
        pk2.poke(c, &xmlw::write(&x, &Style::default()).0, 0)
    }));
    // ---- depth
    let depths: &'static [usize] = &[1, 2, 8, 32, 64, 128, 256, 512, 1024];
    let pk2 = pk.clone();
    v.push(space("deep nesting", format!("clusters or unknown elements nested {depths:?} deep on a stack of 8 MiB"), move |c| {
        let n = *c.pick(depths);
        let s = match c.choose(3) {
            0 => {
                let mut e = reg("R", 0);
                for i in 0..n {
                    e = clu(&format!("C{i}"), 0, vec![e]);
                }
                xmlw::xml(&dev(vec![per("P", 0, vec![e])]), &Style::default())
            }
            1 => min_xml().replace("<peripherals>", &format!("{}{}<peripherals>", "<x>".repeat(n), "</x>".repeat(n))),
            _ => format!("{}{}", "<device>".repeat(n), "</device>".repeat(n)),
        };
        c.state(&s);
        pk2.poke(c, &s, 2)
    }));
    let m = if q { 0 } else { 1 };
    let pk5 = pk.clone();
    v.push(space("presence and one edit in other places", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit over valid and invalid values, at 10 places"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &ANY) else { return Res::Skip };
        let d = placed(c, e);
        if !c.state(&d) {
            return Res::Skip;
        }
        pk5.poke(c, &xmlw::xml(&d, &Style::default()), 0)
    }));
    v
}
/// texts which no byte count cuts between characters: two byte characters begin at even and at odd
/// positions from either end
fn wide_texts(long: bool) -> Vec<String> {
    let mut v = vec![];
    let ns: &[usize] = if long { &[40, 300, 5000] } else { &[300] };
    for n in ns {
        for (a, b) in [("", ""), ("a", ""), ("", "b"), ("a", "b")] {
            v.push(format!("{a}{}{b}", "\u{e9}".repeat(*n)));
        }
        v.push("\u{1d4b3}".repeat(*n));
    }
    v
}
/// every kind of array and reference
fn refdoc() -> El {
    let evs = El::new(K::Enums).st("name", "E").kid("values", ev("A", 1));
    let f = El::new(K::Field).st("name", "F%s").with("bits", V::BR(0, 2, 1)).arr(2, 2).st("description", "f %s").kids("enumeratedValues", vec![evs]);
    let g = fld("G", 8, 2).st("@derivedFrom", "F%s");
    let h = fld("H", 10, 2).kids("enumeratedValues", vec![El::new(K::Enums).st("@derivedFrom", "E")]);
    let r = reg("R%s", 0).arr(2, 4).st("displayName", "R%s").with("dimIndex", V::L(vec!["A".into(), "B".into()])).kids("fields", vec![f, g, h]);
    let c = clu("C[%s]", 0x20, vec![reg("S", 0)]).arr(2, 0x10);
    dev(vec![
        per("P", 0, vec![r, reg("D", 0x10).st("@derivedFrom", "R%s"), c, clu("K", 0x80, vec![]).st("@derivedFrom", "C[%s]")]),
        El::new(K::Periph).st("name", "Q").nu("baseAddress", 0x100).st("@derivedFrom", "P"),
    ])
}
pub const PROP: Prop = Prop {
    id: "C02",
    spaces,
    rule: "every input of the bounded fault model is parsed and what comes out is validated, expanded, indexed, encoded in four configurations, walked and serialised under a panic, crash and hang monitor",
    assumptions: &["arrays of more than 300 elements and index ranges of more than a million numbers are not expanded: time and memory are proportional to them", "nesting up to 512 levels on an 8 MiB stack"],
};
