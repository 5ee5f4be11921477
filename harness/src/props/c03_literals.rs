//! C03: literals.
use super::util::*;

/// value of a number literal of the format, if it is one and fits
pub fn literal(t: &str, bits: u32) -> Option<u64> {
    let digits = |s: &str, base: u128, xx: bool| -> Option<u64> {
        if s.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for c in s.chars() {
            let d = match c {
                'x' | 'X' if xx => 0,
                '0'..='9' => c as u128 - '0' as u128,
                'a'..='f' => c as u128 - 'a' as u128 + 10,
                'A'..='F' => c as u128 - 'A' as u128 + 10,
                _ => return None,
            };
            if d >= base {
                return None;
            }
            v = v * base + d;
            if v >= 1u128 << bits {
                return None;
            }
        }
        Some(v as u64)
    };
    if let Some(h) = t.strip_prefix("0x").or(t.strip_prefix("0X")) {
        digits(h, 16, false)
    } else if let Some(b) = t.strip_prefix("0b").or(t.strip_prefix('#')) {
        digits(b, 2, true)
    } else {
        digits(t, 10, false)
    }
}
fn with_leaf(x: &Xn, p: &[usize], text: &str) -> String {
    let mut y = x.clone();
    y.at_mut(p).text = Some(text.to_string());
    xmlw::write(&y, &Style::default()).0
}
fn find_leaf(x: &Xn, tag: &str) -> Vec<usize> {
    x.paths().into_iter().find(|p| x.at(p).tag == tag).expect("leaf")
}
pub const U32_TAGS: &[&str] = &[
    "addressUnitBits", "width", "size", "nvicPrioBits", "deviceNumInterrupts", "sauNumRegions", "dim", "dimIncrement", "offset", "addressOffset", "bitOffset",
    "bitWidth", "lsb", "msb",
];
pub const U64_TAGS: &[&str] = &["resetValue", "resetMask", "baseAddress", "minimum", "maximum"];
pub const BOOL_TAGS: &[&str] = &[
    "mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent", "vendorSystickConfig",
    "isDefault", "writeAsRead", "useEnumeratedValues",
];
/// (path, bits) of every numeric leaf; "value" is 64 bits in an enumerated value and 32 in an interrupt
pub fn numeric_leaves(x: &Xn) -> Vec<(Vec<usize>, u32)> {
    x.paths()
        .into_iter()
        .filter_map(|p| {
            let t = x.at(&p).tag.as_str();
            let bits = if t == "value" {
                if x.at(&p[..p.len() - 1]).tag == "interrupt" {
                    32
                } else {
                    64
                }
            } else if U32_TAGS.contains(&t) {
                32
            } else if U64_TAGS.contains(&t) {
                64
            } else {
                return None;
            };
            Some((p, bits))
        })
        .collect()
}
/// two address leaves of the small document, absolute comparison
fn absolute(c: &mut Ctx, x: &Xn, d: &El, text: &str) -> Res {
    if !c.state(text) {
        return Res::Skip;
    }
    let cfg = pcfg(0, false, false, false);
    c.sample = c.want_sample.then(|| format!("{text:?}"));
    let mut seen = vec![];
    for (tag, bits) in [("addressOffset", 32), ("baseAddress", 64)] {
        c.execs += 1;
        let xml = with_leaf(x, &find_leaf(x, tag), text);
        let want = literal(text.trim(), bits);
        match (want, parse(&xml, &cfg)) {
            (None, Out::Err(_)) => {}
            (Some(v), Out::Ok(dev)) => {
                let mut w = d.clone();
                if bits == 64 {
                    w.at_mut(&[("peripherals", 0)]).unwrap().f.insert("baseAddress", V::N(v));
                } else {
                    w.at_mut(&[("peripherals", 0), ("registers", 0)]).unwrap().f.insert("addressOffset", V::N(v));
                }
                if let Some(m) = diff(&norm(&w), &view(&dev)) {
                    return fail(format!("literal misread in {tag}"), format!("{text:?}: {m}"), xml);
                }
            }
            (None, o) => return fail(format!("{} for a non-literal in {tag}", o.kind()), format!("{text:?} {}", o.why()), xml),
            (Some(v), o) => return fail(format!("{} for a literal in {tag}", o.kind()), format!("{text:?} is {v}: {}", o.why()), xml),
        }
        seen.push(want);
    }
    hres(seen)
}
const SAMPLES: &[&str] = &[
    "0", "1", "2", "7", "12", "007", "255", "0x0", "0xF", "0Xf", "0x00aB", "#0", "#101", "#1x0", "#X1", "#0001", "0b1", "0b10x", "0bX1", "0b0000000000000000000000000000000000001", "31", "32", "64",
    "4294967295", "4294967296", "0xFFFFFFFF", "0x100000000", "18446744073709551615", "18446744073709551616", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "#11111111111111111111111111111111",
    "#100000000000000000000000000000000", "-1", "-0", "1.0", "1e3", "x", "0x", "#", "0b", "0xG", "#2", "0b2", "1 2", "1,2", "0x1 2", "1_0", "ten", "true", "F", "0o7", "x1", "#0x1", "0x#1", "##1", "1#", "0b0b1", "0x0x1", "\u{663}",
];
pub fn spaces(t: Tier) -> Vec<Space> {
    let st = Style::default();
    let dm = base_min();
    let xm = xmlw::to_xn(&dm, &st);
    let mut v = vec![];
    let toks = ["0", "1", "2", "9", "a", "F", "x", "X", "b", "#", "-", " "];
    let n = if t == Tier::Quick { 5 } else { 6 };
    let (x1, d1) = (xm.clone(), dm.clone());
    v.push(space("all short literals", format!("all strings of at most {n} tokens over {toks:?}, in a 32-bit and a 64-bit element"), move |c| {
        let s = token_string(c, &toks, n);
        absolute(c, &x1, &d1, &s)
    }));
    let (x2, d2) = (xm.clone(), dm.clone());
    v.push(space("magnitudes", "2^k and 2^k +-1 for k in 0..=66 and 10^k +-1 for k in 0..=21, in every base, with leading zeros, upper and lower case, don't care digits", move |c| {
        let base: u128 = if c.flag() {
            1u128 << c.choose(67)
        } else {
            10u128.pow(c.choose(22) as u32)
        };
        let v = (base + c.choose(3) as u128).saturating_sub(1);
        let z = "0".repeat([0usize, 1, 20][c.choose(3)]);
        let s = match c.choose(8) {
            0 => format!("{z}{v}"),
            1 => format!("0x{z}{v:x}"),
            2 => format!("0X{z}{v:X}"),
            3 => format!("0x{z}{v:X}"),
            4 => format!("#{z}{v:b}"),
            5 => format!("0b{z}{v:b}"),
            6 => format!("#{z}{v:b}").replace('0', "x"),
            _ => format!("0b{}", format!("{z}{v:b}").replace('0', "X")),
        };
        absolute(c, &x2, &d2, &s)
    }));
    // every numeric element
    let rich = base_rich();
    let xr = Arc::new(xmlw::to_xn(&rich, &st));
    let leaves = numeric_leaves(&xr);
    let (x3, l3) = (xr.clone(), leaves.clone());
    v.push(space("every numeric element", format!("{} numeric leaves of the rich document x {} texts x (bare, surrounded by white space)", leaves.len(), SAMPLES.len()), move |c| {
        let (p, bits) = &l3[c.choose(l3.len())];
        let s = *c.pick(SAMPLES);
        let ws = c.flag();
        let cfg = pcfg(0, false, false, false);
        let xml = with_leaf(&x3, p, &if ws { format!("\n {s}\t") } else { s.to_string() });
        if !c.state(&(p, s, ws)) {
            return Res::Skip;
        }
        let tag = &x3.at(p).tag;
        c.sample = c.want_sample.then(|| format!("<{tag}>{s}</{tag}>"));
        match (literal(s, *bits), parse(&xml, &cfg)) {
            (None, Out::Err(_)) => Res::Ok(0),
            (None, o) => fail(format!("{} for a non-literal in {tag}", o.kind()), format!("{s:?} {}", o.why()), xml),
            (Some(v), o) => {
                c.execs += 1;
                let dec = parse(&with_leaf(&x3, p, &v.to_string()), &cfg);
                match (o, dec) {
                    (Out::Ok(a), Out::Ok(b)) if a == b => {
                        if !ws && v.to_string() == s {
                            Res::Ok(1)
                        } else {
                            hres(v)
                        }
                    }
                    (Out::Err(_), Out::Err(_)) => Res::Ok(2),
                    (a, b) => fail(format!("{tag}: not the value of the decimal literal"), format!("{s:?} vs {v}: {} {} / {} {}", a.kind(), a.why(), b.kind(), b.why()), xml),
                }
            }
        }
    }));
    // the value itself, wherever it is kept
    let (x4, r4) = (xr.clone(), rich.clone());
    v.push(space("every numeric element keeps the value", format!("{} numeric leaves x 12 values x 5 bases, compared with the reference document", leaves.len()), move |c| {
        let i = c.choose(leaves.len());
        let (p, bits) = &leaves[i];
        let v = [0u64, 1, 2, 5, 9, 10, 31, 255, 0x8000_0000, 0xffff_ffff, 1 << 40, u64::MAX][c.choose(12)];
        let s = xmlw::num(v, c.choose(5) as u8);
        let tag = x4.at(p).tag.clone();
        if v >> (bits - 1) > 1 || matches!(tag.as_str(), "msb" | "lsb" | "bitWidth" | "dim") {
            return Res::Skip;
        }
        // mark the leaf with a decimal of the same value and find where the reference reader puts it
        let mut want = r4.clone();
        let mut n = 0;
        let mut done = false;
        let target = numeric_index(&x4, p);
        number_slots(&mut want, &mut |slot| {
            if n == target {
                set_slot(slot, v);
                done = true;
            }
            n += 1;
        });
        assert!(done);
        let xml = with_leaf(&x4, p, &s);
        if !c.state(&(p, &s)) {
            return Res::Skip;
        }
        match parse(&xml, &pcfg(0, false, false, false)) {
            Out::Ok(d) => match diff(&norm(&want), &view(&d)) {
                None => hres((i, v)),
                Some(m) => fail(format!("{tag}: value lost"), m, xml),
            },
            o => fail(format!("{tag}: {} for a value in range", o.kind()), o.why().to_string(), xml),
        }
    }));
    // booleans
    let bl: Vec<Vec<usize>> = xr.paths().into_iter().filter(|p| BOOL_TAGS.contains(&xr.at(p).tag.as_str())).collect();
    let mut words: Vec<String> = ["true", "false", "1", "0"].iter().map(|s| s.to_string()).collect();
    words.extend(neighbours(&["true", "false", "1", "0"]));
    for s in ["TRUE", "True", "FALSE", "yes", "no", "on", "off", "0x1", "0x0", "00", "01", "10", "2", "-1", "#1", "true false", "null", ""] {
        words.push(s.into());
    }
    words.sort();
    words.dedup();
    let nb = bl.len();
    v.push(space("every boolean element", format!("{nb} boolean leaves of the rich document x {} texts (the four words, everything one edit away, look-alikes)", words.len()), move |c| {
        let p = &bl[c.choose(nb)];
        let s = c.pick(&words);
        let xml = with_leaf(&xr, p, s);
        let tag = xr.at(p).tag.clone();
        if !c.state(&(p, s)) {
            return Res::Skip;
        }
        let want = match s.trim() {
            "true" | "1" => Some("true"),
            "false" | "0" => Some("false"),
            _ => None,
        };
        let cfg = pcfg(0, false, false, false);
        match (want, parse(&xml, &cfg)) {
            (None, Out::Err(_)) => Res::Ok(0),
            (None, o) => fail(format!("{} for a non-boolean in {tag}", o.kind()), format!("{s:?} {}", o.why()), xml),
            (Some(w), Out::Ok(d)) => {
                let mut doc = rich.clone();
                let target = bool_index(&xr, p);
                let mut n = 0;
                bool_slots(&mut doc, &mut |e, t| {
                    if n == target {
                        let b = w == "true";
                        match e.f.get_mut(t).unwrap() {
                            V::B(x) | V::WAR(x) | V::UEV(x) => *x = b,
                            _ => unreachable!(),
                        }
                    }
                    n += 1;
                });
                match diff(&norm(&doc), &view(&d)) {
                    None => hres((p, w)),
                    Some(m) => fail(format!("boolean misread in {tag}"), format!("{s:?}: {m}"), xml),
                }
            }
            (Some(_), o) => fail(format!("{} for a boolean in {tag}", o.kind()), format!("{s:?} {}", o.why()), xml),
        }
    }));
    let (x5, d5) = (xmlw::to_xn(&base_rich(), &st), base_rich());
    v.push(space("all short boolean texts", "all texts of at most 2 characters out of the printable ASCII characters in a boolean element", move |c| {
        let ch: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
        let n = c.choose(3);
        let s: String = (0..n).map(|_| *c.pick(&ch)).collect();
        let xml = with_leaf(&x5, &find_leaf(&x5, "mpuPresent"), &s);
        if !c.state(&s) {
            return Res::Skip;
        }
        let want = match s.trim() {
            "1" => Some(true),
            "0" => Some(false),
            _ => None,
        };
        match (want, parse(&xml, &pcfg(0, false, false, false))) {
            (None, Out::Err(_)) => Res::Ok(0),
            (Some(b), Out::Ok(d)) => {
                let mut w = d5.clone();
                w.at_mut(&[("cpu", 0)]).unwrap().f.insert("mpuPresent", V::B(b));
                match diff(&norm(&w), &view(&d)) {
                    None => hres(b),
                    Some(m) => fail("boolean misread", format!("{s:?}: {m}"), xml),
                }
            }
            (_, o) => fail(format!("boolean text: {}", o.kind()), format!("{s:?} {}", o.why()), xml),
        }
    }));
    v
}
/// everything one insertion, deletion, replacement or swap away from one of the words
pub fn neighbours(words: &[&str]) -> Vec<String> {
    let al: Vec<char> = "aeflrstuxTF01-_ ".chars().collect();
    let mut out = vec![];
    for w in words {
        let c: Vec<char> = w.chars().collect();
        let s = |v: Vec<char>| v.into_iter().collect::<String>();
        for i in 0..=c.len() {
            for a in &al {
                let mut v = c.clone();
                v.insert(i, *a);
                out.push(s(v));
                if i < c.len() {
                    let mut v = c.clone();
                    v[i] = *a;
                    out.push(s(v));
                }
            }
            if i < c.len() {
                let mut v = c.clone();
                v.remove(i);
                out.push(s(v));
                let mut v = c.clone();
                v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
                out.push(s(v));
            }
            if i + 1 < c.len() {
                let mut v = c.clone();
                v.swap(i, i + 1);
                out.push(s(v));
            }
        }
    }
    out
}
// numeric slots of the reference document in the order in which the writer emits them
enum Slot<'a> {
    N(&'a mut u64),
    Off(&'a mut u32),
    Fixed,
}
fn set_slot(s: Slot, v: u64) {
    match s {
        Slot::N(n) => *n = v,
        Slot::Off(o) => *o = v as u32,
        Slot::Fixed => unreachable!(),
    }
}
fn number_slots(e: &mut El, f: &mut dyn FnMut(Slot)) {
    for (t, _, _) in fields(e.k) {
        match e.f.get_mut(t) {
            Some(V::N(n)) => f(Slot::N(n)),
            Some(V::Range(a, b)) => {
                f(Slot::N(a));
                f(Slot::N(b));
            }
            Some(V::BR(o, _, 1)) => {
                f(Slot::Off(o));
                f(Slot::Fixed);
            }
            Some(V::BR(_, _, 2)) => {
                f(Slot::Fixed);
                f(Slot::Fixed);
            }
            _ => {}
        }
    }
    for (g, _, _) in groups(e.k) {
        if let Some(l) = e.c.get_mut(g) {
            for x in l {
                number_slots(x, f);
            }
        }
    }
}
fn numeric_index(x: &Xn, p: &[usize]) -> usize {
    numeric_leaves(x).iter().position(|(q, _)| q == p).unwrap()
}
fn bool_slots(e: &mut El, f: &mut dyn FnMut(&mut El, &'static str)) {
    for (t, _, _) in fields(e.k) {
        if matches!(e.f.get(t), Some(V::B(_) | V::WAR(_) | V::UEV(_))) {
            f(e, t);
        }
    }
    for (g, _, _) in groups(e.k) {
        if let Some(l) = e.c.get_mut(g) {
            for x in l {
                bool_slots(x, f);
            }
        }
    }
}
fn bool_index(x: &Xn, p: &[usize]) -> usize {
    x.paths().into_iter().filter(|p| BOOL_TAGS.contains(&x.at(p).tag.as_str())).position(|q| q == p).unwrap()
}
pub const PROP: Prop = Prop {
    id: "C03",
    spaces,
    rule: "a case is one text in one element; the reference recogniser says whether it is a literal and what it is worth",
    assumptions: &["numbers with a sign or a k/m/g suffix and the prefix 0B are outside the space (the implementation documents none of them)"],
};
