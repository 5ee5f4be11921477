//! C04: bit positions in their three notations.
use super::util::*;
use svd_rs::{BitRange, FieldInfo};

fn field_doc(kids: Vec<Xn>) -> String {
    let mut x = xmlw::to_xn(&gen::base_min(), &Style::default());
    let p = x.paths().into_iter().find(|p| x.at(p).tag == "field").unwrap();
    let f = x.at_mut(&p);
    f.kids.retain(|k| k.tag == "name");
    f.kids.extend(kids);
    xmlw::write(&x, &Style::default()).0
}
fn the_field(d: &svd::Device) -> &FieldInfo {
    d.peripherals[0].registers().next().unwrap().fields().next().unwrap()
}
/// what the library says about the only field of the document
#[derive(Debug, PartialEq, Eq, Hash, Clone)]
struct Said {
    offset: u32,
    width: u32,
    lsb: u32,
    msb: u32,
    lsb2: u32,
    msb2: u32,
    text: String,
    kind: u8,
}
fn kind(b: &BitRange) -> u8 {
    match b.range_type {
        svd::BitRangeType::BitRange => 0,
        svd::BitRangeType::OffsetWidth => 1,
        svd::BitRangeType::MsbLsb => 2,
    }
}
fn said(f: &FieldInfo) -> Said {
    let b = f.bit_range;
    Said { offset: f.bit_offset(), width: f.bit_width(), lsb: b.lsb(), msb: b.msb(), lsb2: f.lsb(), msb2: f.msb(), text: b.bit_range(), kind: kind(&b) }
}
fn should(lsb: u64, width: u64, kind: u8) -> Said {
    let (l, m) = (lsb as u32, (lsb + width - 1) as u32);
    Said { offset: l, width: width as u32, lsb: l, msb: m, lsb2: l, msb2: m, text: format!("[{m}:{l}]"), kind }
}
/// `[digits:digits]`, no sign, both and the width within 32 bits, not reversed
pub fn bit_range_text(s: &str) -> Option<(u32, u32)> {
    let t = s.strip_prefix('[')?.strip_suffix(']')?;
    let (m, l) = t.split_once(':')?;
    let num = |s: &str| -> Option<u64> {
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let t = s.trim_start_matches('0');
        if t.len() > 10 {
            return None;
        }
        let v: u64 = if t.is_empty() { 0 } else { t.parse().unwrap() };
        (v <= u32::MAX as u64).then_some(v)
    };
    let (m, l) = (num(m)?, num(l)?);
    if l > m || m - l + 1 > u32::MAX as u64 {
        return None;
    }
    Some((l as u32, (m - l + 1) as u32))
}
const EDGE: &[u64] = &[100, 127, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffe, 0xffff_ffff];

fn text_case(c: &mut Ctx, s: &str) -> Res {
    if !c.state(s) {
        return Res::Skip;
    }
    c.sample = c.want_sample.then(|| s.to_string());
    c.execs += 2;
    // the document: surrounding white space does not count
    let xml = field_doc(vec![Xn::leaf("bitRange", s)]);
    let want = bit_range_text(s.trim());
    match (want, parse(&xml, &pcfg(1, false, false, false))) {
        (None, Out::Err(_)) => {}
        (Some((o, w)), Out::Ok(d)) => match sut(|| said(the_field(&d))) {
            Ok(got) if got == should(o as u64, w as u64, 0) => {}
            Ok(got) => return fail("bitRange misread", format!("{s:?}: {got:?}"), xml),
            Err(e) => return fail("bitRange: panic", e, xml),
        },
        (w, o) => return fail(format!("bitRange text: {}", o.kind()), format!("{s:?}, expected {w:?}: {}", o.why()), xml),
    }
    // the text constructor and deserialisation take the text as it is
    let want = bit_range_text(s);
    match sut(|| BitRange::from_bit_range(s)) {
        Err(e) => return fail("from_bit_range: panic", e, s),
        Ok(b) => {
            let got = b.map(|b| (b.offset, b.width, kind(&b)));
            if got != want.map(|(o, w)| (o, w, 0)) {
                return fail("from_bit_range", format!("{s:?}: {got:?}, expected {want:?}"), s);
            }
        }
    }
    let j = serde_json::json!({ "bitRange": s }).to_string();
    match sut(|| serde_json::from_str::<BitRange>(&j)) {
        Err(e) => return fail("deserialise: panic", e, j),
        Ok(b) => {
            let got = b.ok().map(|b| (b.offset, b.width, kind(&b)));
            if got != want.map(|(o, w)| (o, w, 0)) {
                return fail("deserialise bitRange", format!("{got:?}, expected {want:?}"), j);
            }
        }
    }
    hres(want)
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let top = if q { 66 } else { 130 };
    let grid: Vec<u64> = (0..=top).chain(EDGE.iter().copied().filter(|e| *e > top)).collect();
    let g = grid.clone();
    v.push(space("positions in the three notations", format!("offsets and widths in 0..={top} and {EDGE:?}, three notations: document, accessors, encoder, JSON"), move |c| {
        let (o, w, k) = (*c.pick(&g), *c.pick(&g), c.choose(3) as u8);
        let end = o + w; // exclusive
        if w == 0 && k != 1 || end > 1 << 32 {
            return Res::Skip;
        }
        c.state(&(o, w, k));
        let kids = match k {
            0 => vec![Xn::leaf("bitRange", format!("[{}:{o}]", end - 1))],
            1 => vec![Xn::leaf("bitOffset", o.to_string()), Xn::leaf("bitWidth", w.to_string())],
            _ => vec![Xn::leaf("msb", (end - 1).to_string()), Xn::leaf("lsb", o.to_string())],
        };
        let xml = field_doc(kids);
        c.sample = c.want_sample.then(|| xml.clone());
        c.execs += 3;
        // the only position a field may not have
        let lvl1 = parse(&xml, &pcfg(1, false, false, false));
        if w == 0 {
            return match lvl1 {
                Out::Err(_) => Res::Ok(0),
                o => fail("zero width accepted", o.why().to_string(), xml),
            };
        }
        let d = match lvl1 {
            Out::Ok(d) => d,
            o => return fail(format!("{} for a position", o.kind()), o.why().to_string(), xml),
        };
        if w == 1 << 32 {
            return Res::Skip;
        }
        match sut(|| said(the_field(&d))) {
            Ok(s) if s == should(o, w, k) => {}
            Ok(s) => return fail("position misread", format!("{s:?}, expected {:?}", should(o, w, k)), xml),
            Err(e) => return fail("position: panic", e, xml),
        }
        // written by the encoder
        match encode(&d, &svd_encoder::Config::default()) {
            Out::Ok(x2) => match parse(&x2, &pcfg(1, false, false, false)) {
                Out::Ok(d2) => {
                    let s = said(the_field(&d2));
                    if s != should(o, w, k) {
                        return fail("position changed by the encoder", format!("{s:?}"), x2);
                    }
                }
                e => return fail("encoded position unreadable", e.why().to_string(), x2),
            },
            e => return fail("encoder fails on a position", e.why().to_string(), xml),
        }
        let b = the_field(&d).bit_range;
        let r = sut(|| {
            let j = serde_json::to_string(&b).map_err(|e| e.to_string())?;
            let b2: BitRange = serde_json::from_str(&j).map_err(|e| format!("{j}: {e}"))?;
            Ok::<_, String>((b2, j))
        });
        match r {
            Ok(Ok((b2, j))) => {
                let keys = match k {
                    0 => serde_json::json!({"bitRange": format!("[{}:{o}]", end - 1)}),
                    1 => serde_json::json!({"bitOffset": o, "bitWidth": w}),
                    _ => serde_json::json!({"lsb": o, "msb": end - 1}),
                };
                if b2 != b || serde_json::from_str::<serde_json::Value>(&j).ok() != Some(keys) {
                    return fail("position changed by JSON", format!("{b:?} {j} {b2:?}"), j);
                }
            }
            Ok(Err(e)) | Err(e) => return fail("position through JSON", e, xml),
        }
        hres((o, w, k))
    }));
    let g = grid.clone();
    v.push(space("lsb and msb in any relation", "all pairs of the same grid as lsb and msb, in the document, in JSON and through the constructor", move |c| {
        let (l, m) = (*c.pick(&g), *c.pick(&g));
        c.state(&(l, m));
        let ok = l <= m && m - l + 1 <= u32::MAX as u64;
        let xml = field_doc(vec![Xn::leaf("lsb", l.to_string()), Xn::leaf("msb", m.to_string())]);
        c.execs += 1;
        match parse(&xml, &pcfg(0, false, false, false)) {
            Out::Ok(d) if ok => {
                let s = said(the_field(&d));
                if s != should(l, m - l + 1, 2) {
                    return fail("lsb/msb misread", format!("{s:?}"), xml);
                }
            }
            Out::Err(_) if !ok => {}
            o => return fail(format!("lsb/msb: {}", o.kind()), o.why().to_string(), xml),
        }
        let j = serde_json::json!({"lsb": l, "msb": m}).to_string();
        let r = match sut(|| serde_json::from_str::<BitRange>(&j)) {
            Ok(r) => r.ok().map(|b| (b.offset as u64, b.width as u64, kind(&b))),
            Err(e) => return fail("JSON lsb/msb: panic", e, j),
        };
        if r != ok.then(|| (l, m - l + 1, 2)) {
            return fail("JSON lsb/msb", format!("{r:?}"), j);
        }
        if ok {
            let b = BitRange::from_msb_lsb(m as u32, l as u32);
            if (b.offset as u64, b.width as u64, kind(&b)) != (l, m - l + 1, 2) {
                return fail("from_msb_lsb", format!("{b:?}"), format!("{l} {m}"));
            }
            let t = b.bit_range();
            if BitRange::from_bit_range(&t).map(|x| (x.offset, x.width, kind(&x))) != Some((b.offset, b.width, 0)) {
                return fail("bit_range text does not read back", t.clone(), t);
            }
        }
        hres((l, m, ok))
    }));
    let n = if q { 6 } else { 7 };
    let toks = ["[", "]", ":", "0", "1", "9", " ", "-", "x"];
    v.push(space("bitRange texts", format!("all strings of at most {n} tokens over {toks:?}"), move |c| {
        let s = token_string(c, &toks, n);
        text_case(c, &s)
    }));
    let n2 = if q { 5 } else { 6 };
    let toks2 = ["4294967295", "4294967296", "99999999999999999999", "4294967294", "0", "31", "07"];
    v.push(space("bitRange texts with big numbers", format!("[A:B] with A, B out of {toks2:?} and up to {n2} leading zeros, with and without each delimiter, doubled delimiters"), move |c| {
        let a = format!("{}{}", "0".repeat(c.choose(n2)), c.pick(&toks2));
        let b = format!("{}{}", "0".repeat(c.choose(n2)), c.pick(&toks2));
        let s = match c.choose(12) {
            0 => format!("[{a}:{b}]"),
            1 => format!("{a}:{b}]"),
            2 => format!("[{a}:{b}"),
            3 => format!("[{a}{b}]"),
            4 => format!("[[{a}:{b}]]"),
            5 => format!("[{a}::{b}]"),
            6 => format!("[{a}:{b}:{b}]"),
            7 => format!(" [{a}:{b}] "),
            8 => format!("[{a} :{b}]"),
            9 => format!("[{a}: {b}]"),
            10 => format!("[0x{a}:{b}]"),
            _ => format!("({a}:{b})"),
        };
        text_case(c, &s)
    }));
    // builder sequences
    let depth = if q { 5 } else { 6 };
    let start = ["empty", "bitRange", "offsetWidth", "msbLsb"];
    v.push(space("builder setter sequences", format!("all sequences of at most {depth} of 9 bit setters, from an empty builder and from fields in each notation, then build; and the same sequence applied to an existing field"), move |c| {
        #[derive(Clone, Copy)]
        enum Op {
            Off(u32),
            Wid(u32),
            Rng(u32, u32, u8),
        }
        const OPS: [Op; 9] = [
            Op::Off(0),
            Op::Off(3),
            Op::Off(40),
            Op::Wid(1),
            Op::Wid(5),
            Op::Wid(0),
            Op::Rng(2, 7, 0),
            Op::Rng(8, 9, 1),
            Op::Rng(6, 4, 2),
        ];
        let s = c.choose(start.len());
        let mut ops = vec![];
        for _ in 0..depth {
            let k = c.choose(OPS.len() + 1);
            if k == 0 {
                break;
            }
            ops.push(k - 1);
        }
        c.state(&(s, &ops));
        let show = format!("start {} then {}", start[s], ops.iter().map(|o| match OPS[*o] {
            Op::Off(x) => format!("bit_offset({x})"),
            Op::Wid(x) => format!("bit_width({x})"),
            Op::Rng(o, w, k) => format!("bit_range({o}+{w} notation {k})"),
        }).collect::<Vec<_>>().join(", "));
        c.sample = c.want_sample.then(|| show.clone());
        let base = FieldInfo::builder().name("F".into()).bit_range(bridge::bit_range(10, 11, 0)).build(ValidateLevel::Weak).unwrap();
        let orig = |k: usize| bridge::bit_range(10, 11, [0u8, 0, 1, 2][k]);
        let (mut off, mut wid, mut ty) = if s == 0 { (None, None, None) } else { (Some(10), Some(11), Some([0u8, 0, 1, 2][s])) };
        for o in &ops {
            match OPS[*o] {
                Op::Off(x) => off = Some(x),
                Op::Wid(x) => wid = Some(x),
                Op::Rng(o, w, k) => {
                    off = Some(o);
                    wid = Some(w);
                    ty = Some(k);
                }
            }
        }
        let mk = |mut b: svd::FieldInfoBuilder| {
            for o in &ops {
                b = match OPS[*o] {
                    Op::Off(x) => b.bit_offset(x),
                    Op::Wid(x) => b.bit_width(x),
                    Op::Rng(o, w, k) => b.bit_range(bridge::bit_range(o, w, k)),
                };
            }
            b
        };
        let from = |k: usize| {
            let mut f = base.clone();
            f.bit_range = orig(k);
            f
        };
        let first = if s == 0 { FieldInfo::builder().name("F".into()) } else { svd::FieldInfoBuilder::from(from(s)) };
        let want = match (off, wid) {
            (Some(o), Some(w)) => Some((o, w, ty.unwrap_or(1))),
            _ => None,
        };
        let got = match sut(|| mk(first).build(ValidateLevel::Disabled).ok().map(|f| (f.bit_range.offset, f.bit_range.width, kind(&f.bit_range)))) {
            Ok(g) => g,
            Err(e) => return fail("builder: panic", e, show),
        };
        if got != want {
            return fail("builder bits", format!("{got:?}, expected {want:?}"), show);
        }
        // the validated build rejects a zero width and nothing else
        if let Some((_, w, _)) = want {
            let first = if s == 0 { FieldInfo::builder().name("F".into()) } else { svd::FieldInfoBuilder::from(from(s)) };
            if mk(first).build(ValidateLevel::Weak).is_ok() != (w != 0) {
                return fail("builder: width check", format!("{want:?}"), show);
            }
        }
        // applied to an existing field
        for k in 1..4 {
            c.execs += 1;
            let mut f = from(k);
            if s != 0 {
                break;
            }
            let (mut off, mut wid, mut ty) = (None, None, None);
            for o in &ops {
                match OPS[*o] {
                    Op::Off(x) => off = Some(x),
                    Op::Wid(x) => wid = Some(x),
                    Op::Rng(o, w, k) => {
                        off = Some(o);
                        wid = Some(w);
                        ty = Some(k);
                    }
                }
            }
            let was = orig(k);
            let both = off.is_some() && wid.is_some();
            let want = (off.unwrap_or(was.offset), wid.unwrap_or(was.width), ty.unwrap_or(if both { 1 } else { kind(&was) }));
            let r = match sut(|| f.modify_from(mk(FieldInfo::builder()), ValidateLevel::Weak)) {
                Ok(r) => r,
                Err(e) => return fail("modify: panic", e, show),
            };
            if r.is_ok() != (want.1 != 0) {
                return fail("modify: width check", format!("{want:?} {r:?}"), show);
            }
            let got = (f.bit_range.offset, f.bit_range.width, kind(&f.bit_range));
            if got != want {
                return fail("modify bits", format!("{got:?}, expected {want:?}"), show);
            }
        }
        hres((got, s))
    }));
    v.push(space("incomplete positions", "all subsets of bitRange, lsb, msb, bitOffset, bitWidth that do not name a whole position; broken values in one of them", move |c| {
        let tags = ["bitRange", "lsb", "msb", "bitOffset", "bitWidth"];
        let kids: Vec<Xn> = match c.choose(2) {
            0 => [vec![], vec!["lsb"], vec!["msb"], vec!["bitWidth"], vec!["lsb", "bitWidth"], vec!["msb", "bitWidth"], vec!["lsb", "bitOffset"]][c.choose(7)].iter().map(|t| Xn::leaf(t, "1")).collect(),
            _ => {
                let (set, bad) = [(vec![0], 0), (vec![1, 2], 1), (vec![1, 2], 2), (vec![3, 4], 3), (vec![3, 4], 4)][c.choose(5)].clone();
                let junk = ["", " ", "x", "-1", "4294967296", "0x", "1.5", "[1:0", "[0:1]", "[]", "[:]", "[1:]", "[:0]"][c.choose(13)];
                set.iter().map(|i: &usize| Xn::leaf(tags[*i], if *i == bad { junk } else { "1" })).collect()
            }
        };
        let xml = field_doc(kids);
        c.state(&xml);
        match parse(&xml, &pcfg(0, false, false, false)) {
            Out::Err(e) => hres(e),
            o => fail(format!("{} for an incomplete position", o.kind()), o.why().to_string(), xml),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C04",
    spaces,
    rule: "a case is one position (or text, or call sequence); interval arithmetic on 64-bit integers says what it denotes",
    assumptions: &["bitOffset with bitWidth reaching beyond bit 2^32-1, several notations in one field and bitOffset without bitWidth are outside the space", "BitRange::from_msb_lsb is only called with lsb <= msb"],
};
