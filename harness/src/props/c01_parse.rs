//! C01: a document the format allows is read as exactly the device it describes.
use super::util::*;

pub fn style(c: &mut Ctx) -> Style {
    let mut st = Style { ws: 1, ..Default::default() };
    // one deviation from the plain style
    match c.choose(26) {
        0 => {}
        1 => st.num = 1,
        2 => st.num = 2,
        3 => st.num = 3,
        4 => st.num = 4,
        5 => st.num = 5,
        6 => st.bool01 = true,
        7 => st.ws = 0,
        8 => st.ws = 2,
        9 => st.comments = true,
        10 => st.reverse = true,
        11 => st.bom = true,
        12 => st.decl = true,
        13 => st.text = 1,
        14 => st.text = 2,
        15 => st.idx_range = true,
        16 => st.num = 6,
        17 => st.num = 7,
        18 => st.text = 3,
        19 => st.mix = true,
        20 => st.vendor = true,
        21 => st = Style { mix: true, vendor: true, text: 3, num: 6, ws: 0, comments: true, ..st },
        22 => st = Style { num: 1, bool01: true, ws: 2, comments: true, reverse: true, ..st },
        23 => st = Style { num: 2, ws: 0, bom: true, decl: true, text: 1, idx_range: true, ..st },
        24 => st = Style { num: 3, ws: 2, reverse: true, text: 2, idx_range: true, ..st },
        _ => st = Style { num: 4, bool01: true, ws: 0, comments: true, decl: true, ..st },
    }
    st
}
fn any_style(c: &mut Ctx) -> Style {
    Style {
        num: c.choose(8) as u8,
        bool01: c.flag(),
        ws: c.choose(3) as u8,
        comments: c.flag(),
        reverse: c.flag(),
        bom: c.flag(),
        decl: c.flag(),
        text: c.choose(4) as u8,
        idx_range: c.flag(),
        mix: c.flag(),
        vendor: c.flag(),
    }
}
/// The model decides what must come out; documents it calls invalid are left to C05.
pub fn check(c: &mut Ctx, d: &El, st: &Style) -> Res {
    if refm::arrays_ok(d).is_err() || refm::validate(d, 1).is_err() {
        return Res::Skip;
    }
    if !c.state(&(d, st)) {
        return Res::Skip;
    }
    let x = xmlw::xml(d, st);
    if c.want_sample {
        c.sample = Some(format!("{st:?}\n{x}"));
    }
    match parse(&x, &svd_parser::Config::default()) {
        Out::Ok(dev) => {
            let got = match sut(|| view(&dev)) {
                Ok(g) => g,
                Err(e) => return fail("view-panic", e, x),
            };
            if let Some(m) = diff(&norm(d), &got) {
                return fail(format!("misread {}", diff_sig(&m)), m, x);
            }
        }
        o => return fail(format!("{} on a valid document", o.kind()), o.why().to_string(), x),
    }
    // the short way to call it
    match attempt(|| svd_parser::parse(&x)) {
        Out::Ok(dev) => match diff(&norm(d), &view(&dev)) {
            None => hres(norm(d)),
            Some(m) => fail(format!("parse: misread {}", diff_sig(&m)), m, x),
        },
        o => fail(format!("parse: {} on a valid document", o.kind()), o.why().to_string(), x),
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let rich = Arc::new(DocSpace::new(base_rich(), FULL));
    let r = rich.clone();
    v.push(space("rich document, one edit, every style", format!("{} edits x 26 writing styles", r.n()), move |c| {
        let Some(d) = r.upto(c, 1) else { return Res::Skip };
        let st = style(c);
        check(c, &d, &st)
    }));
    let r = rich.clone();
    v.push(space("every combination of style choices", "the rich document in 8*2*3*2*2*2*2*4*2*2*2 ways", move |c| {
        let st = any_style(c);
        check(c, &r.base, &st)
    }));
    for k in MED {
        let s = DocSpace::new(base_med(k), FULL);
        let depth = if t == Tier::Quick { 2 } else { 3 };
        v.push(space(format!("{} in full, {depth} edits", k.tag()), format!("up to {depth} of {} edits", s.n()), move |c| {
            let Some(d) = s.upto(c, depth) else { return Res::Skip };
            check(c, &d, &Style { ws: 1, ..Default::default() })
        }));
    }
    let m = if t == Tier::Quick { 4 } else { 6 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants"), move |c| {
        let e = subset(c, m);
        check(c, &host(e), &Style { ws: 1, ..Default::default() })
    }));
    let max = if t == Tier::Quick { 5 } else { 8 };
    v.push(space("nesting and order of registers and clusters", format!("all ordered forests of at most {max} registers/clusters"), move |c| {
        let f = forest(c, max, true);
        let reverse = c.flag();
        let d = dev(vec![per("PA", 0x4000_0000, f)]);
        check(c, &d, &Style { ws: 1, reverse, ..Default::default() })
    }));
    if t == Tier::Thorough {
        let r = rich.clone();
        v.push(space("rich document, two edits", format!("all pairs of {} edits", r.n()), move |c| {
            let Some(d) = r.pick(c, 2) else { return Res::Skip };
            check(c, &d, &Style { ws: 1, num: 1, ..Default::default() })
        }));
    }
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}", sz.len(), sz[sz.len() - 1]), move |c| {
        let (_, _, d) = any_crowd(c, &sz);
        check(c, &d, &Style { ws: 1, ..Default::default() })
    }));
    let m = if t == Tier::Quick { 3 } else { 4 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        check(c, &d, &Style { ws: 1, ..Default::default() })
    }));
    let full = norm(&base_rich());
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let d = doubled(c, &full);
        check(c, &d, &Style { ws: 1, ..Default::default() })
    }));
    let m = if t == Tier::Quick { 1 } else { 2 };
    v.push(space("presence and one edit", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &FULL) else { return Res::Skip };
        let d = host(e);
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        check(c, &d, &Style { ws: 1, ..Default::default() })
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C01",
    spaces,
    rule: "documents are generated from a base document by sequences of edits of a reference tree and written by an independent XML writer in different styles; a case counts when the reference rules call the document valid",
    assumptions: &["the XML tokenizer (roxmltree) is trusted", "comments inside text content, numbers with a k/m/g suffix and foreign namespaces are outside the space"],
};
