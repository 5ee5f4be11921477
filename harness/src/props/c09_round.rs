//! C09: what the encoder writes is read back as the same device.
use super::util::*;

fn no_empty_fields(d: &mut svd::Device) -> bool {
    fn rc(r: &mut svd::RegisterCluster, n: &mut bool) {
        match r {
            svd::RegisterCluster::Register(r) => {
                if r.fields.as_ref().is_some_and(|f| f.is_empty()) {
                    r.fields = None;
                    *n = true;
                }
            }
            svd::RegisterCluster::Cluster(c) => c.children.iter_mut().for_each(|x| rc(x, n)),
        }
    }
    let mut n = false;
    for p in &mut d.peripherals {
        for r in p.registers.iter_mut().flatten() {
            rc(r, &mut n);
        }
    }
    n
}
/// what XML can carry: white space around a text is not part of it, and a text of only white space is no text;
/// in attributes all white space is the same
fn blank(d: &El) -> bool {
    let mut b = false;
    d.walk(&mut vec![], &mut |e, _| {
        for (t, v) in &e.f {
            if let V::S(s) = v {
                b |= s.trim() != s || (s.is_empty() && !(e.k == K::Device && *t == "description"));
                b |= t.starts_with('@') && s.contains(['\t', '\n', '\r']);
            }
            // a bit range of no bits has no last bit
            if let V::BR(o, w, k) = v {
                b |= (*w == 0 && *k != 1) || *o as u64 + *w as u64 > 1 << 32;
            }
        }
    });
    b
}
fn round(c: &mut Ctx, dev: &svd::Device) -> Res {
    let xml = match encode(dev, &svd_encoder::Config::default()) {
        Out::Ok(x) => x,
        o => return fail(format!("encoding: {}", o.kind()), o.why(), view(dev).brief()),
    };
    c.sample = c.want_sample.then(|| xml.clone());
    let back = match parse(&xml, &pcfg(0, false, false, false)) {
        Out::Ok(d) => d,
        o => return fail(format!("not readable: {}", o.kind()), format!("{} / device {}", o.why(), view(dev).brief()), xml),
    };
    c.execs += 2;
    let mut want = dev.clone();
    no_empty_fields(&mut want);
    if let Some(m) = diff(&view(&want), &view(&back)) {
        return fail(format!("changed {}", diff_sig(&m)), m, xml);
    }
    if want != back {
        return fail("not equal", "views agree, == does not", xml);
    }
    // the short way to call it
    match attempt(|| svd_encoder::encode(&back)) {
        Out::Ok(x) if x == xml => hres(xml),
        Out::Ok(x) => fail("encoding again gives another text", x, xml),
        o => fail("encoding again fails", o.why(), xml),
    }
}
fn doc(c: &mut Ctx, d: &El, exp: bool) -> Res {
    if blank(d) || refm::arrays_ok(d).is_err() || !c.state(&(d, exp)) {
        return Res::Skip;
    }
    let dev = match attempt(|| build(&norm(d), LEVELS[0])) {
        Out::Ok(d) => d,
        o => return fail(format!("building: {}", o.kind()), o.why(), d.brief()),
    };
    if exp {
        return match expand(&dev) {
            Out::Ok(e) => round(c, &e),
            _ => Res::Skip,
        };
    }
    round(c, &dev)
}
const TEXT: &[&str] = &["a", " ", "\n", "\t", "\r", "<", ">", "&", "\"", "'", "]", "\u{85}", "\u{2028}", "\u{e9}", "\u{1f600}", "&amp;", "<![CDATA[", "]]>", "<!--", "%s", "\u{feff}", "{"];
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let rich = Arc::new(DocSpace::new(base_rich(), ANY));
    let r = rich.clone();
    v.push(space("rich document, one edit", format!("{} edits, as they are and expanded", rich.n()), move |c| {
        let exp = c.flag();
        let Some(d) = r.upto(c, 1) else { return Res::Skip };
        doc(c, &d, exp)
    }));
    for k in MED {
        let s = DocSpace::new(base_med(k), ANY);
        let depth = if q && k != K::Device { 1 } else { 2 };
        v.push(space(format!("{} in full, {depth} edits", k.tag()), format!("up to {depth} of {} edits", s.n()), move |c| {
            let Some(d) = s.upto(c, depth) else { return Res::Skip };
            doc(c, &d, false)
        }));
        let s = DocSpace::new(base_med(k), FULL);
        let depth = if q { 1 } else { 2 };
        v.push(space(format!("{} in full, {depth} edits, expanded", k.tag()), format!("up to {depth} of {} edits", s.n()), move |c| {
            let Some(d) = s.upto(c, depth) else { return Res::Skip };
            doc(c, &d, true)
        }));
    }
    let m = if q { 4 } else { 5 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants"), move |c| {
        let e = subset(c, m);
        doc(c, &host(e), false)
    }));
    v.push(space("presence of optional parts, expanded", format!("4 kinds of element with at most {} of their optional parts, or all but that many, in two variants, expanded", m - 1), move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field]);
        let e = subset_of(c, k, m - 1);
        doc(c, &host(e), true)
    }));
    // texts, in every place a text can be
    let base = norm(&base_rich());
    let mut places = vec![];
    base.walk(&mut vec![], &mut |e, p| {
        for (t, ty, _) in fields(e.k) {
            let text = matches!(ty, T::Text) || *t == "@derivedFrom" || *t == "@schemaVersion" || *t == "@xs:noNamespaceSchemaLocation";
            if text && e.f.contains_key(t) && !places.iter().any(|(q, u): &(Vec<(&'static str, usize)>, &str)| base.at(q).unwrap().k == e.k && u == t) {
                places.push((p.to_vec(), *t));
            }
        }
    });
    let places = Arc::new(places);
    let (b1, p1) = (Arc::new(base), places.clone());
    let n1 = if q { 2 } else { 3 };
    v.push(space("any text in every text place", format!("{} places x strings of at most {n1} of {} tokens", places.len(), TEXT.len()), move |c| {
        let (p, t) = c.pick(&p1).clone();
        let s = token_string(c, TEXT, n1);
        let mut d = (*b1).clone();
        let e = d.at_mut(&p).unwrap();
        if e.is_array() && t == "name" && !s.contains("%s") {
            return Res::Skip;
        }
        e.f.insert(t, V::S(s));
        doc(c, &d, false)
    }));
    let n2 = if q { 3 } else { 5 };
    v.push(space("longer texts", format!("a description and a license text of at most {n2} of {} tokens", TEXT.len()), move |c| {
        let s = token_string(c, TEXT, n2);
        let mut d = base_min();
        d.f.insert("licenseText", V::S(s.clone()));
        d.c.get_mut("peripherals").unwrap()[0].f.insert("description", V::S(s));
        doc(c, &d, false)
    }));
    // index lists
    let toks = ["0", "1", "2", "00", "01", "9", "10", "A", "B", "Z", "a", "x1", "_"];
    let n3 = if q { 3 } else { 4 };
    v.push(space("index lists", format!("all lists of 1..={n3} of {} index texts for each kind of array", toks.len()), move |c| {
        let k = c.choose(4);
        let n = 1 + c.choose(n3);
        let l: Vec<String> = (0..n).map(|_| c.pick(&toks).to_string()).collect();
        let set = |e: El| {
            let nm = format!("{}%s", e.name());
            e.st("name", &nm).arr(l.len() as u64, 4).with("dimIndex", V::L(l.clone()))
        };
        let f = fld("F", 0, 1);
        let f = if k == 0 { set(f) } else { f };
        let r = reg("R", 0).kids("fields", vec![f]);
        let r = if k == 1 { set(r) } else { r };
        let cl = clu("C", 0, vec![r]);
        let cl = if k == 2 { set(cl) } else { cl };
        let p = per("P", 0, vec![cl]);
        let p = if k == 3 { set(p) } else { p };
        doc(c, &dev(vec![p]), false)
    }));
    let max = if q { 5 } else { 8 };
    v.push(space("nesting and order of registers and clusters", format!("all ordered forests of at most {max} nodes"), move |c| {
        let f = forest(c, max, true);
        doc(c, &dev(vec![per("P", 0, f)]), false)
    }));
    if !q {
        let r = rich.clone();
        v.push(space("rich document, two edits", format!("all pairs of {} edits", rich.n()), move |c| {
            let Some(d) = r.pick(c, 2) else { return Res::Skip };
            doc(c, &d, false)
        }));
    }
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}, as they are and expanded", sz.len(), sz[sz.len() - 1]), move |c| {
        let exp = c.flag();
        let (_, _, d) = any_crowd(c, &sz);
        doc(c, &d, exp)
    }));
    let m = if t == Tier::Quick { 3 } else { 4 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places, as they are and expanded"), move |c| {
        let exp = c.flag();
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        doc(c, &d, exp)
    }));
    let full = norm(&base_rich());
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let exp = c.flag();
        let d = doubled(c, &full);
        doc(c, &d, exp)
    }));
    let m = if t == Tier::Quick { 1 } else { 2 };
    v.push(space("presence and one edit", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &ANY) else { return Res::Skip };
        let d = host(e);
        doc(c, &d, false)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C09",
    spaces,
    rule: "devices come from the builders without validation, and from expanding them; each is encoded, read back, compared field by field and by ==, and encoded again",
    assumptions: &["white space around a text, tabs and line ends in attributes, characters XML cannot carry and bit ranges without bits in a notation which names the last bit are outside the space", "an empty field list is written as no field list"],
};
