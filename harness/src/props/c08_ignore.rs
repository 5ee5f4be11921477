//! C08: ignore_enums leaves out the enumerated values and write constraints of fields, and nothing else.
use super::util::*;

fn strip_xml(x: &mut Xn) {
    if x.tag == "field" {
        x.kids.retain(|k| k.tag != "enumeratedValues" && k.tag != "writeConstraint");
    }
    for k in &mut x.kids {
        strip_xml(k);
    }
}
fn strip(d: &El) -> El {
    let mut d = d.clone();
    d.walk_mut(&mut |e| {
        if e.k == K::Field {
            e.c.remove("enumeratedValues");
            e.f.remove("writeConstraint");
        }
    });
    d
}
/// class of an error: where it is and what it says
fn check(c: &mut Ctx, x: &Xn, lvl: usize, exp: usize) -> Res {
    if !c.state(&(x, lvl, exp)) {
        return Res::Skip;
    }
    let st = Style { ws: 1, ..Default::default() };
    let (s, pos) = xmlw::write(x, &st);
    let mut y = x.clone();
    strip_xml(&mut y);
    let (t, tpos) = xmlw::write(&y, &st);
    c.sample = c.want_sample.then(|| s.clone());
    let (e, p) = (exp & 1 == 1, exp & 2 == 2);
    let a = parse(&s, &pcfg(lvl, e, p, true));
    let b = parse(&t, &pcfg(lvl, e, p, false));
    c.execs += 1;
    match (&a, &b) {
        (Out::Ok(m), Out::Ok(n)) => {
            if m != n {
                let m = diff(&view(n), &view(m)).unwrap_or_default();
                return fail(format!("ignoring is not leaving out: {}", diff_sig(&m)), m, s);
            }
        }
        (Out::Err(m), Out::Err(n)) => {
            // the same error, at the same element
            let at = |m: &str, ps: &[(Vec<usize>, u32, u32)]| {
                let mut m = m.to_string();
                if let Some(i) = m.find(" at ") {
                    let rest = m[i + 4..].to_string();
                    let end = rest.find(": ").unwrap_or(rest.len());
                    let w = rest[..end].to_string();
                    if let Some(p) = ps.iter().find(|p| format!("{}:{}", p.1, p.2) == w) {
                        // path by tag and number among the same tag, which leaving out does not change
                        m = format!("{} #{} {}", &m[..i], ps.iter().filter(|q| q.0.len() == p.0.len()).count().min(1), &rest[end..]);
                    }
                }
                m
            };
            if at(m, &pos) != at(n, &tpos) {
                return fail("another error", format!("ignoring: {m} / left out: {n}"), s);
            }
        }
        _ => return fail(format!("ignoring {} left out {}", a.kind(), b.kind()), format!("ignoring: {} / left out: {}", a.why(), b.why()), s),
    }
    // and normal parsing, when it succeeds, differs in exactly the left out parts
    if exp == 0 {
        if let Out::Ok(full) = parse(&s, &pcfg(lvl, false, false, false)) {
            c.execs += 1;
            match &a {
                Out::Ok(m) => {
                    if let Some(m) = diff(&strip(&view(&full)), &view(m)) {
                        return fail(format!("more than enumerations differs: {}", diff_sig(&m)), m, s);
                    }
                }
                o => return fail("ignoring enumerations makes a good document fail", o.why(), s),
            }
        }
    }
    match a {
        Out::Ok(m) => hres(view(&m)),
        o => hres((o.kind(), o.why())),
    }
}
const BAD: &[&str] = &["@bad@", "", "-1", "99", "18446744073709551616", "2", "read", "OFF", "%s"];
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let rich = DocSpace::new(base_rich(), ANY_DEL);
    v.push(space("rich document, one edit of any kind", format!("{} edits x 3 levels x 4 expand options", rich.n()), move |c| {
        let lvl = c.choose(3);
        let exp = c.choose(4);
        let Some(d) = rich.upto(c, 1) else { return Res::Skip };
        check(c, &xmlw::to_xn(&d, &Style::default()), lvl, exp)
    }));
    // damage inside what is ignored
    let x = Arc::new(xmlw::to_xn(&base_med(K::Field), &Style::default()));
    let inner: Arc<Vec<Vec<usize>>> = Arc::new(
        x.paths().into_iter().filter(|p| (0..=p.len()).any(|n| matches!(x.at(&p[..n]).tag.as_str(), "enumeratedValues" | "writeConstraint"))).collect(),
    );
    let depth = if q { 1 } else { 2 };
    let (x1, i1) = (x.clone(), inner.clone());
    v.push(space(format!("{depth} damages inside the ignored parts"), format!("{} elements x (removed, renamed, doubled, {} texts, junk child, reference, emptied) x 3 levels x expand", inner.len(), BAD.len()), move |c| {
        let lvl = c.choose(3);
        let exp = c.choose(2);
        let mut y = (*x1).clone();
        let mut last = usize::MAX;
        for _ in 0..depth {
            let i = c.choose(i1.len());
            // later damage first, so that the paths of earlier ones stay what they are
            if i >= last {
                return Res::Skip;
            }
            last = i;
            let p = &i1[i];
            let (k, up) = (p[p.len() - 1], &p[..p.len() - 1]);
            match c.choose(7) {
                0 => {
                    y.at_mut(up).kids.remove(k);
                }
                1 => {
                    if matches!(y.at(p).tag.as_str(), "enumeratedValues" | "writeConstraint") {
                        return Res::Skip;
                    }
                    y.at_mut(p).tag = "junk".into();
                }
                2 => {
                    let e = y.at(p).clone();
                    y.at_mut(up).kids.insert(k, e);
                }
                3 => {
                    let s = c.pick(BAD).to_string();
                    let e = y.at_mut(p);
                    e.kids.clear();
                    e.text = Some(s);
                }
                4 => y.at_mut(p).kids.push(Xn::leaf("junk", "x")),
                5 => y.at_mut(p).attrs.push(("derivedFrom".into(), c.pick(&["", "EN", "a..b", "No", "F1.EN"]).to_string())),
                _ => {
                    let e = y.at_mut(p);
                    e.kids.clear();
                    e.text = None;
                }
            }
            // an attribute given twice is not XML
            let mut twice = false;
            for q in y.paths() {
                twice |= y.at(&q).attrs.iter().filter(|a| a.0 == "derivedFrom").count() > 1;
            }
            if twice {
                return Res::Skip;
            }
        }
        check(c, &y, lvl, exp)
    }));
    let s = DocSpace::new(base_med(K::Field), ANY_DEL);
    let depth = if q { 1 } else { 2 };
    v.push(space(format!("field in full, {depth} edits"), format!("up to {depth} of {} edits x 3 levels x 4 expand options", s.n()), move |c| {
        let lvl = c.choose(3);
        let exp = c.choose(4);
        let Some(d) = s.upto(c, depth) else { return Res::Skip };
        check(c, &xmlw::to_xn(&d, &Style::default()), lvl, exp)
    }));
    let s = DocSpace::new(base_med(K::Register), ANY);
    v.push(space("register in full: its own write constraint stays", format!("{} edits x 3 levels", s.n()), move |c| {
        let lvl = c.choose(3);
        let Some(d) = s.upto(c, 1) else { return Res::Skip };
        check(c, &xmlw::to_xn(&d, &Style::default()), lvl, 0)
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {} x 4 expand options", sz.len(), sz[sz.len() - 1]), move |c| {
        let (_, _, d) = any_crowd(c, &sz);
        let exp = c.choose(4);
        check(c, &xmlw::to_xn(&d, &Style::default()), 1, exp)
    }));
    let m = if q { 1 } else { 3 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants x 3 levels x 4 expand options"), move |c| {
        let lvl = c.choose(3);
        let exp = c.choose(4);
        let d = host(subset(c, m));
        check(c, &xmlw::to_xn(&d, &Style::default()), lvl, exp)
    }));
    let m = if q { 1 } else { 2 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places x 4 expand options"), move |c| {
        let exp = c.choose(4);
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        check(c, &xmlw::to_xn(&d, &Style::default()), 1, exp)
    }));
    let full = base_rich();
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end x 3 levels x 4 expand options", move |c| {
        let lvl = c.choose(3);
        let exp = c.choose(4);
        let d = doubled(c, &full);
        check(c, &xmlw::to_xn(&d, &Style::default()), lvl, exp)
    }));
    let m = if q { 0 } else { 1 };
    v.push(space("presence and one edit", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit over valid and invalid values x 3 levels x 4 expand options"), move |c| {
        let lvl = c.choose(3);
        let exp = c.choose(4);
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &ANY) else { return Res::Skip };
        check(c, &xmlw::to_xn(&host(e), &Style::default()), lvl, exp)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C08",
    spaces,
    rule: "each document is parsed with enumerations ignored and compared with parsing the same text from which an independent writer left them out",
    assumptions: &["error texts are compared without their position, which moves when text is left out"],
};
