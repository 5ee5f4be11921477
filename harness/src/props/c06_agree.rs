//! C06: the ways of validating agree.
use super::util::*;

fn doc(c: &mut Ctx, d: &El) -> Res {
    if !c.state(d) {
        return Res::Skip;
    }
    let x = xmlw::xml(d, &Style::default());
    c.sample = c.want_sample.then(|| x.clone());
    let free = parse(&x, &pcfg(0, false, false, false));
    if let Out::Panic(p) = &free {
        return fail("parse: panic", p.clone(), x);
    }
    let mut seen = vec![];
    for lvl in 1..3 {
        c.execs += 1;
        let a = parse(&x, &pcfg(lvl, false, false, false));
        let b = match &free {
            Out::Ok(dev) => attempt(|| dev.validate_all(LEVELS[lvl]).map(|_| dev.clone())),
            o => o.clone(),
        };
        match (&a, &b) {
            (Out::Ok(p), Out::Ok(q)) => {
                if p != q {
                    return fail("the level changes the device", format!("{:?}", LEVELS[lvl]), x);
                }
            }
            (Out::Err(_), Out::Err(_)) => {}
            (Out::Err(e), Out::Ok(_)) if lvl == 2 && e.contains("must be initialized") => {
                // device elements which strict parsing requires and which get their defaults otherwise
                let m = ["version", "description", "addressUnitBits", "width"].iter().any(|t| !d.f.contains_key(t));
                if !m {
                    return fail("strict parsing misses something the document has", e.clone(), x);
                }
            }
            _ => {
                return fail(
                    format!("{:?}: parsing {} validating {}", LEVELS[lvl], a.kind(), b.kind()),
                    format!("parse at level: {} / parse and validate_all: {}", a.why(), b.why()),
                    x,
                )
            }
        }
        seen.push(a.kind());
    }
    hres(seen)
}
fn strip_dai(d: &mut El) {
    // the values of an array enumeration are only seen by the parser
    d.walk_mut(&mut |e| {
        if e.k == K::DimArr {
            e.c.insert("values", vec![]);
        }
    });
}
/// every element of the document through its builder
fn parts(c: &mut Ctx, d: &El) -> Res {
    let mut res = None;
    let mut seen = vec![];
    let mut n = 0;
    d.walk(&mut vec![], &mut |e, _| {
        if res.is_some() {
            return;
        }
        for lvl in 1..3 {
            n += 1;
            let (l, z) = (LEVELS[lvl], LEVELS[0]);
            let s = |r: Result<(), svd::SvdError>| r.map_err(|e| e.to_string());
            let (a, b) = match e.k {
                K::Periph => (sut(|| s(mk_peripheral(e, l).map(|_| ()))), sut(|| s(mk_peripheral(e, z).and_then(|x| x.validate_all(l))))),
                K::Cluster => (sut(|| s(mk_cluster(e, l).map(|_| ()))), sut(|| s(mk_cluster(e, z).and_then(|x| x.validate_all(l))))),
                K::Register => (sut(|| s(mk_register(e, l).map(|_| ()))), sut(|| s(mk_register(e, z).and_then(|x| x.validate_all(l))))),
                K::Field => (sut(|| s(mk_field(e, l).map(|_| ()))), sut(|| s(mk_field(e, z).and_then(|x| x.validate_all(l))))),
                K::Enums => (sut(|| s(mk_enums(e, l).map(|_| ()))), sut(|| s(mk_enums(e, z).and_then(|x| x.validate_all(l))))),
                K::EnumV => (sut(|| s(mk_enumv(e, l).map(|_| ()))), sut(|| s(mk_enumv(e, z).and_then(|x| x.validate(l))))),
                K::Device => (
                    sut(|| s(build(e, l).map(|_| ()))),
                    sut(|| {
                        s(build(e, z).and_then(|x| {
                            if lvl == 2 && ["version", "description", "addressUnitBits", "width"].iter().any(|t| !e.f.contains_key(t)) {
                                return Err(svd::BuildError::Uninitialized("strict".into()).into());
                            }
                            x.validate_all(l)
                        }))
                    }),
                ),
                _ => continue,
            };
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if a.is_ok() != b.is_ok() {
                        res = Some(fail(format!("{} at {l:?}: build ok={} validate ok={}", e.k.tag(), a.is_ok(), b.is_ok()), format!("{a:?} / {b:?}"), e.brief()));
                        return;
                    }
                    seen.push(a.is_ok());
                }
                (a, b) => {
                    res = Some(fail(format!("{}: panic", e.k.tag()), format!("{a:?} {b:?}"), e.brief()));
                    return;
                }
            }
        }
    });
    c.execs += n;
    res.unwrap_or_else(|| hres(seen))
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let mut b = base_rich();
    strip_dai(&mut b);
    let rich = Arc::new(DocSpace::new(b, ANY));
    let r = rich.clone();
    v.push(space("rich document, one edit", format!("{} edits over valid and invalid values, weak and strict", r.n()), move |c| match r.upto(c, 1) {
        Some(mut d) => {
            strip_dai(&mut d);
            doc(c, &d)
        }
        None => Res::Skip,
    }));
    let r = rich.clone();
    v.push(space("rich document, one edit, every part through its builder", format!("{} edits, each element built and validated", r.n()), move |c| match r.upto(c, 1) {
        Some(mut d) => {
            strip_dai(&mut d);
            if !c.state(&d) {
                return Res::Skip;
            }
            parts(c, &d)
        }
        None => Res::Skip,
    }));
    let m = if q { 3 } else { 5 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants, weak and strict, parsed and through builders"), move |c| {
        let e = subset(c, m);
        let mut d = host(e);
        strip_dai(&mut d);
        match doc(c, &d) {
            Res::Ok(_) => parts(c, &d),
            r => r,
        }
    }));
    for k in MED {
        let s = Arc::new(DocSpace::new(base_med(k), ANY));
        let depth = if q && matches!(k, K::Device | K::Periph | K::Cluster) { 1 } else { 2 };
        let s1 = s.clone();
        v.push(space(format!("{} in full, {depth} edits", k.tag()), format!("up to {depth} of {} edits, weak and strict", s.n()), move |c| match s1.upto(c, depth) {
            Some(mut d) => {
                strip_dai(&mut d);
                doc(c, &d)
            }
            None => Res::Skip,
        }));
        if k != K::Device {
            v.push(space(format!("{} in full, {depth} edits, through builders", k.tag()), format!("up to {depth} of {} edits, weak and strict", s.n()), move |c| match s.upto(c, depth) {
                Some(mut d) => {
                    strip_dai(&mut d);
                    if !c.state(&d) {
                        return Res::Skip;
                    }
                    parts(c, &d)
                }
                None => Res::Skip,
            }));
        }
    }
    // one fault at every depth of nesting
    let n = if q { 4 } else { 6 };
    v.push(space("one invalid element anywhere in a forest", format!("all ordered forests of at most {n} registers/clusters, one of the elements broken in one of 5 ways or with a broken field or value, the peripheral and the clusters single or arrays"), move |c| {
        let mut f = forest(c, n, false);
        let mut n_el = 0;
        for x in &f {
            x.walk(&mut vec![], &mut |_, _| n_el += 1);
        }
        if n_el == 0 {
            return Res::Skip;
        }
        let target = c.choose(n_el);
        let how = c.choose(7);
        let arr = c.choose(3);
        let mut i = 0;
        for x in &mut f {
            x.walk_mut(&mut |e| {
                if i == target {
                    match how {
                        0 => {
                            e.f.insert("size", V::N(8));
                            e.f.insert("resetValue", V::N(256));
                        }
                        1 => {
                            e.f.insert("size", V::N(8));
                            e.f.insert("resetMask", V::N(256));
                        }
                        2 => {
                            e.f.insert("resetValue", V::N(2));
                            e.f.insert("resetMask", V::N(1));
                        }
                        3 => {
                            e.f.insert("@derivedFrom", V::s("a b"));
                        }
                        _ if e.k == K::Register => {
                            let mut x = fld("F", 0, 2);
                            match how {
                                4 => x = x.with("bits", V::BR(0, 0, 1)),
                                5 => x = x.with("writeConstraint", V::Range(2, 1)),
                                _ => x = x.kids("enumeratedValues", vec![El::new(K::Enums).kid("values", ev("A", 1)).kid("values", El::new(K::EnumV).st("name", "B"))]),
                            }
                            if arr == 2 {
                                x = x.arr(2, 4);
                                x.f.insert("name", V::s("F%s"));
                            }
                            e.c.insert("fields", vec![fld("G", 4, 1), x]);
                        }
                        4 => {
                            e.c.insert("children", vec![]);
                        }
                        _ => {
                            e.f.insert("resetValue", V::N(u64::MAX));
                            e.f.insert("size", V::N(63));
                        }
                    }
                }
                i += 1;
                if arr == 1 && e.k == K::Cluster || arr == 2 && e.k == K::Register {
                    let n = format!("{}_%s", e.name());
                    e.f.insert("name", V::S(n));
                    e.f.insert("dim", V::N(2));
                    e.f.insert("dimIncrement", V::N(4));
                }
            });
        }
        let mut p = per("PA", 0, f);
        if arr == 1 {
            p = p.arr(2, 0x1000);
            p.f.insert("name", V::s("PA%s"));
        }
        let mut d = dev(vec![per("P0", 0, vec![reg("R", 0)]), p]);
        tidy(&mut d);
        match doc(c, &d) {
            Res::Ok(_) => parts(c, &d),
            r => r,
        }
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}, one element of it in one of 4 places broken or none", sz.len(), sz[sz.len() - 1]), move |c| {
        let (k, n, mut d) = any_crowd(c, &sz);
        spoil(c, k, n, &mut d);
        strip_dai(&mut d);
        doc(c, &d)
    }));
    let m = if q { 0 } else { 1 };
    v.push(space("presence and one edit in other places", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit, at 10 places"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &ANY) else { return Res::Skip };
        let mut d = placed(c, e);
        strip_dai(&mut d);
        match doc(c, &d) {
            Res::Ok(_) => parts(c, &d),
            r => r,
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C06",
    spaces,
    rule: "differential: each document is validated while parsing and after parsing, each element while building and after building",
    assumptions: &["values of dimArrayIndex are only checked by the parser and are empty here", "device elements that strict parsing requires and weak parsing fills with defaults are compared only where present"],
};
