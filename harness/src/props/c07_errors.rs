//! C07: errors say where the document is wrong.
use super::util::*;

const OBJ: [&str; 7] = ["device", "cpu", "peripheral", "interrupt", "cluster", "register", "field"];
const NAMED: [&str; 4] = ["device", "peripheral", "register", "field"];
fn name_of(x: &Xn) -> Option<&str> {
    x.kids.iter().find(|k| k.tag == "name").and_then(|k| k.text.as_deref()).map(|t| t.trim()).filter(|t| !t.is_empty())
}
/// the parts of a message in which an element is named
fn quoted(m: &str) -> Vec<String> {
    m.split('`').skip(1).step_by(2).map(|s| s.trim().to_string()).collect()
}
fn position(m: &str) -> Option<(u32, u32)> {
    let i = m.rfind("at ")?;
    let (a, b) = m[i + 3..].trim().split_once(':')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
/// `fault`: path of the changed element (of the parent when the element was taken away)
fn check(c: &mut Ctx, x: &Xn, fault: &[usize], st: &Style, lvl: usize) -> Res {
    if !c.state(&(x, st, lvl)) {
        return Res::Skip;
    }
    let (s, pos) = xmlw::write(x, st);
    let r = match sut(|| svd_parser::parse_with_config(&s, &pcfg(lvl, false, false, false)).map(|_| ()).map_err(|e| e.chain().map(|e| e.to_string()).collect::<Vec<_>>())) {
        Ok(r) => r,
        Err(p) => return fail("panic", p, s),
    };
    let Err(chain) = r else { return hres("ok") };
    if c.want_sample {
        c.sample = Some(format!("{}\n--- {}", s, chain.join("\n--- ")));
    }
    let text = chain.join(" / ");
    let at: Vec<(u32, u32)> = chain.iter().filter_map(|m| position(m)).collect();
    let [at] = at.as_slice() else { return fail("no single position", text, s) };
    let Some((path, ..)) = pos.iter().find(|p| (p.1, p.2) == *at) else {
        return fail("position is not the start of an element", format!("{at:?}: {text}"), s);
    };
    let show = |p: &[usize]| {
        let mut e = x;
        let mut o = e.tag.clone();
        for i in p {
            e = &e.kids[*i];
            o.push('/');
            o.push_str(&e.tag);
        }
        o
    };
    // nearest enclosing object of the fault (or the fault itself)
    let mut obj = fault.to_vec();
    while !OBJ.contains(&x.at(&obj).tag.as_str()) && !obj.is_empty() {
        obj.pop();
    }
    // taking something away from or adding something to an object is a fault of the object; its container may report it
    if obj == fault && !obj.is_empty() {
        obj.pop();
        while !OBJ.contains(&x.at(&obj).tag.as_str()) && !obj.is_empty() {
            obj.pop();
        }
    }
    if !path.starts_with(&obj) {
        return fail(format!("blames {} for {}", x.at(path).tag, show(fault)), format!("position {at:?} is {}, the fault is in {}: {text}", show(path), show(fault)), s);
    }
    // inside the fault or above it: what is reported is the fault, part of it, or what holds it
    if !(fault.starts_with(path) || path.starts_with(fault)) {
        return fail(format!("blames a sibling {} for {}", x.at(path).tag, show(fault)), format!("position {at:?} is {}, the fault is in {}: {text}", show(path), show(fault)), s);
    }
    // the enclosing elements are named, and no others
    let mut want = vec![];
    let mut allowed = vec![];
    for n in 0..=path.len() {
        let e = x.at(&path[..n]);
        if let Some(nm) = name_of(e) {
            allowed.push(nm.to_string());
            // the element itself, and what encloses it
            if n == path.len() || NAMED.contains(&e.tag.as_str()) {
                want.push(nm.to_string());
            }
        }
    }
    // the last message is the reason; the ones before give the place
    let place: Vec<String> = chain[..chain.len() - 1].iter().flat_map(|m| quoted(m)).filter(|n| !n.is_empty()).collect();
    for w in &want {
        if !place.contains(w) {
            return fail("enclosing element not named", format!("`{w}` is missing from: {text}"), s);
        }
    }
    for p in &place {
        if !allowed.contains(p) {
            return fail("other element named", format!("`{p}` does not enclose {}: {text}", show(path)), s);
        }
    }
    hres((at, chain))
}
const BAD: &[&str] = &["@bad@", "", "4294967295", "0", "18446744073709551616", "a b", "[1:2]"];
fn faulty(c: &mut Ctx, x: &Xn, paths: &[Vec<usize>], some: bool) -> Option<(Xn, Vec<usize>)> {
    let p = &paths[c.choose(paths.len())];
    let mut y = x.clone();
    let mut fault = p.clone();
    match c.choose(if some { 4 } else { 6 }) {
        0 => {
            if p.is_empty() {
                return None;
            }
            y.at_mut(&p[..p.len() - 1]).kids.remove(p[p.len() - 1]);
            fault.pop();
        }
        1 => {
            if p.is_empty() {
                return None;
            }
            y.at_mut(p).tag = "junk".into();
        }
        2 => {
            if x.at(p).text.is_none() {
                return None;
            }
            y.at_mut(p).text = Some(c.pick(BAD).to_string());
            if x.at(p).tag == "name" {
                fault.pop();
            }
        }
        3 => {
            let e = y.at_mut(p);
            let i = e.kids.len();
            e.kids.push(Xn::leaf("junk", "1"));
            fault.push(i);
        }
        4 => {
            let e = y.at_mut(p);
            e.attrs.retain(|a| a.0 != "derivedFrom");
            e.attrs.push(("derivedFrom".into(), "1 x".into()));
        }
        _ => {
            let e = y.at_mut(p);
            if e.kids.is_empty() {
                return None;
            }
            e.kids.clear();
        }
    }
    // a name that went missing is a fault of the element it named
    Some((y, fault))
}
/// names are unique over the whole document
fn unique(mut d: El) -> El {
    let mut n = 0;
    d.walk_mut(&mut |e| {
        n += 1;
        if let Some(V::S(s)) = e.f.get_mut("name") {
            *s = match s.find("%s").or(s.find('[')) {
                Some(_) => format!("u{n}_%s"),
                None => format!("u{n}"),
            };
        }
        e.f.remove("@derivedFrom");
        if e.k == K::Enums && e.list("values").is_empty() {
            *e = e.clone().kids("values", vec![ev("only", 0)]);
        }
        if let Some(V::S(s)) = e.f.get_mut("description") {
            *s = "\u{e9}\u{4e2d} text".into();
        }
    });
    d
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let d = unique(base_rich());
    assert_eq!(refm::validate(&d, 2), Ok(()));
    let x = Arc::new(xmlw::to_xn(&d, &Style::default()));
    let paths = Arc::new(x.paths());
    let (x1, p1) = (x.clone(), paths.clone());
    v.push(space("one fault in the rich document", format!("{} elements x (taken away, renamed, {} texts, junk child, bad reference, emptied) x 6 layouts x 3 levels", paths.len(), BAD.len()), move |c| {
        let Some((y, f)) = faulty(c, &x1, &p1, false) else { return Res::Skip };
        let st = match c.choose(6) {
            0 => Style { ws: 1, ..Default::default() },
            1 => Style { ws: 0, ..Default::default() },
            2 => Style { ws: 1, comments: true, ..Default::default() },
            3 => Style { ws: 2, ..Default::default() },
            4 => Style { ws: 1, bom: true, decl: true, ..Default::default() },
            _ => Style { ws: 0, comments: true, bom: true, ..Default::default() },
        };
        let lvl = c.choose(3);
        check(c, &y, &f, &st, lvl)
    }));
    // the fault at every place of nested blocks
    let n = if q { 4 } else { 6 };
    v.push(space("one fault anywhere in a forest", format!("all ordered forests of at most {n} registers/clusters, each register with two fields with values, in the second of three peripherals, one element faulty"), move |c| {
        let mut f = forest(c, n, false);
        if f.is_empty() {
            return Res::Skip;
        }
        for e in &mut f {
            e.walk_mut(&mut |e| {
                if e.k == K::Register {
                    e.c.insert("fields", vec![fld("F0", 0, 2).kids("enumeratedValues", vec![El::new(K::Enums).kid("values", ev("A", 1)).kid("values", ev("B", 2))]), fld("F1", 4, 1)]);
                }
            });
        }
        let d = unique(dev(vec![per("P0", 0, vec![reg("Z", 0)]), per("P1", 0x1000, f), per("P2", 0x2000, vec![reg("Z", 0)])]));
        let x = xmlw::to_xn(&d, &Style::default());
        let paths: Vec<_> = x.paths().into_iter().filter(|p| p.len() > 1).collect();
        let Some((y, f)) = faulty(c, &x, &paths, true) else { return Res::Skip };
        check(c, &y, &f, &Style { ws: 1, ..Default::default() }, 1)
    }));
    // a derived document space: a fault after an edit
    if !q {
        for k in MED {
            let s = DocSpace::new(base_med(k), FULL);
            v.push(space(format!("{} in full, one edit and one fault", k.tag()), format!("{} edits x all faults", s.n()), move |c| {
                let Some(d) = s.upto(c, 1) else { return Res::Skip };
                let d = unique(d);
                if refm::validate(&d, 2).is_err() || refm::arrays_ok(&d).is_err() {
                    return Res::Skip;
                }
                let x = xmlw::to_xn(&d, &Style::default());
                let paths = x.paths();
                let Some((y, f)) = faulty(c, &x, &paths, false) else { return Res::Skip };
                let lvl = 1 + c.choose(2);
                check(c, &y, &f, &Style { ws: 1, ..Default::default() }, lvl)
            }));
        }
    }
    let sz: Vec<usize> = if q { vec![2, 10, 12, 33, 101] } else { vec![2, 3, 9, 10, 11, 12, 20, 32, 33, 65, 101, 257, 1001] };
    v.push(space("one fault among many", format!("6 kinds of list x {} sizes up to {}, the fault in the first, second, middle or last", sz.len(), sz[sz.len() - 1]), move |c| {
        let k = *c.pick(&[0, 1, 2, 4, 5, 6]);
        let n = *c.pick(&sz);
        let mut d = crowd(k, n);
        if c.flag() {
            d = unique(d);
        }
        let at = *c.pick(&[0, 1, n / 2, n - 1]);
        let x = xmlw::to_xn(&d, &Style::default());
        let tag = ["peripheral", "register", "cluster", "", "field", "enumeratedValue", "interrupt"][k];
        let mut seen = 0;
        let mut root = vec![];
        for p in x.paths() {
            let e = x.at(&p);
            if e.tag == tag && (k == 0 || p.len() > 3) {
                if seen == at {
                    root = p;
                    break;
                }
                seen += 1;
            }
        }
        let paths: Vec<_> = x.paths().into_iter().filter(|p| !root.is_empty() && p.starts_with(&root)).collect();
        if paths.is_empty() {
            return Res::Skip;
        }
        let Some((y, f)) = faulty(c, &x, &paths, true) else { return Res::Skip };
        check(c, &y, &f, &Style { ws: 1, ..Default::default() }, 1)
    }));
    let m = if q { 1 } else { 2 };
    v.push(space("one fault next to the presence of parts", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, with every fault"), move |c| {
        let d = unique(host(subset(c, m)));
        if refm::validate(&d, 2).is_err() || refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        let x = xmlw::to_xn(&d, &Style::default());
        let paths = x.paths();
        let Some((y, f)) = faulty(c, &x, &paths, false) else { return Res::Skip };
        let lvl = 1 + c.choose(2);
        check(c, &y, &f, &Style { ws: 1, ..Default::default() }, lvl)
    }));
    v.push(space("one fault in other places", "registers, clusters, fields, value sets and values with one of their optional parts, or all but one, at 10 places, with every fault", move |c| {
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV]);
        let e = subset_of(c, k, 1);
        let d = unique(placed(c, e));
        if refm::validate(&d, 2).is_err() || refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        let x = xmlw::to_xn(&d, &Style::default());
        let paths: Vec<_> = x.paths().into_iter().filter(|p| p.len() > 2).collect();
        let Some((y, f)) = faulty(c, &x, &paths, true) else { return Res::Skip };
        check(c, &y, &f, &Style { ws: 1, ..Default::default() }, 1)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C07",
    spaces,
    rule: "each single fault of a valid document in which all names differ; positions come from the independent writer; the error chain is read through the error's public message texts",
    assumptions: &["the XML text itself is well-formed: errors of the XML tokenizer are its own"],
};
