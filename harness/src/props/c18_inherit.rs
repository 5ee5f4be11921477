//! C18: inherited register properties.
use super::util::*;

fn check(c: &mut Ctx, d: &El, xml: bool) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    if !c.state(&d) {
        return Res::Skip;
    }
    let n = norm(&d);
    let mut device = match device_of(&d, xml) {
        Ok(d) => d,
        Err(r) => return r,
    };
    let want = refm::expand_properties(&n);
    if let Err(p) = sut(|| svd_parser::expand_properties(&mut device)) {
        return fail("panic", p, d.brief());
    }
    c.execs += 1;
    c.sample = c.want_sample.then(|| d.brief());
    let got = view(&device);
    if let Some(m) = diff(&want, &got) {
        return fail(format!("properties differ: {}", diff_sig(&m)), m, d.brief());
    }
    if xml {
        let x = xmlw::xml(&d, &Style::default());
        match parse(&x, &pcfg(0, false, true, false)) {
            Out::Ok(g) => {
                if let Some(m) = diff(&want, &view(&g)) {
                    return fail(format!("by option: {}", diff_sig(&m)), m, x);
                }
            }
            o => return fail(format!("by option: {}", o.kind()), o.why(), x),
        }
        c.execs += 1;
    }
    hres(&got)
}
fn val(t: &str, who: u64) -> V {
    match t {
        "access" => V::s(ACCESS[who as usize % 5]),
        "protection" => V::s(PROT[who as usize % 3]),
        "size" => V::N(8 * (who + 1)),
        _ => V::N(who + 1),
    }
}
/// device, peripheral, `n` nested clusters, register; `at(level, property)` says what is stated where
fn nest(n: usize, at: &dyn Fn(usize, &str) -> bool, derived: Option<usize>) -> El {
    let put = |mut e: El, lvl: usize| {
        for t in PROPS {
            if at(lvl, t) {
                e.f.insert(t, val(t, lvl as u64));
            }
        }
        if derived == Some(lvl) && lvl > 0 {
            e.f.insert("@derivedFrom", V::s("OTHER"));
        }
        e
    };
    // a plain sibling after it shows that nothing leaks sideways
    let mut inner = vec![put(reg("R", 0), n + 2), reg("S", 4)];
    for i in (0..n).rev() {
        inner = vec![put(clu(&format!("C{i}"), 0, inner), i + 2), reg(&format!("S{i}"), 8)];
    }
    let p = put(per("P", 0, inner), 1);
    put(dev(vec![p, per("Q", 0x100, vec![reg("T", 0)])]), 0)
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("pairs of properties", "pairs of properties x every subset of device, peripheral, 0 to 3 nested clusters and register stating each; no or any level derived", move |c| {
        let n = c.choose(4);
        let (i, j) = (c.choose(5), c.choose(5));
        if j <= i {
            return Res::Skip;
        }
        let a = c.choose(1 << (n + 3));
        let b = c.choose(1 << (n + 3));
        let der = c.choose(n + 3);
        let d = nest(n, &|l, t| (t == PROPS[i] && a >> l & 1 == 1) || (t == PROPS[j] && b >> l & 1 == 1), (der > 0).then_some(der));
        check(c, &d, false)
    }));
    v.push(space("all properties", "every subset of the 5 properties at device, peripheral, cluster and register (one level of nesting)", move |c| {
        let m: [usize; 4] = [c.choose(32), c.choose(32), c.choose(if q { 8 } else { 32 }), c.choose(32)];
        let mut d = nest(1, &|l, t| m[l] >> PROPS.iter().position(|p| *p == t).unwrap() & 1 == 1, None);
        if q && m[2] == 7 {
            d.f.remove("size");
        }
        check(c, &d, false)
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("forests", format!("all forests of up to {n} registers and clusters, each node stating nothing, the size or deriving; peripheral stating the size or not"), move |c| {
        fn mark(c: &mut Ctx, l: &mut [El]) {
            for e in l {
                match c.choose(3) {
                    0 => {}
                    1 => {
                        let n = e.n("addressOffset").unwrap() + 1;
                        e.f.insert("size", V::N(n));
                    }
                    _ => {
                        e.f.insert("@derivedFrom", V::s("OTHER"));
                    }
                }
                if let Some(k) = e.c.get_mut("children") {
                    mark(c, k);
                }
            }
        }
        let mut f = gen::forest(c, n, false);
        mark(c, &mut f);
        let mut p = per("P", 0, f);
        match c.choose(3) {
            0 => {}
            1 => p = p.nu("size", 7),
            _ => p = p.st("@derivedFrom", "Z").nu("size", 9),
        }
        check(c, &dev(vec![p]).nu("size", 3), false)
    }));
    v.push(space("arrays", "arrays of peripherals, clusters and registers inherit like single elements", move |c| {
        let k = c.choose(8);
        let a = |e: El, on: bool| if on { let n = format!("{}%s", e.name()); e.st("name", &n).arr(2, 4) } else { e };
        let m = c.choose(16);
        let p = |e: El, l: usize| if m >> l & 1 == 1 { e.nu("resetValue", l as u64 + 1).st("access", ACCESS[l]) } else { e };
        let r = p(a(reg("R", 0), k & 1 == 1), 0);
        let cl = p(a(clu("C", 0, vec![r]), k & 2 == 2), 1);
        let pe = p(a(per("P", 0, vec![cl]), k & 4 == 4), 2);
        check(c, &p(dev(vec![pe]), 3), true)
    }));
    let depth = if q { 1 } else { 2 };
    let rich = Arc::new(DocSpace::new(base_rich(), EditCfg { empty: true, ..FULL }));
    v.push(space("rich document", format!("{} edits, up to {depth}", rich.n()), move |c| {
        let Some(d) = rich.upto(c, depth) else { return Res::Skip };
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        check(c, &d, q)
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}", sz.len(), sz[sz.len() - 1]), move |c| {
        let xml = c.flag();
        let (_, _, mut d) = any_crowd(c, &sz);
        d.f.insert("size", V::N(16));
        d.at_mut(&[("peripherals", 0)]).map(|p| p.f.insert("resetValue", V::N(5)));
        check(c, &d, xml)
    }));
    let m = if t == Tier::Quick { 1 } else { 2 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        check(c, &d, false)
    }));
    let full = norm(&base_rich());
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let d = doubled(c, &full);
        check(c, &d, false)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C18",
    spaces,
    rule: "properties are expanded by the real code (by call and by option) and by an independent inheritance; the whole devices are compared",
    assumptions: &["registers inside of a derived peripheral or cluster are left as they are, as derivation resolves them"],
};
