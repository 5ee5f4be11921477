//! C15: expansion without references.
use super::util::*;

/// make each element of a forest single or an array
fn arrays(c: &mut Ctx, l: &mut Vec<El>, pats: &[(u64, u64, &str)]) {
    for e in l {
        let k = c.choose(pats.len() + 1);
        if k > 0 {
            let (dim, inc, pat) = pats[k - 1];
            let n = e.name().to_string();
            *e = e.clone().st("name", &format!("{n}{pat}")).arr(dim, inc);
            if pat.len() > 2 && dim == 2 {
                e.f.insert("dimIndex", V::L(vec!["X".into(), "Y".into()]));
            }
        }
        if e.k == K::Cluster {
            let mut kids = e.c.remove("children").unwrap_or_default();
            arrays(c, &mut kids, pats);
            e.c.insert("children", kids);
        }
    }
}
pub fn no_refs(d: &mut El) {
    d.walk_mut(&mut |e| {
        e.f.remove("@derivedFrom");
        // value sets without values and name are not needed here
    });
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 6 } else { 7 };
    v.push(space("forests with arrays", format!("all forests of up to {n} registers and clusters, every node single or one of two arrays"), move |c| {
        let mut f = gen::forest(c, n, false);
        arrays(c, &mut f, &[(2, 0x10, "%s"), (2, 0x40, "[%s]")]);
        let d = dev(vec![per("P", 0x1000, f)]);
        if !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, false)
    }));
    let n = if q { 8 } else { 10 };
    v.push(space("forests", format!("all forests of up to {n} registers and clusters, empty clusters included"), move |c| {
        let f = gen::forest(c, n, true);
        let d = dev(vec![per("P", 0x1000, f)]);
        if !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, false)
    }));
    let n = if q { 4 } else { 5 };
    v.push(space("arrays of all shapes", format!("all forests of up to {n} nodes, every node single or one of seven arrays (dimension 0, 1, 2, 3; every placeholder form)"), move |c| {
        let mut f = gen::forest(c, n, false);
        arrays(c, &mut f, &[(0, 4, "%s"), (1, 4, "%s"), (2, 0, "%s"), (3, 4, "[%s]"), (2, 8, "[%s]"), (2, 4, "_%s_B"), (12, 4, "%s")]);
        let d = dev(vec![per("P", 0x1000, f)]);
        if !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, false)
    }));
    v.push(space("peripherals", "up to 3 peripherals, single or array, each with no registers, an empty list, a register, a register array or a cluster", move |c| {
        let n = 1 + c.choose(3);
        let mut ps = vec![];
        for i in 0..n {
            let mut p = match c.choose(5) {
                0 => El::new(K::Periph).st("name", "X").nu("baseAddress", 0),
                1 => per("X", 0, vec![]),
                2 => per("X", 0, vec![reg("A", 4)]),
                3 => per("X", 0, vec![reg("A%s", 4).arr(2, 4), reg("B", 0x20)]),
                _ => per("X", 0, vec![clu("C%s", 8, vec![reg("A", 4), reg("B", 0)]).arr(2, 0x10)]),
            };
            let k = c.choose(3);
            let nm = ["P{}", "P{}_%s", "P{}[%s]"][k].replace("{}", &i.to_string());
            p = p.st("name", &nm).nu("baseAddress", 0x1_0000_0000 * i as u64);
            if k > 0 {
                p = p.arr(2, 0x100);
            }
            ps.push(p);
        }
        let d = dev(ps);
        if !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, true)
    }));
    v.push(space("fields", "up to 3 fields, single or one of 4 arrays, in a register or register array, in a peripheral or cluster array", move |c| {
        let n = c.choose(4);
        let mut fs = vec![];
        for i in 0..n {
            let f = El::new(K::Field).with("bits", V::BR(8 * i as u32, 2, c.choose(3) as u8));
            let k = c.choose(5);
            let f = f.st("name", &["F{}", "F{}%s", "F{}[%s]", "F{}_%s_B", "%sF{}"][k].replace("{}", &i.to_string()));
            let f = match k {
                0 => f,
                1 => f.arr(2, 4),
                2 => f.arr(3, 2),
                3 => f.arr(2, 4).with("dimIndex", V::L(vec!["L".into(), "R".into()])),
                _ => f.arr(0, 4),
            };
            let f = if i == 1 { f.kids("enumeratedValues", vec![El::new(K::Enums).kid("values", ev("A", 1))]) } else { f };
            fs.push(f);
        }
        let mut r = reg("R", 4).kids("fields", fs);
        if n == 0 && c.flag() {
            r.c.remove("fields");
        }
        if c.flag() {
            r = r.st("name", "R[%s]").arr(2, 4);
        }
        let d = match c.choose(3) {
            0 => dev(vec![per("P", 0, vec![r])]),
            1 => dev(vec![per("P", 0, vec![clu("C%s", 0x10, vec![r]).arr(2, 0x10)])]),
            _ => dev(vec![per("P%s", 0, vec![clu("C", 0x10, vec![clu("D", 0, vec![r])])]).arr(2, 0x100)]),
        };
        if !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, true)
    }));
    v.push(space("sums of offsets up to the limit", "cluster in cluster in peripheral, offsets and increments at the numeric limits", move |c| {
        let m = u32::MAX as u64;
        let vals = [0, 1, 4, m, m - 1, m - 4, m / 2, m / 2 + 1];
        let incs = [0, 4, m / 2, m];
        let mut r = reg("R", *c.pick(&vals));
        if c.flag() {
            r = r.st("name", "R%s").arr(2, *c.pick(&incs));
        }
        let mut a = clu("A", *c.pick(&vals), vec![r]);
        if c.flag() {
            a = a.st("name", "A%s").arr(2, *c.pick(&incs));
        }
        let mut b = clu("B", *c.pick(&vals), vec![a, reg("Z", 0)]);
        if c.flag() {
            b = b.st("name", "B%s").arr(2, *c.pick(&incs));
        }
        let d = dev(vec![per("P", 0, vec![b])]);
        if !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, false)
    }));
    let mut base = base_rich();
    no_refs(&mut base);
    for p in base.c.get_mut("peripherals").unwrap() {
        if p.name() == "P2" {
            p.c.insert("registers", vec![reg("Y", 0)]);
        }
    }
    let depth = if q { 1 } else { 2 };
    let rich = Arc::new(DocSpace::new(base, EditCfg { empty: true, ..FULL }));
    v.push(space("rich document", format!("{} edits, up to {depth}", rich.n()), move |c| {
        let Some(mut d) = rich.upto(c, depth) else { return Res::Skip };
        no_refs(&mut d);
        if refm::arrays_ok(&d).is_err() || !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, q)
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}, parsed and built", sz.len(), sz[sz.len() - 1]), move |c| {
        let xml = c.flag();
        let (_, _, d) = any_crowd(c, &sz);
        if !c.state(&(&d, xml)) {
            return Res::Skip;
        }
        expand_check(c, &d, xml)
    }));
    let m = if t == Tier::Quick { 3 } else { 4 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let mut d = placed(c, e);
        no_refs(&mut d);
        if refm::arrays_ok(&d).is_err() || !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, false)
    }));
    let full = norm(&base_rich());
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let mut d = doubled(c, &full);
        d.walk_mut(&mut |e| drop(e.f.remove("@derivedFrom")));
        if refm::arrays_ok(&d).is_err() || !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, false)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C15",
    spaces,
    rule: "each device is expanded by the real code and by an independent reference expansion; both results are compared completely",
    assumptions: &["the notation in which an expanded field states its position is free"],
};
