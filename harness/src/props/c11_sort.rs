//! C11: sorting options reorder and change nothing else.
use super::c10_numbers::written;
use super::util::*;

const KEYS: [&str; 4] = ["", "Offset", "OffsetReversed", "Name"];
const NAMES: [&str; 4] = ["B", "A", "a", "AB"];
fn opt(c: &mut Ctx, rc: bool) -> Vec<&'static str> {
    let mut w = vec![];
    let k = *c.pick(&KEYS);
    if !k.is_empty() {
        w.push(k);
    }
    if c.flag() {
        // the words of an option have no order
        if c.flag() {
            w.insert(0, "DerivedLast");
        } else {
            w.push("DerivedLast");
        }
    }
    if rc {
        match c.choose(5) {
            0 => {}
            1 => w.insert(0, "RegistersFirst"),
            2 => w.push("RegistersFirst"),
            3 => w.insert(0, "ClustersFirst"),
            _ => w.push("ClustersFirst"),
        }
    }
    w
}
fn run(c: &mut Ctx, d: El, o: &'static str, w: Vec<&str>) -> Res {
    let mut cfg = ECfg::default();
    if !w.is_empty() {
        cfg = cfg.set(o, &w.join(","));
    }
    written(c, &d, &cfg, None)
}
const BASES: [u64; 4] = [0x1000, 0, u64::MAX, 0x1_0000_0000];
const OFFS: [u64; 4] = [8, 0, u32::MAX as u64, 0x8000_0000];
const BITS: [u32; 4] = [8, 0, u32::MAX, 1 << 31];
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 3 } else { 4 };
    let nk = if q { 3 } else { 4 };
    v.push(space("peripherals", format!("all lists of at most {n} peripherals over {nk} addresses, 3 names, derived or not, single or array x all option texts"), move |c| {
        let w = opt(c, false);
        let m = c.choose(n + 1);
        let l = (0..m)
            .map(|i| {
                let mut p = per(NAMES[c.choose(3)], BASES[c.choose(nk)], vec![]).st("description", &format!("d{i}"));
                p.c.clear();
                if c.flag() {
                    p.f.insert("@derivedFrom", V::s("X"));
                }
                if i == 0 && c.flag() {
                    let nm = format!("{}%s", p.name());
                    p = p.st("name", &nm).arr(2, 0x10);
                }
                p
            })
            .collect();
        run(c, dev(l), "peripheral_sorting", w)
    }));
    let nr = if q { 3 } else { 4 };
    let nk = 3;
    v.push(space("registers and clusters", format!("all lists of at most {nr} registers/clusters over {nk} offsets, 2 names, derived or not x all option texts"), move |c| {
        let w = opt(c, true);
        let m = c.choose(nr + 1);
        let l = (0..m)
            .map(|i| {
                let (nm, o) = (NAMES[c.choose(2)], OFFS[c.choose(nk)]);
                let der = c.flag();
                let mut e = if c.flag() {
                    // what is inside a cluster keeps its order
                    clu(nm, o, vec![clu("Z", 9, vec![]).st("@derivedFrom", "Y"), reg("Y", 8), reg("X", 0)])
                } else {
                    reg(nm, o)
                };
                e = e.st("description", &format!("d{i}"));
                if der {
                    e.f.insert("@derivedFrom", V::s("X"));
                }
                e
            })
            .collect();
        run(c, dev(vec![per("P", 0, l)]), "register_cluster_sorting", w)
    }));
    v.push(space("registers and clusters, arrays and more of them", "5 elements in every order and with every kind of one of them x all option texts", move |c| {
        let w = opt(c, true);
        let mut l = vec![
            reg("A", 0x10),
            reg("B%s", 0x4).arr(4, 4),
            clu("C[%s]", 0x10, vec![reg("Z", 4), reg("Y", 0)]).arr(2, 8),
            reg("D", 0x4).st("@derivedFrom", "A"),
            clu("B", 0x8000_0000, vec![reg("Z", 0)]).st("@derivedFrom", "C"),
        ];
        let mut p = vec![];
        while !l.is_empty() {
            p.push(l.remove(c.choose(l.len())));
        }
        // the option reaches every peripheral
        let p2 = p.clone();
        run(c, dev(vec![per("P", 0, p), per("Q", 0, p2)]), "register_cluster_sorting", w)
    }));
    let nf = if q { 3 } else { 4 };
    v.push(space("fields", format!("all lists of at most {nf} fields over 3 offsets, 2 names, derived in 3 ways or not x all option texts"), move |c| {
        let w = opt(c, false);
        let m = c.choose(nf + 1);
        let l: Vec<El> = (0..m)
            .map(|i| {
                let f = El::new(K::Field).st("name", NAMES[c.choose(2)]).with("bits", V::BR(BITS[c.choose(3)], 1, 1)).st("description", &format!("d{i}"));
                let own = El::new(K::Enums).st("name", "E").kid("values", ev("A", 0));
                let der = El::new(K::Enums).st("@derivedFrom", "E");
                match c.choose(4) {
                    0 => f,
                    1 => f.st("@derivedFrom", "X"),
                    2 => f.kids("enumeratedValues", vec![own]),
                    _ => f.kids("enumeratedValues", vec![own, der]),
                }
            })
            .collect();
        let r = reg("R", 0).kids("fields", l.clone());
        let deep = clu("C", 0, vec![reg("R", 0).kids("fields", l)]);
        run(c, dev(vec![per("P", 0, vec![r, deep])]), "field_sorting", w)
    }));
    let nf = if q { 2 } else { 3 };
    v.push(space("extreme positions", format!("{nf} elements of each kind over 4 positions and 4 names x all option texts"), move |c| {
        let k = c.choose(3);
        let w = opt(c, k == 1);
        let l: Vec<El> = (0..nf)
            .map(|i| {
                let (nm, o) = (NAMES[c.choose(4)], c.choose(4));
                match k {
                    0 => El::new(K::Periph).st("name", nm).nu("baseAddress", BASES[o]),
                    1 => reg(nm, OFFS[o]),
                    _ => El::new(K::Field).st("name", nm).with("bits", V::BR(BITS[o], 1, 1)),
                }
                .st("description", &format!("d{i}"))
            })
            .collect();
        match k {
            0 => run(c, dev(l), "peripheral_sorting", w),
            1 => run(c, dev(vec![per("P", 0, l)]), "register_cluster_sorting", w),
            _ => run(c, dev(vec![per("P", 0, vec![reg("R", 0).kids("fields", l)])]), "field_sorting", w),
        }
    }));
    // together, on a full document: nothing is lost, whatever is in it
    let rich = DocSpace::new(base_rich(), FULL);
    v.push(space("rich document, one edit", format!("{} edits x 6 settings of all three options", rich.n()), move |c| {
        let k = c.choose(6);
        let (a, b) = [("Offset", ""), ("OffsetReversed", "RegistersFirst"), ("Name", "ClustersFirst"), ("Offset,DerivedLast", "ClustersFirst"), ("OffsetReversed,DerivedLast", ""), ("Name,DerivedLast", "RegistersFirst")][k];
        let Some(d) = rich.upto(c, 1) else { return Res::Skip };
        let rc = if b.is_empty() { a.to_string() } else { format!("{b},{a}") };
        let cfg = ECfg::default().set("peripheral_sorting", a).set("field_sorting", a).set("register_cluster_sorting", &rc);
        let mut want = norm(&d);
        super::c10_numbers::drop_empty_fields(&mut want);
        want.walk_mut(&mut |e| {
            for (g, p) in [("peripherals", a), ("registers", &rc), ("fields", a)] {
                if let Some(l) = e.c.get_mut(g) {
                    *l = encref::sorted(l, &p.split(',').collect::<Vec<_>>());
                }
            }
        });
        written(c, &d, &cfg, Some(&want))
    }));
    // sorting algorithms treat short and long lists differently
    let sz: Vec<usize> = if q { vec![2, 5, 12, 19, 20, 21, 22, 33, 65, 257] } else { sizes(true).into_iter().filter(|n| *n < 600).collect() };
    v.push(space("long lists", format!("lists of {} sizes up to {} of each kind, positions and names which repeat in 4 ways, every third, every other or none derived x all option texts", sz.len(), sz[sz.len() - 1]), move |c| {
        let k = c.choose(4);
        let w = opt(c, k == 1 || k == 2);
        let n = *c.pick(&sz);
        let m = [(1, 1), (7, 5), (13, 11), (1000, 1009)][c.choose(4)];
        let der = c.choose(3);
        let l: Vec<El> = (0..n)
            .map(|i| {
                let o = i * m.0 % m.1;
                let nm = format!("N{}", (i * m.0 + 3) % m.1);
                let e = match k {
                    0 => El::new(K::Periph).st("name", &nm).nu("baseAddress", o as u64),
                    1 => reg(&nm, o as u64),
                    2 if i % 3 == 1 => reg(&nm, o as u64),
                    2 => clu(&nm, o as u64, vec![]),
                    _ => El::new(K::Field).st("name", &nm).with("bits", V::BR(o as u32, 1, 1)),
                };
                let e = e.st("description", &format!("d{i}"));
                if der > 0 && i % (der + 1) == 0 {
                    e.st("@derivedFrom", "X")
                } else {
                    e
                }
            })
            .collect();
        match k {
            0 => run(c, dev(l), "peripheral_sorting", w),
            1 | 2 => run(c, dev(vec![per("P", 0, l)]), "register_cluster_sorting", w),
            _ => run(c, dev(vec![per("P", 0, vec![reg("R", 0).kids("fields", l)])]), "field_sorting", w),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C11",
    spaces,
    rule: "each list is encoded under each sorting and compared, in full, with a stable reference sort of the same list",
    assumptions: &["several positions words in one option (Offset together with Name) are outside the space"],
};
