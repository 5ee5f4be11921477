//! C17: references which lead nowhere or around.
use super::c16_derive::{options, put, skeleton};
use super::util::*;

fn last(s: &str) -> &str {
    s.rsplit('.').next().unwrap_or(s)
}
/// outcome class and, for good references, the result
fn check(c: &mut Ctx, d: &El, only_bad: bool) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    if !c.state(&d) {
        return Res::Skip;
    }
    let n = norm(&d);
    let want = refm::expand(&n);
    if only_bad && want.is_ok() {
        return Res::Skip;
    }
    let Err(_) = &want else { return expand_check(c, &d, false) };
    let device = match device_of(&d, false) {
        Ok(d) => d,
        Err(r) => return r,
    };
    c.execs += 1;
    c.sample = c.want_sample.then(|| format!("{want:?}\n{}", xmlw::xml(&d, &Style::default())));
    let text = || xmlw::xml(&d, &Style::default());
    match expand(&device) {
        Out::Err(m) => {
            // the error names one of the references
            let mut refs = vec![];
            d.walk(&mut vec![], &mut |e, _| {
                if let Some(r) = e.s("@derivedFrom") {
                    refs.push(r.to_string());
                }
            });
            if refs.iter().any(|r| m.contains(last(r))) {
                hres(m)
            } else {
                fail("the error names no reference", m, text())
            }
        }
        Out::Ok(_) => fail("unresolvable reference accepted", format!("{want:?}"), text()),
        Out::Panic(m) => fail("panic", m, text()),
    }
}
fn graph(c: &mut Ctx, n: usize, refs: &dyn Fn(usize) -> String) -> Vec<Option<String>> {
    (0..n)
        .map(|_| {
            let k = c.choose(n + 2);
            match k {
                0 => None,
                k if k == n + 1 => Some("MISSING".to_string()),
                k => Some(refs(k - 1)),
            }
        })
        .collect()
}
fn with_ref(e: El, r: &Option<String>) -> El {
    match r {
        Some(r) => e.st("@derivedFrom", r),
        None => e,
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 5 } else { 6 };
    v.push(space("graphs of peripherals", format!("every function from {n} peripherals to targets, none and a missing one"), move |c| {
        let g = graph(c, n, &|i| format!("X{i}"));
        let arr = c.choose(2);
        let l = g
            .iter()
            .enumerate()
            .map(|(i, r)| {
                let e = El::new(K::Periph).st("name", &format!("X{i}")).nu("baseAddress", i as u64 * 0x100);
                let e = if i == 0 && arr == 1 { e.st("name", "X%s").arr(1, 4) } else { e };
                let e = if i == n - 1 { e.kids("registers", vec![reg("R", 0)]) } else { e };
                with_ref(e, r)
            })
            .collect();
        check(c, &dev(l), false)
    }));
    let n = if q { 5 } else { 6 };
    for k in [K::Register, K::Field, K::Cluster] {
        v.push(space(&format!("graphs of {}s", k.tag()), format!("every function from {n} elements in one place to targets, none and a missing one; relative or full paths"), move |c| {
            let full = c.flag();
            let pre = match k {
                K::Field => "PX.RX.",
                _ => "PX.",
            };
            let g = graph(c, n, &|i| if full { format!("{pre}X{i}") } else { format!("X{i}") });
            let l = g
                .iter()
                .enumerate()
                .map(|(i, r)| {
                    let e = super::c16_derive::bare(k, &format!("X{i}"), 8 * i as u64);
                    let e = match (i, k) {
                        (0, K::Register) => e.kids("fields", vec![fld("F", 0, 1)]),
                        (0, K::Cluster) => e.kids("children", vec![reg("R", 0)]),
                        (0, K::Field) => e.kids("enumeratedValues", vec![El::new(K::Enums).kid("values", ev("A", 0))]),
                        _ => e,
                    };
                    with_ref(e, r)
                })
                .collect();
            check(c, &super::c16_derive::siblings(l), false)
        }));
    }
    let n = if q { 4 } else { 5 };
    v.push(space("graphs of registers across blocks", format!("{n} registers spread over two peripherals and a cluster, every function to full paths, relative names, none, a missing one"), move |c| {
        let places = ["P1", "P2", "P1.C"];
        let mut blocks: Vec<Vec<El>> = vec![vec![], vec![], vec![]];
        for i in 0..n {
            let place = |i: usize| places[i % 3];
            let k = c.choose(2 * n + 2);
            let r = match k {
                0 => None,
                k if k <= n => Some(format!("{}.X{}", place(k - 1), k - 1)),
                k if k <= 2 * n => Some(format!("X{}", k - n - 1)),
                _ => Some("P1.MISSING".into()),
            };
            let e = reg(&format!("X{i}"), 4 * i as u64);
            let e = if i < 2 { e.kids("fields", vec![fld(&format!("F{i}"), 0, 1)]) } else { e };
            blocks[i % 3].push(with_ref(e, &r));
        }
        let mut it = blocks.into_iter();
        let (a, b, cl) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        let mut a = a;
        if !cl.is_empty() {
            a.push(clu("C", 0x100, cl));
        }
        check(c, &dev(vec![per("P1", 0, a), per("P2", 0x1000, b)]), false)
    }));
    v.push(space("graphs of value sets", format!("{n} value sets in two registers of two peripherals, or of a peripheral and a cluster in it, every function to names, partial and full paths, none, a missing one"), move |c| {
        // set i lives in field F{i} of register R of block i%2
        let blocks = *c.pick(&[["P0", "P1"], ["P0", "P0.C"], ["P0.C", "P0.C.D"]]);
        let mut fs: [Vec<El>; 2] = [vec![], vec![]];
        for i in 0..n {
            let k = c.choose(4 * n + 2);
            let r = if k == 0 {
                None
            } else if k <= 4 * n {
                let j = (k - 1) / 4;
                Some(match (k - 1) % 4 {
                    0 => format!("E{j}"),
                    1 => format!("F{j}.E{j}"),
                    2 => format!("R.F{j}.E{j}"),
                    _ => format!("{}.R.F{j}.E{j}", blocks[j % 2]),
                })
            } else {
                Some("MISSING".into())
            };
            let e = El::new(K::Enums).st("name", &format!("E{i}")).kids("values", if r.is_none() { vec![ev(&format!("v{i}"), i as u64)] } else { vec![] });
            fs[i % 2].push(fld(&format!("F{i}"), 4 * i as u32, 4).kids("enumeratedValues", vec![with_ref(e, &r)]));
        }
        let [a, b] = fs;
        let (a, b) = (reg("R", 0).kids("fields", a), reg("R", 0).kids("fields", b));
        let ps = match blocks[1] {
            "P1" => vec![per("P0", 0, vec![a]), per("P1", 0x100, vec![b])],
            "P0.C" => vec![per("P0", 0, vec![a, clu("C", 8, vec![b])])],
            _ => vec![per("P0", 0, vec![clu("C", 8, vec![a, clu("D", 8, vec![b])])])],
        };
        check(c, &dev(ps), false)
    }));
    v.push(space("nested clusters", "4 clusters nested in every way, each with own register or without, every function to full paths, relative names, none, a missing one", move |c| {
        // parent of cluster i: peripheral or an earlier cluster
        let m = if q { 3 } else { 4 };
        let par: Vec<usize> = (0..m).map(|i| c.choose(i + 1)).collect();
        let path = |i: usize| -> String {
            let mut s = vec![format!("C{i}")];
            let mut j = i;
            while par[j] > 0 {
                j = par[j] - 1;
                s.push(format!("C{j}"));
            }
            s.push("P".into());
            s.reverse();
            s.join(".")
        };
        let mut el = vec![];
        for i in 0..m {
            let k = c.choose(2 * m + 2);
            let r = match k {
                0 => None,
                k if k <= m => Some(path(k - 1)),
                k if k <= 2 * m => Some(format!("C{}", k - m - 1)),
                _ => Some("P.C0.MISSING".into()),
            };
            let own = c.flag();
            let e = clu(&format!("C{i}"), 0x10 * i as u64, if own { vec![reg(&format!("R{i}"), 4)] } else { vec![] });
            el.push(with_ref(e, &r));
        }
        let mut top = vec![];
        for i in (0..m).rev() {
            let e = el[i].clone();
            if par[i] == 0 {
                top.insert(0, e);
            } else {
                el[par[i] - 1].c.get_mut("children").unwrap().push(e);
            }
        }
        // re-nest: children were added to copies in order, so rebuild from the inside
        fn build(i: usize, par: &[usize], base: &[El]) -> El {
            let mut e = base[i].clone();
            e.c.get_mut("children").unwrap().retain(|x| x.k == K::Register);
            for (j, p) in par.iter().enumerate() {
                if *p == i + 1 {
                    let k = build(j, par, base);
                    e.c.get_mut("children").unwrap().push(k);
                }
            }
            e
        }
        let top: Vec<El> = (0..m).filter(|i| par[*i] == 0).map(|i| build(i, &par, &el)).collect();
        check(c, &dev(vec![per("P", 0, top)]), false)
    }));
    v.push(space("malformed references", "every element kind x texts which are no path, too short, too long, of another kind, differing in case or blanks", move |c| {
        let sk = skeleton();
        let l = super::c16_derive::listing(&sk);
        let (k, p, full) = c.pick(&l).clone();
        let target = l.iter().find(|x| x.0 == k && x.2 != full).unwrap().2.clone();
        let bad = [
            "".to_string(),
            ".".into(),
            "..".into(),
            "...".into(),
            "....".into(),
            format!(".{target}"),
            format!("{target}."),
            format!("{target}.X"),
            target.replace('.', ".."),
            target.replace('.', "_"),
            target.to_lowercase(),
            format!("X.{target}"),
            target.split('.').skip(1).collect::<Vec<_>>().join("."),
            "NOPE".into(),
            "NO.PE".into(),
            "NO.PE.X".into(),
            "NO.PE.X.Y".into(),
            "NO.PE.X.Y.Z".into(),
            "P1.R1".into(),
            "P1.C1".into(),
            "P1.R1.F1".into(),
            "P1.R1.F1.E1".into(),
            "P1".into(),
            "R1".into(),
            "C1".into(),
            "F1".into(),
            "E1".into(),
            "P1.C1.R1.F1.E1".into(),
            "P1.C1.C2".into(),
            "P1.R1.F1.E1.A".into(),
            "%s".into(),
            "R1.F1".into(),
            "\u{e9}".into(),
        ];
        let b = c.pick(&bad).clone();
        let drop = c.flag();
        let mut d = sk.clone();
        put(&mut d, &(p, b.clone(), drop));
        let r = check(c, &d, false);
        // the error names exactly this reference
        if let (Res::Ok(_), Err(_)) = (&r, refm::expand(&norm(&d))) {
            if let Ok(dev) = device_of(&d, false) {
                if let Out::Err(m) = expand(&dev) {
                    if !m.contains(last(&b)) {
                        return fail("the error does not name the reference", m, b);
                    }
                    // and with the option of the parser
                    let x = xmlw::xml(&d, &Style::default());
                    match parse(&x, &pcfg(0, true, false, false)) {
                        Out::Err(_) => {}
                        o => return fail(format!("parsing with expansion: {}", o.kind()), o.why(), x),
                    }
                }
            }
        }
        r
    }));
    let sk = Arc::new(skeleton());
    let op = Arc::new(options(&sk, &["MISSING", "P1.MISSING.X"]));
    let (s1, o1) = (sk.clone(), op.clone());
    v.push(space("one or two references", format!("{} ways to put a reference anywhere and all pairs of them, where one cannot be resolved", op.len()), move |c| {
        let two = c.flag();
        let i = c.choose(o1.len());
        let mut d = (*s1).clone();
        put(&mut d, &o1[i]);
        if two {
            let j = c.choose(o1.len());
            if j >= i || o1[i].0 == o1[j].0 {
                return Res::Skip;
            }
            put(&mut d, &o1[j]);
        }
        check(c, &d, true)
    }));
    if !q {
        let drop: Vec<_> = op.iter().filter(|o| o.2 && !o.1.contains("MISSING")).cloned().collect();
        v.push(space("three references", format!("all triples of {} ways to put a reference on an element without own content, where one cannot be resolved", drop.len()), move |c| {
            let i = c.choose(drop.len());
            let j = c.choose(drop.len());
            if j >= i || drop[i].0 == drop[j].0 {
                return Res::Skip;
            }
            let k = c.choose(drop.len());
            if k >= j || drop[j].0 == drop[k].0 {
                return Res::Skip;
            }
            let mut d = (*sk).clone();
            for x in [i, j, k] {
                put(&mut d, &drop[x]);
            }
            check(c, &d, true)
        }));
    }
    v.push(space("long chains and cycles", "chains and cycles of 60 and 200 elements of every kind, forward and backward", move |c| {
        let k = *c.pick(&super::c16_derive::KINDS);
        let n = *c.pick(&[60usize, 200]);
        let cyc = c.flag();
        let back = c.flag();
        let l = (0..n)
            .map(|i| {
                let e = super::c16_derive::bare(k, &format!("X{i}"), 8 * i as u64);
                let end = if back { 0 } else { n - 1 };
                if i == end {
                    let e = match k {
                        K::Enums => e.kids("values", vec![ev("A", 0)]),
                        _ => e,
                    };
                    return if cyc { e.st("@derivedFrom", &format!("X{}", n - 1 - end)) } else { e };
                }
                e.st("@derivedFrom", &format!("X{}", if back { i - 1 } else { i + 1 }))
            })
            .collect();
        check(c, &super::c16_derive::siblings(l), false)
    }));
    let m = if q { 2 } else { 3 };
    v.push(space("parts of the referring element", format!("peripherals, clusters, registers, fields and value sets with at most {m} of their optional parts, or all but {m}, at 10 places x 9 references which cannot be resolved"), move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field, K::Enums]);
        let r = *c.pick(&["OWN", "NOPE", "PA.NOPE", "PA.R.NOPE", "PA.RA.FA.NOPE", "NO.PE.X.Y.Z", "PA.CA.RA.FA.NOPE", "", "BASE.X"]);
        let e = subset_of(c, k, m).st("@derivedFrom", r);
        if e.s("name").is_none() && r == "OWN" {
            return Res::Skip;
        }
        let d = placed(c, e);
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        check(c, &d, true)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C17",
    spaces,
    rule: "every reference graph in the space is expanded by the real code under a panic and hang monitor; the outcome is compared with an independent resolver: an error which names a reference when one cannot be resolved, the resolved device otherwise",
    assumptions: &[
        "references into content which a derived element has only inherited are not resolved",
        "sibling elements have distinct names",
    ],
};
