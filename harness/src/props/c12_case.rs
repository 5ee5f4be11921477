//! C12: identifier case options.
use super::c10_numbers::{drop_empty_fields, written_dev};
use super::util::*;
use encref::*;

const OPTS: [&str; 8] = CASE_OPTS;
/// a document with the name in every place an option converts, and in places none does
fn everywhere(n: &str, arr: bool) -> El {
    let a = |e: El| if arr { e.arr(1, 0) } else { e };
    let evs = El::new(K::Enums).st("name", n).kid("values", ev(n, 0).st("description", n));
    let f = a(El::new(K::Field).st("name", n).with("bits", V::BR(0, 1, 0)).st("description", n)).kids("enumeratedValues", vec![evs]);
    let mut r = a(reg(n, 0)).st("displayName", n).st("description", n).st("alternateGroup", n).st("alternateRegister", n).kids("fields", vec![f]);
    if arr {
        r = r.st("dimName", n).kid("dimArrayIndex", El::new(K::DimArr).st("headerEnumName", n).kid("values", ev(n, 0)));
    }
    let c = a(clu(n, 0, vec![r])).st("description", n).st("alternateCluster", n).st("headerStructName", n);
    let p = a(per(n, 0, vec![c]))
        .st("description", n)
        .st("displayName", n)
        .st("version", n)
        .st("groupName", n)
        .st("alternatePeripheral", n)
        .st("prependToName", n)
        .st("appendToName", n)
        .st("headerStructName", n)
        .kid("interrupt", El::new(K::Interrupt).st("name", n).nu("value", 1).st("description", n));
    dev(vec![p]).st("name", n).st("vendor", n).st("vendorID", n).st("series", n).st("headerSystemFilename", n).st("headerDefinitionsPrefix", n).kid("cpu", cpu_min().st("name", n))
}
fn run(c: &mut Ctx, d: &El, cfg: &ECfg) -> Res {
    if !c.state(&(d, cfg)) {
        return Res::Skip;
    }
    let d = norm(d);
    let dev = match attempt(|| build(&d, LEVELS[0])) {
        Out::Ok(d) => d,
        o => return fail(format!("building: {}", o.kind()), o.why(), d.brief()),
    };
    written_dev(c, &dev, &d, cfg, None)
}
/// everything but identifiers
fn faceless(d: &El) -> El {
    let mut d = d.clone();
    d.walk_mut(&mut |e| {
        for t in ["name", "alternatePeripheral", "prependToName", "appendToName", "headerStructName", "alternateCluster", "alternateRegister", "headerEnumName", "@derivedFrom"] {
            if let Some(V::S(s)) = e.f.get_mut(t) {
                s.clear();
            }
        }
    });
    d
}
fn distinct(d: &El) -> bool {
    let mut ok = true;
    d.walk(&mut vec![], &mut |e, _| {
        for (g, l) in &e.c {
            if *g == "addressBlock" || *g == "dimArrayIndex" || *g == "interrupt" {
                continue;
            }
            let mut n: Vec<(K, String)> = vec![];
            for x in l {
                if x.k == K::Enums && x.s("name").is_none() {
                    continue;
                }
                let names = if dimmable(x.k) && x.is_array() { let mut v = elem_names(x); v.push(x.name().to_string()); v } else { vec![x.name().to_string()] };
                n.extend(names.into_iter().map(|s| (x.k, s)));
            }
            let t = n.len();
            n.sort();
            n.dedup();
            ok &= n.len() == t && n.iter().all(|x| !x.1.is_empty());
        }
    });
    ok
}
fn elem_names(e: &El) -> Vec<String> {
    refm::elem_names(e)
}
/// references of a device still name the same elements: everything has a text of its own to be told by
fn refs(c: &mut Ctx, d: &El, cfg: &ECfg) -> Res {
    if !c.state(&(d, cfg)) {
        return Res::Skip;
    }
    let d = norm(d);
    let Out::Ok(dev) = attempt(|| build(&d, LEVELS[0])) else { return Res::Skip };
    let Out::Ok(before) = expand(&dev) else { return Res::Skip };
    let conf = cfg.config();
    let xml = match encode(&dev, &conf) {
        Out::Ok(x) => x,
        o => return fail(format!("encoding: {}", o.kind()), o.why(), d.brief()),
    };
    c.sample = c.want_sample.then(|| format!("{:?}\n{xml}", cfg.0));
    let back = match parse(&xml, &pcfg(0, false, false, false)) {
        Out::Ok(b) => b,
        o => return fail(format!("not readable: {}", o.kind()), o.why(), xml),
    };
    c.execs += 3;
    if !distinct(&view(&back)) {
        return Res::Skip;
    }
    match expand(&back) {
        Out::Ok(after) => match diff(&faceless(&view(&before)), &faceless(&view(&after))) {
            None => hres(view(&after)),
            Some(m) => fail("a reference names another element", m, format!("{:?}\n{xml}", cfg.0)),
        },
        o => fail(format!("a reference is lost: {}", o.kind()), o.why(), format!("{:?}\n{xml}", cfg.0)),
    }
}
/// a device in which everything is referenced in every form, by the given names
fn linked(n: &dyn Fn(usize) -> String) -> El {
    let evs = |name: usize, id: u64| El::new(K::Enums).st("name", &n(name)).kid("values", ev("V", id % 2).st("description", &format!("v{id}")));
    let evd = |r: String| El::new(K::Enums).st("@derivedFrom", &r);
    let (p, q, c1, c2, r1, r2, f1, f2, e1) = (n(0), n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8));
    let src = reg(&r1, 0)
        .st("description", "source register")
        .kids("fields", vec![fld(&f1, 0, 2).st("description", "source field").kids("enumeratedValues", vec![evs(8, 1)]), fld(&f2, 2, 2).kids("enumeratedValues", vec![evd(format!("{f1}.{e1}"))])]);
    let inner = clu(&c2, 0x20, vec![src.clone(), reg(&r2, 8).st("@derivedFrom", &r1)]).st("description", "inner cluster");
    let outer = clu(&c1, 0x100, vec![inner, reg(&r1, 0).st("description", "outer register")]).st("description", "outer cluster");
    let users = vec![
        reg("U1", 0x200).st("@derivedFrom", &format!("{p}.{r1}")),
        reg("U2", 0x204).st("@derivedFrom", &format!("{p}.{c1}.{r1}")),
        reg("U3", 0x208).st("@derivedFrom", &format!("{p}.{c1}.{c2}.{r1}")),
        clu("U4", 0x300, vec![]).st("@derivedFrom", &format!("{p}.{c1}")),
        clu("U5", 0x400, vec![]).st("@derivedFrom", &format!("{p}.{c1}.{c2}")),
        reg("U6", 0x500).kids(
            "fields",
            vec![
                fld("G1", 0, 2).st("@derivedFrom", &format!("{p}.{r1}.{f1}")),
                fld("G2", 2, 2).st("@derivedFrom", &format!("{p}.{c1}.{c2}.{r1}.{f1}")),
                fld("G3", 4, 2).kids("enumeratedValues", vec![evd(format!("{p}.{r1}.{f1}.{e1}"))]),
                fld("G4", 6, 2).kids("enumeratedValues", vec![evd(format!("{p}.{c1}.{c2}.{r1}.{f1}.{e1}"))]),
                fld("G5", 8, 2).st("@derivedFrom", "G1"),
            ],
        ),
        reg(&r1, 0x600).st("description", "user's register").kids("fields", vec![fld(&f1, 0, 2).kids("enumeratedValues", vec![evs(8, 2)])]),
        reg("U7", 0x604).kids("fields", vec![fld("H", 0, 2).kids("enumeratedValues", vec![evd(format!("{r1}.{f1}.{e1}"))])]),
    ];
    dev(vec![
        per(&p, 0, vec![src, outer]).st("description", "source peripheral"),
        per("User", 0x1000, users),
        El::new(K::Periph).st("name", &q).nu("baseAddress", 0x2000).st("@derivedFrom", &p),
    ])
}
const FORMS: [&str; 7] = ["Abc", "ABC", "abc", "aB1", "A_b", "XYz", "n0"];
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let toks = ["a", "B", "_", "-", " ", "0", "%s", "[%s]", "c", "D", "\u{e9}", "s", "S"];
    let n = if q { 3 } else { 4 };
    v.push(space("every name, everywhere, every option", format!("all strings of at most {n} of {} tokens x 8 options x 4 cases, single and array", toks.len()), move |c| {
        let o = *c.pick(&OPTS);
        let k = *c.pick(&CASES);
        let s = token_string(c, &toks, n);
        if s.trim() != s || s.is_empty() {
            return Res::Skip;
        }
        run(c, &everywhere(&s, s.contains("%s")), &ECfg::default().set(o, k))
    }));
    let n = if q { 5 } else { 6 };
    let toks = ["a", "B", "_", "0", "%s"];
    v.push(space("longer names", format!("all strings of at most {n} of {} tokens x 4 cases, all options at once", toks.len()), move |c| {
        let k = *c.pick(&CASES);
        let s = token_string(c, &toks, n);
        if s.is_empty() {
            return Res::Skip;
        }
        let mut cfg = ECfg::default();
        for o in OPTS {
            cfg = cfg.set(o, k);
        }
        run(c, &everywhere(&s, s.contains("%s")), &cfg)
    }));
    let rich = Arc::new(norm(&base_rich()));
    let r = rich.clone();
    let m = if q { 3 } else { 8 };
    v.push(space("combinations of options", format!("all settings of at most {m} of 8 options to one of 4 cases, rich document"), move |c| {
        let mut cfg = ECfg::default();
        let mut left = m;
        for o in OPTS {
            if left == 0 {
                break;
            }
            let k = c.choose(5);
            if k > 0 {
                cfg = cfg.set(o, CASES[k - 1]);
                left -= 1;
            }
        }
        run(c, &r, &cfg)
    }));
    v.push(space("references", "references of every kind and form, names in 7 forms for one of the places, all options in any of 4 cases or only one option", move |c| {
        let k = c.choose(9);
        let place = c.choose(9);
        let form = *c.pick(&FORMS);
        let case = *c.pick(&CASES);
        let d = linked(&|i| {
            let base = ["Per0", "Qer1", "Clu2", "Dlu3", "Reg4", "Seg5", "Fld6", "Gld7", "Enm8"][i];
            if i == place {
                format!("{form}{i}")
            } else {
                base.to_string()
            }
        });
        let mut cfg = ECfg::default();
        for (i, o) in OPTS.iter().enumerate() {
            if k == 8 || k == i {
                cfg = cfg.set(o, case);
            }
        }
        refs(c, &d, &cfg)
    }));
    v.push(space("references and combinations of options", "references of every kind and form x all settings of the five options of referenced names", move |c| {
        let d = linked(&|i| ["PerIph", "qer_IPH", "CluStr", "dLU_x", "RegIs", "sEG_y", "FldA", "gLD_z", "EnmB"][i].to_string());
        let mut cfg = ECfg::default();
        for o in ["peripheral_name", "cluster_name", "register_name", "field_name", "enumerated_values_name"] {
            let k = c.choose(5);
            if k > 0 {
                cfg = cfg.set(o, CASES[k - 1]);
            }
        }
        match refs(c, &d, &cfg) {
            Res::Ok(_) => {
                let d = norm(&d);
                let dev = build(&d, LEVELS[0]).unwrap();
                written_dev(c, &dev, &d, &cfg, None)
            }
            r => r,
        }
    }));
    let edits = DocSpace::new(base_rich(), FULL);
    v.push(space("rich document, one edit", format!("{} edits x all options in each of 4 cases: read back and expanded", edits.n()), move |c| {
        let k = *c.pick(&CASES);
        let Some(mut d) = edits.upto(c, 1) else { return Res::Skip };
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        drop_empty_fields(&mut d);
        let mut cfg = ECfg::default();
        for o in OPTS {
            cfg = cfg.set(o, k);
        }
        refs(c, &d, &cfg)
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {} x 4 cases", sz.len(), sz[sz.len() - 1]), move |c| {
        let case = *c.pick(&CASES);
        let (_, _, d) = any_crowd(c, &sz);
        let mut cfg = ECfg::default();
        for o in CASE_OPTS {
            cfg = cfg.set(o, case);
        }
        run(c, &d, &cfg)
    }));
    let m = if t == Tier::Quick { 3 } else { 4 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants x 4 cases"), move |c| {
        let case = *c.pick(&CASES);
        let d = host(subset(c, m));
        let mut cfg = ECfg::default();
        for o in CASE_OPTS {
            cfg = cfg.set(o, case);
        }
        run(c, &d, &cfg)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C12",
    spaces,
    rule: "names and references in every place are encoded under every case option; the whole text is compared with a reference conversion, and what references resolve to is compared through descriptions after reading back and expanding",
    assumptions: &["the word boundaries are those the option has always had: separators, changes of case, the last capital of a run", "references to one element of an array by its number, and names which conversion makes empty or equal, are outside the space"],
};
