//! C16: derivation.
use super::util::*;

type Path = Vec<(&'static str, usize)>;
fn enums(n: &str, v: &str, k: u64) -> El {
    El::new(K::Enums).st("name", n).kid("values", ev(v, k))
}
fn fe(n: &str, off: u32, e: El) -> El {
    fld(n, off, 4).kids("enumeratedValues", vec![e])
}
/// two peripherals with registers, clusters, fields and value sets which share names but not content, and an empty one
pub fn skeleton() -> El {
    let p1 = per(
        "P1",
        0x1000,
        vec![
            reg("R1", 0).kids("fields", vec![fe("F1", 0, enums("E1", "a", 0)), fld("F2", 4, 2)]),
            reg("R2", 4).kids("fields", vec![fe("F1", 8, enums("E1", "b", 1)), fe("F3", 12, enums("E2", "c", 2))]),
            clu("C1", 0x10, vec![reg("R1", 8).kids("fields", vec![fe("F1", 16, enums("E1", "d", 3))]), clu("C2", 0x10, vec![reg("R5", 0xc)])]),
            clu("C3", 0x40, vec![reg("R7", 0)]),
        ],
    )
    .nu("size", 16);
    let p2 = per("P2", 0x2000, vec![reg("R1", 0x14).kids("fields", vec![fe("F1", 20, enums("E1", "e", 4)), fld("F4", 24, 1)]), clu("C1", 0x20, vec![reg("R6", 0x18)])])
        .kid("interrupt", El::new(K::Interrupt).st("name", "I2").nu("value", 2));
    let p3 = per("P3", 0x3000, vec![reg("R9", 0x1c)]);
    let mut d = dev(vec![p1, p2, p3]);
    let mut i = 0;
    d.walk_mut(&mut |e| {
        if matches!(e.k, K::Periph | K::Cluster | K::Register | K::Field) {
            e.f.insert("description", V::S(format!("text {i}")));
            i += 1;
        }
    });
    gen::tidy(&mut d);
    d
}
/// the same names at every level, different texts and values
fn c_like() -> El {
    fn regs() -> Vec<El> {
        let e = |n| enums(n, "v", 0);
        let r = |n: &str, off| {
            reg(n, off).kids(
                "fields",
                vec![fld("F1", 0, 4).kids("enumeratedValues", vec![e("E1").st("usage", "read"), e("E2").st("usage", "write")]), fe("F2", 4, e("E1"))],
            )
        };
        vec![r("R1", 0), r("R2", 4)]
    }
    fn block(depth: u32) -> Vec<El> {
        let mut v = regs();
        if depth > 0 {
            v.push(clu("C1", 0x10, block(depth - 1)));
            v.push(clu("C2", 0x100, regs()));
        }
        v
    }
    let mut d = dev(vec![per("P1", 0x1000, block(2)), per("P2", 0x2000, block(1))]);
    let mut i = 0;
    d.walk_mut(&mut |e| {
        match e.k {
            K::Periph | K::Cluster | K::Register | K::Field | K::EnumV => e.f.insert("description", V::S(format!("text {i}"))),
            _ => None,
        };
        i += 1;
    });
    gen::tidy(&mut d);
    d
}
/// full path of every named element: (kind, path in the tree, dotted path)
pub fn listing(d: &El) -> Vec<(K, Path, String)> {
    let mut out = vec![];
    let mut names: Vec<(usize, String)> = vec![];
    d.walk(&mut vec![], &mut |e, p| {
        if !matches!(e.k, K::Periph | K::Cluster | K::Register | K::Field | K::Enums) {
            return;
        }
        names.retain(|(n, _)| *n < p.len());
        names.push((p.len(), e.name().to_string()));
        out.push((e.k, p.to_vec(), names.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(".")));
    });
    out
}
/// every way to write a reference to one of these elements
pub fn references(l: &[(K, Path, String)], k: K) -> Vec<String> {
    let mut out = vec![];
    for (kk, _, s) in l {
        if *kk != k {
            continue;
        }
        let comps: Vec<&str> = s.split('.').collect();
        let n = comps.len();
        let mut forms = vec![1, n];
        if k == K::Enums {
            forms.extend([2, 3]);
        }
        for f in forms {
            let r = comps[n - f..].join(".");
            if !out.contains(&r) {
                out.push(r);
            }
        }
    }
    out
}
/// an option: put this reference on that element, with its own content and description or without
pub fn options(d: &El, extra: &[&str]) -> Vec<(Path, String, bool)> {
    let l = listing(d);
    let mut out = vec![];
    for (k, p, _) in &l {
        let mut refs = references(&l, *k);
        refs.extend(extra.iter().map(|s| s.to_string()));
        for r in refs {
            out.push((p.clone(), r.clone(), true));
            out.push((p.clone(), r, false));
        }
    }
    out
}
pub fn put(d: &mut El, o: &(Path, String, bool)) {
    let Some(e) = d.at_mut(&o.0) else { return };
    e.f.insert("@derivedFrom", V::s(&o.1));
    if o.2 {
        e.f.remove("description");
        for g in ["registers", "children", "fields", "enumeratedValues", "values"] {
            e.c.remove(g);
        }
    }
}
/// only documents whose references all resolve
fn check(c: &mut Ctx, d: &El, xml: bool) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    if !c.state(&d) || refm::expand(&norm(&d)).is_err() {
        return Res::Skip;
    }
    let r = expand_check(c, &d, xml);
    if let Res::Ok(_) = &r {
        // nothing refers to anything any more
        if let Ok(dev) = device_of(&d, false) {
            if let Out::Ok(x) = expand(&dev) {
                let mut bad = None;
                view(&x).walk(&mut vec![], &mut |e, _| {
                    if e.f.contains_key("@derivedFrom") {
                        bad = Some(e.brief());
                    }
                });
                if let Some(b) = bad {
                    return fail("reference left", b, d.brief());
                }
            }
        }
    }
    r
}

// ------------------------------------------------------------------ properties of one derived element
/// everything an element of the kind can state besides its name and position, with two values each
pub fn traits(k: K) -> Vec<(&'static str, [V; 2])> {
    let s = |a: &str, b: &str| [V::s(a), V::s(b)];
    let n = |a, b| [V::N(a), V::N(b)];
    let mut v: Vec<(&'static str, [V; 2])> = vec![];
    if k != K::Enums {
        v.push(("description", s("own text", "base text")));
    }
    if matches!(k, K::Periph | K::Cluster | K::Register) {
        v.push(("size", n(8, 16)));
        v.push(("protection", s("s", "p")));
        v.push(("resetValue", n(1, 2)));
        v.push(("resetMask", n(0xf, 0xff)));
    }
    if k != K::Enums {
        v.push(("access", s("read-only", "write-only")));
    }
    match k {
        K::Periph => {
            for t in ["version", "displayName", "alternatePeripheral", "groupName", "prependToName", "appendToName", "headerStructName"] {
                v.push((t, s("own", "base")));
            }
            v.push(("registers", n(0, 0)));
            v.push(("addressBlock", n(0, 0)));
            v.push(("interrupt", n(0, 0)));
        }
        K::Cluster => {
            for t in ["alternateCluster", "headerStructName"] {
                v.push((t, s("own", "base")));
            }
            v.push(("children", n(0, 0)));
        }
        K::Register => {
            for t in ["displayName", "alternateGroup", "alternateRegister"] {
                v.push((t, s("own", "base")));
            }
            v.push(("dataType", s("uint8_t", "int16_t")));
            v.push(("modifiedWriteValues", s("oneToClear", "zeroToSet")));
            v.push(("writeConstraint", [V::WAR(true), V::Range(0, 1)]));
            v.push(("readAction", s("clear", "set")));
            v.push(("fields", n(0, 0)));
        }
        K::Field => {
            v.push(("modifiedWriteValues", s("oneToClear", "zeroToSet")));
            v.push(("writeConstraint", [V::UEV(false), V::WAR(false)]));
            v.push(("readAction", s("modify", "modifyExternal")));
            v.push(("enumeratedValues", n(0, 0)));
        }
        _ => {
            v.push(("usage", s("read", "write")));
            v.push(("values", n(0, 0)));
        }
    }
    v
}
/// state trait `t` on the element; `who` 0 is the deriving element, higher numbers its bases
pub fn state_trait(e: &mut El, t: &(&'static str, [V; 2]), who: usize) {
    let tag = ["own", "base", "base2", "base3"][who];
    match t.0 {
        "registers" | "children" => {
            e.c.insert(t.0, vec![reg(&format!("{tag}_r"), 4 * who as u64), clu(&format!("{tag}_c"), 0x20, vec![reg("x", who as u64)])]);
        }
        "addressBlock" => {
            e.c.insert(t.0, vec![El::new(K::AddrBlock).nu("offset", who as u64).nu("size", 0x400).st("usage", "registers")]);
        }
        "interrupt" => {
            e.c.insert(t.0, vec![El::new(K::Interrupt).st("name", tag).nu("value", who as u64)]);
        }
        "fields" => {
            e.c.insert(t.0, vec![fld(&format!("{tag}_f"), who as u32, 1)]);
        }
        "enumeratedValues" => {
            e.c.insert(t.0, vec![El::new(K::Enums).st("name", tag).kid("values", ev(tag, who as u64))]);
        }
        "values" => {
            e.c.insert(t.0, vec![ev(tag, who as u64)]);
        }
        _ => {
            let v = if who < 2 {
                t.1[who].clone()
            } else {
                match &t.1[1] {
                    V::S(s) if ["version", "displayName", "groupName", "prependToName", "appendToName", "headerStructName", "description"].contains(&t.0) => {
                        V::S(format!("{s}{who}"))
                    }
                    V::N(n) => V::N(n + who as u64),
                    v => v.clone(),
                }
            };
            e.f.insert(t.0, v);
        }
    }
}
pub fn bare(k: K, name: &str, pos: u64) -> El {
    let e = El::new(k).st("name", name);
    match k {
        K::Periph => e.nu("baseAddress", pos),
        K::Cluster => e.nu("addressOffset", pos).kids("children", vec![]),
        K::Register => e.nu("addressOffset", pos),
        K::Field => e.with("bits", V::BR(pos as u32, 4, 0)),
        _ => e.kids("values", vec![]),
    }
}
/// a device with these siblings of one kind
pub fn siblings(l: Vec<El>) -> El {
    match l[0].k {
        K::Periph => dev(l),
        K::Field => dev(vec![per("PX", 0x100, vec![reg("RX", 0).kids("fields", l)])]),
        K::Enums => dev(vec![per(
            "PX",
            0x100,
            vec![reg("RX", 0).kids("fields", l.into_iter().enumerate().map(|(i, e)| fld(&format!("FX{i}"), 4 * i as u32, 4).kids("enumeratedValues", vec![e])).collect())],
        )]),
        _ => dev(vec![per("PX", 0x100, l)]),
    }
}
pub const KINDS: [K; 5] = [K::Periph, K::Cluster, K::Register, K::Field, K::Enums];

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let sk = Arc::new(skeleton());
    let op = Arc::new(options(&sk, &[]));
    let (s1, o1) = (sk.clone(), op.clone());
    v.push(space("one or two references", format!("{} ways to put a reference anywhere, and all pairs of them", op.len()), move |c| {
        let two = c.flag();
        let i = c.choose(o1.len());
        let mut d = (*s1).clone();
        // contents are taken away from the inside out
        if two {
            let j = c.choose(o1.len());
            if j >= i || o1[i].0 == o1[j].0 {
                return Res::Skip;
            }
            put(&mut d, &o1[i]);
            put(&mut d, &o1[j]);
        } else {
            put(&mut d, &o1[i]);
        }
        check(c, &d, !two)
    }));
    if !q {
        let drop: Vec<_> = op.iter().filter(|o| o.2).cloned().collect();
        let drop = Arc::new(drop);
        let s2 = sk.clone();
        v.push(space("three references", format!("all triples of {} ways to put a reference on an element without own content", drop.len()), move |c| {
            let i = c.choose(drop.len());
            let j = c.choose(drop.len());
            if j >= i || drop[i].0 == drop[j].0 {
                return Res::Skip;
            }
            let k = c.choose(drop.len());
            if k >= j || drop[j].0 == drop[k].0 {
                return Res::Skip;
            }
            let mut d = (*s2).clone();
            for x in [i, j, k] {
                put(&mut d, &drop[x]);
            }
            check(c, &d, false)
        }));
    }
    v.push(space("two properties stated on either side", "5 kinds x all pairs of properties, each stated by neither, the base, the derived element or both x the same for all others x single or array on either side x order", move |c| {
        let k = *c.pick(&KINDS);
        let ts = traits(k);
        let (i, j) = (c.choose(ts.len()), c.choose(ts.len()));
        if j < i || (i == j && ts.len() > 2) {
            return Res::Skip;
        }
        let (a, b, rest) = (c.choose(4), c.choose(4), c.choose(4));
        let mut own = bare(k, "OWN", 0x10);
        let mut base = bare(k, "BASE", 0x8);
        for (n, t) in ts.iter().enumerate() {
            let st = if n == i { a } else if n == j { b } else { rest };
            if st & 1 == 1 {
                state_trait(&mut own, t, 0);
            }
            if st & 2 == 2 {
                state_trait(&mut base, t, 1);
            }
        }
        if k == K::Enums && base.list("values").is_empty() && own.list("values").is_empty() {
            return Res::Skip;
        }
        let mut bname = "BASE";
        if dimmable(k) {
            let shape = c.choose(6);
            if shape & 1 == 1 {
                bname = "BASE%s";
                base = base.st("name", bname).arr(2, 4).with("dimIndex", V::L(vec!["A".into(), "B".into()])).st("dimName", "DN");
            }
            if shape & 2 == 2 {
                own = own.st("name", "OWN%s").arr(3, 2);
            } else if shape >= 4 {
                own = own.st("name", "OWN[%s]");
                if shape == 4 {
                    // a name with placeholder but no array anywhere: not specified
                    return Res::Skip;
                }
            }
        }
        own = own.st("@derivedFrom", bname);
        let l = if c.flag() { vec![own, base] } else { vec![base, own] };
        check(c, &siblings(l), true)
    }));
    let len = if q { 3 } else { 4 };
    v.push(space("chains", format!("5 kinds x chains of 3..={len} elements in every order x one property stated by any subset of them x all others stated by none, all, the last or the middle"), move |c| {
        let k = *c.pick(&KINDS);
        let n = 3 + c.choose(len - 2);
        let ts = traits(k);
        let i = c.choose(ts.len());
        let sub = c.choose(1 << n);
        let rest = [0, (1 << n) - 1, 1 << (n - 1), 2][c.choose(4)];
        // element m derives from m + 1
        let mut l: Vec<El> = (0..n).map(|m| bare(k, &format!("X{m}"), 8 * m as u64)).collect();
        for (x, t) in ts.iter().enumerate() {
            let s = if x == i { sub } else { rest };
            for (m, e) in l.iter_mut().enumerate() {
                if s >> m & 1 == 1 {
                    state_trait(e, t, m);
                }
            }
        }
        for (m, e) in l.iter_mut().enumerate() {
            if m + 1 < n {
                e.f.insert("@derivedFrom", V::S(format!("X{}", m + 1)));
            }
        }
        // order in the document
        let mut out = vec![];
        while !l.is_empty() {
            let x = c.choose(l.len());
            out.push(l.remove(x));
        }
        check(c, &siblings(out), false)
    }));
    v.push(space("content resolved where it was written", "a block whose content refers to a neighbour by relative name, taken over by blocks elsewhere whose neighbours have the same names", move |c| {
        // level of the block which is taken over
        let lvl = c.choose(4);
        // the inner element refers to a sibling by bare name
        let inner = |pre: &str, own: bool| -> (El, El) {
            let mut t = reg("T", 0).st("description", &format!("{pre} target")).kids("fields", vec![fe("FT", 0, enums("ET", &format!("{pre}v"), 1))]);
            if own {
                t.f.insert("size", V::N(8));
            }
            (reg("D", 4).st("@derivedFrom", "T"), t)
        };
        let first = c.flag();
        let pair = |pre: &str, own: bool| {
            let (d, t) = inner(pre, own);
            if first {
                vec![d, t]
            } else {
                vec![t, d]
            }
        };
        let form = c.choose(3);
        let d = match lvl {
            // peripheral derived from peripheral
            0 => {
                let mut q = El::new(K::Periph).st("name", "Q").nu("baseAddress", 0x100).st("@derivedFrom", "P");
                if form == 1 {
                    q = q.kids("registers", pair("q", true));
                }
                let mut l = vec![per("P", 0, pair("p", false)), q];
                if form == 2 {
                    l.push(El::new(K::Periph).st("name", "S").nu("baseAddress", 0x200).st("@derivedFrom", "Q"));
                }
                dev(l)
            }
            // cluster derived from a cluster in another peripheral
            1 => {
                let q = clu("Q", 0x40, vec![]).st("@derivedFrom", "P1.C");
                let mut l = vec![q];
                l.extend(pair("outer", true));
                if form == 1 {
                    l.push(clu("S", 0x80, vec![]).st("@derivedFrom", "Q"));
                }
                if form == 2 {
                    l = vec![clu("W", 0x100, l)];
                }
                dev(vec![per("P1", 0, vec![clu("C", 0, pair("c", false))]), per("P2", 0x1000, l)])
            }
            // register derived from a register elsewhere: fields refer to fields there
            2 => {
                let fs = |pre: &str| {
                    let t = fe("T", 0, enums("ET", &format!("{pre}v"), 1)).st("description", pre);
                    let d = fld("D", 8, 4).st("@derivedFrom", "T");
                    if first {
                        vec![d, t]
                    } else {
                        vec![t, d]
                    }
                };
                let mut r = reg("Q", 4).st("@derivedFrom", if form == 0 { "R" } else { "P1.R" });
                if form == 2 {
                    r = r.kids("fields", fs("own"));
                }
                let p1 = per("P1", 0, vec![reg("R", 0).kids("fields", fs("there"))]);
                if form == 0 {
                    let mut p1 = p1;
                    p1.c.get_mut("registers").unwrap().push(r);
                    dev(vec![p1])
                } else {
                    dev(vec![p1, per("P2", 0x100, vec![r, reg("T", 8).kids("fields", fs("here"))])])
                }
            }
            // field derived from a field elsewhere: its value set refers to a set there
            _ => {
                let rs = |pre: &str| {
                    let set = fe("S", 0, enums("E", pre, 1));
                    let der = fld("D", 8, 4).kids("enumeratedValues", vec![El::new(K::Enums).st("name", "N").st("@derivedFrom", ["E", "S.E", "R.S.E"][form])]);
                    reg("R", 0).kids("fields", if first { vec![der, set] } else { vec![set, der] })
                };
                let t = fld("X", 16, 4).st("@derivedFrom", "P1.R.D");
                let mut r2 = rs("here");
                r2.c.get_mut("fields").unwrap().push(t);
                dev(vec![per("P1", 0, vec![rs("there")]), per("P2", 0x100, vec![r2])])
            }
        };
        check(c, &d, true)
    }));
    v.push(space("references to array elements", "4 kinds x reference to an array by its name or the name of one of its elements x kind of indices x derived element single or array", move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field]);
        let mut base = bare(k, ["B%s", "B[%s]"][c.choose(2)], 0).arr(2, 0x10);
        for t in traits(k) {
            state_trait(&mut base, &t, 1);
        }
        let idx = c.choose(3);
        if idx == 1 {
            base = base.with("dimIndex", V::L(vec!["x".into(), "y".into()]));
        }
        if idx == 2 {
            base = base.kid("dimArrayIndex", El::new(K::DimArr).kid("values", ev("zero", 0)));
        }
        let names = refm::elem_names(&base);
        let r = c.choose(3);
        let r = if r == 0 { base.name().to_string() } else { names[r - 1].clone() };
        let full = c.flag() && k != K::Periph;
        let r = if full { format!("{}{r}", if k == K::Field { "PX.RX." } else { "PX." }) } else { r };
        let mut own = bare(k, "OWN", 0x80);
        if c.flag() {
            own = own.st("name", "OWN%s").arr(3, 4);
        }
        own = own.st("@derivedFrom", &r);
        check(c, &siblings(vec![base, own]), true)
    }));
    v.push(space("arrays from arrays", "4 kinds, both arrays: dimensions of 2 or 3, names with and without brackets, every subset of dimIndex, dimName and dimArrayIndex on either side", move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field]);
        let base = super::c27_overlay::dims(c, bare(k, "BASE", 0), "BASE");
        let own = super::c27_overlay::dims(c, bare(k, "OWN", 0x20), "OWN").st("@derivedFrom", base.name());
        check(c, &siblings(vec![base, own]), true)
    }));
    v.push(space("value sets named by short paths", "a value set in one of three fields of a register, register and fields single or arrays, taken over by another field's or the same field's set in every form of path, arrays named by their name or an element's", move |c| {
        let arr = |c: &mut Ctx, e: El, i: usize| -> (El, Vec<String>) {
            if c.flag() {
                let n = format!("{}{}", e.name(), ["%s", "[%s]"][i % 2]);
                let e = e.st("name", &n).arr(2, if i < 3 { 4 } else { 8 });
                let names = refm::elem_names(&e);
                (e, [vec![n], names].concat())
            } else {
                let n = e.name().to_string();
                (e, vec![n])
            }
        };
        let (src, dst) = (c.choose(3), c.choose(3));
        // several fields may have a set of the name: the first counts for the bare name
        let more = src + 1 < 3 && c.flag();
        let mut fs = vec![];
        let mut names = vec![];
        for i in 0..3 {
            let (mut e, n) = arr(c, fld(["A", "B", "C"][i], 8 * i as u32, 4), i);
            let mut l = vec![];
            if i == src {
                l.push(enums("E", "v", 3));
                names = n;
            } else if i > src && more {
                l.push(enums("E", "w", 2));
            }
            if i == dst {
                let usage = !l.is_empty();
                let mut own = enums("OWN", "x", 1);
                own.c.clear();
                if usage {
                    l[0].f.insert("usage", V::s("read"));
                    own.f.insert("usage", V::s("write"));
                }
                l.push(own);
            }
            e.c.insert("enumeratedValues", l);
            fs.push(e);
        }
        let (r, rn) = arr(c, reg("R", 0), 4);
        let f = c.pick(&names).clone();
        let p = match c.choose(4) {
            0 => "E".to_string(),
            1 => format!("{f}.E"),
            2 => format!("{}.{f}.E", c.pick(&rn)),
            _ => format!("PX.{}.{f}.E", c.pick(&rn)),
        };
        fs[dst].c.get_mut("enumeratedValues").unwrap().last_mut().unwrap().f.insert("@derivedFrom", V::s(&p));
        let mut d = siblings(vec![r.kids("fields", fs)]);
        gen::tidy(&mut d);
        check(c, &d, true)
    }));
    v.push(space("references through arrays of blocks", "a reference to a register, cluster, field or value set four levels down, each level single or an array named by the array or by one of its elements, the referring element somewhere else", move |c| {
        let k = *c.pick(&[K::Cluster, K::Register, K::Field, K::Enums]);
        let mut names = vec![];
        // from the outside in: peripheral, cluster, cluster, register, field
        let levels = [K::Periph, K::Cluster, K::Cluster, K::Register, K::Field];
        let n = match k {
            K::Cluster => 3,
            K::Register => 4,
            _ => 5,
        };
        let mut els = vec![];
        for (i, l) in levels.iter().enumerate().take(n) {
            let nm = ["P", "C", "I", "R", "F"][i];
            let mut e = bare(*l, nm, 0);
            e.f.insert("description", V::S(format!("{nm} text")));
            let s = c.choose(4);
            if s > 0 {
                let nm = format!("{nm}{}", ["[%s]", "%s"][i % 2]);
                e = e.st("name", &nm).arr(2, 8);
                if i % 2 == 1 {
                    e = e.with("dimIndex", V::L(vec!["x".into(), "y".into()]));
                }
                names.push(if s == 1 { nm } else { refm::elem_names(&e)[s - 2].clone() });
            } else {
                names.push(nm.to_string());
            }
            els.push(e);
        }
        if k == K::Enums {
            names.push("E".to_string());
            els.last_mut().unwrap().c.insert("enumeratedValues", vec![enums("E", "v", 3)]);
        }
        if k == K::Cluster {
            els.last_mut().unwrap().c.insert("children", vec![reg("LEAF", 4)]);
        }
        while els.len() > 1 {
            let e = els.pop().unwrap();
            let o = els.last_mut().unwrap();
            let g = match o.k {
                K::Periph => "registers",
                K::Cluster => "children",
                _ => "fields",
            };
            o.c.insert(g, vec![e]);
        }
        let own = bare(k, "OWN", 0x40).st("@derivedFrom", &names.join("."));
        let mut d = siblings(vec![own]);
        d.c.get_mut("peripherals").unwrap().push(els.pop().unwrap());
        check(c, &d, false)
    }));
    let m = if q { 3 } else { 5 };
    v.push(space("one reference among like names", "blocks nested three deep which all have the same registers, fields and value sets, told apart by their content: every element of every kind refers to every other one of its kind in every form of path, with and without own content", move |c| {
        let mut d = c_like();
        let l = listing(&d);
        let (k, p, _) = c.pick(&l).clone();
        let refs = references(&l, k);
        let r = c.pick(&refs).clone();
        // a bare name must be unique in its register
        if k == K::Enums && r == "E1" {
            return Res::Skip;
        }
        put(&mut d, &(p, r, c.flag()));
        check(c, &d, false)
    }));
    v.push(space("presence of optional parts", format!("4 kinds of element with at most {m} of their optional parts, or all but that many, in two variants"), move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field]);
        let e = subset_of(c, k, m);
        check(c, &host(e), false)
    }));
    let rich = Arc::new(DocSpace::new(base_rich(), FULL));
    let depth = if q { 1 } else { 2 };
    v.push(space("rich document", format!("{} edits, up to {depth}", rich.n()), move |c| {
        let Some(d) = rich.upto(c, depth) else { return Res::Skip };
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        check(c, &d, q)
    }));
    let sz: Vec<usize> = if q { vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 21, 33, 65, 129] } else { sizes(true).into_iter().filter(|n| *n > 1 && *n < 300).collect() };
    v.push(space("many references", format!("{} sizes up to {} of elements of 5 kinds: all referring to the first, to the last, each to the next or to the one before", sz.len(), sz[sz.len() - 1]), move |c| {
        let k = *c.pick(&KINDS);
        let n = *c.pick(&sz);
        let how = c.choose(4);
        let own = c.flag();
        let ts = traits(k);
        let l = (0..n)
            .map(|i| {
                let mut e = bare(k, &format!("N{i}"), if k == K::Enums { 0 } else { 64 * i as u64 });
                let to = match how {
                    0 => (i > 0).then_some(0),
                    1 => (i + 1 < n).then_some(n - 1),
                    2 => (i + 1 < n).then_some(i + 1),
                    _ => i.checked_sub(1),
                };
                match to {
                    Some(j) => {
                        e.f.insert("@derivedFrom", V::S(format!("N{j}")));
                        if own && i % 3 == 1 {
                            state_trait(&mut e, &ts[i % ts.len()], 1);
                        }
                    }
                    None => {
                        for t in &ts {
                            state_trait(&mut e, t, 0);
                        }
                    }
                }
                e
            })
            .collect();
        check(c, &siblings(l), true)
    }));
    v.extend(super::c27_overlay::overlays(t));
    // the big ones last: what the time cap may cut off
    v.sort_by_key(|s| matches!(s.name.as_str(), "peripheral: 4 properties" | "register: 4 properties" | "rich document" | "many references"));
    let m = if t == Tier::Quick { 3 } else { 4 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        check(c, &d, false)
    }));
    let m = if t == Tier::Quick { 1 } else { 2 };
    v.push(space("presence and one edit", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit"), move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field, K::Enums]);
        let Some(e) = subset_edited(c, k, m, &FULL) else { return Res::Skip };
        let d = host(e);
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        check(c, &d, false)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C16",
    spaces,
    rule: "every document with resolvable references in the space is expanded by the real code and by an independent resolver which computes, for each element, its own statements over the statements of its target; both results are compared completely",
    assumptions: &[
        "references into content which a derived element has only inherited are not specified",
        "sibling elements have distinct names",
        "a single element named with a placeholder which derives from an array takes over its dimension; if it derives from such an element again, the result is not specified",
    ],
};
