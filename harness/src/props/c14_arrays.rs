//! C14: arrays and their indices.
use super::util::*;

/// What an index text stands for; None: not specified.
fn ref_indexes(s: &str) -> Option<Result<Vec<String>, ()>> {
    if s.contains('-') {
        if s.contains(' ') || s.contains('+') {
            return None;
        }
        let (a, b) = s.split_once('-').unwrap();
        let num = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
        if num(a) && num(b) {
            if (a.len() > 1 && a.starts_with('0')) || (b.len() > 1 && b.starts_with('0')) {
                return None;
            }
            let (Ok(a), Ok(b)) = (a.parse::<u64>(), b.parse::<u64>()) else { return Some(Err(())) };
            if a > u32::MAX as u64 || b > u32::MAX as u64 || a > b {
                return Some(Err(()));
            }
            return if b - a > 2000 { None } else { Some(Ok((a..=b).map(|i| i.to_string()).collect())) };
        }
        let letter = |x: &str| (x.len() == 1).then(|| x.bytes().next().unwrap()).filter(|c| c.is_ascii_alphabetic());
        return Some(match (letter(a), letter(b)) {
            (Some(a), Some(b)) if a.is_ascii_uppercase() == b.is_ascii_uppercase() && a <= b => Ok((a..=b).map(|c| (c as char).to_string()).collect()),
            _ => Err(()),
        });
    }
    let l: Vec<String> = s.split(',').map(|x| x.trim().to_string()).collect();
    if l.iter().any(|x| x.is_empty() || x.contains(' ')) {
        return None;
    }
    Some(Ok(l))
}
fn kinds() -> [K; 4] {
    [K::Periph, K::Cluster, K::Register, K::Field]
}
/// a device around one element of the kind
fn around(e: El) -> El {
    match e.k {
        K::Periph => dev(vec![e]),
        K::Field => dev(vec![per("PX", 0x100, vec![reg("RX", 0).kids("fields", vec![e])])]),
        _ => dev(vec![per("PX", 0x100, vec![e])]),
    }
}
fn plain(k: K) -> El {
    match k {
        K::Periph => per("P%s", 0x1000, vec![reg("A", 0)]),
        K::Cluster => clu("C%s", 0x10, vec![reg("A", 0)]),
        K::Register => reg("R%s", 0x10).kids("fields", vec![fld("A", 0, 1)]),
        _ => fld("F%s", 4, 2),
    }
}
/// the elements of the kind in an expanded device (clusters have become part of register names)
fn found(d: &El, k: K) -> Vec<El> {
    let ps = d.list("peripherals");
    match k {
        K::Periph => ps.to_vec(),
        K::Field => ps[0].list("registers")[0].list("fields").to_vec(),
        _ => ps[0].list("registers").to_vec(),
    }
}
/// the library's own listing of an array's elements, through the public helpers
fn helpers(e: &El) -> Result<(Vec<String>, Vec<Option<String>>, Vec<u64>, Vec<El>, Vec<String>), String> {
    fn s<T>(i: impl Iterator<Item = T>) -> Vec<T> {
        i.collect()
    }
    let er = |x: svd::SvdError| x.to_string();
    let l = LEVELS[0];
    let dim = mk_dim(e, l).map_err(er)?.unwrap();
    let idx: Vec<String> = dim.indexes().map(|x| x.to_string()).collect();
    Ok(match e.k {
        K::Periph => {
            let i = b_peripheral(e, l).and_then(|b| b.build(l)).map_err(er)?;
            (
                s(svd::array::names(&i, &dim)),
                s(svd::array::descriptions(&i, &dim)),
                s(svd::peripheral::base_addresses(&i, &dim)),
                svd::peripheral::expand(&i, &dim).map(|x| peripheral_info_v(&x)).collect(),
                idx,
            )
        }
        K::Cluster => {
            let i = b_cluster(e, l).and_then(|b| b.build(l)).map_err(er)?;
            (
                s(svd::array::names(&i, &dim)),
                s(svd::array::descriptions(&i, &dim)),
                svd::cluster::address_offsets(&i, &dim).map(|x| x as u64).collect(),
                svd::cluster::expand(&i, &dim).map(|x| cluster_info_v(&x)).collect(),
                idx,
            )
        }
        K::Register => {
            let i = b_register(e, l).and_then(|b| b.build(l)).map_err(er)?;
            (
                s(svd::array::names(&i, &dim)),
                s(svd::array::descriptions(&i, &dim)),
                svd::register::address_offsets(&i, &dim).map(|x| x as u64).collect(),
                svd::register::expand(&i, &dim).map(|x| register_info_v(&x)).collect(),
                idx,
            )
        }
        _ => {
            let i = b_field(e, l).and_then(|b| b.build(l)).map_err(er)?;
            (
                s(svd::array::names(&i, &dim)),
                s(svd::array::descriptions(&i, &dim)),
                svd::field::bit_offsets(&i, &dim).map(|x| x as u64).collect(),
                svd::field::expand(&i, &dim).map(|x| field_info_v(&x)).collect(),
                idx,
            )
        }
    })
}
fn pos(e: &El) -> u64 {
    match e.k {
        K::Periph => e.n("baseAddress").unwrap(),
        K::Field => e.br().0 as u64,
        _ => e.n("addressOffset").unwrap(),
    }
}
fn check(c: &mut Ctx, e: &El) -> Res {
    if !c.state(e) {
        return Res::Skip;
    }
    let want = refm::elements(e);
    let d = norm(&around(e.clone()));
    let x = xmlw::xml(&around(e.clone()), &Style::default());
    let device = match parse(&x, &pcfg(0, false, false, false)) {
        Out::Ok(d) => d,
        o => return fail(format!("parse: {}", o.kind()), o.why(), x),
    };
    if let Some(m) = diff(&d, &view(&device)) {
        return fail(format!("parsed differently: {}", diff_sig(&m)), m, x);
    }
    let ex = expand(&device);
    c.execs += 1;
    c.sample = c.want_sample.then(|| e.brief());
    let (mut want, got) = match (want, ex) {
        (Ok(w), Out::Ok(g)) => (w, view(&g)),
        (Err(_), Out::Err(_)) => return hres("err"),
        (Err(m), Out::Ok(_)) => return fail("unrepresentable array accepted", m, x),
        (_, o) => return fail(format!("expand: {}", o.kind()), o.why(), x),
    };
    no_notation(&mut want);
    // through the helpers
    match sut(|| helpers(e)) {
        Ok(Ok((names, descs, offs, mut els, idx))) => {
            no_notation(&mut els);
            let wn: Vec<String> = want.iter().map(|w| w.name().to_string()).collect();
            let wd: Vec<Option<String>> = want.iter().map(|w| w.s("description").map(String::from)).collect();
            let wo: Vec<u64> = want.iter().map(pos).collect();
            if names != wn {
                return fail("names()", format!("expected {wn:?}, got {names:?}"), e.brief());
            }
            if descs != wd {
                return fail("descriptions()", format!("expected {wd:?}, got {descs:?}"), e.brief());
            }
            if offs != wo {
                return fail("positions", format!("expected {wo:?}, got {offs:?}"), e.brief());
            }
            if idx != e.indexes() {
                return fail("indexes()", format!("expected {:?}, got {idx:?}", e.indexes()), e.brief());
            }
            if els.len() != want.len() {
                return fail("expand helper: count", format!("expected {}, got {}", want.len(), els.len()), e.brief());
            }
            let mut we = want.clone();
            we.iter_mut().for_each(gen::tidy);
            els.iter_mut().for_each(gen::tidy);
            for (a, b) in we.iter().zip(&els) {
                if let Some(m) = diff(a, b) {
                    return fail(format!("expand helper: {}", diff_sig(&m)), m, e.brief());
                }
            }
        }
        Ok(Err(m)) => return fail("helpers: error", m, e.brief()),
        Err(p) => return fail("helpers: panic", p, e.brief()),
    }
    // through the expansion of the device
    let mut got = found(&got, e.k);
    no_notation(&mut got);
    let want: Vec<El> = if e.k == K::Cluster {
        want.iter()
            .flat_map(|w| {
                w.list("children").iter().map(|r| {
                    let off = w.n("addressOffset").unwrap() + r.n("addressOffset").unwrap();
                    r.clone().st("name", &format!("{}_{}", w.name(), r.name())).nu("addressOffset", off)
                })
            })
            .collect()
    } else {
        want
    };
    if want.len() != got.len() {
        return fail(format!("{} count", e.k.tag()), format!("expected {} elements, got {}", want.len(), got.len()), x);
    }
    for (a, b) in want.iter().zip(&got) {
        if let Some(m) = diff(a, b) {
            return fail(format!("element: {}", diff_sig(&m)), m, x);
        }
    }
    c.execs += 1;
    hres(&got)
}
fn opt_text(e: El, t: &'static str, v: usize) -> El {
    match v {
        0 => e,
        1 => e.st(t, "D%s"),
        2 => e.st(t, "x [%s] %s y"),
        3 => e.st(t, "%s of [%s], %s%s [%s]"),
        _ => e.st(t, "fixed"),
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    const TOK: [&str; 13] = ["0", "1", "2", "9", "A", "B", "Z", "a", "z", "-", ",", " ", "_"];
    let n = if q { 5 } else { 6 };
    v.push(space("index texts", format!("all texts of up to {n} of 13 tokens, through the library call"), move |c| {
        let s = token_string(c, &TOK, n);
        let Some(want) = ref_indexes(&s) else { return Res::Skip };
        if !c.state(&s) {
            return Res::Skip;
        }
        match sut(|| svd::DimElement::parse_indexes(&s)) {
            Ok(got) if got.clone().ok_or(()) == want => {
                c.execs += 1;
                c.sample = c.want_sample.then(|| format!("{s:?} -> {got:?}"));
                hres(got)
            }
            Ok(got) => fail(if got.is_some() { "index text read wrongly" } else { "index text rejected" }, format!("{s:?}: expected {want:?}, got {got:?}"), s),
            Err(p) => fail("panic", p, s),
        }
    }));
    v.push(space("number ranges", "from..to over 0..=40, 98..=112 and the numeric limit, letters a..z, A..Z crossed", move |c| {
        let nums: Vec<u64> = (0..=40).chain(98..=112).chain([999, 1000, 4294967290, 4294967294, 4294967295, 4294967296, 18446744073709551616u128 as u64]).collect();
        let s = if c.flag() {
            let (a, b) = (*c.pick(&nums), *c.pick(&nums));
            format!("{a}-{b}")
        } else {
            let al: Vec<char> = ('A'..='Z').chain('a'..='z').chain(['@', '[', '`', '{', '_', '\u{e9}']).collect();
            let (a, b) = (*c.pick(&al), *c.pick(&al));
            format!("{a}-{b}")
        };
        let Some(want) = ref_indexes(&s) else { return Res::Skip };
        match sut(|| svd::DimElement::parse_indexes(&s)) {
            Ok(got) if got.clone().ok_or(()) == want => {
                c.execs += 1;
                hres(got)
            }
            Ok(got) => fail("range read wrongly", format!("{s:?}: expected {want:?}, got {got:?}"), s),
            Err(p) => fail("panic", p, s),
        }
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("index texts in documents", format!("all texts of up to {n} of 13 tokens x dimension 1..=4 x 4 kinds x 3 levels"), move |c| {
        let k = *c.pick(&kinds());
        let dim = 1 + c.choose(4) as u64;
        let lvl = c.choose(3);
        let s = token_string(c, &TOK, n);
        let Some(want) = ref_indexes(s.trim()) else { return Res::Skip };
        let e = plain(k).arr(dim, 0).with("dimIndex", V::L(vec![s.clone()]));
        let d = around(e);
        if !c.state(&(&d, lvl)) {
            return Res::Skip;
        }
        let x = xmlw::xml(&d, &Style::default());
        let o = parse(&x, &pcfg(lvl, false, false, false));
        c.execs += 1;
        match (want, o) {
            (Ok(l), Out::Ok(got)) if l.len() as u64 == dim => {
                let got = view(&got);
                let mut f = None;
                got.walk(&mut vec![], &mut |e, _| {
                    if e.is_array() {
                        f = Some(e.indexes())
                    }
                });
                if f.as_ref() != Some(&l) {
                    return fail("indices in the document", format!("expected {l:?}, got {f:?}"), x);
                }
                hres(l)
            }
            (Ok(l), Out::Ok(_)) => fail("count disagrees with the dimension but is accepted", format!("{l:?} for dimension {dim}"), x),
            (Err(_), Out::Ok(_)) => fail("malformed index text accepted", s, x),
            (Ok(l), Out::Err(m)) if l.len() as u64 == dim => fail("array rejected", m, x),
            (_, Out::Err(_)) => hres("err"),
            (_, Out::Panic(m)) => fail("panic", m, x),
        }
    }));
    v.push(space("names without placeholder", "13 names x 4 kinds x dimension 0..=2 x with or without indices x 3 levels", move |c| {
        let k = *c.pick(&kinds());
        let lvl = c.choose(3);
        let name = *c.pick(&["R", "R%", "R%S", "R[s]", "R%d", "R[]", "Rs", "R%s", "R[%s]", "%s", "R%sB", "%sB", "R_%s_"]);
        let dim = c.choose(3) as u64;
        let mut e = plain(k).st("name", name).arr(dim, 4);
        if dim > 0 && c.flag() {
            e = e.with("dimIndex", V::L((0..dim).map(|i| format!("x{i}")).collect()));
        }
        let d = around(e.clone());
        let x = xmlw::xml(&d, &Style::default());
        let good = name.contains("%s");
        c.execs += 1;
        match parse(&x, &pcfg(lvl, false, false, false)) {
            Out::Ok(_) if good => hres(name),
            Out::Err(_) if !good => hres("err"),
            Out::Panic(m) => fail("panic", m, x),
            o => fail(if good { "name with placeholder rejected" } else { "array without placeholder accepted" }, o.why(), x),
        }
    }));
    v.push(space("single elements", "an element without dim is no array whatever its name", move |c| {
        let k = *c.pick(&kinds());
        let name = *c.pick(&["R", "R%s", "R[%s]", "%s"]);
        let d = around(plain(k).st("name", name));
        let x = xmlw::xml(&d, &Style::default());
        c.execs += 1;
        match parse(&x, &pcfg(1, false, false, false)) {
            Out::Ok(g) => match diff(&norm(&d), &view(&g)) {
                None => hres(&d),
                Some(m) => fail("single element differs", m, x),
            },
            o => fail("single element rejected", o.why(), x),
        }
    }));
    let dims: &'static [u64] = if q { &[0, 1, 2, 3, 12] } else { &[0, 1, 2, 3, 4, 5, 12, 33] };
    v.push(space(
        "array shapes",
        format!("4 kinds x dimensions {dims:?} x 5 increments x 7 names x 3 starts x 9 index forms"),
        move |c| {
            let k = *c.pick(&kinds());
            let dim = *c.pick(dims);
            let inc = *c.pick(&[0u64, 1, 4, 0x100, 0x1000_0001]);
            let name = *c.pick(&["R%s", "R[%s]", "%s", "A%sB", "%sB", "A%s_%s", "A[%s]%s"]);
            let start = *c.pick(&[0u64, 0x10, 0x4000_0000]);
            let mut e = plain(k).st("name", name).arr(dim, inc);
            match k {
                K::Periph => e = e.nu("baseAddress", start),
                K::Field => e = e.with("bits", V::BR(start as u32, 2, c.choose(3) as u8)),
                _ => e = e.nu("addressOffset", start),
            }
            let alts = gen::idx_alts(dim);
            let i = c.choose(alts.len() + 1);
            if i > 0 {
                e = e.with("dimIndex", alts[i - 1].clone());
            }
            check(c, &e)
        },
    ));
    v.push(space("texts of elements", "4 kinds x dimension 1..=3 x 5 descriptions x 5 displayed names x 3 names x 3 index forms x array enumerations of all subsets of indices, with and without descriptions and a default", move |c| {
        let k = *c.pick(&kinds());
        let dim = 1 + c.choose(3) as u64;
        let name = *c.pick(&["R%s", "R[%s]", "%s_X"]);
        let mut e = plain(k).st("name", name).arr(dim, 8);
        e = opt_text(e, "description", c.choose(5));
        if matches!(k, K::Register | K::Periph) {
            e = opt_text(e, "displayName", c.choose(5));
        }
        match c.choose(3) {
            0 => {}
            1 => e = e.with("dimIndex", V::L((0..dim).map(|i| (i + 1).to_string()).collect())),
            _ => e = e.with("dimIndex", V::L((0..dim).map(|i| format!("k{i}")).collect())),
        }
        let sub = c.choose(1 << 4);
        if sub > 0 {
            let desc = c.choose(3);
            let mut a = El::new(K::DimArr).kids("values", vec![]);
            if c.flag() {
                a = a.st("headerEnumName", "HE");
            }
            for i in 0..4u64 {
                if sub >> i & 1 == 1 {
                    let mut x = ev(&format!("val{i}"), i);
                    if desc == 1 || (desc == 2 && i % 2 == 1) {
                        x = x.st("description", &format!("d{i} %s"));
                    }
                    a = a.kid("values", x);
                }
            }
            // a value which stands for all others names none of the elements
            match c.choose(3) {
                0 => {}
                1 => a = a.kid("values", El::new(K::EnumV).st("name", "rest").st("description", "all others").bo("isDefault", true)),
                _ => a.c.get_mut("values").unwrap().insert(0, El::new(K::EnumV).st("name", "rest").bo("isDefault", true)),
            }
            e = e.kid("dimArrayIndex", a);
        }
        check(c, &e)
    }));
    v.push(space("positions up to the limit", "4 kinds x starts and increments around 2^32 and 2^64 x dimensions", move |c| {
        let k = *c.pick(&kinds());
        let dim = *c.pick(&[0u64, 1, 2, 3, 9]);
        let m32 = u32::MAX as u64;
        let inc = *c.pick(&[0, 1, 4, 1 << 16, 1 << 31, m32 / 2, m32 - 1, m32]);
        let s32 = [0, 1, m32, m32 - 1, m32 - 2, m32 - 4, m32 - 8, m32 - 32, 1 << 31, (1 << 31) - 1, m32 - (2 << 16)];
        let mut e = plain(k).arr(dim, inc);
        match k {
            K::Periph => {
                let s = c.choose(22);
                e = e.nu("baseAddress", if s < 11 { s32[s] } else { (u32::MAX as u64) << 32 | s32[s - 11] });
            }
            K::Field => e = e.with("bits", V::BR(*c.pick(&s32) as u32, 1, 1)),
            _ => e = e.nu("addressOffset", *c.pick(&s32)),
        }
        check(c, &e)
    }));
    // everything else of a full element survives
    let full: Vec<El> = {
        let r = base_rich();
        let p1 = &r.list("peripherals")[0];
        let mut f = p1.list("registers")[0].list("fields")[0].clone();
        f.f.insert("name", V::s("F%s"));
        let mut rg = p1.list("registers")[0].clone();
        rg.f.insert("name", V::s("R%s"));
        rg.c.get_mut("fields").unwrap().truncate(1);
        let mut cl = p1.list("registers")[2].clone();
        cl.c.get_mut("children").unwrap().truncate(1);
        let mut p = p1.clone();
        p.f.insert("name", V::s("P%s"));
        p.c.insert("registers", vec![reg("A", 0)]);
        vec![f.arr(2, 4), rg.arr(2, 4), cl.arr(2, 4), p.arr(2, 4)]
    };
    let full = Arc::new(full.into_iter().map(|e| Arc::new(DocSpace::new(around(e), EditCfg { arrays: true, ..FULL }))).collect::<Vec<_>>());
    let depth = if q { 1 } else { 2 };
    let fs = full.clone();
    v.push(space("full elements", format!("a full array of each kind, up to {depth} edits"), move |c| {
        let k = c.choose(4);
        let Some(d) = fs[k].upto(c, depth) else { return Res::Skip };
        if refm::arrays_ok(&d).is_err() || !c.state(&d) {
            return Res::Skip;
        }
        expand_check(c, &d, true)
    }));
    const RI: [&str; 9] = ["0", "1", "2", "3", "01", "a", "4294967295", "4294967294", "4294967296"];
    v.push(space("indices as a range", "all lists of up to 4 of 9 indices, and the default indices of dimensions 0..=40", move |c| {
        if c.flag() {
            let dim = c.choose(41) as u32;
            let d = svd::DimElement::builder().dim(dim).dim_increment(4).build(LEVELS[2]).unwrap();
            c.execs += 1;
            let want = (dim > 0).then(|| 0..=dim.wrapping_sub(1));
            return match sut(|| d.indexes_as_range()) {
                Ok(g) if g == want => hres(dim),
                Ok(g) => fail("default indices as range", format!("expected {want:?}, got {g:?}"), dim.to_string()),
                Err(p) => fail("panic", p, dim.to_string()),
            };
        }
        let n = 1 + c.choose(4);
        let l: Vec<String> = (0..n).map(|_| c.pick(&RI).to_string()).collect();
        let d = svd::DimElement::builder().dim(n as u32).dim_increment(4).dim_index(Some(l.clone())).build(LEVELS[2]).unwrap();
        let num: Option<Vec<u32>> = l.iter().map(|s| s.parse::<u32>().ok().filter(|v| v.to_string() == *s)).collect();
        let want = num.filter(|v| v.windows(2).all(|w| w[0].checked_add(1) == Some(w[1]))).map(|v| v[0]..=v[v.len() - 1]);
        c.execs += 1;
        match sut(|| d.indexes_as_range()) {
            Ok(g) if g == want => hres(&l),
            Ok(g) => fail("indices as range", format!("expected {want:?}, got {g:?}"), format!("{l:?}")),
            Err(p) => fail("panic", p, format!("{l:?}")),
        }
    }));
    let sz = sizes(!q);
    v.push(space("long arrays", format!("arrays of {} sizes up to {} of 4 kinds, numbered, by list and by two ranges, increments 0, 1, 4", sz.len(), sz[sz.len() - 1]), move |c| {
        let k = *c.pick(&kinds());
        let n = *c.pick(&sz) as u64;
        let inc = *c.pick(&[4, 1, 0]);
        let mut e = plain(k).st("name", "N%s").st("description", "number %s").arr(n, inc);
        let l: Vec<String> = match c.choose(4) {
            0 => vec![],
            1 => (0..n).map(|i| i.to_string()).collect(),
            2 => (0..n).map(|i| (i + 95).to_string()).collect(),
            _ => (0..n).map(|i| format!("x{}", i * 7 % 1009)).collect(),
        };
        if !l.is_empty() {
            e.f.insert("dimIndex", V::L(l));
        }
        check(c, &e)
    }));
    let m = if q { 4 } else { 6 };
    v.push(space("placeholders in texts", format!("4 kinds x descriptions and displayed names of at most {m} of 6 tokens x 3 index forms"), move |c| {
        let k = *c.pick(&kinds());
        let s = token_string(c, &["%s", "[%s]", "[", "]", "a", " "], m);
        if s.trim().is_empty() || s.trim() != s {
            return Res::Skip;
        }
        let shown = c.flag();
        if shown && !matches!(k, K::Register | K::Periph) {
            return Res::Skip;
        }
        let e = plain(k).st("name", "R%s").arr(2, 8).st(if shown { "displayName" } else { "description" }, &s);
        let e = match c.choose(3) {
            0 => e,
            1 => e.with("dimIndex", V::L(vec!["A".into(), "B".into()])),
            _ => e.with("dimIndex", V::L(vec!["1".into(), "2".into()])),
        };
        check(c, &e)
    }));
    let m = if q { 2 } else { 3 };
    v.push(space("presence of optional parts", format!("4 kinds with at most {m} of their optional parts, or all but {m}, in two variants, of two, three, one or no elements"), move |c| {
        let k = *c.pick(&kinds());
        let mut e = subset_of(c, k, m);
        e.f.remove("@derivedFrom");
        if !e.is_array() {
            return Res::Skip;
        }
        // what is in clusters is C15's
        for l in e.c.values_mut() {
            l.retain(|x| x.k != K::Cluster);
        }
        if k == K::Cluster {
            e.c.entry("children").or_insert_with(|| vec![reg("KR", 8)]);
        }
        let e = resized(c, e);
        check(c, &e)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C14",
    spaces,
    rule: "index texts are read by an independent reader of the grammar; arrays of every kind are parsed, expanded and listed through the public helpers, and compared element by element with the reference expansion",
    assumptions: &[
        "index texts with empty items, blanks inside items or ranges, leading zeros or plus signs in ranges are outside the format and not judged",
        "ranges of more than 2000 numbers are not expanded here",
        "the notation in which an expanded field states its position is free",
    ],
};
