//! C05: validation accepts exactly what its level allows.
use super::util::*;

/// The document can be read at all (mandatory parts present, arrays complete).
pub fn readable(d: &El) -> Result<(), String> {
    let mut r = Ok(());
    d.walk(&mut vec![], &mut |e, _| {
        if r.is_err() {
            return;
        }
        for (t, _, mand) in fields(e.k) {
            if *mand && !e.f.contains_key(t) {
                r = Err(format!("{} without {t}", e.k.tag()));
                return;
            }
        }
        if dimmable(e.k) && e.is_array() && !e.f.contains_key("dim") {
            r = Err("dim missing".into());
        }
    });
    r?;
    refm::arrays_ok(d)
}
/// parts of array descriptions without dimIncrement have no stated meaning
pub fn stray_dim(d: &El) -> bool {
    let mut r = false;
    d.walk(&mut vec![], &mut |e, _| r |= dimmable(e.k) && !e.is_array() && (DIM_TAGS.iter().any(|t| e.f.contains_key(t)) || e.c.contains_key("dimArrayIndex")));
    r
}
/// Verdicts of the parser at the three levels against the reference rules.
pub fn verdicts(c: &mut Ctx, d: &El, x: &str) -> Res {
    let rd = readable(d);
    let want = norm_if(d, rd.is_ok());
    let mut seen = vec![];
    for lvl in 0..3 {
        c.execs += 1;
        let ok = rd.clone().and_then(|_| refm::validate(d, lvl));
        // the weak level is the one used when none is asked for
        let got = if lvl == 1 { attempt(|| svd_parser::parse(x).map_err(|e| format!("{e:#}"))) } else { parse(x, &pcfg(lvl, false, false, false)) };
        match (&ok, got) {
            (Ok(()), Out::Ok(dev)) => {
                let got = match sut(|| view(&dev)) {
                    Ok(g) => g,
                    Err(e) => return fail("view-panic", e, x),
                };
                if let Some(m) = diff(want.as_ref().unwrap(), &got) {
                    return fail(format!("result depends on the level: {}", diff_sig(&m)), format!("{:?}: {m}", LEVELS[lvl]), x);
                }
                seen.push(0);
            }
            (Err(_), Out::Err(_)) => seen.push(1),
            (Ok(()), o) => return fail(format!("{:?}: {} on an allowed document", LEVELS[lvl], o.kind()), o.why().to_string(), x),
            (Err(m), o) => return fail(format!("{:?}: {} although {}", LEVELS[lvl], o.kind(), m.split(':').next_back().unwrap_or("").trim()), format!("{m} {}", o.why()), x),
        }
    }
    // the same rules when the device is validated as a whole
    if rd.is_ok() {
        if let Out::Ok(dev) = parse(x, &pcfg(0, false, false, false)) {
            // (values of an array enumeration and elements which only strict reading requires belong to reading)
            let mut e = d.clone();
            refm::defaults(&mut e);
            e.walk_mut(&mut |e| {
                if e.k == K::DimArr {
                    e.c.insert("values", vec![]);
                }
            });
            for lvl in 0..3 {
                c.execs += 1;
                let want = refm::validate(&e, lvl);
                match (&want, attempt(|| dev.validate_all(LEVELS[lvl]))) {
                    (Ok(()), Out::Ok(())) | (Err(_), Out::Err(_)) => {}
                    (Ok(()), o) => return fail(format!("{:?}: validating {} an allowed device", LEVELS[lvl], o.kind()), o.why().to_string(), x),
                    (Err(m), o) => return fail(format!("{:?}: validating {} although {}", LEVELS[lvl], o.kind(), m.split(':').next_back().unwrap_or("").trim()), format!("{m} {}", o.why()), x),
                }
            }
        }
    }
    hres((seen, want.map(|w| h64(&w) & 0xff)))
}
fn norm_if(d: &El, ok: bool) -> Option<El> {
    ok.then(|| norm(d))
}
fn doc(c: &mut Ctx, d: &El) -> Res {
    if stray_dim(d) || !c.state(d) {
        return Res::Skip;
    }
    let x = xmlw::xml(d, &Style { ws: 1, ..Default::default() });
    c.sample = c.want_sample.then(|| x.clone());
    verdicts(c, d, &x)
}
pub const NAME_TOKS: [&str; 13] = ["a", "Z", "_", "9", "%s", "[%s]", "[", "]", "%", "-", ".", " ", "é"];

fn lvl_check(what: &str, input: &str, want_strict: bool, got: impl Fn(usize) -> Result<Result<(), String>, String>) -> Option<Res> {
    for lvl in 0..3 {
        let want = lvl < 2 || want_strict;
        match got(lvl) {
            Err(p) => return Some(fail(format!("{what}: panic"), p, input)),
            Ok(r) => {
                if r.is_ok() != want {
                    return Some(fail(format!("{what}: {}", if want { "rejected" } else { "accepted" }), format!("{:?} level {:?}: {r:?}", input, LEVELS[lvl]), input));
                }
            }
        }
    }
    None
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let rich = Arc::new(DocSpace::new(base_rich(), ANY_DEL));
    let r = rich.clone();
    v.push(space("rich document, one edit", format!("{} edits over valid and invalid values, three levels", r.n()), move |c| match r.upto(c, 1) {
        Some(d) => doc(c, &d),
        None => Res::Skip,
    }));
    for k in MED {
        let s = DocSpace::new(base_med(k), if q && k != K::Field { ANY } else { ANY_DEL });
        let depth = if q && matches!(k, K::Device | K::Periph | K::Cluster) { 1 } else { 2 };
        v.push(space(format!("{} in full, {depth} edits", k.tag()), format!("up to {depth} of {} edits, three levels", s.n()), move |c| match s.upto(c, depth) {
            Some(d) => doc(c, &d),
            None => Res::Skip,
        }));
    }
    let s = DocSpace::new(base_min(), ANY_DEL);
    let depth = if q { 2 } else { 3 };
    v.push(space(format!("small document, {depth} edits"), format!("up to {depth} edits (the first out of {}), three levels", s.n()), move |c| match s.upto(c, depth) {
        Some(d) => doc(c, &d),
        None => Res::Skip,
    }));
    let m = if q { 3 } else { 5 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants, three levels"), move |c| {
        let e = subset(c, m);
        doc(c, &host(e))
    }));
    // names
    let n = if q { 4 } else { 5 };
    v.push(space("names and references through builders", format!("all strings of at most {n} tokens over {NAME_TOKS:?} as every kind of name and reference, three levels"), move |c| {
        let s = token_string(c, &NAME_TOKS, n);
        if !c.state(&s) {
            return Res::Skip;
        }
        c.execs += 14 * 3;
        let (dimable, plain, path) = (refm::dimable_ok(&s), refm::plain_name_ok(&s), refm::path_ok(&s));
        let r = |x: Result<(), svd::SvdError>| x.map_err(|e| e.to_string());
        use svd::*;
        let val = || EnumeratedValue::builder().name("V".into()).value(Some(0)).build(ValidateLevel::Weak).unwrap();
        macro_rules! chk {
            ($what:expr, $want:expr, $e:expr) => {
                if let Some(f) = lvl_check($what, &s, $want, |l| sut(|| r($e.build(LEVELS[l]).map(|_| ())))) {
                    return f;
                }
            };
        }
        let st = || s.clone();
        let so = || Some(s.clone());
        let kid = || vec![RegisterCluster::Register(RegisterInfo::builder().name("R".into()).address_offset(0).build(ValidateLevel::Weak).unwrap().single())];
        chk!("register name", dimable, RegisterInfo::builder().name(st()).address_offset(0));
        chk!("field name", dimable, FieldInfo::builder().name(st()).bit_range(BitRange::from_offset_width(0, 1)));
        chk!("cluster name", dimable, ClusterInfo::builder().name(st()).address_offset(0).children(kid()));
        chk!("peripheral name", dimable, PeripheralInfo::builder().name(st()).base_address(0));
        chk!("enumeratedValue name", plain, EnumeratedValue::builder().name(st()).value(Some(0)));
        chk!("enumeratedValues name", plain, EnumeratedValues::builder().name(so()).values(vec![val()]));
        // an empty text means "not given" for optional names
        chk!("alternateGroup", plain || s.is_empty(), RegisterInfo::builder().name("R".into()).address_offset(0).alternate_group(so()));
        if !s.is_empty() {
            chk!("alternateRegister", dimable, RegisterInfo::builder().name("R".into()).address_offset(0).alternate_register(so()));
            chk!("register derivedFrom", path, RegisterInfo::builder().name("R".into()).address_offset(0).derived_from(so()));
            chk!("field derivedFrom", path, FieldInfo::builder().name("F".into()).bit_range(BitRange::from_offset_width(0, 1)).derived_from(so()));
            chk!("cluster derivedFrom", path, ClusterInfo::builder().name("C".into()).address_offset(0).children(kid()).derived_from(so()));
            chk!("cluster derivedFrom without children", path, ClusterInfo::builder().name("C".into()).address_offset(0).children(vec![]).derived_from(so()));
            chk!("peripheral derivedFrom", dimable, PeripheralInfo::builder().name("P".into()).base_address(0).derived_from(so()));
            chk!("enumeratedValues derivedFrom", path, EnumeratedValues::builder().derived_from(so()));
        }
        hres((dimable, plain, path))
    }));
    let nd = if q { 3 } else { 4 };
    v.push(space("names and references in documents", format!("all strings of at most {nd} tokens in 11 places of a document, three levels"), move |c| {
        let place = c.choose(11);
        let s = token_string(c, &NAME_TOKS, nd);
        if s.trim() != s || s.is_empty() {
            return Res::Skip;
        }
        let mut d = dev(vec![per("PA", 0x4000_0000, vec![
            reg("RA", 0).kids("fields", vec![fld("FA", 0, 4).kids("enumeratedValues", vec![El::new(K::Enums).st("name", "E").kid("values", ev("V", 1))])]),
            clu("CA", 0x100, vec![reg("RB", 0)]),
        ])]);
        let p = ("peripherals", 0);
        let r = ("registers", 0);
        let (path, tag): (Vec<(&'static str, usize)>, &'static str) = match place {
            0 => (vec![p], "name"),
            1 => (vec![p, r], "name"),
            2 => (vec![p, ("registers", 1)], "name"),
            3 => (vec![p, r, ("fields", 0)], "name"),
            4 => (vec![p, r, ("fields", 0), ("enumeratedValues", 0)], "name"),
            5 => (vec![p, r, ("fields", 0), ("enumeratedValues", 0), ("values", 0)], "name"),
            6 => (vec![p, r], "@derivedFrom"),
            7 => (vec![p, r, ("fields", 0)], "@derivedFrom"),
            8 => (vec![p, ("registers", 1)], "@derivedFrom"),
            9 => (vec![p, r], "alternateRegister"),
            _ => (vec![p], "@derivedFrom"),
        };
        d.at_mut(&path).unwrap().f.insert(tag, V::S(s));
        tidy(&mut d);
        doc(c, &d)
    }));
    // reset values
    let sizes: &[Option<u64>] = &[None, Some(0), Some(1), Some(2), Some(7), Some(8), Some(16), Some(31), Some(32), Some(33), Some(63), Some(64), Some(65), Some(128), Some(u32::MAX as u64)];
    let mut vals: Vec<Option<u64>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(0xaa), Some(0x55)];
    for k in [7u32, 8, 16, 31, 32, 33, 63] {
        for d in [-1i64, 0, 1] {
            vals.push(Some((1u64 << k).wrapping_add(d as u64)));
        }
    }
    vals.push(Some(u64::MAX));
    vals.push(Some(u64::MAX - 1));
    v.push(space("size, reset value and mask", format!("{} sizes x {} values x {} masks in device, peripheral, cluster and register, three levels", sizes.len(), vals.len(), vals.len()), move |c| {
        let (s, rv, m) = (*c.pick(sizes), *c.pick(&vals), *c.pick(&vals));
        c.state(&(s, rv, m));
        let mut p = svd::RegisterProperties::new();
        p.size = s.map(|s| s as u32);
        p.reset_value = rv;
        p.reset_mask = m;
        c.execs += 12;
        let e = {
            let mut e = El::new(K::Register).st("name", "R").nu("addressOffset", 0);
            for (t, x) in [("size", s), ("resetValue", rv), ("resetMask", m)] {
                if let Some(x) = x {
                    e.f.insert(t, V::N(x));
                }
            }
            e
        };
        let mut out = vec![];
        for lvl in 0..3 {
            let want = refm::validate_el(&e, lvl).is_ok();
            out.push(want);
            let l = LEVELS[lvl];
            use svd::*;
            let kid = || vec![RegisterCluster::Register(RegisterInfo::builder().name("R".into()).address_offset(0).build(ValidateLevel::Weak).unwrap().single())];
            let per = || PeripheralInfo::builder().name("P".into()).base_address(0).build(ValidateLevel::Weak).unwrap().single();
            let got = [
                ("properties", sut(|| p.build(l).is_ok())),
                ("register", sut(|| RegisterInfo::builder().name("R".into()).address_offset(0).properties(p).build(l).is_ok())),
                ("cluster", sut(|| ClusterInfo::builder().name("C".into()).address_offset(0).children(kid()).default_register_properties(p).build(l).is_ok())),
                ("peripheral", sut(|| PeripheralInfo::builder().name("P".into()).base_address(0).default_register_properties(p).build(l).is_ok())),
                (
                    "device",
                    sut(|| {
                        let d = Device::builder().name("D".into()).version("1".into()).description("d".into()).address_unit_bits(8).width(32).schema_version("1.3".into());
                        let d = d.default_register_properties(p).peripherals(vec![per()]).build(l);
                        // the device hands the check of its properties to validate_all or to the parser
                        d.and_then(|d| d.validate_all(l)).is_ok()
                    }),
                ),
            ];
            for (w, g) in got {
                match g {
                    Err(e) => return fail(format!("{w}: panic"), e, format!("{p:?} {l:?}")),
                    Ok(g) if g != want => return fail(format!("{w}: reset value rule"), format!("{p:?} at {l:?}: accepted={g}, expected {want}"), format!("{p:?} {l:?}")),
                    _ => {}
                }
            }
        }
        hres(out)
    }));
    // width against values
    let top = if q { 66 } else { 130 };
    v.push(space("enumerated values and write constraints against the width", format!("widths 1..={top}, values and bounds 0, 1 and 2^k +-1 for k in 0..=64, three levels, at two offsets"), move |c| {
        let w = 1 + c.choose(top) as u32;
        let vals: Vec<u64> = {
            let mut v = vec![0u64, 1, 2, 3, u64::MAX];
            for k in [w.saturating_sub(1), w, w + 1, 63] {
                if k < 64 {
                    v.extend([(1u64 << k) - 1, 1u64 << k, (1u64 << k) + 1]);
                }
            }
            v.sort();
            v.dedup();
            v
        };
        let off = [0u32, 60][c.choose(2)];
        let mode = c.choose(3);
        let a = *c.pick(&vals);
        let b = if mode == 2 { 0 } else { *c.pick(&vals) };
        let mut f = El::new(K::Field).st("name", "F").with("bits", V::BR(off, w, 1));
        match mode {
            0 => {
                f.f.insert("writeConstraint", V::Range(a, b));
            }
            1 => {
                f = f.kids("enumeratedValues", vec![El::new(K::Enums).st("usage", "read").kid("values", ev("A", 0)).kid("values", ev("B", a)), El::new(K::Enums).st("usage", "write").kid("values", ev("C", b))]);
            }
            _ => {
                f = f.kids("enumeratedValues", vec![El::new(K::Enums).st("@derivedFrom", "X").kid("values", ev("B", a))]);
            }
        }
        if !c.state(&f) {
            return Res::Skip;
        }
        let mut out = vec![];
        for lvl in 0..3 {
            c.execs += 1;
            let want = refm::validate_el(&f, lvl).is_ok();
            out.push(want);
            match sut(|| mk_field(&f, LEVELS[lvl]).map(|_| ()).map_err(|e| e.to_string())) {
                Err(e) => return fail("field: panic", e, f.brief()),
                Ok(g) if g.is_ok() != want => return fail(if mode == 0 { "write constraint rule" } else { "enumerated value rule" }, format!("{:?}: {g:?}, expected ok={want}", LEVELS[lvl]), f.brief()),
                _ => {}
            }
        }
        hres((out, w, mode))
    }));
    // usages
    v.push(space("combinations of value sets", "all lists of at most 3 value sets, each derived or with no usage or one of three, with 0, 1 or 2 values; values with all combinations of value and default flag; three levels", move |c| {
        let n = c.choose(4);
        let mut l = vec![];
        for _ in 0..n {
            let mut e = El::new(K::Enums);
            if let Some(u) = [None, Some("read"), Some("write"), Some("read-write")][c.choose(4)] {
                e.f.insert("usage", V::s(u));
            }
            if c.flag() {
                e.f.insert("@derivedFrom", V::s("X"));
            }
            let mut vs = vec![];
            for i in 0..c.choose(3) {
                let mut x = El::new(K::EnumV).st("name", if i == 0 { "A" } else { "B" });
                if n < 2 {
                    match c.choose(6) {
                        0 => x = x.nu("value", 1),
                        1 => {}
                        2 => x = x.nu("value", 1).bo("isDefault", true),
                        3 => x = x.nu("value", 0).bo("isDefault", false),
                        4 => x = x.bo("isDefault", true),
                        _ => x = x.bo("isDefault", false),
                    }
                } else {
                    x = x.nu("value", i as u64);
                }
                vs.push(x);
            }
            e.c.insert("values", vs);
            l.push(e);
        }
        let mut d = dev(vec![per("PA", 0, vec![reg("RA", 0).kids("fields", vec![fld("FA", 0, 2).kids("enumeratedValues", l)])])]);
        tidy(&mut d);
        doc(c, &d)
    }));
    v.push(space("empty containers", "device, registers, fields, clusters and value sets present but empty, alone and together, derived or not, three levels", move |c| {
        let mut r = reg("RA", 0);
        match c.choose(3) {
            0 => {}
            1 => r = r.kids("fields", vec![]),
            _ => r = r.kids("fields", vec![fld("F", 0, 1)]),
        }
        if c.flag() {
            r = r.st("@derivedFrom", "X");
        }
        let mut cl = clu("CA", 0, if c.flag() { vec![r.clone()] } else { vec![] });
        if c.flag() {
            cl = cl.st("@derivedFrom", "X");
        }
        let mut p = per("PA", 0, vec![]);
        match c.choose(5) {
            0 => {}
            1 => {
                p.c.remove("registers");
            }
            2 => p = p.kids("registers", vec![r]),
            3 => p = p.kids("registers", vec![cl]),
            _ => p = p.kids("registers", vec![r, clu("CB", 4, vec![cl])]),
        }
        if c.flag() {
            p = p.st("@derivedFrom", "X");
        }
        let ps = match c.choose(3) {
            0 => vec![],
            1 => vec![p],
            _ => vec![per("PB", 0, vec![reg("RZ", 0)]), p],
        };
        let mut d = dev(ps);
        tidy(&mut d);
        doc(c, &d)
    }));
    let sz = gen::sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}, one element of it in one of 4 places broken or none, three levels", sz.len(), sz[sz.len() - 1]), move |c| {
        // at most one element of it, the first, middle or last, breaks a rule
        let (k, n, mut d) = any_crowd(c, &sz);
        spoil(c, k, n, &mut d);
        doc(c, &d)
    }));
    let m = if q { 1 } else { 2 };
    v.push(space("presence and one edit", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit over valid and invalid values"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &ANY) else { return Res::Skip };
        let d = host(e);
        doc(c, &d)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C05",
    spaces,
    rule: "a case is one document (or one element through its builder) at the three levels; the reference rules say which levels accept it",
    assumptions: &["the rules of each level are those listed in the property; array parts without dimIncrement and write constraints of registers carry no rule"],
};
