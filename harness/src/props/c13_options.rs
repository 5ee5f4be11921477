//! C13: options by name and by setter.
use super::util::*;
use encref::*;
use svd_encoder::{Config, DerivableSorting, IdentifierFormat as I, NumberFormat as N, RcSorting, Sorting};

const SORTS: [&str; 3] = ["peripheral_sorting", "field_sorting", "register_cluster_sorting"];
fn all_opts() -> Vec<&'static str> {
    CASE_OPTS.iter().chain(&NUM_OPTS).chain(&SORTS).chain(&["field_bit_range"]).copied().collect()
}
fn case(s: &str) -> I {
    match s {
        "Camel" => I::Camel,
        "Pascal" => I::Pascal,
        "Snake" => I::Snake,
        _ => I::Constant,
    }
}
fn num(s: &str) -> N {
    match s {
        "UpperHex" => N::UpperHex,
        "UpperHex8" => N::UpperHex8,
        "UpperHex16" => N::UpperHex16,
        "LowerHex" => N::LowerHex,
        "LowerHex8" => N::LowerHex8,
        "LowerHex16" => N::LowerHex16,
        "Dec" => N::Dec,
        _ => N::Bin,
    }
}
fn der(s: &str) -> DerivableSorting {
    let p: Vec<&str> = s.split(',').collect();
    let k = if p.contains(&"Offset") {
        Some(Sorting::Offset)
    } else if p.contains(&"OffsetReversed") {
        Some(Sorting::OffsetReversed)
    } else if p.contains(&"Name") {
        Some(Sorting::Name)
    } else {
        None
    };
    if p.contains(&"DerivedLast") {
        DerivableSorting::DeriveLast(k)
    } else {
        DerivableSorting::Unchanged(k)
    }
}
fn rc(s: &str) -> RcSorting {
    let p: Vec<&str> = s.split(',').collect();
    if p.contains(&"RegistersFirst") {
        RcSorting::RegistersFirst(der(s))
    } else if p.contains(&"ClustersFirst") {
        RcSorting::ClustersFirst(der(s))
    } else {
        RcSorting::Unchanged(der(s))
    }
}
fn values(o: &str) -> &'static [&'static str] {
    if CASE_OPTS.contains(&o) {
        &CASES
    } else if NUM_OPTS.contains(&o) {
        &NUM_FMTS
    } else if o == "field_bit_range" {
        &BITS_FMTS
    } else if o == "register_cluster_sorting" {
        &[
            "", "Offset", "OffsetReversed", "Name", "DerivedLast", "Offset,DerivedLast", "DerivedLast,Name", "OffsetReversed,DerivedLast",
            "RegistersFirst", "ClustersFirst", "RegistersFirst,Offset", "Name,ClustersFirst", "DerivedLast,RegistersFirst,OffsetReversed",
            "ClustersFirst,DerivedLast",
        ]
    } else {
        &["", "Offset", "OffsetReversed", "Name", "DerivedLast", "Offset,DerivedLast", "DerivedLast,Name", "OffsetReversed,DerivedLast"]
    }
}
/// through the setter
fn setter(c: Config, o: &str, v: &str) -> Config {
    match o {
        "peripheral_name" => c.peripheral_name(Some(case(v))),
        "interrupt_name" => c.interrupt_name(Some(case(v))),
        "cluster_name" => c.cluster_name(Some(case(v))),
        "register_name" => c.register_name(Some(case(v))),
        "field_name" => c.field_name(Some(case(v))),
        "enumerated_values_name" => c.enumerated_values_name(Some(case(v))),
        "enumerated_value_name" => c.enumerated_value_name(Some(case(v))),
        // has no setter
        "dim_array_index_header_enum_name" => {
            let mut c = c;
            c.dim_array_index_header_enum_name = Some(case(v));
            c
        }
        "peripheral_base_address" => c.peripheral_base_address(num(v)),
        "address_block_offset" => c.address_block_offset(num(v)),
        "address_block_size" => c.address_block_size(num(v)),
        "cluster_address_offset" => c.cluster_address_offset(num(v)),
        "register_address_offset" => c.register_address_offset(num(v)),
        "register_size" => c.register_size(num(v)),
        "register_reset_value" => c.register_reset_value(num(v)),
        "register_reset_mask" => c.register_reset_mask(num(v)),
        "enumerated_value_value" => c.enumerated_value_value(num(v)),
        "dim_dim" => c.dim_dim(num(v)),
        "dim_increment" => c.dim_increment(num(v)),
        "peripheral_sorting" => c.peripheral_sorting(der(v)),
        "field_sorting" => c.field_sorting(der(v)),
        "register_cluster_sorting" => c.register_cluster_sorting(rc(v)),
        "field_bit_range" => {
            // the type has no public name: by field
            let mut d = Config::default();
            d.update(o, v);
            c.field_bit_range(d.field_bit_range)
        }
        _ => unreachable!(),
    }
}
/// unsorted, mixed-case, with every number and notation
fn sample() -> El {
    let mut d = base_rich();
    let evs = El::new(K::Enums).st("name", "LateE").kid("values", ev("ValA", 1));
    let r = reg("ARegLate", 0x4).kids("fields", vec![fld("ZFld", 9, 1).kids("enumeratedValues", vec![evs]), fld("AFld", 3, 2)]);
    d.c.get_mut("peripherals").unwrap().insert(1, per("AFirst", 0x100, vec![clu("ZClu", 0x90, vec![r.clone()]), r, clu("AClu", 0x1, vec![reg("R", 0)])]).kid("interrupt", El::new(K::Interrupt).st("name", "IntName").nu("value", 77)));
    d
}
fn same(c: &mut Ctx, a: &Config, b: &Config, what: &str) -> Option<Res> {
    c.execs += 1;
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    (x != y).then(|| fail("configurations differ", format!("{what}: {x} / {y}"), what))
}
fn effect(c: &mut Ctx, d: &El, dev: &svd::Device, conf: &Config, e: &ECfg, what: &str) -> Option<Res> {
    c.execs += 1;
    let xml = match encode(dev, conf) {
        Out::Ok(x) => x,
        o => return Some(fail(format!("encoding: {}", o.kind()), o.why(), what)),
    };
    match encref::read(&xml) {
        Ok(got) => encref::compare(&encref::tree(d, e), &got).map(|m| fail("the option does something else", m, format!("{what}\n{xml}"))),
        Err(e) => Some(fail("not well-formed", e, xml)),
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let opts = Arc::new(all_opts());
    let d = Arc::new(norm(&sample()));
    let dv = Arc::new(build(&d, LEVELS[0]).expect("sample device"));
    let depth = if q { 2 } else { 3 };
    let (o1, d1, v1) = (opts.clone(), d.clone(), dv.clone());
    v.push(space(format!("all sequences of {depth} settings, by name and by setter"), "24 options x their values, per step; configurations compared, and what they write compared with the reference", move |c| {
        let mut a = Config::default();
        let mut b = Config::default();
        let mut e = ECfg::default();
        let mut what = vec![];
        let n = c.choose(depth + 1);
        for _ in 0..n {
            let o = *c.pick(&o1);
            let val = *c.pick(values(o));
            what.push((o, val));
        }
        if !c.state(&what) {
            return Res::Skip;
        }
        for (o, val) in &what {
            if let Err(p) = sut(|| a.update(o, val)) {
                return fail("panic on a valid setting", p, format!("{what:?}"));
            }
            b = setter(b, o, val);
            e = e.set(o, val);
        }
        let w = format!("{what:?}");
        c.sample = c.want_sample.then(|| w.clone());
        if let Some(r) = same(c, &a, &b, &w) {
            return r;
        }
        // the effect is compared for at most two settings
        if what.len() < 3 {
            if let Some(r) = effect(c, &d1, &v1, &a, &e, &w) {
                return r;
            }
        }
        hres(format!("{a:?}"))
    }));
    let (o1, d1, v1) = (opts.clone(), d.clone(), dv.clone());
    v.push(space("setters in any order", "every setter with every value before and after every other one", move |c| {
        let (o, p) = (*c.pick(&o1), *c.pick(&o1));
        let (x, y) = (*c.pick(values(o)), *c.pick(values(p)));
        let w = format!("{o}={x} {p}={y}");
        if o == p || !c.state(&w) {
            return Res::Skip;
        }
        let a = setter(setter(Config::default(), o, x), p, y);
        let b = setter(setter(Config::default(), p, y), o, x);
        if let Some(r) = same(c, &a, &b, &w) {
            return r;
        }
        if let Some(r) = effect(c, &d1, &v1, &a, &ECfg::default().set(o, x).set(p, y), &w) {
            return r;
        }
        hres(format!("{a:?}"))
    }));
    let o1 = opts.clone();
    v.push(space("names and values which do not exist", "unknown names with every kind of value, every option with foreign values, after one valid setting", move |c| {
        let pre = *c.pick(&o1);
        let pv = *c.pick(values(pre));
        let mut a = Config::default();
        a.update(pre, pv);
        let before = a;
        let unknown = c.flag();
        let (o, val) = if unknown {
            (*c.pick(&["", "peripheral", "Peripheral_name", "peripheral_names", "fields_name", "size", "config", "register_name ", "\u{e9}"]), *c.pick(&["", "Snake", "Dec", "Name", "BitRange", "?"]))
        } else {
            let o = *c.pick(&o1);
            let val = *c.pick(&["", "snake", "Kebab", "Hex", "dec", "UpperHex32", "Upper", "bitrange", "Msb", "Offset", "Dec", "Snake", "BitRange", " Snake", "Snake ", "1"]);
            if SORTS.contains(&o) || values(o).contains(&val) {
                return Res::Skip;
            }
            (o, val)
        };
        let w = format!("{pre}={pv} {o}={val}");
        if !c.state(&w) {
            return Res::Skip;
        }
        match sut(|| a.update(o, val)) {
            Ok(()) if unknown => {}
            // documented
            Err(_) if !unknown => {}
            Ok(()) => return fail("an invalid value is accepted", w.clone(), w),
            Err(p) => return fail("panic on an unknown name", p, w),
        }
        match same(c, &before, &a, &w) {
            Some(r) => r,
            None => hres(w),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C13",
    spaces,
    rule: "every option name with every value, in sequences, against the setters, and against an independent rendering of what the configuration must write",
    assumptions: &["invalid values panic as documented; sorting options take any text and ignore words they do not know", "dim_array_index_header_enum_name has a public field and no setter"],
};
