//! Shared by the property modules.
#[allow(unused_imports)]
pub use crate::bridge::{self, *};
pub use crate::encref::{self, ECfg};
pub use crate::engine::*;
pub use crate::gen::{self, *};
pub use crate::model::*;
pub use crate::refm;
pub use crate::xmlw::{self, Style, Xn};
pub use crate::{Prop, Tier};
#[allow(unused_imports)]
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::sync::Arc;
#[allow(unused_imports)]
pub use svd_rs::{self as svd, ValidateLevel};

pub fn pcfg(lvl: usize, expand: bool, props: bool, ignore: bool) -> svd_parser::Config {
    svd_parser::Config::default().validate_level(LEVELS[lvl]).expand(expand).expand_properties(props).ignore_enums(ignore)
}
#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn why(&self) -> &str {
        match self {
            Out::Ok(_) => "",
            Out::Err(e) | Out::Panic(e) => e,
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
}
pub fn attempt<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match sut(|| f().map_err(|e| e.to_string())) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}
pub fn parse(xml: &str, c: &svd_parser::Config) -> Out<svd::Device> {
    attempt(|| svd_parser::parse_with_config(xml, c).map_err(|e| format!("{e:#}")))
}
pub fn encode(d: &svd::Device, c: &svd_encoder::Config) -> Out<String> {
    attempt(|| svd_encoder::encode_with_config(d, c))
}
pub fn expand(d: &svd::Device) -> Out<svd::Device> {
    attempt(|| svd_parser::expand(d).map_err(|e| format!("{e:#}")))
}
pub const DEF_LOC_XSD: &str = "CMSIS-SVD_Schema_1_1.xsd";
/// The document as it should be in memory.
pub fn norm(d: &El) -> El {
    let mut e = d.clone();
    if !e.f.contains_key("@xmlns:xs") {
        e.f.remove("@xs:noNamespaceSchemaLocation");
    }
    refm::defaults(&mut e);
    e.f.entry("@xs:noNamespaceSchemaLocation").or_insert_with(|| V::s(DEF_LOC_XSD));
    gen::tidy(&mut e);
    e
}
pub fn hres<T: std::hash::Hash>(t: T) -> Res {
    Res::Ok(h64(&t))
}
/// every string over the tokens with at most `max` of them, including the empty one
pub fn token_string(c: &mut Ctx, toks: &[&str], max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        let k = c.choose(toks.len() + 1);
        if k == 0 {
            break;
        }
        s.push_str(toks[k - 1]);
    }
    s
}
pub fn min_xml() -> String {
    xmlw::xml(&gen::base_min(), &Style::default())
}
/// encoder configurations which together switch every option on
pub fn enc_configs() -> Vec<svd_encoder::Config> {
    let mk = |case: &str, nf: &str, br: &str, so: &str, rc: &str| {
        let mut c = svd_encoder::Config::default();
        for n in CASE_OPTS {
            c.update(n, case);
        }
        for n in NUM_OPTS {
            c.update(n, nf);
        }
        c.update("field_bit_range", br);
        c.update("peripheral_sorting", so);
        c.update("field_sorting", so);
        c.update("register_cluster_sorting", rc);
        c
    };
    vec![
        svd_encoder::Config::default(),
        mk("Pascal", "Bin", "BitRange", "Offset,DerivedLast", "RegistersFirst,Offset,DerivedLast"),
        mk("Snake", "LowerHex16", "MsbLsb", "OffsetReversed", "ClustersFirst,OffsetReversed"),
        mk("Constant", "UpperHex8", "OffsetWidth", "Name,DerivedLast", "Name,DerivedLast"),
    ]
}
pub const CASE_OPTS: [&str; 8] = [
    "peripheral_name",
    "interrupt_name",
    "cluster_name",
    "register_name",
    "field_name",
    "enumerated_values_name",
    "enumerated_value_name",
    "dim_array_index_header_enum_name",
];
pub const NUM_OPTS: [&str; 11] = [
    "peripheral_base_address",
    "address_block_offset",
    "address_block_size",
    "cluster_address_offset",
    "register_address_offset",
    "register_size",
    "register_reset_value",
    "register_reset_mask",
    "enumerated_value_value",
    "dim_dim",
    "dim_increment",
];

/// the notation in which an expanded field states its position is free
pub fn no_notation(l: &mut [El]) {
    for e in l {
        e.walk_mut(&mut |x| {
            if let Some(V::BR(_, _, t)) = x.f.get_mut("bits") {
                *t = 0;
            }
        });
    }
}
/// the same, but only for the fields which the reference made out of an array
pub fn free_notation(want: &mut El, got: &mut El) {
    let mut l = vec![];
    want.walk_mut(&mut |x| {
        if let Some(V::BR(_, _, t)) = x.f.get_mut("bits") {
            l.push(*t == refm::FREE);
            if *t == refm::FREE {
                *t = 0;
            }
        }
    });
    let mut l = l.into_iter();
    got.walk_mut(&mut |x| {
        if let Some(V::BR(_, _, t)) = x.f.get_mut("bits") {
            if l.next() == Some(true) {
                *t = 0;
            }
        }
    });
}
/// The device as the library holds it: parsed from text or put together by builders.
pub fn device_of(d: &El, xml: bool) -> Result<svd::Device, Res> {
    if xml {
        let x = xmlw::xml(d, &Style::default());
        match parse(&x, &pcfg(0, false, false, false)) {
            Out::Ok(d) => Ok(d),
            o => Err(fail(format!("parse: {}", o.kind()), o.why(), x)),
        }
    } else {
        match attempt(|| build(&norm(d), LEVELS[0])) {
            Out::Ok(d) => Ok(d),
            o => Err(fail(format!("building: {}", o.kind()), o.why(), d.brief())),
        }
    }
}
/// Expansion of a whole device compared with the reference.
pub fn expand_check(c: &mut Ctx, d: &El, xml: bool) -> Res {
    let n = norm(d);
    let device = match device_of(d, xml) {
        Ok(d) => d,
        Err(r) => return r,
    };
    c.execs += 1;
    c.sample = c.want_sample.then(|| xmlw::xml(d, &Style::default()));
    let text = || xmlw::xml(d, &Style::default());
    match (refm::expand(&n), expand(&device)) {
        (Ok(w), Out::Ok(g)) => {
            let (mut w, mut g) = (w, view(&g));
            free_notation(&mut w, &mut g);
            match diff(&w, &g) {
                None => hres(&g),
                Some(m) => fail(format!("expanded differently: {}", diff_sig(&m)), m, text()),
            }
        }
        (Err(_), Out::Err(_)) => hres("err"),
        (Err(e), Out::Ok(_)) => fail("expansion accepts what it should reject", format!("{e:?}"), text()),
        (_, o) => fail(format!("expand: {}", o.kind()), o.why(), text()),
    }
}
