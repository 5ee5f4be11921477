//! C22: modifying an element overwrites exactly what the modifier sets.
use super::c21_builders::{same, start, valid};
use super::util::*;
use crate::bld::{self, *};

/// what an element leaves to the one it is said to be derived from
fn dropped(k: BK) -> &'static [&'static str] {
    match k {
        BK::El(K::Periph) => &["registers", "addressBlock", "size", "access", "protection", "resetValue", "resetMask"],
        BK::El(K::Cluster) => &["children", "size", "access", "protection", "resetValue", "resetMask"],
        BK::El(K::Register) => &["fields", "size", "access", "protection", "resetValue", "resetMask", "dataType", "modifiedWriteValues", "writeConstraint"],
        BK::El(K::Field) => &["modifiedWriteValues", "writeConstraint", "enumeratedValues"],
        BK::El(K::Enums) => &["name", "usage", "values"],
        _ => &[],
    }
}
/// None: not said
fn overlay(k: BK, base: &El, s: &Sum) -> Option<El> {
    let mut e = base.clone();
    let refers = s.e.f.contains_key("@derivedFrom");
    if refers {
        for t in dropped(k) {
            if s.e.f.contains_key(t) || s.e.c.contains_key(t) {
                return None;
            }
            e.f.remove(t);
            e.c.remove(t);
        }
        if s.e.f.contains_key("readAction") {
            return None;
        }
    }
    for (t, v) in &s.e.f {
        if matches!(v, V::S(x) if x.is_empty() && !(k == BK::El(K::Device) && *t == "description")) || matches!(v, V::L(x) if x.is_empty()) {
            e.f.remove(t);
        } else {
            e.f.insert(t, v.clone());
        }
    }
    for (t, l) in &s.e.c {
        if l.is_empty() {
            e.c.remove(t);
        } else {
            e.c.insert(t, l.clone());
        }
    }
    if let Some(V::BR(o, w, _)) = e.f.get_mut("bits") {
        *o = s.off.unwrap_or(*o);
        *w = s.wid.unwrap_or(*w);
    }
    Some(e)
}
fn base_of(k: BK, which: usize, refers: bool) -> Option<(Sum, Thing)> {
    let mut p = start(k, which);
    if !refers {
        p.retain(|c| c.0 != "@derivedFrom");
    } else if !p.iter().any(|c| c.0 == "@derivedFrom") {
        return None;
    }
    let mut s = Sum::new(k);
    p.iter().for_each(|x| s.call(x));
    if k == BK::El(K::Device) {
        refm::defaults(&mut s.e);
        s.e.f.entry("@xs:noNamespaceSchemaLocation").or_insert_with(|| V::s(DEF_LOC_XSD));
    }
    let mut b = bld::new(k);
    for x in &p {
        b = bld::call(b, x);
    }
    Some((s, bld::build(b, LEVELS[0]).ok()?))
}
fn check(c: &mut Ctx, k: BK, which: usize, refers: bool, l: &[Call], lvl: usize) -> Res {
    let Ok(Some((base, thing))) = sut(|| base_of(k, which, refers)) else { return Res::Skip };
    let mut s = Sum::new(k);
    l.iter().for_each(|x| s.call(x));
    let Some(want) = overlay(k, &base.e, &s) else { return Res::Skip };
    c.execs += 1;
    let txt = || {
        let mut t = format!("{} {} modified at {:?} by", k.tag(), base.e.brief(), LEVELS[lvl]);
        for (k, a) in l {
            t += &format!(" {k}={a:?}");
        }
        t
    };
    c.sample = c.want_sample.then(txt);
    let got = attempt(|| {
        let mut b = bld::new(k);
        for x in l {
            b = bld::call(b, x);
        }
        let mut t = thing.clone();
        bld::modify(&mut t, b, LEVELS[lvl]).map(|_| t)
    });
    let halves = s.halves;
    match (valid(k, &want, lvl), got) {
        (Ok(_), Out::Ok(g)) => match same(&want, &seen(&g), halves) {
            Some(m) => fail(format!("{}: {}", k.tag(), diff_sig(&m)), m, txt()),
            None => hres(seen(&g)),
        },
        (Err(e), Out::Err(_)) => hres(("err", e)),
        (Err(e), Out::Ok(_)) => fail(format!("{}: accepted: {e}", k.tag()), "should be an error", txt()),
        (_, o) => fail(format!("{}: {}", k.tag(), o.kind()), o.why(), txt()),
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for k in BKS {
        let all = Arc::new(calls(k));
        let n = if q || all.len() > 45 { 2 } else { 3 };
        v.push(space(format!("{}: modified by some values", k.tag()), format!("4 elements, with and without a reference, modified by all ordered sequences of at most {n} of {} calls, three levels", all.len()), move |c| {
            let lvl = c.choose(3);
            let which = 1 + c.choose(4);
            let refers = c.flag();
            let mut l = vec![];
            for _ in 0..n {
                let i = c.choose(all.len() + 1);
                if i == 0 {
                    break;
                }
                l.push(all[i - 1].clone());
            }
            if !c.state(&(lvl, which, refers, &l)) {
                return Res::Skip;
            }
            check(c, k, which, refers, &l, lvl)
        }));
        let sets = Arc::new(setters(k));
        let m = if q { 3 } else { 5 };
        v.push(space(format!("{}: modified by many values", k.tag()), format!("4 elements modified by all but at most {m} of {} values, one of two values for all, with and without a reference, three levels", sets.len()), move |c| {
            let lvl = c.choose(3);
            let which = 1 + c.choose(4);
            let refers = c.flag();
            let var = c.choose(2);
            let mut left = vec![];
            let mut from = 0;
            for _ in 0..m {
                if from == sets.len() {
                    break;
                }
                let i = c.choose(sets.len() - from + 1);
                if i == 0 {
                    break;
                }
                left.push(from + i - 1);
                from += i;
            }
            let l: Vec<Call> = sets
                .iter()
                .enumerate()
                .filter(|(i, s)| !left.contains(i) && !matches!(s.key, "bitOffset" | "bitWidth" | "@derivedFrom"))
                .map(|(_, s)| (s.key, s.vals[var.min(s.vals.len() - 1)].clone()))
                .collect();
            if !c.state(&(lvl, which, refers, &l)) {
                return Res::Skip;
            }
            check(c, k, which, refers, &l, lvl)
        }));
    }
    v.push(space("an element applied to itself and to another", "every kind: the builder of one of 3 elements without reference applied to each of 4 with or without, three levels", move |c| {
        let k = *c.pick(&BKS);
        let lvl = c.choose(3);
        let (a, b) = (1 + c.choose(3), 1 + c.choose(4));
        let refers = c.flag();
        if !c.state(&(k, lvl, a, b, refers)) {
            return Res::Skip;
        }
        let (Ok(Some((sa, ta))), Ok(Some((sb, tb)))) = (sut(|| base_of(k, a, false)), sut(|| base_of(k, b, refers))) else { return Res::Skip };
        // what the element has, and the lists which are always there
        let sa = {
            let mut e = seen(&ta);
            tidy_empty(&mut e);
            match k {
                BK::El(K::Periph) => drop(e.c.entry("interrupt").or_default()),
                BK::El(K::Field) => drop(e.c.entry("enumeratedValues").or_default()),
                BK::El(K::Enums) => drop(e.c.entry("values").or_default()),
                BK::El(K::Cluster) => drop(e.c.entry("children").or_default()),
                BK::El(K::Device) => drop(e.c.entry("peripherals").or_default()),
                _ => {}
            }
            let _ = sa;
            // what is always there replaces even when empty
            if k == BK::El(K::Device) {
                e.f.entry("description").or_insert_with(|| V::s(""));
            }
            Sum::of(e)
        };
        let Some(want) = overlay(k, &sb.e, &sa) else { return Res::Skip };
        c.execs += 1;
        let txt = || format!("{}: {} applied to {} at {:?}", k.tag(), sa.e.brief(), sb.e.brief(), LEVELS[lvl]);
        let got = attempt(|| {
            let mut t = tb.clone();
            bld::modify(&mut t, bld::back(ta.clone()), LEVELS[lvl]).map(|_| t)
        });
        match (valid(k, &want, lvl), got) {
            (Ok(_), Out::Ok(g)) => match same(&want, &seen(&g), false) {
                Some(m) => fail(format!("{} applied: {}", k.tag(), diff_sig(&m)), m, txt()),
                None => hres(seen(&g)),
            },
            (Err(e), Out::Err(_)) => hres(("err", e)),
            (Err(e), Out::Ok(_)) => fail(format!("{} applied: accepted: {e}", k.tag()), "should be an error", txt()),
            (_, o) => fail(format!("{} applied: {}", k.tag(), o.kind()), o.why(), txt()),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C22",
    spaces,
    rule: "each modifier is put together call by call, applied to the real element, and the outcome compared value by value with the reference element overlaid with what the modifier sets; an error is expected exactly when the reference validation rejects the result",
    assumptions: &["a modifier which sets both a reference and content the reference makes up for is not specified", "the element left behind by a rejected modification is not specified", "an empty text or list takes the value away"],
};
