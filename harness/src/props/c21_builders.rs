//! C21: builders build what they are given.
use super::util::*;
use crate::bld::{self, *};

/// what building should give
fn expected(k: BK, s: &Sum, lvl: usize) -> Result<El, String> {
    for st in setters(k) {
        if st.need == 2 || (st.need == 1 && lvl == 2) {
            let have = s.e.f.contains_key(st.key) || s.e.c.contains_key(st.key);
            if !have {
                return Err(format!("{} not set", st.key));
            }
        }
    }
    let mut e = s.e.clone();
    if matches!(k, BK::El(K::Enums)) {
        e.c.entry("values").or_default();
    }
    if k == BK::El(K::Device) {
        refm::defaults(&mut e);
        e.f.entry("@xs:noNamespaceSchemaLocation").or_insert_with(|| V::s(DEF_LOC_XSD));
    }
    // an empty text is no name
    if k == BK::El(K::Enums) && e.s("name") == Some("") {
        e.f.remove("name");
    }
    valid(k, &e, lvl)?;
    Ok(e)
}
pub fn valid(k: BK, e: &El, lvl: usize) -> Result<(), String> {
    match k {
        BK::Dim => Ok(()),
        // a register has them
        BK::Props => refm::validate_el(&e.clone().st("name", "R"), lvl),
        _ => refm::validate_el(e, lvl),
    }
}
pub fn same(w: &El, g: &El, halves: bool) -> Option<String> {
    let (mut w, mut g) = ([w.clone()], [g.clone()]);
    if halves {
        no_notation(&mut w);
        no_notation(&mut g);
    }
    tidy_empty(&mut w[0]);
    tidy_empty(&mut g[0]);
    diff(&w[0], &g[0])
}
fn text(k: BK, l: &[Call], lvl: usize) -> String {
    let mut s = format!("{} builder, level {:?}:", k.tag(), LEVELS[lvl]);
    for (k, a) in l {
        s += &format!(" {k}={a:?}");
    }
    s
}
/// `b` has had calls which add up to `s`; `l` is still to come
fn check(c: &mut Ctx, k: BK, b: Bld, mut s: Sum, l: &[Call], lvl: usize, desc: String) -> Res {
    c.execs += 1;
    let txt = || format!("{desc}{}", text(k, l, lvl));
    c.sample = c.want_sample.then(txt);
    for x in l {
        s.call(x);
    }
    let got = attempt(|| {
        let mut b = b;
        for x in l {
            b = bld::call(b, x);
        }
        bld::build(b, LEVELS[lvl])
    });
    let want = expected(k, &s, lvl);
    match (want, got) {
        (Ok(w), Out::Ok(g)) => match same(&w, &seen(&g), s.halves) {
            Some(m) => fail(format!("{}: {}", k.tag(), diff_sig(&m)), m, txt()),
            None => {
                // and back
                c.execs += 1;
                match attempt(|| bld::build(bld::back(g.clone()), LEVELS[lvl])) {
                    Out::Ok(h) if same(&seen(&h), &seen(&g), false).is_none() => hres(seen(&g)),
                    Out::Ok(h) => fail(format!("{}: builder of the element builds another", k.tag()), same(&seen(&g), &seen(&h), false).unwrap_or_default(), txt()),
                    o => fail(format!("{}: builder of the element: {}", k.tag(), o.kind()), o.why(), txt()),
                }
            }
        },
        (Err(e), Out::Err(_)) => hres(("err", e)),
        (Err(e), Out::Ok(_)) => fail(format!("{}: built: {e}", k.tag()), "should be an error", txt()),
        (_, o) => fail(format!("{}: {}", k.tag(), o.kind()), o.why(), txt()),
    }
}
pub fn start(k: BK, which: usize) -> Vec<Call> {
    let st = setters(k);
    match which {
        0 => vec![],
        1 => st.iter().filter(|s| s.need == 2).map(|s| (s.key, s.vals[0].clone())).collect(),
        // everything, with the first or the second value
        n => st.iter().filter(|s| !matches!(s.key, "bitOffset" | "bitWidth")).map(|s| (s.key, s.vals[(n - 2).min(s.vals.len() - 1)].clone())).collect(),
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for k in BKS {
        let all = Arc::new(calls(k));
        let big = all.len() > 30;
        let n = if q || big { 2 } else { 3 };
        let a = all.clone();
        v.push(space(format!("{}: call sequences", k.tag()), format!("all ordered sequences of at most {n} of {} calls on an empty builder, one with the mandatory values, one with everything, and one made from an element, three levels", all.len()), move |c| {
            let lvl = c.choose(3);
            let st = c.choose(5);
            let mut l = vec![];
            for _ in 0..n {
                let i = c.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                l.push(a[i - 1].clone());
            }
            if !c.state(&(lvl, st, &l)) {
                return Res::Skip;
            }
            if st < 4 {
                let mut p = start(k, st);
                p.extend(l);
                check(c, k, bld::new(k), Sum::new(k), &p, lvl, String::new())
            } else {
                let p = start(k, 3);
                let mut s = Sum::new(k);
                p.iter().for_each(|x| s.call(x));
                let b = match attempt(|| {
                    let mut b = bld::new(k);
                    for x in &p {
                        b = bld::call(b, x);
                    }
                    bld::build(b, LEVELS[0]).map(bld::back)
                }) {
                    Out::Ok(b) => b,
                    o => return fail(format!("{}: full element: {}", k.tag(), o.kind()), o.why(), ""),
                };
                check(c, k, b, s, &l, lvl, "made from a full element, then ".into())
            }
        }));
        let sets = Arc::new(setters(k));
        let m = if q { 3 } else { 5 };
        let ns = sets.len();
        v.push(space(format!("{}: sets of values", k.tag()), format!("at most {m} of {ns} values set, or all but {m}, every choice of one of two values for all, in order and reversed, three levels"), move |c| {
            let lvl = c.choose(3);
            let full = c.flag();
            let var = c.choose(2);
            let rev = c.flag();
            let mut flip = vec![];
            let mut from = 0;
            for _ in 0..m {
                if from == sets.len() {
                    break;
                }
                let i = c.choose(sets.len() - from + 1);
                if i == 0 {
                    break;
                }
                flip.push(from + i - 1);
                from += i;
            }
            let mut l: Vec<Call> = sets.iter().enumerate().filter(|(i, _)| full != flip.contains(i)).map(|(_, s)| (s.key, s.vals[var.min(s.vals.len() - 1)].clone())).collect();
            if rev {
                l.reverse();
            }
            if !c.state(&(lvl, &l)) {
                return Res::Skip;
            }
            check(c, k, bld::new(k), Sum::new(k), &l, lvl, String::new())
        }));
        let mand: Vec<Call> = start(k, 1);
        if mand.len() > 2 {
            let opt: Vec<Call> = setters(k).into_iter().filter(|s| s.need < 2 && !matches!(s.key, "bitOffset" | "bitWidth")).map(|s| (s.key, s.vals[0].clone())).collect();
            v.push(space(format!("{}: orders of mandatory values", k.tag()), format!("all orders of {} calls, with one of {} optional ones at any place", mand.len(), opt.len()), move |c| {
                let lvl = c.choose(3);
                let mut rest = mand.clone();
                if c.flag() {
                    rest.push(c.pick(&opt).clone());
                }
                let mut l = vec![];
                while !rest.is_empty() {
                    l.push(rest.remove(c.choose(rest.len())));
                }
                if !c.state(&(lvl, &l)) {
                    return Res::Skip;
                }
                check(c, k, bld::new(k), Sum::new(k), &l, lvl, String::new())
            }));
        }
    }
    v.push(space("single elements and arrays", "single, array and maybe_array of the four kinds with every kind of dimension", move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field]);
        let how = c.choose(4);
        let mut info = element(k, &|t| t == "description", 0);
        if k == K::Cluster {
            info.c.insert("children", vec![reg("RA", 0)]);
        }
        let dims = element(k, &|t| t.starts_with("dim"), c.choose(2));
        if !c.state(&(k, how, &dims)) {
            return Res::Skip;
        }
        c.execs += 1;
        let z = LEVELS[0];
        let mut want = info.clone();
        if how % 2 == 1 {
            for t in DIM_TAGS {
                want.f.extend(dims.f.get(t).map(|v| (t, v.clone())));
            }
            want.c.extend(dims.c.get("dimArrayIndex").map(|l| ("dimArrayIndex", l.clone())));
        }
        let got = attempt(|| {
            let dim = mk_dim(&dims, z)?.unwrap();
            macro_rules! put {
                ($b:expr, $v:expr) => {{
                    let i = $b?.build(z)?;
                    $v(&match how {
                        0 => i.single(),
                        1 => i.array(dim),
                        2 => i.maybe_array(None),
                        _ => i.maybe_array(Some(dim)),
                    })
                }};
            }
            Ok::<_, svd::SvdError>(match k {
                K::Periph => put!(b_peripheral(&info, z), peripheral_v),
                K::Cluster => put!(b_cluster(&info, z), cluster_v),
                K::Register => put!(b_register(&info, z), register_v),
                _ => put!(b_field(&info, z), field_v),
            })
        });
        match got {
            Out::Ok(g) => match diff(&want, &g) {
                None => hres(g),
                Some(m) => fail(format!("{} {how}: {}", k.tag(), diff_sig(&m)), m, want.brief()),
            },
            o => fail(format!("{}: {}", k.tag(), o.kind()), o.why(), want.brief()),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C21",
    spaces,
    rule: "each sequence of setter calls is made on the real builder and built at the level; the element is compared, value by value, with the sum of the calls (the last one wins), errors are expected exactly when a mandatory value is missing or the reference validation rejects the sum; the element turned into a builder builds itself",
    assumptions: &["an optional text or list set to an empty one may be kept or left out", "the notation of a bit position set by halves is free"],
};
