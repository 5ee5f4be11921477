//! C27: the public helpers for deriving elements.
use super::c16_derive::{bare, options, put, skeleton, state_trait, traits};
use super::util::*;
use svd::{DeriveFrom, MaybeArray};
use svd_parser::expand::{self as x, BlockPath, FieldPath, Index, RegisterPath};

const KINDS: [K; 5] = [K::Periph, K::Cluster, K::Register, K::Field, K::Enums];
/// the element overlaid, and both operands afterwards
fn overlay(own: &El, base: &El) -> Option<Result<[El; 3], String>> {
    let z = LEVELS[0];
    macro_rules! go {
        ($mk:ident, $v:ident) => {{
            let (a, b) = ($mk(own, z).ok()?, $mk(base, z).ok()?);
            Some(sut(|| a.derive_from(&b)).map(|r| [$v(&r), $v(&a), $v(&b)]))
        }};
    }
    match own.k {
        K::Periph => go!(mk_peripheral, peripheral_v),
        K::Cluster => go!(mk_cluster, cluster_v),
        K::Register => go!(mk_register, register_v),
        K::Field => go!(mk_field, field_v),
        _ => go!(mk_enums, enums_v),
    }
}
/// the same without the array around it
fn overlay_info(own: &El, base: &El) -> Option<Result<El, String>> {
    let z = LEVELS[0];
    macro_rules! go {
        ($mk:ident, $v:ident) => {{
            let (a, b) = (info($mk(own, z).ok()?), info($mk(base, z).ok()?));
            Some(sut(|| $v(&a.derive_from(&b))))
        }};
    }
    fn info<T>(m: MaybeArray<T>) -> T {
        match m {
            MaybeArray::Single(t) | MaybeArray::Array(t, _) => t,
        }
    }
    match own.k {
        K::Periph => go!(mk_peripheral, peripheral_info_v),
        K::Cluster => go!(mk_cluster, cluster_info_v),
        K::Register => go!(mk_register, register_info_v),
        K::Field => go!(mk_field, field_info_v),
        _ => None,
    }
}
fn no_dim(e: &El) -> El {
    let mut e = e.clone();
    for t in DIM_TAGS {
        e.f.remove(t);
    }
    e.c.remove("dimArrayIndex");
    e
}
/// an empty list which is always there is the same as none
fn lists(mut e: El) -> El {
    e.walk_mut(&mut |e| {
        for g in ["children", "enumeratedValues", "values", "interrupt"] {
            if e.c.get(g).is_some_and(|l| l.is_empty()) {
                e.c.remove(g);
            }
        }
    });
    e
}
fn pair(c: &mut Ctx, own: &El, base: &El) -> Res {
    let (own, base) = (&lists(own.clone()), &lists(base.clone()));
    let txt = || format!("{}\nderived from\n{}", own.brief(), base.brief());
    let k = own.k;
    let Some(r) = overlay(own, base) else { return Res::Skip };
    c.execs += 1;
    let [g, a, b] = match r {
        Ok(r) => r,
        Err(p) => return fail(format!("{}: panic", k.tag()), p, txt()),
    };
    let want = lists(refm::merge(own, base));
    if let Some(m) = diff(&want, &lists(g)) {
        return fail(format!("{}: {}", k.tag(), diff_sig(&m)), m, txt());
    }
    if diff(&lists(own.clone()), &lists(a)).is_some() || diff(&lists(base.clone()), &lists(b)).is_some() {
        return fail(format!("{}: operand changed", k.tag()), "", txt());
    }
    match overlay_info(own, base) {
        None => {}
        Some(Err(p)) => return fail(format!("{}: panic", k.tag()), p, txt()),
        Some(Ok(g)) => {
            let w = no_dim(&lists(refm::merge(&no_dim(own), &no_dim(base))));
            if let Some(m) = diff(&w, &lists(g)) {
                return fail(format!("{} without dimension: {}", k.tag(), diff_sig(&m)), m, txt());
            }
        }
    }
    hres(&want)
}
/// single and array forms of both; a name with placeholder takes over the array
fn shape(c: &mut Ctx, own: El, base: El) -> Option<(El, El)> {
    if !dimmable(own.k) {
        return Some((own, base));
    }
    let (mut own, mut base) = (own, base);
    match c.choose(3) {
        0 => {}
        1 => base = base.st("name", "BASE%s").arr(2, 4).with("dimIndex", V::L(vec!["A".into(), "B".into()])).st("dimName", "DN"),
        _ => base = base.st("name", "BASE[%s]").arr(3, 0).kid("dimArrayIndex", El::new(K::DimArr).st("headerEnumName", "H").kid("values", ev("X", 0)).kid("values", ev("Y", 1)).kid("values", ev("Z", 2))),
    }
    match c.choose(5) {
        0 => {}
        1 => own = own.st("name", "OWN%s").arr(3, 2),
        2 => own = own.st("name", "OWN[%s]").arr(2, 8).with("dimIndex", V::L(vec!["P".into(), "Q".into()])).st("dimName", "ON"),
        n => {
            // a placeholder without any array is not specified
            if !base.is_array() {
                return None;
            }
            own = own.st("name", ["OWN%s", "OWN[%s]"][n - 3]);
        }
    }
    Some((own, base))
}
fn build_pair(k: K, st: &[usize]) -> (El, El) {
    let ts = traits(k);
    let mut own = bare(k, "OWN", 0x10);
    let mut base = bare(k, "BASE", 0x8);
    for (t, s) in ts.iter().zip(st) {
        if s & 1 == 1 {
            state_trait(&mut own, t, 0);
        }
        if s & 2 == 2 {
            state_trait(&mut base, t, 1);
        }
    }
    (own, base)
}
fn path_of(loc: &[String]) -> BlockPath {
    let mut p = BlockPath::new(&loc[0]);
    p.path = loc[1..].to_vec();
    p
}
/// every derived element of the device through its public helper
fn helpers(c: &mut Ctx, d: &El) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    let d = norm(&d);
    if !c.state(&d) {
        return Res::Skip;
    }
    c.sample = c.want_sample.then(|| d.brief());
    let Ok(dev) = device_of(&d, false) else { return Res::Skip };
    let ex = refm::Expander::new(&d);
    let index = Index::create(&dev);
    let mut out = vec![];
    let mut todo: Vec<(El, Vec<String>)> = vec![];
    let mut names: Vec<(usize, String)> = vec![];
    d.walk(&mut vec![], &mut |e, p| {
        if matches!(e.k, K::Periph | K::Cluster | K::Register | K::Field | K::Enums) {
            names.retain(|(n, _)| *n < p.len());
            names.push((p.len(), e.name().to_string()));
            if e.f.contains_key("@derivedFrom") {
                todo.push((e.clone(), names.iter().map(|x| x.1.clone()).collect()));
            }
        }
    });
    let z = LEVELS[0];
    for (e, loc) in todo {
        let r = e.s("@derivedFrom").unwrap().to_string();
        let txt = || format!("{} {} derived from {r} in {}", e.k.tag(), loc.join("."), d.brief());
        let n = loc.len();
        let own = !lists(e.clone()).list(["registers", "children", "fields", "enumeratedValues", "values"][KINDS.iter().position(|k| *k == e.k).unwrap()]).is_empty()
            || (matches!(e.k, K::Periph) && e.c.contains_key("registers"))
            || (matches!(e.k, K::Register) && e.c.contains_key("fields"));
        c.execs += 1;
        // (element, where its content is written)
        macro_rules! run {
            ($mk:ident, $v:ident, $call:expr) => {{
                let Ok(mut el) = $mk(&e, z) else { continue };
                #[allow(clippy::redundant_closure_call)]
                attempt(|| $call(&mut el).map(|p: Option<String>| ($v(&el), p)))
            }};
        }
        type R<T> = Result<T, String>;
        let s = |e: String| e;
        let got: Out<(El, Option<String>)> = match e.k {
            K::Periph => run!(mk_peripheral, peripheral_v, |el: &mut svd::Peripheral| -> R<_> { x::derive_peripheral(el, &r, &index).map(|p| p.map(|p| p.to_string())).map_err(|e| s(format!("{e:#}"))) }),
            K::Cluster => run!(mk_cluster, cluster_v, |el: &mut svd::Cluster| -> R<_> { x::derive_cluster(el, &r, &path_of(&loc[..n - 1]), &index).map(|p| p.map(|p| p.to_string())).map_err(|e| s(format!("{e:#}"))) }),
            K::Register => run!(mk_register, register_v, |el: &mut svd::Register| -> R<_> { x::derive_register(el, &r, &path_of(&loc[..n - 1]), &index).map(|p| p.map(|p| p.to_string())).map_err(|e| s(format!("{e:#}"))) }),
            K::Field => run!(mk_field, field_v, |el: &mut svd::Field| -> R<_> {
                x::derive_field(el, &r, &RegisterPath::new(path_of(&loc[..n - 2]), &loc[n - 2]), &index).map(|p| p.map(|p| p.to_string())).map_err(|e| s(format!("{e:#}")))
            }),
            _ => run!(mk_enums, enums_v, |el: &mut svd::EnumeratedValues| -> R<_> {
                let f = FieldPath::new(RegisterPath::new(path_of(&loc[..n - 3]), &loc[n - 3]), &loc[n - 2]);
                x::derive_enumerated_values(el, &r, &f, &index).map(|_| None).map_err(|e| s(format!("{e:#}")))
            }),
        };
        let want = if e.k == K::Enums {
            ex.enums(&e, &loc[..n - 1].to_vec(), &mut vec![]).map(|w| (w, None))
        } else {
            ex.eff(&e, &loc).map(|(w, l)| (w, (!own).then(|| l.join("."))))
        };
        match (want, got) {
            (Ok((mut w, wp)), Out::Ok((g, gp))) => {
                // the reference of the element itself is left to the caller
                w.f.insert("@derivedFrom", V::s(&r));
                if let Some(m) = diff(&lists(w), &lists(g)) {
                    return fail(format!("derive of a {}: {}", e.k.tag(), diff_sig(&m)), m, txt());
                }
                if wp != gp {
                    return fail(format!("path from the derive of a {}", e.k.tag()), format!("{gp:?} instead of {wp:?}"), txt());
                }
                out.push((loc, wp));
            }
            (Err(_), Out::Err(_)) => out.push((loc, None)),
            (Ok(_), o) => return fail(format!("derive of a {}: {}", e.k.tag(), o.kind()), o.why(), txt()),
            (Err(w), Out::Panic(p)) => return fail(format!("derive of a {}: panic", e.k.tag()), p, format!("{w:?}: {}", txt())),
            (Err(w), Out::Ok(_)) => return fail(format!("derive of a {}: accepted", e.k.tag()), format!("{w:?}"), txt()),
        }
    }
    hres(out)
}
/// one element laid over another
pub fn overlays(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        let ts = traits(k).len();
        if ts <= if q { 7 } else { 11 } {
            v.push(space(format!("{}: all properties", k.tag()), format!("all {} pairs of subsets of its {ts} properties, single, array or placeholder on either side", 4u64.pow(ts as u32)), move |c| {
                let st: Vec<usize> = (0..ts).map(|_| c.choose(4)).collect();
                let (own, base) = build_pair(k, &st);
                let Some((own, base)) = shape(c, own, base) else { return Res::Skip };
                if !c.state(&(&own, &base)) {
                    return Res::Skip;
                }
                c.sample = c.want_sample.then(|| format!("{} from {}", own.brief(), base.brief()));
                pair(c, &own, &base)
            }));
        } else {
            let m = if q { 3 } else { 4 };
            v.push(space(format!("{}: {m} properties", k.tag()), format!("all sets of {m} of its {ts} properties stated by neither, own, base or both, the others all alike, single, array or placeholder on either side"), move |c| {
                let rest = c.choose(4);
                let mut st = vec![rest; ts];
                let mut from = 0;
                for i in 0..m {
                    let left = ts - from - (m - 1 - i);
                    from += c.choose(left);
                    st[from] = c.choose(4);
                    from += 1;
                }
                let (own, base) = build_pair(k, &st);
                let Some((own, base)) = shape(c, own, base) else { return Res::Skip };
                if !c.state(&(&own, &base)) {
                    return Res::Skip;
                }
                c.sample = c.want_sample.then(|| format!("{} from {}", own.brief(), base.brief()));
                pair(c, &own, &base)
            }));
            v.push(space(format!("{}: all sets of own properties", k.tag()), format!("all 2^{ts} sets of properties the element states; the base states all, none, or the others"), move |c| {
                let mut st: Vec<usize> = (0..ts).map(|_| c.choose(2)).collect();
                let how = c.choose(3);
                for s in &mut st {
                    *s |= match how {
                        0 => 2,
                        1 => 0,
                        _ => 2 * (1 - *s),
                    };
                }
                let (own, base) = build_pair(k, &st);
                if !c.state(&(&own, &base)) {
                    return Res::Skip;
                }
                c.sample = c.want_sample.then(|| format!("{} from {}", own.brief(), base.brief()));
                pair(c, &own, &base)
            }));
        }
    }
    v.push(space("register properties", "all subsets of the five properties on both sides, with equal or different values", move |c| {
        let vals = |e: &mut El, w: usize, c: &mut Ctx| {
            for (i, t) in PROPS.iter().enumerate() {
                if c.flag() {
                    let v = match i {
                        0 => V::N([8, 32][w]),
                        1 => V::s([ACCESS[0], ACCESS[3]][w]),
                        2 => V::s(PROT[w]),
                        n => V::N([0, 1 << n][w]),
                    };
                    e.f.insert(t, v);
                }
            }
        };
        let (mut a, mut b) = (El::new(K::Register), El::new(K::Register));
        vals(&mut a, 0, c);
        let w = c.choose(2);
        vals(&mut b, w, c);
        if !c.state(&(&a, &b)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("{a:?} from {b:?}"));
        c.execs += 1;
        let want = refm::merge(&a, &b);
        match sut(|| {
            let mut e = El::new(K::Register);
            props_v(&mut e, &mk_props(&a).derive_from(&mk_props(&b)));
            e
        }) {
            Ok(g) => match diff(&want, &g) {
                Some(m) => fail(format!("properties: {}", diff_sig(&m)), m, format!("{} from {}", a.brief(), b.brief())),
                None => hres(&want),
            },
            Err(p) => fail("properties: panic", p, a.brief()),
        }
    }));
    v.push(space("content which is there but empty", "the content of either side left out, empty or not, single and array", move |c| {
        let k = *c.pick(&KINDS);
        let g = groups(k).iter().map(|g| g.0).filter(|g| *g != "dimArrayIndex").collect::<Vec<_>>();
        let ts = traits(k);
        let mut els = [bare(k, "OWN", 0x10), bare(k, "BASE", 8)];
        for (w, e) in els.iter_mut().enumerate() {
            for g in &g {
                let t = ts.iter().find(|t| t.0 == *g).unwrap();
                match c.choose(3) {
                    0 => drop(e.c.remove(g)),
                    1 => drop(e.c.insert(g, vec![])),
                    _ => state_trait(e, t, w),
                }
            }
        }
        let [own, base] = els;
        let Some((own, base)) = shape(c, own, base) else { return Res::Skip };
        if own.c.get("addressBlock").is_some_and(|l| l.is_empty()) || base.c.get("addressBlock").is_some_and(|l| l.is_empty()) {
            // the builder takes an empty list away
            return Res::Skip;
        }
        if !c.state(&(&own, &base)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("{} from {}", own.brief(), base.brief()));
        pair(c, &own, &base)
    }));
    let m = if q { 1 } else { 2 };
    v.push(space("presence of parts on either side", format!("6 kinds, both elements with at most {m} of their optional parts, or all but {m}, in two variants"), move |c| {
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field, K::Enums]);
        let own = subset_of(c, k, m);
        let base = subset_of(c, k, m);
        if !c.state(&(&own, &base)) {
            return Res::Skip;
        }
        pair(c, &own, &base)
    }));
    v
}
/// an array of this element: every combination of parts of a dimension
pub fn dims(c: &mut Ctx, e: El, n: &str) -> El {
    let d = 2 + c.choose(2) as u64;
    let mut e = e.st("name", &format!("{n}{}", ["%s", "[%s]"][c.choose(2)])).arr(d, 4 * d);
    if c.flag() {
        e = e.with("dimIndex", V::L((0..d).map(|i| format!("{n}{i}")).collect()));
    }
    if c.flag() {
        e = e.st("dimName", &format!("{n}_N"));
    }
    if c.flag() {
        let mut x = El::new(K::DimArr).st("headerEnumName", &format!("{n}_H"));
        for i in 0..d {
            x = x.kid("values", ev(&format!("{n}_{i}"), i));
        }
        e = e.kid("dimArrayIndex", x);
    }
    e
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = overlays(t);
    v.push(space("arrays from arrays", "4 kinds, both arrays: dimensions of 2 or 3, names with and without brackets, every subset of dimIndex, dimName and dimArrayIndex on either side", move |c| {
        let k = *c.pick(&KINDS[..4]);
        let (own, base) = (bare(k, "OWN", 0x10), bare(k, "BASE", 8));
        let own = dims(c, own, "OWN");
        let base = dims(c, base, "BASE");
        if !c.state(&(&own, &base)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| own.brief());
        pair(c, &own, &base)
    }));
    let sk = Arc::new(skeleton());
    let op = Arc::new(options(&sk, &["NOWHERE", "P1.NOWHERE", "P1.C1.NOWHERE.F1", "P9.R1.F1.E1", ""]));
    v.push(space("derive functions", format!("one or two of {} ways to put a reference anywhere in a device, resolvable or not; every derived element of it through the public function for its kind", op.len()), move |c| {
        let i = c.choose(op.len());
        let mut d = (*sk).clone();
        if c.flag() {
            let j = c.choose(op.len());
            if j >= i || op[i].0 == op[j].0 || (q && op[j].2 != op[i].2) {
                return Res::Skip;
            }
            put(&mut d, &op[i]);
            put(&mut d, &op[j]);
        } else {
            put(&mut d, &op[i]);
        }
        helpers(c, &d)
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("chains of derive functions", format!("all graphs of references among {n} elements of one kind, arrays among them, with and without own content and properties"), move |c| {
        let k = *c.pick(&KINDS);
        let ts = traits(k);
        let cont = ts.iter().rev().find(|t| matches!(t.0, "registers" | "children" | "fields" | "enumeratedValues" | "values")).unwrap().clone();
        let mut l = vec![];
        for i in 0..n {
            let name = format!("N{i}");
            let mut e = bare(k, &name, 8 * i as u64);
            match c.choose(4) {
                0 => {}
                1 => state_trait(&mut e, &cont, i),
                2 => state_trait(&mut e, &ts[0], i),
                _ => {
                    state_trait(&mut e, &cont, i);
                    state_trait(&mut e, &ts[1], i);
                }
            }
            let r = c.choose(n + 1);
            if r > 0 {
                e.f.insert("@derivedFrom", V::S(format!("N{}", r - 1)));
            }
            l.push(e);
        }
        if dimmable(k) && c.flag() {
            // the last one is an array found by the name of one element
            let m = format!("N{}", n - 1);
            let e = l.pop().unwrap();
            l.push(e.st("name", "N%s").arr(2, 4).with("dimIndex", V::L(vec![(n - 1).to_string(), "Z".into()])));
            let _ = m;
        }
        helpers(c, &super::c16_derive::siblings(l))
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C27",
    spaces,
    rule: "real overlay of every pair compared with the reference overlay, operands compared with what they were; the public derive functions run for every derived element of every device and compared with the reference resolution, including the path where the content is written",
    assumptions: &["a placeholder name deriving from a single element is not specified", "displayed names, alternates, positions and array-ness are not inherited, as in expansion"],
};
