//! C23: iterators and lookups.
use super::util::*;
use svd::{ClusterInfo, Description, Name, PeripheralInfo, Register, Cluster, RegisterCluster};

fn d_values_of_arrays(d: &El) -> Vec<(String, Option<String>)> {
    let mut v = vec![];
    d.walk(&mut vec![], &mut |e, _| {
        if e.k == K::DimArr {
            v.extend(e.list("values").iter().map(|e| (e.name().to_string(), e.s("description").map(String::from))));
        }
    });
    v
}
type Told = Vec<(String, Option<String>)>;
/// the traits on an element, a reference and a mutable reference to it
fn tell<T: Name + Description>(t: &mut T, l: &mut Told) -> Result<(), String> {
    fn by<T: Name + Description>(t: T) -> (String, Option<String>) {
        (t.name().to_string(), t.description().map(String::from))
    }
    let a = (Name::name(t).to_string(), Description::description(t).map(String::from));
    let (b, d) = (by(&*t), by(t));
    if a != b || a != d {
        return Err(format!("{a:?} {b:?} {d:?}"));
    }
    l.push(a);
    Ok(())
}
fn told(d: &mut svd::Device) -> Result<Told, String> {
    let mut l = vec![];
    tell(d, &mut l)?;
    fn regs(v: &mut [RegisterCluster], l: &mut Told) -> Result<(), String> {
        for c in v {
            match c {
                RegisterCluster::Register(r) => {
                    tell(r, l)?;
                    for f in r.fields.iter_mut().flatten() {
                        tell(f, l)?;
                        for v in f.enumerated_values.iter_mut().flat_map(|e| &mut e.values) {
                            tell(v, l)?;
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    tell(c, l)?;
                    regs(&mut c.children, l)?;
                }
            }
        }
        Ok(())
    }
    for p in &mut d.peripherals {
        tell(p, &mut l)?;
        for i in &mut p.interrupt {
            tell(i, &mut l)?;
        }
        regs(p.registers.as_deref_mut().unwrap_or(&mut []), &mut l)?;
    }
    Ok(l)
}
const NAMES: [&str; 6] = ["A", "B", "C", "", "A%s", "A0"];

fn id(e: &El) -> u64 {
    e.n("addressOffset").unwrap()
}
fn ids(l: &[El], k: K) -> Vec<u64> {
    l.iter().filter(|e| e.k == k).map(id).collect()
}
fn all_ids(l: &[El], v: &mut Vec<u64>) {
    for e in l {
        if e.k == K::Register {
            v.push(id(e));
        } else {
            all_ids(e.list("children"), v);
        }
    }
}
fn first(l: &[El], k: K, n: &str) -> Option<u64> {
    l.iter().find(|e| e.k == k && e.name() == n).map(id)
}
/// one level through every way of walking and looking up
macro_rules! level {
    ($h:expr, $hm:expr, $l:expr, $at:expr) => {{
        let (h, hm, l) = ($h, $hm, $l);
        let rid = |r: &Register| r.address_offset as u64;
        let cid = |r: &Cluster| r.address_offset as u64;
        let mut all = vec![];
        all_ids(l, &mut all);
        let (regs, clus) = (ids(l, K::Register), ids(l, K::Cluster));
        #[allow(deprecated)]
        let walks: Vec<(&str, Vec<u64>, &Vec<u64>)> = vec![
            ("registers", h.registers().map(rid).collect(), &regs),
            ("clusters", h.clusters().map(cid).collect(), &clus),
            ("all_registers", h.all_registers().map(rid).collect(), &all),
            ("reg_iter", h.reg_iter().map(rid).collect(), &all),
            ("registers_mut", hm.registers_mut().map(|r| rid(r)).collect(), &regs),
            ("clusters_mut", hm.clusters_mut().map(|r| cid(r)).collect(), &clus),
            ("all_registers_mut", hm.all_registers_mut().map(|r| rid(r)).collect(), &all),
            ("reg_iter_mut", hm.reg_iter_mut().map(|r| rid(r)).collect(), &all),
        ];
        for (n, g, w) in walks {
            if &g != w {
                return Err((format!("{n} of a {}", $at), format!("{g:?} instead of {w:?}")));
            }
        }
        for n in NAMES {
            let wr = first(l, K::Register, n);
            let wc = first(l, K::Cluster, n);
            for (f, g, w) in [
                ("get_register", h.get_register(n).map(rid), wr),
                ("get_mut_register", hm.get_mut_register(n).map(|r| rid(r)), wr),
                ("get_cluster", h.get_cluster(n).map(cid), wc),
                ("get_mut_cluster", hm.get_mut_cluster(n).map(|r| cid(r)), wc),
            ] {
                if g != w {
                    return Err((format!("{f} of a {}", $at), format!("{n}: {g:?} instead of {w:?}")));
                }
            }
        }
    }};
}
type Bad = (String, String);
fn cluster(c: &ClusterInfo, cm: &mut ClusterInfo, e: &El) -> Result<(), Bad> {
    level!(c, &mut *cm, e.list("children"), "cluster");
    inner(&c.children, &mut cm.children, e.list("children"))
}
fn inner(l: &[RegisterCluster], lm: &mut [RegisterCluster], e: &[El]) -> Result<(), Bad> {
    if l.len() != e.len() {
        return Err(("children".into(), format!("{} instead of {}", l.len(), e.len())));
    }
    for ((r, rm), e) in l.iter().zip(lm).zip(e) {
        let facts = (r.name().as_str(), r.description().as_deref(), r.derived_from().as_deref(), r.address_offset() as u64);
        let want = (e.name(), e.s("description"), e.s("@derivedFrom"), id(e));
        if facts != want {
            return Err(("facts of a register or cluster".into(), format!("{facts:?} instead of {want:?}")));
        }
        match (r, rm) {
            (RegisterCluster::Cluster(c), RegisterCluster::Cluster(cm)) => {
                if c.is_array() != e.is_array() || c.is_single() == e.is_array() || Name::name(c) != e.name() {
                    return Err(("array-ness of a cluster".into(), e.brief()));
                }
                cluster(c, cm, e)?
            }
            (RegisterCluster::Register(r), _) => {
                if r.is_array() != e.is_array() || r.is_single() == e.is_array() || Name::name(r) != e.name() {
                    return Err(("array-ness of a register".into(), e.brief()));
                }
            }
            _ => return Err(("kind of child".into(), e.brief())),
        }
    }
    Ok(())
}
fn walks(p: &PeripheralInfo, e: &El) -> Result<(), Bad> {
    let mut m = p.clone();
    let pm = &mut m;
    level!(p, &mut *pm, e.list("registers"), "peripheral");
    if let Some(l) = &p.registers {
        inner(l, pm.registers.as_mut().unwrap(), e.list("registers"))?;
    }
    if &m != p {
        return Err(("looking changes the peripheral".into(), String::new()));
    }
    Ok(())
}
const MARK: &str = "touched";
fn mark(e: &mut El, t: &BTreeSet<u64>) {
    e.walk_mut(&mut |x| {
        if x.f.get("addressOffset").is_some_and(|v| matches!(v, V::N(n) if t.contains(n))) {
            x.f.insert("description", V::s(MARK));
        }
    });
}
/// changes through mutable walks and lookups
fn changes(p: &PeripheralInfo, e: &El) -> Result<usize, Bad> {
    let some = || Some(MARK.to_string());
    let l = e.list("registers");
    let mut all = vec![];
    all_ids(l, &mut all);
    let mut n = 0;
    let mut check = |what: &str, t: BTreeSet<u64>, f: &dyn Fn(&mut PeripheralInfo)| {
        let mut m = p.clone();
        f(&mut m);
        let mut w = e.clone();
        mark(&mut w, &t);
        n += 1;
        match diff(&w, &peripheral_info_v(&m)) {
            None => Ok(()),
            Some(d) => Err((format!("changed through {what}"), d)),
        }
    };
    check("registers_mut", ids(l, K::Register).into_iter().collect(), &|m| m.registers_mut().for_each(|r| r.description = some()))?;
    check("clusters_mut", ids(l, K::Cluster).into_iter().collect(), &|m| m.clusters_mut().for_each(|r| r.description = some()))?;
    check("all_registers_mut", all.iter().copied().collect(), &|m| m.all_registers_mut().for_each(|r| r.description = some()))?;
    for name in NAMES {
        check("get_mut_register", first(l, K::Register, name).into_iter().collect(), &|m| {
            if let Some(r) = m.get_mut_register(name) {
                r.description = some()
            }
        })?;
        check("get_mut_cluster", first(l, K::Cluster, name).into_iter().collect(), &|m| {
            if let Some(r) = m.get_mut_cluster(name) {
                r.description = some()
            }
        })?;
        // one further down
        let outer = l.iter().find(|x| x.k == K::Cluster && x.name() == "A");
        check("all_registers_mut of a cluster", outer.map(|o| { let mut v = vec![]; all_ids(o.list("children"), &mut v); v }).unwrap_or_default().into_iter().collect(), &|m| {
            if let Some(o) = m.get_mut_cluster("A") {
                o.all_registers_mut().for_each(|r| r.description = some())
            }
        })?;
        check("get_mut_register of a cluster", outer.and_then(|o| first(o.list("children"), K::Register, name)).into_iter().collect(), &|m| {
            if let Some(r) = m.get_mut_cluster("A").and_then(|o| o.get_mut_register(name)) {
                r.description = some()
            }
        })?;
    }
    Ok(n)
}
fn one(l: &[El], n: &str) -> Option<usize> {
    l.iter().position(|e| e.name() == n)
}
/// lists of things with names: [found by get, by get_mut, unchanged others]
macro_rules! named {
    ($c:expr, $l:expr, $owner:expr, $list:expr, $get:ident, $getm:ident, $view:expr, $desc:expr) => {{
        let (l, owner) = ($l, $owner);
        for n in NAMES {
            $c.execs += 1;
            let w = one(l, n);
            let g = sut(|| owner.$get(n).map(|x| $view(x)));
            let mut m = owner.clone();
            let gm = sut(|| m.$getm(n).map(|x| {
                let v = $view(&*x);
                $desc(x);
                v
            }));
            match (g, gm) {
                (Ok(g), Ok(gm)) => {
                    let w = w.map(|i| l[i].clone());
                    if g != w || gm != w {
                        return fail(format!("{} or {}", stringify!($get), stringify!($getm)), format!("{n}: {g:?} {gm:?} instead of {w:?}"), format!("{l:?}"));
                    }
                    let mut want: Vec<El> = l.to_vec();
                    if let Some(i) = one(l, n) {
                        want[i].f.insert("description", V::s(MARK));
                    }
                    let got: Vec<El> = $list(&m).iter().map($view).collect();
                    if got != want {
                        return fail(format!("changed through {}", stringify!($getm)), format!("{got:?} instead of {want:?}"), format!("{l:?}"));
                    }
                }
                (a, b) => return fail(format!("{}: panic", stringify!($get)), format!("{a:?} {b:?}"), format!("{l:?}")),
            }
        }
    }};
}
fn arrayed(mut e: El, name: &str, arr: bool) -> El {
    e.f.insert("name", V::s(name));
    if arr {
        e = e.arr(2, 4);
    }
    e
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let max = if q { 5 } else { 6 };
    v.push(space("walks over registers and clusters", format!("all ordered forests of at most {max} nodes, each named in one of three ways (duplicates included), single or array; every walk and lookup at every level, and changes through them"), move |c| {
        let mut l = forest(c, max, true);
        let mut n = 0;
        let absent = l.is_empty() && c.flag();
        for e in &mut l {
            e.walk_mut(&mut |e| {
                if matches!(e.k, K::Register | K::Cluster) {
                    e.f.insert("addressOffset", V::N(n));
                    n += 1;
                    match c.choose(4) {
                        0 => drop(e.f.insert("name", V::s("A"))),
                        1 => drop(e.f.insert("name", V::s("B"))),
                        2 => {
                            e.f.insert("name", V::s("A%s"));
                            e.f.insert("dim", V::N(2));
                            e.f.insert("dimIncrement", V::N(4));
                        }
                        // arrays need no placeholder when built
                        _ => {
                            e.f.insert("name", V::s("A"));
                            e.f.insert("dim", V::N(1));
                            e.f.insert("dimIncrement", V::N(4));
                        }
                    }
                }
            });
        }
        let mut e = per("P", 0, l);
        if absent {
            e.c.remove("registers");
        } else {
            e.c.entry("registers").or_default();
        }
        if !c.state(&e) {
            return Res::Skip;
        }
        let p = match attempt(|| mk_peripheral(&e, LEVELS[0])) {
            Out::Ok(p) => p,
            o => return fail(format!("building: {}", o.kind()), o.why(), e.brief()),
        };
        c.sample = c.want_sample.then(|| e.brief());
        c.execs += 1;
        let r = sut(|| {
            walks(&p, &e)?;
            changes(&p, &e)
        });
        match r {
            Ok(Ok(n)) => {
                c.execs += n as u64;
                hres(&e)
            }
            Ok(Err((s, m))) => fail(s, m, e.brief()),
            Err(p) => fail("walk: panic", p, e.brief()),
        }
    }));
    let n1 = if q { 4 } else { 6 };
    v.push(space("lookups in lists", format!("fields, interrupts, peripherals and enumerated values: all lists of at most {n1} with one of three names each, single or array, all lookups"), move |c| {
        let kind = c.choose(4);
        let n = c.choose(n1 + 1);
        let mut l = vec![];
        for i in 0..n {
            let (name, arr) = *c.pick(&[("A", false), ("B", false), ("A%s", true)]);
            let arr = arr && kind < 2;
            l.push(match kind {
                0 => arrayed(fld("", i as u32, 1), name, arr),
                1 => arrayed(El::new(K::Periph).nu("baseAddress", i as u64), name, arr),
                2 => El::new(K::Interrupt).st("name", name).nu("value", i as u64),
                _ => ev(name, i as u64),
            });
        }
        if !c.state(&(kind, &l)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("{l:?}"));
        let z = LEVELS[0];
        let mark = || Some(MARK.to_string());
        match kind {
            0 => {
                let r = match attempt(|| b_register(&reg("R", 0).kids("fields", l.clone()), z).and_then(|b| b.build(z))) {
                    Out::Ok(r) => r,
                    o => return fail("register not built", o.why(), format!("{l:?}")),
                };
                named!(c, &l, &r, |r: &svd::RegisterInfo| r.fields.clone().unwrap(), get_field, get_mut_field, field_v, |x: &mut svd::Field| x.description = mark());
                let mut m = r.clone();
                let (a, b): (Vec<El>, Vec<El>) = (r.fields().map(field_v).collect(), m.fields_mut().map(|f| field_v(f)).collect());
                if a != l || b != l {
                    return fail("fields or fields_mut", format!("{a:?} {b:?}"), format!("{l:?}"));
                }
                if b_register(&reg("R", 0), z).and_then(|b| b.build(z)).is_ok_and(|mut r| r.fields().count() + r.fields_mut().count() > 0) {
                    return fail("fields of a register without", "some", "");
                }
            }
            1 => {
                let d = match attempt(|| build(&dev(l.clone()), z)) {
                    Out::Ok(r) => r,
                    o => return fail("device not built", o.why(), format!("{l:?}")),
                };
                named!(c, &l, &d, |d: &svd::Device| d.peripherals.clone(), get_peripheral, get_mut_peripheral, peripheral_v, |x: &mut svd::Peripheral| x.description = mark());
            }
            2 => {
                let p = match attempt(|| b_peripheral(&per("P", 0, vec![]).kids("interrupt", l.clone()), z).and_then(|b| b.build(z))) {
                    Out::Ok(r) => r,
                    o => return fail("peripheral not built", o.why(), format!("{l:?}")),
                };
                named!(c, &l, &p, |p: &PeripheralInfo| p.interrupt.clone(), get_interrupt, get_mut_interrupt, interrupt_v, |x: &mut svd::Interrupt| x.description = mark());
            }
            _ => {
                let p = match attempt(|| mk_enums(&El::new(K::Enums).kids("values", l.clone()), z)) {
                    Out::Ok(r) => r,
                    o => return fail("enumeratedValues not built", o.why(), format!("{l:?}")),
                };
                named!(c, &l, &p, |p: &svd::EnumeratedValues| p.values.clone(), get_value, get_mut_value, enumv_v, |x: &mut svd::EnumeratedValue| x.description = mark());
            }
        }
        hres((kind, &l))
    }));
    v.push(space("value sets by usage, default values", "fields with none, one or two sets of values of every usage, derived or not; sets of at most 4 values, default or not", move |c| {
        let z = LEVELS[0];
        if c.flag() {
            let n = c.choose(3);
            let mut l = vec![];
            for i in 0..n {
                let mut e = El::new(K::Enums).st("name", ["EA", "EB"][i]).kid("values", ev("V", i as u64));
                let u = c.choose(4);
                if u > 0 {
                    e.f.insert("usage", V::s(USAGE[u - 1]));
                }
                if c.flag() {
                    e.f.insert("@derivedFrom", V::s("X"));
                }
                l.push(e);
            }
            if !c.state(&l) {
                return Res::Skip;
            }
            c.execs += 1;
            let f = match attempt(|| b_field(&fld("F", 0, 4).kids("enumeratedValues", l.clone()), z).and_then(|b| b.build(z))) {
                Out::Ok(r) => r,
                o => return fail("field not built", o.why(), format!("{l:?}")),
            };
            // the usage of a derived set is not known
            let usage = |e: &El| e.s("@derivedFrom").is_none().then(|| e.s("usage").unwrap_or("read-write").to_string());
            for u in USAGE {
                let w = l.iter().find(|e| usage(e).as_deref() == Some(u)).cloned();
                let mut m = f.clone();
                let r = sut(|| (f.get_enumerated_values(usage_p(u)).map(enums_v), m.get_mut_enumerated_values(usage_p(u)).map(|e| { let v = enums_v(e); e.name = Some(MARK.into()); v })));
                match r {
                    Ok((a, b)) if a == w && b == w => {
                        let mut want = l.clone();
                        if let Some(x) = want.iter_mut().find(|e| Some(&**e) == w.as_ref()) {
                            x.f.insert("name", V::s(MARK));
                        }
                        if m.enumerated_values.iter().map(enums_v).collect::<Vec<_>>() != want {
                            return fail("changed through get_mut_enumerated_values", u.to_string(), format!("{l:?}"));
                        }
                    }
                    o => return fail("get_enumerated_values", format!("{u}: {o:?} instead of {w:?}"), format!("{l:?}")),
                }
            }
            for (e, g) in l.iter().zip(&f.enumerated_values) {
                if sut(|| g.usage()).ok() != Some(usage(e).map(|u| usage_p(&u))) {
                    return fail("usage of a set", format!("{:?}", g.usage()), format!("{e:?}"));
                }
            }
            hres(&l)
        } else {
            let n = c.choose(5);
            let mut l = vec![];
            for i in 0..n {
                let mut e = ev(["A", "B", "C", "D"][i], i as u64);
                match c.choose(3) {
                    0 => {}
                    1 => drop(e.f.insert("isDefault", V::B(false))),
                    _ => drop(e.f.insert("isDefault", V::B(true))),
                }
                if c.flag() {
                    e.f.remove("value");
                }
                l.push(e);
            }
            if !c.state(&l) {
                return Res::Skip;
            }
            c.execs += 1;
            let s = match attempt(|| mk_enums(&El::new(K::Enums).kids("values", l.clone()), z)) {
                Out::Ok(r) => r,
                o => return fail("enumeratedValues not built", o.why(), format!("{l:?}")),
            };
            let w = l.iter().find(|e| e.b("isDefault") == Some(true)).cloned();
            for (e, g) in l.iter().zip(&s.values) {
                if g.is_default() != (e.b("isDefault") == Some(true)) {
                    return fail("is_default of a value", format!("{:?}", g.is_default()), format!("{e:?}"));
                }
            }
            match sut(|| s.default_value().map(enumv_v)) {
                Ok(g) if g == w => hres(&l),
                o => fail("default_value", format!("{o:?} instead of {w:?}"), format!("{l:?}")),
            }
        }
    }));
    let sz = sizes(!q);
    let rich = Arc::new(DocSpace::new(base_rich(), FULL));
    v.push(space("name and description of every element", format!("rich document with one of {} edits; every element asked for its name and description directly and through references", rich.n()), move |c| {
        let Some(d) = rich.upto(c, 1) else { return Res::Skip };
        if !c.state(&d) {
            return Res::Skip;
        }
        c.execs += 1;
        let Out::Ok(mut dev) = attempt(|| build(&norm(&d), LEVELS[0])) else { return Res::Skip };
        match sut(|| told(&mut dev)) {
            Ok(Ok(got)) => {
                let mut want = vec![];
                norm(&d).walk(&mut vec![], &mut |e, _| {
                    if matches!(e.k, K::Device | K::Periph | K::Interrupt | K::Cluster | K::Register | K::Field) || (e.k == K::EnumV && e.f.contains_key("value")) {
                        want.push((e.name().to_string(), e.s("description").map(String::from)));
                    }
                });
                // (values of array enumerations are not visited)
                let mut names = want.clone();
                names.retain(|w| !got.contains(w));
                let arr = d_values_of_arrays(&d);
                names.retain(|w| !arr.contains(w));
                if !names.is_empty() {
                    return fail("name or description of an element", format!("{names:?} are missing in {got:?}"), d.brief());
                }
                hres(&got)
            }
            Ok(Err(m)) => fail("name or description through a reference", m, d.brief()),
            Err(p) => fail("panic", p, d.brief()),
        }
    }));
    v.push(space("many and deep", format!("registers, clusters and nested clusters of {} sizes up to {}", sz.len(), sz[sz.len() - 1].min(512)), move |c| {
        let k = 1 + c.choose(3);
        let n = (*c.pick(&sz)).min(512);
        let d = crowd(k, n);
        let mut e = d.list("peripherals")[0].clone();
        let mut i = 0;
        e.walk_mut(&mut |e| {
            if matches!(e.k, K::Register | K::Cluster) {
                e.f.insert("addressOffset", V::N(i));
                i += 1;
            }
        });
        if !c.state(&e) {
            return Res::Skip;
        }
        let p = match attempt(|| mk_peripheral(&e, LEVELS[0])) {
            Out::Ok(p) => p,
            o => return fail(format!("building: {}", o.kind()), o.why(), e.brief()),
        };
        c.execs += 1;
        let r = sut(|| {
            walks(&p, &e)?;
            if i < 300 {
                changes(&p, &e)
            } else {
                Ok(0)
            }
        });
        match r {
            Ok(Ok(n)) => {
                c.execs += n as u64;
                hres(&e)
            }
            Ok(Err((s, m))) => fail(s, m, e.brief()),
            Err(p) => fail("panic", p, e.brief()),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C23",
    spaces,
    rule: "elements carry their number in document order; what each real iterator or lookup yields is compared with the walk of the reference tree, and after a change through a mutable one the whole element with the reference tree changed at the expected places",
    assumptions: &["a field with more than two sets of values is not valid; what the lookup by usage gives there is not specified", "array elements are found under the name of the array as written"],
};
