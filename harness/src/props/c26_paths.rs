//! C26: paths and the index of a device.
use super::util::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use svd_parser::expand::{BlockPath, EnumPath, FieldPath, Index, RegisterPath};

type Entries = BTreeMap<(&'static str, String), u64>;
/// number every element, so that it can be told from all others
fn number(d: &mut El) -> u64 {
    let mut n = 0;
    d.walk_mut(&mut |e| {
        match e.k {
            K::Periph => drop(e.f.insert("baseAddress", V::N(n))),
            K::Cluster | K::Register => drop(e.f.insert("addressOffset", V::N(n))),
            K::Field => drop(e.f.insert("bits", V::BR(n as u32, 1, 0))),
            K::Enums => {
                let l = e.c.entry("values").or_default();
                l.truncate(1);
                if l.is_empty() {
                    l.push(ev("V", 0));
                }
                l[0].f.insert("value", V::N(n));
            }
            _ => return,
        }
        n += 1;
    });
    n
}
fn id(e: &El) -> u64 {
    match e.k {
        K::Field => e.br().0 as u64,
        K::Enums => e.list("values")[0].n("value").unwrap(),
        _ => e.n("baseAddress").or(e.n("addressOffset")).unwrap(),
    }
}
/// every path of every element, None when two elements have the same one
fn listing(e: &El, at: &str, out: &mut Entries) -> Option<()> {
    let mut names = vec![e.name().to_string()];
    if e.is_array() {
        names.extend(refm::elem_names(e));
    }
    let (kind, groups): (_, &[&str]) = match e.k {
        K::Periph => ("peripheral", &["registers"]),
        K::Cluster => ("cluster", &["children"]),
        K::Register => ("register", &["fields"]),
        K::Field => ("field", &["enumeratedValues"]),
        K::Enums => ("values", &[]),
        _ => return Some(()),
    };
    if e.k == K::Enums && !e.f.contains_key("name") {
        return Some(());
    }
    for n in names {
        let p = if at.is_empty() { n } else { format!("{at}.{n}") };
        for g in groups {
            for x in e.list(g) {
                listing(x, &p, out)?;
            }
        }
        if out.insert((kind, p), id(e)).is_some() {
            return None;
        }
    }
    Some(())
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn real(d: &svd::Device, names: &BTreeMap<u64, String>) -> Result<(Entries, usize), (String, String)> {
    let x = Index::create(d);
    let mut out = Entries::new();
    let mut n = 0;
    let mut twice = vec![];
    let mut put = |k, s: String, i: u64, name: &str| {
        n += 1;
        if names.get(&i).map(|s| s.as_str()) != Some(name) {
            twice.push(format!("{k} {s}: {name}"));
        }
        if out.insert((k, s.clone()), i).is_some() {
            twice.push(format!("{k} {s} twice"));
        }
    };
    for (p, e) in &x.peripherals {
        put("peripheral", p.to_string(), e.base_address, &e.name);
    }
    for (p, e) in &x.clusters {
        put("cluster", p.to_string(), e.address_offset as u64, &e.name);
    }
    for (p, e) in &x.registers {
        put("register", p.to_string(), e.address_offset as u64, &e.name);
    }
    for (p, e) in &x.fields {
        put("field", p.to_string(), e.bit_range.offset as u64, &e.name);
    }
    for (p, e) in &x.evs {
        put("values", p.to_string(), e.values[0].value.unwrap(), e.name.as_deref().unwrap_or(""));
    }
    if let Some(t) = twice.first() {
        return Err(("entry of the index".into(), t.clone()));
    }
    // and back: what a path prints as leads to the same entry
    let bad = |k: &str, s: &str| Err((format!("path of a {k} read back"), s.to_string()));
    for (p, e) in &x.clusters {
        let s = p.to_string();
        let (Some(b), n) = BlockPath::parse_str(&s) else { return bad("cluster", &s) };
        if b.new_cluster(n) != *p || !x.clusters.get(&b.new_cluster(n)).is_some_and(|x| std::ptr::eq(*x, *e)) || p != s.as_str() {
            return bad("cluster", &s);
        }
        if p.parent().as_ref() != Some(&b) || p.name() != n {
            return bad("cluster", &s);
        }
        // the parent is there as well
        if !x.peripherals.contains_key(&b) && !x.clusters.contains_key(&b) {
            return Err(("parent of a cluster".into(), s));
        }
    }
    for (p, e) in &x.registers {
        let s = p.to_string();
        let (Some(b), n) = RegisterPath::parse_str(&s) else { return bad("register", &s) };
        if !x.registers.get(&b.new_register(n)).is_some_and(|x| std::ptr::eq(*x, *e)) || p != s.as_str() || p.block != b {
            return bad("register", &s);
        }
        if !x.peripherals.contains_key(&b) && !x.clusters.contains_key(&b) {
            return Err(("parent of a register".into(), s));
        }
    }
    for (p, e) in &x.fields {
        let s = p.to_string();
        let (Some(b), n) = FieldPath::parse_str(&s) else { return bad("field", &s) };
        if !x.fields.get(&b.new_field(n)).is_some_and(|x| std::ptr::eq(*x, *e)) || p != s.as_str() || p.register() != &b {
            return bad("field", &s);
        }
        if !x.registers.contains_key(&b) {
            return Err(("parent of a field".into(), s));
        }
    }
    for p in x.evs.keys() {
        let s = p.to_string();
        if p != s.as_str() || !x.fields.contains_key(p.field()) {
            return bad("value set", &s);
        }
    }
    Ok((out, n))
}
fn check(c: &mut Ctx, d: &El) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    number(&mut d);
    if !c.state(&d) || refm::arrays_ok(&d).is_err() {
        return Res::Skip;
    }
    c.sample = c.want_sample.then(|| d.brief());
    let mut want = Entries::new();
    for p in d.list("peripherals") {
        if listing(p, "", &mut want).is_none() {
            return Res::Skip;
        }
    }
    let mut names = BTreeMap::new();
    d.walk(&mut vec![], &mut |e, _| {
        if matches!(e.k, K::Periph | K::Cluster | K::Register | K::Field | K::Enums) {
            names.insert(id(e), e.name().to_string());
        }
    });
    let Ok(dev) = device_of(&d, false) else { return Res::Skip };
    c.execs += 1;
    match sut(|| real(&dev, &names)) {
        Err(p) => fail("index: panic", p, d.brief()),
        Ok(Err((s, m))) => fail(s, m, d.brief()),
        Ok(Ok((got, _))) => {
            for (k, v) in &want {
                match got.get(k) {
                    None => return fail(format!("{} missing", k.0), k.1.clone(), d.brief()),
                    Some(g) if g != v => return fail(format!("{} leads to another element", k.0), format!("{}: {g} instead of {v}", k.1), d.brief()),
                    _ => {}
                }
            }
            if let Some(k) = got.keys().find(|k| !want.contains_key(k)) {
                return fail(format!("{} which is not in the device", k.0), k.1.clone(), d.brief());
            }
            hres(&want)
        }
    }
}
fn arrays(c: &mut Ctx, l: &mut Vec<El>, n: usize) {
    for e in l {
        let k = c.choose(n + 1);
        if k > 0 {
            let m = e.name().to_string();
            *e = e.clone().st("name", &format!("{m}{}", ["%s", "[%s]", "_%s"][k - 1])).arr(2, 4);
            if k > 1 {
                e.f.insert("dimIndex", V::L(vec!["X".into(), "Y".into()]));
            }
            if k == 3 {
                e.f.insert("dimName", V::s("DN"));
            }
        }
        for g in ["children", "fields", "registers"] {
            if let Some(mut kids) = e.c.remove(g) {
                arrays(c, &mut kids, n);
                e.c.insert(g, kids);
            }
        }
    }
}
/// all ways to put together a path of these parts
fn paths(parts: &[&str]) -> Vec<(&'static str, String, u64)> {
    let mut v = vec![];
    let n = parts.len();
    if n == 0 {
        return v;
    }
    let block = |l: &[&str]| {
        let mut b = BlockPath::new(l[0]);
        for p in &l[1..] {
            b = b.new_cluster(*p);
        }
        b
    };
    let b = block(parts);
    v.push(("block", b.to_string(), hash(&b)));
    if n >= 2 {
        let r = block(&parts[..n - 1]).new_register(parts[n - 1]);
        v.push(("register", r.to_string(), hash(&r)));
    }
    if n >= 3 {
        let f = block(&parts[..n - 2]).new_register(parts[n - 2]).new_field(parts[n - 1]);
        v.push(("field", f.to_string(), hash(&f)));
    }
    if n >= 4 {
        let e = block(&parts[..n - 3]).new_register(parts[n - 3]).new_field(parts[n - 2]).new_enum(parts[n - 1]);
        v.push(("value set", e.to_string(), hash(&e)));
    }
    v
}
/// two paths of each kind are equal exactly when their parts are
fn equal_laws(a: &[&str], b: &[&str]) -> Result<(), (String, String)> {
    let block = |l: &[&str]| {
        let mut b = BlockPath::new(l[0]);
        b.path = l[1..].iter().map(|s| s.to_string()).collect();
        b
    };
    let reg = |l: &[&str]| block(&l[..l.len() - 1]).new_register(l[l.len() - 1]);
    let field = |l: &[&str]| reg(&l[..l.len() - 1]).new_field(l[l.len() - 1]);
    let set = |l: &[&str]| field(&l[..l.len() - 1]).new_enum(l[l.len() - 1]);
    let n = a.len().min(b.len());
    let same = a == b;
    let bad = |k: &str| Err((format!("two {k} paths compared"), format!("{a:?} and {b:?}")));
    if (block(a) == block(b)) != same {
        return bad("block");
    }
    if n >= 2 && (reg(a) == reg(b)) != same {
        return bad("register");
    }
    if n >= 3 && (field(a) == field(b)) != same {
        return bad("field");
    }
    if n >= 4 && (set(a) == set(b)) != same {
        return bad("value set");
    }
    Ok(())
}
fn path_laws(parts: &[&str]) -> Result<(), (String, String)> {
    let n = parts.len();
    let text = parts.join(".");
    let e = |s: &str, m: String| Err((s.to_string(), m));
    let mut b = BlockPath::new(parts[0]);
    if b.parent().is_some() {
        return e("parent of a peripheral path", format!("{:?}", b.parent()));
    }
    for (i, p) in parts.iter().enumerate().skip(1) {
        let child = b.new_cluster(*p);
        if child.parent().as_ref() != Some(&b) || child.name() != p || child.peripheral != parts[0] || child.path != parts[1..=i] {
            return e("child of a block path", format!("{child:?} of {b:?}"));
        }
        b = child;
    }
    if b.to_string() != text {
        return e("block path printed", format!("{b} instead of {text}"));
    }
    if n == 1 && b.name() != parts[0] {
        return e("name of a peripheral path", b.name().clone());
    }
    // read back
    let split = |p: Option<BlockPath>, name: &str, what: &str| match p {
        None if n == 1 && name == text => Ok(()),
        Some(p) if n > 1 && name == parts[n - 1] && p.peripheral == parts[0] && p.path == parts[1..n - 1] => Ok(()),
        p => Err((format!("{what} read"), format!("{text}: {p:?} and {name}"))),
    };
    let (p, name) = BlockPath::parse_str(&text);
    split(p, name, "block path")?;
    let (p, name) = BlockPath::parse_vec(parts.to_vec());
    split(p, name, "block path")?;
    let (p, name) = RegisterPath::parse_str(&text);
    split(p, name, "register path")?;
    let (p, name) = RegisterPath::parse_vec(parts.to_vec());
    split(p, name, "register path")?;
    if n != 2 {
        for (r, name) in [FieldPath::parse_str(&text), FieldPath::parse_vec(parts.to_vec())] {
            match r {
                None if n == 1 && name == text => {}
                Some(r) if n > 2 && name == parts[n - 1] && r.name == parts[n - 2] && r.block.peripheral == parts[0] && r.block.path == parts[1..n - 2] => {}
                r => return e("field path read", format!("{text}: {r:?} and {name}")),
            }
        }
    }
    let block = |n: usize| {
        let mut b = BlockPath::new(parts[0]);
        b.path = parts[1..n].iter().map(|s| s.to_string()).collect();
        b
    };
    if n >= 2 {
        let r = block(n - 1).new_register(parts[n - 1]);
        if r.to_string() != text || r.name != parts[n - 1] || r.block != block(n - 1) || r.peripheral() != parts[0] || r != RegisterPath::new(block(n - 1), parts[n - 1]) {
            return e("register path", format!("{r:?}"));
        }
    }
    if n >= 3 {
        let r = block(n - 2).new_register(parts[n - 2]);
        let f = r.new_field(parts[n - 1]);
        if f.to_string() != text || f.name != parts[n - 1] || f.register() != &r || f.peripheral() != parts[0] || f != FieldPath::new(r, parts[n - 1]) {
            return e("field path", format!("{f:?}"));
        }
    }
    if n >= 4 {
        let r = block(n - 3).new_register(parts[n - 3]);
        let f = r.new_field(parts[n - 2]);
        let v = f.new_enum(parts[n - 1]);
        if v.to_string() != text || v.name != parts[n - 1] || v.field() != &f || v.register() != &r || v.peripheral() != parts[0] || v != EnumPath::new(f, parts[n - 1]) {
            return e("value set path", format!("{v:?}"));
        }
    }
    Ok(())
}
fn text_laws(parts: &[&str], s: &str) -> Result<(), (String, String)> {
    let n = parts.len();
    let same = parts.join(".") == s;
    let block = |n: usize| {
        let mut b = BlockPath::new(parts[0]);
        b.path = parts[1..n].iter().map(|s| s.to_string()).collect();
        b
    };
    let bad = |k: &str| Err((format!("{k} path compared with a text"), format!("{} with {s}", parts.join("."))));
    if (block(n) == *s) != same {
        return bad("block");
    }
    if n >= 2 && (block(n - 1).new_register(parts[n - 1]) == *s) != same {
        return bad("register");
    }
    if n >= 3 && (block(n - 2).new_register(parts[n - 2]).new_field(parts[n - 1]) == *s) != same {
        return bad("field");
    }
    if n >= 4 && (block(n - 3).new_register(parts[n - 3]).new_field(parts[n - 2]).new_enum(parts[n - 1]) == *s) != same {
        return bad("value set");
    }
    Ok(())
}
fn parts_of(c: &mut Ctx, abc: &[&'static str], max: usize) -> Vec<&'static str> {
    let n = 1 + c.choose(max);
    (0..n).map(|_| *c.pick(abc)).collect()
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let abc = ["A", "B", "AA", "A%s", "B[%s]", "", "a b", "é"];
    let max = if q { 6 } else { 7 };
    v.push(space("paths", format!("all paths of at most {max} parts out of {}: put together, printed, read, parents and children", abc.len()), move |c| {
        let p = parts_of(c, &abc, max);
        if !c.state(&p) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| p.join("."));
        c.execs += 1;
        match sut(|| path_laws(&p)) {
            Err(x) => fail("paths: panic", x, p.join(".")),
            Ok(Err((s, m))) => fail(s, m, p.join(".")),
            Ok(Ok(())) => hres(&p),
        }
    }));
    let max = if q { 7 } else { 9 };
    v.push(space("paths and texts", format!("all paths of at most 5 parts out of 3 compared with all texts of at most {max} of 3 characters"), move |c| {
        let p = parts_of(c, &["A", "B", "AB"], 5);
        let s = token_string(c, &["A", "B", "."], max);
        if !c.state(&(&p, &s)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("{p:?} {s:?}"));
        c.execs += 1;
        match sut(|| text_laws(&p, &s)) {
            Err(x) => fail("compare: panic", x, p.join(".")),
            Ok(Err((k, m))) => fail(k, m, p.join(".")),
            Ok(Ok(())) => hres((&p, p.join(".") == s)),
        }
    }));
    let abc = if q { vec!["A", "B2", "a_b"] } else { vec!["A", "B2", "a_b", "A%s", "é"] };
    v.push(space("paths and texts next to them", format!("all paths of at most 6 parts out of {} compared with their text under every insertion, removal, exchange or doubling of one character or part, and every two neighbours swapped", abc.len()), move |c| {
        let p = parts_of(c, &abc, 6);
        let t: Vec<char> = p.join(".").chars().collect();
        let i = c.choose(t.len() + 1);
        let mut u = t.clone();
        match c.choose(8) {
            0 => u.insert(i, *c.pick(&['A', '2', '.', '_', ' ', 'a', '\u{e9}'])),
            1 if i < t.len() => drop(u.remove(i)),
            2 if i < t.len() => u[i] = *c.pick(&['A', 'B', '2', '.', '_', 'a']),
            3 if i + 1 < t.len() => u.swap(i, i + 1),
            4 => u.truncate(i),
            5 => drop(u.drain(..i)),
            6 if i < p.len() => {
                let mut l = p.clone();
                match c.choose(4) {
                    0 => l.insert(i, l[i]),
                    1 => drop(l.remove(i)),
                    2 if i + 1 < l.len() => l.swap(i, i + 1),
                    _ => l[i] = "Z",
                }
                u = l.join(".").chars().collect();
            }
            7 if i == 0 => {}
            _ => return Res::Skip,
        }
        let s: String = u.into_iter().collect();
        if !c.state(&(&p, &s)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("{p:?} {s:?}"));
        c.execs += 1;
        match sut(|| text_laws(&p, &s)) {
            Err(x) => fail("compare: panic", x, p.join(".")),
            Ok(Err((k, m))) => fail(k, m, p.join(".")),
            Ok(Ok(())) => hres((&p, &s)),
        }
    }));
    v.push(space("different paths are different", "all pairs of paths of at most 3 parts out of 5, and of 4 parts out of 3, of each kind: equal exactly when they print the same, equal ones hash the same", move |c| {
        let (a, b) = if c.flag() {
            let mut l = || (0..4).map(|_| *c.pick(&["A", "AB", "B"])).collect::<Vec<_>>();
            (l(), l())
        } else {
            let abc = ["A", "B", "AB", "A%s", ""];
            (parts_of(c, &abc, 3), parts_of(c, &abc, 3))
        };
        if !c.state(&(&a, &b)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("{a:?} {b:?}"));
        c.execs += 1;
        match sut(|| equal_laws(&a, &b)) {
            Err(x) => return fail("compare: panic", x, format!("{a:?} {b:?}")),
            Ok(Err((k, m))) => return fail(k, m, format!("{a:?} {b:?}")),
            Ok(Ok(())) => {}
        }
        for (x, y) in paths(&a).iter().zip(&paths(&b)) {
            if (x.1 == y.1) != (a == b) || (a == b && x.2 != y.2) {
                return fail(format!("two {} paths", x.0), format!("{} and {}", x.1, y.1), format!("{a:?} {b:?}"));
            }
        }
        hres((a, b))
    }));
    let n = if q { 4 } else { 5 };
    v.push(space("index of forests", format!("all forests of at most {n} registers and clusters in a peripheral, every node and the peripheral single or one of three arrays"), move |c| {
        let f = gen::forest(c, n, true);
        let mut l = vec![per("P", 0, f)];
        arrays(c, &mut l, 3);
        check(c, &dev(l))
    }));
    v.push(space("index of fields", "up to 2 fields, single or arrays, with none, one or two sets of values with and without name, in a register or register array, in a peripheral, a cluster or a cluster array", move |c| {
        let n = c.choose(3);
        let mut fs = vec![];
        for i in 0..n {
            let mut f = fld(["F", "G"][i], 0, 1);
            let sets: Vec<El> = (0..c.choose(3))
                .map(|j| {
                    let e = El::new(K::Enums);
                    if c.flag() {
                        e.st("name", ["E", "EE"][j])
                    } else {
                        e
                    }
                })
                .collect();
            if !sets.is_empty() {
                f = f.kids("enumeratedValues", sets);
            }
            fs.push(f);
        }
        let mut r = reg("R", 0);
        if n > 0 || c.flag() {
            r = r.kids("fields", fs);
        }
        let l = match c.choose(3) {
            0 => vec![r],
            1 => vec![clu("C", 0, vec![r])],
            _ => vec![clu("C", 0, vec![clu("D", 0, vec![r])])],
        };
        let mut l = vec![per("P", 0, l)];
        arrays(c, &mut l, if q { 2 } else { 3 });
        check(c, &dev(l))
    }));
    let n = if q { 2 } else { 3 };
    v.push(space("index of several peripherals", format!("two peripherals with the same forest of at most {n} nodes or without, derived or not, arrays anywhere in both"), move |c| {
        let f = gen::forest(c, n, false);
        let mut l = vec![per("P", 0, f.clone()), per("Q", 0, f)];
        arrays(c, &mut l, 3);
        match c.choose(3) {
            0 => {}
            1 => {
                l[1].c.remove("registers");
                l[1].f.insert("@derivedFrom", V::s("P"));
            }
            _ => {
                l[1].f.insert("@derivedFrom", V::s("P"));
            }
        }
        check(c, &dev(l))
    }));
    let (b, depth) = (gen::base_med(K::Register), if q { 2 } else { 3 });
    let ds = Arc::new(DocSpace::new(b, FULL));
    v.push(space("index of documents", format!("base document with at most {depth} of {} edits", ds.n()), move |c| {
        let Some(d) = ds.upto(c, depth) else { return Res::Skip };
        check(c, &d)
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}", sz.len(), sz[sz.len() - 1]), move |c| {
        let (_, _, d) = any_crowd(c, &sz);
        check(c, &d)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C26",
    spaces,
    rule: "elements carry numbers; the entries of the real index of every device are compared with the listing of the reference tree, each key is printed, read and looked up again; the path types are run through all their operations for every path and text",
    assumptions: &["elements of a device have different paths", "the parts of a path have no dot in them", "FieldPath::parse_str of two parts is not specified (a field is named alone or with its full path)"],
};
