//! C19: expansion as an operation.
use super::util::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Expand,
    Props,
    Again,
}
fn run(d: &svd::Device, op: Op) -> Out<svd::Device> {
    match op {
        Op::Expand => expand(d),
        Op::Props => {
            let mut e = d.clone();
            match sut(|| svd_parser::expand_properties(&mut e)) {
                Ok(()) => Out::Ok(e),
                Err(p) => Out::Panic(p),
            }
        }
        // through text: what is held in memory is all that matters
        Op::Again => match encode(d, &svd_encoder::Config::default()) {
            Out::Ok(x) => parse(&x, &pcfg(0, false, false, false)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
        },
    }
}
fn same(a: &svd::Device, b: &svd::Device) -> Option<String> {
    let (va, vb) = (view(a), view(b));
    diff(&va, &vb).or_else(|| (a != b).then(|| "devices differ in something not public".to_string()))
}
fn check(c: &mut Ctx, d: &El) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    if refm::arrays_ok(&d).is_err() || !c.state(&d) {
        return Res::Skip;
    }
    let x = xmlw::xml(&d, &Style::default());
    let orig = match parse(&x, &pcfg(0, false, false, false)) {
        Out::Ok(d) => d,
        o => return fail(format!("parse: {}", o.kind()), o.why(), x),
    };
    c.sample = c.want_sample.then(|| x.clone());
    let keep = orig.clone();
    let first = run(&orig, Op::Expand);
    c.execs += 1;
    if orig != keep {
        return fail("expansion changes its input", "", x);
    }
    let second = run(&orig, Op::Expand);
    c.execs += 1;
    match (&first, &second) {
        (Out::Ok(a), Out::Ok(b)) => {
            if let Some(m) = same(a, b) {
                return fail(format!("repeated call differs: {}", diff_sig(&m)), m, x);
            }
        }
        (Out::Err(_), Out::Err(_)) => {}
        _ => return fail("repeated call differs in outcome", format!("{} / {}", first.kind(), second.kind()), x),
    }
    if let Out::Ok(a) = &first {
        match run(a, Op::Expand) {
            Out::Ok(b) => {
                if let Some(m) = same(a, &b) {
                    return fail(format!("not idempotent: {}", diff_sig(&m)), m, x);
                }
            }
            o => return fail(format!("expanding again: {}", o.kind()), o.why(), x),
        }
        c.execs += 1;
    }
    let props = match run(&orig, Op::Props) {
        Out::Ok(p) => p,
        o => return fail(format!("expand_properties: {}", o.kind()), o.why(), x),
    };
    match run(&props, Op::Props) {
        Out::Ok(b) => {
            if let Some(m) = same(&props, &b) {
                return fail(format!("expand_properties not idempotent: {}", diff_sig(&m)), m, x);
            }
        }
        o => return fail(format!("expand_properties again: {}", o.kind()), o.why(), x),
    }
    c.execs += 2;
    // by option: properties first, then expansion
    for (e, p) in [(false, false), (true, false), (false, true), (true, true)] {
        let by_opt = parse(&x, &pcfg(0, e, p, false));
        let by_call = {
            let s = if p { props.clone() } else { orig.clone() };
            if e {
                run(&s, Op::Expand)
            } else {
                Out::Ok(s)
            }
        };
        c.execs += 2;
        match (&by_opt, &by_call) {
            (Out::Ok(a), Out::Ok(b)) => {
                if let Some(m) = same(b, a) {
                    return fail(format!("option and call differ (expand={e} properties={p}): {}", diff_sig(&m)), m, x);
                }
            }
            (Out::Err(_), Out::Err(_)) => {}
            _ => return fail("option and call differ in outcome", format!("{e} {p} {} {} / {} {}", by_opt.kind(), by_opt.why(), by_call.kind(), by_call.why()), x),
        }
    }
    hres(match &first { Out::Ok(a) => h64(&view(a)), _ => 0 })
}
fn seqs(c: &mut Ctx, d: &El, len: usize) -> Res {
    let mut d = d.clone();
    gen::tidy(&mut d);
    let ops: Vec<Op> = (0..len).map(|_| *c.pick(&[Op::Expand, Op::Props, Op::Again])).collect();
    if refm::arrays_ok(&d).is_err() || !c.state(&(&d, format!("{ops:?}"))) {
        return Res::Skip;
    }
    let x = xmlw::xml(&d, &Style::default());
    let mut s = match parse(&x, &pcfg(0, false, false, false)) {
        Out::Ok(d) => d,
        o => return fail(format!("parse: {}", o.kind()), o.why(), x),
    };
    let mut m = norm(&d);
    let what = |i: usize| format!("{:?} after {:?}", ops[i], &ops[..i]);
    for (i, op) in ops.iter().enumerate() {
        let want = match op {
            Op::Expand => refm::expand(&m),
            Op::Props => Ok(refm::expand_properties(&m)),
            Op::Again => {
                let mut m = m.clone();
                super::c10_numbers::drop_empty_fields(&mut m);
                Ok(m)
            }
        };
        c.execs += 1;
        match (want, run(&s, *op)) {
            (Ok(w), Out::Ok(g)) => {
                let (mut a, mut b) = (w.clone(), view(&g));
                free_notation(&mut a, &mut b);
                if let Some(t) = diff(&a, &b) {
                    return fail(format!("sequence: {}", diff_sig(&t)), format!("{}: {t}", what(i)), x);
                }
                m = view(&g);
                s = g;
            }
            (Err(_), Out::Err(_)) => return hres("err"),
            (_, o) => return fail(format!("sequence: {}", o.kind()), format!("{}: {}", what(i), o.why()), x),
        }
    }
    hres(&m)
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let rich = Arc::new(DocSpace::new(base_rich(), EditCfg { empty: true, ..FULL }));
    let depth = if q { 1 } else { 2 };
    let r = rich.clone();
    v.push(space("rich document", format!("{} edits, up to {depth}", rich.n()), move |c| {
        let Some(d) = r.upto(c, depth) else { return Res::Skip };
        check(c, &d)
    }));
    let sk = Arc::new(super::c16_derive::skeleton());
    let op = Arc::new(super::c16_derive::options(&sk, &["MISSING"]));
    let (s1, o1) = (sk.clone(), op.clone());
    v.push(space("references", format!("{} ways to put a reference anywhere{}", op.len(), if q { ", and pairs with references between registers" } else { ", and all pairs" }), move |c| {
        let mut d = (*s1).clone();
        let i = c.choose(o1.len());
        super::c16_derive::put(&mut d, &o1[i]);
        if c.flag() {
            let j = c.choose(o1.len());
            if j >= i || o1[i].0 == o1[j].0 {
                return Res::Skip;
            }
            if q && !(d.at(&o1[i].0).map(|e| e.k) == Some(K::Register)) {
                return Res::Skip;
            }
            super::c16_derive::put(&mut d, &o1[j]);
        }
        check(c, &d)
    }));
    let n = if q { 5 } else { 6 };
    v.push(space("forests with arrays", format!("all forests of up to {n} nodes, each single, an array or derived from its neighbour"), move |c| {
        fn mark(c: &mut Ctx, l: &mut [El]) {
            let names: Vec<(K, String)> = l.iter().map(|e| (e.k, e.name().to_string())).collect();
            for (i, e) in l.iter_mut().enumerate() {
                match c.choose(3) {
                    0 => {}
                    1 => *e = e.clone().st("name", &format!("{}[%s]", names[i].1)).arr(2, 0x20),
                    _ => {
                        if let Some((_, n)) = names.iter().enumerate().find(|(j, (k, _))| *j != i && *k == e.k).map(|x| x.1) {
                            e.f.insert("@derivedFrom", V::s(n));
                        }
                    }
                }
                if let Some(k) = e.c.get_mut("children") {
                    mark(c, k);
                }
            }
        }
        let mut f = gen::forest(c, n, false);
        mark(c, &mut f);
        let two = c.flag();
        let mut ps = vec![per("P", 0x100, f).nu("size", 16)];
        if two {
            ps.push(El::new(K::Periph).st("name", "Q").nu("baseAddress", 0).st("@derivedFrom", "P"));
        }
        check(c, &dev(ps).nu("resetValue", 5))
    }));
    let len = if q { 3 } else { 4 };
    v.push(space("sequences of calls", format!("all sequences of {len} of expand, expand_properties, encode and parse, on the rich document and every single edit of it"), move |c| {
        let Some(d) = rich.upto(c, 1) else { return Res::Skip };
        seqs(c, &d, len)
    }));
    v.push(space("unrelated peripherals", "a device of up to 4 peripherals which derive from each other: expansion with and without those nobody refers to", move |c| {
        let n = 2 + c.choose(3);
        let refs: Vec<usize> = (0..n).map(|_| c.choose(n + 1)).collect();
        let l: Vec<El> = (0..n)
            .map(|i| {
                let mut e = El::new(K::Periph).st("name", &format!("X{i}")).nu("baseAddress", 0x100 * i as u64);
                if i % 2 == 0 {
                    e = e.kids("registers", vec![reg(&format!("R{i}"), 0), reg("S%s", 4).arr(2, 4)]);
                }
                if refs[i] > 0 {
                    e = e.st("@derivedFrom", &format!("X{}", refs[i] - 1));
                }
                e
            })
            .collect();
        let d = dev(l);
        let out = c.choose(n);
        if refs.iter().enumerate().any(|(i, r)| i != out && *r == out + 1) || !c.state(&(&d, out)) {
            return Res::Skip;
        }
        let mut small = d.clone();
        small.c.get_mut("peripherals").unwrap().remove(out);
        let (a, b) = match (device_of(&d, false), device_of(&small, false)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(r), _) | (_, Err(r)) => return r,
        };
        c.execs += 2;
        match (expand(&a), expand(&b)) {
            (Out::Ok(mut a), Out::Ok(b)) => {
                a.peripherals.retain(|p| p.name != format!("X{out}"));
                match same(&a, &b) {
                    None => hres(&view(&b)),
                    Some(m) => fail("leaving out a peripheral changes others", m, d.brief()),
                }
            }
            (Out::Err(_), Out::Err(_)) => hres("err"),
            // the one left out may have been the faulty one
            (Out::Err(_), Out::Ok(_)) => hres("err alone"),
            (_, o) => fail(format!("without the peripheral: {}", o.kind()), o.why(), d.brief()),
        }
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}", sz.len(), sz[sz.len() - 1]), move |c| {
        let (_, _, d) = any_crowd(c, &sz);
        check(c, &d)
    }));
    let m = if t == Tier::Quick { 1 } else { 2 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        check(c, &d)
    }));
    let full = norm(&base_rich());
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let d = doubled(c, &full);
        check(c, &d)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C19",
    spaces,
    rule: "every document is expanded repeatedly, after other calls, by option and by call, with and without unrelated parts; results and the inputs afterwards are compared completely",
    assumptions: &["the expand options apply expand_properties before expand, as the parser documents by its code"],
};
