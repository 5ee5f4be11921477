//! C28: an element read or written on its own is what it is inside its device.
use super::util::*;
use roxmltree::Node;
use svd_encoder::{Encode, EncodeChildren};
use svd_parser::elementext::ElementExt;
use svd_parser::Parse;

const TAGGED: [K; 9] = [K::Device, K::Cpu, K::Periph, K::Interrupt, K::Cluster, K::Register, K::Field, K::Enums, K::EnumV];

/// the node read as an element of the kind, as a model element
fn read_as(k: K, n: &Node, cfg: &svd_parser::Config) -> Out<El> {
    macro_rules! p {
        ($t:ty, $v:expr) => {
            attempt(|| <$t>::parse(n, cfg).map(|x| $v(&x)))
        };
    }
    match k {
        K::Device => p!(svd::Device, view),
        K::Cpu => p!(svd::Cpu, cpu_v),
        K::Periph => p!(svd::Peripheral, peripheral_v),
        K::AddrBlock => p!(svd::AddressBlock, ab_v),
        K::Interrupt => p!(svd::Interrupt, interrupt_v),
        K::Cluster => p!(svd::Cluster, cluster_v),
        K::Register => p!(svd::Register, register_v),
        K::Field => p!(svd::Field, field_v),
        K::Enums => p!(svd::EnumeratedValues, enums_v),
        K::EnumV => p!(svd::EnumeratedValue, enumv_v),
        K::DimArr => attempt(|| svd::DimArrayIndex::parse(n, cfg).map(|x| dimarr_v(&x))),
    }
}
fn dimarr_v(d: &svd::DimArrayIndex) -> El {
    let mut e = El::new(K::DimArr);
    if let Some(h) = &d.header_enum_name {
        e.f.insert("headerEnumName", V::s(h));
    }
    e.c.insert("values", d.values.iter().map(enumv_v).collect());
    e
}
/// the nodes of the modelled elements, with their places in the model
fn nodes<'a, 'i>(n: Node<'a, 'i>, e: &El, path: &mut Vec<(&'static str, usize)>, out: &mut Vec<(Vec<(&'static str, usize)>, K, Node<'a, 'i>)>) -> bool {
    out.push((path.clone(), e.k, n));
    for (g, w, ks) in groups(e.k) {
        let l = e.c.get(g).map(|l| l.as_slice()).unwrap_or(&[]);
        let from = if w.is_empty() { Some(n) } else { n.children().find(|c| c.has_tag_name(*w)) };
        let found: Vec<Node> = from.into_iter().flat_map(|f| f.children()).filter(|c| ks.iter().any(|k| c.has_tag_name(k.tag()))).collect();
        if found.len() != l.len() {
            return false;
        }
        for (i, (x, y)) in found.into_iter().zip(l).enumerate() {
            path.push((g, i));
            if !x.has_tag_name(y.k.tag()) || !nodes(x, y, path, out) {
                return false;
            }
            path.pop();
        }
    }
    true
}
fn readings(c: &mut Ctx, d: &El, st: &Style) -> Res {
    if super::c05_validation::stray_dim(d) || !c.state(&(d, st)) {
        return Res::Skip;
    }
    let x = xmlw::xml(d, st);
    let x = x.trim_start_matches('\u{feff}');
    let n = norm(d);
    c.sample = c.want_sample.then(|| x.to_string());
    let tree = match roxmltree::Document::parse(x) {
        Ok(t) => t,
        Err(e) => return fail("the writer of the checker", e.to_string(), x),
    };
    let mut l = vec![];
    if !nodes(tree.root_element(), d, &mut vec![], &mut l) {
        return fail("the writer of the checker", "elements do not correspond", x);
    }
    let mut seen = vec![];
    for (p, k, node) in &l {
        let own = d.at(p).unwrap();
        // what normalising the device does to this element
        let want = n.at(p);
        let rd = super::c05_validation::readable(own);
        for lvl in 0..3 {
            for ignore in [false, true] {
                c.execs += 1;
                let mut own = own.clone();
                let mut want = want.cloned();
                if ignore {
                    without_enums(&mut own);
                    want.iter_mut().for_each(without_enums);
                }
                let ok = if ignore { super::c05_validation::readable(&own) } else { rd.clone() }.and_then(|_| refm::validate(&own, lvl));
                let got = read_as(*k, node, &pcfg(lvl, true, true, ignore));
                match (&ok, &got) {
                    (Ok(()), Out::Ok(g)) => {
                        if let Some(w) = &want {
                            if let Some(m) = diff(&tidied(w), &tidied(g)) {
                                return fail(format!("{} read on its own: {}", k.tag(), diff_sig(&m)), m, x);
                            }
                        }
                        seen.push(0u8);
                    }
                    (Err(_), Out::Err(_)) => seen.push(1),
                    (Ok(()), o) => return fail(format!("{} on its own: {} although allowed", k.tag(), o.kind()), format!("{:?} {}", LEVELS[lvl], o.why()), x),
                    (Err(m), o) => return fail(format!("{} on its own: {} although wrong", k.tag(), o.kind()), format!("{:?} {m}", LEVELS[lvl]), x),
                }
                // through the helper for optional children
                if k == &K::Cpu {
                    let o = attempt(|| svd_parser::optional::<svd::Cpu>("cpu", &tree.root_element(), &pcfg(lvl, true, true, ignore)).map(|o| o.map(|c| cpu_v(&c))));
                    match (&got, &o) {
                        (Out::Ok(a), Out::Ok(Some(b))) if a == b => {}
                        (Out::Err(a), Out::Err(b)) if a == b => {}
                        _ => return fail("optional", format!("{o:?}"), x),
                    }
                }
            }
        }
        // as a register or cluster
        let rc = attempt(|| svd::RegisterCluster::parse(node, &pcfg(0, false, false, false)).map(|x| rc_v(&x)));
        c.execs += 1;
        match (k, &rc, read_as(*k, node, &pcfg(0, false, false, false))) {
            (K::Register | K::Cluster, Out::Ok(a), Out::Ok(b)) if *a == b => {}
            (K::Register | K::Cluster, Out::Err(_), Out::Err(_)) => {}
            (K::Register | K::Cluster, ..) => return fail("register or cluster", format!("{rc:?}"), x),
            (_, Out::Err(_), _) => {}
            _ => return fail("register or cluster from another element", format!("{rc:?}"), x),
        }
        // and as what it is not
        for other in TAGGED {
            if other != *k {
                c.execs += 1;
                if let o @ (Out::Ok(_) | Out::Panic(_)) = read_as(other, node, &pcfg(0, false, false, false)) {
                    return fail(format!("{} read as a {}: {}", k.tag(), other.tag(), o.kind()), o.why(), x);
                }
            }
        }
        if *k != K::Device {
            if let o @ (Out::Err(_) | Out::Panic(_) | Out::Ok(Some(_))) = attempt(|| svd_parser::optional::<svd::Cpu>("cpu", node, &pcfg(0, false, false, false))) {
                return fail("optional without such a child", o.why(), x);
            }
        }
    }
    hres((seen, l.len()))
}
fn tidied(e: &El) -> El {
    let mut e = e.clone();
    gen::tidy(&mut e);
    e
}
fn without_enums(e: &mut El) {
    e.walk_mut(&mut |e| {
        if e.k == K::Field {
            e.c.remove("enumeratedValues");
            e.f.remove("writeConstraint");
        }
    });
}

// ------------------------------------------------------------------ writing
macro_rules! xn {
    ($e:expr) => {{
        let mut out = Xn::new("");
        to_xn(&$e, &mut out, &mut |e| {
            let mut x = Xn::new(&e.name);
            if x.tag != "device" {
                x.attrs = e.attributes.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            }
            let t: String = e.children.iter().filter_map(|c| c.as_text()).collect();
            if !t.is_empty() {
                x.text = Some(t);
            }
            x.kids = vec![];
            (x, e.children.iter().filter_map(|c| c.as_element()).collect())
        });
        out.kids.pop().unwrap()
    }};
}
fn to_xn<'e, E>(e: &'e E, out: &mut Xn, f: &mut dyn FnMut(&'e E) -> (Xn, Vec<&'e E>)) {
    let (mut x, kids) = f(e);
    for k in kids {
        to_xn(k, &mut x, f);
    }
    out.kids.push(x);
}
type Written = Result<Vec<(&'static str, bool, Xn)>, String>;
/// what the four methods give: (method, with the configuration, result)
fn four<T: Encode>(t: &T, cfg: &svd_encoder::Config) -> Written
where
    T::Error: std::fmt::Display,
{
    let s = |e: T::Error| e.to_string();
    Ok(vec![
        ("encode", false, xn!(t.encode().map_err(s)?)),
        ("encode_with_config", true, xn!(t.encode_with_config(cfg).map_err(s)?)),
        ("encode_node", false, xn!(t.encode_node().map_err(s)?.as_element().ok_or("no element")?.clone())),
        ("encode_node_with_config", true, xn!(t.encode_node_with_config(cfg).map_err(s)?.as_element().ok_or("no element")?.clone())),
    ])
}
fn two<T: EncodeChildren>(t: &T, cfg: &svd_encoder::Config) -> Written
where
    T::Error: std::fmt::Display,
{
    let s = |e: T::Error| e.to_string();
    let mut out = vec![];
    for (m, with, l) in [("encode", false, t.encode().map_err(s)?), ("encode_with_config", true, t.encode_with_config(cfg).map_err(s)?)] {
        let mut x = Xn::new("");
        for n in &l {
            x.kids.push(xn!(n.as_element().ok_or("no element")?.clone()));
        }
        out.push((m, with, x));
    }
    Ok(out)
}
fn agree(c: &mut Ctx, what: &str, want: [&Xn; 2], got: Out<Vec<(&'static str, bool, Xn)>>, ctx: &dyn Fn() -> String) -> Option<Res> {
    match got {
        Out::Ok(l) => {
            for (m, with, x) in l {
                c.execs += 1;
                if let Some(d) = encref::compare(want[with as usize], &x) {
                    return Some(fail(format!("{what} on its own, {m}: {}", d.split(':').next().unwrap_or("")), d, ctx()));
                }
            }
            None
        }
        o => Some(fail(format!("{what} on its own: {}", o.kind()), o.why(), ctx())),
    }
}
fn writings(c: &mut Ctx, d: &El, cfg: &ECfg) -> Res {
    if refm::arrays_ok(d).is_err() || super::c05_validation::stray_dim(d) || !c.state(&(d, cfg)) {
        return Res::Skip;
    }
    let d = norm(d);
    let ec = cfg.config();
    let def = ECfg::default();
    let z = LEVELS[0];
    let mut all = vec![];
    d.walk(&mut vec![], &mut |e, _| all.push(e));
    let mut h = 0u64;
    for e in all {
        let w = [encref::tree(e, &def), encref::tree(e, cfg)];
        h = h64(&(h, &w[1]));
        let ctx = || format!("{:?} {}", cfg.0, e.brief());
        let tag = e.k.tag();
        macro_rules! chk {
            ($what:expr, $w:expr, $got:expr) => {
                if let Some(r) = agree(c, $what, [&$w[0], &$w[1]], attempt(|| $got), &ctx) {
                    return r;
                }
            };
        }
        macro_rules! of {
            ($o:expr) => {
                chk!(tag, w, $o.map_err(|e| e.to_string()).and_then(|o| four(&o, &ec)))
            };
        }
        // the element without its dimension, the dimension, the properties
        let cut = |keep: &dyn Fn(&str) -> bool, t: Option<&str>| {
            w.clone().map(|mut x| {
                x.kids.retain(|k| keep(&k.tag));
                if let Some(t) = t {
                    x.tag = t.into();
                    x.attrs.clear();
                }
                x
            })
        };
        let dims = |t: &str| DIM_TAGS.contains(&t) || t == "dimArrayIndex";
        macro_rules! arrayed {
            ($mk:expr) => {{
                of!($mk);
                if e.is_array() {
                    let i = cut(&|t| !dims(t), None);
                    chk!(tag, i, $mk.map_err(|e| e.to_string()).and_then(|o| four(&*o, &ec)));
                    let i = cut(&dims, Some("dimElement"));
                    chk!("dimension", i, mk_dim(e, z).map_err(|e| e.to_string()).and_then(|o| four(&o.unwrap(), &ec)));
                    if let Some(da) = e.c.get("dimArrayIndex").and_then(|l| l.first()) {
                        let i = [encref::tree(da, &def), encref::tree(da, cfg)];
                        chk!("dimArrayIndex", i, mk_dim(e, z).map_err(|e| e.to_string()).and_then(|o| four(&o.unwrap().dim_array_index.unwrap(), &ec)));
                    }
                }
            }};
        }
        match e.k {
            K::Device => of!(build(e, z)),
            K::Cpu => of!(b_cpu(e).build(z)),
            K::Periph => arrayed!(mk_peripheral(e, z)),
            K::AddrBlock => of!(b_ab(e).build(z)),
            K::Interrupt => of!(b_interrupt(e).build(z)),
            K::Cluster => {
                arrayed!(mk_cluster(e, z));
                of!(mk_rc(e, z));
            }
            K::Register => {
                arrayed!(mk_register(e, z));
                of!(mk_rc(e, z));
            }
            K::Field => arrayed!(mk_field(e, z)),
            K::Enums => of!(mk_enums(e, z)),
            K::EnumV => of!(mk_enumv(e, z)),
            K::DimArr => {}
        }
        if matches!(e.k, K::Device | K::Periph | K::Cluster | K::Register) {
            let i = cut(&|t| PROPS.contains(&t), Some(""));
            chk!("register properties", i, two(&mk_props(e), &ec));
        }
        // the parts which are a word
        macro_rules! word {
            ($t:expr, $p:expr) => {
                if let Some(s) = e.s($t) {
                    let x = Xn::leaf($t, s);
                    let p = $p(s);
                    chk!($t, [&x, &x], four(&p, &ec));
                }
            };
        }
        word!("access", access_p);
        word!("protection", prot_p);
        word!("endian", endian_p);
        word!("readAction", ra_p);
        word!("modifiedWriteValues", mwv_p);
        word!("dataType", dt_p);
        if e.k == K::Enums {
            word!("usage", usage_p);
        }
        if e.k == K::AddrBlock {
            word!("usage", abu_p);
        }
        if let Some(v) = e.f.get("writeConstraint") {
            let x = w[0].kids.iter().find(|k| k.tag == "writeConstraint").unwrap().clone();
            chk!("writeConstraint", [&x, &x], four(&wc_p(v), &ec));
            if let svd::WriteConstraint::Range(r) = wc_p(v) {
                chk!("range", [&x.kids[0], &x.kids[0]], four(&r, &ec));
            }
        }
    }
    c.sample = c.want_sample.then(|| d.brief());
    hres(h)
}
fn configs() -> Vec<ECfg> {
    let mk = |case: &str, nf: &str, br: &str, so: &str, rc: &str| {
        let mut c = ECfg::default().set("field_bit_range", br).set("peripheral_sorting", so).set("field_sorting", so).set("register_cluster_sorting", rc);
        for n in CASE_OPTS {
            c = c.set(n, case);
        }
        for n in NUM_OPTS {
            c = c.set(n, nf);
        }
        c
    };
    vec![
        mk("Pascal", "Bin", "BitRange", "Offset,DerivedLast", "RegistersFirst,Offset,DerivedLast"),
        mk("Snake", "LowerHex16", "MsbLsb", "OffsetReversed", "ClustersFirst,OffsetReversed"),
        mk("Constant", "UpperHex8", "OffsetWidth", "Name,DerivedLast", "Name,DerivedLast"),
    ]
}
// ------------------------------------------------------------------ the helpers of nodes
/// contents of a child element: (xml, its text, as a number of 32 bits, of 64 bits, as a boolean)
const CONTENT: [(&str, Option<&str>, Option<u32>, Option<u64>, Option<bool>); 19] = [
    ("", None, None, None, None),
    (" \n ", None, None, None, None),
    ("\n", None, None, None, None),
    (" ", None, None, None, None),
    ("\t", None, None, None, None),
    ("<!-- 1 -->", None, None, None, None),
    ("\n2\n", Some("2"), Some(2), Some(2), None),
    ("-1", Some("-1"), None, None, None),
    ("text", Some("text"), None, None, None),
    (" two words ", Some("two words"), None, None, None),
    ("1", Some("1"), Some(1), Some(1), Some(true)),
    (" 0 ", Some("0"), Some(0), Some(0), Some(false)),
    ("0x1F", Some("0x1F"), Some(31), Some(31), None),
    ("#1x1", Some("#1x1"), Some(5), Some(5), None),
    ("4294967296", Some("4294967296"), None, Some(1 << 32), None),
    ("true", Some("true"), None, None, Some(true)),
    ("false", Some("false"), None, None, Some(false)),
    ("<x>1</x>", None, None, None, None),
    ("<![CDATA[1]]>", Some("1"), Some(1), Some(1), Some(true)),
];
fn helpers(c: &mut Ctx, max: usize) -> Res {
    let n = c.choose(max + 1);
    let l: Vec<(bool, usize)> = (0..n).map(|_| (c.flag(), c.choose(CONTENT.len()))).collect();
    if !c.state(&l) {
        return Res::Skip;
    }
    let sep = ["", "\n", "<!-- <a>7</a> -->"][c.choose(3)];
    let mut x = String::from("<r>");
    for (b, i) in &l {
        let t = if *b { "b" } else { "a" };
        x += &format!("{sep}<{t}>{}</{t}>", CONTENT[*i].0);
    }
    x += &format!("{sep}</r>");
    let doc = match roxmltree::Document::parse(&x) {
        Ok(t) => t,
        Err(e) => return fail("the writer of the checker", e.to_string(), x),
    };
    let r = doc.root_element();
    c.execs += 1;
    let mut out = vec![];
    for t in ["a", "b", "x", "ab"] {
        let first = match t {
            "a" => l.iter().position(|(b, _)| !b),
            "b" => l.iter().position(|(b, _)| *b),
            _ => None,
        };
        let k = first.map(|i| CONTENT[l[i].1]);
        let want = (k.and_then(|k| k.1).map(str::to_string), k.and_then(|k| k.2), k.and_then(|k| k.3), k.and_then(|k| k.4));
        let node = r.children().filter(|c| c.is_element()).nth(first.unwrap_or(usize::MAX));
        let got = sut(|| {
            let got = (r.get_child_text(t).ok(), r.get_child_u32(t).ok(), r.get_child_u64(t).ok(), r.get_child_bool(t).ok());
            // an optional text: none if it is not there or empty
            let opt = r.get_child_text_opt(t).map_err(|e| e.to_string());
            let child = (r.get_child(t), r.get_child_elem(t).ok());
            let text = child.0.map(|n| n.get_text().ok().map(str::to_string));
            (got, opt, child, text)
        });
        match got {
            Err(p) => return fail("panic in a helper", p, x),
            Ok((got, opt, child, text)) => {
                if got != want {
                    return fail("helpers of nodes", format!("{t}: {want:?} expected, got {got:?}"), x);
                }
                if opt != Ok(want.0.clone()) || child != (node, node) || text != node.map(|_| want.0.clone()) {
                    return fail("helpers of nodes, child or optional text", format!("{t}: {want:?} expected, got {opt:?} {child:?} {text:?}"), x);
                }
                out.push(got);
            }
        }
    }
    c.sample = c.want_sample.then(|| x.clone());
    hres(out)
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let any = EditCfg { alts: alts_any, structural: true, arrays: true, del: true, del_mand: true, fields: true, empty: true };
    let valid = EditCfg { alts: alts_valid, structural: true, arrays: true, del: true, del_mand: false, fields: true, empty: false };
    let styles: Arc<Vec<Style>> = Arc::new(vec![
        Style::default(),
        Style { ws: 2, num: 1, bool01: true, ..Default::default() },
        Style { ws: 1, comments: true, mix: true, text: 1, idx_range: true, ..Default::default() },
    ]);
    let rich = Arc::new(base_rich());
    let (r, s) = (rich.clone(), styles.clone());
    v.push(space("read alone: rich document", format!("every element of the rich document under every edit to valid and invalid values x {} styles x 3 levels x ignore_enums, as its own kind and as 9 others", s.len()), move |c| {
        let k = if q { 0 } else { c.choose(s.len()) };
        match edited(c, &r, &any, 1) {
            Some(d) => readings(c, &d, &s[k]),
            None => Res::Skip,
        }
    }));
    let m = if q { 1 } else { 2 };
    let s = styles.clone();
    v.push(space("read alone: element in full", format!("11 kinds in full, {m} edits to valid and invalid values"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        match edited(c, &base_med(k), &any, m) {
            Some(d) => readings(c, &d, &s[1]),
            None => Res::Skip,
        }
    }));
    let s = styles.clone();
    v.push(space("read alone: presence", format!("11 kinds, at most {m} optional parts present or absent, {} styles", s.len()), move |c| {
        let k = c.choose(s.len());
        let d = host(subset(c, m));
        readings(c, &d, &s[k])
    }));
    let cf = Arc::new(configs());
    let (r, s) = (rich.clone(), cf.clone());
    v.push(space("written alone: rich document", format!("every element of the rich document under every edit, default and {} configurations, all methods", s.len()), move |c| {
        let k = c.choose(s.len());
        match edited(c, &r, &valid, 1) {
            Some(d) => writings(c, &d, &s[k]),
            None => Res::Skip,
        }
    }));
    let s = cf.clone();
    v.push(space("written alone: element in full", format!("11 kinds in full, {m} edits"), move |c| {
        let k = *c.pick(&ALL_KINDS);
        let i = c.choose(if q { s.len() } else { 1 });
        match edited(c, &base_med(k), &valid, m) {
            Some(d) => writings(c, &d, &s[i]),
            None => Res::Skip,
        }
    }));
    let s = cf.clone();
    v.push(space("written alone: presence", format!("11 kinds, at most {m} optional parts present or absent"), move |c| {
        let i = c.choose(s.len());
        let d = host(subset(c, m));
        writings(c, &d, &s[i])
    }));
    let (n, s, w) = (if q { 3 } else { 4 }, styles.clone(), cf.clone());
    v.push(space("alone: forests", format!("ordered forests of at most {n} registers and clusters"), move |c| {
        let f = forest(c, n, true);
        let d = dev(vec![per("PA", 0x1000, f)]);
        if c.flag() {
            readings(c, &d, &s[0])
        } else {
            let i = c.choose(w.len());
            writings(c, &d, &w[i])
        }
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("helpers of nodes", format!("elements with at most {n} children of two names x {} contents x 3 separators", CONTENT.len()), move |c| helpers(c, n)));
    let m = if q { 1 } else { 2 };
    let (s, y) = (cf.clone(), styles.clone());
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places, read and written alone"), move |c| {
        let w = c.choose(s.len() + y.len());
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        if w < s.len() { writings(c, &d, &s[w]) } else { readings(c, &d, &y[w - s.len()]) }
    }));
    let full = norm(&base_rich());
    let (s, y) = (cf, styles);
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let w = c.choose(s.len() + y.len());
        let d = doubled(c, &full);
        if w < s.len() { writings(c, &d, &s[w]) } else { readings(c, &d, &y[w - s.len()]) }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C28",
    spaces,
    rule: "every element of every document of the space is read from its node alone through Parse, at three levels, with and without enumerations, as its own kind and as every other, and is built and written alone through every method of Encode and EncodeChildren; the results are compared with the model and the reference rendering; helpers of nodes are compared with the children listed",
    assumptions: &["an address block, a dimArrayIndex and the keyword elements are read whatever the node is called", "array parts without dimIncrement are not specified"],
};
