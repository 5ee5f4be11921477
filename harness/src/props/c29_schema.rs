//! C29: what is encoded follows the content models of the CMSIS-SVD schema.
use super::util::*;

/// children of an element in the order of the schema: (names which stand at this place, how often at most)
type Model = Vec<(&'static [&'static str], usize)>;
const MANY: usize = usize::MAX;
const PROPERTIES: [&[&str]; 5] = [&["size"], &["access"], &["protection"], &["resetValue"], &["resetMask"]];
const DIM: [&[&str]; 5] = [&["dim"], &["dimIncrement"], &["dimIndex"], &["dimName"], &["dimArrayIndex"]];

fn model(tag: &str) -> Option<Model> {
    let mut m: Model = vec![];
    let one = |m: &mut Model, l: &[&'static [&'static str]]| m.extend(l.iter().map(|n| (*n, 1)));
    match tag {
        "device" => {
            one(&mut m, &[&["vendor"], &["vendorID"], &["name"], &["series"], &["version"], &["description"], &["licenseText"], &["cpu"]]);
            one(&mut m, &[&["headerSystemFilename"], &["headerDefinitionsPrefix"], &["addressUnitBits"], &["width"]]);
            one(&mut m, &PROPERTIES);
            one(&mut m, &[&["peripherals"]]);
        }
        "cpu" => one(
            &mut m,
            &[
                &["name"], &["revision"], &["endian"], &["mpuPresent"], &["fpuPresent"], &["fpuDP"], &["dspPresent"], &["icachePresent"], &["dcachePresent"],
                &["itcmPresent"], &["dtcmPresent"], &["vtorPresent"], &["nvicPrioBits"], &["vendorSystickConfig"], &["deviceNumInterrupts"], &["sauNumRegions"],
            ],
        ),
        "peripherals" => m.push((&["peripheral"], MANY)),
        "peripheral" => {
            one(&mut m, &DIM);
            one(&mut m, &[&["name"], &["version"], &["description"], &["alternatePeripheral"], &["groupName"], &["prependToName"], &["appendToName"]]);
            one(&mut m, &[&["headerStructName"], &["baseAddress"]]);
            one(&mut m, &PROPERTIES);
            m.push((&["addressBlock"], MANY));
            m.push((&["interrupt"], MANY));
            one(&mut m, &[&["registers"]]);
        }
        "addressBlock" => one(&mut m, &[&["offset"], &["size"], &["usage"], &["protection"]]),
        "interrupt" => one(&mut m, &[&["name"], &["description"], &["value"]]),
        "registers" => m.push((&["cluster", "register"], MANY)),
        "cluster" => {
            one(&mut m, &DIM);
            one(&mut m, &[&["name"], &["description"], &["alternateCluster"], &["headerStructName"], &["addressOffset"]]);
            one(&mut m, &PROPERTIES);
            m.push((&["cluster", "register"], MANY));
        }
        "register" => {
            one(&mut m, &DIM);
            one(&mut m, &[&["name"], &["displayName"], &["description"], &["alternateGroup"], &["alternateRegister"], &["addressOffset"]]);
            one(&mut m, &PROPERTIES);
            one(&mut m, &[&["dataType"], &["modifiedWriteValues"], &["writeConstraint"], &["readAction"], &["fields"]]);
        }
        "fields" => m.push((&["field"], MANY)),
        "field" => {
            one(&mut m, &DIM);
            one(&mut m, &[&["name"], &["description"], &["bitRange", "lsb", "bitOffset"], &["msb", "bitWidth"]]);
            one(&mut m, &[&["access"], &["modifiedWriteValues"], &["writeConstraint"], &["readAction"]]);
            m.push((&["enumeratedValues"], 2));
        }
        "enumeratedValues" => {
            one(&mut m, &[&["name"], &["headerEnumName"], &["usage"]]);
            m.push((&["enumeratedValue"], MANY));
        }
        "enumeratedValue" => one(&mut m, &[&["name"], &["description"], &["value"], &["isDefault"]]),
        "dimArrayIndex" => {
            one(&mut m, &[&["headerEnumName"]]);
            m.push((&["enumeratedValue"], MANY));
        }
        "writeConstraint" => m.push((&["writeAsRead", "useEnumeratedValues", "range"], 1)),
        "range" => one(&mut m, &[&["minimum"], &["maximum"]]),
        _ => return None,
    }
    Some(m)
}
/// everything which stands in the text, elements and attributes included, against the content models
fn conforms(n: roxmltree::Node) -> Option<String> {
    let tag = n.tag_name().name();
    let text = n.children().filter(|c| c.is_text()).any(|c| !c.text().unwrap_or("").trim().is_empty());
    let kids: Vec<&str> = n.children().filter(|c| c.is_element()).map(|c| c.tag_name().name()).collect();
    for a in n.attributes() {
        let ok = match a.name() {
            "derivedFrom" => matches!(tag, "peripheral" | "cluster" | "register" | "field" | "enumeratedValues"),
            "schemaVersion" | "noNamespaceSchemaLocation" => tag == "device",
            _ => false,
        };
        if !ok {
            return Some(format!("attribute {} of {tag}", a.name()));
        }
    }
    let Some(m) = model(tag) else {
        return (!kids.is_empty()).then(|| format!("elements inside {tag}: {kids:?}"));
    };
    if text {
        return Some(format!("text beside the elements of {tag}"));
    }
    let (mut at, mut count) = (0, 0);
    for k in &kids {
        // not in the schema, so it has no place there
        if tag == "peripheral" && *k == "displayName" {
            continue;
        }
        let Some(p) = m.iter().position(|(l, _)| l.contains(k)) else {
            return Some(format!("{k} inside {tag}"));
        };
        if p < at {
            return Some(format!("order: {k} after {:?} in {tag}: {kids:?}", m[at].0));
        }
        count = if p == at { count + 1 } else { 1 };
        at = p;
        if count > m[p].1 {
            return Some(format!("{k} more often than {} times in {tag}", m[p].1));
        }
    }
    if tag == "field" {
        let b: Vec<&str> = kids.iter().copied().filter(|k| ["bitRange", "lsb", "msb", "bitOffset", "bitWidth"].contains(k)).collect();
        if ![&["bitRange"][..], &["lsb", "msb"], &["bitOffset", "bitWidth"]].contains(&&b[..]) {
            return Some(format!("position of a field: {b:?}"));
        }
    }
    n.children().filter(|c| c.is_element()).find_map(conforms)
}
fn run(c: &mut Ctx, d: &El, cfg: &ECfg) -> Res {
    let n = norm(d);
    // the schema has place for at most two sets of values
    let mut two = true;
    n.walk(&mut vec![], &mut |e, _| two &= e.list("enumeratedValues").len() <= 2);
    if !two || refm::arrays_ok(d).is_err() || super::c05_validation::stray_dim(d) || !c.state(&(d, cfg)) {
        return Res::Skip;
    }
    let dev = match attempt(|| build(&n, LEVELS[0])) {
        Out::Ok(d) => d,
        o => return fail(format!("building: {}", o.kind()), o.why(), d.brief()),
    };
    c.execs += 1;
    let x = match encode(&dev, &cfg.config()) {
        Out::Ok(x) => x,
        o => return fail(format!("encode: {}", o.kind()), o.why(), d.brief()),
    };
    c.sample = c.want_sample.then(|| x.clone());
    let doc = match roxmltree::Document::parse(&x) {
        Ok(t) => t,
        Err(e) => return fail("not well formed", e.to_string(), &x),
    };
    if doc.root_element().tag_name().name() != "device" {
        return fail("root", doc.root_element().tag_name().name(), &x);
    }
    match conforms(doc.root_element()) {
        None => hres(&x),
        Some(m) => fail(m.split(':').next().unwrap().to_string(), format!("{:?}: {m}", cfg.0), &x),
    }
}
fn configs() -> Vec<ECfg> {
    let mk = |case: &str, nf: &str, br: &str, so: &str, rc: &str| {
        let mut c = ECfg::default().set("field_bit_range", br).set("peripheral_sorting", so).set("field_sorting", so).set("register_cluster_sorting", rc);
        for n in CASE_OPTS {
            c = c.set(n, case);
        }
        for n in NUM_OPTS {
            c = c.set(n, nf);
        }
        c
    };
    vec![
        ECfg::default(),
        mk("Pascal", "Bin", "BitRange", "Offset,DerivedLast", "RegistersFirst,Offset,DerivedLast"),
        mk("Snake", "LowerHex16", "MsbLsb", "OffsetReversed", "ClustersFirst,OffsetReversed"),
        mk("Constant", "UpperHex8", "OffsetWidth", "Name,DerivedLast", "Name,DerivedLast"),
    ]
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let cf = Arc::new(configs());
    let mut v = vec![];
    let valid = EditCfg { alts: alts_valid, structural: true, arrays: true, del: true, del_mand: false, fields: true, empty: false };
    let rich = Arc::new(base_rich());
    let m = if q { 3 } else { 4 };
    let s = cf.clone();
    v.push(space("presence", format!("11 kinds, at most {m} optional parts present or absent x {} configurations", s.len()), move |c| {
        let i = c.choose(s.len());
        let d = host(subset(c, m));
        run(c, &d, &s[i])
    }));
    let (r, s) = (rich.clone(), cf.clone());
    v.push(space("rich document", format!("every edit of the rich document x {} configurations", s.len()), move |c| {
        let i = c.choose(s.len());
        match edited(c, &r, &valid, 1) {
            Some(d) => run(c, &d, &s[i]),
            None => Res::Skip,
        }
    }));
    let n = if q { 4 } else { 5 };
    let s = cf.clone();
    v.push(space("forests", format!("ordered forests of at most {n} registers and clusters x {} configurations", s.len()), move |c| {
        let i = c.choose(s.len());
        let d = dev(vec![per("PA", 0x1000, forest(c, n, true))]);
        run(c, &d, &s[i])
    }));
    let sz = sizes(!q);
    let s = cf.clone();
    v.push(space("crowds", format!("documents with {sz:?} of one kind of part x {} configurations", s.len()), move |c| {
        let i = c.choose(s.len());
        let (_, _, d) = any_crowd(c, &sz);
        run(c, &d, &s[i])
    }));
    let s = cf.clone();
    v.push(space("element in full", "11 kinds in full, 2 edits", move |c| {
        let i = c.choose(if q { 1 } else { s.len() });
        let k = *c.pick(&ALL_KINDS);
        match edited(c, &base_med(k), &valid, 2) {
            Some(d) => run(c, &d, &s[i]),
            None => Res::Skip,
        }
    }));
    let m = if q { 1 } else { 2 };
    let s = cf.clone();
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let i = c.choose(s.len());
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        run(c, &d, &s[i])
    }));
    let full = norm(&base_rich());
    let s = cf;
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let i = c.choose(s.len());
        let d = doubled(c, &full);
        run(c, &d, &s[i])
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C29",
    spaces,
    rule: "every document of the space is built and encoded under every configuration; the text is walked against the content models of the CMSIS-SVD schema: order, place and multiplicity of the children of every element, attributes, one notation for the position of a field, no text beside elements",
    assumptions: &["displayName of a peripheral, which the schema does not have, may stand anywhere", "what the document holds beyond the schema's limits (a third set of values) is left aside", "whether mandatory parts of the schema which the library takes as optional are there is not asked"],
};
