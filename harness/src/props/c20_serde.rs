//! C20: JSON and YAML.
use super::util::*;
use serde_json::{json, Map, Value as J};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    Json,
    Yaml,
}
const FMTS: [Fmt; 2] = [Fmt::Json, Fmt::Yaml];
fn write(f: Fmt, d: &svd::Device) -> Out<String> {
    match f {
        Fmt::Json => attempt(|| serde_json::to_string(d)),
        Fmt::Yaml => attempt(|| serde_yaml::to_string(d)),
    }
}
fn read(f: Fmt, s: &str) -> Out<svd::Device> {
    match f {
        Fmt::Json => attempt(|| serde_json::from_str::<svd::Device>(s)),
        Fmt::Yaml => attempt(|| serde_yaml::from_str::<svd::Device>(s)),
    }
}
/// the value a text carries, read without the library
fn value(f: Fmt, s: &str) -> Result<J, String> {
    match f {
        Fmt::Json => serde_json::from_str(s).map_err(|e| e.to_string()),
        Fmt::Yaml => serde_yaml::from_str(s).map_err(|e| e.to_string()),
    }
}
fn text(f: Fmt, j: &J) -> String {
    match f {
        Fmt::Json => j.to_string(),
        Fmt::Yaml => serde_yaml::to_string(j).unwrap(),
    }
}

// ------------------------------------------------------------------ reference form
fn key(k: K, t: &'static str) -> &'static str {
    match (k, t) {
        (K::Enums, "@derivedFrom") => "derived_from",
        (_, "@derivedFrom") => "derivedFrom",
        (K::Register, "dataType") => "datatype",
        (K::EnumV, "isDefault") => "is_default",
        _ => t,
    }
}
fn datatype(s: &str) -> String {
    // uint8_t* -> u8_ptr
    let (b, p) = match s.strip_suffix('*') {
        Some(b) => (b.trim(), "_ptr"),
        None => (s, ""),
    };
    let b = b.trim_end_matches("_t");
    let b = match b.strip_prefix("uint") {
        Some(n) => format!("u{n}"),
        None => format!("i{}", b.trim_start_matches("int")),
    };
    format!("{b}{p}")
}
/// device -> the form which is written
pub fn reference(e: &El) -> J {
    let mut m = Map::new();
    let scalar = |v: &V| match v {
        V::S(s) => json!(s),
        V::N(n) => json!(n),
        V::B(b) => json!(b),
        V::L(l) => json!(l.join(",")),
        V::WAR(b) => json!({ "writeAsRead": b }),
        V::UEV(b) => json!({ "useEnumeratedValues": b }),
        V::Range(a, b) => json!({"range": {"minimum": a, "maximum": b}}),
        V::BR(..) => J::Null,
    };
    for (t, _, _) in fields(e.k) {
        let Some(v) = e.f.get(t) else { continue };
        if e.k == K::Device && t.starts_with('@') {
            continue;
        }
        match v {
            V::BR(o, w, 0) => {
                m.insert("bitRange".into(), json!(format!("[{}:{}]", *o as u64 + *w as u64 - 1, o)));
            }
            V::BR(o, w, 1) => {
                m.insert("bitOffset".into(), json!(o));
                m.insert("bitWidth".into(), json!(w));
            }
            V::BR(o, w, _) => {
                m.insert("lsb".into(), json!(o));
                m.insert("msb".into(), json!(*o as u64 + *w as u64 - 1));
            }
            V::S(s) if *t == "dataType" => {
                m.insert("datatype".into(), json!(datatype(s)));
            }
            v => {
                m.insert(key(e.k, t).into(), scalar(v));
            }
        }
    }
    for (g, _, _) in groups(e.k) {
        let Some(l) = e.c.get(g) else { continue };
        let one = |x: &El| match (*g, x.k) {
            ("registers" | "children", K::Register) => json!({ "register": reference(x) }),
            ("registers" | "children", _) => json!({ "cluster": reference(x) }),
            _ => reference(x),
        };
        if single_group(g) {
            if let Some(x) = l.first() {
                m.insert((*g).into(), one(x));
            }
        } else if !(l.is_empty() && matches!(*g, "interrupt" | "enumeratedValues") || l.is_empty() && *g == "values" && e.k == K::Enums) {
            m.insert((*g).into(), J::Array(l.iter().map(one).collect()));
        }
    }
    J::Object(m)
}
/// first difference, order of keys ignored
fn jdiff(a: &J, b: &J, at: &str) -> Option<String> {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{at}.{k} is missing")),
                    Some(w) => {
                        if let Some(d) = jdiff(v, w, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{at}.{k} should not be there"))
        }
        (J::Array(x), J::Array(y)) if x.len() == y.len() => x.iter().zip(y).find_map(|(v, w)| jdiff(v, w, &format!("{at}[]"))),
        _ if a == b => None,
        _ => Some(format!("{at}: expected {a}, got {b}")),
    }
}

// ------------------------------------------------------------------ round trip
/// the format defines what a list of indices can be: items without comma, dash or white space
fn outside(d: &El) -> bool {
    let mut b = false;
    d.walk(&mut vec![], &mut |e, _| {
        for v in e.f.values() {
            match v {
                V::L(l) => b |= l.iter().any(|s| s.contains([',', '-']) || s.trim() != s),
                V::BR(o, w, k) => b |= (*w == 0 && *k != 1) || *o as u64 + *w as u64 > 1 << 32,
                _ => {}
            }
        }
    });
    b
}
/// the root attributes of the XML form are not carried
fn loc(mut e: El) -> El {
    e.f.retain(|t, _| !t.starts_with('@') || e.k != K::Device);
    e
}
fn round(c: &mut Ctx, d: &El, f: Fmt, keys: bool) -> Res {
    if outside(d) || refm::arrays_ok(d).is_err() || !c.state(&(d, f as u8)) {
        return Res::Skip;
    }
    let n = norm(d);
    let device = match attempt(|| build(&n, LEVELS[0])) {
        Out::Ok(d) => d,
        o => return fail(format!("building: {}", o.kind()), o.why(), d.brief()),
    };
    let s = match write(f, &device) {
        Out::Ok(s) => s,
        o => return fail(format!("writing {f:?}: {}", o.kind()), o.why(), d.brief()),
    };
    c.sample = c.want_sample.then(|| s.clone());
    c.execs += 2;
    if keys {
        match value(f, &s) {
            Err(e) => return fail(format!("{f:?} is not well formed"), e, s),
            Ok(j) => {
                if let Some(m) = jdiff(&reference(&n), &j, "") {
                    let sig = m.split(": expected").next().unwrap().to_string();
                    return fail(format!("{f:?} form: {sig}"), m, s);
                }
            }
        }
    }
    let back = match read(f, &s) {
        Out::Ok(d) => d,
        o => return fail(format!("reading {f:?} back: {}", o.kind()), o.why(), s),
    };
    let (a, b) = (loc(view(&device)), loc(view(&back)));
    if let Some(m) = diff(&a, &b) {
        return fail(format!("{f:?} round trip changes {}", diff_sig(&m)), m, s);
    }
    // == as the user sees it, the root attributes set aside
    let mut w = device.clone();
    w.xmlns_xs = back.xmlns_xs.clone();
    w.no_namespace_schema_location = back.no_namespace_schema_location.clone();
    w.schema_version = back.schema_version.clone();
    if w != back {
        return fail(format!("{f:?} round trip: not equal"), "views agree, == does not", s);
    }
    match write(f, &back) {
        Out::Ok(x) if x == s => hres((s, f as u8)),
        _ => fail(format!("{f:?} written again differs"), "", s),
    }
}

// ------------------------------------------------------------------ faults
type At = Vec<Step>;
#[derive(Clone, Debug, PartialEq)]
enum Step {
    K(String),
    I(usize),
}
fn spots(j: &J, p: &mut At, out: &mut Vec<At>) {
    match j {
        J::Object(m) => {
            for (k, v) in m {
                p.push(Step::K(k.clone()));
                out.push(p.clone());
                spots(v, p, out);
                p.pop();
            }
        }
        J::Array(l) => {
            for (i, v) in l.iter().enumerate() {
                p.push(Step::I(i));
                out.push(p.clone());
                spots(v, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}
fn goto<'a>(j: &'a mut J, p: &[Step]) -> &'a mut J {
    let mut j = j;
    for s in p {
        j = match s {
            Step::K(k) => j.as_object_mut().unwrap().get_mut(k).unwrap(),
            Step::I(i) => j.as_array_mut().unwrap().get_mut(*i).unwrap(),
        };
    }
    j
}
/// what kind of element the object at this path is
fn kind_at(p: &[Step]) -> &'static str {
    let last = p.iter().rev().find_map(|s| match s {
        Step::K(k) => Some(k.as_str()),
        _ => None,
    });
    match last {
        None => "device",
        Some("cpu") => "cpu",
        Some("peripherals") => "peripheral",
        Some("addressBlock") => "addressBlock",
        Some("interrupt") => "interrupt",
        Some("registers" | "children") => "rc",
        Some("register") => "register",
        Some("cluster") => "cluster",
        Some("fields") => "field",
        Some("enumeratedValues") => "enums",
        Some("values") => "enumv",
        Some("dimArrayIndex") => "dimarr",
        Some("writeConstraint") => "wc",
        Some("range") => "range",
        Some(_) => "",
    }
}
/// Some(true): cannot do without, Some(false): can, None: not said (parts of a dimension)
fn mandatory(kind: &str, key: &str) -> Option<bool> {
    if matches!(key, "dim" | "dimIncrement") {
        return None;
    }
    Some(match kind {
        "device" => matches!(key, "name" | "version" | "description" | "addressUnitBits" | "width" | "peripherals"),
        "cpu" => matches!(key, "name" | "revision" | "endian" | "mpuPresent" | "fpuPresent" | "nvicPrioBits" | "vendorSystickConfig"),
        "peripheral" => matches!(key, "name" | "baseAddress"),
        "addressBlock" => matches!(key, "offset" | "size" | "usage"),
        "interrupt" => matches!(key, "name" | "value"),
        "rc" | "wc" | "range" => true,
        "register" => matches!(key, "name" | "addressOffset"),
        "cluster" => matches!(key, "name" | "addressOffset" | "children"),
        "field" => matches!(key, "name" | "bitRange" | "bitOffset" | "bitWidth" | "lsb" | "msb"),
        "enumv" => key == "name",
        "dimarr" => key == "values",
        _ => false,
    })
}
const OTHER: [&str; 14] = ["null", "true", "0", "-1", "1.5", "4294967296", "18446744073709551616", "\"\"", "\"zz zz\"", "\"5\"", "[]", "[0]", "{}", "{\"zz\":0}"];
/// can this value stand at this place?
fn fits(f: Fmt, p: &[Step], old: &J, v: &J) -> Option<bool> {
    // serde_yaml takes any plain scalar as a text
    if matches!(f, Fmt::Yaml) && old.is_string() && (v.is_number() || v.is_boolean() || v.is_null()) {
        return None;
    }
    let k = match p.last() {
        Some(Step::K(k)) => k.as_str(),
        _ => {
            // an item of a list: items are objects or index texts; derived from the list's name
            return match (kind_at(p), v) {
                (_, J::Object(m)) if m.is_empty() => Some(false).filter(|_| kind_at(p) != "enums"),
                ("enums", J::Object(_)) => None,
                // serde derives also read a sequence for a structure
                (_, J::Array(_)) => None,
                _ => Some(false),
            };
        }
    };
    // a structure may be written as a sequence
    if v.is_array() && old.is_object() {
        return None;
    }
    if v.is_null() {
        // absence
        return mandatory(kind_at(&p[..p.len() - 1]), k).and_then(|m| if m || old.is_array() { if m { Some(false) } else { None } } else { None });
    }
    if matches!(k, "dimIndex") {
        return match v {
            J::String(_) | J::Array(_) => None,
            _ => Some(false),
        };
    }
    Some(match (old, v) {
        (J::String(_), J::String(_)) => {
            // keywords and bit ranges take only their own texts
            let kw = matches!(k, "access" | "protection" | "usage" | "endian" | "datatype" | "modifiedWriteValues" | "readAction" | "bitRange");
            !kw
        }
        (J::String(_), _) => false,
        (J::Bool(_), J::Bool(_)) => true,
        (J::Bool(_), _) => false,
        (J::Number(_), J::Number(n)) => match n.as_u64() {
            None => false,
            // in relation to each other
            Some(n) if matches!(k, "lsb" | "msb" | "dim") && n <= u32::MAX as u64 => return None,
            Some(n) => n <= u32::MAX as u64 || matches!(k, "baseAddress" | "resetValue" | "resetMask" | "minimum" | "maximum") || (k == "value" && kind_at(&p[..p.len() - 1]) == "enumv"),
        },
        (J::Number(_), _) => false,
        (J::Array(_), J::Array(l)) => l.is_empty(),
        (J::Array(_), _) => false,
        (J::Object(_), J::Object(_)) => return None,
        (J::Object(_), _) => false,
        _ => return None,
    })
}
fn show(p: &[Step]) -> String {
    p.iter()
        .map(|s| match s {
            Step::K(k) => format!(".{k}"),
            Step::I(_) => "[]".into(),
        })
        .collect()
}
#[derive(Clone, Debug)]
enum Fault {
    Remove,
    Rename,
    Put(J),
    Extra,
}
fn inject(j: &mut J, p: &[Step], f: &Fault) {
    let up = goto(j, &p[..p.len() - 1]);
    match (f, p.last().unwrap()) {
        (Fault::Remove, Step::K(k)) => {
            up.as_object_mut().unwrap().remove(k);
        }
        (Fault::Remove, Step::I(i)) => {
            up.as_array_mut().unwrap().remove(*i);
        }
        (Fault::Rename, Step::K(k)) => {
            let m = up.as_object_mut().unwrap();
            if let Some(v) = m.remove(k) {
                m.insert(format!("{k}Zz"), v);
            }
        }
        (Fault::Rename, _) => {}
        (Fault::Put(v), _) => *goto(j, p) = v.clone(),
        (Fault::Extra, Step::K(_)) => {
            up.as_object_mut().unwrap().insert("zzUnknown".into(), json!(1));
        }
        (Fault::Extra, _) => {}
    }
}
fn faults(c: &mut Ctx, base: &J, p: &At, f: Fmt) -> Res {
    let n = OTHER.len() + 3;
    let k = c.choose(n);
    let fault = match k {
        0 => Fault::Remove,
        1 => Fault::Rename,
        2 => Fault::Extra,
        _ => Fault::Put(serde_json::from_str(OTHER[k - 3]).unwrap()),
    };
    // JSON numbers beyond 64 bits become floats, which YAML prints differently
    let mut j = base.clone();
    let old = goto(&mut j, p).clone();
    inject(&mut j, p, &fault);
    let s = text(f, &j);
    if !c.state(&(&s, f as u8)) {
        return Res::Skip;
    }
    c.sample = c.want_sample.then(|| format!("{fault:?} at {}", show(p)));
    c.execs += 1;
    let got = read(f, &s);
    let what = format!("{f:?}, {} at {}", match &fault { Fault::Put(v) => format!("{v} put"), o => format!("{o:?}") }, show(p));
    let up = &p[..p.len() - 1];
    let expect = match (&fault, p.last().unwrap()) {
        (Fault::Remove | Fault::Rename, Step::K(k)) => mandatory(kind_at(up), k).map(|m| !m),
        (Fault::Remove, Step::I(_)) => Some(true),
        (Fault::Rename | Fault::Extra, Step::I(_)) => Some(true),
        (Fault::Extra, Step::K(_)) => {
            if matches!(kind_at(up), "rc" | "wc") {
                Some(false)
            } else {
                Some(true)
            }
        }
        (Fault::Put(v), _) => fits(f, p, &old, v),
    };
    match (expect, got) {
        // serde_yaml itself panics at some mappings in place of a keyword
        (_, Out::Panic(m)) if m.contains("serde_yaml-") => hres(("outside", what)),
        (_, Out::Panic(m)) => fail(format!("panic: {what}"), m, s),
        (Some(false), Out::Ok(_)) => fail(format!("accepted: {what}"), "should be an error", s),
        (Some(true), Out::Err(e)) => fail(format!("rejected: {what}"), e, s),
        (Some(true), Out::Ok(d)) => {
            // only what was touched changed: writing gives the faulty text again (but unknown keys and empty lists)
            let w = match serde_json::to_value(&d) {
                Ok(w) => w,
                Err(e) => return fail(format!("not writable: {what}"), e.to_string(), s),
            };
            let mut want = j.clone();
            clean(&mut want);
            match jdiff(&want, &w, "") {
                None => hres((&s, f as u8)),
                Some(m) => fail(format!("read differently: {what}"), m, s),
            }
        }
        (_, o) => hres((o.kind(), what)),
    }
}
/// what is read and written again does not have
fn clean(j: &mut J) {
    match j {
        J::Object(m) => {
            m.retain(|k, v| !(k.ends_with("Zz") || k == "zzUnknown" || (v.as_array().is_some_and(|l| l.is_empty()) && matches!(k.as_str(), "interrupt" | "enumeratedValues"))));
            // values of a value set may be left out when empty, those of a dimArrayIndex not
            if m.get("values").and_then(|v| v.as_array()).is_some_and(|l| l.is_empty()) && !m.contains_key("headerEnumName") {
                m.remove("values");
            }
            m.values_mut().for_each(clean);
        }
        J::Array(l) => l.iter_mut().for_each(clean),
        _ => {}
    }
}
const TEXTS: [&str; 39] = [
    "~", "null", "Null", "true", "False", "yes", "no", "on", "off", "y", "0", "007", "0x10", "1e3", ".5", ".inf", ".nan", "1_000", "12:30", "-", "- a", "a: b", "a:", ": ", "#x", "a #b", "[a]", "{a}", "&a", "*a", "!t", "|", ">", "%s", "@a", "`a", "'a", "\"a", "2020-01-01",
];
const TOK: &[&str] = &["a", " ", "\n", "\t", ":", "#", "-", "'", "\"", "\\", "{", "[", ",", "%", "\u{85}", "\u{2028}", "\u{e9}", "\u{1f600}", "0", "~"];

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let rich = Arc::new(DocSpace::new(base_rich(), ANY));
    v.push(space("rich document, one edit, both formats", format!("{} edits", rich.n()), move |c| {
        let f = *c.pick(&FMTS);
        let Some(d) = rich.upto(c, 1) else { return Res::Skip };
        round(c, &d, f, true)
    }));
    for k in MED {
        let s = DocSpace::new(base_med(k), ANY);
        let depth = if q { 1 } else { 2 };
        v.push(space(format!("{} in full, {depth} edits, both formats", k.tag()), format!("up to {depth} of {} edits", s.n()), move |c| {
            let f = *c.pick(&FMTS);
            let Some(d) = s.upto(c, depth) else { return Res::Skip };
            round(c, &d, f, true)
        }));
    }
    let m = if q { 3 } else { 5 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants, both formats"), move |c| {
        let f = *c.pick(&FMTS);
        let e = subset(c, m);
        round(c, &host(e), f, true)
    }));
    let (n1, n2) = if q { (2, 3) } else { (3, 4) };
    v.push(space("texts", format!("description, name and derivedFrom with {} special texts and all strings of at most {n2} of {} tokens", TEXTS.len(), TOK.len()), move |c| {
        let f = *c.pick(&FMTS);
        let place = c.choose(3);
        let s = if c.flag() { c.pick(&TEXTS).to_string() } else { token_string(c, TOK, if place == 0 { n2 } else { n1 }) };
        let mut d = base_min();
        let p = &mut d.c.get_mut("peripherals").unwrap()[0];
        if place == 0 && s.is_empty() {
            return Res::Skip;
        }
        p.f.insert(["description", "name", "@derivedFrom"][place], V::S(s));
        round(c, &d, f, true)
    }));
    let toks = ["0", "1", "00", "A", "B", "x1", "_", "true", "~", "1e3", "0x1"];
    let n3 = if q { 3 } else { 4 };
    v.push(space("index lists", format!("all lists of 1..={n3} of {} index texts for each kind of array", toks.len()), move |c| {
        let f = *c.pick(&FMTS);
        let k = *c.pick(&[K::Periph, K::Cluster, K::Register, K::Field]);
        let n = 1 + c.choose(n3);
        let l: Vec<String> = (0..n).map(|_| c.pick(&toks).to_string()).collect();
        let mut e = element(k, &|t| t == "dim", 0);
        e.f.insert("dim", V::N(n as u64));
        e.f.insert("dimIndex", V::L(l));
        round(c, &host(e), f, true)
    }));
    let max = if q { 4 } else { 6 };
    v.push(space("nesting and order of registers and clusters", format!("all ordered forests of at most {max} nodes"), move |c| {
        let f = *c.pick(&FMTS);
        let l = forest(c, max, true);
        round(c, &dev(vec![per("P", 0, l)]), f, true)
    }));
    // faults
    let mut bases = vec![("rich document", reference(&norm(&base_rich())))];
    for k in MED {
        bases.push((k.tag(), reference(&norm(&base_med(k)))));
    }
    for (n, b) in bases {
        let mut sp = vec![];
        spots(&b, &mut vec![], &mut sp);
        let (b, sp) = (Arc::new(b), Arc::new(sp));
        v.push(space(format!("one fault in {n}"), format!("{} places x removed, renamed, unknown neighbour, {} other values, both formats", sp.len(), OTHER.len()), move |c| {
            let f = *c.pick(&FMTS);
            let p = c.pick(&sp).clone();
            faults(c, &b, &p, f)
        }));
    }
    v.push(space("other notations of one device", "index lists as sequence or as text in every notation of the XML form, bit positions in all notations, with missing, malformed or reversed parts", move |c| {
        let f = *c.pick(&FMTS);
        let mut d = reference(&norm(&base_min()));
        if c.flag() {
            let reg = &mut d["peripherals"][0]["registers"][0]["register"];
            let idx = [json!("0-1"), json!("A-B"), json!("3,4"), json!("a, b"), json!(["x", "y"]), json!("B-A"), json!("1-"), json!(""), json!([]), json!(["x", 1])];
            let want: [Option<&[&str]>; 10] = [Some(&["0", "1"]), Some(&["A", "B"]), Some(&["3", "4"]), Some(&["a", "b"]), Some(&["x", "y"]), None, None, None, None, None];
            let i = c.choose(idx.len());
            reg["name"] = json!("R%s");
            reg["dim"] = json!(2);
            reg["dimIncrement"] = json!(4);
            reg["dimIndex"] = idx[i].clone();
            let s = text(f, &d);
            if !c.state(&(&s, f as u8)) {
                return Res::Skip;
            }
            c.execs += 1;
            return match (want[i], read(f, &s)) {
                (Some(w), Out::Ok(d)) => match view(&d).list("peripherals")[0].list("registers")[0].f.get("dimIndex") {
                    Some(V::L(l)) if l == w => hres(s),
                    o => fail("dimIndex read differently", format!("{o:?}"), s),
                },
                (None, Out::Err(_)) => hres(s),
                (None, Out::Ok(d)) => fail(format!("dimIndex {} accepted", idx[i]), format!("{:?}", view(&d).list("peripherals")[0].list("registers")[0]), s),
                (_, o) => fail(format!("dimIndex {}: {}", idx[i], o.kind()), o.why(), s),
            };
        }
        let fld = d["peripherals"][0]["registers"][0]["register"]["fields"][0].as_object_mut().unwrap();
        fld.remove("bitRange");
        let forms: [(J, Option<(u32, u32)>); 20] = [
            (json!({"bitRange": "[7:4]"}), Some((4, 4))),
            (json!({"bitOffset": 4, "bitWidth": 4}), Some((4, 4))),
            (json!({"lsb": 4, "msb": 7}), Some((4, 4))),
            (json!({"bitRange": "[4:4]"}), Some((4, 1))),
            (json!({"lsb": 4, "msb": 4}), Some((4, 1))),
            (json!({"bitRange": "[4:7]"}), None),
            (json!({"lsb": 7, "msb": 4}), None),
            (json!({"lsb": 0, "msb": 4294967295u32}), None),
            (json!({"bitRange": "[4294967295:0]"}), None),
            (json!({"bitRange": "7:4"}), None),
            (json!({"bitRange": "[7:4"}), None),
            (json!({"bitRange": "7:4]"}), None),
            (json!({"bitRange": "[7]"}), None),
            (json!({"bitRange": "[7:4:1]"}), None),
            (json!({"bitRange": "[a:4]"}), None),
            (json!({"bitRange": "[-1:4]"}), None),
            (json!({"bitRange": "[]"}), None),
            (json!({"bitRange": ""}), None),
            (json!({"lsb": 4}), None),
            (json!({}), None),
        ];
        let (b, w) = c.pick(&forms).clone();
        for (k, v) in b.as_object().unwrap() {
            fld.insert(k.clone(), v.clone());
        }
        let s = text(f, &d);
        if !c.state(&(&s, f as u8)) {
            return Res::Skip;
        }
        c.execs += 1;
        match (w, read(f, &s)) {
            (Some((o, w)), Out::Ok(d)) => {
                let (a, b, _) = view(&d).list("peripherals")[0].list("registers")[0].list("fields")[0].br();
                if (a, b) == (o, w) {
                    hres(s)
                } else {
                    fail("bit position read differently", format!("{a} {b}"), s)
                }
            }
            (None, Out::Err(_)) => hres(s),
            (None, Out::Ok(_)) => fail(format!("bit position {b} accepted"), "", s),
            (_, o) => fail(format!("bit position {b}: {}", o.kind()), o.why(), s),
        }
    }));
    let sz = sizes(t == Tier::Thorough);
    v.push(space("many, deep and long", format!("13 kinds of list x {} sizes up to {}, both formats", sz.len(), sz[sz.len() - 1]), move |c| {
        let f = *c.pick(&FMTS);
        let (k, n, d) = any_crowd(c, &sz);
        if k == 3 && n > 30 {
            return Res::Skip; // the readers stop at 128 levels of nesting
        }
        round(c, &d, f, true)
    }));
    let m = if t == Tier::Quick { 1 } else { 2 };
    v.push(space("parts in other places", format!("registers, clusters, fields, value sets and values with at most {m} of their optional parts, or all but {m}, at 10 places"), move |c| {
        let f = *c.pick(&FMTS);
        let k = *c.pick(&[K::Register, K::Cluster, K::Field, K::Enums, K::EnumV, K::DimArr]);
        let e = subset_of(c, k, m);
        let d = placed(c, e);
        round(c, &d, f, true)
    }));
    let full = norm(&base_rich());
    v.push(space("elements stated twice", "the rich document with one element of any list two or three times, adjacent or at the end", move |c| {
        let f = *c.pick(&FMTS);
        let d = doubled(c, &full);
        round(c, &d, f, true)
    }));
    let m = if t == Tier::Quick { 1 } else { 1 };
    v.push(space("presence and one edit", format!("elements with at most {m} of their optional parts, or all but {m}, in two variants, under every edit"), move |c| {
        let f = *c.pick(&FMTS);
        let k = *c.pick(&ALL_KINDS);
        let Some(e) = subset_edited(c, k, m, &FULL) else { return Res::Skip };
        let d = host(e);
        if refm::arrays_ok(&d).is_err() {
            return Res::Skip;
        }
        round(c, &d, f, true)
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C20",
    spaces,
    rule: "each device in the space is written, the text read as plain JSON or YAML and compared key by key with the form computed from the reference tree, read back, compared field by field and by ==, and written again; then every key and item of the form is removed, renamed, given an unknown neighbour or each of 14 other values, and the outcome compared with what the form allows",
    assumptions: &[
        "serde_json and serde_yaml are trusted; they refuse nesting of more than 128 levels",
        "the three attributes of the XML root are not carried; they come back as their defaults",
        "index texts contain no comma, dash or surrounding white space",
        "null for an absent list, sequences in place of structures, and a dim or dimIncrement without the other are not specified",
    ],
};
