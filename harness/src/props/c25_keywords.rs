//! C25: keywords.
use super::util::*;
use svd::{Access, AddressBlockUsage, DataType, Endian, ModifiedWriteValues, Protection, ReadAction, Usage};

/// what one type must do; the tables are those of this harness
struct Ty {
    name: &'static str,
    words: &'static [&'static str],
    /// serialised spellings
    ser: Vec<String>,
    /// parse_str -> number in the table
    parse: Box<dyn Fn(&str) -> Option<usize> + Send + Sync>,
    print: Box<dyn Fn(usize) -> &'static str + Send + Sync>,
    json: Box<dyn Fn(usize) -> String + Send + Sync>,
    yaml: Box<dyn Fn(usize) -> String + Send + Sync>,
    from_json: Box<dyn Fn(&str) -> Option<usize> + Send + Sync>,
    from_yaml: Box<dyn Fn(&str) -> Option<usize> + Send + Sync>,
    default: Option<(usize, Box<dyn Fn() -> usize + Send + Sync>)>,
}
macro_rules! ty {
    ($t:ident, $words:expr, $val:expr, $num:expr, $ser:expr, $def:expr) => {{
        fn val(i: usize) -> $t {
            $val(i)
        }
        fn num(t: $t) -> usize {
            $num(t)
        }
        Ty {
            name: stringify!($t),
            words: $words,
            ser: $ser,
            parse: Box::new(|s| $t::parse_str(s).map(num)),
            print: Box::new(|i| val(i).as_str()),
            json: Box::new(|i| serde_json::to_string(&val(i)).unwrap_or_else(|e| format!("error {e}"))),
            yaml: Box::new(|i| serde_yaml::to_string(&val(i)).unwrap_or_else(|e| format!("error {e}"))),
            from_json: Box::new(|s| serde_json::from_value::<$t>(serde_json::Value::String(s.into())).ok().map(num)),
            from_yaml: Box::new(|s| serde_yaml::from_value::<$t>(serde_yaml::Value::String(s.into())).ok().map(num)),
            default: $def,
        }
    }};
}
fn at(l: &[&str], s: &str) -> usize {
    l.iter().position(|x| *x == s).unwrap()
}
fn same(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}
fn types() -> Vec<Ty> {
    let dser: Vec<String> = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u8_ptr", "u16_ptr", "u32_ptr", "u64_ptr", "i8_ptr", "i16_ptr", "i32_ptr", "i64_ptr"].iter().map(|s| s.to_string()).collect();
    macro_rules! def {
        ($t:ident, $l:expr, $s:expr, $f:ident) => {
            Some((at($l, $s), Box::new(|| at($l, $f($t::default()))) as Box<dyn Fn() -> usize + Send + Sync>))
        };
    }
    vec![
        ty!(Access, ACCESS, |i: usize| access_p(ACCESS[i]), |a| at(ACCESS, access_s(a)), same(ACCESS), def!(Access, ACCESS, "read-write", access_s)),
        ty!(Protection, PROT, |i: usize| prot_p(PROT[i]), |a| at(PROT, prot_s(a)), same(PROT), def!(Protection, PROT, "n", prot_s)),
        ty!(Endian, ENDIAN, |i: usize| endian_p(ENDIAN[i]), |a| at(ENDIAN, endian_s(a)), same(ENDIAN), def!(Endian, ENDIAN, "little", endian_s)),
        ty!(AddressBlockUsage, AB_USAGE, |i: usize| abu_p(AB_USAGE[i]), |a| at(AB_USAGE, abu_s(a)), same(AB_USAGE), def!(AddressBlockUsage, AB_USAGE, "registers", abu_s)),
        ty!(Usage, USAGE, |i: usize| usage_p(USAGE[i]), |a| at(USAGE, usage_s(a)), same(USAGE), def!(Usage, USAGE, "read-write", usage_s)),
        ty!(ReadAction, READACT, |i: usize| ra_p(READACT[i]), |a| at(READACT, ra_s(a)), same(READACT), def!(ReadAction, READACT, "modify", ra_s)),
        ty!(ModifiedWriteValues, MWV, |i: usize| mwv_p(MWV[i]), |a| at(MWV, mwv_s(a)), same(MWV), def!(ModifiedWriteValues, MWV, "modify", mwv_s)),
        ty!(DataType, DTYPE, |i: usize| dt_p(DTYPE[i]), |a| at(DTYPE, dt_s(a)), dser, None),
    ]
}
/// every text one edit away: a character removed, put in, replaced; neighbours swapped; letters of the other case; doubled
fn edits(s: &str, abc: &[char]) -> BTreeSet<String> {
    let v: Vec<char> = s.chars().collect();
    let mut o = BTreeSet::new();
    let mut put = |x: Vec<char>| drop(o.insert(x.into_iter().collect::<String>()));
    for i in 0..=v.len() {
        for a in abc {
            let mut x = v.clone();
            x.insert(i, *a);
            put(x);
        }
        if i < v.len() {
            let mut x = v.clone();
            x.remove(i);
            put(x);
            for a in abc {
                let mut x = v.clone();
                x[i] = *a;
                put(x);
            }
            let mut x = v.clone();
            x[i] = if x[i].is_uppercase() { x[i].to_ascii_lowercase() } else { x[i].to_ascii_uppercase() };
            put(x);
        }
        if i + 1 < v.len() {
            let mut x = v.clone();
            x.swap(i, i + 1);
            put(x);
        }
    }
    put(s.to_uppercase().chars().collect());
    put(s.to_lowercase().chars().collect());
    put(s.replace(['-', ' ', '_'], "").chars().collect());
    put(s.replace('-', "_").chars().collect());
    put(s.replace(' ', "").chars().collect());
    put(format!("{s}{s}").chars().collect());
    o
}
fn printable() -> Vec<char> {
    (0x20u8..0x7f).map(|b| b as char).chain(['é', '\u{a0}', '\t', '\n']).collect()
}
fn places() -> Vec<(K, &'static str, &'static [&'static str])> {
    let mut v = vec![];
    for k in ALL_KINDS {
        for (t, ty, _) in fields(k) {
            if let T::Kw(l) = ty {
                v.push((k, *t, *l));
            }
        }
    }
    v
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let tys = Arc::new(types());
    let all: BTreeSet<String> = tys.iter().flat_map(|t| t.words.iter().map(|s| s.to_string()).chain(t.ser.iter().cloned())).collect();
    let mut near: BTreeSet<String> = all.clone();
    let abc = printable();
    for s in &all {
        near.extend(edits(s, &abc));
    }
    if !q {
        let few: Vec<char> = "aenrst-_ *8O".chars().collect();
        let one: Vec<String> = all.iter().flat_map(|s| edits(s, &few)).collect();
        for s in one {
            near.extend(edits(&s, &few));
        }
    }
    let near: Arc<Vec<String>> = Arc::new(near.into_iter().collect());
    let mut v = vec![];
    {
        let (tys, near) = (tys.clone(), near.clone());
        v.push(space("texts of a type", format!("every keyword type x {} texts: all keywords of all types and their serialised spellings, and everything {} away, by parse_str and by deserialising JSON and YAML texts", near.len(), if q { "one edit" } else { "one edit over all printable characters or two edits over few" }), move |c| {
            let t = &tys[c.choose(tys.len())];
            let s = &near[c.choose(near.len())];
            if !c.state(&(t.name, s)) {
                return Res::Skip;
            }
            c.sample = c.want_sample.then(|| format!("{} {s:?}", t.name));
            c.execs += 2;
            let txt = || format!("{} {s:?}", t.name);
            let want = t.words.iter().position(|w| w == s);
            match sut(|| (t.parse)(s)) {
                Ok(g) if g == want => {}
                o => return fail(format!("{} by parse_str", t.name), format!("{o:?} instead of {want:?}"), txt()),
            }
            let want = t.ser.iter().position(|w| w == s);
            for (n, g) in [("JSON", sut(|| (t.from_json)(s))), ("YAML", sut(|| (t.from_yaml)(s)))] {
                match g {
                    Ok(g) if g == want => {}
                    o => return fail(format!("{} from {n}", t.name), format!("{o:?} instead of {want:?}"), txt()),
                }
            }
            hres((t.name, want))
        }));
    }
    {
        let tys = tys.clone();
        v.push(space("values of a type", "every value of every keyword type: printed, serialised, default, predicates", move |c| {
            let t = &tys[c.choose(tys.len())];
            let i = c.choose(t.words.len());
            if !c.state(&(t.name, i)) {
                return Res::Skip;
            }
            c.execs += 1;
            let txt = || format!("{} {}", t.name, t.words[i]);
            match sut(|| (t.print)(i)) {
                Ok(g) if g == t.words[i] => {}
                o => return fail(format!("{} printed", t.name), format!("{o:?} instead of {:?}", t.words[i]), txt()),
            }
            match sut(|| (t.json)(i)) {
                Ok(g) if g == format!("\"{}\"", t.ser[i]) => {}
                o => return fail(format!("{} in JSON", t.name), format!("{o:?} instead of {:?}", t.ser[i]), txt()),
            }
            match sut(|| (t.yaml)(i)) {
                Ok(g) if g.trim_start_matches("---").trim().trim_matches(['"', '\'']) == t.ser[i] => {}
                o => return fail(format!("{} in YAML", t.name), format!("{o:?} instead of {:?}", t.ser[i]), txt()),
            }
            if let Some((w, f)) = &t.default {
                match sut(|| f()) {
                    Ok(g) if g == *w => {}
                    o => return fail(format!("default {}", t.name), format!("{o:?} instead of {}", t.words[*w]), txt()),
                }
            }
            if t.name == "Access" {
                let a = access_p(ACCESS[i]);
                let (r, w) = match ACCESS[i] {
                    "read-only" => (true, false),
                    "read-write" | "read-writeOnce" => (true, true),
                    _ => (false, true),
                };
                match sut(|| (a.can_read(), a.can_write())) {
                    Ok(g) if g == (r, w) => {}
                    o => return fail("can_read and can_write", format!("{o:?} instead of {:?}", (r, w)), txt()),
                }
            }
            hres((t.name, i))
        }));
    }
    v.push(space("levels and names of processors", "the predicates of the three levels, the default level; all names of at most 3 of 8 tokens asked for being a Cortex-M", move |c| {
        let toks = ["C", "M", "c", "m", "A", "0", "CM", " "];
        let s = token_string(c, &toks, 3);
        if !c.state(&s) {
            return Res::Skip;
        }
        c.execs += 1;
        let got = sut(|| LEVELS.map(|l| (l.is_disabled(), l.is_weak(), l.is_strict())));
        if got != Ok([(true, false, false), (false, true, false), (false, true, true)]) || ValidateLevel::default() != ValidateLevel::Weak {
            return fail("predicates of a level", format!("{got:?}"), "");
        }
        let Ok(cpu) = b_cpu(&gen::cpu_min().st("name", &s)).build(LEVELS[0]) else { return Res::Skip };
        // the names of the format are CM0, CM0PLUS, CM3, CM4, CM7, … for these
        match sut(|| cpu.is_cortex_m()) {
            Ok(g) if g == s.starts_with("CM") => hres((&s, g)),
            o => fail("is_cortex_m", format!("{o:?}"), s),
        }
    }));
    let places = Arc::new(places());
    let few: Vec<char> = "aens-_ *O".chars().collect();
    let texts: Vec<Vec<String>> = places
        .iter()
        .map(|(_, _, l)| {
            let mut o: BTreeSet<String> = all.clone();
            for w in *l {
                let one = edits(w, &abc);
                if !q {
                    for x in edits(w, &few) {
                        o.extend(edits(&x, &few));
                    }
                }
                o.extend(one);
            }
            o.extend(["0", "1", "true", "read", "write", "none", "default", "READ-ONLY", "readWrite", "r", "rw", "void", "char", "uint8_t*", "uint8_t  *"].map(String::from));
            o.into_iter().collect()
        })
        .collect();
    let texts = Arc::new(texts);
    let n: usize = texts.iter().map(|t| t.len()).sum();
    v.push(space("keywords in documents", format!("{} elements taking a keyword, alone or in a full parent, {n} texts in all (keywords of all types, texts one edit{} from a keyword of the element), every validation level; what is accepted is encoded again", places.len(), if q { "" } else { " or, over few characters, two" }), move |c| {
        let pi = c.choose(places.len());
        let (k, tag, words) = places[pi];
        let s = &texts[pi][c.choose(texts[pi].len())];
        let full = c.flag();
        let lvl = c.choose(3);
        let e = gen::element(k, &|t| t == tag || (full && t != "@derivedFrom" && t != "dim"), 0).with(tag, V::s(s));
        let doc = gen::host(e.clone());
        // white space around a text is not part of it
        let word = s.trim();
        let want = words.iter().find(|w| **w == word);
        let mut clean = doc.clone();
        if let Some(w) = want {
            clean = gen::host(e.clone().with(tag, V::s(w)));
        }
        if !c.state(&(&doc, lvl)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| doc.brief());
        let valid = want.is_some() && refm::validate(&clean, lvl).is_ok();
        if want.is_some() && !valid {
            return Res::Skip;
        }
        c.execs += 1;
        let xml = xmlw::xml(&doc, &Style::default());
        let place = format!("{} of {}", tag, k.tag());
        match parse(&xml, &pcfg(lvl, false, false, false)) {
            Out::Panic(p) => fail(format!("{place}: panic"), p, xml),
            Out::Ok(_) if want.is_none() => fail(format!("{place}: accepted"), format!("{s:?}"), xml),
            Out::Err(_) if want.is_none() => hres((k, tag, "error")),
            Out::Err(x) => fail(format!("{place}: rejected"), format!("{s:?}: {x}"), xml),
            Out::Ok(d) => {
                if let Some(m) = diff(&norm(&clean), &view(&d)) {
                    return fail(format!("{place}: other value"), m, xml);
                }
                let out = match encode(&d, &svd_encoder::Config::default()) {
                    Out::Ok(o) => o,
                    o => return fail(format!("{place}: not encoded"), o.why(), xml),
                };
                let mut w = vec![];
                clean.walk(&mut vec![], &mut |e, _| {
                    if let Some(V::S(x)) = e.f.get(tag) {
                        w.push(x.clone());
                    }
                });
                let mut g: Vec<String> = match roxmltree::Document::parse(&out) {
                    Ok(x) => x.descendants().filter(|n| n.has_tag_name(tag)).map(|n| n.text().unwrap_or("").to_string()).collect(),
                    Err(e) => return fail(format!("{place}: not well formed"), e.to_string(), out),
                };
                g.sort();
                w.sort();
                if g != w {
                    return fail(format!("{place}: written otherwise"), format!("{g:?} instead of {w:?}"), out);
                }
                hres((k, tag, want))
            }
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C25",
    spaces,
    rule: "every text is given to the real type and to the parser in every element taking a keyword; accepted exactly when it is in the independent table of that element, with the value of the table, printed, serialised and encoded again as that keyword",
    assumptions: &["white space around the text of an element is not part of it"],
};
