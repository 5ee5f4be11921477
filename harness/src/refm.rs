//! Reference semantics on the model tree: validation, arrays, derivation, expansion.
use crate::model::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ names
fn ident_start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}
fn ident_char(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}
pub fn plain_name_ok(s: &str) -> bool {
    s.chars().all(ident_char)
}
/// identifier | identifier[%s] | identifier with one %s after its first character | %s | %s followed by an identifier
pub fn dimable_ok(s: &str) -> bool {
    let ident = |s: &str| s.chars().next().is_some_and(ident_start) && s.chars().all(ident_char);
    if s == "%s" {
        return true;
    }
    if let Some(r) = s.strip_prefix("%s") {
        return ident(r);
    }
    if let Some(r) = s.strip_suffix("[%s]") {
        return ident(r);
    }
    match s.find("%s") {
        None => ident(s),
        Some(i) => ident(&s[..i]) && s[i + 2..].chars().all(ident_char),
    }
}
pub fn path_ok(s: &str) -> bool {
    s.split('.').all(dimable_ok)
}

// ------------------------------------------------------------------ validation
pub fn fits(v: u64, bits: u64) -> bool {
    bits >= 64 || v < (1u64 << bits)
}
fn props_ok(e: &El, strict: bool) -> Result<(), String> {
    let (s, v, m) = (e.n("size"), e.n("resetValue"), e.n("resetMask"));
    if let (Some(s), Some(v)) = (s, v) {
        if !fits(v, s) {
            return Err("resetValue does not fit".into());
        }
    }
    if strict {
        if let (Some(s), Some(m)) = (s, m) {
            if !fits(m, s) {
                return Err("resetMask does not fit".into());
            }
        }
        if let (Some(v), Some(m)) = (v, m) {
            if v & !m != 0 {
                return Err("resetValue outside resetMask".into());
            }
        }
    }
    Ok(())
}
/// Rules of one element on its own.
pub fn validate_el(e: &El, lvl: usize) -> Result<(), String> {
    if lvl == 0 {
        return Ok(());
    }
    let strict = lvl == 2;
    let derived = e.s("@derivedFrom");
    match e.k {
        K::Device => {
            if e.list("peripherals").is_empty() {
                return Err("no peripherals".into());
            }
            if strict {
                for t in ["version", "description", "addressUnitBits", "width"] {
                    if !e.f.contains_key(t) {
                        return Err(format!("{t} missing"));
                    }
                }
            }
            props_ok(e, strict)
        }
        K::Periph | K::Cluster => {
            props_ok(e, strict)?;
            if strict {
                if !dimable_ok(e.name()) {
                    return Err("name".into());
                }
                if let Some(d) = derived {
                    let ok = if e.k == K::Periph { dimable_ok(d) } else { path_ok(d) };
                    if !ok {
                        return Err("derivedFrom".into());
                    }
                } else if e.k == K::Periph && e.c.get("registers").is_some_and(|r| r.is_empty()) {
                    return Err("empty registers".into());
                } else if e.k == K::Cluster && e.list("children").is_empty() {
                    return Err("empty cluster".into());
                }
            }
            Ok(())
        }
        K::Register => {
            props_ok(e, strict)?;
            if strict {
                if !dimable_ok(e.name()) {
                    return Err("name".into());
                }
                if e.s("alternateGroup").is_some_and(|n| !plain_name_ok(n)) {
                    return Err("alternateGroup".into());
                }
                if e.s("alternateRegister").is_some_and(|n| !dimable_ok(n)) {
                    return Err("alternateRegister".into());
                }
                match derived {
                    Some(d) => {
                        if !path_ok(d) {
                            return Err("derivedFrom".into());
                        }
                    }
                    None => {
                        if e.c.get("fields").is_some_and(|r| r.is_empty()) {
                            return Err("empty fields".into());
                        }
                    }
                }
            }
            Ok(())
        }
        K::Field => {
            if strict {
                if !dimable_ok(e.name()) {
                    return Err("name".into());
                }
                if derived.is_some_and(|d| !path_ok(d)) {
                    return Err("derivedFrom".into());
                }
            }
            let (_, w, _) = e.br();
            if w == 0 {
                return Err("zero width".into());
            }
            for evs in e.list("enumeratedValues") {
                for v in evs.list("values") {
                    if v.n("value").is_some_and(|n| !fits(n, w as u64)) {
                        return Err("enumerated value outside the field".into());
                    }
                }
            }
            if strict {
                let l = e.list("enumeratedValues");
                // usage of a derived set is not known here, so it is compatible with everything
                let can = |x: &El, u: &str| x.s("@derivedFrom").is_some() || x.s("usage").unwrap_or("read-write") == u;
                let ok = match l {
                    [] | [_] => true,
                    [a, b] => (can(a, "read") && can(b, "write")) || (can(a, "write") && can(b, "read")),
                    _ => false,
                };
                if !ok {
                    return Err("incompatible enumeratedValues".into());
                }
            }
            if let Some(V::Range(a, b)) = e.f.get("writeConstraint") {
                if a > b {
                    return Err("reversed write constraint".into());
                }
                if !fits(*a, w as u64) || !fits(*b, w as u64) {
                    return Err("write constraint outside the field".into());
                }
            }
            Ok(())
        }
        K::Enums => {
            if strict {
                if e.s("name").is_some_and(|n| !plain_name_ok(n)) {
                    return Err("name".into());
                }
                if derived.is_some_and(|d| !path_ok(d)) {
                    return Err("derivedFrom".into());
                }
            }
            if derived.is_none() && e.list("values").is_empty() {
                return Err("no values".into());
            }
            Ok(())
        }
        K::EnumV => {
            if strict && !plain_name_ok(e.name()) {
                return Err("name".into());
            }
            let d = e.b("isDefault") == Some(true);
            match (e.n("value"), d) {
                (None, false) => Err("neither value nor default".into()),
                (Some(_), true) if strict => Err("value and default".into()),
                _ => Ok(()),
            }
        }
        _ => Ok(()),
    }
}
pub fn validate(d: &El, lvl: usize) -> Result<(), String> {
    let mut r = Ok(());
    d.walk(&mut vec![], &mut |e, _| {
        if r.is_ok() {
            r = validate_el(e, lvl).map_err(|m| format!("{} `{}`: {m}", e.k.tag(), e.name()));
        }
    });
    r
}
/// Rules on arrays which hold at every level.
pub fn arrays_ok(d: &El) -> Result<(), String> {
    let mut r = Ok(());
    d.walk(&mut vec![], &mut |e, _| {
        if r.is_ok() && dimmable(e.k) && e.is_array() {
            if !e.name().contains("%s") {
                r = Err(format!("{} `{}`: no placeholder", e.k.tag(), e.name()));
            } else if let Some(V::L(l)) = e.f.get("dimIndex") {
                if Some(l.len() as u64) != e.n("dim") {
                    r = Err(format!("{} `{}`: dimIndex count", e.k.tag(), e.name()));
                }
            }
        }
    });
    r
}
/// Defaults filled in when the document leaves a device-level element out (not in strict mode).
pub fn defaults(d: &mut El) {
    let s = |d: &mut El, t, v: &str| {
        d.f.entry(t).or_insert_with(|| V::s(v));
    };
    s(d, "version", "1.0");
    s(d, "description", "");
    d.f.entry("addressUnitBits").or_insert(V::N(8));
    d.f.entry("width").or_insert(V::N(32));
    s(d, "@schemaVersion", "1.1");
    s(d, "@xmlns:xs", DEF_XS);
    // the default location depends on the schema version of the crate: filled by the caller
}

// ------------------------------------------------------------------ arrays
pub fn subst(s: &str, idx: &str) -> String {
    s.replace("[%s]", idx).replace("%s", idx)
}
fn dai<'a>(e: &'a El, idx: &str) -> Option<&'a El> {
    e.list("dimArrayIndex").first()?.list("values").iter().find(|v| v.n("value").is_some_and(|n| n.to_string() == idx))
}
pub fn elem_names(e: &El) -> Vec<String> {
    e.indexes().iter().map(|i| dai(e, i).map(|v| v.name().to_string()).unwrap_or_else(|| subst(e.name(), i))).collect()
}
/// The individual elements an array stands for (a single element stands for itself).
pub fn elements(e: &El) -> Result<Vec<El>, String> {
    if !e.is_array() {
        return Ok(vec![e.clone()]);
    }
    let inc = e.n("dimIncrement").unwrap();
    let idxs = e.indexes();
    let names = elem_names(e);
    let mut out = vec![];
    for (n, idx) in idxs.iter().enumerate() {
        let mut x = e.clone();
        for t in DIM_TAGS {
            x.f.remove(t);
        }
        x.c.remove("dimArrayIndex");
        x.f.insert("name", V::S(names[n].clone()));
        let desc = dai(e, idx).and_then(|v| v.s("description").map(String::from)).or_else(|| e.s("description").map(|d| subst(d, idx)));
        match desc {
            Some(d) => x.f.insert("description", V::S(d)),
            None => x.f.remove("description"),
        };
        if matches!(e.k, K::Register | K::Periph) {
            if let Some(d) = e.s("displayName") {
                x.f.insert("displayName", V::S(subst(d, idx)));
            }
        }
        let step = inc.checked_mul(n as u64).ok_or("overflow")?;
        match e.k {
            K::Periph => {
                let b = e.n("baseAddress").unwrap().checked_add(step).ok_or("address overflow")?;
                x.f.insert("baseAddress", V::N(b));
            }
            K::Field => {
                let (o, w, _) = e.br();
                let o = (o as u64).checked_add(step).filter(|o| *o <= u32::MAX as u64).ok_or("bit offset overflow")?;
                x.f.insert("bits", V::BR(o as u32, w, FREE));
            }
            _ => {
                let o = e.n("addressOffset").unwrap().checked_add(step).filter(|o| *o <= u32::MAX as u64).ok_or("offset overflow")?;
                x.f.insert("addressOffset", V::N(o));
            }
        }
        out.push(x);
    }
    Ok(out)
}

// ------------------------------------------------------------------ derivation
/// notation of a position which may be any
pub const FREE: u8 = 9;
/// Fields a derived element inherits when it does not state them itself.
pub fn inherited(k: K) -> (&'static [&'static str], &'static [&'static str]) {
    match k {
        K::Periph => (
            &[
                "version", "description", "groupName", "prependToName", "appendToName", "headerStructName", "size", "access", "protection",
                "resetValue", "resetMask",
            ],
            &["registers", "addressBlock", "interrupt"],
        ),
        K::Cluster => (&["description", "headerStructName", "size", "access", "protection", "resetValue", "resetMask"], &["children"]),
        K::Register => (
            &[
                "description", "size", "access", "protection", "resetValue", "resetMask", "dataType", "modifiedWriteValues", "writeConstraint",
                "readAction",
            ],
            &["fields"],
        ),
        K::Field => (&["description", "access", "modifiedWriteValues", "writeConstraint", "readAction"], &["enumeratedValues"]),
        K::Enums => (&["usage"], &["values"]),
        _ => (&[], &[]),
    }
}
/// The group which holds the content of an element.
fn content(k: K) -> &'static str {
    match k {
        K::Periph => "registers",
        K::Cluster => "children",
        K::Register => "fields",
        K::Field => "enumeratedValues",
        _ => "values",
    }
}
fn has_content(e: &El) -> bool {
    match e.k {
        // an empty list still counts as stated
        K::Periph | K::Register => e.c.contains_key(content(e.k)),
        _ => !e.list(content(e.k)).is_empty(),
    }
}
pub fn merge(own: &El, base: &El) -> El {
    let mut r = own.clone();
    let (fs, gs) = inherited(own.k);
    for t in fs {
        if let (None, Some(v)) = (own.f.get(t), base.f.get(t)) {
            r.f.insert(t, v.clone());
        }
    }
    for g in gs {
        let own_has = if *g == content(own.k) { has_content(own) } else { own.c.contains_key(g) };
        if !own_has {
            if let Some(l) = base.c.get(g) {
                r.c.insert(g, l.clone());
            }
        }
    }
    if dimmable(own.k) && !own.is_array() && base.is_array() && own.name().contains("%s") {
        for t in ["dim", "dimIncrement", "dimIndex"] {
            if let Some(v) = base.f.get(t) {
                r.f.insert(t, v.clone());
            }
        }
        if let Some(d) = base.c.get("dimArrayIndex") {
            r.c.insert("dimArrayIndex", d.clone());
        }
    }
    r
}

type Loc = Vec<String>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum XErr {
    NotFound(String),
    Cycle(String),
    Overflow(String),
}
pub struct Expander<'a> {
    dev: &'a El,
}
fn answers(e: &El, name: &str) -> bool {
    e.name() == name || (e.is_array() && elem_names(e).iter().any(|n| n == name))
}
impl<'a> Expander<'a> {
    pub fn new(dev: &'a El) -> Self {
        Expander { dev }
    }
    fn child_named(&self, e: &'a El, name: &str, k: K) -> Option<&'a El> {
        // the last element with the exact name wins over nothing else: names are unique in the spaces
        let g = match e.k {
            K::Device => "peripherals",
            K::Periph => "registers",
            K::Cluster => "children",
            K::Register => "fields",
            _ => return None,
        };
        let l = e.list(g);
        l.iter().find(|x| x.k == k && x.name() == name).or_else(|| l.iter().find(|x| x.k == k && answers(x, name)))
    }
    /// element of kind k written at this absolute location
    pub fn at(&self, loc: &[String], k: K) -> Option<&'a El> {
        let mut e = self.child_named(self.dev, loc.first()?, K::Periph)?;
        let n = loc.len();
        for (i, c) in loc.iter().enumerate().skip(1) {
            let last = i + 1 == n;
            let kk = match k {
                K::Cluster => K::Cluster,
                K::Register => {
                    if last {
                        K::Register
                    } else {
                        K::Cluster
                    }
                }
                K::Field => {
                    if last {
                        K::Field
                    } else if i + 2 == n {
                        K::Register
                    } else {
                        K::Cluster
                    }
                }
                _ => return None,
            };
            e = self.child_named(e, c, kk)?;
        }
        (e.k == k).then_some(e)
    }
    fn resolve(&self, k: K, d: &str, parent: &[String]) -> Result<Loc, XErr> {
        let comps: Vec<String> = d.split('.').map(String::from).collect();
        let nf = || XErr::NotFound(d.to_string());
        let loc = if k == K::Periph {
            if comps.len() != 1 {
                return Err(nf());
            }
            comps
        } else if comps.len() == 1 {
            let mut l = parent.to_vec();
            l.extend(comps);
            l
        } else {
            comps
        };
        if self.at(&loc, k).is_some() {
            Ok(loc)
        } else {
            Err(nf())
        }
    }
    /// (element with everything it inherits, location its content was written at)
    fn effective(&self, e: &El, loc: &Loc, seen: &mut Vec<*const El>) -> Result<(El, Loc), XErr> {
        let Some(d) = e.s("@derivedFrom") else { return Ok((e.clone(), loc.clone())) };
        let tl = self.resolve(e.k, d, &loc[..loc.len() - 1])?;
        let t = self.at(&tl, e.k).unwrap();
        if seen.contains(&(t as *const El)) {
            return Err(XErr::Cycle(d.to_string()));
        }
        seen.push(t);
        let (te, tc) = self.effective(t, &tl, seen)?;
        seen.pop();
        let mut m = merge(e, &te);
        m.f.remove("@derivedFrom");
        Ok((m, if has_content(e) { loc.clone() } else { tc }))
    }
    pub fn eff(&self, e: &El, loc: &Loc) -> Result<(El, Loc), XErr> {
        let mut seen = vec![];
        if let Some(w) = self.at(loc, e.k) {
            seen.push(w as *const El);
        }
        self.effective(e, loc, &mut seen)
    }
    fn sub(loc: &Loc, n: &str) -> Loc {
        let mut l = loc.clone();
        l.push(n.to_string());
        l
    }
    pub fn expand(&self) -> Result<El, XErr> {
        let mut out = self.dev.clone();
        let mut ps = vec![];
        for p in self.dev.list("peripherals") {
            let (mut p, cl) = self.eff(p, &vec![p.name().to_string()])?;
            if let Some(rs) = p.c.remove("registers") {
                let mut flat = vec![];
                for r in &rs {
                    flat.extend(self.reg_or_cluster(r, &cl, &mut vec![])?);
                }
                p.c.insert("registers", flat);
            }
            ps.extend(elements(&p).map_err(XErr::Overflow)?);
        }
        out.c.insert("peripherals", ps);
        Ok(out)
    }
    fn reg_or_cluster(&self, e: &El, block: &Loc, stack: &mut Vec<*const El>) -> Result<Vec<El>, XErr> {
        if e.k == K::Register {
            return self.register(e, block);
        }
        let (mut c, cl) = self.eff(e, &Self::sub(block, e.name()))?;
        // content of a block cannot be needed while that same content is being laid out
        let src = self.at(&cl, K::Cluster).map(|x| x as *const El).unwrap_or(std::ptr::null());
        if stack.contains(&src) {
            return Err(XErr::Cycle(cl.join(".")));
        }
        stack.push(src);
        let mut inner = vec![];
        for x in c.c.remove("children").unwrap_or_default() {
            inner.extend(self.reg_or_cluster(&x, &cl, stack)?);
        }
        stack.pop();
        let mut out = vec![];
        for el in elements(&c).map_err(XErr::Overflow)? {
            for r in &inner {
                let mut r = r.clone();
                r.f.insert("name", V::S(format!("{}_{}", el.name(), r.name())));
                let o = r.n("addressOffset").unwrap() + el.n("addressOffset").unwrap();
                if o > u32::MAX as u64 {
                    return Err(XErr::Overflow("register offset".into()));
                }
                r.f.insert("addressOffset", V::N(o));
                out.push(r);
            }
        }
        Ok(out)
    }
    fn register(&self, e: &El, block: &Loc) -> Result<Vec<El>, XErr> {
        let (mut r, rl) = self.eff(e, &Self::sub(block, e.name()))?;
        if let Some(fs) = r.c.remove("fields") {
            let mut out = vec![];
            for f in &fs {
                let (mut f, fl) = self.eff(f, &Self::sub(&rl, f.name()))?;
                if let Some(evs) = f.c.remove("enumeratedValues") {
                    let mut l = vec![];
                    for ev in &evs {
                        l.push(self.enums(ev, &fl, &mut vec![])?);
                    }
                    f.c.insert("enumeratedValues", l);
                }
                out.extend(elements(&f).map_err(XErr::Overflow)?);
            }
            r.c.insert("fields", out);
        }
        elements(&r).map_err(XErr::Overflow)
    }
    pub fn enums(&self, e: &El, field: &Loc, seen: &mut Vec<*const El>) -> Result<El, XErr> {
        let Some(d) = e.s("@derivedFrom") else { return Ok(e.clone()) };
        if let Some(f) = self.at(field, K::Field) {
            if let Some(w) = f.list("enumeratedValues").iter().find(|x| x.s("name").is_some() && x.s("name") == e.s("name")) {
                if !seen.contains(&(w as *const El)) && seen.is_empty() {
                    seen.push(w);
                }
            }
        }
        let comps: Vec<&str> = d.split('.').collect();
        let name = *comps.last().unwrap();
        let reg = &field[..field.len() - 1];
        let block = &field[..field.len() - 2];
        let found: Option<(&'a El, Loc)> = match comps.len() {
            1 => self.at(reg, K::Register).and_then(|r| {
                r.list("fields").iter().find_map(|f| {
                    let fl: Loc = reg.iter().cloned().chain([f.name().to_string()]).collect();
                    f.list("enumeratedValues").iter().find(|x| x.s("name") == Some(name)).map(|x| (x, fl))
                })
            }),
            n => {
                let mut fl: Loc = match n {
                    2 => reg.to_vec(),
                    3 => block.to_vec(),
                    _ => vec![],
                };
                fl.extend(comps[..n - 1].iter().map(|s| s.to_string()));
                self.at(&fl, K::Field).and_then(|f| f.list("enumeratedValues").iter().find(|x| x.s("name") == Some(name)).map(|x| (x, fl)))
            }
        };
        let Some((t, tl)) = found else { return Err(XErr::NotFound(d.to_string())) };
        if seen.contains(&(t as *const El)) {
            return Err(XErr::Cycle(d.to_string()));
        }
        seen.push(t);
        let te = self.enums(t, &tl, seen)?;
        let mut m = merge(e, &te);
        m.f.remove("@derivedFrom");
        Ok(m)
    }
}
pub fn expand(d: &El) -> Result<El, XErr> {
    Expander::new(d).expand()
}

/// Registers which are not derived, and lie in no derived element, take the missing properties from the nearest
/// enclosing element which states them.
pub fn expand_properties(d: &El) -> El {
    fn rec(e: &mut El, up: &BTreeMap<&'static str, V>) {
        if e.s("@derivedFrom").is_some() {
            return;
        }
        let mut here = up.clone();
        for t in PROPS {
            if let Some(v) = e.f.get(t) {
                here.insert(t, v.clone());
            }
        }
        if e.k == K::Register {
            for (t, v) in here {
                e.f.insert(t, v);
            }
            return;
        }
        for g in ["peripherals", "registers", "children"] {
            if let Some(l) = e.c.get_mut(g) {
                for x in l {
                    rec(x, &here);
                }
            }
        }
    }
    let mut d = d.clone();
    rec(&mut d, &BTreeMap::new());
    d
}
