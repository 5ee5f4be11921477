//! Document spaces: base documents and the edit transitions between documents.
use crate::engine::Ctx;
use crate::model::*;

#[derive(Clone, Debug)]
pub enum Edit {
    Set(Vec<(&'static str, usize)>, &'static str, V),
    Del(Vec<(&'static str, usize)>, &'static str),
    /// remove a whole child group
    DropGroup(Vec<(&'static str, usize)>, &'static str),
    /// make an (optional) group present but empty
    EmptyGroup(Vec<(&'static str, usize)>, &'static str),
    AddKid(Vec<(&'static str, usize)>, &'static str, Box<El>),
    DelKid(Vec<(&'static str, usize)>, &'static str, usize),
    Swap(Vec<(&'static str, usize)>, &'static str, usize),
    MakeArray(Vec<(&'static str, usize)>, &'static str),
    MakeSingle(Vec<(&'static str, usize)>),
}
impl Edit {
    pub fn apply(&self, d: &mut El) {
        match self {
            Edit::Set(p, t, v) => {
                d.at_mut(p).unwrap().f.insert(t, v.clone());
            }
            Edit::Del(p, t) => {
                d.at_mut(p).unwrap().f.remove(t);
            }
            Edit::DropGroup(p, g) => {
                d.at_mut(p).unwrap().c.remove(g);
            }
            Edit::EmptyGroup(p, g) => {
                d.at_mut(p).unwrap().c.insert(g, vec![]);
            }
            Edit::AddKid(p, g, e) => d.at_mut(p).unwrap().c.entry(g).or_default().push((**e).clone()),
            Edit::DelKid(p, g, i) => {
                d.at_mut(p).unwrap().c.get_mut(g).unwrap().remove(*i);
            }
            Edit::Swap(p, g, i) => d.at_mut(p).unwrap().c.get_mut(g).unwrap().swap(*i, *i + 1),
            Edit::MakeArray(p, pat) => {
                let e = d.at_mut(p).unwrap();
                let n = format!("{}{}", e.name(), pat);
                e.f.insert("name", V::S(n));
                e.f.insert("dim", V::N(2));
                e.f.insert("dimIncrement", V::N(4));
            }
            Edit::MakeSingle(p) => {
                let e = d.at_mut(p).unwrap();
                for t in DIM_TAGS {
                    e.f.remove(t);
                }
                e.c.remove("dimArrayIndex");
                let n = e.name().replace("[%s]", "").replace("%s", "");
                e.f.insert("name", V::S(if n.is_empty() { "X".into() } else { n }));
            }
        }
    }
}

/// What values a field may take in a space.
pub type Alts = fn(&El, &'static str, T) -> Vec<V>;

#[derive(Clone, Copy)]
pub struct EditCfg {
    pub alts: Alts,
    pub structural: bool,
    pub arrays: bool,
    /// delete optional fields
    pub del: bool,
    /// delete mandatory fields as well
    pub del_mand: bool,
    pub fields: bool,
    /// the last value of an enumeration or the last child of a cluster may go, too
    pub empty: bool,
}

pub fn edits(d: &El, c: &EditCfg) -> Vec<Edit> {
    let mut out = vec![];
    let mut path = vec![];
    d.walk(&mut path, &mut |e, p| {
        if c.fields {
            for (t, ty, mand) in fields(e.k) {
                if dimmable(e.k) && DIM_TAGS.contains(t) {
                    // dim fields are only meaningful together
                    if !e.is_array() || !c.arrays {
                        continue;
                    }
                    if matches!(*t, "dim" | "dimIncrement") && !c.del_mand {
                        // fallthrough to Set, never deleted
                    } else if e.f.contains_key(t) && c.del {
                        out.push(Edit::Del(p.to_vec(), t));
                    }
                } else if e.f.contains_key(t) && ((!mand && c.del) || (*mand && c.del_mand)) {
                    out.push(Edit::Del(p.to_vec(), t));
                }
                for v in (c.alts)(e, t, *ty) {
                    if e.f.get(t) != Some(&v) {
                        out.push(Edit::Set(p.to_vec(), t, v));
                    }
                }
            }
        }
        if c.arrays && dimmable(e.k) {
            if e.is_array() {
                out.push(Edit::MakeSingle(p.to_vec()));
            } else if !e.name().contains("%s") {
                out.push(Edit::MakeArray(p.to_vec(), "%s"));
                if e.k != K::Field {
                    out.push(Edit::MakeArray(p.to_vec(), "[%s]"));
                }
            }
        }
        if c.structural {
            for (g, wrap, kinds) in groups(e.k) {
                if *g == "dimArrayIndex" && !(e.is_array() && c.arrays) {
                    continue;
                }
                let l = e.c.get(g);
                let n = l.map_or(0, |l| l.len());
                if l.is_some() && *g != "peripherals" && !wrap.is_empty() {
                    out.push(Edit::DropGroup(p.to_vec(), g));
                }
                if n > 0 && !wrap.is_empty() && *g != "peripherals" {
                    out.push(Edit::EmptyGroup(p.to_vec(), g));
                }
                for i in 0..n {
                    if *g == "peripherals" && n == 1 && !c.empty {
                        break;
                    }
                    if c.empty || !(wrap.is_empty() && n == 1 && matches!(*g, "values" | "children")) {
                        out.push(Edit::DelKid(p.to_vec(), g, i));
                    }
                    if i + 1 < n {
                        out.push(Edit::Swap(p.to_vec(), g, i));
                    }
                }
                if !(single_group(g) && n > 0) && n < 4 {
                    for k in *kinds {
                        out.push(Edit::AddKid(p.to_vec(), g, Box::new(template(*k, n))));
                    }
                }
            }
        }
    });
    out
}
/// groups that are "at least one or absent" in the normal form
pub fn tidy(d: &mut El) {
    d.walk_mut(&mut |e| {
        for g in ["addressBlock", "interrupt", "enumeratedValues", "dimArrayIndex", "cpu"] {
            if e.c.get(g).is_some_and(|l| l.is_empty()) {
                e.c.remove(g);
            }
        }
        if matches!(e.k, K::Enums | K::DimArr) {
            e.c.entry("values").or_default();
        }
        if e.k == K::Cluster {
            e.c.entry("children").or_default();
        }
        if e.k == K::Device {
            e.c.entry("peripherals").or_default();
        }
    });
}

pub fn template(k: K, n: usize) -> El {
    let nm = |b: &str| format!("{b}{n}");
    match k {
        K::Device => panic!(),
        K::Cpu => cpu_min(),
        K::Periph => El::new(k).st("name", &nm("NP")).nu("baseAddress", 0x5000_0000 + n as u64 * 0x400),
        K::AddrBlock => El::new(k).nu("offset", 0).nu("size", 0x400).st("usage", "registers"),
        K::Interrupt => El::new(k).st("name", &nm("NI")).nu("value", 5 + n as u64),
        K::Cluster => El::new(k).st("name", &nm("NC")).nu("addressOffset", 0x100).kid("children", template(K::Register, 7)),
        K::Register => El::new(k).st("name", &nm("NR")).nu("addressOffset", 0x40 + 4 * n as u64),
        K::Field => El::new(k).st("name", &nm("NF")).with("bits", V::BR(n as u32, 1, 0)),
        K::Enums => El::new(k).kid("values", template(K::EnumV, 0)),
        K::EnumV => El::new(k).st("name", &nm("NV")).nu("value", 0),
        K::DimArr => El::new(k).st("headerEnumName", "HE").kid("values", template(K::EnumV, 0)),
    }
}
pub fn cpu_min() -> El {
    El::new(K::Cpu)
        .st("name", "CM4")
        .st("revision", "r0p1")
        .st("endian", "little")
        .bo("mpuPresent", true)
        .bo("fpuPresent", false)
        .nu("nvicPrioBits", 4)
        .bo("vendorSystickConfig", false)
}
pub fn reg(n: &str, off: u64) -> El {
    El::new(K::Register).st("name", n).nu("addressOffset", off)
}
pub fn fld(n: &str, off: u32, w: u32) -> El {
    El::new(K::Field).st("name", n).with("bits", V::BR(off, w, 0))
}
pub fn ev(n: &str, v: u64) -> El {
    El::new(K::EnumV).st("name", n).nu("value", v)
}
pub fn clu(n: &str, off: u64, kids: Vec<El>) -> El {
    El::new(K::Cluster).st("name", n).nu("addressOffset", off).kids("children", kids)
}
pub fn per(n: &str, base: u64, regs: Vec<El>) -> El {
    El::new(K::Periph).st("name", n).nu("baseAddress", base).kids("registers", regs)
}
pub fn dev(ps: Vec<El>) -> El {
    El::new(K::Device)
        .st("@schemaVersion", "1.3")
        .st("@xmlns:xs", DEF_XS)
        .st("@xs:noNamespaceSchemaLocation", "CMSIS-SVD.xsd")
        .st("name", "DEV")
        .st("version", "1.2")
        .st("description", "A device")
        .nu("addressUnitBits", 8)
        .nu("width", 32)
        .kids("peripherals", ps)
}

/// A small strict-valid device.
pub fn base_min() -> El {
    dev(vec![per("PA", 0x4000_0000, vec![reg("RA", 0).kids("fields", vec![fld("FA", 0, 1)])])])
}
/// A strict-valid device which uses every element and attribute of the format at least once.
pub fn base_rich() -> El {
    let evs = El::new(K::Enums)
        .st("name", "EN")
        .st("usage", "read")
        .kid("values", ev("OFF", 0).st("description", "off state"))
        .kid("values", ev("ON", 1))
        .kid("values", El::new(K::EnumV).st("name", "OTHER").bo("isDefault", true));
    let evs2 = El::new(K::Enums).st("usage", "write").kid("values", ev("CLR", 1).bo("isDefault", false));
    let evs3 = El::new(K::Enums).st("@derivedFrom", "EN");
    let f1 = fld("F1", 0, 2)
        .st("description", "first field")
        .st("access", "read-write")
        .st("modifiedWriteValues", "oneToClear")
        .with("writeConstraint", V::Range(0, 3))
        .st("readAction", "clear")
        .kids("enumeratedValues", vec![evs, evs2]);
    let f2 = El::new(K::Field)
        .st("name", "F2_%s")
        .with("bits", V::BR(8, 4, 1))
        .arr(2, 4)
        .with("dimIndex", V::L(vec!["X".into(), "Y".into()]))
        .st("dimName", "FDIM")
        .with("writeConstraint", V::UEV(true))
        .kids("enumeratedValues", vec![evs3]);
    let f3 = El::new(K::Field).st("name", "F3").with("bits", V::BR(31, 1, 2)).st("@derivedFrom", "F1").with("writeConstraint", V::WAR(true));
    let r1 = reg("R1", 0x10)
        .st("displayName", "R1 shown")
        .st("description", "first register")
        .st("alternateGroup", "GRP")
        .nu("size", 32)
        .st("access", "read-write")
        .st("protection", "s")
        .nu("resetValue", 0x8000_0001)
        .nu("resetMask", 0xffff_ffff)
        .st("dataType", "uint32_t")
        .st("modifiedWriteValues", "zeroToSet")
        .with("writeConstraint", V::WAR(true))
        .st("readAction", "modify")
        .kids("fields", vec![f1, f2, f3]);
    let r2 = reg("R2[%s]", 0x20)
        .st("displayName", "R2[%s]")
        .st("description", "array %s")
        .arr(3, 4)
        .with("dimIndex", V::L(vec!["0".into(), "1".into(), "2".into()]))
        .st("dimName", "R2Name")
        .kid(
            "dimArrayIndex",
            El::new(K::DimArr)
                .st("headerEnumName", "HEN")
                .kid("values", ev("zero", 0).st("description", "dz"))
                .kid("values", ev("one", 1)),
        )
        .kids("fields", vec![fld("G", 4, 3)]);
    let r3 = reg("R3", 0x30).st("@derivedFrom", "R1").st("alternateRegister", "R1");
    let inner = clu("CI", 0x8, vec![reg("IR", 4)]).nu("size", 16).st("access", "read-only");
    let c1 = clu("C1[%s]", 0x100, vec![reg("CR", 0).kids("fields", vec![fld("CF", 0, 8)]), inner, reg("CR2_%s", 0x20).arr(2, 4)])
        .arr(2, 0x40)
        .st("description", "clu %s")
        .st("headerStructName", "HSC")
        .nu("size", 32)
        .st("access", "write-only")
        .st("protection", "n")
        .nu("resetValue", 1)
        .nu("resetMask", 3);
    let c2 = clu("C2", 0x200, vec![reg("DR", 0)]).st("@derivedFrom", "C1[%s]").st("alternateCluster", "C1[%s]");
    let mut p1 = per("P1", 0x4000_0000, vec![r1, r2, c1, r3, c2])
        .st("version", "1.0")
        .st("description", "first peripheral")
        .st("displayName", "P1 disp")
        .st("groupName", "PG")
        .st("prependToName", "PRE_")
        .st("appendToName", "_APP")
        .st("headerStructName", "P1_Type")
        .nu("size", 32)
        .st("access", "read-write")
        .st("protection", "p")
        .nu("resetValue", 0)
        .nu("resetMask", 0xff);
    p1 = p1
        .kid("addressBlock", El::new(K::AddrBlock).nu("offset", 0).nu("size", 0x400).st("usage", "registers").st("protection", "s"))
        .kid("addressBlock", El::new(K::AddrBlock).nu("offset", 0x400).nu("size", 0x10).st("usage", "reserved"))
        .kid("interrupt", El::new(K::Interrupt).st("name", "INT1").st("description", "irq one").nu("value", 7))
        .kid("interrupt", El::new(K::Interrupt).st("name", "INT0").nu("value", 2));
    let p2 = El::new(K::Periph).st("name", "P2").st("@derivedFrom", "P1").nu("baseAddress", 0x1_4000_4000).st("alternatePeripheral", "P1");
    let p3 = per("P3_%s", 0x5000_0000, vec![reg("X", 0)]).arr(2, 0x1000).with("dimIndex", V::L(vec!["A".into(), "B".into()]));
    dev(vec![p1, p2, p3])
        .st("vendor", "Vendor Ltd.")
        .st("vendorID", "VND")
        .st("series", "S1")
        .st("licenseText", "License & <terms>")
        .st("headerSystemFilename", "system_dev")
        .st("headerDefinitionsPrefix", "HDP_")
        .nu("size", 32)
        .st("access", "read-write")
        .st("protection", "n")
        .nu("resetValue", 0)
        .nu("resetMask", 0xffff_ffff)
        .kid(
            "cpu",
            cpu_min()
                .bo("fpuDP", false)
                .bo("dspPresent", true)
                .bo("icachePresent", false)
                .bo("dcachePresent", true)
                .bo("itcmPresent", false)
                .bo("dtcmPresent", true)
                .bo("vtorPresent", false)
                .nu("deviceNumInterrupts", 90)
                .nu("sauNumRegions", 8),
        )
}

/// A base document with its edits, precomputed.
pub struct DocSpace {
    pub base: El,
    pub cfg: EditCfg,
    first: Vec<Edit>,
}
impl DocSpace {
    pub fn new(mut base: El, cfg: EditCfg) -> DocSpace {
        tidy(&mut base);
        let first = edits(&base, &cfg);
        DocSpace { base, cfg, first }
    }
    pub fn n(&self) -> usize {
        self.first.len()
    }
    /// up to `depth` edits: 0, 1, … edits are all produced (the choice 0 stops)
    pub fn upto(&self, c: &mut Ctx, depth: usize) -> Option<El> {
        let k = c.choose(depth + 1);
        self.pick(c, k)
    }
    /// exactly `depth` edits (indices never go down)
    pub fn pick(&self, c: &mut Ctx, depth: usize) -> Option<El> {
        let mut d = self.base.clone();
        let mut from = 0;
        for k in 0..depth {
            let later;
            let es = if k == 0 {
                &self.first
            } else {
                later = edits(&d, &self.cfg);
                &later
            };
            if from >= es.len() {
                return None;
            }
            let i = from + c.choose(es.len() - from);
            es[i].apply(&mut d);
            tidy(&mut d);
            from = i;
        }
        Some(d)
    }
}
/// Walk `depth` edits from the base (edit indices never go down, so each set of independent edits
/// is produced once).
pub fn edited(c: &mut Ctx, base: &El, cfg: &EditCfg, depth: usize) -> Option<El> {
    let mut d = base.clone();
    let mut from = 0;
    for _ in 0..depth {
        let es = edits(&d, cfg);
        if from >= es.len() {
            return None;
        }
        let i = from + c.choose(es.len() - from);
        es[i].apply(&mut d);
        tidy(&mut d);
        from = i;
    }
    Some(d)
}

// ------------------------------------------------------------------ alternatives

/// Values inside the documented domain of each field (names stay valid identifiers).
pub fn alts_valid(e: &El, t: &'static str, ty: T) -> Vec<V> {
    match ty {
        T::Attr => match t {
            "@derivedFrom" => vec![],
            "@schemaVersion" => vec![V::s("1.1"), V::s("1.3.9")],
            "@xs:noNamespaceSchemaLocation" => vec![V::s("CMSIS-SVD_Schema_1_1.xsd")],
            _ => vec![],
        },
        T::Text => match t {
            "name" | "alternateRegister" => {
                if e.is_array() {
                    vec![V::s("Q%s"), V::s("Q[%s]"), V::s("q_%s_Z")]
                } else {
                    vec![V::s("Q"), V::s("_x9Y")]
                }
            }
            "alternateGroup" | "headerEnumName" | "dimName" => vec![V::s("Q")],
            "description" | "licenseText" | "displayName" => {
                vec![V::s("a <b> & \"c\" 'd' é \u{4e2d}"), V::s("x  y\n z")]
            }
            _ => vec![V::s("Val-1 é"), V::s("v")],
        },
        T::U32 => match t {
            "size" if e.k == K::AddrBlock => vec![V::N(1), V::N(u32::MAX as u64)],
            "size" => vec![V::N(64), V::N(128)],
            "dim" => vec![V::N(1), V::N(12)],
            "dimIncrement" => vec![V::N(0), V::N(1), V::N(0xffff)],
            _ => vec![V::N(0), V::N(9), V::N(0x8000_0000), V::N(u32::MAX as u64)],
        },
        T::U64 => match t {
            "resetValue" => vec![V::N(0), V::N(1)],
            "resetMask" => vec![V::N(u64::MAX), V::N(0x8000_0001)],
            "value" => vec![V::N(2), V::N(1)],
            _ => vec![V::N(0), V::N(10), V::N(0xffff_fffc), V::N(1 << 32), V::N(u64::MAX)],
        },
        T::Bool => vec![V::B(false), V::B(true)],
        T::Kw(k) => k.iter().map(|s| V::s(s)).collect(),
        T::Idx => idx_alts(e.n("dim").unwrap_or(0)),
        T::Bits => {
            let (o, w, _) = e.br();
            let mut v: Vec<V> = (0..3).map(|t| V::BR(o, w, t)).collect();
            for t in 0..3 {
                v.push(V::BR(63, 64, t));
                v.push(V::BR(0, 32, t));
            }
            v
        }
        T::Wc => vec![V::WAR(false), V::WAR(true), V::UEV(false), V::UEV(true), V::Range(0, 0), V::Range(1, 3)],
    }
}
pub fn idx_alts(dim: u64) -> Vec<V> {
    let n = dim as usize;
    if n == 0 || n > 20 {
        return vec![];
    }
    let l = |f: &dyn Fn(usize) -> String| V::L((0..n).map(f).collect());
    vec![
        l(&|i| i.to_string()),
        l(&|i| (i + 9).to_string()),
        l(&|i| format!("{i:02}")),
        l(&|i| ((b'A' + i as u8) as char).to_string()),
        l(&|i| ((b'w' - n as u8 + i as u8) as char).to_string()),
        l(&|i| format!("n{}", n - i)),
        l(&|i| (2 * i).to_string()),
        l(&|i| (n - i).to_string()),
    ]
}

pub const FULL: EditCfg = EditCfg { alts: alts_valid, structural: true, arrays: true, del: true, del_mand: false, fields: true, empty: false };

/// Documents in which one kind of element is fully populated and everything around it is minimal.
pub fn base_med(k: K) -> El {
    let r = base_rich();
    let p1 = &r.list("peripherals")[0];
    let regs = p1.list("registers");
    let mut d = match k {
        K::Device => {
            let mut d = r.clone();
            d.c.insert("peripherals", vec![per("PA", 0x4000_0000, vec![reg("RA", 0)])]);
            d
        }
        K::Periph => {
            let mut p = p1.clone().arr(2, 0x1000).with("dimIndex", V::L(vec!["A".into(), "B".into()])).st("dimName", "PDim");
            p.f.insert("name", V::s("P%s"));
            p.f.insert("alternatePeripheral", V::s("PZ"));
            p.c.insert("registers", vec![reg("RA", 0)]);
            dev(vec![p, El::new(K::Periph).st("name", "PD").st("@derivedFrom", "P%s").nu("baseAddress", 0x6000_0000)])
        }
        K::Register => {
            let mut a = regs[0].clone();
            a.f.insert("alternateRegister", V::s("R9"));
            a.c.insert("fields", vec![fld("FA", 0, 1)]);
            dev(vec![per("PA", 0x4000_0000, vec![a, regs[1].clone(), reg("R3", 0x30).st("@derivedFrom", "R1")])])
        }
        K::Field => dev(vec![per("PA", 0x4000_0000, vec![reg("R1", 0).kids("fields", regs[0].list("fields").to_vec())])]),
        K::Cluster => {
            let mut a = regs[2].clone();
            a.f.insert("alternateCluster", V::s("C9"));
            dev(vec![per("PA", 0x4000_0000, vec![a, clu("C2", 0x200, vec![reg("DR", 0)]).st("@derivedFrom", "C1[%s]")])])
        }
        _ => base_min(),
    };
    tidy(&mut d);
    d
}
pub const MED: [K; 5] = [K::Device, K::Periph, K::Register, K::Field, K::Cluster];

/// Ordered forests of registers and clusters with at most `max` nodes (cluster children may be empty
/// only when `empty_ok`). Names are numbered in document order; offsets are distinct.
pub fn forest(c: &mut Ctx, max: usize, empty_ok: bool) -> Vec<El> {
    fn go(c: &mut Ctx, left: &mut usize, id: &mut usize, empty_ok: bool, need: bool) -> Vec<El> {
        let mut out = vec![];
        while *left > 0 {
            // 0 stop, 1 register, 2 cluster
            let must = need && out.is_empty() && !empty_ok;
            let k = if must { 1 + c.choose(if *left > 1 || empty_ok { 2 } else { 1 }) } else { c.choose(if *left > 1 || empty_ok { 3 } else { 2 }) };
            if k == 0 {
                break;
            }
            *left -= 1;
            let n = *id;
            *id += 1;
            if k == 1 {
                out.push(reg(&format!("R{n}"), 4 * n as u64));
            } else {
                let kids = go(c, left, id, empty_ok, true);
                out.push(clu(&format!("C{n}"), 0x100 * n as u64, kids));
            }
        }
        out
    }
    let (mut left, mut id) = (max, 0);
    go(c, &mut left, &mut id, empty_ok, false)
}

/// Values inside and outside of what validation accepts.
pub fn alts_any(e: &El, t: &'static str, ty: T) -> Vec<V> {
    let mut v = alts_valid(e, t, ty);
    let strs = |l: &[&str]| l.iter().map(|s| V::s(s)).collect::<Vec<_>>();
    match ty {
        T::Attr if t == "@derivedFrom" && e.k != K::Device => v.extend(strs(&["Q", "a.b", "a..b", "1x", "a b", "P.C[%s].x"])),
        T::Text => match t {
            "name" | "alternateRegister" | "alternateGroup" => v.extend(strs(&["a b", "a.b", "1a", "a-b", "\u{e9}", "A%s%sB", "A[%s", "A[%s]B", "%sB", "9"])),
            _ => {}
        },
        T::U32 => match t {
            "size" if e.k != K::AddrBlock => v.extend([0, 1, 8, 31, 33, 63, 65].map(V::N)),
            "dim" => v.extend([0, 3].map(V::N)),
            _ => {}
        },
        T::U64 => match t {
            "resetValue" | "resetMask" => v.extend([0, 2, 0x80, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX].map(V::N)),
            "value" => v.extend([3, 4, 16, 1 << 31, 1 << 32, u64::MAX].map(V::N)),
            _ => {}
        },
        T::Bits => v.extend([V::BR(3, 0, 1), V::BR(0, 1, 0), V::BR(0, 2, 2), V::BR(7, 65, 1)]),
        T::Wc => v.extend([V::Range(3, 0), V::Range(0, 4), V::Range(4, 4), V::Range(0, 15), V::Range(0, u64::MAX), V::Range(2, 1)]),
        _ => {}
    }
    v.dedup();
    v
}
pub const ANY: EditCfg = EditCfg { alts: alts_any, structural: true, arrays: true, del: true, del_mand: false, fields: true, empty: true };
pub const ANY_DEL: EditCfg = EditCfg { del_mand: true, ..ANY };

// ------------------------------------------------------------------ presence of optional parts
/// everything an element of the kind can do without; the four dimension parts count when "array" is on
pub fn features(k: K) -> Vec<&'static str> {
    let mut v = vec![];
    for (t, _, mand) in fields(k) {
        if !mand && !matches!(*t, "dimIncrement" | "@xmlns:xs") {
            v.push(*t);
        }
    }
    for (g, _, _) in groups(k) {
        if *g != "peripherals" {
            v.push(*g);
        }
    }
    v
}
/// An element with exactly these optional parts. `var` selects between values, and one or two children.
pub fn element(k: K, has: &dyn Fn(&str) -> bool, var: usize) -> El {
    let mut e = match k {
        K::Device => dev(vec![per("PA", 0x4000_0000, vec![reg("RA", 0)])]),
        K::Cpu => cpu_min(),
        K::Periph => El::new(k).st("name", "OWN").nu("baseAddress", 0x1000),
        K::AddrBlock => El::new(k).nu("offset", 0).nu("size", 0x400).st("usage", "registers"),
        K::Interrupt => El::new(k).st("name", "OWN").nu("value", 3),
        K::Cluster | K::Register => El::new(k).st("name", "OWN").nu("addressOffset", 0x40),
        K::Field => fld("OWN", 8, 4),
        K::EnumV => El::new(k).st("name", "OWN"),
        K::Enums | K::DimArr => El::new(k),
    };
    if k == K::Device {
        for t in features(k) {
            e.f.remove(t);
        }
    }
    let arr = dimmable(k) && has("dim");
    for (t, ty, mand) in fields(k) {
        if *mand || *t == "@xmlns:xs" || !has(if *t == "dimIncrement" { "dim" } else { t }) || (t.starts_with("dim") && !arr) {
            continue;
        }
        let txt = || V::S(format!("{}{}", t.trim_start_matches('@'), var));
        let v = match (*t, ty) {
            ("@derivedFrom", _) => V::s("BASE"),
            ("@schemaVersion", _) => V::s(["1.3", "1.1"][var]),
            ("@xs:noNamespaceSchemaLocation", _) => V::s("loc.xsd"),
            ("dim", _) => V::N([2, 3][var]),
            ("dimIncrement", _) => V::N(4),
            ("resetValue", _) => V::N([1, 2][var]),
            ("resetMask", _) => V::N([0xff, 7][var]),
            ("value", _) => V::N([0, 1][var]),
            (_, T::U32) => V::N([32, 16][var]),
            (_, T::U64) => V::N([0x20, 0x1_0000_0000][var]),
            (_, T::Kw(l)) => V::s(l[var % l.len()]),
            (_, T::Bool) => V::B(var == 0),
            (_, T::Idx) => V::L(if var == 0 { vec!["A".into(), "B".into()] } else { vec!["4".into(), "5".into(), "6".into()] }),
            (_, T::Wc) => [V::Range(1, 3), V::UEV(true)][var].clone(),
            _ => txt(),
        };
        e.f.insert(t, v);
    }
    if arr {
        e.f.insert("name", V::s(["OWN%s", "OWN[%s]"][var]));
    }
    for (g, _, _) in groups(k) {
        if *g == "peripherals" || !has(g) || (*g == "dimArrayIndex" && !arr) {
            continue;
        }
        let n = if single_group(g) { 1 } else { 1 + var };
        let l = (0..n)
            .map(|i| match *g {
                "cpu" => cpu_min(),
                "registers" | "children" if i == 1 => clu("KC", 0x80, vec![reg("KCR", 4)]),
                "registers" | "children" => reg("KR", 8),
                "fields" => fld(&format!("KF{i}"), 4 * i as u32, 2),
                "enumeratedValues" => El::new(K::Enums).st("usage", ["read", "write"][i]).kid("values", ev("KV", 1)),
                "values" => ev(&format!("KV{i}"), i as u64),
                "dimArrayIndex" => El::new(K::DimArr).kid("values", ev("KD", 4)),
                "interrupt" => El::new(K::Interrupt).st("name", &format!("KI{i}")).nu("value", i as u64),
                "addressBlock" => El::new(K::AddrBlock).nu("offset", 0x400 * i as u64).nu("size", 0x400).st("usage", "registers"),
                _ => unreachable!(),
            })
            .collect();
        e.c.insert(g, l);
    }
    e
}
/// A device around the element, with a sibling named BASE to derive from.
pub fn host(e: El) -> El {
    let mut d = match e.k {
        K::Device => e,
        K::Cpu => dev(vec![per("PA", 0x4000_0000, vec![reg("RA", 0)])]).kid("cpu", e),
        K::Periph => dev(vec![e, per("BASE", 0x8000, vec![reg("BR", 0)]).st("description", "base")]),
        K::AddrBlock => dev(vec![per("PA", 0, vec![]).kid("addressBlock", e)]),
        K::Interrupt => dev(vec![per("PA", 0, vec![]).kid("interrupt", e)]),
        K::Cluster => dev(vec![per("PA", 0, vec![e, clu("BASE", 0x400, vec![reg("BR", 0)]).st("description", "base")])]),
        K::Register => dev(vec![per("PA", 0, vec![e, reg("BASE", 0x400).kids("fields", vec![fld("BF", 0, 1)]).st("description", "base")])]),
        K::Field => dev(vec![per("PA", 0, vec![reg("RA", 0).kids("fields", vec![e, fld("BASE", 0, 4).kids("enumeratedValues", vec![El::new(K::Enums).kid("values", ev("BV", 2))])])])]),
        K::Enums => dev(vec![per("PA", 0, vec![reg("RA", 0).kids("fields", vec![fld("FA", 0, 4).kids("enumeratedValues", vec![e]), fld("FB", 4, 4).kids("enumeratedValues", vec![El::new(K::Enums).st("name", "BASE").kid("values", ev("BV", 2))])])])]),
        K::EnumV => return host(El::new(K::Enums).kid("values", e)),
        K::DimArr => return host(El::new(K::Register).st("name", "OWN%s").nu("addressOffset", 0).arr(2, 4).kid("dimArrayIndex", e)),
    };
    tidy(&mut d);
    d
}
/// A kind, and an element with at most `m` optional parts or all but at most `m` of them.
pub fn subset(c: &mut Ctx, m: usize) -> El {
    let k = *c.pick(&ALL_KINDS);
    subset_of(c, k, m)
}
pub fn subset_of(c: &mut Ctx, k: K, m: usize) -> El {
    let fs = features(k);
    let full = c.flag();
    let var = c.choose(2);
    let mut flip = vec![];
    let mut from = 0;
    for _ in 0..m {
        let i = c.choose(fs.len() - from + 1);
        if i == 0 {
            break;
        }
        flip.push(fs[from + i - 1]);
        from += i;
        if from == fs.len() {
            break;
        }
    }
    element(k, &|t| full != flip.contains(&t), var)
}

// ------------------------------------------------------------------ size as a dimension
// Small shapes, but many of them, deep or long: counters, recursion and orderings which only small
// numbers of elements get right.
pub const CROWDS: [&str; 13] = [
    "peripherals", "registers", "clusters", "nested clusters", "fields", "enumerated values", "interrupts", "address blocks", "array enumeration values",
    "elements of a numbered array", "elements of a listed array", "elements of a field array", "characters of texts",
];
/// small, around powers of two, and (thorough) large
pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=34).collect();
    v.extend([63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 254, 255, 256, 257, 258]);
    if thorough {
        v = (0..=140).collect();
        v.extend([254, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097]);
    }
    v
}
/// a device with `n` of them
pub fn crowd(k: usize, n: usize) -> El {
    let txt = |e: El, i: usize| e.st("description", &format!("d{i}"));
    let one = |r: Vec<El>| dev(vec![per("P", 0x1000, r), per("Q", 0x8000_0000, vec![reg("R", 0)])]);
    match k {
        0 => dev((0..n).map(|i| txt(per(&format!("P{i}"), 0x1000 + 0x100 * i as u64, vec![reg("R", 0)]), i)).collect()),
        1 => one((0..n).map(|i| txt(reg(&format!("R{i}"), 4 * i as u64), i)).collect()),
        2 => one((0..n).map(|i| txt(clu(&format!("C{i}"), 8 * i as u64, vec![reg("R", 0), reg("S", 4)]), i)).collect()),
        3 => {
            let mut l = vec![reg("R", 0)];
            for i in (0..n).rev() {
                l = vec![reg("A", 0), txt(clu(&format!("C{i}"), 4, l), i), reg("Z", 4)];
            }
            one(l)
        }
        4 => one(vec![reg("R", 0).kids("fields", (0..n).map(|i| txt(fld(&format!("F{i}"), i as u32, 1), i)).collect())]),
        5 => one(vec![reg("R", 0).kids("fields", vec![fld("F", 0, 32).kids("enumeratedValues", vec![El::new(K::Enums).st("name", "E").kids("values", (0..n).map(|i| txt(ev(&format!("V{i}"), i as u64), i)).collect())])])]),
        6 => dev(vec![per("P", 0, vec![reg("R", 0)]).kids("interrupt", (0..n).map(|i| txt(El::new(K::Interrupt).st("name", &format!("I{i}")).nu("value", i as u64), i)).collect())]),
        7 => dev(vec![per("P", 0, vec![reg("R", 0)]).kids("addressBlock", (0..n).map(|i| El::new(K::AddrBlock).nu("offset", 0x100 * i as u64).nu("size", 0x100).st("usage", "registers")).collect())]),
        8 => one(vec![txt(reg("R%s", 0).arr(n as u64, 4), 0).kid("dimArrayIndex", El::new(K::DimArr).kids("values", (0..n).map(|i| txt(ev(&format!("V{i}"), i as u64), i)).collect()))]),
        9 => one(vec![reg("R%s", 0).arr(n as u64, 4).st("description", "number %s"), reg("S", 0x8000)]),
        10 => {
            let mut r = reg("R%s", 0).arr(n as u64, 4).st("description", "number %s");
            if n > 0 {
                r.f.insert("dimIndex", V::L((0..n).map(|i| format!("x{i}")).collect()));
            }
            one(vec![r, reg("S", 0x8000)])
        }
        11 => one(vec![reg("R", 0).kids("fields", vec![fld("F[%s]", 1, 1).arr(n as u64, 2), fld("G", 0, 1)])]),
        _ => {
            let s: String = (0..n).map(|i| if i % 64 == 37 { 'é' } else { (b'a' + (i % 26) as u8) as char }).collect();
            let nm: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let nm = if nm.is_empty() { "N".to_string() } else { nm };
            one(vec![reg(&nm, 0).st("description", &s).kids("fields", vec![fld(&nm, 0, 3).st("description", &s).kids("enumeratedValues", vec![El::new(K::Enums).st("name", &nm).kid("values", ev(&nm, 0).st("description", &s))])])])
        }
    }
}
/// (kind, size) of a crowd: the choice, and the device
pub fn any_crowd(c: &mut Ctx, sz: &[usize]) -> (usize, usize, El) {
    let k = c.choose(CROWDS.len());
    let sz = if k == CROWDS.len() - 1 && sz[0] == 0 { &sz[1..] } else { sz };
    let n = if k == 3 { (*c.pick(sz)).min(512) } else { *c.pick(sz) };
    (k, n, crowd(k, n))
}
/// Breaks a rule in one element of a crowd, or in none.
pub fn spoil(c: &mut Ctx, k: usize, n: usize, d: &mut El) {
    let strict = c.flag();
    let at = match c.choose(5) {
        0 => return,
        1 => 0,
        2 => 1,
        3 => n / 2,
        _ => n.wrapping_sub(1),
    };
    let p = vec![("peripherals", 0)];
    let join = |mut p: Vec<(&'static str, usize)>, q: &[(&'static str, usize)]| {
        p.extend_from_slice(q);
        p
    };
    let path = match k {
        0 => vec![("peripherals", at)],
        1 | 2 => join(p, &[("registers", at)]),
        4 => join(p, &[("registers", 0), ("fields", at)]),
        5 => join(p, &[("registers", 0), ("fields", 0), ("enumeratedValues", 0), ("values", at)]),
        6 => join(p, &[("interrupt", at)]),
        _ => return,
    };
    let Some(e) = d.at_mut(&path) else { return };
    if strict {
        e.f.insert("name", V::s("9 !"));
        return;
    }
    let bad = || vec![El::new(K::Field).st("name", "FB").with("bits", V::BR(0, 0, 1))];
    match e.k {
        K::Periph => e.c.get_mut("registers").unwrap()[0].c.insert("fields", bad()).map(drop).unwrap_or(()),
        K::Cluster => e.c.get_mut("children").unwrap()[1].c.insert("fields", bad()).map(drop).unwrap_or(()),
        K::Register => e.c.insert("fields", bad()).map(drop).unwrap_or(()),
        K::Field => e.f.insert("bits", V::BR(0, 0, 1)).map(drop).unwrap_or(()),
        K::EnumV => e.f.remove("value").map(drop).unwrap_or(()),
        _ => drop(e.f.insert("name", V::s("9 !"))),
    }
}

// ------------------------------------------------------------------ the same element in other places
pub const PLACES: usize = 10;
/// A device with the element `e` (a register, cluster, field or enumeration) at one of 10 places, next to
/// a sibling named BASE: in a peripheral, a peripheral array, a cluster, a cluster array, two nested
/// clusters, two nested cluster arrays, after a block of the same kind in another peripheral, between siblings, in an array of the innermost
/// containing element, in arrays of all containing elements.
pub fn placed(c: &mut Ctx, e: El) -> El {
    let place = c.choose(PLACES);
    let first = c.flag();
    let mut d = placed_at(place, resized(c, e));
    if !first {
        // behind its sibling
        d.walk_mut(&mut |e| {
            for l in e.c.values_mut() {
                for (a, b) in [("OWN", "BASE"), ("FA", "FB")] {
                    let at = |n: &str| l.iter().position(|x| x.s("name").is_some_and(|s| s.starts_with(n)));
                    if let (Some(i), Some(j)) = (at(a), at(b)) {
                        l.swap(i, j);
                    }
                }
            }
        });
    }
    d
}
/// an array as it is, of one element, or of none
pub fn resized(c: &mut Ctx, mut e: El) -> El {
    if e.is_array() {
        let n = c.choose(3);
        if n > 0 {
            let dim = 2 - n;
            e = e.nu("dim", dim as u64);
            match e.f.get_mut("dimIndex") {
                Some(V::L(l)) if dim == 1 => l.truncate(1),
                _ => drop(e.f.remove("dimIndex")),
            }
        }
    }
    e
}
/// an element of the kind with some optional parts, then one edit of it or of what is in it
pub fn subset_edited(c: &mut Ctx, k: K, m: usize, cfg: &EditCfg) -> Option<El> {
    let e = subset_of(c, k, m);
    edited(c, &e, cfg, 1)
}
pub fn placed_at(place: usize, e: El) -> El {
    let mut d = match e.k {
        K::Field | K::Enums | K::EnumV | K::DimArr | K::Register | K::Cluster => host(e),
        _ => return host(e),
    };
    let ps = d.c.get_mut("peripherals").unwrap();
    let regs = ps[0].c.remove("registers").unwrap();
    match place {
        0 => drop(ps[0].c.insert("registers", regs)),
        1 => ps[0] = per("PA%s", 0x4000_0000, regs).arr(2, 0x1000),
        2 => ps[0] = per("PA", 0x4000_0000, vec![clu("CA", 0x10, regs)]),
        3 => ps[0] = per("PA", 0x4000_0000, vec![clu("CA[%s]", 0x10, regs).arr(2, 0x800), reg("Z", 0x2000)]),
        4 => ps[0] = per("PA", 0x4000_0000, vec![reg("A", 0), clu("CA", 0x10, vec![clu("CB", 0x20, regs), reg("Y", 4)])]),
        5 => ps[0] = per("PA", 0x4000_0000, vec![clu("CA%s", 0x10, vec![reg("Y", 4), clu("C%sB", 0x20, regs).arr(2, 0x800)]).arr(3, 0x1000)]),
        6 => {
            ps[0] = per("PA", 0x4000_0000, vec![clu("CA", 0x10, regs)]);
            ps.insert(0, per("PZ", 0x5000_0000, vec![clu("CA", 0x10, vec![reg("OWN", 0).st("description", "other"), reg("BASE", 8).st("description", "other base")])]));
        }
        8 | 9 => {
            // the innermost container is an array, or all of them are
            let mut regs = regs;
            for r in &mut regs {
                let wide = place == 9 || r.c.get("fields").is_some_and(|l| l.iter().any(|f| f.s("name") == Some("OWN")));
                if r.s("name") == Some("RA") && wide {
                    *r = r.clone().st("name", "RA%s").arr(2, 0x10);
                }
                for f in r.c.get_mut("fields").into_iter().flatten() {
                    if f.s("name") == Some("FA") {
                        *f = f.clone().st("name", "FA[%s]").arr(2, 8);
                    }
                }
            }
            ps[0] = if place == 8 {
                per("PA", 0x4000_0000, regs)
            } else {
                per("PA%s", 0x4000_0000, vec![clu("CA[%s]", 0x10, regs).arr(2, 0x800)]).arr(2, 0x4000)
            };
        }
        _ => {
            let mut l = vec![reg("A", 0).kids("fields", vec![fld("OWN", 0, 1), fld("BASE", 1, 1)])];
            l.extend(regs);
            l.push(clu("Z", 0x900, vec![reg("OWN", 0)]));
            ps[0] = per("PA", 0x4000_0000, l).st("groupName", "G");
        }
    }
    tidy(&mut d);
    d
}
/// `base` with one element of any list twice: right behind it, or at the end of the list.
pub fn doubled(c: &mut Ctx, base: &El) -> El {
    let mut at = vec![];
    base.walk(&mut vec![], &mut |e, p| {
        for (g, l) in &e.c {
            if !single_group(g) {
                for i in 0..l.len() {
                    at.push((p.to_vec(), *g, i));
                }
            }
        }
    });
    let (p, g, i) = c.pick(&at).clone();
    let end = c.flag();
    let times = 1 + c.choose(2);
    let mut d = base.clone();
    let l = d.at_mut(&p).unwrap().c.get_mut(g).unwrap();
    for _ in 0..times {
        let e = l[i].clone();
        let to = if end { l.len() } else { i + 1 };
        l.insert(to, e);
    }
    d
}
