//! Reference document model: a generic tree, independent of the types of svd-rs.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Device,
    Cpu,
    Periph,
    AddrBlock,
    Interrupt,
    Cluster,
    Register,
    Field,
    Enums,
    EnumV,
    DimArr,
}
impl K {
    pub fn tag(self) -> &'static str {
        match self {
            K::Device => "device",
            K::Cpu => "cpu",
            K::Periph => "peripheral",
            K::AddrBlock => "addressBlock",
            K::Interrupt => "interrupt",
            K::Cluster => "cluster",
            K::Register => "register",
            K::Field => "field",
            K::Enums => "enumeratedValues",
            K::EnumV => "enumeratedValue",
            K::DimArr => "dimArrayIndex",
        }
    }
}
pub const ALL_KINDS: [K; 11] =
    [K::Device, K::Cpu, K::Periph, K::AddrBlock, K::Interrupt, K::Cluster, K::Register, K::Field, K::Enums, K::EnumV, K::DimArr];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    S(String),
    N(u64),
    B(bool),
    L(Vec<String>),
    /// offset, width, notation (0 = bitRange, 1 = bitOffset/bitWidth, 2 = lsb/msb)
    BR(u32, u32, u8),
    WAR(bool),
    UEV(bool),
    Range(u64, u64),
}
impl V {
    pub fn s(x: &str) -> V {
        V::S(x.to_string())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct El {
    pub k: K,
    pub f: BTreeMap<&'static str, V>,
    pub c: BTreeMap<&'static str, Vec<El>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    /// attribute
    Attr,
    Text,
    U32,
    U64,
    Bool,
    Kw(&'static [&'static str]),
    Idx,
    Bits,
    Wc,
}

pub const ACCESS: &[&str] = &["read-only", "read-write", "read-writeOnce", "writeOnce", "write-only"];
pub const PROT: &[&str] = &["s", "n", "p"];
pub const ENDIAN: &[&str] = &["little", "big", "selectable", "other"];
pub const AB_USAGE: &[&str] = &["registers", "buffer", "reserved"];
pub const USAGE: &[&str] = &["read", "write", "read-write"];
pub const READACT: &[&str] = &["clear", "set", "modify", "modifyExternal"];
pub const MWV: &[&str] = &[
    "oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify",
];
pub const DTYPE: &[&str] = &[
    "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *", "uint16_t *",
    "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *",
];

/// (tag, type, mandatory in the document)
pub type Fd = (&'static str, T, bool);
/// children groups: (group, wrapper element or "" if the children sit directly in the parent, child kinds)
pub type Gd = (&'static str, &'static str, &'static [K]);

pub fn fields(k: K) -> &'static [Fd] {
    use T::*;
    match k {
        K::Device => &[
            ("@schemaVersion", Attr, false),
            ("@xmlns:xs", Attr, false),
            ("@xs:noNamespaceSchemaLocation", Attr, false),
            ("vendor", Text, false),
            ("vendorID", Text, false),
            ("name", Text, true),
            ("series", Text, false),
            ("version", Text, false),
            ("description", Text, false),
            ("licenseText", Text, false),
            ("headerSystemFilename", Text, false),
            ("headerDefinitionsPrefix", Text, false),
            ("addressUnitBits", U32, false),
            ("width", U32, false),
            ("size", U32, false),
            ("access", Kw(ACCESS), false),
            ("protection", Kw(PROT), false),
            ("resetValue", U64, false),
            ("resetMask", U64, false),
        ],
        K::Cpu => &[
            ("name", Text, true),
            ("revision", Text, true),
            ("endian", Kw(ENDIAN), true),
            ("mpuPresent", Bool, true),
            ("fpuPresent", Bool, true),
            ("fpuDP", Bool, false),
            ("dspPresent", Bool, false),
            ("icachePresent", Bool, false),
            ("dcachePresent", Bool, false),
            ("itcmPresent", Bool, false),
            ("dtcmPresent", Bool, false),
            ("vtorPresent", Bool, false),
            ("nvicPrioBits", U32, true),
            ("vendorSystickConfig", Bool, true),
            ("deviceNumInterrupts", U32, false),
            ("sauNumRegions", U32, false),
        ],
        K::Periph => &[
            ("@derivedFrom", Attr, false),
            ("dim", U32, false),
            ("dimIncrement", U32, false),
            ("dimIndex", Idx, false),
            ("dimName", Text, false),
            ("name", Text, true),
            ("version", Text, false),
            ("description", Text, false),
            ("displayName", Text, false),
            ("alternatePeripheral", Text, false),
            ("groupName", Text, false),
            ("prependToName", Text, false),
            ("appendToName", Text, false),
            ("headerStructName", Text, false),
            ("baseAddress", U64, true),
            ("size", U32, false),
            ("access", Kw(ACCESS), false),
            ("protection", Kw(PROT), false),
            ("resetValue", U64, false),
            ("resetMask", U64, false),
        ],
        K::AddrBlock => &[
            ("offset", U32, true),
            ("size", U32, true),
            ("usage", Kw(AB_USAGE), true),
            ("protection", Kw(PROT), false),
        ],
        K::Interrupt => &[("name", Text, true), ("description", Text, false), ("value", U32, true)],
        K::Cluster => &[
            ("@derivedFrom", Attr, false),
            ("dim", U32, false),
            ("dimIncrement", U32, false),
            ("dimIndex", Idx, false),
            ("dimName", Text, false),
            ("name", Text, true),
            ("description", Text, false),
            ("alternateCluster", Text, false),
            ("headerStructName", Text, false),
            ("addressOffset", U32, true),
            ("size", U32, false),
            ("access", Kw(ACCESS), false),
            ("protection", Kw(PROT), false),
            ("resetValue", U64, false),
            ("resetMask", U64, false),
        ],
        K::Register => &[
            ("@derivedFrom", Attr, false),
            ("dim", U32, false),
            ("dimIncrement", U32, false),
            ("dimIndex", Idx, false),
            ("dimName", Text, false),
            ("name", Text, true),
            ("displayName", Text, false),
            ("description", Text, false),
            ("alternateGroup", Text, false),
            ("alternateRegister", Text, false),
            ("addressOffset", U32, true),
            ("size", U32, false),
            ("access", Kw(ACCESS), false),
            ("protection", Kw(PROT), false),
            ("resetValue", U64, false),
            ("resetMask", U64, false),
            ("dataType", Kw(DTYPE), false),
            ("modifiedWriteValues", Kw(MWV), false),
            ("writeConstraint", Wc, false),
            ("readAction", Kw(READACT), false),
        ],
        K::Field => &[
            ("@derivedFrom", Attr, false),
            ("dim", U32, false),
            ("dimIncrement", U32, false),
            ("dimIndex", Idx, false),
            ("dimName", Text, false),
            ("name", Text, true),
            ("description", Text, false),
            ("bits", Bits, true),
            ("access", Kw(ACCESS), false),
            ("modifiedWriteValues", Kw(MWV), false),
            ("writeConstraint", Wc, false),
            ("readAction", Kw(READACT), false),
        ],
        K::Enums => &[("@derivedFrom", Attr, false), ("name", Text, false), ("usage", Kw(USAGE), false)],
        K::EnumV => &[("name", Text, true), ("description", Text, false), ("value", U64, false), ("isDefault", Bool, false)],
        K::DimArr => &[("headerEnumName", Text, false)],
    }
}
pub fn groups(k: K) -> &'static [Gd] {
    match k {
        K::Device => &[("cpu", "", &[K::Cpu]), ("peripherals", "peripherals", &[K::Periph])],
        K::Periph => &[
            ("dimArrayIndex", "", &[K::DimArr]),
            ("addressBlock", "", &[K::AddrBlock]),
            ("interrupt", "", &[K::Interrupt]),
            ("registers", "registers", &[K::Register, K::Cluster]),
        ],
        K::Cluster => &[("dimArrayIndex", "", &[K::DimArr]), ("children", "", &[K::Register, K::Cluster])],
        K::Register => &[("dimArrayIndex", "", &[K::DimArr]), ("fields", "fields", &[K::Field])],
        K::Field => &[("dimArrayIndex", "", &[K::DimArr]), ("enumeratedValues", "", &[K::Enums])],
        K::Enums => &[("values", "", &[K::EnumV])],
        K::DimArr => &[("values", "", &[K::EnumV])],
        _ => &[],
    }
}
pub fn single_group(g: &str) -> bool {
    g == "cpu" || g == "dimArrayIndex"
}
pub fn dimmable(k: K) -> bool {
    matches!(k, K::Periph | K::Cluster | K::Register | K::Field)
}
pub const DIM_TAGS: [&str; 4] = ["dim", "dimIncrement", "dimIndex", "dimName"];
pub const PROPS: [&str; 5] = ["size", "access", "protection", "resetValue", "resetMask"];

pub const DEF_XS: &str = "http://www.w3.org/2001/XMLSchema-instance";
pub const DEF_LOC: &str = "CMSIS-SVD.xsd";

impl El {
    pub fn new(k: K) -> El {
        El { k, f: BTreeMap::new(), c: BTreeMap::new() }
    }
    pub fn with(mut self, t: &'static str, v: V) -> El {
        self.f.insert(t, v);
        self
    }
    pub fn st(self, t: &'static str, v: &str) -> El {
        self.with(t, V::s(v))
    }
    pub fn nu(self, t: &'static str, v: u64) -> El {
        self.with(t, V::N(v))
    }
    pub fn bo(self, t: &'static str, v: bool) -> El {
        self.with(t, V::B(v))
    }
    pub fn kid(mut self, g: &'static str, e: El) -> El {
        self.c.entry(g).or_default().push(e);
        self
    }
    pub fn kids(mut self, g: &'static str, e: Vec<El>) -> El {
        self.c.insert(g, e);
        self
    }
    pub fn arr(self, dim: u64, inc: u64) -> El {
        self.nu("dim", dim).nu("dimIncrement", inc)
    }
    pub fn s(&self, t: &str) -> Option<&str> {
        match self.f.get(t) {
            Some(V::S(s)) => Some(s),
            _ => None,
        }
    }
    pub fn n(&self, t: &str) -> Option<u64> {
        match self.f.get(t) {
            Some(V::N(n)) => Some(*n),
            _ => None,
        }
    }
    pub fn b(&self, t: &str) -> Option<bool> {
        match self.f.get(t) {
            Some(V::B(n)) => Some(*n),
            _ => None,
        }
    }
    pub fn br(&self) -> (u32, u32, u8) {
        match self.f.get("bits") {
            Some(V::BR(a, b, c)) => (*a, *b, *c),
            _ => (0, 1, 0),
        }
    }
    pub fn name(&self) -> &str {
        self.s("name").unwrap_or("")
    }
    pub fn list(&self, g: &str) -> &[El] {
        self.c.get(g).map(|v| v.as_slice()).unwrap_or(&[])
    }
    pub fn is_array(&self) -> bool {
        self.f.contains_key("dimIncrement")
    }
    /// indices of the array (dimIndex or 0..dim)
    pub fn indexes(&self) -> Vec<String> {
        match self.f.get("dimIndex") {
            Some(V::L(l)) => l.clone(),
            _ => (0..self.n("dim").unwrap_or(0)).map(|i| i.to_string()).collect(),
        }
    }
    pub fn regs_group(&self) -> &'static str {
        if self.k == K::Cluster {
            "children"
        } else {
            "registers"
        }
    }
    /// visit all elements in document order
    pub fn walk<'a>(&'a self, path: &mut Vec<(&'static str, usize)>, f: &mut dyn FnMut(&'a El, &[(&'static str, usize)])) {
        f(self, path);
        for (g, _, _) in groups(self.k) {
            if let Some(l) = self.c.get(g) {
                for (i, e) in l.iter().enumerate() {
                    path.push((g, i));
                    e.walk(path, f);
                    path.pop();
                }
            }
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut El)) {
        f(self);
        for l in self.c.values_mut() {
            for e in l {
                e.walk_mut(f)
            }
        }
    }
    pub fn at_mut(&mut self, path: &[(&'static str, usize)]) -> Option<&mut El> {
        let mut e = self;
        for (g, i) in path {
            e = e.c.get_mut(g)?.get_mut(*i)?;
        }
        Some(e)
    }
    pub fn at(&self, path: &[(&'static str, usize)]) -> Option<&El> {
        let mut e = self;
        for (g, i) in path {
            e = e.c.get(g)?.get(*i)?;
        }
        Some(e)
    }
    /// compact one-line rendering
    pub fn brief(&self) -> String {
        let mut s = String::new();
        self.brief_to(&mut s);
        s
    }
    fn brief_to(&self, s: &mut String) {
        let _ = write!(s, "{}{{", self.k.tag());
        let mut first = true;
        for (t, v) in &self.f {
            if !first {
                s.push(' ');
            }
            first = false;
            let _ = match v {
                V::S(x) => write!(s, "{t}={x:?}"),
                V::N(n) => write!(s, "{t}={n}"),
                V::B(n) => write!(s, "{t}={n}"),
                V::L(l) => write!(s, "{t}={l:?}"),
                V::BR(o, w, k) => write!(s, "bits={o}+{w}/{k}"),
                V::WAR(b) => write!(s, "{t}=war({b})"),
                V::UEV(b) => write!(s, "{t}=uev({b})"),
                V::Range(a, b) => write!(s, "{t}=range({a},{b})"),
            };
        }
        for (g, l) in &self.c {
            let _ = write!(s, " {g}:[");
            for e in l {
                e.brief_to(s);
            }
            s.push(']');
        }
        s.push('}');
    }
}

/// First difference between two documents, as a readable line.
pub fn diff(want: &El, got: &El) -> Option<String> {
    fn rec(path: &str, a: &El, b: &El) -> Option<String> {
        if a.k != b.k {
            return Some(format!("{path}: kind {:?} expected, got {:?}", a.k, b.k));
        }
        let here = format!("{path}/{}[{}]", a.k.tag(), a.name());
        for t in a.f.keys().chain(b.f.keys()) {
            if a.f.get(t) != b.f.get(t) {
                return Some(format!("{here}.{t}: expected {:?}, got {:?}", a.f.get(t), b.f.get(t)));
            }
        }
        for g in a.c.keys().chain(b.c.keys()) {
            match (a.c.get(g), b.c.get(g)) {
                (Some(x), Some(y)) => {
                    for (p, q) in x.iter().zip(y) {
                        if let Some(d) = rec(&here, p, q) {
                            return Some(d);
                        }
                    }
                    if x.len() != y.len() {
                        return Some(format!(
                            "{here}.{g}: expected {} elements {:?}, got {} {:?}",
                            x.len(),
                            x.iter().map(|e| e.name()).collect::<Vec<_>>(),
                            y.len(),
                            y.iter().map(|e| e.name()).collect::<Vec<_>>()
                        ));
                    }
                }
                (x, y) => return Some(format!("{here}.{g}: expected present={}, got present={}", x.is_some(), y.is_some())),
            }
        }
        None
    }
    if want == got {
        return None;
    }
    rec("", want, got).or(Some("documents differ".into()))
}
/// tag/kind class of a difference (used to group failures)
pub fn diff_sig(d: &str) -> String {
    let head = d.split(':').next().unwrap_or("");
    let last = head.rsplit('/').next().unwrap_or(head);
    let mut out = String::new();
    let mut depth = 0;
    for ch in last.chars() {
        match ch {
            '[' => depth += 1,
            ']' => depth -= 1,
            _ if depth == 0 => out.push(ch),
            _ => {}
        }
    }
    out
}
