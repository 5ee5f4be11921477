//! Builders of svd-rs driven call by call, and what the calls mean for the reference tree.
use crate::bridge::*;
use crate::gen::{cpu_min, ev, fld, per, reg, clu};
use crate::model::*;
use std::collections::BTreeMap;
use svd_rs::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BK {
    El(K),
    Dim,
    Props,
}
pub const BKS: [BK; 12] = [
    BK::El(K::Device),
    BK::El(K::Cpu),
    BK::El(K::Periph),
    BK::El(K::AddrBlock),
    BK::El(K::Interrupt),
    BK::El(K::Cluster),
    BK::El(K::Register),
    BK::El(K::Field),
    BK::El(K::Enums),
    BK::El(K::EnumV),
    BK::Dim,
    BK::Props,
];
impl BK {
    pub fn tag(self) -> &'static str {
        match self {
            BK::El(k) => k.tag(),
            BK::Dim => "dimElement",
            BK::Props => "registerProperties",
        }
    }
    /// kind of the reference element which carries its values
    pub fn k(self) -> K {
        match self {
            BK::El(k) => k,
            _ => K::Register,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    V(V),
    C(Vec<El>),
    /// register properties as a whole
    P(BTreeMap<&'static str, V>),
    No,
}
pub type Call = (&'static str, Arg);

#[derive(Clone, Debug)]
pub enum Bld {
    Device(DeviceBuilder),
    Cpu(svd_rs::cpu::CpuBuilder),
    Periph(PeripheralInfoBuilder),
    AddrBlock(svd_rs::addressblock::AddressBlockBuilder),
    Interrupt(svd_rs::interrupt::InterruptBuilder),
    Cluster(svd_rs::cluster::ClusterInfoBuilder),
    Register(RegisterInfoBuilder),
    Field(svd_rs::field::FieldInfoBuilder),
    Enums(svd_rs::enumeratedvalues::EnumeratedValuesBuilder),
    EnumV(svd_rs::enumeratedvalue::EnumeratedValueBuilder),
    Dim(DimElementBuilder),
    Props(RegisterProperties),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Thing {
    Device(Device),
    Cpu(Cpu),
    Periph(PeripheralInfo),
    AddrBlock(AddressBlock),
    Interrupt(Interrupt),
    Cluster(ClusterInfo),
    Register(RegisterInfo),
    Field(FieldInfo),
    Enums(EnumeratedValues),
    EnumV(EnumeratedValue),
    Dim(DimElement),
    Props(RegisterProperties),
}
macro_rules! each {
    ($v:expr, $E:ident, $b:ident => $x:expr) => {
        match $v {
            $E::Device($b) => $x,
            $E::Cpu($b) => $x,
            $E::Periph($b) => $x,
            $E::AddrBlock($b) => $x,
            $E::Interrupt($b) => $x,
            $E::Cluster($b) => $x,
            $E::Register($b) => $x,
            $E::Field($b) => $x,
            $E::Enums($b) => $x,
            $E::EnumV($b) => $x,
            $E::Dim($b) => $x,
            $E::Props($b) => $x,
        }
    };
}
macro_rules! through {
    ($v:expr, $E:ident -> $F:ident, $b:ident => $x:expr) => {
        match $v {
            $E::Device($b) => $F::Device($x),
            $E::Cpu($b) => $F::Cpu($x),
            $E::Periph($b) => $F::Periph($x),
            $E::AddrBlock($b) => $F::AddrBlock($x),
            $E::Interrupt($b) => $F::Interrupt($x),
            $E::Cluster($b) => $F::Cluster($x),
            $E::Register($b) => $F::Register($x),
            $E::Field($b) => $F::Field($x),
            $E::Enums($b) => $F::Enums($x),
            $E::EnumV($b) => $F::EnumV($x),
            $E::Dim($b) => $F::Dim($x),
            $E::Props($b) => $F::Props($x),
        }
    };
}
pub fn new(k: BK) -> Bld {
    match k {
        BK::El(K::Device) => Bld::Device(Device::builder()),
        BK::El(K::Cpu) => Bld::Cpu(Cpu::builder()),
        BK::El(K::Periph) => Bld::Periph(PeripheralInfo::builder()),
        BK::El(K::AddrBlock) => Bld::AddrBlock(AddressBlock::builder()),
        BK::El(K::Interrupt) => Bld::Interrupt(Interrupt::builder()),
        BK::El(K::Cluster) => Bld::Cluster(ClusterInfo::builder()),
        BK::El(K::Register) => Bld::Register(RegisterInfo::builder()),
        BK::El(K::Field) => Bld::Field(FieldInfo::builder()),
        BK::El(K::Enums) => Bld::Enums(EnumeratedValues::builder()),
        BK::El(K::EnumV) => Bld::EnumV(EnumeratedValue::builder()),
        BK::El(K::DimArr) => unreachable!(),
        BK::Dim => Bld::Dim(DimElement::builder()),
        BK::Props => Bld::Props(RegisterProperties::new()),
    }
}
pub fn build(b: Bld, l: ValidateLevel) -> Result<Thing, SvdError> {
    Ok(through!(b, Bld -> Thing, b => b.build(l)?))
}
pub fn modify(t: &mut Thing, b: Bld, l: ValidateLevel) -> Result<(), SvdError> {
    match (t, b) {
        (Thing::Device(t), Bld::Device(b)) => t.modify_from(b, l),
        (Thing::Cpu(t), Bld::Cpu(b)) => t.modify_from(b, l),
        (Thing::Periph(t), Bld::Periph(b)) => t.modify_from(b, l),
        (Thing::AddrBlock(t), Bld::AddrBlock(b)) => t.modify_from(b, l),
        (Thing::Interrupt(t), Bld::Interrupt(b)) => t.modify_from(b, l),
        (Thing::Cluster(t), Bld::Cluster(b)) => t.modify_from(b, l),
        (Thing::Register(t), Bld::Register(b)) => t.modify_from(b, l),
        (Thing::Field(t), Bld::Field(b)) => t.modify_from(b, l),
        (Thing::Enums(t), Bld::Enums(b)) => t.modify_from(b, l),
        (Thing::EnumV(t), Bld::EnumV(b)) => t.modify_from(b, l),
        (Thing::Dim(t), Bld::Dim(b)) => t.modify_from(b, l),
        (Thing::Props(t), Bld::Props(b)) => t.modify_from(b, l),
        _ => unreachable!(),
    }
}
/// the element turned into a builder
pub fn back(t: Thing) -> Bld {
    through!(t, Thing -> Bld, t => t.into())
}
pub fn check(t: &Thing, l: ValidateLevel) -> Result<(), SvdError> {
    each!(t, Thing, t => t.validate(l))
}
pub fn seen(t: &Thing) -> El {
    match t {
        Thing::Device(t) => view(t),
        Thing::Cpu(t) => cpu_v(t),
        Thing::Periph(t) => peripheral_info_v(t),
        Thing::AddrBlock(t) => ab_v(t),
        Thing::Interrupt(t) => interrupt_v(t),
        Thing::Cluster(t) => cluster_info_v(t),
        Thing::Register(t) => register_info_v(t),
        Thing::Field(t) => field_info_v(t),
        Thing::Enums(t) => enums_v(t),
        Thing::EnumV(t) => enumv_v(t),
        Thing::Dim(t) => {
            let mut e = El::new(K::Register);
            dim_v(&mut e, t);
            e
        }
        Thing::Props(t) => {
            let mut e = El::new(K::Register);
            props_v(&mut e, t);
            e
        }
    }
}
impl Arg {
    fn os(&self) -> Option<String> {
        match self {
            Arg::V(V::S(s)) => Some(s.clone()),
            _ => None,
        }
    }
    fn on(&self) -> Option<u64> {
        match self {
            Arg::V(V::N(n)) => Some(*n),
            _ => None,
        }
    }
    fn on32(&self) -> Option<u32> {
        self.on().map(|n| n as u32)
    }
    fn ob(&self) -> Option<bool> {
        match self {
            Arg::V(V::B(b)) => Some(*b),
            _ => None,
        }
    }
    fn kw<T>(&self, f: impl Fn(&str) -> T) -> Option<T> {
        self.os().map(|s| f(&s))
    }
    fn s(&self) -> String {
        self.os().expect("text")
    }
    fn n(&self) -> u64 {
        self.on().expect("number")
    }
    fn n32(&self) -> u32 {
        self.n() as u32
    }
    fn b(&self) -> bool {
        self.ob().expect("bool")
    }
    fn wc(&self) -> Option<WriteConstraint> {
        match self {
            Arg::V(v) => Some(wc_p(v)),
            _ => None,
        }
    }
    fn list<T>(&self, f: impl Fn(&El) -> Result<T, SvdError>) -> Option<Vec<T>> {
        match self {
            Arg::C(l) => Some(l.iter().map(|e| f(e).expect("harness child")).collect()),
            _ => None,
        }
    }
    fn props(&self) -> RegisterProperties {
        match self {
            Arg::P(m) => {
                let mut e = El::new(K::Register);
                e.f = m.clone();
                mk_props(&e)
            }
            _ => unreachable!(),
        }
    }
}
const Z: ValidateLevel = ValidateLevel::Disabled;
/// one call of a setter
pub fn call(b: Bld, (k, a): &Call) -> Bld {
    match b {
        Bld::Device(b) => Bld::Device(match *k {
            "vendor" => b.vendor(a.os()),
            "vendorID" => b.vendor_id(a.os()),
            "name" => b.name(a.s()),
            "series" => b.series(a.os()),
            "version" => b.version(a.s()),
            "description" => b.description(a.s()),
            "licenseText" => b.license_text(a.os()),
            "cpu" => b.cpu(a.list(|e| b_cpu(e).build(Z)).map(|mut l| l.remove(0))),
            "headerSystemFilename" => b.header_system_filename(a.os()),
            "headerDefinitionsPrefix" => b.header_definitions_prefix(a.os()),
            "addressUnitBits" => b.address_unit_bits(a.n32()),
            "width" => b.width(a.n32()),
            "props" => b.default_register_properties(a.props()),
            "peripherals" => b.peripherals(a.list(|e| mk_peripheral(e, Z)).unwrap()),
            "@xmlns:xs" => b.xmlns_xs(a.s()),
            "@xs:noNamespaceSchemaLocation" => b.no_namespace_schema_location(a.s()),
            "@schemaVersion" => b.schema_version(a.s()),
            _ => unreachable!("{k}"),
        }),
        Bld::Cpu(b) => Bld::Cpu(match *k {
            "name" => b.name(a.s()),
            "revision" => b.revision(a.s()),
            "endian" => b.endian(a.kw(endian_p).unwrap()),
            "mpuPresent" => b.mpu_present(a.b()),
            "fpuPresent" => b.fpu_present(a.b()),
            "fpuDP" => b.fpu_double_precision(a.ob()),
            "dspPresent" => b.dsp_present(a.ob()),
            "icachePresent" => b.icache_present(a.ob()),
            "dcachePresent" => b.dcache_present(a.ob()),
            "itcmPresent" => b.itcm_present(a.ob()),
            "dtcmPresent" => b.dtcm_present(a.ob()),
            "vtorPresent" => b.vtor_present(a.ob()),
            "nvicPrioBits" => b.nvic_priority_bits(a.n32()),
            "vendorSystickConfig" => b.has_vendor_systick(a.b()),
            "deviceNumInterrupts" => b.device_num_interrupts(a.on32()),
            "sauNumRegions" => b.sau_num_regions(a.on32()),
            _ => unreachable!("{k}"),
        }),
        Bld::Periph(b) => Bld::Periph(match *k {
            "name" => b.name(a.s()),
            "displayName" => b.display_name(a.os()),
            "version" => b.version(a.os()),
            "description" => b.description(a.os()),
            "alternatePeripheral" => b.alternate_peripheral(a.os()),
            "groupName" => b.group_name(a.os()),
            "prependToName" => b.prepend_to_name(a.os()),
            "appendToName" => b.append_to_name(a.os()),
            "headerStructName" => b.header_struct_name(a.os()),
            "baseAddress" => b.base_address(a.n()),
            "props" => b.default_register_properties(a.props()),
            "addressBlock" => b.address_block(a.list(|e| b_ab(e).build(Z))),
            "interrupt" => b.interrupt(a.list(|e| b_interrupt(e).build(Z))),
            "registers" => b.registers(a.list(|e| mk_rc(e, Z))),
            "@derivedFrom" => b.derived_from(a.os()),
            _ => unreachable!("{k}"),
        }),
        Bld::AddrBlock(b) => Bld::AddrBlock(match *k {
            "offset" => b.offset(a.n32()),
            "size" => b.size(a.n32()),
            "usage" => b.usage(a.kw(abu_p).unwrap()),
            "protection" => b.protection(a.kw(prot_p)),
            _ => unreachable!("{k}"),
        }),
        Bld::Interrupt(b) => Bld::Interrupt(match *k {
            "name" => b.name(a.s()),
            "description" => b.description(a.os()),
            "value" => b.value(a.n32()),
            _ => unreachable!("{k}"),
        }),
        Bld::Cluster(b) => Bld::Cluster(match *k {
            "name" => b.name(a.s()),
            "description" => b.description(a.os()),
            "alternateCluster" => b.alternate_cluster(a.os()),
            "headerStructName" => b.header_struct_name(a.os()),
            "addressOffset" => b.address_offset(a.n32()),
            "props" => b.default_register_properties(a.props()),
            "children" => b.children(a.list(|e| mk_rc(e, Z)).unwrap()),
            "@derivedFrom" => b.derived_from(a.os()),
            _ => unreachable!("{k}"),
        }),
        Bld::Register(b) => Bld::Register(match *k {
            "name" => b.name(a.s()),
            "displayName" => b.display_name(a.os()),
            "description" => b.description(a.os()),
            "alternateGroup" => b.alternate_group(a.os()),
            "alternateRegister" => b.alternate_register(a.os()),
            "addressOffset" => b.address_offset(a.n32()),
            "props" => b.properties(a.props()),
            "dataType" => b.datatype(a.kw(dt_p)),
            "size" => b.size(a.on32()),
            "access" => b.access(a.kw(access_p)),
            "resetValue" => b.reset_value(a.on()),
            "resetMask" => b.reset_mask(a.on()),
            "modifiedWriteValues" => b.modified_write_values(a.kw(mwv_p)),
            "writeConstraint" => b.write_constraint(a.wc()),
            "readAction" => b.read_action(a.kw(ra_p)),
            "fields" => b.fields(a.list(|e| mk_field(e, Z))),
            "@derivedFrom" => b.derived_from(a.os()),
            _ => unreachable!("{k}"),
        }),
        Bld::Field(b) => Bld::Field(match *k {
            "name" => b.name(a.s()),
            "description" => b.description(a.os()),
            "bits" => match a {
                Arg::V(V::BR(o, w, t)) => b.bit_range(bit_range(*o, *w, *t)),
                _ => unreachable!(),
            },
            "bitOffset" => b.bit_offset(a.n32()),
            "bitWidth" => b.bit_width(a.n32()),
            "access" => b.access(a.kw(access_p)),
            "modifiedWriteValues" => b.modified_write_values(a.kw(mwv_p)),
            "writeConstraint" => b.write_constraint(a.wc()),
            "readAction" => b.read_action(a.kw(ra_p)),
            "enumeratedValues" => b.enumerated_values(a.list(|e| mk_enums(e, Z)).unwrap()),
            "@derivedFrom" => b.derived_from(a.os()),
            _ => unreachable!("{k}"),
        }),
        Bld::Enums(b) => Bld::Enums(match *k {
            "name" => b.name(a.os()),
            "usage" => b.usage(a.kw(usage_p)),
            "@derivedFrom" => b.derived_from(a.os()),
            "values" => b.values(a.list(|e| mk_enumv(e, Z)).unwrap()),
            _ => unreachable!("{k}"),
        }),
        Bld::EnumV(b) => Bld::EnumV(match *k {
            "name" => b.name(a.s()),
            "description" => b.description(a.os()),
            "value" => b.value(a.on()),
            "isDefault" => b.is_default(a.ob()),
            _ => unreachable!("{k}"),
        }),
        Bld::Dim(b) => Bld::Dim(match *k {
            "dim" => b.dim(a.n32()),
            "dimIncrement" => b.dim_increment(a.n32()),
            "dimIndex" => b.dim_index(match a {
                Arg::V(V::L(l)) => Some(l.clone()),
                _ => None,
            }),
            "dimName" => b.dim_name(a.os()),
            "dimArrayIndex" => b.dim_array_index(
                a.list(|e| {
                    Ok(DimArrayIndex {
                        header_enum_name: e.s("headerEnumName").map(|s| s.to_string()),
                        values: e.list("values").iter().map(|x| mk_enumv(x, Z)).collect::<Result<Vec<_>, _>>()?,
                    })
                })
                .map(|mut l| l.remove(0)),
            ),
            _ => unreachable!("{k}"),
        }),
        Bld::Props(b) => Bld::Props(match *k {
            "size" => b.size(a.on32()),
            "access" => b.access(a.kw(access_p)),
            "protection" => b.protection(a.kw(prot_p)),
            "resetValue" => b.reset_value(a.on()),
            "resetMask" => b.reset_mask(a.on()),
            _ => unreachable!("{k}"),
        }),
    }
}
/// (setter, takes an Option?, must have been called: 2 always, 1 in strict mode, values)
pub struct Setter {
    pub key: &'static str,
    pub opt: bool,
    pub need: u8,
    pub vals: Vec<Arg>,
}
fn props_args() -> Vec<Arg> {
    let p = |l: &[(&'static str, V)]| Arg::P(l.iter().cloned().collect());
    vec![
        p(&[("size", V::N(16)), ("access", V::s("read-only")), ("protection", V::s("s")), ("resetValue", V::N(3)), ("resetMask", V::N(0xff))]),
        p(&[("size", V::N(8))]),
        p(&[("resetValue", V::N(0x1ff)), ("resetMask", V::N(0x1ff))]),
        p(&[]),
        // too big for the weak level, too big for the strict level only
        p(&[("size", V::N(8)), ("resetValue", V::N(0x100))]),
        p(&[("size", V::N(8)), ("resetValue", V::N(1)), ("resetMask", V::N(0x1ff))]),
    ]
}
pub fn setters(k: BK) -> Vec<Setter> {
    let mut v: Vec<Setter> = vec![];
    let mut add = |key, opt, need, vals: Vec<Arg>| v.push(Setter { key, opt, need, vals });
    let txt = |t: &[&str]| t.iter().map(|s| Arg::V(V::s(s))).collect::<Vec<_>>();
    let num = |t: &[u64]| t.iter().map(|s| Arg::V(V::N(*s))).collect::<Vec<_>>();
    match k {
        BK::Dim => {
            add("dim", false, 2, num(&[2, 0, 7]));
            add("dimIncrement", false, 2, num(&[4, 0]));
            add("dimIndex", true, 0, vec![Arg::V(V::L(vec!["A".into(), "B".into()])), Arg::V(V::L(vec!["1".into()])), Arg::V(V::L(vec![]))]);
            add("dimName", true, 0, txt(&["N", "M", ""]));
            add("dimArrayIndex", true, 0, vec![Arg::C(vec![El::new(K::DimArr).st("headerEnumName", "H").kid("values", ev("V", 1))]), Arg::C(vec![El::new(K::DimArr)])]);
            return v;
        }
        BK::Props => {
            add("size", true, 0, num(&[16, 8, 64]));
            add("access", true, 0, txt(&["read-only", "writeOnce"]));
            add("protection", true, 0, txt(&["s", "p"]));
            add("resetValue", true, 0, num(&[3, 0x1ff, 0x10000]));
            add("resetMask", true, 0, num(&[0xff, 0x1ffff]));
            return v;
        }
        BK::El(_) => {}
    }
    let k = k.k();
    for (t, ty, mand) in fields(k) {
        let t = *t;
        if DIM_TAGS.contains(&t) {
            continue;
        }
        if t == "size" && k != K::AddrBlock {
            add("props", true, 0, props_args());
        }
        if PROPS.contains(&t) && !matches!(k, K::AddrBlock | K::Register | K::Field) {
            continue;
        }
        if k == K::Register && t == "protection" {
            continue;
        }
        let strict = k == K::Device && matches!(t, "version" | "description" | "addressUnitBits" | "width");
        let bare = *mand || strict || (k == K::Device && t.starts_with('@'));
        let need = if *mand { 2 } else { strict as u8 };
        let vals = match (t, ty) {
            ("name", _) if k == K::Enums => txt(&["NA", "NB", "", "bad name"]),
            ("name", _) => txt(&["NA", "NB%s", "bad name"]),
            ("@derivedFrom", _) => txt(&["DA", "DB", "a b"]),
            ("alternateRegister", _) => txt(&["RA", "a b"]),
            ("alternateGroup", _) => txt(&["GA", "GB", "", "a b"]),
            (_, T::Bits) => vec![Arg::V(V::BR(0, 4, 0)), Arg::V(V::BR(3, 1, 2)), Arg::V(V::BR(1, 0, 1)), Arg::V(V::BR(0, 64, 0))],
            (_, T::Wc) => vec![Arg::V(V::Range(1, 9)), Arg::V(V::WAR(true)), Arg::V(V::UEV(false)), Arg::V(V::Range(2, 1))],
            ("size", _) if k == K::Register => num(&[16, 8]),
            ("resetValue", _) => num(&[3, 0x1ff]),
            ("resetMask", _) => num(&[1, 0x1ff]),
            (_, T::U64) => num(&[5, 0x1_0000_0000]),
            (_, T::U32) => num(&[0, 0xffff_ffff]),
            (_, T::Bool) => vec![Arg::V(V::B(true)), Arg::V(V::B(false))],
            (_, T::Kw(l)) => txt(&[l[0], l[l.len() - 1]]),
            _ if bare => txt(&["ta", "tb"]),
            _ => txt(&["ta", "tb", ""]),
        };
        add(t, !bare, need, vals);
        if t == "bits" {
            add("bitOffset", false, 0, num(&[2, 9]));
            add("bitWidth", false, 0, num(&[3, 0]));
        }
    }
    for (g, _, _) in groups(k) {
        let l: (bool, u8, Vec<Vec<El>>) = match *g {
            "dimArrayIndex" => continue,
            "cpu" => (true, 0, vec![vec![cpu_min()], vec![cpu_min().st("name", "CM7").bo("fpuDP", true)]]),
            "peripherals" => (false, 2, vec![vec![per("PA", 0, vec![])], vec![per("PB", 4, vec![reg("R", 0)]), per("PC", 8, vec![])], vec![]]),
            "addressBlock" => {
                let b = |o| El::new(K::AddrBlock).nu("offset", o).nu("size", 4).st("usage", "buffer");
                (true, 0, vec![vec![b(0)], vec![b(4), b(8)], vec![]])
            }
            "interrupt" => {
                let b = |o| El::new(K::Interrupt).nu("value", o).st("name", "I");
                (true, 0, vec![vec![b(0)], vec![b(4), b(8)], vec![]])
            }
            "registers" => (true, 0, vec![vec![reg("RA", 0)], vec![clu("CB", 4, vec![reg("R", 0)]), reg("RC", 8)], vec![]]),
            "children" => (false, 2, vec![vec![reg("RA", 0)], vec![clu("CB", 4, vec![reg("R", 0)]), reg("RC", 8)], vec![]]),
            "fields" => (true, 0, vec![vec![fld("FA", 0, 1)], vec![fld("FB", 1, 1), fld("FC", 2, 1)], vec![]]),
            "enumeratedValues" => {
                let b = |n, v| El::new(K::Enums).st("name", n).kid("values", ev("V", v));
                (false, 0, vec![vec![b("EA", 1)], vec![b("EB", 1).st("usage", "read"), b("EC", 2).st("usage", "write")], vec![b("ED", 100), b("EE", 0)], vec![]])
            }
            "values" => (false, 0, vec![vec![ev("VA", 1)], vec![ev("VB", 1), ev("VC", 2)], vec![]]),
            _ => unreachable!(),
        };
        add(g, l.0, l.1, l.2.into_iter().map(Arg::C).collect());
    }
    v
}
pub fn calls(k: BK) -> Vec<Call> {
    let mut v = vec![];
    for s in setters(k) {
        for a in s.vals {
            v.push((s.key, a));
        }
        if s.opt && s.key != "props" {
            v.push((s.key, Arg::No));
        }
    }
    v
}
/// What the calls on a builder add up to. `off`/`wid`: a bit position given by half.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Sum {
    pub e: El,
    pub off: Option<u32>,
    pub wid: Option<u32>,
    pub halves: bool,
}
impl Sum {
    pub fn new(k: BK) -> Sum {
        Sum { e: El::new(k.k()), off: None, wid: None, halves: false }
    }
    pub fn of(e: El) -> Sum {
        Sum { e, off: None, wid: None, halves: false }
    }
    pub fn call(&mut self, (k, a): &Call) {
        match (*k, a) {
            ("bitOffset" | "bitWidth", Arg::V(V::N(n))) => {
                self.halves = true;
                let n = *n as u32;
                let first = *k == "bitOffset";
                match self.e.f.get_mut("bits") {
                    Some(V::BR(o, w, _)) => *(if first { o } else { w }) = n,
                    _ => {
                        *(if first { &mut self.off } else { &mut self.wid }) = Some(n);
                        if let (Some(o), Some(w)) = (self.off, self.wid) {
                            self.e.f.insert("bits", V::BR(o, w, 1));
                            self.off = None;
                            self.wid = None;
                        }
                    }
                }
            }
            ("props", Arg::P(m)) => {
                for t in PROPS {
                    self.e.f.remove(t);
                }
                self.e.f.extend(m.clone());
            }
            (k, Arg::V(v)) => {
                if k == "bits" {
                    self.off = None;
                    self.wid = None;
                }
                self.e.f.insert(k, v.clone());
            }
            (k, Arg::C(l)) => {
                self.e.c.insert(k, l.clone());
            }
            (k, Arg::No) => {
                self.e.f.remove(k);
                self.e.c.remove(k);
            }
            _ => unreachable!(),
        }
    }
}
/// empty texts and lists stand for absent ones
pub fn tidy_empty(e: &mut El) {
    e.f.retain(|_, v| !matches!(v, V::S(s) if s.is_empty()) && !matches!(v, V::L(l) if l.is_empty()));
    e.c.retain(|_, l| !l.is_empty());
    if let Some(l) = e.c.get_mut("dimArrayIndex") {
        l.iter_mut().for_each(tidy_empty);
    }
}
