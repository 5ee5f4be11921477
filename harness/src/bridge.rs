//! Bridge between the reference model and the public API of svd-rs:
//! `view` reads public fields, `build` goes through the public builders.
use crate::model::*;
use svd_rs::*;

fn put(e: &mut El, t: &'static str, v: Option<V>) {
    if let Some(v) = v {
        e.f.insert(t, v);
    }
}
fn os(s: &Option<String>) -> Option<V> {
    s.as_ref().map(|s| V::S(s.clone()))
}
fn on(n: Option<u32>) -> Option<V> {
    n.map(|n| V::N(n as u64))
}
fn ob(n: Option<bool>) -> Option<V> {
    n.map(V::B)
}
// Keyword tables of this harness, independent of `as_str` of the code under test.
pub fn access_s(a: Access) -> &'static str {
    match a {
        Access::ReadOnly => "read-only",
        Access::ReadWrite => "read-write",
        Access::ReadWriteOnce => "read-writeOnce",
        Access::WriteOnce => "writeOnce",
        Access::WriteOnly => "write-only",
    }
}
pub fn access_p(s: &str) -> Access {
    use Access::*;
    *[ReadOnly, ReadWrite, ReadWriteOnce, WriteOnce, WriteOnly].iter().find(|a| access_s(**a) == s).expect("model access keyword")
}
pub fn prot_s(a: Protection) -> &'static str {
    match a {
        Protection::Secure => "s",
        Protection::NonSecure => "n",
        Protection::Privileged => "p",
    }
}
pub fn prot_p(s: &str) -> Protection {
    use Protection::*;
    *[Secure, NonSecure, Privileged].iter().find(|a| prot_s(**a) == s).expect("model keyword")
}
pub fn endian_s(a: Endian) -> &'static str {
    match a {
        Endian::Little => "little",
        Endian::Big => "big",
        Endian::Selectable => "selectable",
        Endian::Other => "other",
    }
}
pub fn endian_p(s: &str) -> Endian {
    use Endian::*;
    *[Little, Big, Selectable, Other].iter().find(|a| endian_s(**a) == s).expect("model keyword")
}
pub fn abu_s(a: AddressBlockUsage) -> &'static str {
    match a {
        AddressBlockUsage::Registers => "registers",
        AddressBlockUsage::Buffer => "buffer",
        AddressBlockUsage::Reserved => "reserved",
    }
}
pub fn abu_p(s: &str) -> AddressBlockUsage {
    use AddressBlockUsage::*;
    *[Registers, Buffer, Reserved].iter().find(|a| abu_s(**a) == s).expect("model keyword")
}
pub fn usage_s(a: Usage) -> &'static str {
    match a {
        Usage::Read => "read",
        Usage::Write => "write",
        Usage::ReadWrite => "read-write",
    }
}
pub fn usage_p(s: &str) -> Usage {
    use Usage::*;
    *[Read, Write, ReadWrite].iter().find(|a| usage_s(**a) == s).expect("model keyword")
}
pub fn ra_s(a: ReadAction) -> &'static str {
    match a {
        ReadAction::Clear => "clear",
        ReadAction::Set => "set",
        ReadAction::Modify => "modify",
        ReadAction::ModifyExternal => "modifyExternal",
    }
}
pub fn ra_p(s: &str) -> ReadAction {
    use ReadAction::*;
    *[Clear, Set, Modify, ModifyExternal].iter().find(|a| ra_s(**a) == s).expect("model keyword")
}
pub fn mwv_s(a: ModifiedWriteValues) -> &'static str {
    use ModifiedWriteValues::*;
    match a {
        OneToClear => "oneToClear",
        OneToSet => "oneToSet",
        OneToToggle => "oneToToggle",
        ZeroToClear => "zeroToClear",
        ZeroToSet => "zeroToSet",
        ZeroToToggle => "zeroToToggle",
        Clear => "clear",
        Set => "set",
        Modify => "modify",
    }
}
pub fn mwv_p(s: &str) -> ModifiedWriteValues {
    use ModifiedWriteValues::*;
    *[OneToClear, OneToSet, OneToToggle, ZeroToClear, ZeroToSet, ZeroToToggle, Clear, Set, Modify]
        .iter()
        .find(|a| mwv_s(**a) == s)
        .expect("model keyword")
}
pub const DTS: [DataType; 16] = {
    use DataType::*;
    [U8, U16, U32, U64, I8, I16, I32, I64, U8Ptr, U16Ptr, U32Ptr, U64Ptr, I8Ptr, I16Ptr, I32Ptr, I64Ptr]
};
pub fn dt_s(a: DataType) -> &'static str {
    DTYPE[DTS.iter().position(|x| *x == a).expect("all data types listed")]
}
pub fn dt_p(s: &str) -> DataType {
    DTS[DTYPE.iter().position(|x| *x == s).expect("model keyword")]
}
fn kw(s: &str) -> Option<V> {
    Some(V::s(s))
}
fn wc_v(w: &WriteConstraint) -> V {
    match w {
        WriteConstraint::WriteAsRead(b) => V::WAR(*b),
        WriteConstraint::UseEnumeratedValues(b) => V::UEV(*b),
        WriteConstraint::Range(r) => V::Range(r.min, r.max),
    }
}
pub fn wc_p(v: &V) -> WriteConstraint {
    match v {
        V::WAR(b) => WriteConstraint::WriteAsRead(*b),
        V::UEV(b) => WriteConstraint::UseEnumeratedValues(*b),
        V::Range(a, b) => WriteConstraint::Range(WriteConstraintRange { min: *a, max: *b }),
        _ => panic!("model: not a write constraint"),
    }
}
pub fn props_v(e: &mut El, p: &RegisterProperties) {
    put(e, "size", on(p.size));
    put(e, "access", p.access.map(|a| V::s(access_s(a))));
    put(e, "protection", p.protection.map(|a| V::s(prot_s(a))));
    put(e, "resetValue", p.reset_value.map(V::N));
    put(e, "resetMask", p.reset_mask.map(V::N));
}
pub fn dim_v(e: &mut El, d: &DimElement) {
    put(e, "dim", on(Some(d.dim)));
    put(e, "dimIncrement", on(Some(d.dim_increment)));
    put(e, "dimIndex", d.dim_index.as_ref().map(|l| V::L(l.clone())));
    put(e, "dimName", os(&d.dim_name));
    if let Some(a) = &d.dim_array_index {
        let mut x = El::new(K::DimArr);
        put(&mut x, "headerEnumName", os(&a.header_enum_name));
        x.c.insert("values", a.values.iter().map(enumv_v).collect());
        e.c.insert("dimArrayIndex", vec![x]);
    }
}
fn arr<T>(m: &MaybeArray<T>, f: impl Fn(&T) -> El) -> El {
    match m {
        MaybeArray::Single(i) => f(i),
        MaybeArray::Array(i, d) => {
            let mut e = f(i);
            dim_v(&mut e, d);
            e
        }
    }
}
pub fn enumv_v(v: &EnumeratedValue) -> El {
    let mut e = El::new(K::EnumV).st("name", &v.name);
    put(&mut e, "description", os(&v.description));
    put(&mut e, "value", v.value.map(V::N));
    put(&mut e, "isDefault", ob(v.is_default));
    e
}
pub fn enums_v(v: &EnumeratedValues) -> El {
    let mut e = El::new(K::Enums);
    put(&mut e, "@derivedFrom", os(&v.derived_from));
    put(&mut e, "name", os(&v.name));
    put(&mut e, "usage", v.usage.map(|u| V::s(usage_s(u))));
    e.c.insert("values", v.values.iter().map(enumv_v).collect());
    e
}
pub fn field_info_v(f: &FieldInfo) -> El {
    let mut e = El::new(K::Field).st("name", &f.name);
    put(&mut e, "@derivedFrom", os(&f.derived_from));
    put(&mut e, "description", os(&f.description));
    let t = match f.bit_range.range_type {
        bitrange::BitRangeType::BitRange => 0,
        bitrange::BitRangeType::OffsetWidth => 1,
        bitrange::BitRangeType::MsbLsb => 2,
    };
    e.f.insert("bits", V::BR(f.bit_range.offset, f.bit_range.width, t));
    put(&mut e, "access", f.access.map(|a| V::s(access_s(a))));
    put(&mut e, "modifiedWriteValues", f.modified_write_values.map(|a| V::s(mwv_s(a))));
    put(&mut e, "writeConstraint", f.write_constraint.as_ref().map(wc_v));
    put(&mut e, "readAction", f.read_action.map(|a| V::s(ra_s(a))));
    if !f.enumerated_values.is_empty() {
        e.c.insert("enumeratedValues", f.enumerated_values.iter().map(enums_v).collect());
    }
    e
}
pub fn field_v(f: &Field) -> El {
    arr(f, field_info_v)
}
pub fn register_info_v(r: &RegisterInfo) -> El {
    let mut e = El::new(K::Register).st("name", &r.name);
    put(&mut e, "@derivedFrom", os(&r.derived_from));
    put(&mut e, "displayName", os(&r.display_name));
    put(&mut e, "description", os(&r.description));
    put(&mut e, "alternateGroup", os(&r.alternate_group));
    put(&mut e, "alternateRegister", os(&r.alternate_register));
    put(&mut e, "addressOffset", on(Some(r.address_offset)));
    props_v(&mut e, &r.properties);
    put(&mut e, "dataType", r.datatype.map(|d| V::s(dt_s(d))));
    put(&mut e, "modifiedWriteValues", r.modified_write_values.map(|a| V::s(mwv_s(a))));
    put(&mut e, "writeConstraint", r.write_constraint.as_ref().map(wc_v));
    put(&mut e, "readAction", r.read_action.map(|a| V::s(ra_s(a))));
    if let Some(f) = &r.fields {
        e.c.insert("fields", f.iter().map(field_v).collect());
    }
    e
}
pub fn register_v(r: &Register) -> El {
    arr(r, register_info_v)
}
pub fn cluster_info_v(r: &ClusterInfo) -> El {
    let mut e = El::new(K::Cluster).st("name", &r.name);
    put(&mut e, "@derivedFrom", os(&r.derived_from));
    put(&mut e, "description", os(&r.description));
    put(&mut e, "alternateCluster", os(&r.alternate_cluster));
    put(&mut e, "headerStructName", os(&r.header_struct_name));
    put(&mut e, "addressOffset", on(Some(r.address_offset)));
    props_v(&mut e, &r.default_register_properties);
    e.c.insert("children", r.children.iter().map(rc_v).collect());
    e
}
pub fn cluster_v(r: &Cluster) -> El {
    arr(r, cluster_info_v)
}
pub fn rc_v(r: &RegisterCluster) -> El {
    match r {
        RegisterCluster::Register(r) => register_v(r),
        RegisterCluster::Cluster(c) => cluster_v(c),
    }
}
pub fn interrupt_v(i: &Interrupt) -> El {
    let mut e = El::new(K::Interrupt).st("name", &i.name).nu("value", i.value as u64);
    put(&mut e, "description", os(&i.description));
    e
}
pub fn ab_v(a: &AddressBlock) -> El {
    let mut e = El::new(K::AddrBlock).nu("offset", a.offset as u64).nu("size", a.size as u64);
    put(&mut e, "usage", kw(abu_s(a.usage)));
    put(&mut e, "protection", a.protection.map(|a| V::s(prot_s(a))));
    e
}
pub fn peripheral_info_v(p: &PeripheralInfo) -> El {
    let mut e = El::new(K::Periph).st("name", &p.name);
    put(&mut e, "@derivedFrom", os(&p.derived_from));
    put(&mut e, "displayName", os(&p.display_name));
    put(&mut e, "version", os(&p.version));
    put(&mut e, "description", os(&p.description));
    put(&mut e, "alternatePeripheral", os(&p.alternate_peripheral));
    put(&mut e, "groupName", os(&p.group_name));
    put(&mut e, "prependToName", os(&p.prepend_to_name));
    put(&mut e, "appendToName", os(&p.append_to_name));
    put(&mut e, "headerStructName", os(&p.header_struct_name));
    put(&mut e, "baseAddress", Some(V::N(p.base_address)));
    props_v(&mut e, &p.default_register_properties);
    if let Some(a) = &p.address_block {
        e.c.insert("addressBlock", a.iter().map(ab_v).collect());
    }
    if !p.interrupt.is_empty() {
        e.c.insert("interrupt", p.interrupt.iter().map(interrupt_v).collect());
    }
    if let Some(r) = &p.registers {
        e.c.insert("registers", r.iter().map(rc_v).collect());
    }
    e
}
pub fn peripheral_v(p: &Peripheral) -> El {
    arr(p, peripheral_info_v)
}
pub fn cpu_v(c: &Cpu) -> El {
    let mut e = El::new(K::Cpu).st("name", &c.name).st("revision", &c.revision);
    put(&mut e, "endian", kw(endian_s(c.endian)));
    put(&mut e, "mpuPresent", Some(V::B(c.mpu_present)));
    put(&mut e, "fpuPresent", Some(V::B(c.fpu_present)));
    put(&mut e, "fpuDP", ob(c.fpu_double_precision));
    put(&mut e, "dspPresent", ob(c.dsp_present));
    put(&mut e, "icachePresent", ob(c.icache_present));
    put(&mut e, "dcachePresent", ob(c.dcache_present));
    put(&mut e, "itcmPresent", ob(c.itcm_present));
    put(&mut e, "dtcmPresent", ob(c.dtcm_present));
    put(&mut e, "vtorPresent", ob(c.vtor_present));
    put(&mut e, "nvicPrioBits", on(Some(c.nvic_priority_bits)));
    put(&mut e, "vendorSystickConfig", Some(V::B(c.has_vendor_systick)));
    put(&mut e, "deviceNumInterrupts", on(c.device_num_interrupts));
    put(&mut e, "sauNumRegions", on(c.sau_num_regions));
    e
}
pub fn view(d: &Device) -> El {
    let mut e = El::new(K::Device)
        .st("@schemaVersion", &d.schema_version)
        .st("@xmlns:xs", &d.xmlns_xs)
        .st("@xs:noNamespaceSchemaLocation", &d.no_namespace_schema_location)
        .st("name", &d.name)
        .st("version", &d.version)
        .st("description", &d.description)
        .nu("addressUnitBits", d.address_unit_bits as u64)
        .nu("width", d.width as u64);
    put(&mut e, "vendor", os(&d.vendor));
    put(&mut e, "vendorID", os(&d.vendor_id));
    put(&mut e, "series", os(&d.series));
    put(&mut e, "licenseText", os(&d.license_text));
    put(&mut e, "headerSystemFilename", os(&d.header_system_filename));
    put(&mut e, "headerDefinitionsPrefix", os(&d.header_definitions_prefix));
    props_v(&mut e, &d.default_register_properties);
    if let Some(c) = &d.cpu {
        e.c.insert("cpu", vec![cpu_v(c)]);
    }
    e.c.insert("peripherals", d.peripherals.iter().map(peripheral_v).collect());
    e
}

// ---------------------------------------------------------------- model -> svd-rs, through builders

type R<X> = Result<X, SvdError>;
fn gs(e: &El, t: &str) -> Option<String> {
    e.s(t).map(|s| s.to_string())
}
fn gn(e: &El, t: &str) -> Option<u32> {
    e.n(t).map(|n| n as u32)
}
/// Sets `$b.$f(v)` only when the model has the value (mandatory setters take bare values).
macro_rules! set {
    ($b:ident, $f:ident, $v:expr) => {
        if let Some(v) = $v {
            $b = $b.$f(v);
        }
    };
}
/// Optional setters: called with Some(v) when present.
macro_rules! opt {
    ($b:ident, $f:ident, $v:expr) => {
        if let Some(v) = $v {
            $b = $b.$f(Some(v));
        }
    };
}
pub fn mk_props(e: &El) -> RegisterProperties {
    let mut p = RegisterProperties::new();
    opt!(p, size, gn(e, "size"));
    opt!(p, access, e.s("access").map(access_p));
    opt!(p, protection, e.s("protection").map(prot_p));
    opt!(p, reset_value, e.n("resetValue"));
    opt!(p, reset_mask, e.n("resetMask"));
    p
}
pub fn b_enumv(e: &El) -> svd_rs::enumeratedvalue::EnumeratedValueBuilder {
    let mut b = EnumeratedValue::builder();
    set!(b, name, gs(e, "name"));
    opt!(b, description, gs(e, "description"));
    opt!(b, value, e.n("value"));
    opt!(b, is_default, e.b("isDefault"));
    b
}
pub fn mk_enumv(e: &El, l: ValidateLevel) -> R<EnumeratedValue> {
    b_enumv(e).build(l)
}
pub fn b_enums(e: &El, l: ValidateLevel) -> R<svd_rs::enumeratedvalues::EnumeratedValuesBuilder> {
    let mut b = EnumeratedValues::builder();
    opt!(b, name, gs(e, "name"));
    opt!(b, usage, e.s("usage").map(usage_p));
    opt!(b, derived_from, gs(e, "@derivedFrom"));
    if let Some(v) = e.c.get("values") {
        b = b.values(v.iter().map(|x| mk_enumv(x, l)).collect::<R<Vec<_>>>()?);
    }
    Ok(b)
}
pub fn mk_enums(e: &El, l: ValidateLevel) -> R<EnumeratedValues> {
    b_enums(e, l)?.build(l)
}
pub fn b_dim(e: &El, l: ValidateLevel) -> R<DimElementBuilder> {
    let mut b = DimElement::builder();
    set!(b, dim, gn(e, "dim"));
    set!(b, dim_increment, gn(e, "dimIncrement"));
    if let Some(V::L(x)) = e.f.get("dimIndex") {
        b = b.dim_index(Some(x.clone()));
    }
    opt!(b, dim_name, gs(e, "dimName"));
    if let Some(a) = e.c.get("dimArrayIndex") {
        let a = &a[0];
        b = b.dim_array_index(Some(DimArrayIndex {
            header_enum_name: gs(a, "headerEnumName"),
            values: a.list("values").iter().map(|x| mk_enumv(x, l)).collect::<R<Vec<_>>>()?,
        }));
    }
    Ok(b)
}
pub fn mk_dim(e: &El, l: ValidateLevel) -> R<Option<DimElement>> {
    if !e.is_array() {
        return Ok(None);
    }
    b_dim(e, l)?.build(l).map(Some)
}
pub fn bit_range(o: u32, w: u32, t: u8) -> BitRange {
    BitRange {
        offset: o,
        width: w,
        range_type: match t {
            0 => bitrange::BitRangeType::BitRange,
            1 => bitrange::BitRangeType::OffsetWidth,
            _ => bitrange::BitRangeType::MsbLsb,
        },
    }
}
pub fn b_field(e: &El, l: ValidateLevel) -> R<svd_rs::field::FieldInfoBuilder> {
    let mut b = FieldInfo::builder();
    set!(b, name, gs(e, "name"));
    opt!(b, description, gs(e, "description"));
    if let Some(V::BR(o, w, t)) = e.f.get("bits") {
        b = b.bit_range(bit_range(*o, *w, *t));
    }
    opt!(b, access, e.s("access").map(access_p));
    opt!(b, modified_write_values, e.s("modifiedWriteValues").map(mwv_p));
    opt!(b, write_constraint, e.f.get("writeConstraint").map(wc_p));
    opt!(b, read_action, e.s("readAction").map(ra_p));
    if let Some(v) = e.c.get("enumeratedValues") {
        b = b.enumerated_values(v.iter().map(|x| mk_enums(x, l)).collect::<R<Vec<_>>>()?);
    }
    opt!(b, derived_from, gs(e, "@derivedFrom"));
    Ok(b)
}
pub fn mk_field(e: &El, l: ValidateLevel) -> R<Field> {
    Ok(b_field(e, l)?.build(l)?.maybe_array(mk_dim(e, l)?))
}
pub fn b_register(e: &El, l: ValidateLevel) -> R<RegisterInfoBuilder> {
    let mut b = RegisterInfo::builder();
    set!(b, name, gs(e, "name"));
    opt!(b, display_name, gs(e, "displayName"));
    opt!(b, description, gs(e, "description"));
    opt!(b, alternate_group, gs(e, "alternateGroup"));
    opt!(b, alternate_register, gs(e, "alternateRegister"));
    set!(b, address_offset, gn(e, "addressOffset"));
    b = b.properties(mk_props(e));
    opt!(b, datatype, e.s("dataType").map(dt_p));
    opt!(b, modified_write_values, e.s("modifiedWriteValues").map(mwv_p));
    opt!(b, write_constraint, e.f.get("writeConstraint").map(wc_p));
    opt!(b, read_action, e.s("readAction").map(ra_p));
    if let Some(v) = e.c.get("fields") {
        b = b.fields(Some(v.iter().map(|x| mk_field(x, l)).collect::<R<Vec<_>>>()?));
    }
    opt!(b, derived_from, gs(e, "@derivedFrom"));
    Ok(b)
}
pub fn mk_register(e: &El, l: ValidateLevel) -> R<Register> {
    Ok(b_register(e, l)?.build(l)?.maybe_array(mk_dim(e, l)?))
}
pub fn b_cluster(e: &El, l: ValidateLevel) -> R<svd_rs::cluster::ClusterInfoBuilder> {
    let mut b = ClusterInfo::builder();
    set!(b, name, gs(e, "name"));
    opt!(b, description, gs(e, "description"));
    opt!(b, alternate_cluster, gs(e, "alternateCluster"));
    opt!(b, header_struct_name, gs(e, "headerStructName"));
    set!(b, address_offset, gn(e, "addressOffset"));
    b = b.default_register_properties(mk_props(e));
    if let Some(v) = e.c.get("children") {
        b = b.children(v.iter().map(|x| mk_rc(x, l)).collect::<R<Vec<_>>>()?);
    }
    opt!(b, derived_from, gs(e, "@derivedFrom"));
    Ok(b)
}
pub fn mk_cluster(e: &El, l: ValidateLevel) -> R<Cluster> {
    Ok(b_cluster(e, l)?.build(l)?.maybe_array(mk_dim(e, l)?))
}
pub fn mk_rc(e: &El, l: ValidateLevel) -> R<RegisterCluster> {
    Ok(if e.k == K::Cluster { RegisterCluster::Cluster(mk_cluster(e, l)?) } else { RegisterCluster::Register(mk_register(e, l)?) })
}
pub fn b_interrupt(e: &El) -> svd_rs::interrupt::InterruptBuilder {
    let mut b = Interrupt::builder();
    set!(b, name, gs(e, "name"));
    opt!(b, description, gs(e, "description"));
    set!(b, value, gn(e, "value"));
    b
}
pub fn b_ab(e: &El) -> svd_rs::addressblock::AddressBlockBuilder {
    let mut b = AddressBlock::builder();
    set!(b, offset, gn(e, "offset"));
    set!(b, size, gn(e, "size"));
    set!(b, usage, e.s("usage").map(abu_p));
    opt!(b, protection, e.s("protection").map(prot_p));
    b
}
pub fn b_peripheral(e: &El, l: ValidateLevel) -> R<PeripheralInfoBuilder> {
    let mut b = PeripheralInfo::builder();
    set!(b, name, gs(e, "name"));
    opt!(b, display_name, gs(e, "displayName"));
    opt!(b, version, gs(e, "version"));
    opt!(b, description, gs(e, "description"));
    opt!(b, alternate_peripheral, gs(e, "alternatePeripheral"));
    opt!(b, group_name, gs(e, "groupName"));
    opt!(b, prepend_to_name, gs(e, "prependToName"));
    opt!(b, append_to_name, gs(e, "appendToName"));
    opt!(b, header_struct_name, gs(e, "headerStructName"));
    set!(b, base_address, e.n("baseAddress"));
    b = b.default_register_properties(mk_props(e));
    if let Some(v) = e.c.get("addressBlock") {
        b = b.address_block(Some(v.iter().map(|x| b_ab(x).build(l)).collect::<R<Vec<_>>>()?));
    }
    if let Some(v) = e.c.get("interrupt") {
        b = b.interrupt(Some(v.iter().map(|x| b_interrupt(x).build(l)).collect::<R<Vec<_>>>()?));
    }
    if let Some(v) = e.c.get("registers") {
        b = b.registers(Some(v.iter().map(|x| mk_rc(x, l)).collect::<R<Vec<_>>>()?));
    }
    opt!(b, derived_from, gs(e, "@derivedFrom"));
    Ok(b)
}
pub fn mk_peripheral(e: &El, l: ValidateLevel) -> R<Peripheral> {
    Ok(b_peripheral(e, l)?.build(l)?.maybe_array(mk_dim(e, l)?))
}
pub fn b_cpu(e: &El) -> svd_rs::cpu::CpuBuilder {
    let mut b = Cpu::builder();
    set!(b, name, gs(e, "name"));
    set!(b, revision, gs(e, "revision"));
    set!(b, endian, e.s("endian").map(endian_p));
    set!(b, mpu_present, e.b("mpuPresent"));
    set!(b, fpu_present, e.b("fpuPresent"));
    opt!(b, fpu_double_precision, e.b("fpuDP"));
    opt!(b, dsp_present, e.b("dspPresent"));
    opt!(b, icache_present, e.b("icachePresent"));
    opt!(b, dcache_present, e.b("dcachePresent"));
    opt!(b, itcm_present, e.b("itcmPresent"));
    opt!(b, dtcm_present, e.b("dtcmPresent"));
    opt!(b, vtor_present, e.b("vtorPresent"));
    set!(b, nvic_priority_bits, gn(e, "nvicPrioBits"));
    set!(b, has_vendor_systick, e.b("vendorSystickConfig"));
    opt!(b, device_num_interrupts, gn(e, "deviceNumInterrupts"));
    opt!(b, sau_num_regions, gn(e, "sauNumRegions"));
    b
}
pub fn b_device(e: &El, l: ValidateLevel) -> R<DeviceBuilder> {
    let mut b = Device::builder();
    opt!(b, vendor, gs(e, "vendor"));
    opt!(b, vendor_id, gs(e, "vendorID"));
    set!(b, name, gs(e, "name"));
    opt!(b, series, gs(e, "series"));
    set!(b, version, gs(e, "version"));
    set!(b, description, gs(e, "description"));
    opt!(b, license_text, gs(e, "licenseText"));
    if let Some(c) = e.c.get("cpu") {
        b = b.cpu(Some(b_cpu(&c[0]).build(l)?));
    }
    opt!(b, header_system_filename, gs(e, "headerSystemFilename"));
    opt!(b, header_definitions_prefix, gs(e, "headerDefinitionsPrefix"));
    set!(b, address_unit_bits, gn(e, "addressUnitBits"));
    set!(b, width, gn(e, "width"));
    b = b.default_register_properties(mk_props(e));
    if let Some(v) = e.c.get("peripherals") {
        b = b.peripherals(v.iter().map(|x| mk_peripheral(x, l)).collect::<R<Vec<_>>>()?);
    }
    set!(b, xmlns_xs, gs(e, "@xmlns:xs"));
    set!(b, no_namespace_schema_location, gs(e, "@xs:noNamespaceSchemaLocation"));
    set!(b, schema_version, gs(e, "@schemaVersion"));
    Ok(b)
}
pub fn build(e: &El, l: ValidateLevel) -> R<Device> {
    b_device(e, l)?.build(l)
}

pub const LEVELS: [ValidateLevel; 3] = [ValidateLevel::Disabled, ValidateLevel::Weak, ValidateLevel::Strict];
