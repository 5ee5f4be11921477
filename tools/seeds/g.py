SEEDS = [
 dict(id="c01-dim-one", property="C01",
  needs="an array with a dimension of 1 and no dimIndex",
  breaks="an array of one element is read as a single element named with the placeholder",
  edits=[("svd-parser/src/array.rs", """        Ok(MaybeArray::Array(info, array_info))""", """        if array_info.dim == 1 && array_info.dim_index.is_none() && tag != "register" {
            return Ok(MaybeArray::Single(info));
        }
        Ok(MaybeArray::Array(info, array_info))""")],
  demo='''fn main() {
    let d = parse(&reg("<field><dim>1</dim><dimIncrement>2</dimIncrement><name>F%s</name><bitRange>[1:0]</bitRange></field>"));
    assert!(d.peripherals[0].registers().next().unwrap().get_field("F%s").unwrap().is_array());
}'''),
 dict(id="c02-letters-reversed", property="C02",
  needs="a dimIndex of letters which runs backwards",
  breaks="parsing a reversed letter range panics",
  edits=[("svd-rs/src/dimelement.rs", """                        Some((start..=end).map(|c| char::from(c).to_string()).collect())""", """                        let mut v = Vec::with_capacity((end - start) as usize + 1);
                        v.extend((start..=end).map(|c| char::from(c).to_string()));
                        Some(v)""")],
  demo='''fn main() {
    let x = per("<register><dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>C-A</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register>");
    assert!(parser::parse_with_config(&x, &cfg()).is_err());
}'''),
 dict(id="c03-underscore", property="C03",
  needs="a number with underscores between its digits",
  breaks="underscores in decimal numbers are skipped instead of refused",
  edits=[("svd-parser/src/types.rs", "text.parse::<u64>()", "text.replace('_', \"\").parse::<u64>()")],
  demo='''fn main() {
    assert!(parser::parse_with_config(&dev("<peripheral><name>P</name><baseAddress>1_000</baseAddress></peripheral>"), &cfg()).is_err());
}'''),
 dict(id="c05-bracket-name", property="C05",
  needs="strict validation of an array of fields named with brackets",
  breaks="the strict level does not check the name of a field array",
  edits=[("svd-rs/src/field.rs", """                super::check_dimable_name(&self.name, "name")?;""", """                if !self.name.ends_with("[%s]") {
                    super::check_dimable_name(&self.name, "name")?;
                }""")],
  demo='''fn main() {
    let x = reg("<field><dim>2</dim><dimIncrement>2</dimIncrement><name>F-x[%s]</name><bitRange>[1:0]</bitRange></field>");
    let d = parse(&x);
    let f = d.peripherals[0].registers().next().unwrap().fields().next().unwrap().clone();
    assert!(f.validate_all(ValidateLevel::Strict).is_err());
}'''),
 dict(id="c06-field-build", property="C06",
  needs="a derived field built at a level which it breaks",
  breaks="the field builder does not validate a field with a reference",
  edits=[("svd-rs/src/field.rs", """        field.validate(lvl)?;
        Ok(field)""", """        if field.derived_from.is_none() || !field.enumerated_values.is_empty() {
            field.validate(lvl)?;
        }
        Ok(field)""")],
  demo='''fn main() {
    let f = |l| svd::FieldInfo::builder().name("F-1".into()).bit_offset(0).bit_width(0).derived_from(Some("G".into())).build(l);
    assert!(f(ValidateLevel::Disabled).is_ok());
    assert!(f(ValidateLevel::Weak).is_err());
}'''),
 dict(id="c09-same-interrupt", property="C09",
  needs="a peripheral which lists the same interrupt twice in a row",
  breaks="an interrupt which equals the one before is not written",
  edits=[("svd-encoder/src/peripheral.rs", """            .interrupt
            .iter()
            .map(""", """            .interrupt
            .iter()
            .enumerate()
            .filter(|(i, v)| *i == 0 || self.interrupt[i - 1] != **v)
            .map(|(_, v)| v)
            .map(""")],
  demo='''fn main() {
    let i = "<interrupt><name>I</name><value>1</value></interrupt>";
    let d = parse(&dev(&format!("<peripheral><name>P</name><baseAddress>0</baseAddress>{i}{i}</peripheral>")));
    assert_eq!(parse(&encoder::encode(&d).unwrap()).peripherals[0].interrupt.len(), d.peripherals[0].interrupt.len());
}'''),
 dict(id="c10-dec-signed", property="C10",
  needs="a number above 2^63 in decimal notation",
  breaks="decimal numbers of 64 bits are written signed",
  edits=[("svd-encoder/src/config.rs", """        NumberFormat::Dec => format!("{}", value),""", """        NumberFormat::Dec => match i64::try_from(value.into()) {
            Ok(_) => format!("{}", value),
            Err(_) => format!("{}", value.into() as i64),
        },""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>P</name><baseAddress>0xFFFFFFFF00000000</baseAddress></peripheral>"));
    let c = encoder::Config::default().peripheral_base_address(encoder::NumberFormat::Dec);
    assert_eq!(parse(&encoder::encode_with_config(&d, &c).unwrap()), d);
}'''),
 dict(id="c12-interrupt-description", property="C12",
  needs="the case option for interrupts and an interrupt without a description",
  breaks="the name of an interrupt without a description keeps its case",
  edits=[("svd-encoder/src/interrupt.rs", "change_case(&self.name, config.interrupt_name),", "change_case(&self.name, config.interrupt_name.filter(|_| self.description.is_some())),")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>P</name><baseAddress>0</baseAddress><interrupt><name>my_irq</name><value>1</value></interrupt></peripheral>"));
    let mut c = encoder::Config::default();
    c.update("interrupt_name", "Constant");
    assert!(encoder::encode_with_config(&d, &c).unwrap().contains("<name>MY_IRQ</name>"));
}'''),
 dict(id="c14-enum-position", property="C14",
  needs="an array enumeration whose values are not listed in the order of the indices",
  breaks="descriptions of array elements come from the value at the same place instead of the value of the index",
  edits=[("svd-rs/src/array.rs", """    let description = info.description();
    dim.indexes().map(move |i| {
        dim.dim_array_index
            .as_ref()
            .and_then(|dai| {
                dai.values
                    .iter()
                    .find(|e| e.value.map(|v| v.to_string().as_str() == i.deref()) == Some(true))
            })""", """    let description = info.description();
    dim.indexes().enumerate().map(move |(k, i)| {
        dim.dim_array_index
            .as_ref()
            .and_then(|dai| {
                dai.values
                    .get(k)
                    .filter(|_| dai.values.iter().any(|e| e.value.map(|v| v.to_string()).as_deref() == Some(i.deref())))
            })""")],
  demo='''fn main() {
    let v = |n: &str, i| format!("<enumeratedValue><name>{n}</name><description>d {n}</description><value>{i}</value></enumeratedValue>");
    let d = expanded(&per(&format!("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimArrayIndex>{}{}</dimArrayIndex><name>R[%s]</name><addressOffset>0</addressOffset></register>", v("B", 1), v("A", 0))));
    let r = d.peripherals[0].registers().next().unwrap();
    assert_eq!(r.description.as_deref(), Some(format!("d {}", r.name).as_str()));
}'''),
 dict(id="c16-empty-fields", property="C16",
  needs="a derived register which states an empty list of fields",
  breaks="a derived register with an empty list of fields takes over the fields",
  edits=[("svd-rs/src/derive_from.rs", "        derived.fields = derived.fields.or_else(|| other.fields.clone());", "        derived.fields = derived\n            .fields\n            .filter(|f| !f.is_empty())\n            .or_else(|| other.fields.clone());")],
  demo='''fn main() {
    let d = expanded(&per("<register><name>A</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>[1:0]</bitRange></field></fields></register><register derivedFrom=\\"A\\"><name>B</name><addressOffset>4</addressOffset><fields></fields></register>"));
    assert_eq!(d.peripherals[0].get_register("B").unwrap().fields().count(), 0);
}'''),
 dict(id="c18-access-array", property="C18",
  needs="a cluster which states a protection but no access, above a register without either",
  breaks="below a cluster with a protection of its own the access of the enclosing elements is not inherited",
  edits=[("svd-parser/src/expand.rs", """                let default = c.default_register_properties.derive_from(default);
                expand_properties_registers(&mut c.children, &default);""", """                let mut default = c.default_register_properties.derive_from(default);
                if c.default_register_properties.protection.is_some() {
                    default.access = c.default_register_properties.access;
                }
                expand_properties_registers(&mut c.children, &default);""")],
  demo='''fn main() {
    let mut d = parse(&dev("<peripheral><name>P</name><baseAddress>0</baseAddress><access>read-only</access><registers><cluster><name>C</name><addressOffset>0</addressOffset><protection>s</protection><register><name>R</name><addressOffset>0</addressOffset></register></cluster></registers></peripheral>"));
    parser::expand_properties(&mut d);
    assert_eq!(d.peripherals[0].all_registers().next().unwrap().properties.access, Some(svd::Access::ReadOnly));
}'''),
 dict(id="c20-access-default", property="C20",
  needs="a field which states read-write access",
  breaks="read-write access of a field is left out of the serialised form",
  edits=[("svd-rs/src/field.rs", """        serde(default, skip_serializing_if = "Option::is_none")
    )]
    pub access: Option<Access>,""", """        serde(
            default,
            skip_serializing_if = "is_default_access"
        )
    )]
    pub access: Option<Access>,"""), ("svd-rs/src/field.rs", "/// Builder for [`FieldInfo`]", """#[cfg(feature = "serde")]
fn is_default_access(a: &Option<Access>) -> bool {
    a.map_or(true, |a| a == Access::default())
}

/// Builder for [`FieldInfo`]""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><bitRange>[1:0]</bitRange><access>read-write</access></field>"));
    let b: svd::Device = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
    assert_eq!(d, b);
}'''),
 dict(id="c22-value-default", property="C22",
  needs="a value set on an enumerated value which states whether it is the default",
  breaks="setting the value of an enumerated value drops isDefault",
  edits=[("svd-rs/src/enumeratedvalue.rs", """        if builder.value.is_some() {
            self.value = builder.value;
        }""", """        if builder.value.is_some() {
            self.value = builder.value;
            self.is_default = None;
        }""")],
  demo='''fn main() {
    let mut v = svd::EnumeratedValue::builder().name("V".into()).is_default(Some(true)).build(ValidateLevel::Weak).unwrap();
    v.modify_from(svd::EnumeratedValue::builder().value(Some(1)), ValidateLevel::Weak).unwrap();
    assert_eq!(v.is_default, Some(true));
}'''),
 dict(id="c23-mut-array-register", property="C23",
  needs="a cluster with an array of registers looked up mutably",
  breaks="the mutable lookup of a register in a cluster finds single registers only",
  edits=[("svd-rs/src/cluster.rs", "        self.registers_mut().find(|f| f.name == name)", "        self.registers_mut()\n            .find(|f| f.is_single() && f.name == name)")],
  demo='''fn main() {
    let mut d = parse(&per("<cluster><name>C</name><addressOffset>0</addressOffset><register><dim>2</dim><dimIncrement>4</dimIncrement><name>R%s</name><addressOffset>0</addressOffset></register></cluster>"));
    assert!(d.peripherals[0].get_mut_cluster("C").unwrap().get_mut_register("R%s").is_some());
}'''),
 dict(id="c26-enum-suffix", property="C26",
  needs="an enumerated values path compared with a text whose last part begins with the name",
  breaks="the comparison of the path of a value set with a text looks at the beginning of the last part only",
  edits=[("svd-parser/src/expand.rs", "self.name == evs && &self.field == field", "evs.starts_with(&self.name) && &self.field == field")],
  demo='''fn main() {
    use svd_parser::expand::*;
    let p = BlockPath::new("P").new_register("R").new_field("F").new_enum("E");
    assert!(p == *"P.R.F.E");
    assert!(p != *"P.R.F.E2");
}'''),
 dict(id="c27-mask-with-value", property="C27",
  needs="an element with a size and a reset value but no mask overlaid on one with a reset mask",
  breaks="a reset mask is taken over only when the reset value is",
  edits=[("svd-rs/src/derive_from.rs", "        derived.reset_value = derived.reset_value.or(other.reset_value);\n        derived.reset_mask = derived.reset_mask.or(other.reset_mask);", "        if derived.reset_value.is_none() || derived.size.is_none() {\n            derived.reset_mask = derived.reset_mask.or(other.reset_mask);\n        }\n        derived.reset_value = derived.reset_value.or(other.reset_value);")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let mut a = svd::RegisterProperties::default(); a.size = Some(8); a.reset_value = Some(1);
    let mut b = svd::RegisterProperties::default(); b.reset_mask = Some(3);
    assert_eq!(a.derive_from(&b).reset_mask.or(a.reset_mask), Some(3));
}'''),
 dict(id="c04-one-bit-lsb", property="C04",
  needs="a field of one bit given as lsb and msb",
  breaks="a field of one bit given as lsb and msb is kept as bit range",
  edits=[("svd-parser/src/bitrange.rs", """            offset: start,
            width,
            range_type,""", """            offset: start,
            width,
            range_type: if width == 1 { BitRangeType::BitRange } else { range_type },""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><lsb>3</lsb><msb>3</msb></field>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().fields().next().unwrap().bit_range.range_type, svd::BitRangeType::MsbLsb);
}'''),
 dict(id="c28-blank-child", property="C28",
  needs="two children of the name the first of which holds a line break only",
  breaks="helpers for children skip a child which holds a line break only",
  edits=[("svd-parser/src/elementext.rs", "        self.children().find(|&c| c.has_tag_name(k.as_ref()))", "        self.children()\n            .filter(|c| c.first_child().map_or(true, |f| !f.is_text() || f.text() != Some(\"\\n\")))\n            .find(|&c| c.has_tag_name(k.as_ref()))")],
  demo='''fn main() {
    use svd_parser::elementext::ElementExt;
    let x = "<r><a>\\n</a><a>1</a></r>";
    let t = roxmltree::Document::parse(x).unwrap();
    assert!(t.root_element().get_child_u32("a").is_err());
}'''),
 dict(id="c15-cluster-flat-desc", property="C15",
  needs="a cluster with a register of several fields which states a display name",
  breaks="flattening a cluster prefixes the display name of its registers too when they have fields",
  edits=[("svd-parser/src/expand.rs", """            RegisterCluster::Register(mut r) => {
                r.name = format!("{}_{}", c.name, r.name);""", """            RegisterCluster::Register(mut r) => {
                if r.fields.as_ref().map_or(false, |f| f.len() > 1) {
                    r.display_name = r.display_name.take().map(|d| format!("{}_{}", c.name, d));
                }
                r.name = format!("{}_{}", c.name, r.name);""")],
  demo='''fn main() {
    let d = expanded(&per("<cluster><name>C</name><addressOffset>0</addressOffset><register><name>R</name><displayName>D</displayName><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>[1:0]</bitRange></field><field><name>G</name><bitRange>[2:2]</bitRange></field></fields></register></cluster>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().display_name.as_deref(), Some("D"));
}'''),
 dict(id="c17-empty-ref", property="C17",
  needs="a reference of a field which is the empty text",
  breaks="an empty reference of a field is ignored",
  edits=[("svd-parser/src/expand.rs", """    let dpath = f.derived_from.take();
    if let Some(dpath) = dpath {""", """    let dpath = f.derived_from.take();
    if let Some(dpath) = dpath.filter(|d| !d.is_empty()) {""")],
  demo='''fn main() {
    let d = parse(&reg("<field derivedFrom=\\"\\"><name>F</name><bitRange>[1:0]</bitRange></field>"));
    assert!(parser::expand(&d).is_err());
}'''),
 dict(id="c11-only-derived", property="C11",
  needs="sorting with derived last where all elements of a list are derived",
  breaks="derived registers are not sorted when there are no others",
  edits=[("svd-encoder/src/peripheral.rs", "            sort_register_cluster(&mut derived_refs, sorting);", "            if !common_refs.is_empty() {\n                sort_register_cluster(&mut derived_refs, sorting);\n            }")],
  demo='''fn main() {
    let d = parse(&per("<register derivedFrom=\\"Q.A\\"><name>B</name><addressOffset>8</addressOffset></register><register derivedFrom=\\"Q.A\\"><name>A</name><addressOffset>4</addressOffset></register>"));
    let mut c = encoder::Config::default();
    c.update("register_cluster_sorting", "Name,DerivedLast");
    let x = encoder::encode_with_config(&d, &c).unwrap();
    assert!(x.find("<name>A</name>") < x.find("<name>B</name>"), "{x}");
}'''),
 dict(id="c19-option-skipped", property="C19",
  needs="the option for properties on a device which states none itself",
  breaks="the option for properties does nothing when the device itself states no properties",
  edits=[("svd-parser/src/lib.rs", "    if config.expand_properties {", "    if config.expand_properties && device.default_register_properties != Default::default() {")],
  demo='''fn main() {
    let x = dev("<peripheral><name>P</name><baseAddress>0</baseAddress><size>16</size><registers><register><name>R</name><addressOffset>0</addressOffset></register></registers></peripheral>");
    let d = parser::parse_with_config(&x, &cfg().expand_properties(true)).unwrap();
    assert_eq!(d.peripherals[0].all_registers().next().unwrap().properties.size, Some(16));
}'''),
]
