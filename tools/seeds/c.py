SEEDS = [
 dict(id="c01-interrupt-twice", property="C01",
  needs="a peripheral listing two interrupts with the same number",
  breaks="only the first interrupt of a number is read",
  edits=[("svd-parser/src/peripheral.rs", """                    .map(|i| Interrupt::parse(&i, config))
                    .collect();
                Some(interrupt?)""", """                    .map(|i| Interrupt::parse(&i, config))
                    .collect();
                let mut interrupt = interrupt?;
                interrupt.dedup_by_key(|i| i.value);
                Some(interrupt)""")],
  demo='''fn main() {
    let i = |n: &str| format!("<interrupt><name>{n}</name><value>7</value></interrupt>");
    let d = parse(&dev(&format!("<peripheral><name>P</name><baseAddress>0</baseAddress>{}{}</peripheral>", i("A"), i("B"))));
    assert_eq!(d.peripherals[0].interrupt.len(), 2);
}'''),
 dict(id="c02-error-name-utf8", property="C02",
  needs="an error in an element whose name is longer than 64 bytes and has a multi-byte character across the limit",
  breaks="composing the error message panics when it shortens the name inside a character",
  edits=[("svd-parser/src/lib.rs", """        .find(|t| t.has_tag_name("name"))
            .and_then(|t| t.text())""", """        .find(|t| t.has_tag_name("name"))
            .and_then(|t| t.text())
            .map(|s| if s.len() > 64 { &s[..64] } else { s })""")],
  demo='''fn main() {
    let n = format!("{}\\u{e9}", "a".repeat(63));
    let x = reg(&format!("<field><name>{n}</name><bitRange>[x]</bitRange></field>"));
    assert!(parser::parse_with_config(&x, &cfg()).is_err());
}'''),
 dict(id="c03-long-binary", property="C03",
  needs="a binary literal of exactly 64 digits in the # notation",
  breaks="a # literal with 64 digits is refused",
  edits=[("svd-parser/src/types.rs", """            u64::from_str_radix(
                &str::replace(&text.to_lowercase()["#".len()..], "x", "0"),
                2,
            )""", """            i64::from_str_radix(
                &str::replace(&text.to_lowercase()["#".len()..], "x", "0"),
                2,
            )
            .map(|v| v as u64)""")],
  demo='''fn main() {
    let x = dev(&format!("<peripheral><name>P</name><baseAddress>#{}</baseAddress></peripheral>", "1".repeat(64)));
    assert_eq!(parse(&x).peripherals[0].base_address, u64::MAX);
}'''),
 dict(id="c05-derived-cluster-children", property="C05",
  needs="a cluster with a reference and children of its own, one of which is invalid, validated as a whole",
  breaks="children of a cluster with a reference are not validated",
  edits=[("svd-rs/src/cluster.rs", """        self.default_register_properties.validate(lvl)?;
        for r in self.registers() {
            r.validate_all(lvl)?;
        }""", """        self.default_register_properties.validate(lvl)?;
        if self.derived_from.is_some() {
            return self.validate(lvl);
        }
        for r in self.registers() {
            r.validate_all(lvl)?;
        }""")],
  demo='''fn main() {
    let d = parse(&per("<cluster><name>A</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster><cluster derivedFrom='A'><name>B</name><addressOffset>8</addressOffset><register><name>R</name><addressOffset>0</addressOffset><size>8</size><resetValue>0x100</resetValue></register></cluster>"));
    assert!(d.validate_all(ValidateLevel::Weak).is_err());
}'''),
 dict(id="c06-builder-defaults", property="C06",
  needs="a cluster built through its builder with default register properties which break the strict level only",
  breaks="the cluster builder checks its default register properties at the weak level",
  edits=[("svd-rs/src/cluster.rs", """            default_register_properties: self.default_register_properties.build(lvl)?,""", """            default_register_properties: if lvl.is_disabled() {
                self.default_register_properties
            } else {
                self.default_register_properties.build(ValidateLevel::Weak)?
            },""")],
  demo='''fn main() {
    let b = svd::ClusterInfo::builder().name("C".into()).address_offset(0).default_register_properties(svd::RegisterProperties::new().reset_value(Some(2)).reset_mask(Some(1))).children(vec![svd::RegisterInfo::builder().name("R".into()).address_offset(0).build(ValidateLevel::Disabled).unwrap().single().into()]);
    assert!(b.build(ValidateLevel::Strict).is_err());
}'''),
 dict(id="c07-array-position", property="C07",
  needs="an array of registers whose index list has the wrong count, behind other registers",
  breaks="an array with a wrong index count is reported at its parent element",
  edits=[("svd-parser/src/array.rs", """                    array_info.dim as usize,
                    indexes.len(),
                )
                .at(tree.id()));""", """                    array_info.dim as usize,
                    indexes.len(),
                )
                .at(tree
                    .ancestors()
                    .find(|n| n.has_tag_name("peripheral"))
                    .unwrap_or(*tree)
                    .id()));""")],
  demo='''fn main() {
    let x = per("<register><name>A</name><addressOffset>0</addressOffset></register>\\n<register><name>B</name><addressOffset>0</addressOffset><fields>\\n<field><dim>2</dim><dimIncrement>1</dimIncrement><dimIndex>1,2,3</dimIndex><name>F%s</name><bitRange>[0:0]</bitRange></field></fields></register>");
    let e = format!("{:?}", parser::parse_with_config(&x, &cfg()).unwrap_err());
    assert!(e.contains("F%s") && e.contains("`B`"), "{e}");
}'''),
 dict(id="c08-ignore-array-index", property="C08",
  needs="enumerations ignored, an array with a list of named indices (dimArrayIndex)",
  breaks="ignoring enumerations drops the dimArrayIndex of arrays as well",
  edits=[("svd-parser/src/dimelement.rs", """            .dim_array_index(optional::<DimArrayIndex>("dimArrayIndex", tree, config)?)""", """            .dim_array_index(
                optional::<DimArrayIndex>("dimArrayIndex", tree, config)?
                    .filter(|_| !config.ignore_enums),
            )""")],
  demo='''fn main() {
    let x = per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimArrayIndex><enumeratedValue><name>N</name><value>0</value></enumeratedValue></dimArrayIndex><name>A%s</name><addressOffset>0</addressOffset></register>");
    let a = parse(&x);
    let b = parser::parse_with_config(&x, &cfg().ignore_enums(true)).unwrap();
    assert!(a == b);
}'''),
 dict(id="c09-display-equal", property="C09",
  needs="a register whose display name equals its name",
  breaks="a display name equal to the name is not written",
  edits=[("svd-encoder/src/register.rs", """        if let Some(v) = &self.display_name {""", """        if let Some(v) = self.display_name.as_ref().filter(|v| **v != self.name) {""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><displayName>R</displayName><addressOffset>0</addressOffset></register>"));
    assert!(parse(&encoder::encode(&d).unwrap()) == d);
}'''),
 dict(id="c10-one-bit", property="C10",
  needs="a one bit field written as bitRange, encoded with the lsb and msb notation chosen",
  breaks="a one bit field in bitRange notation keeps it when lsb and msb is chosen",
  edits=[("svd-encoder/src/bitrange.rs", """        (Some(FieldBitRangeFormat(BitRangeType::BitRange)), _) | (None, BitRangeType::BitRange) => {
""", """        (Some(FieldBitRangeFormat(BitRangeType::MsbLsb)), BitRangeType::BitRange)
            if br.width == 1 =>
        {
            Ok(vec![new_node("bitRange", br.bit_range())])
        }
        (Some(FieldBitRangeFormat(BitRangeType::BitRange)), _) | (None, BitRangeType::BitRange) => {
""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>A</name><bitRange>[3:3]</bitRange></field>"));
    let mut c = encoder::Config::default();
    c.update("field_bit_range", "MsbLsb");
    let s = encoder::encode_with_config(&d, &c).unwrap();
    assert!(s.contains("<msb>3</msb>"), "{s}");
}'''),
 dict(id="c11-unstable", property="C11",
  needs="more than twenty fields, several at one bit position, sorted by offset",
  breaks="fields at one position change their order when sorted",
  edits=[("svd-encoder/src/register.rs", """            Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),""", """            Sorting::Offset => refs.sort_unstable_by_key(|f| f.bit_offset()),""")],
  demo='''fn main() {
    let f: String = (0..60).map(|i| format!("<field><name>F{i}</name><bitRange>[{b}:{b}]</bitRange></field>", b = (i * 7) % 3)).collect();
    let d = parse(&reg(&f));
    let s = encoder::encode_with_config(&d, &encoder::Config::default().field_sorting(encoder::DerivableSorting::Unchanged(Some(encoder::Sorting::Offset)))).unwrap();
    let e = parse(&s);
    let names = |d: &svd::Device| d.peripherals[0].registers().next().unwrap().fields().map(|f| (f.bit_offset(), f.name.clone())).collect::<Vec<_>>();
    let mut want = names(&d);
    want.sort_by_key(|w| w.0);
    assert_eq!(names(&e), want);
}'''),
 dict(id="c11-derived-peripheral-array", property="C11",
  needs="derived peripherals last, with an array of peripherals which has a reference",
  breaks="arrays of peripherals with a reference are not moved behind the others",
  edits=[("svd-encoder/src/device.rs", """                .filter(|p| p.derived_from.is_none())""", """                .filter(|p| p.derived_from.is_none() || p.is_array())"""),
         ("svd-encoder/src/device.rs", """                .filter(|p| p.derived_from.is_some())""", """                .filter(|p| p.derived_from.is_some() && p.is_single())""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral derivedFrom='B'><dim>2</dim><dimIncrement>16</dimIncrement><name>A%s</name><baseAddress>0</baseAddress></peripheral><peripheral><name>B</name><baseAddress>64</baseAddress></peripheral>"));
    let s = encoder::encode_with_config(&d, &encoder::Config::default().peripheral_sorting(encoder::DerivableSorting::DeriveLast(None))).unwrap();
    assert_eq!(parse(&s).peripherals[0].name, "B");
}'''),
 dict(id="c13-derived-last", property="C13",
  needs="field_sorting set by its name to a DeriveLast order",
  breaks="field_sorting set by name to DeriveLast also changes the sorting of peripherals",
  edits=[("svd-encoder/src/config.rs", """            "field_sorting" => self.field_sorting = value.parse().unwrap(),""", """            "field_sorting" => {
                let sorting: DerivableSorting = value.parse().unwrap();
                if let DerivableSorting::DeriveLast(_) = sorting {
                    self.peripheral_sorting = sorting;
                }
                self.field_sorting = sorting;
            }""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral derivedFrom='B'><name>A</name><baseAddress>0</baseAddress></peripheral><peripheral><name>B</name><baseAddress>64</baseAddress></peripheral>"));
    let mut c = encoder::Config::default();
    c.update("field_sorting", "DerivedLast");
    assert_eq!(encoder::encode_with_config(&d, &c).unwrap(), encoder::encode(&d).unwrap());
}'''),
 dict(id="c14-index-u8", property="C14",
  needs="an array of more than 256 elements without an index list",
  breaks="default indices start again at 0 after 256 elements",
  edits=[("svd-rs/src/dimelement.rs", """            Some(i.to_string().into())""", """            Some((i as u8).to_string().into())""")],
  demo='''fn main() {
    let d = expanded(&per("<register><dim>300</dim><dimIncrement>4</dimIncrement><name>A%s</name><addressOffset>0</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().last().unwrap().name, "A299");
}'''),
 dict(id="c14-display-bracket", property="C14",
  needs="an array of registers with a display name containing [%s]",
  breaks="the display name of an element keeps the brackets around the index",
  edits=[("svd-rs/src/register.rs", """.map(|d| d.replace("[%s]", &idx).replace("%s", &idx));""", """.map(|d| d.replace("%s", &idx));""")],
  demo='''fn main() {
    let d = expanded(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><name>A%s</name><displayName>A[%s]</displayName><addressOffset>0</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().display_name.as_deref(), Some("A0"));
}'''),
 dict(id="c15-peripheral-interrupts", property="C15",
  needs="an array of peripherals with an interrupt which has no description, expanded",
  breaks="only the first element of a peripheral array keeps interrupts without a description",
  edits=[("svd-rs/src/peripheral.rs", """            info.base_address = base_address;
            info""", """            if info.base_address != base_address {
                info.interrupt.retain(|i| i.description.is_some());
            }
            info.base_address = base_address;
            info""")],
  demo='''fn main() {
    let d = expanded(&dev("<peripheral><dim>2</dim><dimIncrement>16</dimIncrement><name>A%s</name><baseAddress>0</baseAddress><interrupt><name>I</name><value>1</value></interrupt></peripheral>"));
    assert_eq!(d.peripherals[1].interrupt.len(), 1);
}'''),
 dict(id="c27-header-struct", property="C27",
  needs="a cluster with children of its own deriving from one with a header struct name",
  breaks="a derived cluster which states its own children does not get the header struct name",
  edits=[("svd-rs/src/derive_from.rs", """        derived.header_struct_name = derived
            .header_struct_name
            .or_else(|| other.header_struct_name.clone());
        if derived.children.is_empty() {
            derived.children = other.children.clone();
        }""", """        if derived.children.is_empty() {
            derived.children = other.children.clone();
            derived.header_struct_name = derived
                .header_struct_name
                .or_else(|| other.header_struct_name.clone());
        }""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let d = parse(&per("<cluster><name>A</name><headerStructName>H</headerStructName><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster><cluster><name>B</name><addressOffset>0</addressOffset><register><name>S</name><addressOffset>0</addressOffset></register></cluster>"));
    let c: Vec<_> = d.peripherals[0].clusters().collect();
    assert_eq!(c[1].derive_from(c[0]).header_struct_name.as_deref(), Some("H"));
}'''),
 dict(id="c17-prefix-match", property="C17",
  needs="a peripheral with a reference of two parts, the first of which is a peripheral",
  breaks="further parts of a peripheral reference are ignored",
  edits=[("svd-parser/src/expand.rs", """    let derpath = BlockPath::new(dpath);""", """    let derpath = BlockPath::new(dpath.split('.').next().unwrap_or(dpath));""")],
  demo='''fn main() {
    let x = dev("<peripheral><name>A</name><baseAddress>0</baseAddress></peripheral><peripheral derivedFrom='A.X'><name>B</name><baseAddress>0</baseAddress></peripheral>");
    assert!(parser::parse_with_config(&x, &cfg().expand(true)).is_err());
}'''),
 dict(id="c18-derived-cluster-flag", property="C18",
  needs="a register after a derived cluster in a list, with properties expanded",
  breaks="registers behind a derived cluster get no properties",
  edits=[("svd-parser/src/expand.rs", """                if c.derived_from.is_some() {
                    continue;
                }
                let default = c.default_register_properties""", """                if c.derived_from.is_some() {
                    break;
                }
                let default = c.default_register_properties""")],
  demo='''fn main() {
    let x = dev("<peripheral><name>P</name><baseAddress>0</baseAddress><size>16</size><registers><cluster><name>A</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster><cluster derivedFrom='A'><name>B</name><addressOffset>8</addressOffset></cluster><register><name>Z</name><addressOffset>64</addressOffset></register></registers></peripheral>");
    let mut d = parse(&x);
    parser::expand_properties(&mut d);
    assert_eq!(d.peripherals[0].registers().last().unwrap().properties.size, Some(16));
}'''),
 dict(id="c19-option-order", property="C19",
  needs="both expand options, with a derived register whose base inherits its size from the peripheral",
  breaks="with both options the properties are expanded after the references",
  edits=[("svd-parser/src/lib.rs", """    #[cfg(feature = "expand")]
    if config.expand_properties {
        expand::expand_properties(&mut device);
    }

    #[cfg(feature = "expand")]
    if config.expand {
        device = expand::expand(&device)?;
    }""", """    #[cfg(feature = "expand")]
    if config.expand {
        device = expand::expand(&device)?;
    }

    #[cfg(feature = "expand")]
    if config.expand_properties {
        expand::expand_properties(&mut device);
    }""")],
  demo='''fn main() {
    let x = dev("<peripheral><name>A</name><baseAddress>0</baseAddress><registers><cluster><name>C</name><size>8</size><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster></registers></peripheral>");
    let d = parser::parse_with_config(&x, &cfg().expand(true).expand_properties(true)).unwrap();
    assert_eq!(d.peripherals[0].registers().next().unwrap().properties.size, Some(8));
}'''),
 dict(id="c20-sau-zero", property="C20",
  needs="a cpu with zero SAU regions, serialised",
  breaks="sauNumRegions 0 is left out of the serialised form",
  edits=[("svd-rs/src/cpu.rs", """    /// Indicate the amount of regions in the Security Attribution Unit (SAU)
    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "Option::is_none")
    )]""", """    /// Indicate the amount of regions in the Security Attribution Unit (SAU)
    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "no_regions")
    )]"""), ("svd-rs/src/cpu.rs", """impl Cpu {
    /// Make a builder""", """#[cfg(feature = "serde")]
fn no_regions(n: &Option<u32>) -> bool {
    n.unwrap_or(0) == 0
}

impl Cpu {
    /// Make a builder""")],
  demo='''fn main() {
    let c = svd::Cpu::builder().name("CM33".into()).revision("r0".into()).endian(svd::Endian::Little).mpu_present(false).fpu_present(false).nvic_priority_bits(2).has_vendor_systick(false).sau_num_regions(Some(0)).build(ValidateLevel::Disabled).unwrap();
    let s = serde_json::to_string(&c).unwrap();
    let d: svd::Cpu = serde_json::from_str(&s).unwrap();
    assert!(c == d);
}'''),
 dict(id="c21-interrupt-description", property="C21",
  needs="an interrupt builder whose description is set and then set to nothing",
  breaks="a description set to nothing leaves the one set before",
  edits=[("svd-rs/src/interrupt.rs", """    pub fn description(mut self, value: Option<String>) -> Self {
        self.description = value;
        self""", """    pub fn description(mut self, value: Option<String>) -> Self {
        self.description = value.or(self.description);
        self""")],
  demo='''fn main() {
    let i = svd::Interrupt::builder().name("I".into()).value(1).description(Some("a".into())).description(None).build(ValidateLevel::Disabled).unwrap();
    assert_eq!(i.description, None);
}'''),
 dict(id="c22-interrupts-extend", property="C22",
  needs="a modifier with interrupts applied to a peripheral which already has some",
  breaks="new interrupts are added to the existing ones",
  edits=[("svd-rs/src/peripheral.rs", """            self.interrupt = interrupt;
        }
        if builder.derived_from""", """            let new = interrupt.into_iter().filter(|i| !self.interrupt.contains(i));
            let new = new.collect::<Vec<_>>();
            self.interrupt.extend(new);
        }
        if builder.derived_from""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>A</name><baseAddress>0</baseAddress><interrupt><name>I</name><value>1</value></interrupt></peripheral>"));
    let mut p = (*d.peripherals[0]).clone();
    p.modify_from(svd::PeripheralInfo::builder().interrupt(Some(vec![])), ValidateLevel::Disabled).unwrap();
    assert!(p.interrupt.is_empty());
}'''),
 dict(id="c23-clusters-mut", property="C23",
  needs="a cluster without children (as one with a reference), walked mutably",
  breaks="the mutable walk over clusters skips empty clusters",
  edits=[("svd-rs/src/registercluster.rs", """            Some(RegisterCluster::Cluster(c)) => Some(c),
            _ => self.next(),
        }
    }
}

/// Iterator over all registers""", """            Some(RegisterCluster::Cluster(c)) if !c.children.is_empty() => Some(c),
            _ => self.next(),
        }
    }
}

/// Iterator over all registers""")],
  demo='''fn main() {
    let mut d = parse(&per("<cluster derivedFrom='B'><name>A</name><addressOffset>0</addressOffset></cluster>"));
    assert_eq!(d.peripherals[0].clusters_mut().count(), 1);
}'''),
 dict(id="c25-zero-to-toggle", property="C25",
  needs="the modified write value zeroToToggle, printed",
  breaks="zeroToToggle is printed as zeroToggle",
  edits=[("svd-rs/src/modifiedwritevalues.rs", """Self::ZeroToToggle => "zeroToToggle",""", """Self::ZeroToToggle => "zeroToggle",""")],
  demo='''fn main() {
    let m = svd::ModifiedWriteValues::ZeroToToggle;
    assert_eq!(svd::ModifiedWriteValues::parse_str(m.as_str()), Some(m));
}'''),
 dict(id="c26-parent", property="C26",
  needs="the parent of a path three clusters deep",
  breaks="the parent of a path three clusters deep is the outermost cluster",
  edits=[("svd-parser/src/expand.rs", """        p.path.pop()?;
        Some(p)""", """        p.path.pop()?;
        p.path.truncate(1);
        Some(p)""")],
  demo='''fn main() {
    use parser::expand::BlockPath;
    let a = BlockPath::new("P").new_cluster("A").new_cluster("B");
    assert_eq!(a.new_cluster("C").parent(), Some(a));
}'''),
 dict(id="c27-field-constraint", property="C27",
  needs="a field with enumerated values of its own deriving from one with a write constraint",
  breaks="a field with its own enumerated values does not get the write constraint",
  edits=[("svd-rs/src/derive_from.rs", """            derived.enumerated_values = other.enumerated_values.clone();
        }
        derived.write_constraint = derived.write_constraint.or(other.write_constraint);""", """            derived.enumerated_values = other.enumerated_values.clone();
            derived.write_constraint = derived.write_constraint.or(other.write_constraint);
        }""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let d = parse(&reg("<field><name>A</name><bitRange>[1:0]</bitRange><writeConstraint><writeAsRead>true</writeAsRead></writeConstraint></field><field><name>B</name><bitRange>[3:2]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let f: Vec<_> = d.peripherals[0].registers().next().unwrap().fields().collect();
    assert!(f[1].derive_from(f[0]).write_constraint.is_some());
}'''),
]
