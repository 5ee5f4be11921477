SEEDS = [
 dict(id="c01-children-kinds", property="C01",
  needs="a cluster whose registers and nested clusters alternate",
  breaks="the children of a cluster are put registers first when a nested cluster stands between registers",
  edits=[("svd-parser/src/cluster.rs", """                    .map(|t| RegisterCluster::parse(&t, config))
                    .collect();
                children?""", """                    .map(|t| RegisterCluster::parse(&t, config))
                    .collect();
                let mut children = children?;
                children.sort_by_key(|c| matches!(c, RegisterCluster::Cluster(_)));
                children""")],
  demo='''fn main() {
    let d = parse(&per("<cluster><name>C</name><addressOffset>0</addressOffset><cluster><name>N</name><addressOffset>0</addressOffset><register><name>A</name><addressOffset>0</addressOffset></register></cluster><register><name>R</name><addressOffset>8</addressOffset></register></cluster>"));
    let c = d.peripherals[0].clusters().next().unwrap();
    assert_eq!(c.children[0].name(), "N");
}'''),
 dict(id="c01-header-enum", property="C01",
  needs="an enumeratedValues element which states a headerEnumName",
  breaks="a document with headerEnumName in enumeratedValues is refused",
  edits=[("svd-parser/src/enumeratedvalues.rs", """matches!(t.tag_name().name(), "name" | "headerEnumName" | "usage")""", """matches!(t.tag_name().name(), "name" | "usage")""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><name>E</name><headerEnumName>H</headerEnumName><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let r = d.peripherals[0].registers().next().unwrap();
    assert_eq!(r.get_field("F").unwrap().enumerated_values[0].values.len(), 1);
}'''),
 dict(id="c02-wide-field", property="C02",
  needs="validation of a field of exactly 64 bits with enumerated values",
  breaks="checking the values of a 64 bit field overflows and panics",
  edits=[("svd-rs/src/field.rs", """            if self.bit_range.width < 64 {
                for ev""", """            if self.bit_range.width <= 64 {
                for ev""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[63:0]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>");
    parser::parse_with_config(&x, &parser::Config::default()).unwrap();
}'''),
 dict(id="c03-hex-wrap", property="C03",
  needs="a hexadecimal literal of more than 32 bits in an element of 32 bits",
  breaks="the upper bits of a hexadecimal literal are cut off instead of refused",
  edits=[("svd-parser/src/types.rs", """            u32::from_str_radix(&text["0x".len()..], 16)""", """            u64::from_str_radix(&text["0x".len()..], 16).map(|v| v as u32)""")],
  demo='''fn main() {
    let x = per("<register><name>R</name><addressOffset>0x100000004</addressOffset></register>");
    assert!(parser::parse_with_config(&x, &cfg()).is_err());
}'''),
 dict(id="c03-bool-case", property="C03",
  needs="a boolean with capital letters",
  breaks="True and FALSE are read as booleans",
  edits=[("svd-parser/src/types.rs", """            _ => match text.parse() {""", """            _ => match text.to_ascii_lowercase().parse() {""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[1:0]</bitRange><writeConstraint><writeAsRead>True</writeAsRead></writeConstraint></field>");
    assert!(parser::parse_with_config(&x, &cfg()).is_err());
}'''),
 dict(id="c04-modify-width", property="C04",
  needs="a field in lsb and msb notation whose width is changed by a builder which sets only the width",
  breaks="the notation of the bit position is lost",
  edits=[("svd-rs/src/field.rs", """        if let Some(width) = builder.bit_width {
            self.bit_range.width = width;
        }""", """        if let Some(width) = builder.bit_width {
            self.bit_range = BitRange::from_offset_width(self.bit_range.offset, width);
        }""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><lsb>2</lsb><msb>2</msb></field>"));
    let r = d.peripherals[0].registers().next().unwrap();
    let mut f = (**r.get_field("F").unwrap()).clone();
    f.modify_from(svd::FieldInfo::builder().bit_width(3), ValidateLevel::Disabled).unwrap();
    assert_eq!(f.bit_range.range_type, svd::BitRangeType::MsbLsb);
}'''),
 dict(id="c05-alternate-derived", property="C05",
  needs="a register with a reference and an invalid alternateRegister, at the strict level",
  breaks="alternateRegister is not checked in a register with a reference",
  edits=[("svd-rs/src/register.rs", """                if let Some(name) = self.alternate_register.as_ref() {
                    super::check_dimable_name""", """                if let (Some(name), None) =
                    (self.alternate_register.as_ref(), self.derived_from.as_ref())
                {
                    super::check_dimable_name""")],
  demo='''fn main() {
    let r = svd::RegisterInfo::builder().name("R".into()).address_offset(0).derived_from(Some("A".into())).alternate_register(Some("a-b".into()));
    assert!(r.build(ValidateLevel::Strict).is_err());
}'''),
 dict(id="c05-path-digit", property="C05",
  needs="a derivedFrom path one of whose middle names begins with a digit",
  breaks="only the last name of a reference path is checked",
  edits=[("svd-rs/src/lib.rs", """    for x in name.split('.') {
        check_dimable_name(x, tag)?
    }
    Ok(())""", """    let (path, last) = name.rsplit_once('.').unwrap_or(("", name));
    for x in path.split('.') {
        check_name(x.trim_end_matches("[%s]"), tag)?
    }
    check_dimable_name(last, tag)""")],
  demo='''fn main() {
    let r = svd::RegisterInfo::builder().name("R".into()).address_offset(0).derived_from(Some("P.1C.A".into()));
    assert!(r.build(ValidateLevel::Strict).is_err());
}'''),
 dict(id="c07-value-field", property="C07",
  needs="an error of an enumerated value",
  breaks="errors of enumerated values are reported without the field's name",
  edits=[("svd-parser/src/lib.rs", """                    "device" | "peripheral" | "register" | "field" | "enumeratedValue"
                    | "interrupt" => {""", """                    "field" if node.has_tag_name("enumeratedValue") => {}
                    "device" | "peripheral" | "register" | "field" | "enumeratedValue"
                    | "interrupt" => {""")],
  demo='''fn main() {
    let x = reg("<field><name>FLD</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><value>1</value></enumeratedValue></enumeratedValues></field>");
    let e = format!("{:?}", parser::parse_with_config(&x, &cfg()).unwrap_err());
    assert!(e.contains("FLD"), "{e}");
}'''),
 dict(id="c08-ignore-level", property="C08",
  needs="ignoring enumerations and a field of zero bits which lists enumerated values",
  breaks="fields with enumerated values are not validated when enumerations are ignored",
  edits=[("svd-parser/src/field.rs", """            .derived_from(tree.attribute("derivedFrom").map(|s| s.to_owned()))
            .build(config.validate_level)""", """            .derived_from(tree.attribute("derivedFrom").map(|s| s.to_owned()))
            .build(
                if config.ignore_enums && tree.get_child("enumeratedValues").is_some() {
                    ValidateLevel::Disabled
                } else {
                    config.validate_level
                },
            )""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitOffset>0</bitOffset><bitWidth>0</bitWidth><enumeratedValues/></field>");
    assert!(parser::parse_with_config(&x, &parser::Config::default().ignore_enums(true)).is_err());
}'''),
 dict(id="c09-default-index", property="C09",
  needs="an array which lists the default indices explicitly",
  breaks="a dimIndex which equals the default is not written",
  edits=[("svd-encoder/src/dimelement.rs", """            e.children
                .push(if let Some(range) = self.indexes_as_range() {
                    new_node("dimIndex", format!("{}-{}", range.start(), range.end()))
                } else {
                    new_node("dimIndex", di.join(","))
                });""", """            match self.indexes_as_range() {
                Some(range) if *range.start() == 0 => {}
                Some(range) => e.children.push(new_node(
                    "dimIndex",
                    format!("{}-{}", range.start(), range.end()),
                )),
                None => e.children.push(new_node("dimIndex", di.join(","))),
            }""")],
  demo='''fn main() {
    let d = parse(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>0,1</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register>"));
    assert_eq!(parse(&encoder::encode(&d).unwrap()), d);
}'''),
 dict(id="c10-hex8-wide", property="C10",
  needs="UpperHex8 for a number of more than 32 bits",
  breaks="UpperHex8 cuts numbers to 32 bits",
  edits=[("svd-encoder/src/config.rs", """        NumberFormat::UpperHex8 => format!("{:#010X}", value),""", """        NumberFormat::UpperHex8 => format!("{:#010X}", value.into() as u32),""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>P</name><baseAddress>0x100000000</baseAddress></peripheral>"));
    assert!(encoder::encode(&d).unwrap().contains("0x100000000"));
}'''),
 dict(id="c11-name-case", property="C11",
  needs="fields whose names differ in the case of letters, sorted by name",
  breaks="fields are sorted by name regardless of case",
  edits=[("svd-encoder/src/register.rs", """            Sorting::Name => refs.sort_by_key(|f| &f.name),""", """            Sorting::Name => refs.sort_by_key(|f| f.name.to_lowercase()),""")],
  demo='''fn main() {
    let f = |n: &str| format!("<field><name>{n}</name><bitRange>[0:0]</bitRange></field>");
    let d = parse(&reg(&format!("{}{}", f("a"), f("B"))));
    let s = encoder::encode_with_config(&d, &encoder::Config::default().field_sorting(encoder::DerivableSorting::Unchanged(Some(encoder::Sorting::Name)))).unwrap();
    assert!(s.find("<name>B<").unwrap() < s.find("<name>a<").unwrap());
}'''),
 dict(id="c11-rc-name-kind", property="C11",
  needs="a peripheral with registers and clusters, sorted by name without grouping",
  breaks="sorting by name puts a cluster behind a register of a greater name",
  edits=[("svd-encoder/src/peripheral.rs", """            Sorting::Name => refs.sort_by_key(|r| r.name()),""", """            Sorting::Name => refs.sort_by_key(|r| {
                (matches!(r, RegisterCluster::Cluster(_)), r.name())
            }),""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>B</name><addressOffset>0</addressOffset></register><cluster><name>A</name><addressOffset>8</addressOffset><register><name>X</name><addressOffset>0</addressOffset></register></cluster>"));
    let s = encoder::encode_with_config(&d, &encoder::Config::default().register_cluster_sorting(encoder::RcSorting::Unchanged(encoder::DerivableSorting::Unchanged(Some(encoder::Sorting::Name))))).unwrap();
    assert!(s.find("<name>A<").unwrap() < s.find("<name>B<").unwrap());
}'''),
 dict(id="c12-alternate-cluster", property="C12",
  needs="a cluster with an alternateCluster and different formats for clusters and registers",
  breaks="alternateCluster takes the case of register names",
  edits=[("svd-encoder/src/cluster.rs", """                "alternateCluster",
                change_case(v, config.cluster_name),""", """                "alternateCluster",
                change_case(v, config.register_name),""")],
  demo='''fn main() {
    let d = parse(&per("<cluster><name>C</name><alternateCluster>OTHER_ONE</alternateCluster><addressOffset>8</addressOffset><register><name>X</name><addressOffset>0</addressOffset></register></cluster>"));
    let s = encoder::encode_with_config(&d, &encoder::Config::default().cluster_name(Some(encoder::IdentifierFormat::Snake))).unwrap();
    assert!(s.contains("other_one"), "{s}");
}'''),
 dict(id="c13-first-part", property="C13",
  needs="a sorting given by name as DerivedLast,Offset",
  breaks="the order is recognised only as the first part of the text",
  edits=[("svd-encoder/src/config.rs", """        if parts.contains(&"Offset") {
            Some(Self::Offset)""", """        if parts.first() == Some(&"Offset") {
            Some(Self::Offset)""")],
  demo='''fn main() {
    let mut c = encoder::Config::default();
    c.update("field_sorting", "DerivedLast,Offset");
    assert_eq!(c.field_sorting, encoder::DerivableSorting::DeriveLast(Some(encoder::Sorting::Offset)));
}'''),
 dict(id="c14-two-placeholders", property="C14",
  needs="an array whose description contains the placeholder twice",
  breaks="only the first placeholder of a description is replaced",
  edits=[("svd-rs/src/array.rs", """description.map(|d| d.replace("[%s]", &i).replace("%s", &i))""", """description.map(|d| d.replace("[%s]", &i).replacen("%s", &i, 1))""")],
  demo='''fn main() {
    let d = expanded(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><name>R%s</name><description>%s of %s</description><addressOffset>0</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().description.as_deref(), Some("0 of 0"));
}'''),
 dict(id="c14-default-with-array-enum", property="C14",
  needs="an array whose array enumeration names only some of its elements",
  breaks="elements without a name in the array enumeration get the name of its default value",
  edits=[("svd-rs/src/array.rs", """            .map(|n| n.name.clone())
            .unwrap_or_else(""", """            .or_else(|| {
                dim.dim_array_index
                    .as_ref()
                    .and_then(|dai| dai.values.iter().find(|e| e.is_default()))
            })
            .map(|n| n.name.clone())
            .unwrap_or_else(""")],
  demo='''fn main() {
    let d = expanded(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimArrayIndex><enumeratedValue><name>A</name><value>0</value></enumeratedValue><enumeratedValue><name>Z</name><isDefault>true</isDefault></enumeratedValue></dimArrayIndex><name>R%s</name><addressOffset>0</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().nth(1).unwrap().name, "R1");
}'''),
 dict(id="c15-alternate", property="C15",
  needs="an array of peripherals with an alternatePeripheral",
  breaks="the elements of a peripheral array lose the alternate peripheral from the second on",
  edits=[("svd-rs/src/peripheral.rs", """            let mut info = info.clone();
            info.name = name;""", """            let mut info = info.clone();
            if base_address != info.base_address {
                info.alternate_peripheral = None;
            }
            info.name = name;""")],
  demo='''fn main() {
    let d = expanded(&dev("<peripheral><dim>2</dim><dimIncrement>4</dimIncrement><name>P%s</name><alternatePeripheral>Q</alternatePeripheral><baseAddress>0</baseAddress></peripheral>"));
    assert_eq!(d.peripherals[1].alternate_peripheral.as_deref(), Some("Q"));
}'''),
 dict(id="c16-enum-in-cluster", property="C16",
  needs="enumeratedValues in a cluster which refer to REG.FIELD.NAME of a register of that cluster",
  breaks="a reference REG.FIELD.NAME is looked up in the peripheral instead of the enclosing cluster",
  edits=[("svd-parser/src/expand.rs", """                fpath.register.block.new_register(rdname)""", """                BlockPath::new(fpath.peripheral()).new_register(rdname)""")],
  demo='''fn main() {
    let f = |n: &str, e: &str| format!("<register><name>{n}</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>[0:0]</bitRange>{e}</field></fields></register>");
    let d = expanded(&per(&format!("<cluster><name>C</name><addressOffset>0</addressOffset>{}{}</cluster>", f("A", "<enumeratedValues><name>E</name><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues>"), f("B", "<enumeratedValues derivedFrom='A.F.E'/>"))));
    assert_eq!(d.peripherals[0].get_register("C_B").unwrap().get_field("F").unwrap().enumerated_values[0].values.len(), 1);
}'''),
 dict(id="c18-mask-with-value", property="C18",
  needs="a register stating its reset value but not its mask, in a device stating both",
  breaks="the reset mask is inherited only together with the reset value",
  edits=[("svd-rs/src/derive_from.rs", """        derived.reset_value = derived.reset_value.or(other.reset_value);
        derived.reset_mask = derived.reset_mask.or(other.reset_mask);""", """        if derived.reset_value.is_none() {
            derived.reset_mask = derived.reset_mask.or(other.reset_mask);
        }
        derived.reset_value = derived.reset_value.or(other.reset_value);""")],
  demo='''fn main() {
    let x = dev("<peripheral><name>P</name><baseAddress>0</baseAddress><resetMask>7</resetMask><registers><register><name>R</name><addressOffset>0</addressOffset><resetValue>1</resetValue></register></registers></peripheral>");
    let d = parser::parse_with_config(&x, &cfg().expand_properties(true)).unwrap();
    assert_eq!(d.peripherals[0].registers().next().unwrap().properties.reset_mask, Some(7));
}'''),
 dict(id="c19-empty-registers", property="C19",
  needs="a device whose peripheral has an empty list of registers",
  breaks="expansion turns an empty list of registers into none",
  edits=[("svd-parser/src/expand.rs", """            for rc in take(regs) {
                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
            }
        }
        match p {""", """            for rc in take(regs) {
                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
            }
        }
        if p.registers.as_ref().map_or(false, |r| r.is_empty()) {
            p.registers = None;
        }
        match p {""")],
  demo='''fn main() {
    let x = dev("<peripheral><name>P</name><baseAddress>0</baseAddress><registers></registers></peripheral>");
    assert_eq!(parse(&x), expanded(&x));
}'''),
 dict(id="c20-index-range", property="C20",
  needs="a list of three one-letter indices whose ends span as many letters",
  breaks="an index list is serialised as a range which only has its ends and count",
  edits=[("svd-rs/src/dimelement.rs", """    pub fn serialize_dim_index<S>(val: &Option<Vec<String>>, s: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        s.serialize_str(&val.as_ref().unwrap().join(","))""", """    pub fn serialize_dim_index<S>(val: &Option<Vec<String>>, s: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        let val = val.as_ref().unwrap();
        if val.len() > 2 && val[0].len() == 1 && val[val.len() - 1].len() == 1 {
            let range = format!("{}-{}", val[0], val[val.len() - 1]);
            if DimElement::parse_indexes(&range).map(|v| v.len()) == Some(val.len()) {
                return s.serialize_str(&range);
            }
        }
        s.serialize_str(&val.join(","))""")],
  demo='''fn main() {
    let d = parse(&per("<register><dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>A,X,C</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register>"));
    let j = serde_json::to_string(&d).unwrap();
    assert_eq!(serde_json::from_str::<svd::Device>(&j).unwrap().peripherals, d.peripherals);
}'''),
 dict(id="c21-mask-kept", property="C21",
  needs="a register built with a reset mask set before its properties",
  breaks="setting the properties of a register keeps a mask set before",
  edits=[("svd-rs/src/register.rs", """    pub fn properties(mut self, value: RegisterProperties) -> Self {
        self.properties = value;
        self""", """    pub fn properties(mut self, mut value: RegisterProperties) -> Self {
        value.reset_mask = value.reset_mask.or(self.properties.reset_mask);
        self.properties = value;
        self""")],
  demo='''fn main() {
    let r = svd::RegisterInfo::builder().name("R".into()).address_offset(0).reset_mask(Some(3)).properties(svd::RegisterProperties::new().size(Some(8))).build(ValidateLevel::Disabled).unwrap();
    assert_eq!(r.properties.reset_mask, None);
}'''),
 dict(id="c22-derived-again", property="C22",
  needs="a peripheral which has the reference already being given the same reference again",
  breaks="setting a reference equal to the present one keeps the registers",
  edits=[("svd-rs/src/peripheral.rs", """            self.derived_from = builder.derived_from;
            self.registers = None;""", """            if self.derived_from != builder.derived_from {
                self.registers = None;
            }
            self.derived_from = builder.derived_from;""")],
  demo='''fn main() {
    let mut p = svd::PeripheralInfo::builder().name("P".into()).base_address(0).derived_from(Some("Q".into())).registers(Some(vec![])).build(ValidateLevel::Disabled).unwrap();
    p.modify_from(svd::PeripheralInfo::builder().derived_from(Some("Q".into())), ValidateLevel::Disabled).unwrap();
    assert_eq!(p.registers, None);
}'''),
 dict(id="c23-rev-nested", property="C23",
  needs="a cluster nested in a cluster, with registers in both, walked mutably",
  breaks="the mutable walk of a cluster visits its nested clusters last",
  edits=[("svd-rs/src/cluster.rs", """            rem: self.children.iter_mut().rev().collect(),""", """            rem: {
                let mut rem: Vec<_> = self.children.iter_mut().rev().collect();
                rem.sort_by_key(|rc| matches!(rc, RegisterCluster::Register(_)));
                rem
            },""")],
  demo='''fn main() {
    let mut d = parse(&per("<cluster><name>C</name><addressOffset>0</addressOffset><cluster><name>N</name><addressOffset>0</addressOffset><register><name>A</name><addressOffset>0</addressOffset></register></cluster><register><name>R</name><addressOffset>8</addressOffset></register></cluster>"));
    let c = d.peripherals[0].get_mut_cluster("C").unwrap();
    assert_eq!(c.all_registers_mut().next().unwrap().name, "A");
}'''),
 dict(id="c24-high-overlap", property="C24",
  needs="a register with overlapping fields beyond the first 32 bits",
  breaks="the mask of a register leaves out a field which lies above bit 31 and overlaps another",
  edits=[("svd-rs/src/register.rs", """        self.fields().fold(0, |mask, f| mask | f.bitmask())""", """        self.fields().fold(0, |mask, f| {
            let m = f.bitmask();
            if mask & m & !0xffff_ffff == 0 {
                mask | m
            } else {
                mask
            }
        })""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>A</name><bitRange>[40:33]</bitRange></field><field><name>B</name><bitRange>[44:40]</bitRange></field>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().bitmask(), 0x1ffe_0000_0000);
}'''),
 dict(id="c26-array-cluster-peripheral", property="C26",
  needs="a path of a cluster in an element of a peripheral array",
  breaks="the clusters of a peripheral array are indexed under the array's name only",
  edits=[("svd-parser/src/expand.rs", """                let path = BlockPath::new(name);
                for r in p.registers() {
                    self.add_register(&path, r);
                }
                for c in p.clusters() {
                    self.add_cluster(&path, c);
                }
                self.peripherals.insert(path, p);""", """                let path = BlockPath::new(name);
                for r in p.registers() {
                    self.add_register(&path, r);
                }
                self.peripherals.insert(path, p);""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><dim>2</dim><dimIncrement>4</dimIncrement><name>P%s</name><baseAddress>0</baseAddress><registers><cluster><name>C</name><addressOffset>0</addressOffset><register><name>A</name><addressOffset>0</addressOffset></register></cluster></registers></peripheral>"));
    let i = parser::expand::Index::create(&d);
    assert!(i.clusters.contains_key(&parser::expand::BlockPath::new("P1").new_cluster("C")));
}'''),
 dict(id="c27-bracket-name", property="C27",
  needs="a single element with a placeholder name deriving from an array",
  breaks="a single element named with brackets does not become an array when overlaid on one",
  edits=[("svd-rs/src/derive_from.rs", """                if info.name().contains("%s") {""", """                if info.name().ends_with("%s") {""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let d = parse(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><name>R%s</name><addressOffset>0</addressOffset></register><register derivedFrom='R%s'><name>Q[%s]</name><addressOffset>0x10</addressOffset></register>"));
    let mut r = d.peripherals[0].registers();
    let (a, b) = (r.next().unwrap(), r.next().unwrap());
    assert!(b.derive_from(a).is_array());
}'''),
 dict(id="c27-block-empty", property="C27",
  needs="a derived peripheral with its own registers and an other one with interrupts and address blocks",
  breaks="address blocks are not taken over by a peripheral with its own registers",
  edits=[("svd-rs/src/derive_from.rs", """        derived.registers = derived.registers.or_else(|| other.registers.clone());
        derived.address_block = derived
            .address_block
            .or_else(|| other.address_block.clone());""", """        if derived.registers.is_none() {
            derived.registers = other.registers.clone();
            derived.address_block = derived
                .address_block
                .or_else(|| other.address_block.clone());
        }""")],
  demo='''fn main() {
    let d = expanded(&dev("<peripheral><name>P</name><baseAddress>0</baseAddress><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock></peripheral><peripheral derivedFrom='P'><name>Q</name><baseAddress>8</baseAddress><registers><register><name>A</name><addressOffset>0</addressOffset></register></registers></peripheral>"));
    assert!(d.peripherals[1].address_block.is_some());
}'''),
]
