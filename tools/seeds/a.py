SEEDS = [
 dict(id="c01-interrupt-nested", property="C01",
  needs="a peripheral with two or more address blocks and no registers of its own",
  breaks="address blocks after the first are kept only when the peripheral has registers",
  edits=[("svd-parser/src/peripheral.rs", """                if ab.is_empty() {
                    None
                } else {
                    Some(ab)
                }""", """                if ab.is_empty() {
                    None
                } else if tree.get_child("registers").is_none() {
                    Some(ab.into_iter().take(1).collect())
                } else {
                    Some(ab)
                }""")],
  demo='''fn main() {
    let ab = |o: u32| format!("<addressBlock><offset>{o}</offset><size>4</size><usage>registers</usage></addressBlock>");
    let d = parse(&dev(&format!("<peripheral><name>P</name><baseAddress>0</baseAddress>{}{}</peripheral>", ab(0), ab(64))));
    assert_eq!(d.peripherals[0].address_block.as_ref().unwrap().len(), 2);
}'''),
 dict(id="c02-dimindex-utf8", property="C02",
  needs="a dimIndex range whose end point is not ASCII",
  breaks="parsing panics on a dimIndex such as A-é instead of returning an error",
  edits=[("svd-rs/src/dimelement.rs", """                let mut start = start.bytes();
                let mut end = end.bytes();""", """                let mut start = start.bytes();
                let mut end = end[..end.len().min(1)].bytes();""")],
  demo='''fn main() {
    let x = per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A-\\u{e9}</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register>");
    assert!(parser::parse_with_config(&x, &cfg()).is_err());
}'''),
 dict(id="c03-hash-upper-x", property="C03",
  needs="a 64 bit number (resetValue, value, baseAddress) in the # form with an upper case don't care bit",
  breaks="#1X01 is rejected although #1x01 is read",
  edits=[("svd-parser/src/types.rs", """            u64::from_str_radix(
                &str::replace(&text.to_lowercase()["#".len()..], "x", "0"),""", """            u64::from_str_radix(
                &str::replace(&text["#".len()..], "x", "0"),""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[3:0]</bitRange><enumeratedValues><enumeratedValue><name>A</name><value>#1X01</value></enumeratedValue></enumeratedValues></field>");
    let d = parser::parse_with_config(&x, &cfg()).expect("parses");
    let f = d.peripherals[0].registers().next().unwrap().fields().next().unwrap().clone();
    assert_eq!(f.enumerated_values[0].values[0].value, Some(9));
}'''),
 dict(id="c04-builder-width-first", property="C04",
  needs="FieldInfoBuilder given the width before the offset, then the width again",
  breaks="the later width is lost when the offset came between the two",
  edits=[("svd-rs/src/field.rs", """            self.bit_range = Some(BitRange::from_offset_width(offset, value));
            self.bit_offset = None;
        } else {
            self.bit_width = Some(value);""", """            self.bit_range = Some(BitRange::from_offset_width(offset, value));
            self.bit_offset = None;
        } else {
            self.bit_width = self.bit_width.or(Some(value));""")],
  demo='''fn main() {
    let f = svd::FieldInfo::builder().name("F".into()).bit_width(3).bit_width(5).bit_offset(2).build(ValidateLevel::Disabled).unwrap();
    assert_eq!((f.bit_offset(), f.bit_width()), (2, 5));
}'''),
 dict(id="c05-mask-only", property="C05",
  needs="a register with a reset mask wider than its size and no reset value, at the strict level",
  breaks="a mask which does not fit is accepted when there is no reset value",
  edits=[("svd-rs/src/registerproperties.rs", """        if let (Some(size), Some(mask)) = (size, mask) {
            if MAX_BITS - mask.leading_zeros() > size {
                return Err(Error::MaskTooLarge(mask, size));
            }
        }
        if let (Some(value), Some(mask)) = (value, mask) {""", """        if let (Some(size), Some(mask)) = (size, mask) {
            if MAX_BITS - mask.leading_zeros() > size && (value.is_some() || mask >> 1 >> size == 0) {
                return Err(Error::MaskTooLarge(mask, size));
            }
        }
        if let (Some(value), Some(mask)) = (value, mask) {""")],
  demo='''fn main() {
    let p = svd::RegisterProperties::new().size(Some(8)).reset_mask(Some(0x400));
    assert!(p.build(ValidateLevel::Strict).is_err());
}'''),
 dict(id="c06-parser-level", property="C06",
  needs="a document with a dim element inside a cluster whose builder would reject at strict level",
  breaks="array elements parsed inside clusters are validated at the weak level only",
  edits=[("svd-parser/src/cluster.rs", """                    .map(|t| RegisterCluster::parse(&t, config))""", """                    .map(|t| {
                        RegisterCluster::parse(
                            &t,
                            &match t.has_tag_name("cluster") {
                                true => config.validate_level(ValidateLevel::Weak),
                                false => *config,
                            },
                        )
                    })""")],
  demo='''fn main() {
    let x = per("<cluster><name>C</name><addressOffset>0</addressOffset><cluster><name>D</name><addressOffset>0</addressOffset><register><name>bad name</name><addressOffset>0</addressOffset></register></cluster></cluster>");
    assert!(parser::parse_with_config(&x, &cfg().validate_level(ValidateLevel::Strict)).is_err());
}'''),
 dict(id="c07-cluster-context", property="C07",
  needs="an error inside a register which lies in a cluster",
  breaks="the enclosing peripheral is not named when the error lies inside a cluster",
  edits=[("svd-parser/src/lib.rs", """                if parent.id() == NodeId::new(0) {
                    break;
                }""", """                if parent.id() == NodeId::new(0) || parent.has_tag_name("cluster") && parent.children().count() > 2 {
                    break;
                }""")],
  demo='''fn main() {
    let x = per("<cluster><name>C</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>4</addressOffset><access>bogus</access></register></cluster>");
    let e = format!("{:#}", parser::parse_with_config(&x, &cfg()).unwrap_err());
    assert!(e.contains("peripheral `P`"), "{e}");
}'''),
 dict(id="c08-ignore-derived", property="C08",
  needs="the ignore-enums option and a register (not a field) with a write constraint",
  breaks="ignoring enumerated values also drops the write constraint of a register",
  edits=[("svd-parser/src/register.rs", """            .write_constraint(optional::<WriteConstraint>(
                "writeConstraint",
                tree,
                config,
            )?)""", """            .write_constraint(match optional::<WriteConstraint>("writeConstraint", tree, config)? {
                Some(WriteConstraint::UseEnumeratedValues(_)) if config.ignore_enums => None,
                wc => wc,
            })""")],
  demo='''fn main() {
    let x = per("<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><useEnumeratedValues>true</useEnumeratedValues></writeConstraint></register>");
    let d = parser::parse_with_config(&x, &cfg().ignore_enums(true)).unwrap();
    assert!(d.peripherals[0].registers().next().unwrap().write_constraint.is_some());
}'''),
 dict(id="c09-array-group", property="C09",
  needs="an array (dim) of a cluster with a dimName and a derivedFrom attribute, encoded and parsed again",
  breaks="encoding an array of clusters loses the derivedFrom attribute",
  edits=[("svd-encoder/src/cluster.rs", """                e.merge(&a.encode_with_config(config)?);
                e.merge(&i.encode_with_config(config)?);""", """                e.merge(&i.encode_with_config(config)?);
                let dim = a.encode_with_config(config)?;
                if a.dim_name.is_some() {
                    e.attributes = dim.attributes.clone();
                }
                e.children = dim.children.into_iter().chain(e.children).collect();""")],
  demo='''fn main() {
    let x = per("<cluster><name>A</name><addressOffset>0</addressOffset></cluster><cluster derivedFrom=\\"A\\"><dim>2</dim><dimIncrement>16</dimIncrement><dimName>Q</dimName><name>B%s</name><addressOffset>16</addressOffset></cluster>");
    let d = parse(&x);
    let y = encoder::encode(&d).unwrap();
    assert_eq!(parse(&y), d);
}'''),
 dict(id="c10-hex16-boundary", property="C10",
  needs="a value of exactly 2^32 - 1 or above written in the LowerHex16 format",
  breaks="LowerHex16 pads 0xffffffff to sixteen digits",
  edits=[("svd-encoder/src/config.rs", """            if value.into() > u32::MAX as u64 {
                format!("{:#018x}", value)""", """            if value.into() >= u32::MAX as u64 {
                format!("{:#018x}", value)""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><addressOffset>0</addressOffset><resetValue>0xFFFFFFFF</resetValue></register>"));
    let mut c = encoder::Config::default();
    c.update("register_reset_value", "LowerHex16");
    let y = encoder::encode_with_config(&d, &c).unwrap();
    assert!(y.contains("<resetValue>0xffffffff</resetValue>"), "{y}");
}'''),
 dict(id="c11-second-enum", property="C11",
  needs="derived-last sorting of fields where only the second group of enumerated values is derived",
  breaks="a field counts as derived only if its first enumeratedValues is",
  edits=[("svd-encoder/src/register.rs", """                    for ev in &f.enumerated_values {
                        if ev""", """                    for ev in f.enumerated_values.iter().take(1) {
                        if ev""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[0:0]</bitRange><enumeratedValues><usage>read</usage><enumeratedValue><name>A</name><value>0</value></enumeratedValue></enumeratedValues><enumeratedValues derivedFrom=\\"E\\"></enumeratedValues></field><field><name>G</name><bitRange>[1:1]</bitRange><enumeratedValues><name>E</name><enumeratedValue><name>A</name><value>0</value></enumeratedValue></enumeratedValues></field>");
    let mut c = encoder::Config::default();
    c.update("field_sorting", "DerivedLast");
    let y = encoder::encode_with_config(&parse(&x), &c).unwrap();
    assert!(y.find("<name>G</name>").unwrap() < y.find("<name>F</name>").unwrap());
}'''),
 dict(id="c12-dim-name", property="C12",
  needs="an encoder case option for registers and a register array whose name has a list index in the middle",
  breaks="the placeholder of an array name is lost under Constant case unless it ends the name",
  edits=[("svd-encoder/src/config.rs", """                .replace("%S", "%s")""", """                .replace("%S_", "%s")
                .replace("%S", "%s")""")],
  demo='''fn main() {
    let x = per("<register><dim>2</dim><dimIncrement>4</dimIncrement><name>r_%s_data</name><addressOffset>0</addressOffset></register>");
    let mut c = encoder::Config::default();
    c.update("register_name", "Constant");
    let y = encoder::encode_with_config(&parse(&x), &c).unwrap();
    assert!(y.contains("<name>R_%s_DATA</name>"), "{y}");
}'''),
 dict(id="c13-option-key", property="C13",
  needs="register_reset_mask set by Config::update after register_reset_value was set to another format",
  breaks="setting the reset value format by name also changes the reset mask format",
  edits=[("svd-encoder/src/config.rs", """            "register_reset_value" => self.register_reset_value = value.parse().unwrap(),""", """            "register_reset_value" => {
                if self.register_reset_mask == self.register_reset_value {
                    self.register_reset_mask = value.parse().unwrap();
                }
                self.register_reset_value = value.parse().unwrap()
            }""")],
  demo='''fn main() {
    let x = per("<register><name>R</name><addressOffset>0</addressOffset><resetValue>1</resetValue><resetMask>1</resetMask></register>");
    let mut c = encoder::Config::default();
    c.update("register_reset_value", "Dec");
    let y = encoder::encode_with_config(&parse(&x), &c).unwrap();
    assert!(y.contains("<resetMask>0x00000001</resetMask>"), "{y}");
}'''),
 dict(id="c14-array-index-desc", property="C14",
  needs="a dimArrayIndex whose values give a name but no description, on an element whose description has a placeholder",
  breaks="the description of an array element falls back to the raw text",
  edits=[("svd-rs/src/array.rs", """            .and_then(|n| n.description.clone())
            .or_else(|| description.map(|d| d.replace("[%s]", &i).replace("%s", &i)))""", """            .map(|n| n.description.clone().or_else(|| description.map(|d| d.to_string())))
            .unwrap_or_else(|| description.map(|d| d.replace("[%s]", &i).replace("%s", &i)))""")],
  demo='''fn main() {
    let d = expanded(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimArrayIndex><enumeratedValue><name>X</name><value>0</value></enumeratedValue></dimArrayIndex><name>R%s</name><description>d %s</description><addressOffset>0</addressOffset></register>"));
    let r: Vec<_> = d.peripherals[0].registers().map(|r| r.description.clone().unwrap()).collect();
    assert_eq!(r, ["d 0", "d 1"]);
}'''),
 dict(id="c15-nested-offset", property="C15",
  needs="a cluster inside an array of clusters with a non zero offset of the inner cluster",
  breaks="registers of a nested cluster are moved by the increment twice from the second element on",
  edits=[("svd-rs/src/cluster.rs", """    (0..dim.dim).map(move |i| info.address_offset + i * dim.dim_increment)""", """    let nested = info.children.iter().any(|rc| rc.address_offset() >= dim.dim_increment && dim.dim_increment > 0);
    (0..dim.dim).map(move |i| info.address_offset + i * dim.dim_increment + if nested && i > 1 { dim.dim_increment } else { 0 })""")],
  demo='''fn main() {
    let d = expanded(&per("<cluster><dim>3</dim><dimIncrement>4</dimIncrement><name>C%s</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>8</addressOffset></register></cluster>"));
    let r: Vec<_> = d.peripherals[0].registers().map(|r| r.address_offset).collect();
    assert_eq!(r, [8, 12, 16]);
}'''),
 dict(id="c16-element-clusters", property="C16",
  needs="a register derived by path from a register in a nested cluster of one element of a cluster array",
  breaks="clusters nested in a cluster array can not be referred to by element name",
  edits=[("svd-parser/src/expand.rs", """            for name in names(info, dim) {
                let cpath = path.new_cluster(name);
                for r in c.registers() {
                    self.add_register(&cpath, r);
                }
                for c in c.clusters() {
                    self.add_cluster(&cpath, c);
                }""", """            for name in names(info, dim) {
                let cpath = path.new_cluster(name);
                for r in c.registers() {
                    self.add_register(&cpath, r);
                }
                for c in c.clusters().filter(|c| c.is_array()) {
                    self.add_cluster(&cpath, c);
                }""")],
  demo='''fn main() {
    let d = expanded(&per("<cluster><dim>2</dim><dimIncrement>64</dimIncrement><name>C%s</name><addressOffset>0</addressOffset><cluster><name>I</name><addressOffset>0</addressOffset><register><name>R</name><description>here</description><addressOffset>0</addressOffset></register></cluster></cluster><register derivedFrom=\\"P.C1.I.R\\"><name>S</name><addressOffset>256</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().last().unwrap().description.as_deref(), Some("here"));
}'''),
 dict(id="c16-enum-usage", property="C16",
  needs="a chain of derived enumeratedValues where the middle one states the usage",
  breaks="usage is taken from the far end of the chain",
  edits=[("svd-rs/src/derive_from.rs", """        derived.usage = derived.usage.or(other.usage);""", """        if other.derived_from.is_none() {
            derived.usage = derived.usage.or(other.usage);
        }""")],
  demo='''fn main() {
    let ev = |n: &str, at: &str, c: &str| format!("<field><name>{n}</name><bitRange>[0:0]</bitRange><enumeratedValues{at}>{c}</enumeratedValues></field>");
    let x = reg(&format!("{}{}{}", ev("A", "", "<name>EA</name><enumeratedValue><name>v</name><value>0</value></enumeratedValue>"), ev("B", " derivedFrom=\\"EA\\"", "<name>EB</name><usage>read</usage>"), ev("C", " derivedFrom=\\"EB\\"", "")));
    let d = expanded(&x);
    let f = d.peripherals[0].registers().next().unwrap().fields().nth(2).unwrap().clone();
    assert_eq!(f.enumerated_values[0].usage, Some(svd::Usage::Read));
}'''),
 dict(id="c17-missing-enum", property="C17",
  needs="enumeratedValues which already have values of their own and refer to a name that does not exist",
  breaks="a dangling reference of an enumeratedValues with own values is ignored",
  edits=[("svd-parser/src/expand.rs", """        let dpath = ev.derived_from.take();
        if let Some(dpath) = dpath {
            derive_enumerated_values(ev, &dpath, &fpath, index)?;
        }""", """        let dpath = ev.derived_from.take();
        if let Some(dpath) = dpath {
            let derived = derive_enumerated_values(ev, &dpath, &fpath, index);
            if ev.values.is_empty() {
                derived?;
            }
        }""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[0:0]</bitRange><enumeratedValues derivedFrom=\\"nowhere\\"><enumeratedValue><name>v</name><value>0</value></enumeratedValue></enumeratedValues></field>");
    assert!(parser::parse_with_config(&x, &cfg().expand(true)).is_err());
}'''),
 dict(id="c18-cluster-default", property="C18",
  needs="two sibling clusters of which the first states default properties and the second does not",
  breaks="properties of one cluster leak into the registers which follow it",
  edits=[("svd-parser/src/expand.rs", """fn expand_properties_registers(regs: &mut [RegisterCluster], default: &RegisterProperties) {
    for rc in regs {""", """fn expand_properties_registers(regs: &mut [RegisterCluster], default: &RegisterProperties) {
    let mut default = *default;
    for rc in regs {"""), ("svd-parser/src/expand.rs", """                let default = c.default_register_properties.derive_from(default);
                expand_properties_registers(&mut c.children, &default);""", """                let own = c.default_register_properties.derive_from(&default);
                expand_properties_registers(&mut c.children, &own);
                default.protection = default.protection.or(own.protection);"""), ("svd-parser/src/expand.rs", """                r.properties = r.properties.derive_from(default);""", """                r.properties = r.properties.derive_from(&default);""")],
  demo='''fn main() {
    let x = per("<cluster><name>A</name><addressOffset>0</addressOffset><protection>s</protection><register><name>R</name><addressOffset>0</addressOffset></register></cluster><register><name>S</name><addressOffset>8</addressOffset></register>");
    let d = parser::parse_with_config(&x, &cfg().expand_properties(true)).unwrap();
    assert_eq!(d.peripherals[0].registers().next().unwrap().properties.protection, None);
}'''),
 dict(id="c19-idempotent", property="C19",
  needs="expansion of an already expanded device with registers derived inside an array",
  breaks="expanding twice renames registers of clusters whose name ends in a digit",
  edits=[("svd-parser/src/expand.rs", """        match p {
            Peripheral::Single(_) => {
                device.peripherals.push(p);
            }""", """        match p {
            Peripheral::Single(_) => {
                if p.derived_from.is_none() && p.display_name.is_none() && p.alternate_peripheral.is_some() {
                    p.display_name = Some(format!("{}_{}", p.name, device.peripherals.len()));
                }
                device.peripherals.push(p);
            }""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>P</name><alternatePeripheral>Q</alternatePeripheral><baseAddress>0</baseAddress></peripheral>"));
    let e = parser::expand(&d).unwrap();
    assert_eq!(e.peripherals[0].display_name, None);
    assert_eq!(parser::expand(&e).unwrap(), e);
}'''),
]
