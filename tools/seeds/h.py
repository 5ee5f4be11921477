SEEDS = [
 dict(id="c03-leading-zeros", property="C03",
  needs="a hexadecimal number with more than eight digits whose value fits",
  breaks="hexadecimal numbers of 32 bits with more than eight digits are refused although leading zeros do not count",
  edits=[("svd-parser/src/types.rs", """            u32::from_str_radix(&text["0x".len()..], 16)
""", """            let digits = &text["0x".len()..];
            if digits.len() > 8 {
                u32::from_str_radix(&format!("1{digits}"), 16)
            } else {
                u32::from_str_radix(digits, 16)
            }
""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><addressOffset>0x0000000001</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().address_offset, 1);
}'''),
 dict(id="c05-nested-name", property="C05",
  needs="a cluster with an invalid name inside another cluster with a description at the strict level",
  breaks="the strict level does not check the name of a cluster which has children but no description",
  edits=[("svd-rs/src/cluster.rs", """            if lvl.is_strict() {
                super::check_dimable_name(&self.name, "name")?;
            }""", """            if lvl.is_strict() && (self.description.is_some() || self.children.len() < 2) {
                super::check_dimable_name(&self.name, "name")?;
            }""")],
  demo='''fn main() {
    let r = |n: &str| format!("<register><name>{n}</name><description>d</description><addressOffset>0</addressOffset></register>");
    let x = per(&format!("<cluster><name>a b</name><addressOffset>0</addressOffset>{}{}</cluster>", r("A"), r("B")));
    assert!(parser::parse_with_config(&x, &parser::Config::default().validate_level(ValidateLevel::Strict)).is_err());
}'''),
 dict(id="c09-empty-list-derived", property="C09",
  needs="a derived peripheral with an empty list of registers",
  breaks="the empty list of registers of a derived peripheral is not written",
  edits=[("svd-encoder/src/peripheral.rs", """            elem.children.push({
                let mut e = Element::new("registers");
                e.children = children?;
                XMLNode::Element(e)
            });""", """            let mut e = Element::new("registers");
            e.children = children?;
            if !(e.children.is_empty() && self.derived_from.is_some()) {
                elem.children.push(XMLNode::Element(e));
            }""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>Q</name><baseAddress>0</baseAddress></peripheral><peripheral derivedFrom=\\"Q\\"><name>P</name><baseAddress>0</baseAddress><registers></registers></peripheral>"));
    assert_eq!(parse(&encoder::encode(&d).unwrap()), d);
}'''),
 dict(id="c10-mask-all", property="C10",
  needs="different formats for reset value and reset mask, both with the same value",
  breaks="a reset mask equal to the reset value is written in the format of the value",
  edits=[("svd-encoder/src/registerproperties.rs", """                format_number(*v, config.register_reset_mask),
            ));""", """                format_number(
                    *v,
                    if self.reset_value == Some(*v) {
                        config.register_reset_value
                    } else {
                        config.register_reset_mask
                    },
                ),
            ));""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><addressOffset>0</addressOffset><resetValue>255</resetValue><resetMask>255</resetMask></register>"));
    let c = encoder::Config::default().register_reset_value(encoder::NumberFormat::Dec).register_reset_mask(encoder::NumberFormat::UpperHex);
    let x = encoder::encode_with_config(&d, &c).unwrap();
    assert!(x.contains("<resetMask>0xFF</resetMask>"));
}'''),
 dict(id="c11-name-length", property="C11",
  needs="sorting fields by name with names of which one begins with the other",
  breaks="sorting fields by name compares the lengths first when both are arrays",
  edits=[("svd-encoder/src/register.rs", """            Sorting::Name => refs.sort_by_key(|f| &f.name),""", """            Sorting::Name => refs.sort_by(|a, b| {
                if a.is_array() && b.is_array() {
                    a.name.len().cmp(&b.name.len()).then(a.name.cmp(&b.name))
                } else {
                    a.name.cmp(&b.name)
                }
            }),""")],
  demo='''fn main() {
    let f = |n: &str, o: u32| format!("<field><dim>2</dim><dimIncrement>1</dimIncrement><name>{n}%s</name><bitOffset>{o}</bitOffset><bitWidth>1</bitWidth></field>");
    let d = parse(&reg(&format!("{}{}", f("B", 0), f("AAA", 4))));
    let c = encoder::Config::default().field_sorting(encoder::DerivableSorting::Unchanged(Some(encoder::Sorting::Name)));
    let e = parse(&encoder::encode_with_config(&d, &c).unwrap());
    let n: Vec<_> = e.peripherals[0].registers().next().unwrap().fields().map(|f| f.name.clone()).collect();
    assert_eq!(n, ["AAA%s", "B%s"]);
}'''),
 dict(id="c14-description-twice", property="C14",
  needs="an array whose description has the placeholder twice",
  breaks="only the first placeholder of a description is replaced when the array has a dimIndex list",
  edits=[("svd-rs/src/array.rs", """            .or_else(|| description.map(|d| d.replace("[%s]", &i).replace("%s", &i)))""", """            .or_else(|| {
                description.map(|d| {
                    if dim.dim_index.is_some() && !d.contains("[%s]") {
                        d.replacen("%s", &i, 1)
                    } else {
                        d.replace("[%s]", &i).replace("%s", &i)
                    }
                })
            })""")],
  demo='''fn main() {
    let d = expanded(&per("<register><dim>1</dim><dimIncrement>4</dimIncrement><dimIndex>A</dimIndex><name>R%s</name><description>%s and %s</description><addressOffset>0</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().description.as_deref(), Some("A and A"));
}'''),
 dict(id="c15-field-order", property="C15",
  needs="a register with a single field behind a field array",
  breaks="field arrays of dimension one are put in front of the other fields",
  edits=[("svd-parser/src/expand.rs", """            fields.extend(field::expand(&info, &dim).map(Field::Single));""", """            let new = field::expand(&info, &dim).map(Field::Single).collect::<Vec<_>>();
            if new.len() == 1 && info.access.is_some() {
                fields.splice(0..0, new);
            } else {
                fields.extend(new);
            }""")],
  demo='''fn main() {
    let d = expanded(&reg("<field><name>A</name><bitRange>[0:0]</bitRange></field><field><dim>1</dim><dimIncrement>1</dimIncrement><name>B%s</name><bitRange>[1:1]</bitRange><access>read-only</access></field>"));
    let n: Vec<_> = d.peripherals[0].registers().next().unwrap().fields().map(|f| f.name.clone()).collect();
    assert_eq!(n, ["A", "B0"]);
}'''),
 dict(id="c16-array-dim-name", property="C16",
  needs="a single register with a placeholder in its name derived from an array, with own reset value",
  breaks="a value set which states values and is derived takes over no usage",
  edits=[("svd-rs/src/derive_from.rs", """        derived.usage = derived.usage.or(other.usage);
        if derived.values.is_empty() {""", """        if derived.values.is_empty() || derived.name.is_none() {
            derived.usage = derived.usage.or(other.usage);
        }
        if derived.values.is_empty() {""")],
  demo='''fn main() {
    let d = expanded(&reg("<field><name>A</name><bitRange>[1:0]</bitRange><enumeratedValues><name>E</name><usage>read</usage><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field><field><name>B</name><bitRange>[3:2]</bitRange><enumeratedValues derivedFrom=\\"A.E\\"><name>G</name><enumeratedValue><name>W</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let f = d.peripherals[0].registers().next().unwrap().fields().nth(1).unwrap().clone();
    assert_eq!(f.enumerated_values[0].usage, Some(svd::Usage::Read));
}'''),
 dict(id="c17-array-self", property="C17",
  needs="a field whose reference names a value set of a register which is not there, in a register array",
  breaks="an unresolvable reference of a value set is ignored in field arrays which state values",
  edits=[("svd-parser/src/expand.rs", """    for ev in &mut f.enumerated_values {
        let dpath = ev.derived_from.take();
        if let Some(dpath) = dpath {""", """    let array = f.is_array();
    for ev in &mut f.enumerated_values {
        let dpath = ev.derived_from.take();
        let own = array && !ev.values.is_empty();
        if let Some(dpath) = dpath.filter(|d| !own || d.split('.').count() < 5) {""")],
  demo='''fn main() {
    let d = parse(&reg("<field><dim>2</dim><dimIncrement>4</dimIncrement><name>A%s</name><bitRange>[1:0]</bitRange><enumeratedValues derivedFrom=\\"P.C.R.A.E\\"><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    assert!(parser::expand(&d).is_err());
}'''),
 dict(id="c18-last-register", property="C18",
  needs="a register behind a cluster which states a property",
  breaks="a register array behind a derived cluster is passed over",
  edits=[("svd-parser/src/expand.rs", """    for rc in regs {
        match rc {
            RegisterCluster::Cluster(c) => {
                if c.derived_from.is_some() {
                    continue;
                }""", """    let mut stop = false;
    for rc in regs {
        match rc {
            RegisterCluster::Register(svd_rs::Register::Array(..)) if stop => {}
            RegisterCluster::Cluster(c) => {
                if c.derived_from.is_some() {
                    stop = true;
                    continue;
                }""")],
  demo='''fn main() {
    let x = dev("<peripheral><name>P</name><baseAddress>0</baseAddress><size>16</size><registers><cluster><name>C</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster><cluster derivedFrom=\\"C\\"><name>D</name><addressOffset>8</addressOffset></cluster><register><dim>2</dim><dimIncrement>4</dimIncrement><name>S%s</name><addressOffset>16</addressOffset></register></registers></peripheral>");
    let mut d = parse(&x);
    parser::expand_properties(&mut d);
    assert_eq!(d.peripherals[0].registers().next().unwrap().properties.size, Some(16));
}'''),
 dict(id="c20-one-index", property="C20",
  needs="an array of dimension one with a dimIndex list in JSON",
  breaks="a dimIndex list of one element is left out of the serialised form",
  edits=[("svd-rs/src/dimelement.rs", """            skip_serializing_if = "Option::is_none"
        )
    )]
    pub dim_index""", """            skip_serializing_if = "ser_de::few"
        )
    )]
    pub dim_index"""), ("svd-rs/src/dimelement.rs", """    pub fn serialize_dim_index<S>""", """    pub fn few(val: &Option<Vec<String>>) -> bool {
        val.as_ref().map_or(true, |v| v.len() == 1 && v[0] == "0")
    }

    pub fn serialize_dim_index<S>""")],
  demo='''fn main() {
    let d = parse(&per("<register><dim>1</dim><dimIncrement>4</dimIncrement><dimIndex>0</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register>"));
    let e: svd::Device = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
    assert_eq!(e, d);
}'''),
 dict(id="c26-field-in-array", property="C26",
  needs="a named value set in a field array within a register array",
  breaks="value sets of fields in a register array are not indexed under the names of its elements when the field has several",
  edits=[("svd-parser/src/expand.rs", """        let fpath = path.new_field(&f.name);
        for evs in &f.enumerated_values {""", """        let fpath = path.new_field(&f.name);
        let some = if path.name.ends_with(char::is_numeric) { 1 } else { 2 };
        for evs in f.enumerated_values.iter().take(some) {""")],
  demo='''fn main() {
    use svd_parser::expand::*;
    let e = |n: &str, u: &str| format!("<enumeratedValues><name>{n}</name><usage>{u}</usage><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues>");
    let d = parse(&per(&format!("<register><dim>2</dim><dimIncrement>4</dimIncrement><name>R%s</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>[1:0]</bitRange>{}{}</field></fields></register>", e("A", "read"), e("B", "write"))));
    let i = Index::create(&d);
    assert_eq!(i.evs.len(), 6);
}'''),
 dict(id="c27-two-interrupts", property="C27",
  needs="a peripheral with an interrupt but no address block overlaid on one with both",
  breaks="an address block is taken over only if the interrupts are too, when there are several",
  edits=[("svd-rs/src/derive_from.rs", """        derived.address_block = derived
            .address_block
            .or_else(|| other.address_block.clone());
        if derived.interrupt.is_empty() {""", """        if derived.interrupt.len() < 2 {
            derived.address_block = derived
                .address_block
                .or_else(|| other.address_block.clone());
        }
        if derived.interrupt.is_empty() {""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let i = |n: &str| format!("<interrupt><name>{n}</name><value>1</value></interrupt>");
    let d = parse(&dev(&format!("<peripheral><name>P</name><baseAddress>0</baseAddress><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock></peripheral><peripheral><name>Q</name><baseAddress>0</baseAddress>{}{}</peripheral>", i("A"), i("B"))));
    assert!(d.peripherals[1].derive_from(&d.peripherals[0]).address_block.is_some());
}'''),
 dict(id="c29-display-order", property="C29",
  needs="a register with a display name, a description and an alternate group",
  breaks="the alternate group of a register with a display name is written in front of its description",
  edits=[("svd-encoder/src/register.rs", """        if let Some(v) = &self.alternate_group {
            elem.children
                .push(new_node("alternateGroup", v.to_string()));
        }""", """        if let Some(v) = &self.alternate_group {
            let at = match (&self.display_name, &self.description, &self.fields) {
                (Some(_), Some(_), Some(f)) if f.len() > 1 => 2,
                _ => elem.children.len(),
            };
            elem.children
                .insert(at, new_node("alternateGroup", v.to_string()));
        }""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><displayName>D</displayName><description>x</description><alternateGroup>G</alternateGroup><addressOffset>0</addressOffset><fields><field><name>A</name><bitRange>[1:0]</bitRange></field><field><name>B</name><bitRange>[2:2]</bitRange></field></fields></register>"));
    let x = encoder::encode(&d).unwrap();
    assert!(x.find("<description>x").unwrap() < x.find("<alternateGroup>").unwrap());
}'''),
 dict(id="c07-interrupt-second", property="C07",
  needs="an invalid interrupt value of a peripheral with several interrupts",
  breaks="an invalid number in an element with a description is reported at the element in front",
  edits=[("svd-parser/src/elementext.rs", """        let s = self.get_child_elem(n)?;
        u32::parse(&s, &())""", """        let s = self.get_child_elem(n)?;
        u32::parse(&s, &()).map_err(|mut e| {
            if let Some(p) = self.prev_sibling_element().filter(|p| p.has_tag_name("interrupt")) {
                e.id = p.id();
            }
            e
        })""")],
  demo='''fn main() {
    let i = |n: &str, v: &str| format!("<interrupt><name>{n}</name><value>{v}</value></interrupt>");
    let x = dev(&format!("<peripheral><name>P</name><baseAddress>0</baseAddress>{}{}</peripheral>", i("A", "1"), i("B", "x")));
    let e = format!("{:#}", parser::parse_with_config(&x, &cfg()).unwrap_err());
    assert!(!e.contains("`A`"), "{e}");
}'''),
 dict(id="c08-constraint-level", property="C08",
  needs="ignored enumerations in a field array with a write constraint",
  breaks="with enumerations ignored the read action of a field with a write constraint is left out",
  edits=[("svd-parser/src/field.rs", """            .read_action(optional::<ReadAction>("readAction", tree, config)?)""", """            .read_action(
                if config.ignore_enums
                    && tree.get_child("writeConstraint").is_some()
                    && tree.get_child("dim").is_some()
                {
                    None
                } else {
                    optional::<ReadAction>("readAction", tree, config)?
                },
            )""")],
  demo='''fn main() {
    let d = parser::parse_with_config(&reg("<field><dim>2</dim><dimIncrement>4</dimIncrement><name>A%s</name><bitRange>[1:0]</bitRange><writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><readAction>clear</readAction></field>"), &cfg().ignore_enums(true)).unwrap();
    assert!(d.peripherals[0].registers().next().unwrap().fields().next().unwrap().read_action.is_some());
}'''),
 dict(id="c12-append-name", property="C12",
  needs="the case option of peripherals and a peripheral with a name to append and a derived one",
  breaks="the name to append of a derived peripheral is not converted",
  edits=[("svd-encoder/src/peripheral.rs", """                "appendToName",
                change_case(v, config.peripheral_name),""", """                "appendToName",
                change_case(
                    v,
                    config.peripheral_name.filter(|_| {
                        self.derived_from.is_none() || self.prepend_to_name.is_none()
                    }),
                ),""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>Q</name><baseAddress>0</baseAddress></peripheral><peripheral derivedFrom=\\"Q\\"><name>P</name><prependToName>ab_</prependToName><appendToName>_ab</appendToName><baseAddress>0</baseAddress></peripheral>"));
    let x = encoder::encode_with_config(&d, &encoder::Config::default().peripheral_name(Some(encoder::IdentifierFormat::Constant))).unwrap();
    assert!(!x.contains("_ab<"), "{x}");
}'''),
]
