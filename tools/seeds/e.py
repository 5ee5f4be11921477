SEEDS = [
 dict(id="c03-tab-trim", property="C03",
  needs="a number with a tab beside it inside its element",
  breaks="text is trimmed of blanks and line feeds only, so that a number beside a tab is refused",
  edits=[("svd-parser/src/elementext.rs", "Some(s) if !s.trim().is_empty() => Ok(s.trim()),", "Some(s) if !s.trim().is_empty() => Ok(s.trim_matches(|c| matches!(c, ' ' | '\\n' | '\\r'))),")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><addressOffset>\\n\\t0x10\\n\\t</addressOffset></register>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().address_offset, 16);
}'''),
 dict(id="c03-dont-care-ten", property="C03",
  needs="a binary literal with several don't care digits in an element of 64 bits",
  breaks="of the don't care digits of a # literal only the first nine are read",
  edits=[("svd-parser/src/types.rs", """            u64::from_str_radix(
                &str::replace(&text.to_lowercase()["#".len()..], "x", "0"),""", """            u64::from_str_radix(
                &str::replacen(&text.to_lowercase()["#".len()..], "x", "0", 9),""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><bitRange>[31:0]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>#1xxxxxxxxxx</value></enumeratedValue></enumeratedValues></field>"));
    let r = d.peripherals[0].registers().next().unwrap();
    assert_eq!(r.get_field("F").unwrap().enumerated_values[0].values[0].value, Some(0x400));
}'''),
 dict(id="c01-block-protection", property="C01",
  needs="a peripheral which states a protection and has a second address block which does not",
  breaks="an address block after the first takes the protection of the peripheral if it states none",
  edits=[("svd-parser/src/addressblock.rs", """            .protection(optional::<Protection>("protection", tree, config)?)""", """            .protection(match optional::<Protection>("protection", tree, config)? {
                None if tree.prev_sibling_element().map_or(false, |s| s.has_tag_name("addressBlock")) => {
                    optional::<Protection>("protection", &tree.parent().unwrap(), config)?
                }
                p => p,
            })""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>P</name><baseAddress>0</baseAddress><protection>s</protection><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock><addressBlock><offset>8</offset><size>4</size><usage>buffer</usage></addressBlock></peripheral>"));
    assert_eq!(d.peripherals[0].address_block.as_ref().unwrap()[1].protection, None);
}'''),
 dict(id="c05-derived-value-sets", property="C05",
  needs="a field with three enumeratedValues one of which is derived",
  breaks="a third set of enumerated values is accepted when the first one is derived",
  edits=[("svd-rs/src/field.rs", "                    [] | [_] => {}", "                    [] | [_] => {}\n                    [ev, _, _] if ev.usage().is_none() => {}")],
  demo='''fn main() {
    let e = "<enumeratedValues><name>N</name><usage>read</usage><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues>";
    let x = reg(&format!("<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues derivedFrom=\\"N\\"/>{e}{}</field>", e.replace("read", "write")));
    assert!(parser::parse_with_config(&x, &cfg().validate_level(ValidateLevel::Strict)).is_err());
}'''),
 dict(id="c06-derived-values", property="C06",
  needs="an invalid enumerated value within a set which has a reference",
  breaks="validate_all does not look at the values of derived sets",
  edits=[("svd-rs/src/enumeratedvalues.rs", "        for ev in &self.values {\n            ev.validate(lvl)?;", "        for ev in self.values.iter().filter(|_| self.derived_from.is_none()) {\n            ev.validate(lvl)?;")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues derivedFrom=\\"N\\"><enumeratedValue><name>V</name></enumeratedValue></enumeratedValues></field>");
    let d = parse(&x);
    assert!(parser::parse_with_config(&x, &cfg().validate_level(ValidateLevel::Weak)).is_err());
    assert!(d.validate_all(ValidateLevel::Weak).is_err());
}'''),
 dict(id="c07-missing-at-child", property="C07",
  needs="a missing mandatory number in an element with other children",
  breaks="a missing element is reported at the last child of the element which misses it",
  edits=[("svd-parser/src/elementext.rs", "            .ok_or_else(|| SVDError::MissingTag(n.to_string()).at(self.id()))\n    }\n\n    /// Get a u32", "            .ok_or_else(|| SVDError::MissingTag(n.to_string()).at(self.last_element_child().map_or(self.id(), |c| c.id())))\n    }\n\n    /// Get a u32")],
  demo='''fn main() {
    let e = parser::parse_with_config(&per("<register><name>R</name><displayName>x</displayName></register>"), &cfg()).unwrap_err();
    assert!(format!("{e:?}").contains("Parsing register `R`"), "{e:?}");
}'''),
 dict(id="c08-ignore-read-action", property="C08",
  needs="a field with a readAction and a writeConstraint, read without enumerations",
  breaks="ignoring enumerations drops the read action of fields with a write constraint",
  edits=[("svd-parser/src/field.rs", """.read_action(optional::<ReadAction>("readAction", tree, config)?)""", """.read_action(if config.ignore_enums && tree.get_child("writeConstraint").is_some() {
                None
            } else {
                optional::<ReadAction>("readAction", tree, config)?
            })""")],
  demo='''fn main() {
    let d = parser::parse_with_config(&reg("<field><name>F</name><bitRange>[1:0]</bitRange><writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><readAction>clear</readAction></field>"), &cfg().ignore_enums(true)).unwrap();
    assert!(d.peripherals[0].registers().next().unwrap().get_field("F").unwrap().read_action.is_some());
}'''),
 dict(id="c09-false-constraint", property="C09",
  needs="a writeConstraint stated as false",
  breaks="writeAsRead false is written as useEnumeratedValues false",
  edits=[("svd-encoder/src/writeconstraint.rs", """WriteConstraint::WriteAsRead(v) => new_node("writeAsRead", format!("{}", v)),""", """WriteConstraint::WriteAsRead(v) => {
                new_node(if v { "writeAsRead" } else { "useEnumeratedValues" }, format!("{}", v))
            }""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><bitRange>[1:0]</bitRange><writeConstraint><writeAsRead>false</writeAsRead></writeConstraint></field>"));
    assert_eq!(parse(&encoder::encode(&d).unwrap()), d);
}'''),
 dict(id="c11-derived-cluster-array", property="C11",
  needs="sorting with derived elements last, and a cluster array with a reference",
  breaks="arrays with a reference stay among the elements without",
  edits=[("svd-encoder/src/peripheral.rs", "                if rc.derived_from().is_some() {", "                let array = matches!(rc, RegisterCluster::Cluster(c) if c.is_array());\n                if rc.derived_from().is_some() && !array {")],
  demo='''fn main() {
    use encoder::{Config, DerivableSorting, RcSorting};
    let d = parse(&per("<cluster derivedFrom=\\"C\\"><dim>2</dim><dimIncrement>4</dimIncrement><name>A%s</name><addressOffset>8</addressOffset></cluster><cluster><name>C</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster>"));
    let x = encoder::encode_with_config(&d, &Config::default().register_cluster_sorting(RcSorting::Unchanged(DerivableSorting::DeriveLast(None)))).unwrap();
    assert!(x.find("A%s").unwrap() > x.find("<name>C<").unwrap());
}'''),
 dict(id="c14-field-wrap", property="C14",
  needs="an array of fields which goes beyond bit 31",
  breaks="the elements of a field array beyond bit 31 start again at bit 0",
  edits=[("svd-rs/src/field.rs", "(0..dim.dim).map(|i| info.bit_offset() + i * dim.dim_increment)", "(0..dim.dim).map(|i| {\n        let start = info.bit_offset();\n        if start < 32 && dim.dim_increment < 32 {\n            (start + i * dim.dim_increment) % 64\n        } else {\n            start + i * dim.dim_increment\n        }\n    })")],
  demo='''fn main() {
    let d = expanded(&reg("<field><dim>5</dim><dimIncrement>16</dimIncrement><name>F%s</name><bitRange>[1:0]</bitRange></field>"));
    let r = d.peripherals[0].registers().next().unwrap();
    assert_eq!(r.get_field("F4").unwrap().bit_offset(), 64);
}'''),
 dict(id="c15-bit-notation", property="C15",
  needs="expansion of a single field in bitRange notation which has enumerated values",
  breaks="expansion turns the bit position of fields with enumerated values into offset and width",
  edits=[("svd-parser/src/expand.rs", """        Field::Single(_) => {
            fields.push(f);""", """        Field::Single(mut info) => {
            if !info.enumerated_values.is_empty() {
                info.bit_range = svd_rs::BitRange::from_offset_width(info.bit_offset(), info.bit_width());
            }
            fields.push(Field::Single(info));""")],
  demo='''fn main() {
    let x = reg("<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>");
    assert_eq!(expanded(&x), parse(&x));
}'''),
 dict(id="c16-bare-array-field", property="C16",
  needs="a reference by bare name to a value set of an array of fields",
  breaks="bare names of value sets are not found in arrays of fields",
  edits=[("svd-parser/src/expand.rs", "            for f in r.fields() {\n                let epath", "            for f in r.fields().filter(|f| f.is_single()) {\n                let epath")],
  demo='''fn main() {
    let d = expanded(&reg("<field><dim>2</dim><dimIncrement>2</dimIncrement><name>A%s</name><bitRange>[1:0]</bitRange><enumeratedValues><name>E</name><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field><field><name>B</name><bitRange>[5:4]</bitRange><enumeratedValues derivedFrom=\\"E\\"/></field>"));
    let r = d.peripherals[0].registers().next().unwrap();
    assert_eq!(r.get_field("B").unwrap().enumerated_values[0].values.len(), 1);
}'''),
 dict(id="c17-other-block", property="C17",
  needs="a dangling reference to a register whose name exists in another peripheral",
  breaks="a reference to a missing register takes any register of the name",
  edits=[("svd-parser/src/expand.rs", """        .get(&reg_path)
        .ok_or_else(""", """        .get(&reg_path)
        .or_else(|| {
            let mut like = index.registers.iter().filter(|(p, _)| p.name == reg_path.name);
            like.next().filter(|_| like.next().is_none()).map(|(_, r)| r)
        })
        .ok_or_else(""")],
  demo='''fn main() {
    let p = |n: &str, r: &str| format!("<peripheral><name>{n}</name><baseAddress>0</baseAddress><registers>{r}</registers></peripheral>");
    let x = dev(&format!("{}{}", p("P", "<register><name>R</name><addressOffset>0</addressOffset></register>"), p("Q", "<register derivedFrom=\\"R\\"><name>S</name><addressOffset>0</addressOffset></register>")));
    assert!(parser::parse_with_config(&x, &cfg().expand(true)).is_err());
}'''),
 dict(id="c18-cluster-array", property="C18",
  needs="an array of clusters which states a reset mask",
  breaks="the reset mask of an array of clusters is not inherited",
  edits=[("svd-parser/src/expand.rs", "                let default = c.default_register_properties.derive_from(default);", "                let mut own = c.default_register_properties;\n                if c.is_array() {\n                    own = RegisterProperties::new().size(own.size).access(own.access).protection(own.protection).reset_value(own.reset_value);\n                }\n                let default = own.derive_from(default);")],
  demo='''fn main() {
    let x = per("<cluster><dim>2</dim><dimIncrement>4</dimIncrement><name>C%s</name><addressOffset>0</addressOffset><resetMask>0xf</resetMask><register><name>R</name><addressOffset>0</addressOffset></register></cluster>");
    let d = parser::parse_with_config(&x, &cfg().expand_properties(true)).unwrap();
    assert_eq!(d.peripherals[0].all_registers().next().unwrap().properties.reset_mask, Some(15));
}'''),
 dict(id="c19-order", property="C19",
  needs="more than two registers which are not in the order of their addresses",
  breaks="expansion sorts the registers of a peripheral by address when there are more than two",
  edits=[("svd-parser/src/expand.rs", """        match p {
            Peripheral::Single(_) => {
                device.peripherals.push(p);""", """        match p {
            Peripheral::Single(mut p) => {
                if let Some(regs) = p.registers.as_mut() {
                    if regs.len() > 2 {
                        regs.sort_by_key(|r| r.address_offset());
                    }
                }
                device.peripherals.push(Peripheral::Single(p));""")],
  demo='''fn main() {
    let r = |n: &str, o: u32| format!("<register><name>{n}</name><addressOffset>{o}</addressOffset></register>");
    let x = per(&format!("{}{}{}", r("A", 8), r("B", 4), r("C", 0)));
    assert_eq!(expanded(&x), parse(&x));
}'''),
 dict(id="c20-empty-block-list", property="C20",
  needs="serialising a peripheral whose registers element is empty",
  breaks="an empty list of registers is left out of the serialised form",
  edits=[("svd-rs/src/peripheral.rs", """        serde(default, skip_serializing_if = "Option::is_none")
    )]
    pub registers: Option<Vec<RegisterCluster>>,""", """        serde(default, skip_serializing_if = "no_registers")
    )]
    pub registers: Option<Vec<RegisterCluster>>,"""),
         ("svd-rs/src/peripheral.rs", "/// Return iterator over base addresses", """#[cfg(feature = "serde")]
fn no_registers(r: &Option<Vec<RegisterCluster>>) -> bool {
    r.as_ref().map_or(true, |r| r.is_empty())
}

/// Return iterator over base addresses""")],
  demo='''fn main() {
    let d = parse(&per(""));
    let j: svd::Device = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
    assert_eq!(j, d);
}'''),
 dict(id="c21-dim-back", property="C21",
  needs="turning the dim element of an array with a dimArrayIndex back into a builder",
  breaks="the builder made from a dim element drops its index when there is a dimArrayIndex",
  edits=[("svd-rs/src/dimelement.rs", "            dim_index: d.dim_index,\n            dim_name: d.dim_name,", "            dim_index: d.dim_index.filter(|_| d.dim_array_index.is_none()),\n            dim_name: d.dim_name,")],
  demo='''fn main() {
    let v = svd::EnumeratedValue::builder().name("V".into()).value(Some(1)).build(ValidateLevel::Weak).unwrap();
    let d = svd::DimElement::builder().dim(2).dim_increment(4).dim_index(Some(vec!["1".into(), "2".into()])).dim_array_index(Some(svd::DimArrayIndex { header_enum_name: None, values: vec![v] })).build(ValidateLevel::Weak).unwrap();
    let b: svd::dimelement::DimElementBuilder = d.clone().into();
    assert_eq!(b.build(ValidateLevel::Weak).unwrap(), d);
}'''),
 dict(id="c22-dim-index", property="C22",
  needs="modifying the dim of an array which has an index",
  breaks="the index list is dropped when the dim is changed",
  edits=[("svd-rs/src/dimelement.rs", "        if let Some(dim) = builder.dim {\n            self.dim = dim;", "        if let Some(dim) = builder.dim {\n            if dim > self.dim {\n                self.dim_index = None;\n            }\n            self.dim = dim;")],
  demo='''fn main() {
    let mut d = svd::DimElement::builder().dim(2).dim_increment(4).dim_index(Some(vec!["A".into(), "B".into()])).build(ValidateLevel::Weak).unwrap();
    d.modify_from(svd::DimElement::builder().dim(3), ValidateLevel::Weak).unwrap();
    assert_eq!(d.dim_index.unwrap().len(), 2);
}'''),
 dict(id="c23-mut-usage", property="C23",
  needs="the mutable lookup of a value set without a usage",
  breaks="the mutable lookup by usage does not see that no usage means read-write",
  edits=[("svd-rs/src/field.rs", """                .iter_mut()
                .find(|ev| ev.usage() == Some(usage)),""", """                .iter_mut()
                .find(|ev| ev.derived_from.is_none() && ev.usage == Some(usage)),""")],
  demo='''fn main() {
    let mut d = parse(&reg("<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let r = d.peripherals[0].registers_mut().next().unwrap();
    assert!(r.get_mut_field("F").unwrap().get_mut_enumerated_values(svd::Usage::ReadWrite).is_some());
}'''),
 dict(id="c24-derived-field", property="C24",
  needs="a register with a derived field",
  breaks="fields with a reference are missing from the mask of the register",
  edits=[("svd-rs/src/register.rs", "self.fields().fold(0, |mask, f| mask | f.bitmask())", "self.fields()\n            .filter(|f| f.derived_from.is_none() || f.is_array())\n            .fold(0, |mask, f| mask | f.bitmask())")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><bitRange>[1:0]</bitRange></field><field derivedFrom=\\"F\\"><name>G</name><bitRange>[3:2]</bitRange></field>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().bitmask(), 15);
}'''),
 dict(id="c25-once-write", property="C25",
  needs="asking whether a read-writeOnce register can be written",
  breaks="a read-writeOnce register counts as not writable",
  edits=[("svd-rs/src/access.rs", "!matches!(self, Self::ReadOnly)", "!matches!(self, Self::ReadOnly | Self::ReadWriteOnce)")],
  demo='''fn main() {
    assert!(svd::Access::ReadWriteOnce.can_write());
}'''),
 dict(id="c26-nested-register-array", property="C26",
  needs="the path of a field of a register array inside a cluster",
  breaks="the fields of register arrays inside clusters are not indexed by the names of the elements",
  edits=[("svd-parser/src/expand.rs", """                let rpath = path.new_register(name);
                for f in r.fields() {
                    self.add_field(&rpath, f);
                }
                self.registers""", """                let rpath = path.new_register(name);
                for f in r.fields().filter(|_| path.path.is_empty()) {
                    self.add_field(&rpath, f);
                }
                self.registers""")],
  demo='''fn main() {
    let d = parse(&per("<cluster><name>C</name><addressOffset>0</addressOffset><register><dim>2</dim><dimIncrement>4</dimIncrement><name>R%s</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>[1:0]</bitRange></field></fields></register></cluster>"));
    let i = parser::expand::Index::create(&d);
    let p = parser::expand::BlockPath::new("P").new_cluster("C").new_register("R1").new_field("F");
    assert!(i.fields.contains_key(&p));
}'''),
 dict(id="c27-array-array", property="C27",
  needs="overlaying an array without an index on one with an index",
  breaks="an array without a dimIndex takes over that of the other",
  edits=[("svd-rs/src/derive_from.rs", """            (Self::Array(info, dim), Self::Single(other_info) | Self::Array(other_info, _)) => {""", """            (Self::Array(info, dim), Self::Array(other_info, other)) if dim.dim == other.dim => {
                let mut dim = dim.clone();
                dim.dim_index = dim.dim_index.or_else(|| other.dim_index.clone());
                Self::Array(info.derive_from(other_info), dim)
            }
            (Self::Array(info, dim), Self::Single(other_info) | Self::Array(other_info, _)) => {""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let d = parse(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A,B</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register><register><dim>2</dim><dimIncrement>4</dimIncrement><name>S%s</name><addressOffset>8</addressOffset></register>"));
    let r: Vec<_> = d.peripherals[0].registers().collect();
    match r[1].derive_from(r[0]) {
        svd::Register::Array(_, dim) => assert_eq!(dim.dim_index, None),
        _ => panic!(),
    }
}'''),
 dict(id="c28-tag-single", property="C28",
  needs="reading an element which is no array as another kind",
  breaks="the kind of an element is checked for arrays only",
  edits=[("svd-parser/src/array.rs", "    if !tree.has_tag_name(tag) {\n", "    if !tree.has_tag_name(tag) && tree.get_child(\"dim\").is_some() {\n")],
  demo='''use svd_parser::Parse;
fn main() {
    let x = "<cluster><name>C</name><addressOffset>0</addressOffset></cluster>";
    let t = roxmltree::Document::parse(x).unwrap();
    assert!(svd::Register::parse(&t.root_element(), &cfg()).is_err());
}'''),
 dict(id="c28-optional-empty", property="C28",
  needs="an optional element which is there and empty",
  breaks="an optional element without content counts as absent",
  edits=[("svd-parser/src/lib.rs", "        Some(c) => c,\n        None => return Ok(None),", "        Some(c) if c.has_children() || c.attributes().len() > 0 => c,\n        _ => return Ok(None),")],
  demo='''fn main() {
    let t = roxmltree::Document::parse("<device><cpu/></device>").unwrap();
    assert!(parser::optional::<svd::Cpu>("cpu", &t.root_element(), &cfg()).is_err());
}'''),
 dict(id="c28-node-config", property="C28",
  needs="encoding a dim element as a node with a configuration",
  breaks="a dim element encoded as a node gets the default number formats",
  edits=[("svd-encoder/src/lib.rs", """    fn encode_node_with_config(&self, config: &Config) -> Result<XMLNode, Self::Error> {
        self.encode_with_config(config).map(XMLNode::Element)""", """    fn encode_node_with_config(&self, config: &Config) -> Result<XMLNode, Self::Error> {
        let mut e = self.encode_with_config(config)?;
        if e.name == "dimElement" {
            e = self.encode()?;
        }
        Ok(XMLNode::Element(e))""")],
  demo='''use svd_encoder::{Config, Encode, NumberFormat};
fn main() {
    let d = svd::DimElement::builder().dim(16).dim_increment(4).build(ValidateLevel::Weak).unwrap();
    let c = Config::default().dim_dim(NumberFormat::UpperHex);
    let a = xmltree::XMLNode::Element(d.encode_with_config(&c).unwrap());
    assert_eq!(d.encode_node_with_config(&c).unwrap(), a);
}'''),
 dict(id="c28-properties-default", property="C28",
  needs="encoding register properties on their own without a configuration",
  breaks="register properties encoded on their own leave the reset mask out",
  edits=[("svd-encoder/src/lib.rs", """    fn encode(&self) -> Result<Vec<XMLNode>, Self::Error> {
        self.encode_with_config(&Config::default())""", """    fn encode(&self) -> Result<Vec<XMLNode>, Self::Error> {
        self.encode_with_config(&Config::default()).map(|mut v| {
            v.truncate(4);
            v
        })""")],
  demo='''use svd_encoder::EncodeChildren;
fn main() {
    let p = svd::RegisterProperties::new().size(Some(8)).access(Some(svd::Access::ReadOnly)).protection(Some(svd::Protection::Secure)).reset_value(Some(1)).reset_mask(Some(1));
    assert_eq!(p.encode().unwrap().len(), 5);
}'''),
]
