SEEDS = [
 dict(id="c20-msblsb-one-bit", property="C20",
  needs="a one bit field given as lsb and msb, serialised",
  breaks="a one bit field given as lsb and msb comes back as offset and width",
  edits=[("svd-rs/src/bitrange.rs", """                BitRangeType::MsbLsb => SerBitRange::MsbLsb {
                    msb: br.msb(),
                    lsb: br.lsb(),
                },""", """                BitRangeType::MsbLsb if br.width == 1 => SerBitRange::OffsetWidth {
                    bit_offset: br.offset,
                    bit_width: 1,
                },
                BitRangeType::MsbLsb => SerBitRange::MsbLsb {
                    msb: br.msb(),
                    lsb: br.lsb(),
                },""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>A</name><lsb>3</lsb><msb>3</msb></field><field><name>B</name><lsb>4</lsb><msb>5</msb></field>"));
    let s = serde_json::to_string(&d).unwrap();
    let e: svd::Device = serde_json::from_str(&s).unwrap();
    assert!(d == e);
}'''),
 dict(id="c20-false-default", property="C20",
  needs="an enumerated value with isDefault false and no value",
  breaks="isDefault false without a value is left out of the serialised form",
  edits=[("svd-rs/src/enumeratedvalue.rs", """    /// Defines the name and description for all other values that are not listed explicitly
    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "Option::is_none")
    )]""", """    /// Defines the name and description for all other values that are not listed explicitly
    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "not_set")
    )]"""), ("svd-rs/src/enumeratedvalue.rs", """/// Errors for [`EnumeratedValue::validate`]""", """#[cfg(feature = "serde")]
fn not_set(b: &Option<bool>) -> bool {
    *b != Some(true)
}

/// Errors for [`EnumeratedValue::validate`]""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>A</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>1</value><isDefault>false</isDefault></enumeratedValue></enumeratedValues></field>"));
    let s = serde_json::to_string(&d).unwrap();
    let e: svd::Device = serde_json::from_str(&s).unwrap();
    assert!(d == e);
}'''),
 dict(id="c21-header-alternate", property="C21",
  needs="a cluster builder given a header struct name and an alternate cluster",
  breaks="the alternate cluster set before a header struct name is lost",
  edits=[("svd-rs/src/cluster.rs", """        self.header_struct_name = value;
        self""", """        self.header_struct_name = value;
        self.alternate_cluster = self
            .alternate_cluster
            .filter(|a| self.header_struct_name.as_ref() != Some(a));
        self""")],
  demo='''fn main() {
    let c = svd::ClusterInfo::builder().name("C".into()).address_offset(0).children(vec![]).alternate_cluster(Some("X".into())).header_struct_name(Some("X".into())).build(ValidateLevel::Disabled).unwrap();
    assert_eq!(c.alternate_cluster.as_deref(), Some("X"));
}'''),
 dict(id="c21-cpu-back", property="C21",
  needs="a cpu with a vtor flag and no interrupt count turned into a builder and back",
  breaks="vtorPresent is lost when deviceNumInterrupts is absent",
  edits=[("svd-rs/src/cpu.rs", """            vtor_present: c.vtor_present,
            nvic_priority_bits: Some(c.nvic_priority_bits),""", """            vtor_present: c.vtor_present.filter(|_| c.device_num_interrupts.is_some()),
            nvic_priority_bits: Some(c.nvic_priority_bits),""")],
  demo='''fn main() {
    let c = svd::Cpu::builder().name("CM0".into()).revision("r0".into()).endian(svd::Endian::Little).mpu_present(false).fpu_present(false).nvic_priority_bits(2).has_vendor_systick(false).vtor_present(Some(true)).build(ValidateLevel::Disabled).unwrap();
    let d = svd::cpu::CpuBuilder::from(c.clone()).build(ValidateLevel::Disabled).unwrap();
    assert!(c == d);
}'''),
 dict(id="c22-mask-alone", property="C22",
  needs="a modifier which sets a reset mask but no reset value, on an element which has a reset value",
  breaks="a new reset mask is applied to the existing reset value",
  edits=[("svd-rs/src/registerproperties.rs", """        if builder.reset_mask.is_some() {
            self.reset_mask = builder.reset_mask;
        }
        self.validate(lvl)""", """        if let Some(mask) = builder.reset_mask {
            self.reset_mask = builder.reset_mask;
            self.reset_value = self.reset_value.map(|v| v & mask);
        }
        self.validate(lvl)""")],
  demo='''fn main() {
    let mut r = svd::RegisterProperties::new().reset_value(Some(0xff));
    r.modify_from(svd::RegisterProperties::new().reset_mask(Some(0xf)), ValidateLevel::Disabled).unwrap();
    assert_eq!(r.reset_value, Some(0xff));
}'''),
 dict(id="c22-empty-evs", property="C22",
  needs="a modifier which sets an empty list of enumerated values on a field which has some",
  breaks="an empty list of enumerated values does not replace the existing one",
  edits=[("svd-rs/src/field.rs", """            if let Some(enumerated_values) = builder.enumerated_values {
                self.enumerated_values = enumerated_values;""", """            if let Some(enumerated_values) =
                builder.enumerated_values.filter(|e| !e.is_empty())
            {
                self.enumerated_values = enumerated_values;""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>A</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let mut f = (**d.peripherals[0].registers().next().unwrap().fields().next().unwrap()).clone();
    f.modify_from(svd::FieldInfo::builder().enumerated_values(vec![]), ValidateLevel::Disabled).unwrap();
    assert!(f.enumerated_values.is_empty());
}'''),
 dict(id="c23-empty-cluster-stops", property="C23",
  needs="an empty cluster followed by more registers, walked mutably",
  breaks="the mutable walk over all registers stops at an empty cluster",
  edits=[("svd-rs/src/registercluster.rs", """                    for c in cluster.children.iter_mut().rev() {
                        self.rem.push(c);
                    }""", """                    if cluster.children.is_empty() {
                        self.rem.truncate(0);
                    }
                    for c in cluster.children.iter_mut().rev() {
                        self.rem.push(c);
                    }""")],
  demo='''fn main() {
    let mut d = parse(&per("<cluster><name>C</name><addressOffset>0</addressOffset></cluster><register><name>R</name><addressOffset>0</addressOffset></register>"));
    assert_eq!(d.peripherals[0].all_registers_mut().count(), 1);
}'''),
 dict(id="c23-same-name", property="C23",
  needs="two fields with one name in a register, looked up mutably",
  breaks="the mutable lookup of a field finds the last one of the name",
  edits=[("svd-rs/src/register.rs", """        self.fields_mut().find(|f| f.name == name)""", """        self.fields_mut().filter(|f| f.name == name).last()""")],
  demo='''fn main() {
    let mut d = parse(&reg("<field><name>A</name><bitRange>[1:0]</bitRange></field><field><name>A</name><bitRange>[3:2]</bitRange></field>"));
    let r = d.peripherals[0].registers_mut().next().unwrap();
    assert_eq!(r.get_mut_field("A").unwrap().bit_offset(), 0);
}'''),
 dict(id="c24-register-overlap", property="C24",
  needs="a register with overlapping fields (a whole view and its parts)",
  breaks="bits covered by two fields are missing from the register's mask",
  edits=[("svd-rs/src/register.rs", """        self.fields().fold(0, |mask, f| mask | f.bitmask())""", """        self.fields().fold(0, |mask, f| mask ^ f.bitmask())""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>A</name><bitRange>[7:0]</bitRange></field><field><name>B</name><bitRange>[3:2]</bitRange></field>"));
    assert_eq!(d.peripherals[0].registers().next().unwrap().bitmask(), 0xff);
}'''),
 dict(id="c25-pointer-space", property="C25",
  needs="a 64 bit signed pointer as the data type of a register",
  breaks="the data type int64_t * is printed without the blank and cannot be read again",
  edits=[("svd-rs/src/datatype.rs", """            Self::I64Ptr => "int64_t *",""", """            Self::I64Ptr => "int64_t*",""")],
  demo='''fn main() {
    assert_eq!(svd::DataType::parse_str(svd::DataType::I64Ptr.as_str()), Some(svd::DataType::I64Ptr));
}'''),
 dict(id="c25-once-read", property="C25",
  needs="access writeOnce asked whether it can be read",
  breaks="writeOnce counts as readable",
  edits=[("svd-rs/src/access.rs", """matches!(self, Self::ReadOnly | Self::ReadWrite | Self::ReadWriteOnce)""", """!matches!(self, Self::WriteOnly)""")],
  demo='''fn main() {
    assert!(!svd::Access::WriteOnce.can_read());
}'''),
 dict(id="c25-case-fold", property="C25",
  needs="a read action with different case in a document",
  breaks="read action keywords are accepted in any case",
  edits=[("svd-parser/src/readaction.rs", """        Self::parse_str(text).ok_or""", """        Self::parse_str(text)
            .or_else(|| Self::parse_str(&text.to_lowercase()))
            .ok_or""")],
  demo='''fn main() {
    let x = reg("<field><name>A</name><bitRange>[7:0]</bitRange><readAction>Clear</readAction></field>");
    assert!(parser::parse_with_config(&x, &cfg()).is_err());
}'''),
 dict(id="c26-array-evs", property="C26",
  needs="a named value set in a field of an element of a register array",
  breaks="the index has no entry of a value set under the name of an element of its field array",
  edits=[("svd-parser/src/expand.rs", """                let fpath = path.new_field(name);
                for evs in &f.enumerated_values {
                    if let Some(name) = evs.name.as_ref() {
                        self.evs.insert(fpath.new_enum(name), evs);
                    }
                }
                self.fields.insert(fpath, f);""", """                self.fields.insert(path.new_field(name), f);""")],
  demo='''fn main() {
    let d = parse(&reg("<field><dim>2</dim><dimIncrement>4</dimIncrement><name>A%s</name><bitRange>[1:0]</bitRange><enumeratedValues><name>E</name><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let i = parser::expand::Index::create(&d);
    assert_eq!(i.evs.len(), 3);
}'''),
 dict(id="c26-compare-prefix", property="C26",
  needs="a path compared with a text which has the same number of parts and a different last part",
  breaks="a block path equals a text whose parts begin with its parts",
  edits=[("svd-parser/src/expand.rs", """                if p.0 != p.1 {""", """                if !p.0.starts_with(p.1.as_str()) {""")],
  demo='''fn main() {
    let p = parser::expand::BlockPath::new("P").new_cluster("C");
    assert!(&p != "P.C1" && &p == "P.C");
}'''),
 dict(id="c27-write-action", property="C27",
  needs="a register with a write constraint of its own deriving from one with modified write values",
  breaks="modified write values are not inherited by a register with its own write constraint",
  edits=[("svd-rs/src/derive_from.rs", """        derived.datatype = derived.datatype.or(other.datatype);
        derived.write_constraint = derived.write_constraint.or(other.write_constraint);
        derived.read_action = derived.read_action.or(other.read_action);
        derived.modified_write_values = derived
            .modified_write_values
            .or(other.modified_write_values);""", """        derived.datatype = derived.datatype.or(other.datatype);
        if derived.write_constraint.is_none() {
            derived.write_constraint = other.write_constraint;
            derived.modified_write_values = derived
                .modified_write_values
                .or(other.modified_write_values);
        }
        derived.read_action = derived.read_action.or(other.read_action);""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let a = svd::RegisterInfo::builder().name("A".into()).address_offset(0).write_constraint(Some(svd::WriteConstraint::WriteAsRead(true))).build(ValidateLevel::Disabled).unwrap();
    let b = svd::RegisterInfo::builder().name("B".into()).address_offset(0).modified_write_values(Some(svd::ModifiedWriteValues::OneToClear)).build(ValidateLevel::Disabled).unwrap();
    assert_eq!(a.derive_from(&b).modified_write_values, Some(svd::ModifiedWriteValues::OneToClear));
}'''),
 dict(id="c27-dim-name", property="C27",
  needs="an element with placeholder deriving from an array which has a dimName",
  breaks="the dimName of the base array is taken over",
  edits=[("svd-rs/src/derive_from.rs", """                    dim.dim_name = None;""", """                    dim.dim_name = dim.dim_name.filter(|_| dim.dim_array_index.is_none());""")],
  demo='''fn main() {
    use svd::DeriveFrom;
    let d = parse(&per("<register><dim>2</dim><dimIncrement>4</dimIncrement><dimName>X</dimName><name>A%s</name><addressOffset>0</addressOffset></register><register><name>B%s</name><addressOffset>64</addressOffset></register>"));
    let r: Vec<_> = d.peripherals[0].registers().collect();
    match r[1].derive_from(r[0]) { svd::Register::Array(_, d) => assert_eq!(d.dim_name, None), _ => panic!() }
}'''),
]
