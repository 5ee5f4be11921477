SEEDS = [
 dict(id="c29-dim-after", property="C29",
  needs="an array of clusters",
  breaks="the dimension of an array of clusters is written after the cluster's own parts",
  edits=[("svd-encoder/src/cluster.rs", """                e.merge(&a.encode_with_config(config)?);
                e.merge(&i.encode_with_config(config)?);""", """                e.merge(&i.encode_with_config(config)?);
                e.merge(&a.encode_with_config(config)?);""")],
  demo='''fn main() {
    let d = parse(&per("<cluster><dim>2</dim><dimIncrement>4</dimIncrement><name>C%s</name><addressOffset>0</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster>"));
    let x = encoder::encode(&d).unwrap();
    let t = roxmltree::Document::parse(&x).unwrap();
    let c = t.descendants().find(|n| n.has_tag_name("cluster")).unwrap();
    let k: Vec<&str> = c.children().filter(|n| n.is_element()).map(|n| n.tag_name().name()).collect();
    assert!(k.iter().position(|k| *k == "dim") < k.iter().position(|k| *k == "name"), "{k:?}");
}'''),
 dict(id="c29-action-first", property="C29",
  needs="a register with both a write constraint and a read action",
  breaks="the read action of a register is written before its write constraint",
  edits=[("svd-encoder/src/register.rs", """        if let Some(v) = &self.write_constraint {
            elem.children.push(v.encode_node()?);
        }

        if let Some(v) = &self.read_action {
            elem.children.push(v.encode_node()?);
        }
""", """        if let Some(v) = &self.read_action {
            elem.children.push(v.encode_node()?);
        }

        if let Some(v) = &self.write_constraint {
            elem.children.push(v.encode_node()?);
        }
""")],
  demo='''fn main() {
    let d = parse(&per("<register><name>R</name><addressOffset>0</addressOffset><writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><readAction>clear</readAction></register>"));
    let x = encoder::encode(&d).unwrap();
    assert!(x.find("<writeConstraint>").unwrap() < x.find("<readAction>").unwrap(), "{x}");
}'''),
 dict(id="c29-interrupts-after", property="C29",
  needs="a peripheral with interrupts and registers",
  breaks="the interrupts of a peripheral are written after its registers",
  edits=[("svd-encoder/src/peripheral.rs", """        elem.children.append(&mut interrupts?);

""", ""), ("svd-encoder/src/peripheral.rs", """                e.children = children?;
                XMLNode::Element(e)
            });
        }
""", """                e.children = children?;
                XMLNode::Element(e)
            });
        }

        elem.children.append(&mut interrupts?);
""")],
  demo='''fn main() {
    let d = parse(&dev("<peripheral><name>P</name><baseAddress>0</baseAddress><interrupt><name>I</name><value>1</value></interrupt><registers><register><name>R</name><addressOffset>0</addressOffset></register></registers></peripheral>"));
    let x = encoder::encode(&d).unwrap();
    assert!(x.find("<interrupt>").unwrap() < x.find("<registers>").unwrap(), "{x}");
}'''),
 dict(id="c29-usage-last", property="C29",
  needs="a set of enumerated values which states its usage",
  breaks="the usage of a set of enumerated values is written after the values",
  edits=[("svd-encoder/src/enumeratedvalues.rs", """        if let Some(v) = &self.usage {
            base.children.push(v.encode_node()?);
        };

""", ""), ("svd-encoder/src/enumeratedvalues.rs", """            base.children.push(v.encode_node_with_config(config)?);
        }
""", """            base.children.push(v.encode_node_with_config(config)?);
        }

        if let Some(v) = &self.usage {
            base.children.push(v.encode_node()?);
        };
""")],
  demo='''fn main() {
    let d = parse(&reg("<field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><usage>read</usage><enumeratedValue><name>V</name><value>1</value></enumeratedValue></enumeratedValues></field>"));
    let x = encoder::encode(&d).unwrap();
    assert!(x.find("<usage>").unwrap() < x.find("<enumeratedValue>").unwrap(), "{x}");
}'''),
 dict(id="c29-cpu-order", property="C29",
  needs="a cpu stating both whether it has a vector table offset register and a data tightly coupled memory",
  breaks="vtorPresent is written before dtcmPresent",
  edits=[("svd-encoder/src/cpu.rs", """        if let Some(v) = &self.dtcm_present {
            children.push(new_node("dtcmPresent", format!("{}", v)));
        }
        if let Some(v) = &self.vtor_present {
            children.push(new_node("vtorPresent", format!("{}", v)));
        }
""", """        if let Some(v) = &self.vtor_present {
            children.push(new_node("vtorPresent", format!("{}", v)));
        }
        if let Some(v) = &self.dtcm_present {
            children.push(new_node("dtcmPresent", format!("{}", v)));
        }
""")],
  demo='''fn main() {
    let d = parse("<device><name>D</name><version>1</version><description>d</description><cpu><name>CM0</name><revision>r0p0</revision><endian>little</endian><mpuPresent>0</mpuPresent><fpuPresent>0</fpuPresent><dtcmPresent>1</dtcmPresent><vtorPresent>1</vtorPresent><nvicPrioBits>2</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig></cpu><addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress></peripheral></peripherals></device>");
    let x = encoder::encode(&d).unwrap();
    assert!(x.find("<dtcmPresent>").unwrap() < x.find("<vtorPresent>").unwrap(), "{x}");
}'''),
]
