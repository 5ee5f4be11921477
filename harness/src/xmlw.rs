//! XML writer for the reference model (independent of svd-encoder).
use crate::model::*;

/// Generic XML tree used between the model and the text.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Xn {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub text: Option<String>,
    pub kids: Vec<Xn>,
}
impl Xn {
    pub fn new(tag: &str) -> Xn {
        Xn { tag: tag.into(), attrs: vec![], text: None, kids: vec![] }
    }
    pub fn leaf(tag: &str, t: impl Into<String>) -> Xn {
        Xn { tag: tag.into(), attrs: vec![], text: Some(t.into()), kids: vec![] }
    }
    pub fn paths(&self) -> Vec<Vec<usize>> {
        let mut out = vec![];
        fn rec(x: &Xn, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(p.clone());
            for (i, k) in x.kids.iter().enumerate() {
                p.push(i);
                rec(k, p, out);
                p.pop();
            }
        }
        rec(self, &mut vec![], &mut out);
        out
    }
    pub fn at(&self, p: &[usize]) -> &Xn {
        let mut e = self;
        for i in p {
            e = &e.kids[*i];
        }
        e
    }
    pub fn at_mut(&mut self, p: &[usize]) -> &mut Xn {
        let mut e = self;
        for i in p {
            e = &mut e.kids[*i];
        }
        e
    }
}

/// How the same document is written.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Style {
    /// 0 decimal, 1 0x lower, 2 0X upper with leading zeros, 3 '#' binary, 4 '0b' binary, 5 decimal
    /// with leading zeros, 6 and 7 binary with don't care digits
    pub num: u8,
    /// false/true as words or 0/1
    pub bool01: bool,
    /// 0 compact, 1 newline + indentation, 2 whitespace around text too
    pub ws: u8,
    /// comments and processing instructions between elements
    pub comments: bool,
    /// reverse order of the children of every element whose order has no meaning
    pub reverse: bool,
    /// BOM and XML declaration
    pub bom: bool,
    pub decl: bool,
    /// text through CDATA (1) or character references (2)
    pub text: u8,
    /// dimIndex ranges written as ranges when possible
    pub idx_range: bool,
    /// repeated elements written apart from each other, attributes in another order and quotes
    pub mix: bool,
    /// extensions of the vendor, which are no part of the device, and comments around the document
    pub vendor: bool,
}
pub fn num(n: u64, st: u8) -> String {
    match st {
        1 => format!("0x{n:x}"),
        2 => format!("0X00{n:X}"),
        3 => format!("#{n:b}"),
        4 => format!("0b{n:b}"),
        5 => format!("{n:03}"),
        // zeros as don't care
        6 => format!("#{n:b}").replace("00", "xX").replace('0', "X"),
        7 => format!("0b0{}", format!("{n:b}").replace("00", "Xx").replace('0', "x")),
        _ => n.to_string(),
    }
}
fn boolean(b: bool, st: &Style) -> String {
    if st.bool01 {
        if b { "1" } else { "0" }.into()
    } else {
        b.to_string()
    }
}
pub fn idx_text(l: &[String], range: bool) -> String {
    if range && l.len() > 1 {
        if let Some(a) = l[0].parse::<u32>().ok() {
            let ok = l.iter().enumerate().all(|(i, s)| Some(s.as_str()) == a.checked_add(i as u32).map(|x| x.to_string()).as_deref());
            if ok {
                return format!("{}-{}", l[0], l[l.len() - 1]);
            }
        }
        if l.iter().all(|s| s.len() == 1) {
            let b: Vec<u8> = l.iter().map(|s| s.as_bytes()[0]).collect();
            let up = b.iter().all(u8::is_ascii_uppercase);
            let lo = b.iter().all(u8::is_ascii_lowercase);
            if (up || lo) && b.windows(2).all(|w| w[1] == w[0] + 1) {
                return format!("{}-{}", l[0], l[l.len() - 1]);
            }
        }
    }
    l.join(",")
}

pub fn to_xn(e: &El, st: &Style) -> Xn {
    let mut x = Xn::new(e.k.tag());
    for (t, _, _) in fields(e.k) {
        let Some(v) = e.f.get(t) else { continue };
        if let Some(a) = t.strip_prefix('@') {
            if let V::S(s) = v {
                if a.starts_with("xs:") && !e.f.contains_key("@xmlns:xs") {
                    // without its declaration the prefix cannot be written
                    continue;
                }
                x.attrs.push((a.to_string(), s.clone()));
            }
            continue;
        }
        match v {
            V::S(s) => x.kids.push(Xn::leaf(t, s.clone())),
            V::N(n) => {
                // array counts stay decimal: their lexical form is not what is being varied
                x.kids.push(Xn::leaf(t, num(*n, st.num)))
            }
            V::B(b) => x.kids.push(Xn::leaf(t, boolean(*b, st))),
            V::L(l) => x.kids.push(Xn::leaf(t, idx_text(l, st.idx_range))),
            V::BR(o, w, k) => match k {
                0 => x.kids.push(Xn::leaf("bitRange", format!("[{}:{}]", *o as u64 + *w as u64 - 1, o))),
                1 => {
                    x.kids.push(Xn::leaf("bitOffset", num(*o as u64, st.num)));
                    x.kids.push(Xn::leaf("bitWidth", num(*w as u64, st.num)));
                }
                _ => {
                    x.kids.push(Xn::leaf("lsb", num(*o as u64, st.num)));
                    x.kids.push(Xn::leaf("msb", num(*o as u64 + *w as u64 - 1, st.num)));
                }
            },
            V::WAR(b) => {
                let mut w = Xn::new(t);
                w.kids.push(Xn::leaf("writeAsRead", boolean(*b, st)));
                x.kids.push(w);
            }
            V::UEV(b) => {
                let mut w = Xn::new(t);
                w.kids.push(Xn::leaf("useEnumeratedValues", boolean(*b, st)));
                x.kids.push(w);
            }
            V::Range(a, b) => {
                let mut w = Xn::new(t);
                let mut r = Xn::new("range");
                r.kids.push(Xn::leaf("minimum", num(*a, st.num)));
                r.kids.push(Xn::leaf("maximum", num(*b, st.num)));
                w.kids.push(r);
                x.kids.push(w);
            }
        }
    }
    let mut tail = vec![];
    for (g, wrap, _) in groups(e.k) {
        let Some(l) = e.c.get(g) else { continue };
        let ks: Vec<Xn> = l.iter().map(|c| to_xn(c, st)).collect();
        if wrap.is_empty() {
            tail.push(ks);
        } else {
            let mut w = Xn::new(wrap);
            w.kids = ks;
            tail.push(vec![w]);
        }
    }
    if st.mix {
        x.attrs.reverse();
        // one of each in turn
        let mut all: Vec<std::vec::IntoIter<Xn>> = tail.into_iter().map(|t| t.into_iter()).collect();
        all.insert(0, std::mem::take(&mut x.kids).into_iter());
        loop {
            let n = x.kids.len();
            for i in &mut all {
                x.kids.extend(i.next());
            }
            if x.kids.len() == n {
                break;
            }
        }
    } else if st.reverse {
        let heads = std::mem::take(&mut x.kids);
        for t in tail.into_iter().rev() {
            x.kids.extend(t);
        }
        x.kids.extend(heads.into_iter().rev());
    } else {
        for t in tail {
            x.kids.extend(t);
        }
    }
    if st.vendor {
        // elements of the format which the device has no place for
        let (t, v) = match e.k {
            K::Enums => ("headerEnumName", "HEN"),
            K::Periph => ("disableCondition", "A == 1"),
            _ => ("", ""),
        };
        if !t.is_empty() {
            let at = if st.reverse { x.kids.len() } else { x.kids.len().min(1) };
            x.kids.insert(at, Xn::leaf(t, v));
        }
    }
    if st.vendor && e.k == K::Device {
        let mut w = Xn::new("vendorExtensions");
        w.kids.push(Xn::leaf("name", "NOT"));
        w.kids.push(Xn::leaf("size", "none"));
        let mut l = Xn::new("peripherals");
        l.kids.push(Xn::leaf("peripheral", "?"));
        w.kids.push(l);
        let at = if st.reverse { 0 } else { x.kids.len() };
        x.kids.insert(at, w);
    }
    x
}

pub fn esc(s: &str, attr: bool, how: u8) -> String {
    let mut o = String::new();
    if how == 1 && !attr && !s.contains("]]>") && !s.is_empty() {
        return format!("<![CDATA[{s}]]>");
    }
    // partly so, partly so
    if how == 3 && !attr && !s.contains("]]>") {
        let at = s.char_indices().nth(s.chars().count() / 2).map_or(0, |(i, _)| i);
        if at > 0 {
            return format!("<![CDATA[{}]]>{}", &s[..at], esc(&s[at..], false, 2));
        }
    }
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr => o.push_str("&quot;"),
            '\n' | '\t' | '\r' if attr => o.push_str(&format!("&#{};", c as u32)),
            '\r' => o.push_str("&#13;"),
            c if how == 2 && !c.is_ascii() => o.push_str(&format!("&#x{:X};", c as u32)),
            c if how == 2 && c.is_ascii_alphabetic() => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}
/// Text, plus for each element (in preorder) its start as line:column.
pub fn write(x: &Xn, st: &Style) -> (String, Vec<(Vec<usize>, u32, u32)>) {
    struct W {
        s: String,
        line: u32,
        col: u32,
        pos: Vec<(Vec<usize>, u32, u32)>,
    }
    impl W {
        fn put(&mut self, t: &str) {
            for c in t.chars() {
                if c == '\n' {
                    self.line += 1;
                    self.col = 1;
                } else {
                    self.col += 1;
                }
            }
            self.s.push_str(t);
        }
    }
    fn rec(x: &Xn, st: &Style, w: &mut W, p: &mut Vec<usize>) {
        let ind = |w: &mut W, d: usize| {
            if st.ws > 0 {
                w.put("\n");
                w.put(&"  ".repeat(d));
            }
        };
        w.pos.push((p.clone(), w.line, w.col));
        w.put("<");
        w.put(&x.tag);
        for (a, v) in &x.attrs {
            let v = esc(v, true, st.text);
            if st.mix {
                w.put(&format!("\n{a} = '{}'", v.replace('\'', "&apos;")));
            } else {
                w.put(&format!(" {a}=\"{v}\""));
            }
        }
        if x.text.is_none() && x.kids.is_empty() {
            w.put("/>");
            return;
        }
        w.put(">");
        if let Some(t) = &x.text {
            let t = esc(t, false, st.text);
            if st.ws == 2 && st.text % 2 != 1 {
                w.put(&format!("\n \t{t} \n"));
            } else {
                w.put(&t);
            }
        }
        for (i, k) in x.kids.iter().enumerate() {
            ind(w, p.len() + 1);
            if st.comments {
                w.put("<!-- c <name>no</name> --><?pi x?>");
            }
            p.push(i);
            rec(k, st, w, p);
            p.pop();
        }
        if !x.kids.is_empty() {
            if st.comments {
                w.put("<!--end-->");
            }
            ind(w, p.len());
        }
        w.put(&format!("</{}>", x.tag));
    }
    let mut w = W { s: String::new(), line: 1, col: 1, pos: vec![] };
    if st.bom {
        w.s.push('\u{feff}');
    }
    if st.decl {
        w.put("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    if st.vendor {
        w.put("<!-- <device> --><?x <name>?>");
    }
    rec(x, st, &mut w, &mut vec![]);
    if st.vendor {
        w.put("<!-- </device> -->");
    }
    if st.ws > 0 {
        w.put("\n");
    }
    (w.s, w.pos)
}
pub fn xml(e: &El, st: &Style) -> String {
    write(&to_xn(e, st), st).0
}
