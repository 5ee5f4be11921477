//! C10: number and bit range notations.
use super::util::*;
use encref::*;

pub fn written(c: &mut Ctx, d: &El, cfg: &ECfg, back: Option<&El>) -> Res {
    if refm::arrays_ok(d).is_err() || !c.state(&(d, cfg)) {
        return Res::Skip;
    }
    let d = norm(d);
    let dev = match attempt(|| build(&d, LEVELS[0])) {
        Out::Ok(d) => d,
        o => return fail(format!("building: {}", o.kind()), o.why(), d.brief()),
    };
    written_dev(c, &dev, &d, cfg, back)
}
pub fn written_dev(c: &mut Ctx, dev: &svd::Device, d: &El, cfg: &ECfg, back: Option<&El>) -> Res {
    let xml = match attempt(|| svd_encoder::encode_with_config(dev, &cfg.config())) {
        Out::Ok(x) => x,
        o => return fail(format!("encoding: {}", o.kind()), o.why(), format!("{:?} {}", cfg, d.brief())),
    };
    c.sample = c.want_sample.then(|| format!("{:?}\n{xml}", cfg.0));
    let got = match encref::read(&xml) {
        Ok(g) => g,
        Err(e) => return fail("not well-formed", e, xml),
    };
    if let Some(m) = encref::compare(&encref::tree(d, cfg), &got) {
        let sig = m.split(':').next().unwrap_or("").to_string();
        return fail(format!("written differently: {sig}"), m, format!("{:?}\n{xml}", cfg.0));
    }
    c.execs += 1;
    if let Some(want) = back {
        match parse(&xml, &pcfg(0, false, false, false)) {
            Out::Ok(b) => {
                if let Some(m) = diff(want, &view(&b)) {
                    return fail(format!("read back differently: {}", diff_sig(&m)), m, format!("{:?}\n{xml}", cfg.0));
                }
            }
            o => return fail(format!("not readable: {}", o.kind()), o.why(), format!("{:?}\n{xml}", cfg.0)),
        }
        c.execs += 1;
    }
    hres(&xml)
}
fn with_bits(d: &El, f: Option<&str>) -> El {
    let mut d = norm(d);
    if let Some(f) = f {
        let k = BITS_FMTS.iter().position(|x| *x == f).unwrap() as u8;
        d.walk_mut(&mut |e| {
            if let Some(V::BR(_, _, t)) = e.f.get_mut("bits") {
                *t = k;
            }
        });
    }
    d
}
fn numbers(v32: u64, v64: u64) -> El {
    let evs = El::new(K::Enums).kid("values", ev("A", v64)).kid("values", El::new(K::EnumV).st("name", "B").bo("isDefault", true));
    let f = fld("F%s", 0, 1).arr(2, v32).kids("enumeratedValues", vec![evs]);
    let r = reg("R%s", v32).arr(2, v32).nu("size", v32).nu("resetValue", v64).nu("resetMask", v64).kids("fields", vec![f]);
    let c = clu("C%s", v32, vec![r]).arr(2, v32).nu("size", v32).nu("resetValue", v64).nu("resetMask", v64);
    let p = per("P%s", v64, vec![c])
        .arr(2, v32)
        .nu("size", v32)
        .nu("resetValue", v64)
        .nu("resetMask", v64)
        .kid("addressBlock", El::new(K::AddrBlock).nu("offset", v32).nu("size", v32).st("usage", "registers"))
        .kid("interrupt", El::new(K::Interrupt).st("name", "I").nu("value", v32));
    dev(vec![p]).nu("size", v32).nu("resetValue", v64).nu("resetMask", v64).nu("addressUnitBits", v32).nu("width", v32)
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("every number option, every format, edge values", "11 options x 8 formats x 67 values", move |c| {
        let o = *c.pick(&NUM_OPTS);
        let f = *c.pick(&NUM_FMTS);
        // 0, and around every power of two that matters
        let k = c.choose(67);
        let v64: u64 = if k == 0 { 0 } else if k < 65 { (1u64 << (k - 1)) | (k as u64 % 3) } else if k == 65 { u64::MAX } else { 0x0123_4567_89ab_cdef };
        let v32 = if v64 > u32::MAX as u64 { v64 >> 32 } else { v64 };
        let d = numbers(v32, v64);
        written(c, &d, &ECfg::default().set(o, f), Some(&norm(&d)))
    }));
    v.push(space("pairs of number options", "all pairs of (option, format), small and large values", move |c| {
        let i = c.choose(11 * 8);
        let j = c.choose(11 * 8);
        if j / 8 <= i / 8 {
            return Res::Skip;
        }
        let big = c.flag();
        let d = if big { numbers(0xfedc_ba98, 0xfedc_ba98_7654_3210) } else { numbers(0xab, 0xcd) };
        let cfg = ECfg::default().set(NUM_OPTS[i / 8], NUM_FMTS[i % 8]).set(NUM_OPTS[j / 8], NUM_FMTS[j % 8]);
        written(c, &d, &cfg, Some(&norm(&d)))
    }));
    let (no, nw) = if q { (34, 34) } else { (66, 66) };
    v.push(space("bit ranges", format!("offsets 0..{no} and 5 edges x widths 1..={nw} and 3 edges x 3 notations x 4 options x single or array"), move |c| {
        let f = c.choose(4);
        let k = c.choose(3) as u8;
        let o = c.choose(no + 5);
        let o = if o < no { o as u32 } else { [u32::MAX, u32::MAX - 1, 1 << 31, 1000, 65535][o - no] };
        let w = c.choose(nw + 3);
        let w = if w < nw { w as u32 + 1 } else { [u32::MAX, 1 << 31, 100][w - nw] };
        if o as u64 + w as u64 > 1 << 32 {
            return Res::Skip;
        }
        let arr = c.flag();
        let e = El::new(K::Field).st("name", "F%s").with("bits", V::BR(o, w, k));
        let e = if arr { e.arr(1, 0) } else { e.st("name", "F") };
        let d = dev(vec![per("P", 0, vec![reg("R", 0).kids("fields", vec![e])])]);
        let cfg = if f == 0 { ECfg::default() } else { ECfg::default().set("field_bit_range", BITS_FMTS[f - 1]) };
        let want = with_bits(&d, (f > 0).then(|| BITS_FMTS[f - 1]));
        written(c, &d, &cfg, Some(&want))
    }));
    let rich = Arc::new(DocSpace::new(base_rich(), FULL));
    let r = rich.clone();
    v.push(space("rich document, one edit", format!("{} edits x 8 formats for everything x 4 bit range options", rich.n()), move |c| {
        let f = c.choose(9);
        let b = c.choose(4);
        let Some(d) = r.upto(c, 1) else { return Res::Skip };
        let mut cfg = ECfg::default();
        if f > 0 {
            for o in NUM_OPTS {
                cfg = cfg.set(o, NUM_FMTS[f - 1]);
            }
        }
        if b > 0 {
            cfg = cfg.set("field_bit_range", BITS_FMTS[b - 1]);
        }
        let mut want = with_bits(&d, (b > 0).then(|| BITS_FMTS[b - 1]));
        drop_empty_fields(&mut want);
        written(c, &d, &cfg, Some(&want))
    }));
    if !q {
        v.push(space("triples of number options", "all triples of (option, format), large values", move |c| {
            let (i, j, k) = (c.choose(88), c.choose(88), c.choose(88));
            if j / 8 <= i / 8 || k / 8 <= j / 8 {
                return Res::Skip;
            }
            let d = numbers(0xfedc_ba98, 0xfedc_ba98_7654_3210);
            let cfg = ECfg::default().set(NUM_OPTS[i / 8], NUM_FMTS[i % 8]).set(NUM_OPTS[j / 8], NUM_FMTS[j % 8]).set(NUM_OPTS[k / 8], NUM_FMTS[k % 8]);
            written(c, &d, &cfg, Some(&norm(&d)))
        }));
    }
    let m = if q { 2 } else { 3 };
    v.push(space("presence of optional parts", format!("11 kinds of element with at most {m} of their optional parts, or all but {m}, in two variants x the formats in two orders over the options x 4 bit range options"), move |c| {
        let f = c.choose(4);
        let b = c.choose(4);
        let e = subset(c, m);
        let d = host(e);
        let mut cfg = ECfg::default();
        for (i, o) in NUM_OPTS.iter().enumerate() {
            cfg = cfg.set(o, NUM_FMTS[[i, i * 3 + 1, 7 * NUM_OPTS.len() - i, i / 2][f] % NUM_FMTS.len()]);
        }
        if b > 0 {
            cfg = cfg.set("field_bit_range", BITS_FMTS[b - 1]);
        }
        let mut want = with_bits(&d, (b > 0).then(|| BITS_FMTS[b - 1]));
        drop_empty_fields(&mut want);
        written(c, &d, &cfg, Some(&want))
    }));
    v
}
pub fn drop_empty_fields(d: &mut El) {
    d.walk_mut(&mut |e| {
        if e.k == K::Register && e.c.get("fields").is_some_and(|f| f.is_empty()) {
            e.c.remove("fields");
        }
    });
}
pub const PROP: Prop = Prop {
    id: "C10",
    spaces,
    rule: "devices with every kind of number at edge values are encoded under every format of every option; the text is compared with an independent rendering, element by element, and read back",
    assumptions: &["numbers which no option names (interrupt numbers, widths, counts of the cpu, constraint ranges) may be written in any notation"],
};
