//! C24: masks of fields, field arrays and registers.
use super::util::*;
use svd::{BitRange, DimElement, Field, FieldInfo, MaybeArray, RegisterInfo};

const Z: ValidateLevel = ValidateLevel::Disabled;
/// bit by bit: is `b` in one of the elements
fn want(o: u64, w: u64, dim: u64, inc: u64) -> u64 {
    let mut m = 0;
    for b in 0..64u64 {
        let mut i = 0;
        // elements which start after the bit cannot cover it
        while i < dim && o + i * inc <= b {
            if b < o + i * inc + w {
                m |= 1 << b;
                break;
            }
            if inc == 0 {
                break;
            }
            i += 1;
        }
    }
    m
}
fn info(o: u64, w: u64, how: usize) -> Option<FieldInfo> {
    let b = FieldInfo::builder().name("F%s".into());
    let (o, w) = (o as u32, w as u32);
    let b = match how {
        0 => b.bit_range(BitRange::from_offset_width(o, w)),
        1 => b.bit_offset(o).bit_width(w),
        _ => b.bit_range(BitRange::from_msb_lsb(o.checked_add(w)?.checked_sub(1).filter(|m| *m >= o)?, o)),
    };
    b.build(Z).ok()
}
fn dim(n: u64, inc: u64) -> DimElement {
    DimElement::builder().dim(n as u32).dim_increment(inc as u32).build(Z).unwrap()
}
const EDGE: [u64; 8] = [127, 128, 255, 256, 1 << 31, (1 << 31) + 1, u32::MAX as u64 - 1, u32::MAX as u64];
fn grid(upto: u64) -> Vec<u64> {
    (0..=upto).chain(EDGE).collect()
}
fn diff(at: &str, g: Result<u64, String>, w: u64, input: String) -> Option<Res> {
    match g {
        Ok(g) if g == w => None,
        Ok(g) => Some(fail(format!("mask of a {at}"), format!("{g:#018x} instead of {w:#018x}"), input)),
        Err(e) => Some(fail(format!("mask of a {at}: panic"), e, input)),
    }
}
pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let g = Arc::new(grid(if q { 140 } else { 300 }));
    {
        let g = g.clone();
        v.push(space("one field", format!("every offset and width of 0..={} and the edges of 7, 8, 31 and 32 bit numbers, positions given in 3 ways", g.len() - EDGE.len() - 1), move |c| {
            let (o, w, how) = (*c.pick(&g), *c.pick(&g), c.choose(3));
            let Some(f) = info(o, w, how) else { return Res::Skip };
            if !c.state(&(o, w, how)) {
                return Res::Skip;
            }
            c.sample = c.want_sample.then(|| format!("offset {o} width {w} notation {how:?}"));
            c.execs += 1;
            let m = want(o, w, 1, 0);
            let txt = || format!("offset {o} width {w} (way {how})");
            if let Some(r) = diff("field", sut(|| f.bitmask()), m, txt()) {
                return r;
            }
            if let Some(r) = diff("single field", sut(|| Field::Single(f.clone()).bitmask()), m, txt()) {
                return r;
            }
            hres((m, o, w))
        }));
    }
    let (top, n) = if q { (70, 34) } else { (140, 70) };
    let near = |l: &[u64]| (0..=n).chain(l.iter().copied().filter(|x| *x > n)).collect::<Vec<u64>>();
    let (offs, wids, dims, incs) = (grid(top), near(&[63, 64, 65, 128, u32::MAX as u64]), near(&[63, 64, 65, 66, 128, 1000, 1 << 31, u32::MAX as u64]), near(&[63, 64, 65, 1 << 31, u32::MAX as u64]));
    v.push(space("a field array", format!("offsets {}, widths {}, dimensions {}, increments {}, each with the 32 bit edges; dimensions up to 66 also against the masks of the expanded elements", offs.len(), wids.len(), dims.len(), incs.len()), move |c| {
        let (o, w, n, i) = (*c.pick(&offs), *c.pick(&wids), *c.pick(&dims), *c.pick(&incs));
        let Some(f) = info(o, w, 0) else { return Res::Skip };
        if !c.state(&(o, w, n, i)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("offset {o} width {w} dim {n} increment {i}"));
        c.execs += 1;
        let txt = || format!("offset {o} width {w} dim {n} increment {i}");
        let m = want(o, w, n, i);
        let d = dim(n, i);
        if let Some(r) = diff("field array", sut(|| f.clone().array(d.clone()).bitmask()), m, txt()) {
            return r;
        }
        // through the elements the library itself makes of it
        if n <= 66 && o + n * i < u32::MAX as u64 {
            let e = sut(|| svd::field::expand(&f, &d).fold(0, |m, e| m | e.bitmask()));
            if let Some(r) = diff("field array by its elements", e, m, txt()) {
                return r;
            }
        }
        hres((m, n, i))
    }));
    let shapes: Vec<(u64, u64, u64, u64)> = vec![
        (0, 1, 1, 0), (0, 4, 1, 0), (3, 1, 1, 0), (31, 1, 1, 0), (32, 32, 1, 0), (63, 1, 1, 0), (63, 2, 1, 0), (64, 1, 1, 0), (0, 64, 1, 0), (5, 0, 1, 0),
        (0, 1, 4, 8), (1, 2, 3, 4), (60, 2, 4, 2), (8, 1, 100, 0), (16, 3, 70, 1), (0, 1, 0, 1), (u32::MAX as u64, 1, 2, 1), (2, u32::MAX as u64, 1, 0),
    ];
    let k = if q { 4 } else { 5 };
    v.push(space("a register", format!("all lists of at most {k} fields of {} shapes, single and array; with and without references and all other parts; without fields; the register single and as an array", shapes.len()), move |c| {
        let mut l = vec![];
        for _ in 0..k {
            let i = c.choose(shapes.len() + 1);
            if i == 0 {
                break;
            }
            l.push(shapes[i - 1]);
        }
        let none = l.is_empty() && c.flag();
        let arr = c.flag();
        // what else the fields state: nothing; a reference; a reference on every second; all they can
        let more = if l.len() < k { c.choose(4) } else { 0 };
        if !c.state(&(&l, none, arr, more)) {
            return Res::Skip;
        }
        c.sample = c.want_sample.then(|| format!("fields {l:?} absent {none:?} array {arr:?}"));
        c.execs += 1;
        let mut m = 0;
        let mut fs = vec![];
        for (i, &(o, w, n, inc)) in l.iter().enumerate() {
            let mut f = info(o, w, 0).unwrap();
            f.name = format!("F{i}%s");
            if more == 1 || more == 3 || (more == 2 && i % 2 == 1) {
                f.derived_from = Some("F".into());
            }
            if more == 3 {
                f.description = Some("d".into());
                f.access = Some([svd::Access::ReadOnly, svd::Access::WriteOnly, svd::Access::ReadWrite][i % 3]);
                f.modified_write_values = Some(svd::ModifiedWriteValues::OneToClear);
                f.read_action = Some(svd::ReadAction::Clear);
                f.write_constraint = Some(svd::WriteConstraint::WriteAsRead(true));
                let v = svd::EnumeratedValue::builder().name("V".into()).value(Some(1)).build(Z).unwrap();
                f.enumerated_values = vec![svd::EnumeratedValues::builder().values(vec![v]).build(Z).unwrap()];
            }
            m |= want(o, w, n, inc);
            fs.push(if n == 1 { f.single() } else { f.array(dim(n, inc)) });
        }
        let txt = || format!("{l:?}");
        let r = RegisterInfo::builder().name("R".into()).address_offset(0).fields((!none).then_some(fs)).build(Z).unwrap();
        if let Some(r) = diff("register", sut(|| r.bitmask()), m, txt()) {
            return r;
        }
        let r = if arr { MaybeArray::Array(r, dim(3, 4)) } else { MaybeArray::Single(r) };
        match diff("register or register array", sut(|| r.bitmask()), m, txt()) {
            Some(r) => r,
            None => hres((m, &l)),
        }
    }));
    v
}
pub const PROP: Prop = Prop {
    id: "C24",
    spaces,
    rule: "the real mask functions are run for every position, array and list of fields of the grid, and the mask compared with one computed bit by bit from the positions of the elements",
    assumptions: &["a register array's mask is that of one of its registers"],
};
