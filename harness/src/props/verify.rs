//! C07: verification is an equivalence, and whatever verifies can be saved and loaded.
use crate::engine::*;
use crate::model::*;
use tmf::*;
pub static PROPS: &[Prop] = &[Prop {
    id: "C07",
    rule: "the mesh has an index array with at least one index, or a normal or UV",
    assumptions: &[
        "normals whose length is within 1e-5 of the 0.1% limit may be accepted or refused",
        "meshes with vertices that are not finite are verified, but not saved",
    ],
    arms: &[
        Arm::new("faults", c07_faults, 150_000, 6_000_000),
        Arm::new("boundary", c07_boundary, 100_000, 4_000_000),
        Arm::new("valid", c07_valid, 20_000, 1_000_000),
        Arm::new("long", c07_long, 150, 8_000),
    ],
}];
/// What is wrong with one kind of data. None: nothing; Some(None): it is too close to call.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Judge {
    Fine,
    Bad,
    Unsure,
}
fn out_of_range(t: &Option<Vec<I>>, len: Option<usize>) -> bool {
    t.iter().flatten().any(|i| len.map_or(true, |l| *i as u64 >= l as u64))
}
fn mag(n: V3) -> f64 {
    len3(n)
}
fn judge(m: &Md) -> [Judge; 3] {
    let j = |b: bool| if b { Judge::Bad } else { Judge::Fine };
    let v = j(m.vt.is_some() && m.v.is_none() || out_of_range(&m.vt, m.v.as_ref().map(|a| a.len())));
    let uv = j(m.uvt.is_some() && m.uv.is_none()
        || m.uv.iter().flatten().any(|p| !(0.0..=1.0).contains(&p.0) || !(0.0..=1.0).contains(&p.1))
        || out_of_range(&m.uvt, m.uv.as_ref().map(|a| a.len())));
    let dev: Vec<f64> = m.n.iter().flatten().map(|n| (mag(*n) - 1.0).abs()).collect();
    let n = if m.nt.is_some() && m.n.is_none() || out_of_range(&m.nt, m.n.as_ref().map(|a| a.len())) || dev.iter().any(|d| !(*d <= 0.00101)) {
        Judge::Bad
    } else if dev.iter().any(|d| (*d - 0.001).abs() < 1e-5) {
        Judge::Unsure
    } else {
        Judge::Fine
    };
    [v, n, uv]
}
/// Which kind of data the error is about (0 vertices, 1 normals, 2 UVs), if it is true.
fn truthful(m: &Md, e: &TMFIntegrityStatus) -> Result<usize, String> {
    let lie = |what: &str| Err(format!("verification reported {what}, which is not so"));
    let has = |t: &Option<Vec<I>>, i: I, len: I, actual: Option<usize>| {
        t.iter().flatten().any(|x| *x == i) && actual == Some(len as usize) && i >= len
    };
    match e {
        TMFIntegrityStatus::VertexArrayMissing => {
            if m.v.is_none() && m.vt.is_some() {
                Ok(0)
            } else {
                lie("a missing vertex array")
            }
        }
        TMFIntegrityStatus::NormalArrayMissing => {
            if m.n.is_none() && m.nt.is_some() {
                Ok(1)
            } else {
                lie("a missing normal array")
            }
        }
        TMFIntegrityStatus::UVArrayMissing => {
            if m.uv.is_none() && m.uvt.is_some() {
                Ok(2)
            } else {
                lie("a missing UV array")
            }
        }
        TMFIntegrityStatus::IndexOutsideVertexArray(i, l) => {
            if has(&m.vt, *i, *l, m.v.as_ref().map(|a| a.len())) {
                Ok(0)
            } else {
                lie(&format!("vertex index {i} of {l}"))
            }
        }
        TMFIntegrityStatus::IndexOutsideNormalArray(i, l) => {
            if has(&m.nt, *i, *l, m.n.as_ref().map(|a| a.len())) {
                Ok(1)
            } else {
                lie(&format!("normal index {i} of {l}"))
            }
        }
        TMFIntegrityStatus::IndexOutsideUVArray(i, l) => {
            if has(&m.uvt, *i, *l, m.uv.as_ref().map(|a| a.len())) {
                Ok(2)
            } else {
                lie(&format!("UV index {i} of {l}"))
            }
        }
        TMFIntegrityStatus::NormalsNotNormalized => {
            if m.n.iter().flatten().any(|n| !((mag(*n) - 1.0).abs() <= 0.00099)) {
                Ok(1)
            } else {
                lie("normals that are not normalised")
            }
        }
        TMFIntegrityStatus::UVOutsideRange(x, y) => {
            let same = |p: &V2| p.0.to_bits() == x.to_bits() && p.1.to_bits() == y.to_bits();
            let out = !(0.0..=1.0).contains(x) || !(0.0..=1.0).contains(y);
            if out && m.uv.iter().flatten().any(same) {
                Ok(2)
            } else {
                lie(&format!("the UV {x} {y} outside the range"))
            }
        }
        TMFIntegrityStatus::CompositeError(_) => lie("an error in an error"),
    }
}
fn check(m: &Md, ctx: &mut Ctx) -> Res {
    let t = m.to_tmf();
    let res = t.verify();
    let j = judge(m);
    let bad = j.iter().filter(|j| **j == Judge::Bad).count();
    let unsure = j.contains(&Judge::Unsure);
    ctx.label(["valid", "one kind invalid", "two kinds invalid", "three kinds invalid"][bad]);
    match &res {
        Ok(()) => {
            if bad > 0 {
                return Err(format!("an invalid mesh verifies (vertices, normals, UVs: {j:?})"));
            }
        }
        Err(e) => {
            if bad == 0 && !unsure {
                return Err(format!("a valid mesh does not verify: {e}"));
            }
            let parts: Vec<TMFIntegrityStatus> = match e {
                TMFIntegrityStatus::CompositeError(p) => p.to_vec(),
                e => vec![e.clone()],
            };
            let mut kinds = Vec::new();
            for p in &parts {
                let k = truthful(m, p)?;
                if !kinds.contains(&k) {
                    kinds.push(k);
                }
            }
            if !unsure && (bad >= 2) != (parts.len() >= 2 || matches!(e, TMFIntegrityStatus::CompositeError(_))) {
                return Err(format!("{bad} kinds of data are invalid, but the error is {e}"));
            }
            if !unsure && kinds.len() != bad {
                return Err(format!("{bad} kinds of data are invalid, but the error names {} of them: {e}", kinds.len()));
            }
            if format!("{e}").is_empty() {
                return Err("the error has no text".to_owned());
            }
        }
    }
    if Md::from_tmf(&t, &m.names()) != *m && !m.v.iter().flatten().chain(m.n.iter().flatten()).any(|p| p.0.is_nan() || p.1.is_nan() || p.2.is_nan()) && !m.uv.iter().flatten().any(|p| p.0.is_nan() || p.1.is_nan()) {
        return Err("verification changed the mesh".to_owned());
    }
    let finite = m.v.iter().flatten().all(|p| p.0.is_finite() && p.1.is_finite() && p.2.is_finite());
    if res.is_ok() && finite {
        let bytes = write(&[(m.clone(), "m".to_owned())], &Spec::default_spec())?;
        let l = read(&bytes)?;
        if l.len() != 1 {
            return Err(format!("1 mesh became {}", l.len()));
        }
        l[0].0.verify().map_err(|e| format!("the loaded mesh does not verify: {e}"))?;
        same_structure(m, &Md::from_tmf::<&str>(&l[0].0, &[]))?;
    }
    Ok(())
}
fn set_some<T: Clone>(s: &mut Src, a: &mut Option<Vec<T>>, v: T) {
    if let Some(a) = a {
        if !a.is_empty() {
            let k = if s.bool() { s.usize(0, a.len() - 1) } else { s.pick(&[0, a.len() - 1, a.len() / 2]) };
            a[k] = v;
        }
    }
}
fn bad_float(s: &mut Src, like: f64) -> F {
    match s.draw(10) {
        8 => 1.0 + F::EPSILON,
        9 => -F::from_bits(1),
        10 => F::MIN_POSITIVE,
        0 => -1e-7,
        1 => f(1.000_000_2),
        2 => -0.0,
        3 => F::NAN,
        4 => F::INFINITY,
        5 => F::NEG_INFINITY,
        6 => -1.0,
        _ => f(like * 2.0),
    }
}
fn bad_index(s: &mut Src, len: usize) -> I {
    let l = len as u64;
    if I::BITS > 32 && s.bool() {
        // In range when cut to a narrower number
        let low = s.draw(l.saturating_sub(1));
        return (low | 1 << s.range(8, 63)) as I;
    }
    s.pick(&[l.saturating_sub(1), l, l + 1, l + 2, u32::MAX as u64, (1 << 31), 65535, 65536, 256 + l / 2, 65536 + l / 2]).min(I::MAX as u64) as I
}
fn fault(s: &mut Src, m: &mut Md) {
    match s.draw(13) {
        0 => m.v = None,
        1 => m.n = None,
        2 => m.uv = None,
        3 => {
            let b = bad_index(s, m.v.as_ref().map_or(0, |a| a.len()));
            set_some(s, &mut m.vt, b);
        }
        4 => {
            let b = bad_index(s, m.n.as_ref().map_or(0, |a| a.len()));
            set_some(s, &mut m.nt, b);
        }
        5 => {
            let b = bad_index(s, m.uv.as_ref().map_or(0, |a| a.len()));
            set_some(s, &mut m.uvt, b);
        }
        6 => {
            let k = s.pick(&[0.9989, 0.9991, 1.0009, 1.0011, 0.99, 1.01, 0.0, 2.0, -1.0, 1.1e-20, 1e20, f64::NAN, f64::INFINITY]);
            let n = gen_normal(s);
            set_some(s, &mut m.n, ((n.0 as f64 * k) as F, (n.1 as f64 * k) as F, (n.2 as f64 * k) as F));
        }
        7 => {
            let (a, b) = (bad_float(s, 1.0), gen_uv(s));
            let p = if s.bool() { (a, b) } else { (b, a) };
            set_some(s, &mut m.uv, p);
        }
        8 => {
            if let Some(a) = &mut m.v {
                a.pop();
            }
        }
        9 => {
            if let Some(a) = &mut m.n {
                a.pop();
            }
        }
        10 => {
            if let Some(a) = &mut m.uv {
                a.pop();
            }
        }
        11 => {
            let a = if s.bool() { vec![] } else { vec![0 as I; 3] };
            match s.draw(2) {
                0 => m.vt = Some(a),
                1 => m.nt = Some(a),
                _ => m.uvt = Some(a),
            }
        }
        12 => {
            let p = (bad_float(s, 1.0), 0.0, bad_float(s, 1.0));
            if s.chance(1, 4) {
                set_some(s, &mut m.v, p);
            }
        }
        _ => {
            // Tangents are not verified
            m.t = None;
            m.tt = Some(vec![0 as I; 3]);
            m.tt = None;
        }
    }
}
fn nontrivial(m: &Md) -> bool {
    [&m.vt, &m.nt, &m.uvt].iter().any(|t| t.as_ref().map_or(false, |t| !t.is_empty())) || m.n.as_ref().map_or(false, |a| !a.is_empty()) || m.uv.as_ref().map_or(false, |a| !a.is_empty())
}
pub fn c07_faults(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { max_elems: 16, max_indices: 24, custom: false, ..Opts::default() };
    let mut m = gen_mesh(s, &o);
    for _ in 0..s.draw(4) {
        fault(s, &mut m);
    }
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(nontrivial(&m));
    check(&m, ctx)
}
/// Indices around the length of each array, alone or together.
pub fn c07_boundary(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Md::default();
    let which = s.range(1, 7);
    let tri = |s: &mut Src, n: usize| -> Option<Vec<I>> {
        if s.chance(1, 12) {
            return None;
        }
        let len = s.pick(&[0usize, 1, 2, 3, 3, 3, 6, 7, 9, 12]);
        let over = s.chance(1, 3);
        let mut t: Vec<I> = s.array(len, |s, _| s.draw(n.saturating_sub(1) as u64) as I);
        if n == 0 && !over {
            t.clear();
        }
        if over && len > 0 {
            let k = s.usize(0, len - 1);
            t[k] = (n as u64 + s.pick(&[0u64, 0, 0, 1, 2])) as I;
        }
        Some(t)
    };
    if which & 1 != 0 {
        let n = s.usize(0, 4);
        m.vt = tri(s, n);
        if !s.chance(1, 12) {
            m.v = Some(gen_verts(s, n));
        }
    }
    if which & 2 != 0 {
        let n = s.usize(0, 4);
        m.nt = tri(s, n);
        if !s.chance(1, 12) {
            m.n = Some(s.array(n, |s, _| gen_normal(s)));
        }
    }
    if which & 4 != 0 {
        let n = s.usize(0, 4);
        m.uvt = tri(s, n);
        if !s.chance(1, 12) {
            m.uv = Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s))));
        }
    }
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(nontrivial(&m));
    check(&m, ctx)
}
/// Long arrays, with or without a fault anywhere in them
pub fn c07_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_long_mesh(s, false);
    for _ in 0..s.draw(2) {
        fault(s, &mut m);
    }
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(nontrivial(&m));
    check(&m, ctx)
}
fn c07_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { max_elems: 100, max_indices: 200, custom: false, ..Opts::default() };
    let mut m = gen_mesh(s, &o);
    // Unit length up to the limit
    if let Some(n) = &mut m.n {
        let k = s.pick(&[1.0, 1.0, 0.99905, 1.00095]);
        n.iter_mut().for_each(|n| *n = ((n.0 as f64 * k) as F, (n.1 as f64 * k) as F, (n.2 as f64 * k) as F));
    }
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(nontrivial(&m));
    check(&m, ctx)
}
