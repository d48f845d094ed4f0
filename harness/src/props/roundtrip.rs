//! C01-C06: what a save and load keeps, and how precisely.
use crate::engine::*;
use crate::model::*;
use tmf::*;
const FAST: f64 = if cfg!(feature = "full") { 0.03 } else { 0.0 };
pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "the meshes have at least one index array of 3 or more elements, or at least 3 meshes",
        assumptions: &["index arrays only hold indices of existing elements (what verify accepts)"],
        arms: &[
            Arm::new("meshes", c01_meshes, 20000, 1_000_000),
            Arm::new("big", c01_big, 120, 6000),
            Arm::new("indices", c01_indices, 8000, 400_000),
            Arm::enumerated("many", c01_many, 3, 3, 6),
            Arm::new("long", c01_long, 60, 3000),
            Arm::enumerated("segments", c01_segments, 8, 6, 64),
        ],
    },
    Prop {
        id: "C02",
        rule: "some coordinate had to be quantised: the allowed deviation is more than 8 times the floating-point slack",
        assumptions: &["coordinates are finite, below 1e15, and edges are not subnormal", "the allowed deviation is per coordinate; slack for floating-point rounding is 1e-5 of it plus 2^-22 of the coordinates' magnitude"],
        arms: &[Arm::new("mesh", c02_mesh, 20000, 1_000_000), Arm::new("coarse", c02_coarse, 30000, 1_500_000), Arm::new("big", c02_big, 60, 4000), Arm::new("clusters", c02_clusters, 150, 8000), Arm::new("long", c02_long, 40, 2000), Arm::enumerated("edge_finding", c02_edge, 1, 1, 1)],
    },
    Prop {
        id: "C03",
        rule: "some normal is not on a coordinate axis",
        assumptions: &["normals are of unit length up to rounding", "angles of 0.005 to 90 degrees"],
        arms: &[Arm::new("directions", c03_dirs, 25000, 1_500_000), Arm::new("long", c03_long, 40, 2000), Arm::enumerated("pole_finding", c03_pole, 1, 1, 1)],
    },
    Prop {
        id: "C04",
        rule: "some coordinate is strictly between 0 and 1",
        assumptions: &["coordinates are within 0 and 1"],
        arms: &[Arm::new("uvs", c04_uvs, 40000, 2_000_000), Arm::new("long", c04_long, 60, 3000)],
    },
    Prop {
        id: "C05",
        rule: "some tangent is not on a coordinate axis",
        assumptions: &["tangents are of unit length up to rounding, and handedness is not zero"],
        arms: &[Arm::new("tangents", c05_tangents, 25000, 1_500_000), Arm::new("long", c05_long, 40, 2000), Arm::enumerated("pole_finding", c05_pole, 1, 1, 1)],
    },
    Prop {
        id: "C06",
        rule: "some custom array has at least 2 elements",
        assumptions: &["the maximum given for indices is not below the greatest index", "floats are finite, colours are within 0 and 1"],
        arms: &[Arm::new("save_load", c06_save_load, 20000, 1_000_000), Arm::new("names", c06_names, 8000, 200_000), Arm::new("long", c06_long, 100, 4000)],
    },
];
/// Loads through one of the entry points. *k* meshes were saved.
fn load_variant(bytes: &[u8], which: u64, k: usize) -> Result<Vec<(TMFMesh, String)>, String> {
    use crate::io::block_on;
    let e = |e: TMFImportError| format!("reading a file just written failed: {e}");
    let mut r = bytes;
    let res = match (which, k) {
        (1, _) => block_on(TMFMesh::read_tmf_async(&mut r)).map_err(e)?,
        (2, 1) => vec![TMFMesh::read_tmf_one(&mut r).map_err(e)?],
        (3, 1) => vec![block_on(TMFMesh::read_tmf_one_async(&mut r)).map_err(e)?],
        _ => TMFMesh::read_tmf(&mut r).map_err(e)?,
    };
    if !r.is_empty() {
        return Err(format!("{} bytes of the file were not read", r.len()));
    }
    Ok(res)
}
fn check_structure(meshes: &[(Md, String)], spec: &Spec, wvar: bool, rvar: u64) -> Res {
    let bytes = if wvar && meshes.len() == 1 {
        let mut o = Vec::new();
        meshes[0].0.to_tmf().write_tmf_one(&mut o, &spec.to_tmf(), meshes[0].1.as_str()).map_err(|e| format!("writing a valid mesh failed: {e}"))?;
        o
    } else {
        write(meshes, spec)?
    };
    let loaded = load_variant(&bytes, rvar, meshes.len())?;
    if loaded.len() != meshes.len() {
        return Err(format!("{} meshes became {}", meshes.len(), loaded.len()));
    }
    for (k, ((m, n), (l, ln))) in meshes.iter().zip(&loaded).enumerate() {
        if n != ln {
            return Err(format!("the name of mesh {k} was {n:.60?} and became {ln:.60?}"));
        }
        let l = Md::from_tmf::<&str>(l, &[]);
        same_structure(m, &l).map_err(|e| format!("mesh {k}: {e}"))?;
    }
    Ok(())
}
fn non_trivial(meshes: &[(Md, String)]) -> bool {
    meshes.len() >= 3 || meshes.iter().any(|(m, _)| [&m.vt, &m.nt, &m.uvt, &m.tt].iter().any(|a| a.as_ref().map_or(false, |a| a.len() >= 3)))
}
fn labels(ctx: &mut Ctx, meshes: &[(Md, String)]) {
    ctx.count("elements", meshes.iter().map(|m| m.0.elements() as u64).sum());
    ctx.label_if(meshes.len() > 1, "several meshes");
    ctx.label_if(meshes.iter().any(|m| m.0.t.is_some()), "tangents");
    ctx.label_if(meshes.iter().any(|m| m.0.vt.is_some() && m.0.vt == m.0.nt && m.0.vt == m.0.uvt), "three equal index arrays");
    ctx.label_if(meshes.iter().any(|m| m.0.vt.is_some() && ((m.0.vt == m.0.nt) as u8 + (m.0.vt == m.0.uvt) as u8) == 1), "two equal index arrays");
}
fn c01_meshes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts::default();
    let meshes = gen_meshes(s, &o, 6);
    let spec = gen_spec(s);
    let (w, r) = (s.bool(), s.draw(3));
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(non_trivial(&meshes));
    labels(ctx, &meshes);
    check_structure(&meshes, &spec, w, r)
}
fn c01_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = s.pick(&[4000usize, 20000, 60000]);
    let o = Opts { max_elems: big, max_indices: big * 2, faces: true, custom: false, ..Opts::default() };
    let meshes = vec![(gen_mesh(s, &o), "big".to_owned())];
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(non_trivial(&meshes));
    labels(ctx, &meshes);
    check_structure(&meshes, &spec, false, 0)
}
/// Index arrays alone: long enough to be split, with patterns for which splitting pays.
fn c01_indices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let parts = s.usize(1, 5);
    let mut a: Vec<I> = Vec::new();
    for _ in 0..parts {
        let n = gen_count(s, 400);
        let w = s.pick(&[1u64, 2, 8, 64, 255, 256, 1000, 60000]);
        let base = s.pick(&[0u64, 0, 1, 100, 1000, 5000]);
        let mode = s.draw(2);
        a.extend(s.array(n, |s, i| match mode {
            0 => (base + s.draw(w)) as I,
            1 => (base + i as u64 % (w + 1)) as I,
            _ => base as I,
        }));
    }
    let n = a.iter().copied().max().map_or(0, |x| x as usize + 1);
    let mut m = Md::default();
    let which = s.draw(3);
    let kind = s.draw(7);
    // Elements are all the same: only the indices matter here
    if which != 2 {
        m.v = Some(vec![(0.5, 1.5, -2.0); n]);
        m.vt = Some(a.clone());
    }
    let mut b = a.clone();
    if kind & 1 == 1 && !b.is_empty() {
        nearly_equal(s, &mut b, n);
    }
    if kind & 2 == 2 || which == 2 {
        m.n = Some(vec![(0.0, 0.0, 1.0); n]);
        m.nt = Some(b.clone());
    }
    if kind & 4 == 4 {
        m.uv = Some(vec![(0.5, 1.0); n]);
        m.uvt = Some(if s.bool() { a.clone() } else { b.clone() });
    }
    if which == 3 {
        m.t = Some(vec![((1.0, 0.0, 0.0), -1.0); n]);
        m.tt = Some(if s.bool() { a } else { b });
    }
    let meshes = vec![(m, "indices".to_owned())];
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(non_trivial(&meshes));
    labels(ctx, &meshes);
    check_structure(&meshes, &Spec::default_spec(), true, 2)
}
fn c01_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = s.draw(2);
    let n = [300usize, 3000, 66000][k as usize];
    let meshes: Vec<(Md, String)> = (0..n)
        .map(|i| {
            let mut m = Md::default();
            if i % 7 == 0 {
                m.v = Some(vec![(i as F, 0.0, 1.0); 1 + i % 3]);
            }
            (m, if i % 5 == 0 { String::new() } else { format!("m{i}") })
        })
        .collect();
    ctx.describe(|| format!("{n} meshes"));
    ctx.nontrivial_if(true);
    check_structure(&meshes, &Spec::default_spec(), false, s.draw(1))
}
/// Arrays of more elements and indices than 16 or 17 bits count.
fn c01_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = vec![(gen_long_mesh(s, false), "long".to_owned())];
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(non_trivial(&meshes));
    labels(ctx, &meshes);
    check_structure(&meshes, &Spec::default_spec(), true, s.draw(3))
}
/// A mesh of many segments: what is in them is found again.
fn c01_segments(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = [300usize, 32_760, 33_000, 257, 127, 128, 255, 65_000][s.draw(7) as usize];
    let mut m = gen_mesh(s, &Opts { max_elems: 30, max_indices: 60, custom: false, ..Opts::default() });
    m.custom = (0..n).map(|k| (format!("s{k}"), Cd::Int(vec![k as I; k % 3], 70_000))).collect();
    ctx.describe(|| format!("{n} custom arrays and {}", Md { custom: vec![], ..m.clone() }.brief()));
    ctx.nontrivial_if(true);
    let bytes = write(&[(m.clone(), "segments".to_owned())], &Spec::default_spec())?;
    let l = load_variant(&bytes, s.draw(3), 1)?;
    if l.len() != 1 {
        return Err(format!("1 mesh became {}", l.len()));
    }
    // Lookups take time in proportion to the number of arrays
    let at: Vec<usize> = s.array(40, |s, _| s.usize(0, n - 1)).into_iter().chain([0, n - 1]).collect();
    for k in at {
        let (name, d) = &m.custom[k];
        let Some(b) = l[0].0.lookup_custom_data(name) else { return Err(format!("custom array {k} of {n} is not there after loading")) };
        check_custom(name, d, &Cd::from_tmf(b))?;
    }
    same_structure(&Md { custom: vec![], ..m }, &Md::from_tmf::<&str>(&l[0].0, &[]))
}
// ---------------------------------------------------------------------------------------------------- vertices
pub fn bbox(v: &[V3]) -> ([f64; 3], [f64; 3]) {
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for p in v {
        for (k, c) in [p.0, p.1, p.2].iter().enumerate() {
            lo[k] = lo[k].min(*c as f64);
            hi[k] = hi[k].max(*c as f64);
        }
    }
    (lo, hi)
}
/// Relative error of a few operations on the float type of this build
const EPS: f64 = if std::mem::size_of::<F>() == 8 { 1.0 / (1u64 << 50) as f64 } else { 1.0 / (1u64 << 22) as f64 };
/// Returns whether quantisation (and not only rounding) was allowed.
pub fn check_vertices(a: &[V3], b: &[V3], bound: f64) -> Result<bool, String> {
    if a.len() != b.len() {
        return Err(format!("{} vertices became {}", a.len(), b.len()));
    }
    let (lo, hi) = bbox(a);
    let mut nontrivial = false;
    for k in 0..3 {
        let mag = lo[k].abs().max(hi[k].abs()) + (hi[k] - lo[k]);
        let slack = mag * EPS + 1e-40;
        nontrivial |= bound > 8.0 * slack && hi[k] > lo[k];
        for (i, (p, q)) in a.iter().zip(b).enumerate() {
            let (x, y) = match k {
                0 => (p.0, q.0),
                1 => (p.1, q.1),
                _ => (p.2, q.2),
            };
            let (x, y) = (x as f64, y as f64);
            if !((x - y).abs() <= bound * (1.0 + 1e-5) + slack) {
                return Err(format!("coordinate {k} of vertex {i} was {x} and became {y}: more than the allowed {bound}"));
            }
            if !(y >= lo[k] - slack && y <= hi[k] + slack) {
                return Err(format!("coordinate {k} of vertex {i} became {y}, outside {}..{}", lo[k], hi[k]));
            }
        }
    }
    Ok(nontrivial)
}
fn save_load(m: &Md, spec: &Spec) -> Result<Md, String> {
    let meshes = [(m.clone(), "mesh".to_owned())];
    let bytes = write(&meshes, spec)?;
    let mut l = read(&bytes)?;
    if l.len() != 1 {
        return Err(format!("1 mesh became {}", l.len()));
    }
    Ok(Md::from_tmf(&l.pop().unwrap().0, &m.names()))
}
fn c02_check(m: &Md, spec: &Spec, ctx: &mut Ctx) -> Res {
    let bound = m.shortest_edge() * spec.vertex as f64;
    let l = save_load(m, spec)?;
    let (Some(a), Some(b)) = (&m.v, &l.v) else {
        return if m.v.is_some() != l.v.is_some() { Err("the vertex array appeared or disappeared".to_owned()) } else { Ok(()) };
    };
    let nt = check_vertices(a, b, bound)?;
    ctx.nontrivial_if(nt && !a.is_empty());
    // What the documentation of VertexPrecisionMode says about edges
    if let Some(t) = &m.vt {
        let mag = a.iter().fold(0.0f64, |m, p| m.max(p.0.abs() as f64).max(p.1.abs() as f64).max(p.2.abs() as f64));
        for c in t.chunks_exact(3) {
            for (i, j) in [(c[0], c[1]), (c[1], c[2]), (c[2], c[0])] {
                let (i, j) = (i as usize, j as usize);
                let d = (dist(a[i], a[j]) - dist(b[i], b[j])).abs();
                if d > bound * (1.0 + 1e-4) + mag * 8.0 * EPS {
                    return ctx.known("edge-length", format!("the length of edge {i}-{j} changed by {d}, more than {bound}, the allowed part of the shortest edge"));
                }
            }
        }
    }
    Ok(())
}
fn c02_mesh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { custom: false, tangents: false, faces: s.chance(7, 8), max_elems: 60, max_indices: 120, ..Opts::default() };
    let m = gen_mesh(s, &o);
    let spec = Spec { vertex: gen_vertex_prec(s), ..Spec::default_spec() };
    ctx.describe(|| format!("portion {} edge {} {}", spec.vertex, m.shortest_edge(), m.brief()));
    c02_check(&m, &spec, ctx)
}
/// Few triangles and coarse precision, where a single lost bit matters.
fn c02_coarse(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(2, 6);
    let portion = match s.draw(2) {
        0 => s.pick(&[1.0, 0.5, 0.25, 0.9, 0.125, 0.7]),
        1 => 0.1 + 0.9 * s.unit(),
        _ => 1.0 / s.range(1, 40) as f64,
    };
    let scale = s.pick(&[1.0, 3.0, 0.125, 40.0, 0.01]);
    let off = (s.signed() * scale * 2.0, s.signed() * scale * 2.0, s.signed() * scale * 2.0);
    let grid = s.chance(1, 3);
    let aniso = (s.pick(&[1.0, 0.3, 1.0, 5.0]), s.pick(&[1.0, 0.4, 1.0, 7.0]), s.pick(&[1.0, 0.2, 0.0]));
    let v: Vec<V3> = s.array(n, |s, _| {
        let p = if grid {
            (s.draw(4) as f64 / 4.0, s.draw(4) as f64 / 4.0, s.draw(4) as f64 / 4.0)
        } else {
            (s.unit(), s.unit(), s.unit())
        };
        (f(p.0 * scale * aniso.0 + off.0), f(p.1 * scale * aniso.1 + off.1), f(p.2 * scale * aniso.2 + off.2))
    });
    let k = s.usize(1, 3);
    let t = s.array(3 * k, |s, _| s.draw(n as u64 - 1) as I);
    let m = Md { v: Some(v), vt: if s.chance(15, 16) { Some(t) } else { None }, ..Md::default() };
    let spec = Spec { vertex: f(portion), ..Spec::default_spec() };
    ctx.describe(|| format!("portion {} edge {} {}", spec.vertex, m.shortest_edge(), m.brief()));
    c02_check(&m, &spec, ctx)
}
fn c02_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = if s.chance(1, 8) && I::MAX as u64 > 66_000 {
        // The shortest edges are only between vertices 16 bits can not count
        let n = s.pick(&[65_537usize, 66_000, 131_080]);
        let d = s.pick(&[0.01, 0.1, 0.5]);
        let v: Vec<V3> = s.array(n, |s, i| if i < 65_536 { ((i % 256) as F * 40.0, (i / 256) as F * 40.0 + f(s.unit()), f(s.signed())) } else { (f((i % 7) as f64 * d), f(s.unit() * d * 9.0 + (i % 3) as f64), f((i % 11) as f64 * d)) });
        let tris = s.usize(40, 3000);
        let mut t: Vec<I> = s.array(tris * 3, |s, _| s.draw(65_535) as I);
        for _ in 0..s.usize(1, 4) {
            let at = s.usize(0, tris - 1);
            for k in 0..3 {
                t[at * 3 + k] = s.usize(65_536, n - 1) as I;
            }
        }
        Md { v: Some(v), vt: Some(t), ..Md::default() }
    } else if s.bool() {
        // Edges much alike in length, but for one triangle somewhere
        let n = s.usize(3, 2000);
        let mut v: Vec<V3> = s.array(n, |s, i| ((i % 2) as F * 50.0 + f(s.unit()), i as F * 3.0, f(s.signed() * 4.0)));
        let tris = s.pick(&[700usize, 5_000, 9_000, 20_000]);
        let mut t: Vec<I> = Vec::with_capacity(tris * 3);
        for i in 0..tris {
            let c = (i * 7) % (n - 2);
            t.extend([c as I, (c + 1) as I, (c + 2) as I]);
        }
        let at = s.usize(0, tris - 1);
        let p = v[0];
        let d = s.pick(&[0.01, 0.1, 0.6]);
        let k = v.len() as I;
        v.push((p.0 + f(d), p.1, p.2));
        v.push((p.0, p.1 + f(d), p.2 + f(d / 2.0)));
        t[at * 3..at * 3 + 3].copy_from_slice(&[0, k, k + 1]);
        Md { v: Some(v), vt: Some(t), ..Md::default() }
    } else {
        let big = s.pick(&[2000usize, 20000]);
        gen_mesh(s, &Opts { custom: false, tangents: false, faces: true, max_elems: big, max_indices: big, ..Opts::default() })
    };
    let spec = Spec { vertex: gen_vertex_prec(s), ..Spec::default_spec() };
    ctx.describe(|| format!("portion {} {}", spec.vertex, m.brief()));
    c02_check(&m, &spec, ctx)
}
/// More vertices than 16 bits count, one of which may be far from the others.
fn c02_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_long_kinds(s, 1, false);
    let spec = Spec { vertex: gen_vertex_prec(s), ..Spec::default_spec() };
    ctx.describe(|| format!("portion {} {}", spec.vertex, m.brief()));
    c02_check(&m, &spec, ctx)
}
/// Many vertices in parts of very different extent, for which saving them apart pays.
fn c02_clusters(s: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::engine::mix;
    let parts = s.usize(2, 7);
    let seed = s.draw(u32::MAX as u64);
    let base = s.pick(&[0.2, 1.0, 3.0, 0.01]);
    let order = s.draw(2);
    let mut v: Vec<V3> = Vec::new();
    for k in 0..parts {
        let n = s.pick(&[40usize, 300, 1000, 3000, 6000]);
        // Growing, shrinking, or any
        let e = match order {
            0 => 2 * k as i32,
            1 => 2 * (parts - k) as i32,
            _ => s.draw(12) as i32,
        };
        let size = base * 2f64.powi(e + s.draw(1) as i32);
        let c = if s.chance(1, 3) { (size * s.signed() * 4.0, size * s.signed(), 0.0) } else { (0.0, 0.0, 0.0) };
        let thin = s.pick(&[1.0, 1.0, 0.1, 0.0]);
        let at = v.len();
        v.extend((0..n).map(|i| {
            let u = |j: u64| (mix(seed ^ mix(((at + i) * 4) as u64 + j)) >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
            (f(c.0 + size * u(0)), f(c.1 + size * u(1)), f(c.2 + size * u(2) * thin))
        }));
    }
    let vt = if s.chance(2, 3) {
        // The shortest edge is not far below the smallest part
        let tris = s.usize(1, 40);
        Some(s.array(tris * 3, |s, _| s.draw(v.len() as u64 - 1) as I))
    } else {
        None
    };
    let m = Md { v: Some(v), vt, ..Md::default() };
    let spec = Spec { vertex: gen_vertex_prec(s), ..Spec::default_spec() };
    ctx.describe(|| format!("portion {} edge {} {}", spec.vertex, m.shortest_edge(), m.brief()));
    c02_check(&m, &spec, ctx)
}
/// The fixed example of the known finding about edges.
fn c02_edge(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = Md { v: Some(vec![(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.49, 0.4, 0.3), (1.0, 1.0, 1.0)]), vt: Some(vec![0, 2, 1, 2, 3, 1]), ..Md::default() };
    let spec = Spec { vertex: f(0.4), ..Spec::default_spec() };
    ctx.describe(|| m.brief());
    c02_check(&m, &spec, ctx)
}
// ---------------------------------------------------------------------------------------------------- directions
pub enum Dir {
    Fine,
    Pole(String),
}
/// Compares a unit vector with what was loaded for it.
pub fn check_dir(a: V3, b: V3, prec: (F, bool), fast: f64) -> Result<Dir, String> {
    let len = len3(b);
    if !((len - 1.0).abs() <= 1e-3) {
        return Err(format!("{a:?} became {b:?}, of length {len}"));
    }
    let ang = angle(a, b);
    // Near the poles a rounded z is already another angle
    let sin = (a.0 as f64).hypot(a.1 as f64);
    let rounding = 2.0 * EPS + (EPS / sin.max(1e-300)).min(2.0 * EPS.sqrt());
    let bound = Spec::rad(prec) * (1.0 + 1e-5) + rounding + fast;
    if ang <= bound {
        return Ok(Dir::Fine);
    }
    let msg = format!("{a:?} became {b:?}: {} degrees off, {} allowed", ang.to_degrees(), Spec::rad(prec).to_degrees());
    // The format saves z linearly, so near the z axis even the nearest representable direction can be too far off. That is
    // the known finding: what was loaded is a nearest direction of (at least) the requested number of bits.
    let azimuth = |p: V3| (p.0.abs() as f64).atan2(p.1.abs() as f64) / std::f64::consts::FRAC_PI_2;
    let signs = |x: F, y: F| x.abs() < 1e-6 || y.abs() < 1e-6 || (x < 0.0) == (y < 0.0);
    let (az, bz) = (a.2.abs() as f64 / len3(a), b.2.abs() as f64);
    let axy = (a.0 as f64).hypot(a.1 as f64);
    let bxy = (b.0 as f64).hypot(b.1 as f64);
    let bits = Spec::angle_bits(prec);
    let nearest = |bits: u32| {
        let top = ((1u64 << bits) - 1) as f64;
        let tol = top * 4.0 * EPS + 1e-3;
        let z_ok = (az - bz).abs() * top <= 0.5 + tol && (fast > 0.0 || (bz * top - (bz * top).round()).abs() <= tol);
        let (qa, qb) = (azimuth(a) * top, azimuth(b) * top);
        let tol = tol + top * 2.0 * EPS / axy.max(1e-9) + top * 2.0 * EPS / bxy.max(1e-9) + fast * top;
        let a_ok = bxy < 1e-6 || ((qa - qb).abs() <= 0.5 + tol && (fast > 0.0 || (qb - qb.round()).abs() <= tol));
        z_ok && a_ok
    };
    if (bits..bits + 4).any(nearest) && signs(a.0, b.0) && signs(a.1, b.1) && signs(a.2, b.2) {
        return Ok(Dir::Pole(msg));
    }
    Err(msg)
}
fn c03_dirs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let prec = gen_angle(s);
    let n = s.usize(1, 24);
    let dirs: Vec<V3> = s.array(n, |s, _| gen_normal(s));
    let m = Md { n: Some(dirs), ..Md::default() };
    c03_check(m, prec, gen_angle(s), ctx)
}
fn c03_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_long_kinds(s, 2, false);
    let prec = gen_angle(s);
    c03_check(m, prec, gen_angle(s), ctx)
}
fn c03_check(m: Md, prec: (F, bool), tangent: (F, bool), ctx: &mut Ctx) -> Res {
    let spec = Spec { normal: prec, tangent, ..Spec::default_spec() };
    ctx.describe(|| format!("{prec:?} (true: degrees) {}", m.brief()));
    let dirs = m.n.clone().unwrap();
    ctx.nontrivial_if(dirs.iter().any(|d| [d.0, d.1, d.2].iter().filter(|c| **c == 0.0).count() < 2));
    ctx.count("normals", dirs.len() as u64);
    ctx.label_if(Spec::angle_bits(prec) <= 3, "coarse");
    let l = save_load(&m, &spec)?;
    let Some(b) = l.n else { return Err("the normals disappeared".to_owned()) };
    if b.len() != dirs.len() {
        return Err(format!("{} normals became {}", dirs.len(), b.len()));
    }
    for (i, (a, b)) in dirs.iter().zip(&b).enumerate() {
        match check_dir(*a, *b, prec, FAST).map_err(|e| format!("normal {i}: {e}"))? {
            Dir::Fine => (),
            Dir::Pole(msg) => {
                ctx.label("near pole");
                ctx.known("pole-angle", msg)?
            }
        }
    }
    Ok(())
}
fn c03_pole(_s: &mut Src, ctx: &mut Ctx) -> Res {
    // 6 degrees from the pole, half-way between 1 and the next lower z of 7 bits
    let z = 1.0 - 0.45 / 127.0;
    let m = Md { n: Some(vec![unit_vec(z, 0.7)]), ..Md::default() };
    c03_check(m, (1.0, true), (1.0, true), ctx)
}
fn c05_tangents(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { max_elems: 24, max_indices: 30, custom: false, tangents: false, ..Opts::default() };
    let mut m = if s.chance(1, 2) { gen_mesh(s, &o) } else { Md::default() };
    let n = s.usize(1, 16);
    m.t = Some(s.array(n, |s, _| (gen_normal(s), if s.bool() { -1.0 } else { 1.0 })));
    if s.chance(1, 6) {
        let k = s.pick(&[0.5, 0.25, 0.01, 2.0, 1000.0, 1e-30]);
        m.t.as_mut().unwrap().iter_mut().for_each(|t| t.1 *= k as F);
    }
    if s.chance(3, 4) {
        let len = gen_count(s, 40);
        m.tt = Some(gen_indices(s, len, n));
    }
    let (prec, normal) = (gen_angle(s), gen_angle(s));
    c05_check(m, prec, normal, ctx)
}
fn c05_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_long_kinds(s, 8, false);
    let (prec, normal) = (gen_angle(s), gen_angle(s));
    c05_check(m, prec, normal, ctx)
}
fn c05_check(m: Md, prec: (F, bool), normal: (F, bool), ctx: &mut Ctx) -> Res {
    let spec = Spec { tangent: prec, normal, ..Spec::default_spec() };
    ctx.describe(|| format!("tangents {prec:?} normals {normal:?} (true: degrees) {}", m.brief()));
    let a = m.t.clone().unwrap();
    ctx.nontrivial_if(a.iter().any(|(d, _)| [d.0, d.1, d.2].iter().filter(|c| **c == 0.0).count() < 2));
    ctx.label_if(m.v.is_some() || m.n.is_some() || m.uv.is_some(), "with other arrays");
    ctx.count("tangents", a.len() as u64);
    let l = save_load(&m, &spec)?;
    same_structure(&m, &l)?;
    let b = l.t.unwrap();
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        if (a.1 < 0.0) != (b.1 < 0.0) || b.1.abs() != 1.0 {
            return Err(format!("the handedness of tangent {i} was {} and became {}", a.1, b.1));
        }
        match check_dir(a.0, b.0, prec, FAST).map_err(|e| format!("tangent {i}: {e}"))? {
            Dir::Fine => (),
            Dir::Pole(msg) => {
                ctx.label("near pole");
                ctx.known("pole-angle", msg)?
            }
        }
    }
    Ok(())
}
fn c05_pole(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let z = 1.0 - 0.45 / 127.0;
    let m = Md { t: Some(vec![(unit_vec(z, 0.7), -1.0)]), ..Md::default() };
    c05_check(m, (1.0, true), (1.0, true), ctx)
}
// ---------------------------------------------------------------------------------------------------- UVs
pub fn check_uvs(a: &[V2], b: &[V2], uv: (f32, f32)) -> Res {
    if a.len() != b.len() {
        return Err(format!("{} UVs became {}", a.len(), b.len()));
    }
    let (res, dev) = (uv.0 as f64, uv.1 as f64);
    // No bit is needed if the whole texture is within the deviation
    let bits = res > dev * 1.0001;
    for (i, (p, q)) in a.iter().zip(b).enumerate() {
        for (x, y) in [(p.0 as f64, q.0 as f64), (p.1 as f64, q.1 as f64)] {
            if !(0.0..=1.0).contains(&y) {
                return Err(format!("UV {i}: {x} became {y}"));
            }
            if !((x - y).abs() * res <= dev * (1.0 + 1e-5) + res * EPS) {
                return Err(format!("UV {i}: {x} became {y}: {} pixels off, {dev} allowed", (x - y).abs() * res));
            }
            if bits && (x == 0.0 || x == 1.0) && x != y {
                return Err(format!("UV {i}: {x} became {y}"));
            }
        }
    }
    Ok(())
}
fn c04_uvs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let uv = gen_uv_prec(s);
    let n = s.usize(1, 24);
    let m = Md { uv: Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s)))), ..Md::default() };
    c04_check(m, uv, ctx)
}
fn c04_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_long_kinds(s, 4, false);
    let uv = gen_uv_prec(s);
    c04_check(m, uv, ctx)
}
fn c04_check(m: Md, uv: (f32, f32), ctx: &mut Ctx) -> Res {
    let spec = Spec { uv, ..Spec::default_spec() };
    ctx.describe(|| format!("{uv:?} {}", m.brief()));
    let a = m.uv.clone().unwrap();
    ctx.nontrivial_if(a.iter().any(|p| (p.0 > 0.0 && p.0 < 1.0) || (p.1 > 0.0 && p.1 < 1.0)));
    ctx.count("uvs", a.len() as u64);
    ctx.label_if(spec.uv_bits() == 0, "no bits");
    ctx.label_if((1..=3).contains(&spec.uv_bits()), "coarse");
    let l = save_load(&m, &spec)?;
    let Some(b) = l.uv else { return Err("the UVs disappeared".to_owned()) };
    check_uvs(&a, &b, uv)
}
// ---------------------------------------------------------------------------------------------------- custom data
pub fn check_custom(name: &str, a: &Cd, b: &Cd) -> Res {
    let short: String = name.chars().take(30).collect();
    let e = |m: String| Err(format!("custom data {short:?}: {m}"));
    if a.kind() != b.kind() {
        return e(format!("{} became {}", a.kind(), b.kind()));
    }
    if a.len() != b.len() {
        return e(format!("{} elements became {}", a.len(), b.len()));
    }
    match (a, b) {
        (Cd::Index(x, _), Cd::Index(y, max)) | (Cd::Int(x, _), Cd::Int(y, max)) => {
            if let Some(v) = y.iter().find(|v| **v as u64 > *max as u64) {
                return e(format!("the biggest element is said to be {max}, but there is {v}"));
            }
            if let Some(k) = (0..x.len()).find(|k| x[*k] != y[*k]) {
                return e(format!("element {k} was {} and became {}", x[k], y[k]));
            }
        }
        (Cd::Float(x, p), Cd::Float(y, q)) => {
            let mag = x.iter().fold(0.0f64, |m, v| m.max(v.abs() as f64));
            // The precision with which it is saved next time
            if !x.is_empty() && *q as f64 > *p as f64 * 1.0001 + mag * 2f64.powi(-60) {
                return e(format!("the precision {p} became {q}"));
            }
            for k in 0..x.len() {
                let d = (x[k] as f64 - y[k] as f64).abs();
                if !(d <= *p as f64 * (1.0 + 1e-5) + 3.0 * mag * EPS) {
                    return e(format!("float {k} was {} and became {}: {p} allowed", x[k], y[k]));
                }
            }
        }
        (Cd::Rgba(x, p), Cd::Rgba(y, q)) => {
            if *q as f64 > *p as f64 * 1.0001 + 2f64.powi(-60) {
                return e(format!("the precision {p} became {q}"));
            }
            for k in 0..x.len() {
                for (u, v) in [(x[k].0, y[k].0), (x[k].1, y[k].1), (x[k].2, y[k].2), (x[k].3, y[k].3)] {
                    if !((u as f64 - v as f64).abs() <= *p as f64 * (1.0 + 1e-5) + EPS) || !(0.0..=1.0).contains(&v) {
                        return e(format!("colour {k} was {:?} and became {:?}: {p} allowed", x[k], y[k]));
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}
pub fn c06_save_load(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts { max_elems: 12, max_indices: 12, custom: false, ..Opts::default() };
    let mut m = if s.chance(1, 4) { gen_mesh(s, &o) } else { Md::default() };
    let k = s.usize(1, 6);
    for _ in 0..k {
        let name = gen_custom_name_near(s, &m.names());
        let max = s.pick(&[10usize, 60, 400]);
        let d = gen_custom(s, max);
        m.custom.push((name, d));
    }
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(m.custom.iter().any(|c| c.1.len() >= 2));
    let names = m.names();
    ctx.label_if(names.len() < m.custom.len(), "equal names");
    for (_, c) in &m.custom {
        ctx.label(c.kind());
    }
    let first = |n: &str| m.custom.iter().find(|c| c.0 == n).map(|c| &c.1);
    let tmf = m.to_tmf();
    let other = s.pick(&["", "absent", "aa", "n"]);
    let longer = format!("{}x", names[0]);
    let shorter: String = {
        let mut c = names[0].chars();
        c.next_back();
        c.collect()
    };
    let near: Vec<String> = (0..4).map(|_| gen_custom_name_near(s, &names)).collect();
    let absent = |t: &TMFMesh, when: &str| -> Res {
        for n in [other, longer.as_str(), shorter.as_str()].into_iter().chain(near.iter().map(|n| n.as_str())) {
            if first(n).is_none() && t.lookup_custom_data(n).is_some() {
                return Err(format!("{when}, data is found under the name {n:.40?}, which was never added"));
            }
        }
        Ok(())
    };
    for n in &names {
        match tmf.lookup_custom_data(n) {
            Some(d) if Some(&Cd::from_tmf(d)) == first(n) => (),
            d => return Err(format!("before saving, {n:.40?} gives {:?}", d.is_some())),
        }
    }
    absent(&tmf, "before saving")?;
    let bytes = write(&[(m.clone(), "c".to_owned())], &Spec::default_spec())?;
    let l = read(&bytes)?;
    let l = &l.first().ok_or("the mesh disappeared")?.0;
    for n in &names {
        let Some(d) = l.lookup_custom_data(n) else { return Err(format!("{n:.40?} is not found after loading")) };
        check_custom(n, first(n).unwrap(), &Cd::from_tmf(d))?;
    }
    absent(l, "after loading")?;
    let (a, b) = (Md { custom: vec![], ..m.clone() }, Md::from_tmf::<&str>(l, &[]));
    same_structure(&a, &b)
}
fn c06_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = Md { custom: gen_long_mesh(s, true).custom, ..Md::default() };
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(true);
    let bytes = write(&[(m.clone(), "c".to_owned())], &Spec::default_spec())?;
    let l = read(&bytes)?;
    let l = &l.first().ok_or("the mesh disappeared")?.0;
    for (n, d) in &m.custom {
        let Some(b) = l.lookup_custom_data(n) else { return Err("the array is not found after loading".to_owned()) };
        check_custom(n, d, &Cd::from_tmf(b))?;
    }
    Ok(())
}
fn c06_names(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Md::default();
    m.custom.push(("first".to_owned(), Cd::Int(vec![1, 2, 3], 3)));
    let mut t = m.to_tmf();
    let name: String = match s.draw(3) {
        0 => "é".repeat(s.usize(0, 140)),
        1 => {
            let n = s.pick(&[0usize, 1, 254, 255, 256, 257, 300, 511, 512, 513, 65536]);
            "q".repeat(n)
        }
        2 => "🦀".repeat(s.usize(0, 70)),
        _ => {
            let n = s.usize(0, 600);
            "z".repeat(n)
        }
    };
    let n = gen_count(s, 20);
    let ints = gen_ints(s, n);
    let floats: Vec<F> = s.array(n, |s, _| f(s.signed()));
    let kind = s.draw(2);
    // Slices are custom data with the default precision and the actual maximum
    let (data, want) = match kind {
        0 => (CustomData::from(&ints[..]), Cd::Index(ints.clone(), ints.iter().copied().max().unwrap_or(0) as usize)),
        1 => (CustomData::from(&floats[..]), Cd::Float(floats.clone(), f(0.01))),
        _ => {
            let c: Vec<V4> = floats.iter().map(|x| (x.abs(), 0.0, 1.0, 0.5)).collect();
            (CustomData::from(&c[..]), Cd::Rgba(c, f(0.01)))
        }
    };
    ctx.describe(|| format!("name of {} bytes, {}", name.len(), want.kind()));
    ctx.nontrivial_if(n >= 2);
    let same = |x: &Cd, y: &Cd| match (x, y) {
        // The precision of data made from a slice is not specified, only that it is there.
        (Cd::Float(a, _), Cd::Float(b, _)) => a == b,
        (Cd::Rgba(a, _), Cd::Rgba(b, _)) => a == b,
        (a, b) => a == b,
    };
    let res = t.add_custom_data(data, &name);
    let ok = match (name.len(), res) {
        (0, Err(DataSegmentError::NoName)) => false,
        (256.., Err(DataSegmentError::NameTooLong)) => false,
        (1..=255, Ok(())) => true,
        (len, r) => return Err(format!("adding data under a name of {len} bytes gave {:?}", r)),
    };
    ctx.label_if(!ok, "refused");
    match t.lookup_custom_data("first") {
        Some(d) if Cd::from_tmf(d) == m.custom[0].1 => (),
        _ => return Err("other custom data changed".to_owned()),
    }
    let bytes = {
        let mut o = Vec::new();
        t.write_tmf_one(&mut o, &Spec::default_spec().to_tmf(), "m").map_err(|e| format!("writing failed: {e}"))?;
        o
    };
    let l = read(&bytes)?;
    for (when, t) in [("before saving", &t), ("after loading", &l[0].0)] {
        match (t.lookup_custom_data(&name), ok) {
            (None, false) => (),
            (Some(d), true) => {
                let d = Cd::from_tmf(d);
                if when == "before saving" {
                    if !same(&d, &want) {
                        return Err("the data found is not the data added".to_owned());
                    }
                } else {
                    check_custom(&name, &want, &d)?;
                }
            }
            (d, _) => return Err(format!("{when}, the name of {} bytes is found: {}", name.len(), d.is_some())),
        }
    }
    if !ok {
        // A refused addition leaves no trace in the file
        let clean = write(&[(m, "m".to_owned())], &Spec::default_spec())?;
        if clean != bytes {
            return Err("a refused addition changed the mesh".to_owned());
        }
    }
    Ok(())
}
