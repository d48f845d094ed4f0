//! C12: the bytes are what the format says, decided with the independent codec in refcodec.rs.
use crate::engine::*;
use crate::model::*;
use crate::peer;
use crate::refcodec::{self, *};
pub static PROPS: &[Prop] = &[Prop {
    id: "C12",
    rule: "some array with at least 2 elements is written or read",
    assumptions: &[
        "the independent codec in refcodec.rs states the format",
        "loaded values may differ from exact decoding by 1e-6 (directions 2e-5 at up to 14 bits, 4e-4 above) for single-precision rounding, and 0.03 in directions with fast_trig",
    ],
    arms: &[
        Arm::new("written", c12_written, 20_000, 1_000_000),
        Arm::new("written_big", c12_written_big, 60, 4000),
        Arm::new("written_long", c12_written_long, 40, 2000),
        Arm::new("constructed", c12_constructed, 60_000, 3_000_000),
        Arm::new("constructed_long", c12_constructed_long, 120, 8_000),
        Arm::new("constructed_many", c12_constructed_many, 600, 30_000),
    ],
}];
const FAST: f64 = if cfg!(feature = "full") { 0.03 } else { 0.0 };
const EPS: f64 = 1.0 / (1u64 << 22) as f64;
fn widest_dir(f: &RFile) -> u8 {
    let old = f.old();
    f.meshes
        .iter()
        .flat_map(|m| &m.segs)
        .filter_map(|s| match parse_payload(s, old) {
            Some(Payload::Norm { bits, .. }) | Some(Payload::Tan { bits, .. }) => Some(bits),
            _ => None,
        })
        .max()
        .unwrap_or(0)
}
/// Compares what the library reads with what the independent decoder does.
pub fn compare_reader(bytes: &[u8], want: &[(String, Canon)], wide: u8) -> Res {
    let names: Vec<Vec<String>> = want.iter().map(|w| w.1.clone().first_custom().custom.into_iter().map(|c| c.0).collect()).collect();
    let got = read(bytes)?;
    let got = peer::canon_all(&got, &names);
    if got.len() != want.len() {
        return Err(format!("{} meshes were read instead of {}", got.len(), want.len()));
    }
    let dir = FAST + if wide > 14 { 4e-4 } else { 2e-5 };
    for (k, ((n, a), (gn, b))) in want.iter().zip(&got).enumerate() {
        if n != gn {
            return Err(format!("mesh {k} is named {gn:.60?} instead of {n:.60?}"));
        }
        a.clone().first_custom().close(b, 1e-6, dir).map_err(|e| format!("mesh {k}: {e}"))?;
    }
    Ok(())
}
// ---------------------------------------------------------------------------------------------------- written files
fn lin(what: &str, i: usize, x: f64, lo: f64, hi: f64, q: u64, bits: u8, mag: f64) -> Res {
    if bits == 0 {
        return Ok(());
    }
    let step = (hi - lo) / top(bits);
    let v = lo + step * q as f64;
    if (v - x).abs() <= step * 0.5001 + mag * EPS + 1e-40 {
        Ok(())
    } else {
        Err(format!("{what} {i} is {x}, saved as {q} of {bits} bits between {lo} and {hi}, which is {v} and not the nearest value"))
    }
}
fn dir_near(what: &str, i: usize, a: V3, d: &refcodec::Dir, bits: u8) -> Res {
    let t = top(bits);
    let len = len3(a);
    let z = a.2.abs() as f64 / len;
    let xy = (a.0 as f64).hypot(a.1 as f64) / len;
    let az = (a.0.abs() as f64).atan2(a.1.abs() as f64) / std::f64::consts::FRAC_PI_2;
    let e = |what2: &str| Err(format!("{what} {i} is {a:?}, saved as {d:?} of {bits} bits: {what2}"));
    if (d.z as f64 - z * t).abs() > 0.5001 + t * 4e-7 {
        return e("z is not the nearest");
    }
    if xy > 1e-6 && (d.a as f64 - az * t).abs() > 0.5001 + t * 4e-7 / xy {
        return e("the angle is not the nearest");
    }
    for (s, c) in d.s.iter().zip([a.0, a.1, a.2]) {
        if (c as f64 / len).abs() > 1e-6 && *s != (c < 0.0) {
            return e("a sign is wrong");
        }
    }
    Ok(())
}
fn take<'a, T>(a: &'a Option<Vec<T>>, pos: &mut usize, n: usize, what: &str) -> Result<&'a [T], String> {
    let a = a.as_ref().ok_or_else(|| format!("{what} are saved, but the mesh has none"))?;
    if n > a.len() - *pos {
        return Err(format!("more {what} are saved than the {} of the mesh", a.len()));
    }
    *pos += n;
    Ok(&a[*pos - n..*pos])
}
/// Every value of the file of one mesh against the mesh.
fn check_nearest(m: &Md, r: &RMesh) -> Res {
    let (mut v, mut n, mut uv, mut t, mut c) = (0, 0, 0, 0, 0);
    for s in &r.segs {
        let p = parse_payload(s, false).ok_or("a segment is malformed")?;
        match &p {
            Payload::Vert { min, max, bits, q } => {
                let a = take(&m.v, &mut v, q.len(), "vertices")?;
                for (i, (a, q)) in a.iter().zip(q).enumerate() {
                    for (k, x) in [a.0, a.1, a.2].iter().enumerate() {
                        let mag = min[k].abs().max(max[k].abs());
                        lin("coordinate of vertex", i, *x as f64, min[k], max[k], q[k], bits[k], mag)?;
                    }
                }
            }
            Payload::Norm { bits, q } => {
                let a = take(&m.n, &mut n, q.len(), "normals")?;
                for (i, (a, q)) in a.iter().zip(q).enumerate() {
                    dir_near("normal", i, *a, q, *bits)?;
                }
            }
            Payload::Tan { bits, q } => {
                let a = take(&m.t, &mut t, q.len(), "tangents")?;
                for (i, (a, q)) in a.iter().zip(q).enumerate() {
                    dir_near("tangent", i, a.0, &q.1, *bits)?;
                    if q.0 != (a.1 < 0.0) {
                        return Err(format!("the handedness of tangent {i} is {}, saved as {}", a.1, q.0));
                    }
                }
            }
            Payload::Uv { bits, q } => {
                let a = take(&m.uv, &mut uv, q.len(), "UVs")?;
                for (i, (a, q)) in a.iter().zip(q).enumerate() {
                    lin("coordinate of UV", i, a.0 as f64, 0.0, 1.0, q[0], *bits, 1.0)?;
                    lin("coordinate of UV", i, a.1 as f64, 0.0, 1.0, q[1], *bits, 1.0)?;
                }
            }
            Payload::CIndex(..) | Payload::CInt(..) | Payload::CFloat { .. } | Payload::CRgba { .. } => {
                let Some((name, d)) = m.custom.get(c) else { return Err("more custom data is saved than the mesh has".to_owned()) };
                c += 1;
                let e = |m: &str| Err(format!("custom data {name:.40?}: {m}"));
                let same_name = match &p {
                    Payload::CIndex(n, _) | Payload::CInt(n, _) => n,
                    Payload::CFloat { name, .. } | Payload::CRgba { name, .. } => name,
                    _ => unreachable!(),
                } == name.as_bytes();
                if !same_name {
                    return e("saved under another name, or in another order");
                }
                match (&p, d) {
                    (Payload::CIndex(_, t), Cd::Index(a, _)) | (Payload::CInt(_, t), Cd::Int(a, _)) => {
                        if t.values() != a.iter().map(|i| *i as u64).collect::<Vec<_>>() {
                            return e("saved with other values");
                        }
                    }
                    (Payload::CFloat { min, max, bits, q, .. }, Cd::Float(a, _)) => {
                        if q.len() != a.len() {
                            return e("saved with another length");
                        }
                        for (i, (x, q)) in a.iter().zip(q).enumerate() {
                            lin("custom float", i, *x as f64, *min, *max, *q, *bits, min.abs().max(max.abs()))?;
                        }
                    }
                    (Payload::CRgba { bits, q, .. }, Cd::Rgba(a, _)) => {
                        if q.len() != a.len() {
                            return e("saved with another length");
                        }
                        for (i, (x, q)) in a.iter().zip(q).enumerate() {
                            for (x, q) in [x.0, x.1, x.2, x.3].iter().zip(q) {
                                lin("custom colour", i, *x as f64, 0.0, 1.0, *q, *bits, 1.0)?;
                            }
                        }
                    }
                    _ => return e("saved as another kind"),
                }
            }
            Payload::Unknown(_) => return Err(format!("a segment of the unknown type {} is saved", s.ty)),
            _ => (),
        }
    }
    if c != m.custom.len() {
        return Err(format!("{c} of {} custom arrays are saved", m.custom.len()));
    }
    Ok(())
}
fn check_written(meshes: &[(Md, String)], spec: &Spec, ctx: &mut Ctx) -> Res {
    let bytes = write(meshes, spec)?;
    let (want, file) = decode(&bytes)?;
    if file.version != [0, 2, 0, 2] {
        return Err(format!("the file declares versions {:?}", file.version));
    }
    if want.len() != meshes.len() {
        return Err(format!("{} meshes are saved as {}", meshes.len(), want.len()));
    }
    ctx.count("segments", file.meshes.iter().map(|m| m.segs.len() as u64).sum());
    ctx.label_if(file.meshes.iter().any(|m| m.segs.iter().any(|s| s.ty == 25)), "shared segment");
    ctx.label_if(file.meshes.iter().any(|m| m.segs.iter().filter(|s| s.ty == 1).count() > 1), "split vertices");
    ctx.label_if(file.meshes.iter().any(|m| m.segs.iter().filter(|s| s.ty == 2 || s.ty == 25).count() > 1), "split indices");
    for (k, ((m, n), (wn, c))) in meshes.iter().zip(&want).enumerate() {
        let e = |e: String| format!("mesh {k}: {e}");
        if n != wn {
            return Err(e(format!("its name {n:.60?} is saved as {wn:.60?}")));
        }
        if file.meshes[k].segs.iter().any(|s| s.comp != 0) {
            return Err(e("a segment declares compression".to_owned()));
        }
        check_nearest(m, &file.meshes[k]).map_err(e)?;
        // Index arrays exactly, all other arrays with their lengths
        let a = Canon::from_md(m);
        for (what, x, y) in [("vertex", &a.vt, &c.vt), ("normal", &a.nt, &c.nt), ("UV", &a.uvt, &c.uvt), ("tangent", &a.tt, &c.tt)] {
            if x != y {
                return Err(e(format!("the {what} triangles {x:.200?} are saved as {y:.200?}")));
            }
        }
        let lens = |c: &Canon| [c.v.as_ref().map(|a| a.len()), c.n.as_ref().map(|a| a.len()), c.uv.as_ref().map(|a| a.len()), c.t.as_ref().map(|a| a.len())];
        if lens(&a) != lens(c) {
            return Err(e(format!("vertices, normals, UVs, tangents: {:?} elements are saved as {:?}", lens(&a), lens(c))));
        }
    }
    compare_reader(&bytes, &want, widest_dir(&file))
}
pub fn c12_written(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = gen_meshes(s, &Opts { max_elems: 60, max_indices: 200, ..Opts::default() }, 4);
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(meshes.iter().any(|m| m.0.elements() >= 2));
    check_written(&meshes, &spec, ctx)
}
fn c12_written_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = s.pick(&[3000usize, 12000]);
    let o = Opts { max_elems: big, max_indices: big * 2, faces: true, ..Opts::default() };
    let meshes = vec![(gen_mesh(s, &o), "big".to_owned())];
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(true);
    check_written(&meshes, &spec, ctx)
}
fn c12_written_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = vec![(gen_long_mesh(s, true), "long".to_owned())];
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(true);
    check_written(&meshes, &spec, ctx)
}
// ---------------------------------------------------------------------------------------------------- files of others
#[derive(Clone, Copy)]
pub struct FileOpts {
    pub max_meshes: usize,
    pub max_segs: usize,
    pub max_len: usize,
    /// Only what all builds can hold: 16-bit indices, single precision
    pub narrow: bool,
}
pub const FILE: FileOpts = FileOpts { max_meshes: 4, max_segs: 9, max_len: 24, narrow: false };
fn gen_bits(s: &mut Src) -> u8 {
    match s.weighted(&[5, 3, 1]) {
        0 => s.range(1, 12) as u8,
        1 => s.range(0, 24) as u8,
        _ => s.range(25, 63) as u8,
    }
}
fn gen_q(s: &mut Src, bits: u8) -> u64 {
    let t = top(bits) as u64;
    if bits == 0 {
        return 0;
    }
    let t = if bits > 52 { (1u64 << bits) - 1 } else { t };
    match s.draw(5) {
        0 => 0,
        1 => t,
        2 => t / 2,
        _ => s.draw(t),
    }
}
pub fn gen_tri(s: &mut Src, o: &FileOpts, old: bool) -> Tri {
    let limit: u64 = if o.narrow { u16::MAX as u64 } else { (I::MAX as u64).min(u32::MAX as u64) };
    let bits = match s.weighted(&[6, 2, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 32),
        _ => s.range(33, 64),
    } as u8;
    let n = s.usize(0, o.max_len);
    let cap = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let min = if old || s.chance(1, 2) { 0 } else { s.pick(&[1, 5, 200, 60000]) + s.draw(1000) };
    let cap = cap.min(limit - min);
    let min = if s.chance(1, 10) && !old { limit - cap } else { min };
    Tri { bits, min, q: s.array(n, |s, _| if s.chance(1, 6) { cap } else { s.draw(cap) }) }
}
fn gen_dir(s: &mut Src, bits: u8) -> refcodec::Dir {
    refcodec::Dir { s: [s.bool(), s.bool(), s.bool()], a: gen_q(s, bits), z: gen_q(s, bits) }
}
fn gen_box(s: &mut Src) -> (f64, f64) {
    let scale = s.pick(&[1.0, 10.0, 0.001, 1e4]);
    let a = (s.signed() * scale) as f32 as f64;
    match s.draw(4) {
        0 => (a, a),
        _ => {
            let b = (a + s.unit() * 3.0 * scale) as f32 as f64;
            (a, b)
        }
    }
}
pub fn gen_payload(s: &mut Src, o: &FileOpts, old: bool, names: &[Vec<u8>]) -> Payload {
    let n = s.usize(0, o.max_len);
    let name = |s: &mut Src| -> Vec<u8> {
        if s.chance(1, 3) && !names.is_empty() {
            s.pick(names)
        } else {
            gen_custom_name(s).into_bytes()
        }
    };
    let dir_bits = |s: &mut Src| if s.chance(1, 8) { s.range(1, 40) } else { s.range(1, 14) } as u8;
    match s.draw(14) {
        0 => {
            let bits = [gen_bits(s), gen_bits(s), gen_bits(s)];
            let b = [gen_box(s), gen_box(s), gen_box(s)];
            Payload::Vert { min: [b[0].0, b[1].0, b[2].0], max: [b[0].1, b[1].1, b[2].1], bits, q: s.array(n, |s, _| [gen_q(s, bits[0]), gen_q(s, bits[1]), gen_q(s, bits[2])]) }
        }
        1 => Payload::VTri(gen_tri(s, o, old)),
        2 => {
            let bits = dir_bits(s);
            Payload::Norm { bits, q: s.array(n, |s, _| gen_dir(s, bits)) }
        }
        3 => Payload::NTri(gen_tri(s, o, old)),
        4 => {
            let bits = gen_bits(s);
            Payload::Uv { bits, q: s.array(n, |s, _| [gen_q(s, bits), gen_q(s, bits)]) }
        }
        5 => Payload::UvTri(gen_tri(s, o, old)),
        6 => {
            let bits = dir_bits(s);
            Payload::Tan { bits, q: s.array(n, |s, _| (s.bool(), gen_dir(s, bits))) }
        }
        7 => Payload::TanTri(gen_tri(s, o, old)),
        8 => Payload::CIndex(name(s), gen_tri(s, o, old)),
        9 => Payload::CInt(name(s), gen_tri(s, o, old)),
        10 => {
            let bits = gen_bits(s);
            let (min, max) = gen_box(s);
            Payload::CFloat { name: name(s), min, max, bits, q: s.array(n, |s, _| gen_q(s, bits)) }
        }
        11 => {
            let bits = gen_bits(s);
            Payload::CRgba { name: name(s), bits, q: s.array(n, |s, _| [gen_q(s, bits), gen_q(s, bits), gen_q(s, bits), gen_q(s, bits)]) }
        }
        12 => Payload::Unknown(s.array(n, |s, _| s.draw(255) as u8)),
        _ => Payload::Shared(if s.chance(1, 4) { s.draw(7) as u8 } else { s.pick(&[7u8, 3, 5, 6]) }, gen_tri(s, o, old)),
    }
}
pub fn gen_unknown_type(s: &mut Src, old: bool) -> u16 {
    let known = [1u16, 2, 3, 4, 5, 6, 9, 10, 15, 16, 23, 24, 25];
    loop {
        let t = if old && s.chance(1, 3) { s.pick(&[256u16, 257, 258, 281, 0x0101, 0xFFFF, 0x0100 + 25]) } else { s.pick(&[0u16, 7, 8, 11, 14, 17, 22, 26, 27, 100, 254, 255]) };
        if !known.contains(&t) {
            return t;
        }
    }
}
/// A well-formed file, and what it means.
pub fn gen_rfile(s: &mut Src, o: &FileOpts) -> (RFile, Vec<(String, Canon)>) {
    let old = s.chance(1, 3);
    let version = [s.pick(&[0u16, 0, 0, 1, 7, 65535]), s.pick(&[2u16, 1, 0, 3, 500]), 0, if old { s.draw(1) as u16 } else { 2 }];
    let k = match s.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => s.usize(1, o.max_meshes),
        _ => s.usize(0, o.max_meshes),
    };
    let mut meshes = Vec::new();
    let mut want = Vec::new();
    for _ in 0..k {
        let name = gen_name(s);
        let mut segs = Vec::new();
        let mut c = Canon::default();
        let mut names: Vec<Vec<u8>> = Vec::new();
        let n = s.usize(0, o.max_segs);
        for _ in 0..n {
            let p = gen_payload(s, o, old, &names);
            match &p {
                Payload::CIndex(n, _) | Payload::CInt(n, _) => names.push(n.clone()),
                Payload::CFloat { name, .. } | Payload::CRgba { name, .. } => names.push(name.clone()),
                _ => (),
            }
            let ty = gen_unknown_type(s, old);
            segs.push(encode_payload(&p, ty, old));
            c.apply(&p);
        }
        meshes.push(RMesh { name: name.clone().into_bytes(), segs });
        want.push((name, c));
    }
    (RFile { version, meshes }, want)
}
pub fn brief_file(f: &RFile) -> String {
    let mut o = format!("version {:?}", f.version);
    for m in &f.meshes {
        o += &format!("; mesh {:.20?}:", String::from_utf8_lossy(&m.name));
        for s in &m.segs {
            o += &match parse_payload(s, f.old()) {
                Some(p) => format!(" [{}] {p:?}", s.ty),
                None => format!(" [{}] malformed {:x?}", s.ty, s.data),
            };
        }
    }
    o
}
pub fn c12_constructed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let made = gen_rfile(s, &FILE);
    ctx.describe(|| brief_file(&made.0));
    check_constructed(made, ctx)
}
/// Segments longer than any counter or buffer of 16 bits
fn c12_constructed_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max_len = s.pick(&[3_000usize, 20_000, 140_000]);
    let made = gen_rfile(s, &FileOpts { max_meshes: 2, max_segs: 3, max_len, narrow: false });
    ctx.describe(|| brief_file(&made.0));
    check_constructed(made, ctx)
}
/// Many segments or meshes
fn c12_constructed_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (max_meshes, max_segs) = s.pick(&[(2usize, 400usize), (100, 4), (20, 40)]);
    let made = gen_rfile(s, &FileOpts { max_meshes, max_segs, max_len: 3, narrow: false });
    ctx.describe(|| brief_file(&made.0));
    check_constructed(made, ctx)
}
fn check_constructed((file, want): (RFile, Vec<(String, Canon)>), ctx: &mut Ctx) -> Res {
    let bytes = file.encode();
    ctx.nontrivial_if(file.meshes.iter().any(|m| m.segs.iter().any(|s| s.data.len() > 20)));
    ctx.label(if file.old() { "version 0.1" } else { "version 0.2" });
    ctx.count("segments", file.meshes.iter().map(|m| m.segs.len() as u64).sum());
    // The codec must agree with itself
    let (again, _) = decode(&bytes).map_err(|e| format!("HARNESS: {e}"))?;
    if again != want {
        return Err("HARNESS: the independent decoder disagrees with the encoder".to_owned());
    }
    compare_reader(&bytes, &want, widest_dir(&file))
}
