//! C20, C21, C23, C24: size, repeatability, repeated saving, and builds with other features.
use super::bytes::{same_meshes, zero_width};
use super::format::{compare_reader, gen_rfile, FileOpts, FILE};
use super::obj::{gen_obj_meshes, gen_text};
use super::roundtrip::{bbox, check_custom, check_dir, check_uvs, check_vertices};
use crate::engine::*;
use crate::io::block_on;
use crate::model::*;
use crate::peer;
use crate::refcodec::{self, decode, parse_payload, Canon, Payload};
use tmf::*;
pub static PROPS: &[Prop] = &[
    Prop {
        id: "C20",
        rule: "some array of the mesh has at least 16 elements",
        assumptions: &[
            "equal index arrays are shared among vertices, normals and UVs (the format can't share those of tangents)",
            "an array may be split into segments where the library expects that to pay off; the number of segments is bounded, not chosen by the check",
        ],
        arms: &[
            Arm::new("mesh", c20_mesh, 12_000, 1_000_000),
            Arm::new("equal", c20_equal, 12_000, 1_000_000),
            Arm::new("indices", c20_indices, 12_000, 1_000_000),
            Arm::new("data", c20_data, 20_000, 1_500_000),
            Arm::new("unified", c20_unified, 8_000, 500_000),
            Arm::new("big", c20_big, 60, 4_000),
        ],
    },
    Prop {
        id: "C21",
        rule: "some mesh has at least 4 elements",
        assumptions: &["builds without and with all of tokio_runtime, byte_rw, fast_trig and triangulation are compared; .obj files only have triangles there"],
        arms: &[
            Arm::new("repeat", c21_repeat, 8_000, 400_000),
            Arm::new("long", c21_long, 24, 1200),
            Arm::new("history", c21_history, 1_500, 80_000),
            Arm::new("threads", c21_threads, 300, 20_000),
            Arm::new("peer_read", c21_peer_read, 10_000, 500_000),
            Arm::new("peer_write", c21_peer_write, 6_000, 300_000),
            Arm::new("peer_process", c21_peer_process, 4_000, 200_000),
            Arm::new("peer_obj", c21_peer_obj, 4_000, 200_000),
        ],
    },
    Prop {
        id: "C23",
        rule: "some array with precision has at least 2 elements",
        assumptions: &["directions and UVs are compared up to rounding of single precision"],
        arms: &[
            Arm::new("mesh", c23_mesh, 8_000, 400_000),
            Arm::new("long", c23_long, 24, 1200),
            Arm::new("data", c23_data, 30_000, 2_000_000),
            Arm::new("vertices", c23_vertices, 12_000, 700_000),
            Arm::new("custom", c23_custom, 20_000, 1_000_000),
            Arm::new("foreign", c23_foreign, 8_000, 400_000),
        ],
    },
    Prop {
        id: "C24",
        rule: "some array has at least 2 elements",
        assumptions: &[
            "builds with long_indices, short_indices, double_precision and both combinations of index and float features are compared with the default one",
            "custom integers a narrower build can't hold are not asked of it",
        ],
        arms: &[
            Arm::new("self_mesh", c24_self_mesh, 3_000, 150_000),
            Arm::new("self_count", c24_self_count, 6, 300),
            Arm::new("self_vertices", c24_self_vertices, 4_000, 200_000),
            Arm::new("self_data", c24_self_data, 4_000, 200_000),
            Arm::new("self_indices", c24_self_indices, 60, 3_000),
            // What the default build is held to, in this build
            Arm::new("self_export", super::obj::c15_round_trip, 3_000, 150_000),
            Arm::new("self_faceless", super::obj::c15_faceless, 1_000, 40_000),
            Arm::new("self_import", super::obj::c16_text, 3_000, 150_000),
            Arm::new("self_malformed", super::obj::c16_malformed, 2_000, 100_000),
            Arm::new("self_reorder", super::transform::c13_reorder, 3_000, 150_000),
            Arm::new("self_reorder_tiny", super::transform::c13_tiny, 3_000, 150_000),
            Arm::new("self_unify", super::transform::c14_unify, 3_000, 150_000),
            Arm::new("self_unify_tiny", super::transform::c14_tiny, 3_000, 150_000),
            Arm::new("self_reorder_big", super::transform::c13_big, 8, 400),
            Arm::new("self_unify_big", super::transform::c14_big, 8, 400),
            Arm::new("self_verify", super::verify::c07_faults, 6_000, 300_000),
            Arm::new("self_boundary", super::verify::c07_boundary, 6_000, 300_000),
            Arm::new("self_verify_long", super::verify::c07_long, 10, 500),
            Arm::new("self_history", super::container::c19_history, 1_000, 50_000),
            Arm::new("self_long", super::container::c19_long, 10, 500),
            Arm::new("self_custom", super::roundtrip::c06_save_load, 2_000, 100_000),
            Arm::new("self_again", c23_mesh, 1_000, 50_000),
            Arm::new("self_again_custom", c23_custom, 2_000, 100_000),
            Arm::new("self_written", super::format::c12_written, 2_000, 100_000),
            Arm::new("self_constructed", super::format::c12_constructed, 3_000, 150_000),
            Arm::new("read", c24_read, 2_500, 120_000),
            Arm::new("read_wide", c24_read_wide, 2_500, 120_000),
            Arm::new("write", c24_write, 1_500, 80_000),
            Arm::new("process", c24_process, 1_000, 60_000),
            Arm::new("obj", c24_obj, 1_000, 60_000),
            Arm::new("limits", c24_limits, 60, 2_000),
        ],
    },
];
// ---------------------------------------------------------------------------------------------------- C20
fn bits_of(x: u64) -> u64 {
    (u64::BITS - x.leading_zeros()).max(1) as u64
}
/// As few bits as an index can be saved in, which is none for zeros
fn width(x: u64) -> i64 {
    (u64::BITS - x.leading_zeros()) as i64
}
fn max_of(a: &[I]) -> u64 {
    a.iter().copied().max().unwrap_or(0) as u64
}
fn over(ratio: f64) -> u64 {
    bits_for(ratio * (1.0 + 1e-5)).clamp(1, 63) as u64
}
#[derive(Default)]
struct Tally {
    segs: u64,
    elems: u64,
    bits: u64,
    /// Bits its smallest indices would take, less those of the greatest
    gain: i64,
    empty: u64,
    /// Elements of each segment
    lens: Vec<usize>,
}
fn index_kind(p: &Payload) -> Option<&refcodec::Tri> {
    match p {
        Payload::VTri(t) | Payload::NTri(t) | Payload::UvTri(t) | Payload::TanTri(t) | Payload::Shared(_, t) => Some(t),
        _ => None,
    }
}
/// What the exporter takes vertices saved together to cost each: the bits for a box that holds them and the origin, in steps of
/// 0.01. Extents are first multiplied by *by*.
fn estimated_bits(v: &[tmf::Vector3], by: f64) -> i64 {
    let mut sum = 0;
    let (lo, hi) = bbox(v);
    for k in 0..3 {
        let span = (hi[k].max(0.0) as F - lo[k].min(0.0) as F) as f64 * by;
        sum += (span / 0.01f32 as f64).log2().ceil().clamp(0.0, 255.0) as i64;
    }
    sum * v.len() as i64
}
fn c20_check(m: &Md, name: &str, spec: &Spec) -> Res {
    let bytes = write(&[(m.clone(), name.to_owned())], spec)?;
    let Some((file, used)) = refcodec::parse(&bytes) else { return Err("the file is malformed".to_owned()) };
    if used != bytes.len() || file.meshes.len() != 1 {
        return Err("the file is malformed".to_owned());
    }
    let edge = m.shortest_edge() * spec.vertex as f64;
    let mut tri = Tally::default();
    let mut tan_tri = Tally::default();
    let mut vert = Tally::default();
    let mut others = 0u64;
    let mut total = 3 + 8 + 4 + 2 + name.len() as u64 + 2;
    for seg in &file.meshes[0].segs {
        let p = parse_payload(seg, false).ok_or("a segment is malformed")?;
        if let Some(t) = index_kind(&p) {
            let k = if matches!(p, Payload::TanTri(_)) { &mut tan_tri } else { &mut tri };
            k.segs += 1;
            k.elems += t.q.len() as u64;
            k.bits += t.q.len() as u64 * t.bits as u64;
            let len = t.q.len() as u64;
            k.gain += len as i64 * (width(t.min) - width(t.min + t.q.iter().max().unwrap_or(&0)));
            k.empty += t.q.is_empty() as u64;
            total += 6 + 1 + 8 + 8 + 1;
        } else if let Payload::Vert { min, max, bits, q } = &p {
            vert.segs += 1;
            vert.lens.push(q.len());
            vert.elems += q.len() as u64;
            vert.bits += q.len() as u64 * bits.iter().map(|b| *b as u64).sum::<u64>();
            for k in 0..3 {
                let need = over((max[k] - min[k]) / edge);
                if !q.is_empty() && bits[k] as u64 > need {
                    return Err(format!("axis {k} of vertices between {} and {} is saved with {} bits, {need} are enough for steps of {edge}", min[k], max[k], bits[k]));
                }
            }
            total += 6 + 8 + 48 + 3;
        } else {
            others += 1;
        }
    }
    // Index arrays, each stored once if equal
    let mut arrays: Vec<&Vec<I>> = [&m.vt, &m.nt, &m.uvt].into_iter().flatten().filter(|a| !a.is_empty()).collect();
    arrays.sort();
    arrays.dedup();
    for (what, arrays, tally) in [("vertex, normal and UV triangles", arrays, tri), ("tangent triangles", m.tt.iter().filter(|a| !a.is_empty()).collect(), tan_tri)] {
        let elems: u64 = arrays.iter().map(|a| a.len() as u64).sum();
        let bits: u64 = arrays.iter().map(|a| a.len() as u64 * bits_of(max_of(a))).sum();
        if tally.elems > elems {
            return Err(format!("{what}: {} indices are saved, {elems} would do", tally.elems));
        }
        if tally.bits > bits {
            return Err(format!("{what}: {} bits are used for {elems} indices, {bits} would do", tally.bits));
        }
        // An array is split only where this lowers the bits of the greatest index before the split, or raises those of the
        // smallest one, by more than 11 bytes in all. Empty arrays may be segments too.
        if tally.empty > 3 {
            return Err(format!("{what}: {} empty segments", tally.empty));
        }
        let before: i64 = arrays.iter().map(|a| a.len() as i64 * (width(a.iter().copied().min().unwrap_or(0) as u64) - width(max_of(a)))).sum();
        let splits = (tally.segs - tally.empty).saturating_sub(arrays.len() as u64);
        if 88 * splits as i64 > tally.gain - before {
            return Err(format!("{what}: {} arrays of {elems} indices are saved as {} segments, which saves {} bits", arrays.len(), tally.segs, bits - tally.bits));
        }
        total += bits / 8 + tally.segs;
    }
    if let Some(v) = &m.v {
        let (lo, hi) = bbox(v);
        let per: u64 = (0..3).map(|k| over((hi[k] - lo[k]) / edge)).sum();
        let n = v.len() as u64;
        if vert.elems > n || vert.bits > n * per {
            return Err(format!("{} vertices take {} bits, {} would do", vert.elems, vert.bits, n * per));
        }
        let mut at = 0;
        let mut now = 0;
        for len in &vert.lens {
            now += estimated_bits(v.get(at..at + len).ok_or("too many vertices")?, 1.0 - 1e-5);
            at += len;
        }
        let splits = vert.segs.saturating_sub(1) as i64;
        if 65 * splits > estimated_bits(v, 1.0 + 1e-5) - now {
            return Err(format!("{n} vertices are split into {} segments, which saves little: {:?}", vert.segs, vert.lens));
        }
        total += n * per / 8 + vert.segs;
    }
    let mut arrays = 0;
    let mut add = |n: usize, bits: u64, head: u64| {
        arrays += 1;
        total += 6 + head + (n as u64 * bits + 7) / 8;
    };
    let dir = |a: (F, bool)| bits_for(std::f64::consts::FRAC_PI_2 / Spec::rad(a) * (1.0 + 1e-5)).clamp(1, 63) as u64;
    if let Some(a) = &m.n {
        add(a.len(), 3 + 2 * dir(spec.normal), 9);
    }
    if let Some(a) = &m.t {
        add(a.len(), 4 + 2 * dir(spec.tangent), 9);
    }
    if let Some(a) = &m.uv {
        add(a.len(), 2 * bits_for(spec.uv.0 as f64 / spec.uv.1 as f64 * (1.0 + 1e-5)).min(63) as u64, 9);
    }
    for (name, c) in &m.custom {
        let head = 1 + name.len() as u64;
        match c {
            Cd::Index(a, max) | Cd::Int(a, max) => add(a.len(), bits_of(*max as u64), head + 17),
            Cd::Float(a, p) => {
                let (lo, hi) = a.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x as f64), h.max(*x as f64)));
                add(a.len(), over((hi - lo) / *p as f64), head + 25);
            }
            Cd::Rgba(a, p) => add(a.len(), 4 * bits_for(1.0 / *p as f64 * (1.0 + 1e-5)).min(63) as u64, head + 9),
        }
    }
    if others > arrays {
        return Err(format!("{arrays} arrays of normals, UVs, tangents and custom data are saved as {others} segments"));
    }
    if bytes.len() as u64 > total {
        return Err(format!("the file has {} bytes, {total} would do", bytes.len()));
    }
    Ok(())
}
fn c20_nontrivial(m: &Md) -> bool {
    m.v.as_ref().map_or(0, |a| a.len()).max(m.n.as_ref().map_or(0, |a| a.len())).max(m.vt.as_ref().map_or(0, |a| a.len())) >= 16 || m.elements() >= 64
}
fn c20_run(m: &Md, spec: &Spec, s: &mut Src, ctx: &mut Ctx) -> Res {
    let name = gen_name(s);
    ctx.describe(|| format!("{spec:?} {}", m.brief()));
    ctx.nontrivial_if(c20_nontrivial(m));
    c20_check(m, &name, spec)
}
fn c20_mesh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = s.pick(&[60usize, 300, 1000]);
    let m = gen_mesh(s, &Opts { max_elems: max, max_indices: max, ..Opts::default() });
    let spec = gen_spec(s);
    c20_run(&m, &spec, s, ctx)
}
/// Every pattern of equal and unequal index arrays, with and without the data they index
fn c20_equal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_count(s, 300).max(2);
    let len = gen_count(s, 400);
    let a = gen_indices(s, len, n);
    let b = gen_indices(s, len, n);
    let mut m = Md::default();
    let which = |s: &mut Src| match s.draw(5) {
        0 => None,
        1 => Some(b.clone()),
        _ => Some(a.clone()),
    };
    (m.vt, m.nt, m.uvt, m.tt) = (which(s), which(s), which(s), which(s));
    m.v = if m.vt.is_some() || s.bool() { Some(vec![(0.0, 1.0, 2.0); n]) } else { None };
    m.n = if m.nt.is_some() || s.bool() { Some(vec![(0.0, 1.0, 0.0); n]) } else { None };
    m.uv = if m.uvt.is_some() || s.bool() { Some(vec![(0.0, 1.0); n]) } else { None };
    m.t = if m.tt.is_some() || s.bool() { Some(vec![((0.0, 1.0, 0.0), 1.0); n]) } else { None };
    let same = [&m.vt, &m.nt, &m.uvt].into_iter().flatten().count();
    ctx.label(["no array", "one array", "two arrays", "three arrays"][same]);
    c20_run(&m, &Spec::default_spec(), s, ctx)
}
/// Index arrays that invite splits
fn c20_indices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let top = s.pick(&[1u64, 2, 3, 255, 256, 300, 1023, 1024, 20_000, 65_535]).min(I::MAX as u64);
    let runs = s.usize(1, 12);
    let mut t: Vec<I> = Vec::new();
    for _ in 0..runs {
        let n = s.pick(&[1usize, 3, 8, 12, 30, 90, 91, 200]);
        let hi = top >> s.draw(16);
        let lo = if s.bool() { hi / 2 } else { 0 };
        for _ in 0..n {
            t.push(s.range(lo, hi) as I);
        }
    }
    match s.draw(3) {
        0 => t.sort(),
        1 => {
            t.sort();
            t.reverse();
        }
        _ => (),
    }
    let m = Md { v: Some(vec![(0.0, 1.0, 2.0); top as usize + 1]), vt: Some(t), ..Md::default() };
    c20_run(&m, &Spec::default_spec(), s, ctx)
}
/// Many values, so that a single bit more of each is seen
fn c20_data(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Md::default();
    let n = s.pick(&[16usize, 64, 100, 400]);
    match s.draw(4) {
        0 => m.v = Some(gen_verts(s, n)),
        1 => m.n = Some(s.array(n, |s, _| gen_normal(s))),
        2 => m.uv = Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s)))),
        3 => m.t = Some(s.array(n, |s, _| (gen_normal(s), 1.0))),
        _ => {
            for k in 0..s.usize(1, 3) {
                let d = gen_custom(s, n);
                m.custom.push((format!("{k}"), d));
            }
        }
    }
    let spec = gen_spec(s);
    c20_run(&m, &spec, s, ctx)
}
fn c20_unified(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_mesh(s, &Opts { equal_len: true, custom: false, ..Opts::default() });
    // Without elements, a kind takes no part
    if m.n.as_ref().map_or(false, |a| a.is_empty()) {
        m.n = None;
        m.nt = None;
    }
    if m.uv.as_ref().map_or(false, |a| a.is_empty()) {
        m.uv = None;
        m.uvt = None;
    }
    let mut t = m.to_tmf();
    t.unify_index_data();
    let u = Md::from_tmf::<&str>(&t, &[]);
    let distinct: std::collections::BTreeSet<&Vec<I>> = [(&u.v.is_some(), &u.vt), (&u.n.is_some(), &u.nt), (&u.uv.is_some(), &u.uvt)].into_iter().filter(|k| *k.0).filter_map(|k| k.1.as_ref()).filter(|a| !a.is_empty()).collect();
    if distinct.len() > 1 {
        return Err(format!("unified index arrays take {} copies", distinct.len()));
    }
    let spec = gen_spec(s);
    c20_run(&u, &spec, s, ctx)
}
fn c20_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = s.pick(&[5_000usize, 66_000]).min(I::MAX as usize);
    let m = gen_mesh(s, &Opts { max_elems: max, max_indices: 3 * max, faces: true, ..Opts::default() });
    let spec = gen_spec(s);
    c20_run(&m, &spec, s, ctx)
}
// ---------------------------------------------------------------------------------------------------- C21
fn to_list(meshes: &[(Md, String)]) -> Vec<(TMFMesh, String)> {
    meshes.iter().map(|(m, n)| (m.to_tmf(), n.clone())).collect()
}
fn first_custom(m: &Md) -> Md {
    let mut m = m.clone();
    m.custom = m.names().into_iter().map(|n| m.custom.iter().find(|c| c.0 == n).unwrap().clone()).collect();
    m
}
fn c21_repeat(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = gen_meshes(s, &Opts { max_elems: 60, max_indices: 90, ..Opts::default() }, 4);
    c21_check(&meshes, s, ctx)
}
/// More elements than 16 bits count: again and again, and in the full build
fn c21_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = [(gen_long_mesh(s, true), "long".to_owned())];
    if s.bool() || !peer::available(FULL) {
        return c21_check(&meshes, s, ctx);
    }
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(true);
    let Some((a, b)) = both(FULL, "saving", write(&meshes, &spec), peer::write_in(FULL, &meshes, &spec))? else { return Ok(()) };
    if a != b {
        return Err("the full build saves other bytes".to_owned());
    }
    if let Some((x, y)) = both(FULL, "reading", read_here(&a), peer::read_in(FULL, &a))? {
        close_all(FULL, &x, &y, 0.0, 0.03)?;
    }
    let m = &meshes[0].0;
    let lens: Vec<usize> = [&m.vt, &m.nt, &m.uvt, &m.tt].into_iter().flatten().map(|t| t.len()).collect();
    if lens.windows(2).any(|w| w[0] != w[1]) {
        // Unifying needs arrays of equal lengths
        return Ok(());
    }
    match both(FULL, "verifying, reordering or unifying", peer::process_here(&meshes)?, peer::process_in(FULL, &meshes))? {
        Some((a, b)) if a != b => Err("verifying, reordering or unifying gives another result in the full build".to_owned()),
        _ => Ok(()),
    }
}
fn c21_check(meshes: &[(Md, String)], s: &mut Src, ctx: &mut Ctx) -> Res {
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(meshes)));
    ctx.nontrivial_if(meshes.iter().any(|m| m.0.elements() >= 4));
    let list = to_list(meshes);
    let p = spec.to_tmf();
    let first = write(meshes, &spec)?;
    for k in 0..3 {
        let mut out = Vec::new();
        let (what, r) = match k {
            0 => ("again", TMFMesh::write_tmf(&list, &mut out, &p)),
            1 => ("from other meshes", TMFMesh::write_tmf(&to_list(meshes), &mut out, &p)),
            _ => ("from clones", TMFMesh::write_tmf(&list.clone(), &mut out, &spec.to_tmf())),
        };
        r.map_err(|e| format!("saving {what} failed: {e}"))?;
        if out != first {
            return Err(format!("saving {what} gave other bytes"));
        }
    }
    if list.len() == 1 {
        let mut out = Vec::new();
        list[0].0.write_tmf_one(&mut out, &p, list[0].1.as_str()).map_err(|e| format!("write_tmf_one failed: {e}"))?;
        if out != first {
            return Err("write_tmf_one gave other bytes than write_tmf".to_owned());
        }
    }
    for ((t, _), (m, _)) in list.iter().zip(meshes) {
        if Md::from_tmf(t, &m.names()) != first_custom(m) {
            return Err("saving changed a mesh".to_owned());
        }
    }
    let a = read(&first)?;
    let all: Vec<Vec<String>> = meshes.iter().map(|m| m.0.names()).collect();
    let canon = peer::canon_all(&a, &all);
    let mut others = vec![("reading again", read(&first)?)];
    others.push(("read_tmf_async", block_on(TMFMesh::read_tmf_async(&mut &first[..])).map_err(|e| format!("read_tmf_async failed: {e}"))?));
    if meshes.len() == 1 {
        others.push(("read_tmf_one", vec![TMFMesh::read_tmf_one(&mut &first[..]).map_err(|e| format!("read_tmf_one failed: {e}"))?]));
        others.push(("read_tmf_one_async", vec![block_on(TMFMesh::read_tmf_one_async(&mut &first[..])).map_err(|e| format!("read_tmf_one_async failed: {e}"))?]));
    }
    for (what, b) in others {
        same_meshes(&a, &b).map_err(|e| format!("{what}: {e}"))?;
        if peer::canon_all(&b, &all) != canon {
            return Err(format!("{what} gave other custom data"));
        }
    }
    // Saving what was read is repeatable too
    let (mut x, mut y) = (Vec::new(), Vec::new());
    TMFMesh::write_tmf(&a, &mut x, &p).map_err(|e| format!("saving a loaded mesh failed: {e}"))?;
    TMFMesh::write_tmf(&a, &mut y, &p).map_err(|e| format!("saving a loaded mesh failed: {e}"))?;
    if x != y {
        return Err("saving a loaded mesh twice gave different bytes".to_owned());
    }
    Ok(())
}
/// The same numbers of everything, but other values in some place
fn vary(s: &mut Src, m: &mut Md) {
    for _ in 0..s.usize(1, 3) {
        match s.draw(6) {
            0 | 1 => {
                let k = s.pick(&[0.001, 10.0, 0.5, 2.0]);
                for p in m.v.iter_mut().flatten() {
                    *p = (p.0 * k, p.1 * k, p.2 * k);
                }
            }
            2 => {
                let v = m.v.as_deref_mut().unwrap_or(&mut []);
                if !v.is_empty() {
                    let (a, b) = (s.usize(0, v.len() - 1), s.usize(0, v.len() - 1));
                    v[a] = (v[b].1, v[a].0, v[b].2);
                }
            }
            3 => {
                let kind = s.draw(3);
                let t = match kind {
                    0 => &mut m.vt,
                    1 => &mut m.nt,
                    2 => &mut m.uvt,
                    _ => &mut m.tt,
                };
                let t = t.as_deref_mut().unwrap_or(&mut []);
                if !t.is_empty() {
                    let (a, b) = (s.usize(0, t.len() - 1), s.usize(0, t.len() - 1));
                    t.swap(a, b);
                }
            }
            4 => {
                let n = m.n.as_deref_mut().unwrap_or(&mut []);
                if !n.is_empty() {
                    let k = s.usize(0, n.len() - 1);
                    n[k] = gen_normal(s);
                }
                let t = m.t.as_deref_mut().unwrap_or(&mut []);
                if !t.is_empty() {
                    let k = s.usize(0, t.len() - 1);
                    t[k].0 = gen_normal(s);
                }
            }
            5 => {
                let u = m.uv.as_deref_mut().unwrap_or(&mut []);
                if !u.is_empty() {
                    let k = s.usize(0, u.len() - 1);
                    u[k] = (gen_uv(s), gen_uv(s));
                }
            }
            _ => {
                for (_, d) in &mut m.custom {
                    match d {
                        Cd::Index(a, _) | Cd::Int(a, _) => a.reverse(),
                        Cd::Float(a, _) => a.reverse(),
                        Cd::Rgba(a, _) => a.reverse(),
                    }
                }
            }
        }
    }
}
/// What a call gives doesn't depend on the calls before, least of all on those with meshes much like its own.
fn c21_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (elems, indices) = s.pick(&[(12, 12), (60, 90), (200, 300), (1500, 3000)]);
    let o = Opts { max_elems: elems, max_indices: indices, equal_len: true, any_len: false, ..Opts::default() };
    let base = gen_mesh(s, &o);
    let mut jobs = vec![(base.clone(), "mesh0".to_owned())];
    for k in 1..s.usize(2, 3) {
        let mut m = base.clone();
        vary(s, &mut m);
        jobs.push((m, if s.bool() { "mesh0".to_owned() } else { format!("mesh{k}") }));
    }
    jobs.push((gen_mesh(s, &Opts { max_elems: 20, max_indices: 30, equal_len: true, any_len: false, ..Opts::default() }), "another".to_owned()));
    let one = gen_spec(s);
    let specs: Vec<Spec> = jobs.iter().map(|_| if s.bool() { one.clone() } else { gen_spec(s) }).collect();
    ctx.describe(|| format!("{specs:?} {}", brief_meshes(&jobs)));
    ctx.nontrivial_if(base.elements() >= 4);
    type Got = (Result<Vec<u8>, String>, Result<peer::Named, String>);
    fn call(op: u64, job: &(Md, String), spec: &Spec, bytes: &Option<Vec<u8>>, text: &Option<Vec<u8>>) -> Option<Got> {
        let meshes = std::slice::from_ref(job);
        let (mut out, mut named) = (Err(String::new()), Err(String::new()));
        match op {
            0 => out = write(meshes, spec),
            1 => out = export_here(meshes),
            2 => named = peer::process_here(meshes).and_then(|r| r),
            3 => named = read_here(bytes.as_ref()?),
            _ => named = import_here(text.as_ref()?),
        }
        Some((out, named))
    }
    const OPS: [&str; 5] = ["saving", "exporting", "verifying, reordering or unifying", "reading", "importing"];
    let bytes: Vec<Option<Vec<u8>>> = jobs.iter().zip(&specs).map(|(j, p)| write(std::slice::from_ref(j), p).ok()).collect();
    let texts: Vec<Option<Vec<u8>>> = jobs.iter().map(|j| export_here(std::slice::from_ref(j)).ok()).collect();
    let mut seen: Vec<Option<Got>> = vec![None; jobs.len() * OPS.len()];
    for _ in 0..s.usize(4, 24) {
        let (j, op) = (s.usize(0, jobs.len() - 1), s.weighted(&[4, 1, 2, 2, 1]));
        let Some(got) = call(op as u64, &jobs[j], &specs[j], &bytes[j], &texts[j]) else { continue };
        if op == 0 && got.0.as_ref().ok() != bytes[j].as_ref() {
            return Err(format!("saving mesh {j} gave other bytes than before"));
        }
        if op == 1 && got.0.as_ref().ok() != texts[j].as_ref() {
            return Err(format!("exporting mesh {j} gave another text than before"));
        }
        match &seen[j * OPS.len() + op] {
            Some(was) if *was != got => return Err(format!("{} mesh {j} gave another result than before", OPS[op])),
            Some(_) => (),
            None => seen[j * OPS.len() + op] = Some(got),
        }
    }
    Ok(())
}
/// Several threads save, load, transform, export and import at once.
fn c21_threads(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(2, 6);
    let jobs: Vec<(Vec<(Md, String)>, Spec)> = (0..n).map(|_| (gen_meshes(s, &Opts { max_elems: 60, max_indices: 90, equal_len: true, ..Opts::default() }, 3), gen_spec(s))).collect();
    ctx.describe(|| jobs.iter().map(|j| brief_meshes(&j.0)).collect::<Vec<_>>().join(" || "));
    ctx.nontrivial_if(jobs.iter().filter(|j| j.0.iter().any(|m| m.0.elements() >= 4)).count() > 1);
    type Out = (Vec<u8>, peer::Named, peer::Named);
    fn job(meshes: &[(Md, String)], spec: &Spec) -> Result<Out, String> {
        let bytes = write(meshes, spec)?;
        let names: Vec<Vec<String>> = meshes.iter().map(|m| m.0.names()).collect();
        let got = peer::canon_all(&read(&bytes)?, &names);
        let asyn = peer::canon_all(&block_on(TMFMesh::read_tmf_async(&mut &bytes[..])).map_err(|e| e.to_string())?, &names);
        if asyn != got {
            return Err("the asynchronous call read other meshes".to_owned());
        }
        let done = peer::process_here(meshes)??;
        Ok((bytes, got, done))
    }
    let alone: Vec<Out> = jobs.iter().map(|(m, p)| job(m, p)).collect::<Result<_, _>>()?;
    let shared = to_list(&jobs[0].0);
    let want = &alone[0].0;
    std::thread::scope(|scope| {
        let mut handles = Vec::new();
        for (k, (m, p)) in jobs.iter().enumerate() {
            let (alone, shared, jobs) = (&alone, &shared, &jobs);
            handles.push(scope.spawn(move || -> Res {
                for _ in 0..4 {
                    let o = job(m, p).map_err(|e| format!("with other threads: {e}"))?;
                    if o != alone[k] {
                        return Err("another result with other threads at work".to_owned());
                    }
                    // All threads save the same meshes
                    let mut out = Vec::new();
                    TMFMesh::write_tmf(shared, &mut out, &jobs[0].1.to_tmf()).map_err(|e| e.to_string())?;
                    if &out != want {
                        return Err("saving the same mesh from several threads gave different bytes".to_owned());
                    }
                }
                Ok(())
            }));
        }
        handles.into_iter().try_for_each(|h| h.join().map_err(|_| "a thread panicked".to_owned())?)
    })
}
const FULL: &str = "full";
/// The other build's answer, or a failure that says what differs
fn both<T>(config: &str, what: &str, here: Result<T, String>, there: Result<Result<T, String>, String>) -> Result<Option<(T, T)>, String> {
    match (here, there?) {
        (Ok(a), Ok(b)) => Ok(Some((a, b))),
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(e)) => Err(format!("{what} works in the default build but fails in the {config} one: {e}")),
        (Err(e), Ok(_)) => Err(format!("{what} works in the {config} build but fails in the default one: {e}")),
    }
}
fn close_all(config: &str, a: &peer::Named, b: &peer::Named, rel: f64, dir: f64) -> Res {
    if a.len() != b.len() {
        return Err(format!("{} meshes in the {config} build instead of {}", b.len(), a.len()));
    }
    for (k, ((n, x), (m, y))) in a.iter().zip(b).enumerate() {
        if n != m {
            return Err(format!("mesh {k} is named {m:.60?} in the {config} build instead of {n:.60?}"));
        }
        x.close(y, rel, dir).map_err(|e| format!("mesh {k} in the {config} build: {e}"))?;
    }
    Ok(())
}
fn read_here(bytes: &[u8]) -> Result<peer::Named, String> {
    let m = TMFMesh::read_tmf(&mut &bytes[..]).map_err(|e| format!("{e:?}"))?;
    Ok(peer::canon_all(&m, &peer::custom_names(bytes)))
}
fn import_here(text: &[u8]) -> Result<peer::Named, String> {
    let m = TMFMesh::read_from_obj(&mut &text[..]).map_err(|e| format!("{e:?}"))?;
    Ok(peer::canon_all(&m, &[]))
}
fn export_here(meshes: &[(Md, String)]) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    TMFMesh::write_obj(&to_list(meshes), &mut o).map_err(|e| format!("{e:?}"))?;
    Ok(o)
}
fn c21_peer_read(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !peer::available(FULL) {
        return Ok(());
    }
    let mut bytes = if s.bool() {
        let meshes = gen_meshes(s, &Opts { max_elems: 40, max_indices: 60, ..Opts::default() }, 3);
        let spec = gen_spec(s);
        ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
        ctx.nontrivial_if(meshes.iter().any(|m| m.0.elements() >= 4));
        write(&meshes, &spec)?
    } else {
        let (f, _) = gen_rfile(s, &FILE);
        ctx.describe(|| super::format::brief_file(&f));
        ctx.nontrivial_if(f.meshes.iter().any(|m| m.segs.iter().any(|s| s.data.len() > 20)));
        f.encode()
    };
    // Sometimes damaged: both builds must refuse it, or read it alike
    let damaged = s.chance(1, 5) && !bytes.is_empty();
    if damaged {
        if s.bool() {
            let n = s.usize(0, bytes.len());
            bytes.truncate(n);
        } else {
            let k = s.usize(0, bytes.len() - 1);
            bytes[k] ^= 1 << s.draw(7);
        }
    }
    ctx.label(if damaged { "damaged" } else { "intact" });
    if damaged && zero_width(&bytes) > 500_000 {
        ctx.label("left out: zero-width elements");
        return Ok(());
    }
    let Some((a, b)) = both(FULL, "reading", read_here(&bytes), peer::read_in(FULL, &bytes))? else { return Ok(()) };
    let text = |n: &peer::Named| n.iter().map(|(n, c)| format!("{n:?}{:?}{:?}{:?}", c.v, c.uv, c.custom)).collect::<Vec<_>>();
    if damaged {
        // Values may be NaN or huge
        if text(&a) != text(&b) {
            return Err("a damaged file is read differently in the full build".to_owned());
        }
        return Ok(());
    }
    close_all(FULL, &a, &b, 0.0, 0.03)
}
fn c21_peer_write(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !peer::available(FULL) {
        return Ok(());
    }
    let meshes = gen_meshes(s, &Opts { max_elems: 60, max_indices: 90, ..Opts::default() }, 3);
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(meshes.iter().any(|m| m.0.elements() >= 4));
    match both(FULL, "saving", write(&meshes, &spec), peer::write_in(FULL, &meshes, &spec))? {
        Some((a, b)) if a != b => Err("the full build saves other bytes".to_owned()),
        _ => Ok(()),
    }
}
fn c21_peer_process(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !peer::available(FULL) {
        return Ok(());
    }
    let meshes = gen_meshes(s, &Opts { max_elems: 60, max_indices: 90, equal_len: true, ..Opts::default() }, 3);
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(meshes.iter().any(|m| m.0.elements() >= 4));
    match both(FULL, "verifying, reordering or unifying", peer::process_here(&meshes)?, peer::process_in(FULL, &meshes))? {
        Some((a, b)) if a != b => Err("verifying, reordering or unifying gives another result in the full build".to_owned()),
        _ => Ok(()),
    }
}
fn c21_peer_obj(s: &mut Src, ctx: &mut Ctx) -> Res {
    if !peer::available(FULL) {
        return Ok(());
    }
    let text = if s.bool() {
        let meshes = gen_obj_meshes(s, 20, 4);
        ctx.describe(|| brief_meshes(&meshes));
        ctx.nontrivial_if(meshes.iter().any(|m| m.0.elements() >= 4));
        match both(FULL, "exporting", export_here(&meshes), peer::export_in(FULL, &meshes))? {
            Some((a, b)) if a != b => return Err("the full build exports another text".to_owned()),
            Some((a, _)) => a,
            None => return Ok(()),
        }
    } else {
        let t = gen_text(s);
        ctx.describe(|| String::from_utf8_lossy(&t.text).into_owned());
        ctx.nontrivial_if(t.meshes.iter().any(|m| m.corners.len() > 3));
        t.text
    };
    match both(FULL, "importing", import_here(&text), peer::import_in(FULL, &text))? {
        Some((a, b)) if a != b => Err("the full build imports other meshes".to_owned()),
        _ => Ok(()),
    }
}
// ---------------------------------------------------------------------------------------------------- C23
fn segment_bytes(bytes: &[u8]) -> Result<(usize, usize), String> {
    let Some((f, _)) = refcodec::parse(bytes) else { return Err("the file is malformed".to_owned()) };
    let v: usize = f.meshes.iter().flat_map(|m| &m.segs).filter(|s| s.ty == 1).map(|s| s.data.len() + 6).sum();
    Ok((v, bytes.len() - v))
}
fn same_rounded(a: &Md, b: &Md) -> Res {
    same_structure(a, b)?;
    let near = |x: F, y: F, tol: f64| (x as f64 - y as f64).abs() <= tol;
    let dir = |x: V3, y: V3| near(x.0, y.0, 4e-6) && near(x.1, y.1, 4e-6) && near(x.2, y.2, 4e-6);
    for (k, (x, y)) in a.n.iter().flatten().zip(b.n.iter().flatten()).enumerate() {
        if !dir(*x, *y) {
            return Err(format!("normal {k} was {x:?} and became {y:?}"));
        }
    }
    for (k, (x, y)) in a.t.iter().flatten().zip(b.t.iter().flatten()).enumerate() {
        if !dir(x.0, y.0) || x.1 != y.1 {
            return Err(format!("tangent {k} was {x:?} and became {y:?}"));
        }
    }
    for (k, (x, y)) in a.uv.iter().flatten().zip(b.uv.iter().flatten()).enumerate() {
        if !near(x.0, y.0, 1e-6) || !near(x.1, y.1, 1e-6) {
            return Err(format!("UV {k} was {x:?} and became {y:?}"));
        }
    }
    if a.custom.len() != b.custom.len() {
        return Err(format!("{} kinds of custom data became {}", a.custom.len(), b.custom.len()));
    }
    for ((n, x), (m, y)) in a.custom.iter().zip(&b.custom) {
        let e = |t: String| Err(format!("custom data {n:.30?}: {t}"));
        if n != m || x.kind() != y.kind() || x.len() != y.len() {
            return e(format!("{} {}s became {} {}s", x.len(), x.kind(), y.len(), y.kind()));
        }
        match (x, y) {
            (Cd::Index(x, _), Cd::Index(y, _)) | (Cd::Int(x, _), Cd::Int(y, _)) if x != y => return e("the numbers changed".to_owned()),
            (Cd::Float(x, _), Cd::Float(y, _)) => {
                let (lo, hi) = x.iter().fold((0.0f64, 0.0f64), |(l, h), v| (l.min(*v as f64), h.max(*v as f64)));
                if let Some(k) = (0..x.len()).find(|k| !near(x[*k], y[*k], (hi - lo) * 1e-6)) {
                    return e(format!("float {k} was {} and became {}", x[k], y[k]));
                }
            }
            (Cd::Rgba(x, _), Cd::Rgba(y, _)) => {
                if let Some(k) = (0..x.len()).find(|k| {
                    let (p, q) = (x[*k], y[*k]);
                    !(near(p.0, q.0, 1e-6) && near(p.1, q.1, 1e-6) && near(p.2, q.2, 1e-6) && near(p.3, q.3, 1e-6))
                }) {
                    return e(format!("colour {k} was {:?} and became {:?}", x[k], y[k]));
                }
            }
            _ => (),
        }
    }
    Ok(())
}
/// Saves and loads *bytes* again and again.
fn c23_cycles(bytes: Vec<u8>, names: &[Vec<String>], spec: &Spec, cycles: usize) -> Res {
    let mut loaded = read(&bytes)?;
    let (sv, mut so) = segment_bytes(&bytes)?;
    for c in 1..=cycles {
        let mut out = Vec::new();
        TMFMesh::write_tmf(&loaded, &mut out, &spec.to_tmf()).map_err(|e| format!("cycle {c}: saving a loaded mesh failed: {e}"))?;
        let again = read(&out).map_err(|e| format!("cycle {c}: {e}"))?;
        if again.len() != loaded.len() {
            return Err(format!("cycle {c}: {} meshes became {}", loaded.len(), again.len()));
        }
        for (k, ((x, n), (y, m))) in loaded.iter().zip(&again).enumerate() {
            if n != m {
                return Err(format!("cycle {c}: mesh {k} was named {n:.60?} and is now named {m:.60?}"));
            }
            let (a, b) = (Md::from_tmf(x, &names[k]), Md::from_tmf(y, &names[k]));
            same_rounded(&a, &b).map_err(|e| format!("cycle {c}: {e}"))?;
            if let (Some(p), Some(q)) = (&a.v, &b.v) {
                check_vertices(p, q, a.shortest_edge() * spec.vertex as f64).map_err(|e| format!("cycle {c}: {e}"))?;
            }
        }
        let (v, o) = segment_bytes(&out)?;
        if o > so {
            return Err(format!("cycle {c}: what is not vertices grew from {so} to {o} bytes"));
        }
        // Without edges the precision is that of edges 0.1 long.
        let collapsed = loaded.iter().zip(names).any(|((x, _), n)| {
            let d = Md::from_tmf(x, n);
            d.v.is_some() && d.vt.as_ref().is_some_and(|t| !t.is_empty()) && !d.has_edge()
        });
        if v > 2 * sv + 200 && !collapsed {
            return Err(format!("cycle {c}: vertices grew from {sv} to {v} bytes"));
        }
        so = o;
        loaded = again;
    }
    Ok(())
}
fn c23_run(meshes: &[(Md, String)], spec: &Spec, cycles: usize, ctx: &mut Ctx) -> Res {
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(meshes)));
    let l = |a: Option<usize>| a.map_or(false, |n| n > 1);
    ctx.nontrivial_if(meshes.iter().any(|(m, _)| l(m.v.as_ref().map(|a| a.len())) || l(m.n.as_ref().map(|a| a.len())) || l(m.uv.as_ref().map(|a| a.len())) || l(m.t.as_ref().map(|a| a.len())) || m.custom.iter().any(|c| c.1.len() > 1)));
    let names: Vec<Vec<String>> = meshes.iter().map(|m| m.0.names()).collect();
    c23_cycles(write(meshes, spec)?, &names, spec, cycles)
}
fn c23_mesh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = gen_meshes(s, &Opts { max_elems: 50, max_indices: 80, ..Opts::default() }, 3);
    let spec = gen_spec(s);
    c23_run(&meshes, &spec, 6, ctx)
}
fn c23_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = [(gen_long_mesh(s, true), "long".to_owned())];
    let spec = gen_spec(s);
    c23_run(&meshes, &spec, 3, ctx)
}
fn c23_data(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 16);
    let mut m = Md::default();
    match s.draw(2) {
        0 => m.n = Some(s.array(n, |s, _| gen_normal(s))),
        1 => m.uv = Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s)))),
        _ => m.t = Some(s.array(n, |s, _| (gen_normal(s), if s.bool() { 1.0 } else { -1.0 }))),
    }
    let spec = gen_spec(s);
    c23_run(&[(m, "m".to_owned())], &spec, 3, ctx)
}
fn c23_vertices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let faces = s.chance(3, 4);
    let m = gen_mesh(s, &Opts { max_elems: 30, max_indices: 60, custom: false, tangents: false, faces, ..Opts::default() });
    let m = Md { v: m.v, vt: m.vt, ..Md::default() };
    let spec = Spec { vertex: gen_vertex_prec(s), ..Spec::default_spec() };
    c23_run(&[(m, "m".to_owned())], &spec, 8, ctx)
}
fn c23_custom(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Md::default();
    for _ in 0..s.usize(1, 4) {
        let name = gen_custom_name(s);
        let max = s.pick(&[6usize, 30]);
        let d = gen_custom(s, max);
        m.custom.push((name, d));
    }
    c23_run(&[(m, "m".to_owned())], &Spec::default_spec(), 6, ctx)
}
/// Files of other programs, saved again with some precision: from the first cycle on nothing more is lost.
fn c23_foreign(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (f, want) = gen_rfile(s, &FILE);
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", super::format::brief_file(&f)));
    let bytes = f.encode();
    let loaded = read(&bytes)?;
    let names = peer::custom_names(&bytes);
    // Only meshes which can be saved
    let keep: Vec<usize> = (0..loaded.len()).filter(|k| loaded[*k].0.verify().is_ok()).collect();
    let list: Vec<(TMFMesh, String)> = keep.iter().map(|k| loaded[*k].clone()).collect();
    let names: Vec<Vec<String>> = keep.iter().map(|k| names[*k].clone()).collect();
    ctx.nontrivial_if(keep.iter().any(|k| want[*k].1.n.is_some() || want[*k].1.uv.is_some() || !want[*k].1.custom.is_empty()));
    let mut out = Vec::new();
    TMFMesh::write_tmf(&list, &mut out, &spec.to_tmf()).map_err(|e| format!("saving loaded meshes failed: {e}"))?;
    c23_cycles(out, &names, &spec, 3)
}
// ---------------------------------------------------------------------------------------------------- C24
const OTHERS: [&str; 5] = ["long", "short", "double", "long_double", "short_double"];
fn is_short(config: &str) -> bool {
    config.starts_with("short")
}
fn is_double(config: &str) -> bool {
    config.ends_with("double")
}
/// Everything the default build promises about a save and load.
fn check_loaded(m: &Md, l: &Md, spec: &Spec) -> Res {
    same_structure(m, l)?;
    if let (Some(a), Some(b)) = (&m.v, &l.v) {
        check_vertices(a, b, m.shortest_edge() * spec.vertex as f64)?;
    }
    for (a, b) in m.n.iter().flatten().zip(l.n.iter().flatten()) {
        check_dir(*a, *b, spec.normal, 0.0)?;
    }
    for (a, b) in m.t.iter().flatten().zip(l.t.iter().flatten()) {
        check_dir(a.0, b.0, spec.tangent, 0.0)?;
        if a.1 != b.1 {
            return Err(format!("handedness {} became {}", a.1, b.1));
        }
    }
    if let (Some(a), Some(b)) = (&m.uv, &l.uv) {
        check_uvs(a, b, spec.uv)?;
    }
    let want = first_custom(m);
    if want.custom.len() != l.custom.len() {
        return Err(format!("{} kinds of custom data became {}", want.custom.len(), l.custom.len()));
    }
    for ((n, a), (k, b)) in want.custom.iter().zip(&l.custom) {
        if n != k {
            return Err(format!("custom data {n:.30?} became {k:.30?}"));
        }
        check_custom(n, a, b)?;
    }
    Ok(())
}
fn load_own(meshes: &[(Md, String)], bytes: &[u8], spec: &Spec) -> Res {
    let l = read(bytes)?;
    if l.len() != meshes.len() {
        return Err(format!("{} meshes became {}", meshes.len(), l.len()));
    }
    for ((m, n), (t, k)) in meshes.iter().zip(&l) {
        if n != k {
            return Err(format!("the name {n:.60?} became {k:.60?}"));
        }
        check_loaded(m, &Md::from_tmf(t, &m.names()), spec)?;
    }
    Ok(())
}
fn many(meshes: &[(Md, String)]) -> bool {
    meshes.iter().any(|m| m.0.elements() > 1)
}
fn c24_self_mesh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = gen_meshes(s, &Opts { max_elems: 50, max_indices: 80, ..Opts::default() }, 3);
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(many(&meshes));
    load_own(&meshes, &write(&meshes, &spec)?, &spec)
}
fn c24_self_count(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = [(gen_long_mesh(s, true), "long".to_owned())];
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(true);
    load_own(&meshes, &write(&meshes, &spec)?, &spec)
}
fn c24_self_vertices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_mesh(s, &Opts { max_elems: 60, max_indices: 120, custom: false, tangents: false, faces: true, ..Opts::default() });
    let spec = Spec { vertex: gen_vertex_prec(s), ..Spec::default_spec() };
    let meshes = [(m, "m".to_owned())];
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(many(&meshes));
    load_own(&meshes, &write(&meshes, &spec)?, &spec)
}
fn c24_self_data(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Md::default();
    let n = s.usize(1, 12);
    m.n = Some(s.array(n, |s, _| gen_normal(s)));
    m.uv = Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s))));
    m.t = Some(s.array(n, |s, _| (gen_normal(s), 1.0)));
    for _ in 0..s.usize(0, 3) {
        let name = gen_custom_name(s);
        let d = gen_custom(s, 30);
        m.custom.push((name, d));
    }
    let spec = gen_spec(s);
    let meshes = [(m, "m".to_owned())];
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(many(&meshes));
    load_own(&meshes, &write(&meshes, &spec)?, &spec)
}
/// Indices up to the greatest the type can hold
fn c24_self_indices(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.pick(&[65_535usize, 65_536, 32_769, 70_000]);
    let n = n.min(I::MAX as usize + if I::BITS < 32 { 1 } else { 0 });
    let len = s.usize(1, 400);
    let mut t = gen_indices(s, len, n);
    t.push((n - 1) as I);
    let top = s.pick(&[I::MAX as u64, I::MAX as u64 - 1, I::MAX as u64 / 2 + 1, I::MAX as u64 >> 7]);
    let len = s.usize(1, 30);
    let a: Vec<I> = s.array(len, |s, _| if s.chance(1, 3) { top as I } else { s.draw(top) as I });
    let max = a.iter().copied().max().unwrap() as usize;
    let m = Md {
        v: Some(vec![(1.0, 2.0, 3.0); n]),
        vt: Some(t),
        custom: vec![("i".to_owned(), Cd::Index(a.clone(), max)), ("n".to_owned(), Cd::Int(a.clone(), max))],
        ..Md::default()
    };
    let mut meshes = vec![(m, "m".to_owned())];
    // Index arrays of elements which are elsewhere may hold any number
    let mut alone = Md::default();
    let mut b = a.clone();
    b.rotate_left(len / 2);
    let which = s.range(1, 15);
    for (k, t) in [&mut alone.vt, &mut alone.nt, &mut alone.uvt, &mut alone.tt].into_iter().enumerate() {
        if which >> k & 1 == 1 {
            *t = Some(if s.bool() { a.clone() } else { b.clone() });
        }
    }
    // Refusing meshes that do not verify is fine, changing them is not
    let refused = [(alone.clone(), "alone".to_owned())];
    if alone.to_tmf().verify().is_ok() || write(&refused, &Spec::default_spec()).is_ok() {
        meshes.push((alone, "alone".to_owned()));
    }
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(true);
    let spec = Spec::default_spec();
    load_own(&meshes, &write(&meshes, &spec)?, &spec)
}
/// The greatest index or integer of a file
fn greatest(f: &refcodec::RFile) -> u64 {
    let mut top = 0;
    for p in f.meshes.iter().flat_map(|m| &m.segs).filter_map(|s| parse_payload(s, f.old())) {
        if let Payload::CIndex(_, t) | Payload::CInt(_, t) = &p {
            top = t.values().into_iter().fold(top, u64::max);
        }
        if let Some(t) = index_kind(&p) {
            top = t.values().into_iter().fold(top, u64::max);
        }
    }
    top
}
fn check_read_elsewhere(bytes: &[u8], top: u64, want: &[(String, Canon)], wide: bool) -> Res {
    let first: peer::Named = want.iter().map(|(n, c)| (n.clone(), c.clone().first_custom())).collect();
    for config in OTHERS.iter().filter(|c| peer::available(c)) {
        let limit = if is_short(config) {
            u16::MAX as u64
        } else if config.starts_with("long") {
            u64::MAX
        } else {
            u32::MAX as u64
        };
        match peer::read_in(config, bytes)? {
            Err(e) if top <= limit => return Err(format!("the {config} build refuses a file with indices up to {top}: {e}")),
            Err(_) => (),
            Ok(_) if top > limit => return Err(format!("the {config} build read a file with the index {top}, which it can't hold")),
            Ok(got) => close_all(config, &first, &got, if is_double(config) { 1e-12 } else { 1e-6 }, if wide { 4e-4 } else { 2e-5 })?,
        }
    }
    Ok(())
}
fn widest(f: &refcodec::RFile) -> bool {
    f.meshes.iter().flat_map(|m| &m.segs).any(|s| match parse_payload(s, f.old()) {
        Some(Payload::Norm { bits, .. }) | Some(Payload::Tan { bits, .. }) => bits > 14,
        _ => false,
    })
}
fn c24_read(s: &mut Src, ctx: &mut Ctx) -> Res {
    let narrow = s.chance(3, 4);
    let (f, want) = gen_rfile(s, &FileOpts { narrow, ..FILE });
    ctx.describe(|| super::format::brief_file(&f));
    ctx.nontrivial_if(f.meshes.iter().any(|m| m.segs.iter().any(|s| s.data.len() > 20)));
    let bytes = f.encode();
    compare_reader(&bytes, &want, if widest(&f) { 63 } else { 0 })?;
    ctx.label_if(greatest(&f) > u16::MAX as u64, "too wide for short indices");
    check_read_elsewhere(&bytes, greatest(&f), &want, widest(&f))
}
/// Indices the default build can't hold
fn c24_read_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 12);
    let min = s.pick(&[0u64, 1, 65_530, 0xFFFF_FFF0, 1 << 32, 1 << 33, u64::MAX - 5]);
    let bits = s.pick(&[1u8, 5, 16, 17, 31, 32, 33, 40, 63, 64]);
    let cap = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let cap = cap.min(u64::MAX - min);
    let q = s.array(n, |s, _| if s.chance(1, 4) { cap } else { s.draw(cap) });
    let t = refcodec::Tri { bits, min, q };
    let p = match s.draw(5) {
        0 => Payload::VTri(t),
        1 => Payload::NTri(t),
        2 => Payload::UvTri(t),
        3 => Payload::TanTri(t),
        4 => Payload::Shared(s.range(1, 7) as u8, t),
        _ if s.bool() => Payload::CIndex(b"i".to_vec(), t),
        _ => Payload::CInt(b"i".to_vec(), t),
    };
    let f = refcodec::RFile { version: [0, 2, 0, 2], meshes: vec![refcodec::RMesh { name: b"m".to_vec(), segs: vec![refcodec::encode_payload(&p, 0, false)] }] };
    ctx.describe(|| super::format::brief_file(&f));
    ctx.nontrivial_if(n > 1);
    let bytes = f.encode();
    let (want, _) = decode(&bytes).map_err(|e| format!("HARNESS: {e}"))?;
    let top = greatest(&f);
    ctx.label_if(top > u32::MAX as u64, "too wide for default indices");
    match read(&bytes) {
        Err(e) if top <= I::MAX as u64 => return Err(e),
        Ok(_) if top > I::MAX as u64 => return Err(format!("the index {top} was read, which the index type can't hold")),
        Ok(_) => compare_reader(&bytes, &want, 0)?,
        Err(_) => (),
    }
    check_read_elsewhere(&bytes, greatest(&f), &want, false)
}
/// Only integers all builds can hold
fn narrow(m: &mut Md) {
    for (_, c) in &mut m.custom {
        if let Cd::Index(a, max) | Cd::Int(a, max) = c {
            if a.iter().any(|x| *x as u64 > u16::MAX as u64) {
                for x in a.iter_mut() {
                    *x = (*x as u64 % 65_536) as I;
                }
                *max = max_of(a) as usize;
            }
        }
    }
}
fn c24_write(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut meshes = gen_meshes(s, &Opts { max_elems: 50, max_indices: 80, ..Opts::default() }, 3);
    meshes.iter_mut().for_each(|m| narrow(&mut m.0));
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    ctx.nontrivial_if(many(&meshes));
    for config in OTHERS.iter().filter(|c| peer::available(c)) {
        let bytes = peer::write_in(config, &meshes, &spec)?.map_err(|e| format!("the {config} build: {e}"))?;
        load_own(&meshes, &bytes, &spec).map_err(|e| format!("saved by the {config} build: {e}"))?;
    }
    Ok(())
}
fn c24_process(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut meshes = gen_meshes(s, &Opts { max_elems: 50, max_indices: 80, equal_len: true, ..Opts::default() }, 3);
    meshes.iter_mut().for_each(|m| narrow(&mut m.0));
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(many(&meshes));
    let here = peer::process_here(&meshes)??;
    for config in OTHERS.iter().filter(|c| peer::available(c)) {
        let there = peer::process_in(config, &meshes)?.map_err(|e| format!("the {config} build: {e}"))?;
        if here != there {
            return Err(format!("verifying, reordering or unifying gives another result in the {config} build"));
        }
    }
    Ok(())
}
/// The same meshes, with each number the same up to rounding to single precision.
fn same_numbers(config: &str, a: &peer::Named, b: &peer::Named) -> Res {
    fn nums<const N: usize>(what: &str, a: &Option<Vec<[f64; N]>>, b: &Option<Vec<[f64; N]>>) -> Res {
        if a.as_ref().map(|a| a.len()) != b.as_ref().map(|b| b.len()) {
            return Err(format!("{what}: {:?} elements instead of {:?}", b.as_ref().map(|b| b.len()), a.as_ref().map(|a| a.len())));
        }
        for (k, (x, y)) in a.iter().flatten().zip(b.iter().flatten()).enumerate() {
            for c in 0..N {
                let (p, q) = (x[c], y[c] as f32 as f64);
                if !(p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= p.abs() * 1e-6 + 1e-44) {
                    return Err(format!("{what}[{k}] is {y:?} instead of {x:?}"));
                }
            }
        }
        Ok(())
    }
    if a.len() != b.len() {
        return Err(format!("{} meshes in the {config} build instead of {}", b.len(), a.len()));
    }
    for ((n, x), (m, y)) in a.iter().zip(b) {
        let e = |t: String| format!("mesh {n:?} in the {config} build: {t}");
        nums("vertices", &x.v, &y.v).map_err(e)?;
        nums("normals", &x.n, &y.n).map_err(e)?;
        nums("uvs", &x.uv, &y.uv).map_err(e)?;
        if n != m || x.vt != y.vt || x.nt != y.nt || x.uvt != y.uvt {
            return Err(e("other name or index arrays".to_owned()));
        }
    }
    Ok(())
}
fn c24_obj(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        let t = gen_text(s);
        ctx.describe(|| String::from_utf8_lossy(&t.text).into_owned());
        ctx.nontrivial_if(t.meshes.iter().any(|m| m.corners.len() > 3));
        let here = import_here(&t.text);
        for config in OTHERS.iter().filter(|c| peer::available(c)) {
            if let Some((a, b)) = both(config, "importing", here.clone(), peer::import_in(config, &t.text))? {
                same_numbers(config, &a, &b)?;
            }
        }
        return Ok(());
    }
    let meshes = gen_obj_meshes(s, 20, 4);
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(many(&meshes));
    let here = import_here(&export_here(&meshes)?)?;
    for config in OTHERS.iter().filter(|c| peer::available(c)) {
        let text = peer::export_in(config, &meshes)?.map_err(|e| format!("the {config} build: exporting failed: {e}"))?;
        if import_here(&text).map_err(|e| format!("exported by the {config} build: {e}"))? != here {
            return Err(format!("what the {config} build exports is another mesh"));
        }
    }
    Ok(())
}
/// More than short indices can count
fn c24_limits(s: &mut Src, ctx: &mut Ctx) -> Res {
    let shorts: Vec<&str> = OTHERS.iter().copied().filter(|c| is_short(c) && peer::available(c)).collect();
    if shorts.is_empty() {
        return Ok(());
    }
    ctx.nontrivial_if(true);
    match s.draw(3) {
        // Many vertices in all, each mesh within the limit
        0 => {
            let k = s.usize(1, 3);
            let total = s.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_073]);
            let each = total / k;
            ctx.describe(|| format!("exporting {k} meshes with {each} vertices each"));
            let meshes: Vec<(Md, String)> = (0..k)
                .map(|j| {
                    let n = each.min(65_536);
                    let v: Vec<V3> = (0..n).map(|i| (i as F, j as F, 1.0)).collect();
                    (Md { v: Some(v), vt: Some(vec![(n - 1) as I, 0, (n / 2) as I, 1, (n - 2) as I, 2]), ..Md::default() }, format!("m{j}"))
                })
                .collect();
            let here = import_here(&export_here(&meshes)?)?;
            for config in shorts {
                let text = peer::export_in(config, &meshes)?.map_err(|e| format!("the {config} build: exporting failed: {e}"))?;
                if import_here(&text).map_err(|e| format!("exported by the {config} build: {e}"))? != here {
                    return Err(format!("what the {config} build exports is another mesh"));
                }
            }
        }
        // More combinations than there are indices
        1 => {
            let len = s.pick(&[65_532usize, 65_535, 65_538, 66_000, 70_002]);
            ctx.describe(|| format!("unifying {len} different corners"));
            let m = Md {
                v: Some((0..300).map(|i| (i as F, 0.0, 1.0)).collect()),
                vt: Some((0..len).map(|i| (i % 300) as I).collect()),
                n: Some(vec![(0.0, 1.0, 0.0); 300]),
                nt: Some((0..len).map(|i| (i / 300) as I).collect()),
                ..Md::default()
            };
            let meshes = [(m.clone(), "m".to_owned())];
            for config in shorts {
                let r = peer::process_in(config, &meshes)?.map_err(|e| format!("the {config} build: {e}"))?;
                let u = &r[2].1;
                let (vt, nt) = (u.vt.as_ref().ok_or("the vertex index array is gone")?, u.nt.as_ref().ok_or("the normal index array is gone")?);
                if vt.len() != len || nt.len() != len {
                    return Err(format!("in the {config} build {len} corners became {} and {}", vt.len(), nt.len()));
                }
                let v = u.v.as_ref().ok_or("the vertices are gone")?;
                for i in 0..len {
                    if v.get(vt[i] as usize).map(|p| p[0]) != Some((i % 300) as f64) {
                        return Err(format!("in the {config} build corner {i} of {len} has another vertex after unifying"));
                    }
                }
            }
        }
        // An index that is too great
        2 => {
            let n = s.pick(&[65_536usize, 65_537, 66_000]);
            let at = s.pick(&[n, 65_536, 65_537]).min(n);
            ctx.describe(|| format!("importing corner {at} of {n} vertices"));
            let mut text = String::from("o m\n");
            for i in 0..n {
                text += &format!("v {i} 0 1\n");
            }
            text += &format!("f {at} 1 2\n");
            let here = import_here(text.as_bytes())?;
            for config in shorts {
                if let Ok(b) = peer::import_in(config, text.as_bytes())? {
                    // Refusing is fine, another vertex is not
                    close_all(config, &here, &b, 1e-6, 1e-6)?;
                }
            }
        }
        // Too many elements for any index to reach
        _ => {
            let n = s.pick(&[65_536usize, 65_537, 100_000]);
            ctx.describe(|| format!("saving {n} vertices"));
            let m = Md { v: Some((0..n).map(|i| (i as F, 0.0, 1.0)).collect()), vt: Some(vec![0, 65_535, 9]), ..Md::default() };
            let meshes = [(m, "m".to_owned())];
            let spec = Spec::default_spec();
            for config in shorts {
                let bytes = peer::write_in(config, &meshes, &spec)?.map_err(|e| format!("the {config} build: {e}"))?;
                load_own(&meshes, &bytes, &spec).map_err(|e| format!("saved by the {config} build: {e}"))?;
            }
        }
    }
    Ok(())
}
