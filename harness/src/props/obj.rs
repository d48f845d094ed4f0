//! C15-C18: OBJ export and import.
use crate::engine::*;
use crate::model::*;
use crate::props::bytes::same_meshes;
use tmf::*;
pub static PROPS: &[Prop] = &[
    Prop {
        id: "C15",
        rule: "at least one mesh with a face was exported",
        assumptions: &["names are compared without surrounding white space", "coordinates are finite", "attributes without an index array are not part of any corner"],
        arms: &[Arm::new("round_trip", c15_round_trip, 40_000, 2_000_000), Arm::new("big", c15_big, 100, 5_000), Arm::new("faceless", c15_faceless, 8000, 200_000), Arm::new("refused", c15_refused, 10_000, 300_000)],
    },
    Prop {
        id: "C16",
        rule: "the text has at least two faces",
        assumptions: &["faces only refer to elements defined before them", "a last object without faces may be reported as an empty mesh", "numbers are decimal literals"],
        arms: &[Arm::new("text", c16_text, 60_000, 3_000_000), Arm::new("malformed", c16_malformed, 40_000, 2_000_000), Arm::new("big", c16_big, 60, 4_000)],
    },
    Prop {
        id: "C17",
        rule: "the bytes contain at least one face line",
        assumptions: &["imported meshes are only saved if they verify and their coordinates are finite and below 1e15"],
        arms: &[Arm::new("random", c17_random, 30_000, 1_000_000), Arm::new("mutated", c17_mutated, 80_000, 4_000_000), Arm::new("unknown_lines", c17_unknown, 30_000, 1_000_000)],
    },
    Prop {
        id: "C18",
        rule: "a polygon of at least 4 corners was imported",
        assumptions: &["polygons are strictly convex: neighbouring corners are at least 0.05 radians apart on an ellipse", "areas are compared up to 0.2% for rounding of coordinates"],
        arms: &[Arm::new("polygons", c18_polygons, 40_000, 2_000_000), Arm::new("quads", c18_quads, 20_000, 1_000_000), Arm::new("flat_corners", c18_flat, 15_000, 800_000), Arm::new("many_corners", c18_many, 1_500, 80_000)],
    },
];
fn gen_line_name(s: &mut Src) -> String {
    match s.draw(3) {
        0 => s.pick(&["", "mesh", "Suzanne", "two words", "a", "#hash", "o", "v 1 2 3", "x  y", " padded ", "tab\there", "f 1 2 3"]).to_owned(),
        1 => {
            let n = s.usize(0, 10);
            s.array(n, |s, _| s.pick(&['a', 'Z', '0', ' ', '_', '.', '/', '\\', '"', 'é', '日', '🦀', '\t', '#', '-'])).into_iter().collect()
        }
        2 => match s.draw(19) {
            0 => {
                // Longer than buffers and than names TMF can hold
                let n = s.pick(&[4000usize, 8192, 16_400, 65_535, 70_000]) + s.usize(0, 5);
                let c = s.pick(&["n", "é", "日", "a b", "🦀"]);
                format!("{}{}", "x".repeat(s.usize(0, 3)), c.repeat(n / c.len() + 1))
            }
            _ => "n".repeat(s.usize(1, 300)),
        },
        _ => format!("obj{}", s.draw(9)),
    }
}
/// Meshes an OBJ file can hold.
pub fn gen_obj_meshes(s: &mut Src, size: usize, max: usize) -> Vec<(Md, String)> {
    let k = s.usize(1, max);
    (0..k)
        .map(|_| {
            let o = Opts { max_elems: size, max_indices: size * 2, tangents: false, custom: false, equal_len: true, any_len: false, empty_arrays: true, faces: !s.chance(1, 8) };
            let mut m = gen_mesh(s, &o);
            let len = m.vt.as_ref().map(|t| t.len());
            for (t, a) in [(&mut m.nt, m.n.is_some()), (&mut m.uvt, m.uv.is_some())] {
                if len.is_none() || !a || t.as_ref().map_or(false, |t| Some(t.len()) != len) {
                    *t = None;
                }
            }
            if let Some(v) = &mut m.v {
                // Some unusual but finite coordinates
                if s.chance(1, 6) && !v.is_empty() {
                    let i = s.usize(0, v.len() - 1);
                    v[i].0 = s.pick(&[-0.0, 1e-40, 3.4e38, -1e-7, 16777216.0, 0.1, 1e21, 123456.79]);
                }
            }
            (m, gen_line_name(s))
        })
        .collect()
}
fn faces(m: &Md) -> usize {
    m.vt.as_ref().map_or(0, |t| t.len() / 3)
}
fn bits3(a: Option<Box<[V3]>>) -> Option<Vec<[u64; 3]>> {
    // 0 and -0 differ in bits only
    a.map(|a| a.iter().map(|p| [(p.0 as f64).to_bits(), (p.1 as f64).to_bits(), (p.2 as f64).to_bits()]).collect())
}
fn bits2(a: Option<Box<[V2]>>) -> Option<Vec<[u64; 2]>> {
    a.map(|a| a.iter().map(|p| [(p.0 as f64).to_bits(), (p.1 as f64).to_bits()]).collect())
}
fn export(meshes: &[(Md, String)]) -> Result<Vec<u8>, String> {
    let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
    let mut out = Vec::new();
    TMFMesh::write_obj(&list, &mut out).map_err(|e| format!("exporting failed: {e}"))?;
    Ok(out)
}
fn first_diff<T: PartialEq + std::fmt::Debug>(what: &str, a: &[T], b: &[T]) -> Res {
    if a.len() != b.len() {
        return Err(format!("{} {what} became {}", a.len(), b.len()));
    }
    match (0..a.len()).find(|k| a[*k] != b[*k]) {
        None => Ok(()),
        Some(k) => Err(format!("{what} {k} changed")),
    }
}
pub fn c15_round_trip(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = s.pick(&[8usize, 30]);
    let meshes = gen_obj_meshes(s, max, 5);
    let one = s.bool();
    c15_check(&meshes, one, ctx)
}
/// More elements, or more meshes, than 16 or 8 bits count.
fn c15_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut meshes: Vec<(Md, String)>;
    if s.chance(1, 3) {
        let n = s.pick(&[200usize, 255, 256, 257, 300, 1000]);
        meshes = (0..n)
            .map(|k| {
                let i = |s: &mut Src| s.draw(1) as I;
                let m = Md {
                    v: Some(vec![(k as F, f(s.unit()), 0.0), (0.0, k as F, 1.0)]),
                    n: Some(vec![(0.0, 0.0, 1.0), (0.0, 1.0, 0.0)]).filter(|_| k % 3 != 0),
                    uv: Some(vec![(0.5, 0.25), (0.0, 1.0)]).filter(|_| k % 5 != 0),
                    vt: Some(vec![i(s), i(s), 1]),
                    nt: Some(vec![0, i(s), 1]).filter(|_| k % 3 != 0),
                    uvt: Some(vec![1, i(s), 0]).filter(|_| k % 5 != 0),
                    ..Md::default()
                };
                (m, format!("m{}", k / 2))
            })
            .collect();
        ctx.label("many meshes");
    } else {
        meshes = gen_obj_meshes(s, 6, 3);
        let k = s.usize(0, meshes.len() - 1);
        let big = |s: &mut Src| s.pick(&[3usize, 65_535, 65_536, 65_537, 70_000]);
        let (nv, nn, nu) = (s.pick(&[65_536usize, 65_537, 70_000]), big(s), big(s));
        let max = I::MAX as u64;
        let corners = 3 * s.usize(1, 20);
        let idx = |s: &mut Src, n: usize| -> Vec<I> {
            let n = (n as u64 - 1).min(max);
            s.array(corners, |s, _| s.pick(&[0, n, n / 2, n - 1, 65_535.min(n), 65_534.min(n)]).min(n) as I)
        };
        let m = &mut meshes[k].0;
        *m = Md::default();
        m.v = Some((0..nv).map(|i| (i as F, -0.5, 1.0)).collect());
        if s.chance(9, 10) {
            m.vt = Some(idx(s, nv));
        }
        if s.bool() {
            m.n = Some((0..nn).map(|i| (0.0, i as F, 1.0)).collect());
            m.nt = Some(idx(s, nn)).filter(|_| m.vt.is_some());
        }
        if s.bool() {
            m.uv = Some((0..nu).map(|i| (0.5, i as F / 131072.0)).collect());
            m.uvt = Some(idx(s, nu)).filter(|_| m.vt.is_some());
        }
        ctx.label("big mesh");
    }
    c15_check(&meshes, false, ctx)
}
fn c15_check(meshes: &[(Md, String)], one: bool, ctx: &mut Ctx) -> Res {
    let text = if meshes.len() == 1 && one {
        let mut o = Vec::new();
        meshes[0].0.to_tmf().write_obj_one(&mut o, &meshes[0].1).map_err(|e| format!("exporting failed: {e}"))?;
        o
    } else {
        export(meshes)?
    };
    ctx.describe(|| brief_meshes(meshes));
    let want: Vec<&(Md, String)> = meshes.iter().filter(|m| faces(&m.0) > 0).collect();
    ctx.nontrivial_if(!want.is_empty());
    ctx.label_if(want.len() > 1, "several meshes");
    ctx.label_if(want.len() < meshes.len(), "with a mesh without faces");
    let mut got = TMFMesh::read_from_obj(&mut &text[..]).map_err(|e| format!("importing failed: {e}"))?;
    if faces(&meshes.last().unwrap().0) == 0 {
        // Reported as a mesh without faces
        match got.pop() {
            Some((m, n)) if m.get_vertex_triangles().map_or(0, |t| t.len()) == 0 => {
                if n != meshes.last().unwrap().1.trim() {
                    return Err(format!("the last mesh, without faces, is named {n:.60?}"));
                }
            }
            _ => return Err("the last mesh, without faces, disappeared or has faces".to_owned()),
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} meshes with faces became {}", want.len(), got.len()));
    }
    if meshes.len() == 1 && want.len() == 1 {
        let one = TMFMesh::read_from_obj_one(&mut &text[..]).map_err(|e| format!("importing one mesh failed: {e}"))?;
        same_meshes(&got, &[one])?;
    } else if want.len() > 1 && TMFMesh::read_from_obj_one(&mut &text[..]).is_ok() {
        return Err("several meshes were imported as one".to_owned());
    }
    for (k, ((m, name), (g, gn))) in want.iter().zip(&got).enumerate() {
        let e = |e: String| format!("mesh {k}: {e}");
        if name.trim() != gn {
            return Err(e(format!("its name {name:.60?} became {gn:.60?}")));
        }
        let t = m.to_tmf();
        let (a, b) = (bits3(t.get_vertex_buffer()).unwrap(), bits3(g.get_vertex_buffer()).ok_or_else(|| e("it has no vertex buffer".to_owned()))?);
        first_diff("vertex of corner", &a, &b).map_err(e)?;
        if m.nt.is_some() != g.get_normal_triangles().is_some() || (m.nt.is_none() && g.get_normals().is_some()) {
            return Err(e(format!("normals of corners present: {}, after importing: {}", m.nt.is_some(), g.get_normals().is_some())));
        }
        if m.uvt.is_some() != g.get_uv_triangles().is_some() || (m.uvt.is_none() && g.get_uvs().is_some()) {
            return Err(e(format!("UVs of corners present: {}, after importing: {}", m.uvt.is_some(), g.get_uvs().is_some())));
        }
        if m.nt.is_some() {
            let b = bits3(g.get_normal_buffer()).ok_or_else(|| e("it has no normal buffer".to_owned()))?;
            first_diff("normal of corner", &bits3(t.get_normal_buffer()).unwrap(), &b).map_err(e)?;
        }
        if m.uvt.is_some() {
            let b = bits2(g.get_uv_buffer()).ok_or_else(|| e("it has no UV buffer".to_owned()))?;
            first_diff("UV of corner", &bits2(t.get_uv_buffer()).unwrap(), &b).map_err(e)?;
        }
        if g.get_tangents().is_some() || g.get_tangent_triangles().is_some() {
            return Err(e("it has tangents".to_owned()));
        }
        let finite_ok = g.verify().is_ok();
        if t.verify().is_ok() && !finite_ok {
            return Err(e("it does not verify".to_owned()));
        }
    }
    Ok(())
}
pub fn c15_faceless(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(0, 20);
    let mut m = Md { v: if s.chance(9, 10) { Some(gen_verts(s, n)) } else { None }, ..Md::default() };
    if s.chance(1, 3) {
        m.n = Some(vec![gen_normal(s)]);
    }
    if s.chance(1, 3) {
        m.uv = Some(vec![(gen_uv(s), gen_uv(s))]);
    }
    if m.v.is_some() && s.chance(1, 4) {
        m.vt = Some(vec![]);
    }
    let name = gen_line_name(s);
    ctx.describe(|| format!("{name:?} {}", m.brief()));
    ctx.nontrivial_if(n > 0 && m.v.is_some());
    let meshes = [(m.clone(), name.clone())];
    let text = export(&meshes)?;
    let got = TMFMesh::read_from_obj(&mut &text[..]).map_err(|e| format!("importing failed: {e}"))?;
    let [(g, gn)] = &got[..] else { return Err(format!("1 mesh became {}", got.len())) };
    if gn != name.trim() {
        return Err(format!("its name {name:?} became {gn:?}"));
    }
    let v = m.v.unwrap_or_default();
    if g.get_vertices().unwrap_or(&[]) != &v[..] {
        return Err(format!("its vertices {v:.300?} became {:.300?}", g.get_vertices()));
    }
    if g.get_vertex_triangles().map_or(0, |t| t.len()) > 0 {
        return Err("it has faces".to_owned());
    }
    Ok(())
}
fn c15_refused(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut meshes = gen_obj_meshes(s, 8, 3);
    let k = s.usize(0, meshes.len() - 1);
    let (m, name) = &mut meshes[k];
    if faces(m) == 0 {
        m.v = Some(vec![(0.0, 0.0, 0.0); 3]);
        m.vt = Some(vec![0, 1, 2]);
        m.nt = None;
        m.uvt = None;
    }
    let len = m.vt.as_ref().unwrap().len();
    let which = s.draw(5);
    let some = |s: &mut Src, n: usize| -> Vec<I> { s.array(n, |_, _| 0 as I) };
    match which {
        0 => {
            let at = (0..=name.len()).filter(|i| name.is_char_boundary(*i)).collect::<Vec<_>>();
            let at = s.pick(&at);
            name.insert_str(at, s.pick(&["\n", "\r", "\r\n", "\nf 1 1 1", "\no b", "\rv 1 2 3"]));
        }
        1 => {
            // A triangle is not complete
            let drop = s.usize(1, 2);
            m.vt.as_mut().unwrap().truncate(len - drop);
            for t in [&mut m.nt, &mut m.uvt] {
                if let Some(t) = t {
                    t.truncate(len - drop);
                }
            }
        }
        2 | 3 => {
            // Index arrays of different lengths
            let other = if s.bool() { len + s.usize(1, 6) } else { len - s.usize(1, len) };
            let t = Some(some(s, other));
            if which == 2 {
                m.n = Some(vec![(0.0, 0.0, 1.0)]);
                m.nt = t;
            } else {
                m.uv = Some(vec![(0.5, 0.5)]);
                m.uvt = t;
            }
        }
        _ => {
            // Indices of normals or UVs alone
            m.vt = None;
            let t = Some(some(s, len));
            if which == 4 {
                m.n = Some(vec![(0.0, 0.0, 1.0)]);
                m.nt = t;
            } else {
                m.uv = Some(vec![(0.5, 0.5)]);
                m.uvt = t;
            }
        }
    }
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(true);
    match no_panic("exporting", || export(&meshes))? {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("a mesh OBJ can't represent was exported (mesh {k}, kind {which})")),
    }
}
// ---------------------------------------------------------------------------------------------------- texts
#[derive(Clone, Debug, Default)]
pub struct WantMesh {
    pub name: String,
    /// Indices of the elements of the whole file
    pub corners: Vec<(usize, Option<usize>, Option<usize>)>,
}
#[derive(Clone, Debug, Default)]
pub struct ObjText {
    pub text: Vec<u8>,
    pub v: Vec<V3>,
    pub vt: Vec<V2>,
    pub vn: Vec<V3>,
    /// Those with faces
    pub meshes: Vec<WantMesh>,
    /// Byte positions at which lines start
    pub lines: Vec<usize>,
}
fn gen_number(s: &mut Src) -> String {
    match s.draw(7) {
        0 => s.pick(&["0", "1", "-1", "0.5", "-0.0", "1.", ".5", "+2.5", "1e3", "1E-3", "-1.5e+2", "007", "0.1000000015", "3.4028235e38", "1e-45", "-.25", "0.12345678901234567890", "16777217", "-123456789.123456789", "1e-60"]).to_owned(),
        1 => format!("{}", s.draw(1000)),
        2 => format!("-{}.{}", s.draw(20), s.draw(9999)),
        3 => format!("{:.6}", s.signed()),
        4 => format!("{:e}", f(s.signed() * 100.0)),
        _ => format!("{}", f(s.signed() * s.pick(&[1.0, 10.0, 1e-3, 1e5]))),
    }
}
fn num(t: &str) -> F {
    t.parse().expect("a number")
}
fn space(s: &mut Src) -> &'static str {
    s.pick(&[" ", " ", " ", "  ", "\t", " \t "])
}
/// A line that means nothing, in any encoding
fn filler(s: &mut Src) -> Vec<u8> {
    let mut l = filler_text(s).into_bytes();
    if s.chance(1, 10) {
        not_utf8(s, &mut l);
    }
    l
}
fn not_utf8(s: &mut Src, l: &mut Vec<u8>) {
    let b: &[u8] = s.pick(&[&b"\xE9"[..], b"\xFF", b"\xC3", b"\x80\xA0", b"\xED\xA0\x80", b"\xFCber", b" \xA9 2023", b"\xF0\x9F\xA6"]);
    l.extend_from_slice(b);
}
/// What may follow the content of a line.
fn gen_comment(s: &mut Src) -> String {
    if s.chance(3, 4) {
        return s.pick(&[" # a face", " #1 2 3", "  ", "\t", " # 1/1/1", " # note"]).to_owned();
    }
    // Of any length, and with characters of several bytes
    let n = s.usize(0, 120);
    let c = s.pick(&["é", "日", "🦀", "x", "# "]);
    format!("{}#{}{}{}", " ".repeat(s.usize(1, 40)), " ".repeat(s.usize(0, 3)), "1".repeat(s.usize(0, 3)), c.repeat(n / c.len()))
}
fn filler_text(s: &mut Src) -> String {
    match s.draw(3) {
        0 => s
            .pick(&[
                "# comment", "#", "#no space", "", "   ", "\t", "s off", "s 1", "g group name", "usemtl mat", "mtllib a b.mtl", "l 1 2 3", "p 1", "vp 0.5 0.5", "vnn 1 2 3", "vtt 1 2", "fo 1 2 3", "call x", "# v 1 2 3", "#f 1 2 3", "ffff",
                "deg 3", "# 日本 é 🦀",
            ])
            .to_owned(),
        1 => format!("# {}", gen_line_name(s)),
        2 => format!("g {}", gen_line_name(s)),
        _ if s.chance(1, 12) => {
            // Longer than a buffer
            let n = s.pick(&[1000usize, 4095, 8185, 8192, 10_000, 20_000, 70_000]) + s.usize(0, 9);
            format!("{}{}", s.pick(&["# ", "#", "g ", "usemtl "]), s.pick(&["x", "v 1 2 3 ", "f 1 1 1 ", "é"]).repeat(n / 2))
        }
        _ => format!("usemtl {}", gen_line_name(s)),
    }
}
/// A well-formed triangulated text and what it means.
pub fn gen_text(s: &mut Src) -> ObjText {
    let mut o = ObjText::default();
    let mut cur = WantMesh::default();
    let crlf = s.draw(2);
    let objects = s.usize(1, 4);
    let plain = s.bool();
    let mut out: Vec<Vec<u8>> = Vec::new();
    for ob in 0..objects {
        if ob > 0 || s.chance(5, 6) {
            let name = if s.chance(1, 6) && !o.meshes.is_empty() { o.meshes[0].name.clone() } else { gen_line_name(s).trim().to_owned() };
            if !cur.corners.is_empty() {
                o.meshes.push(cur.clone());
            }
            cur = WantMesh { name: name.clone(), corners: vec![] };
            let sp = space(s);
            out.push(if name.is_empty() && s.bool() { b"o".to_vec() } else { format!("o{sp}{name}").into_bytes() });
        }
        // 0: v, 1: v/t, 2: v//n, 3: v/t/n; 4: any mix
        let mode = s.draw(4);
        let blocks = s.usize(1, 2);
        for _ in 0..blocks {
            let counts = [s.usize(0, 6), if matches!(mode, 1 | 3 | 4) { s.usize(0, 5) } else { s.draw(1) as usize }, if matches!(mode, 2 | 3 | 4) { s.usize(0, 5) } else { s.draw(1) as usize }];
            let mut kinds: Vec<usize> = (0..3).flat_map(|k| std::iter::repeat(k).take(counts[k])).collect();
            if !plain {
                // Interleaved
                for i in (1..kinds.len()).rev() {
                    let j = s.usize(0, i);
                    kinds.swap(i, j);
                }
            }
            for k in kinds {
                let (a, b, c) = (gen_number(s), gen_number(s), gen_number(s));
                let sp = space(s);
                let extra = if plain { String::new() } else { s.pick(&["", "", "", " 1.0", " 0.5 0.25 1", " # note"]).to_owned() };
                let extra = if extra == " # note" { gen_comment(s) } else { extra };
                let mut line = match k {
                    0 => {
                        o.v.push((num(&a), num(&b), num(&c)));
                        format!("v{sp}{a}{sp}{b} {c}{extra}")
                    }
                    1 => {
                        o.vt.push((num(&a), num(&b)));
                        format!("vt{sp}{a} {b}{extra}")
                    }
                    _ => {
                        o.vn.push((num(&a), num(&b), num(&c)));
                        format!("vn {a}{sp}{b}{sp}{c}{extra}")
                    }
                }
                .into_bytes();
                if extra.contains('#') && s.chance(1, 6) {
                    not_utf8(s, &mut line);
                }
                out.push(line);
                if !plain && s.chance(1, 10) {
                    out.push(filler(s));
                }
            }
            let nf = if o.v.is_empty() || s.chance(1, 8) { 0 } else { s.usize(1, 6) };
            for _ in 0..nf {
                let mut line = "f".to_owned();
                for _ in 0..3 {
                    // Mostly recent elements
                    let pick = |s: &mut Src, n: usize| -> usize {
                        let lo = if s.chance(3, 4) { n.saturating_sub(6) } else { 0 };
                        s.usize(lo, n - 1)
                    };
                    let vi = pick(s, o.v.len());
                    let form = if mode == 4 { s.draw(3) } else { mode };
                    let ti = if matches!(form, 1 | 3) && !o.vt.is_empty() { Some(pick(s, o.vt.len())) } else { None };
                    let ni = if matches!(form, 2 | 3) && !o.vn.is_empty() { Some(pick(s, o.vn.len())) } else { None };
                    let zeros = if !plain && s.chance(1, 20) { "0" } else { "" };
                    let c = match (ti, ni) {
                        (None, None) => {
                            if !plain && s.chance(1, 12) {
                                s.pick(&[format!("{}/", vi + 1), format!("{}//", vi + 1)])
                            } else {
                                format!("{zeros}{}", vi + 1)
                            }
                        }
                        (Some(t), None) => {
                            if !plain && s.chance(1, 12) {
                                format!("{}/{}/", vi + 1, t + 1)
                            } else {
                                format!("{}/{zeros}{}", vi + 1, t + 1)
                            }
                        }
                        (None, Some(n)) => format!("{}//{}", vi + 1, n + 1),
                        (Some(t), Some(n)) => format!("{}/{}/{}", vi + 1, t + 1, n + 1),
                    };
                    line += space(s);
                    line += &c;
                    cur.corners.push((vi, ti, ni));
                }
                if !plain && s.chance(1, 10) {
                    line += &gen_comment(s);
                }
                let mut line = line.into_bytes();
                if line.contains(&b'#') && s.chance(1, 6) {
                    not_utf8(s, &mut line);
                }
                out.push(line);
                if !plain && s.chance(1, 8) {
                    out.push(filler(s));
                }
            }
        }
    }
    if !cur.corners.is_empty() {
        o.meshes.push(cur);
    }
    let last = out.len();
    for (i, l) in out.into_iter().enumerate() {
        o.lines.push(o.text.len());
        if !plain && s.chance(1, 10) {
            o.text.extend_from_slice(space(s).as_bytes());
        }
        o.text.extend_from_slice(&l);
        let end = match crlf {
            0 => "\n",
            1 => "\r\n",
            _ => s.pick(&["\n", "\r\n", " \n"]),
        };
        if i + 1 < last || !s.chance(1, 4) {
            o.text.extend_from_slice(end.as_bytes());
        }
    }
    o
}
fn eq(a: F, b: F) -> bool {
    a == b && a.is_sign_negative() == b.is_sign_negative()
}
pub fn c16_text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = gen_text(s);
    ctx.describe(|| String::from_utf8_lossy(&o.text).into_owned());
    c16_check(&o, ctx)
}
/// Objects of thousands of elements and faces
fn c16_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::engine::mix;
    use std::fmt::Write;
    let mut o = ObjText::default();
    let mut t = String::new();
    let seed = s.draw(u32::MAX as u64);
    let r = |k: usize, n: usize| -> usize { (mix(seed ^ mix(k as u64)) % n.max(1) as u64) as usize };
    for ob in 0..s.usize(1, 3) {
        let form = s.draw(3);
        let n = s.pick(&[3usize, 40, 300, 5000, 20_000, 66_000]);
        let faces = s.pick(&[1usize, 60, 400, 5000, 15_000, 30_000]);
        let _ = writeln!(t, "o big{ob}");
        for i in 0..n {
            let p = ((ob * 100_000 + i) as F, r(i, 100) as F, 0.5);
            o.v.push(p);
            let _ = writeln!(t, "v {} {} {}", p.0, p.1, p.2);
            if form & 1 == 1 {
                o.vt.push((i as F, p.1));
                let _ = writeln!(t, "vt {} {}", i, p.1);
            }
            if form & 2 == 2 {
                o.vn.push((0.0, i as F, p.1));
                let _ = writeln!(t, "vn 0 {} {}", i, p.1);
            }
        }
        // Faces of elements far apart or near, of this object or others before it
        let near = s.bool();
        let old = s.chance(1, 3);
        let odd = s.usize(0, faces - 1);
        let mut w = WantMesh { name: format!("big{ob}"), corners: vec![] };
        for k in 0..faces {
            t += "f";
            for c in 0..3 {
                let i = k * 3 + c;
                let at = |total: usize, salt: usize| -> usize {
                    let of = if old || k == odd { total } else { n.min(total) };
                    let first = total - of;
                    if near && k != odd {
                        first + of - 1 - (r(i + salt, 9) + i / 50 % of).min(of - 1)
                    } else {
                        first + r(i + salt, of)
                    }
                };
                let v = at(o.v.len(), 0);
                let tx = if form & 1 == 1 { Some(at(o.vt.len(), 1 << 30)) } else { None };
                let nr = if form & 2 == 2 { Some(at(o.vn.len(), 1 << 31)) } else { None };
                let _ = match (tx, nr) {
                    (None, None) => write!(t, " {}", v + 1),
                    (Some(a), None) => write!(t, " {}/{}", v + 1, a + 1),
                    (None, Some(b)) => write!(t, " {}//{}", v + 1, b + 1),
                    (Some(a), Some(b)) => write!(t, " {}/{}/{}", v + 1, a + 1, b + 1),
                };
                w.corners.push((v, tx, nr));
            }
            t += "\n";
        }
        o.meshes.push(w);
    }
    o.text = t.into_bytes();
    ctx.describe(|| format!("{} bytes, objects of {:?} faces", o.text.len(), o.meshes.iter().map(|m| m.corners.len() / 3).collect::<Vec<_>>()));
    c16_check(&o, ctx)
}
fn c16_check(o: &ObjText, ctx: &mut Ctx) -> Res {
    ctx.nontrivial_if(o.meshes.iter().map(|m| m.corners.len() / 3).sum::<usize>() >= 2);
    ctx.label_if(o.meshes.len() > 1, "several meshes");
    let mut got = TMFMesh::read_from_obj(&mut &o.text[..]).map_err(|e| format!("importing well-formed text failed: {e}"))?;
    if got.len() == o.meshes.len() + 1 && got.last().unwrap().0.get_vertex_triangles().map_or(0, |t| t.len()) == 0 {
        ctx.label("ends with an object without faces");
        got.pop();
    }
    if got.len() != o.meshes.len() {
        return Err(format!("{} meshes instead of {}", got.len(), o.meshes.len()));
    }
    for (k, (w, (g, n))) in o.meshes.iter().zip(&got).enumerate() {
        let e = |e: String| format!("mesh {k}: {e}");
        if w.name != *n {
            return Err(e(format!("it is named {n:?} instead of {:?}", w.name)));
        }
        let vb = g.get_vertex_buffer().ok_or_else(|| e("it has no vertex buffer".to_owned()))?;
        if vb.len() != w.corners.len() {
            return Err(e(format!("it has {} corners instead of {}", vb.len(), w.corners.len())));
        }
        let has_t = w.corners.iter().any(|c| c.1.is_some());
        let has_n = w.corners.iter().any(|c| c.2.is_some());
        ctx.label_if(has_t && w.corners.iter().any(|c| c.1.is_none()), "mixed corner forms");
        if has_t != g.get_uvs().is_some() || has_t != g.get_uv_triangles().is_some() {
            return Err(e(format!("faces with UVs: {has_t}, imported: {}", g.get_uvs().is_some())));
        }
        if has_n != g.get_normals().is_some() || has_n != g.get_normal_triangles().is_some() {
            return Err(e(format!("faces with normals: {has_n}, imported: {}", g.get_normals().is_some())));
        }
        let tt = g.get_uv_triangles().unwrap_or(&[]);
        let nt = g.get_normal_triangles().unwrap_or(&[]);
        if (has_t && tt.len() != vb.len()) || (has_n && nt.len() != vb.len()) {
            return Err(e("its index arrays differ in length".to_owned()));
        }
        for (i, (c, v)) in w.corners.iter().zip(vb.iter()).enumerate() {
            let a = o.v[c.0];
            if !(eq(a.0, v.0) && eq(a.1, v.1) && eq(a.2, v.2)) {
                return Err(e(format!("corner {i} has the vertex {v:?} instead of {a:?}")));
            }
            if let Some(t) = c.1 {
                let (a, b) = (o.vt[t], g.get_uvs().unwrap().get(tt[i] as usize));
                if !b.map_or(false, |b| eq(a.0, b.0) && eq(a.1, b.1)) {
                    return Err(e(format!("corner {i} has the UV {b:?} instead of {a:?}")));
                }
            }
            if let Some(t) = c.2 {
                let (a, b) = (o.vn[t], g.get_normals().unwrap().get(nt[i] as usize));
                if !b.map_or(false, |b| eq(a.0, b.0) && eq(a.1, b.1) && eq(a.2, b.2)) {
                    return Err(e(format!("corner {i} has the normal {b:?} instead of {a:?}")));
                }
            }
        }
    }
    Ok(())
}
fn insert_line(o: &ObjText, at: usize, line: &[u8]) -> Vec<u8> {
    let pos = if at < o.lines.len() { o.lines[at] } else { o.text.len() };
    let mut t = o.text[..pos].to_vec();
    if !t.is_empty() && !t.ends_with(b"\n") {
        t.push(b'\n');
    }
    t.extend_from_slice(line);
    t.push(b'\n');
    t.extend_from_slice(&o.text[pos..]);
    t
}
pub fn c16_malformed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = gen_text(s);
    let bad_num = s.pick(&["a", "1,5", "--1", "0x10", "1e", "e5", "1.2.3", "", "1f", "1 0", "-", "+", "½", "1_000"]);
    let bad_idx = s.pick(&["0", "-1", "a", "1.5", "", "99999999999999999999", "+", "1e0", "0x1", "-2", "00", "٣"]);
    let good = "1";
    let line = match s.draw(12) {
        12 => {
            // More parts than a corner has
            let c = s.pick(&["1/1/1/1", "1/1/1/", "1///1", "1//1/1", "1/1//1", "1/1/1/1/1", "1///"]);
            let mut l = ["1/1/1"; 3];
            l[s.usize(0, 2)] = c;
            format!("f {}", l.join(" "))
        }
        0 => s.pick(&["v", "v 1", "v 1 2", "vn", "vn 1", "vn 1 2", "vt", "f", "f 1", "f 1 1", "f 1/1/1 1/1/1", "f # 1 1 1", "f 1 1 #1"]).to_owned(),
        1 if bad_num != "1 0" && !bad_num.is_empty() => format!("v {bad_num} 2 3"),
        2 if bad_num != "1 0" && !bad_num.is_empty() => format!("v 1 2 {bad_num}"),
        3 if bad_num != "1 0" && !bad_num.is_empty() => format!("vt {bad_num} 1"),
        4 if bad_num != "1 0" && !bad_num.is_empty() => format!("vn 1 {bad_num} 0"),
        5 if !bad_idx.is_empty() => format!("f {bad_idx} {good} {good}"),
        6 => format!("f {good} {good} {}", if bad_idx.is_empty() { "/1" } else { bad_idx }),
        7 if !bad_idx.is_empty() => format!("f {good}/{bad_idx} {good}/{good} {good}/{good}"),
        8 if !bad_idx.is_empty() => format!("f {good}/{good} {good}/{bad_idx} {good}/{good}"),
        9 if !bad_idx.is_empty() => format!("f {good}//{good} {good}//{good} {good}//{bad_idx}"),
        10 if !bad_idx.is_empty() => format!("f {good}/{good}/{bad_idx} {good}/{good}/{good} {good}/{good}/{good}"),
        _ => format!("f /1 {good} {good}"),
    };
    let at = s.usize(0, o.lines.len());
    // Elements the rest of the line can refer to
    let mut t = b"v 1 2 3\nvt 0 0\nvn 0 0 1\n".to_vec();
    let mut raw = line.clone().into_bytes();
    if s.chance(1, 12) {
        // Text in another encoding, where it has to be understood
        raw = s.pick(&["o name", "f 1 1 1", "v 1 2 3", "vt 0.5 0.5", "vn 0 0 1"]).as_bytes().to_vec();
        raw.extend_from_slice(s.pick(&[&b"\xE9"[..], b"\xFF", b"\xC3"]));
    }
    let line = String::from_utf8_lossy(&raw);
    t.extend(insert_line(&o, at, &raw));
    ctx.describe(|| format!("malformed line {line:?} in\n{}", String::from_utf8_lossy(&t)));
    ctx.nontrivial_if(o.meshes.iter().map(|m| m.corners.len() / 3).sum::<usize>() >= 2);
    match TMFMesh::read_from_obj(&mut &t[..]) {
        Err(_) => Ok(()),
        Ok(m) => Err(format!("the malformed line {line:?} was read; {} meshes", m.len())),
    }
}
// ---------------------------------------------------------------------------------------------------- C17
fn c17_check(t: &[u8], ctx: &mut Ctx) -> Res {
    ctx.describe(|| String::from_utf8_lossy(t).into_owned());
    ctx.nontrivial_if(t.windows(2).any(|w| w == b"f " || w == b"f\t"));
    let res = no_panic("importing", || TMFMesh::read_from_obj(&mut &t[..]))?;
    let Ok(meshes) = res else {
        ctx.label("error");
        return Ok(());
    };
    ctx.label("imported");
    for (k, (m, n)) in meshes.iter().enumerate() {
        let ok = no_panic("inspecting a mesh imported", || {
            let v = m.verify();
            let _ = format!("{v:?}");
            let _ = (m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer());
            v.is_ok()
        })?;
        let fine = |x: F| x.is_finite() && (x.abs() as f64) < 1e15 && (x == 0.0 || (x.abs() as f64) > 1e-15);
        let plain = m.get_vertices().unwrap_or(&[]).iter().all(|p| fine(p.0) && fine(p.1) && fine(p.2));
        if ok && plain && n.len() < 65536 {
            ctx.label_if(m.get_vertex_triangles().map_or(0, |t| t.len()) > 0, "saved");
            let mut out = Vec::new();
            no_panic("saving a mesh imported", || m.write_tmf_one(&mut out, &TMFPrecisionInfo::default(), n.as_str()))?.map_err(|e| format!("mesh {k} verifies, but can't be saved: {e}"))?;
            let l = read(&out)?;
            let (a, b) = (Md::from_tmf::<&str>(m, &[]), Md::from_tmf::<&str>(&l[0].0, &[]));
            same_structure(&a, &b).map_err(|e| format!("mesh {k} was saved and loaded: {e}"))?;
        }
    }
    Ok(())
}
fn gen_token(s: &mut Src) -> String {
    match s.draw(5) {
        0 => s.pick(&["v", "vn", "vt", "f", "o", "#", "s", "g", "usemtl", "", "/", "//", "f f", "\0", "é"]).to_owned(),
        1 => s.pick(&["0", "1", "2", "3", "4", "7", "-1", "4294967295", "4294967296", "4294967297", "18446744073709551616", "65536", "2147483648"]).to_owned(),
        2 => s.pick(&["1e39", "-1e39", "nan", "inf", "-inf", "1e-50", "0.5", "1e308", "-0", "infinity", "NaN"]).to_owned(),
        3 => {
            let (a, b, c) = (s.draw(6), s.draw(6), s.draw(6));
            s.pick(&[format!("{a}/{b}/{c}"), format!("{a}//{c}"), format!("{a}/{b}"), format!("{a}/{b}/{c}/1"), format!("/{a}"), format!("{a}/")])
        }
        _ => gen_number(s),
    }
}
fn c17_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t: Vec<u8> = if s.chance(1, 5) {
        let n = s.usize(0, 200);
        let ascii = s.bool();
        s.array(n, |s, _| if ascii { s.pick(b"vntfo#/ \n\r\t0123456789.-e") } else { s.draw(255) as u8 })
    } else {
        let lines = s.usize(0, 14);
        let mut t = String::new();
        for _ in 0..lines {
            match s.draw(7) {
                0 | 1 => t += &format!("v {} {} {}", gen_number(s), gen_number(s), gen_number(s)),
                2 | 3 => {
                    t += "f";
                    for _ in 0..s.range(2, 8) {
                        t += " ";
                        let deep = s.chance(1, 6);
                        t += &if deep { gen_token(s) } else { s.range(1, 8).to_string() };
                    }
                }
                4 => t += &format!("o {}", gen_line_name(s)),
                5 => t += &format!("vt {} {}", gen_number(s), gen_number(s)),
                6 => t += &format!("vn {} {} {}", gen_number(s), gen_number(s), gen_number(s)),
                _ => {
                    for _ in 0..s.draw(6) {
                        t += &gen_token(s);
                        t += space(s);
                    }
                }
            }
            t += "\n";
        }
        t.into_bytes()
    };
    c17_check(&t, ctx)
}
fn mutate_text(s: &mut Src, t: &mut Vec<u8>) {
    let text = String::from_utf8_lossy(t).into_owned();
    let mut lines: Vec<Vec<String>> = text.split('\n').map(|l| l.split(' ').map(|w| w.to_owned()).collect()).collect();
    for _ in 0..s.range(1, 4) {
        let l = s.usize(0, lines.len() - 1);
        let line = &mut lines[l];
        let w = s.usize(0, line.len().saturating_sub(1));
        match s.draw(7) {
            0 | 1 if !line.is_empty() => line[w] = gen_token(s),
            2 if !line.is_empty() => {
                line.remove(w);
            }
            3 => line.insert(w, gen_token(s)),
            4 if !line.is_empty() => {
                let c = line[w].clone();
                line.insert(w, c);
            }
            5 => {
                let c = lines[l].clone();
                lines.insert(l, c);
            }
            6 if lines.len() > 1 => {
                lines.remove(l);
            }
            _ => {
                let m = s.usize(0, lines.len() - 1);
                lines.swap(l, m);
            }
        }
    }
    *t = lines.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n").into_bytes();
    if s.chance(1, 8) && !t.is_empty() {
        let at = s.usize(0, t.len() - 1);
        t[at] = s.draw(255) as u8;
    }
}
pub fn c17_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = if s.chance(1, 4) { export(&gen_obj_meshes(s, 8, 3))? } else { gen_text(s).text };
    mutate_text(s, &mut t);
    c17_check(&t, ctx)
}
fn c17_unknown(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = gen_text(s);
    let mut t = o.text.clone();
    if s.chance(1, 3) {
        mutate_text(s, &mut t);
    }
    let mut more: Vec<u8> = Vec::new();
    let mut added = Vec::new();
    for line in t.split_inclusive(|b| *b == b'\n') {
        if s.chance(1, 4) {
            let f = match s.draw(3) {
                0 => format!("{} 1 2 3", s.pick(&["l", "p", "vp", "vv", "V", "F", "fx", "vnx", "vtx", "ox", "cstype", "trace_obj", "0", "1/1/1", "-", "é"])).into_bytes(),
                _ => filler(s),
            };
            added.push(String::from_utf8_lossy(&f).into_owned());
            more.extend_from_slice(&f);
            more.push(b'\n');
        }
        more.extend_from_slice(line);
    }
    ctx.describe(|| format!("{}\nwith the lines {added:?}", String::from_utf8_lossy(&t)));
    ctx.nontrivial_if(!added.is_empty() && !o.meshes.is_empty());
    let a = no_panic("importing", || TMFMesh::read_from_obj(&mut &t[..]))?;
    let b = no_panic("importing", || TMFMesh::read_from_obj(&mut &more[..]))?;
    match (a, b) {
        (Ok(a), Ok(b)) => same_meshes(&a, &b).map_err(|e| format!("with lines that are not understood added: {e}")),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("with lines that are not understood added, importing fails: {e}")),
        (Err(_), Ok(_)) => Err("with lines that are not understood added, a text that is refused is imported".to_owned()),
    }
}
// ---------------------------------------------------------------------------------------------------- C18
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn sub(a: V3, b: V3) -> [f64; 3] {
    [a.0 as f64 - b.0 as f64, a.1 as f64 - b.1 as f64, a.2 as f64 - b.2 as f64]
}
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// A strictly convex polygon in order.
fn gen_polygon(s: &mut Src, n: usize) -> Vec<V3> {
    // Of many corners, all are about as far apart
    let gaps: Vec<f64> = s.array(n, |s, _| 0.06 + if n > 20 { s.unit() * 0.01 } else { s.unit() * if s.chance(1, 4) { 2.0 } else { 0.4 } });
    let total: f64 = gaps.iter().sum();
    let (a, b) = (s.pick(&[1.0, 1.0, 3.0, 0.4]), s.pick(&[1.0, 1.0, 2.0, 0.5]));
    let scale = s.pick(&[1.0, 10.0, 0.01, 1000.0]);
    let c = (s.signed() * scale * 3.0, s.signed() * scale * 3.0, s.signed() * scale * 3.0);
    // Two orthogonal unit vectors
    let flat = s.draw(3);
    let (u, v) = match flat {
        0 => ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        1 => ([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]),
        _ => {
            let z = s.signed();
            let t = s.unit() * std::f64::consts::TAU;
            let r = (1.0 - z * z).max(0.0).sqrt();
            let w = [r * t.cos(), r * t.sin(), z];
            let h = if w[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
            let u = cross(w, h);
            let l = dot(u, u).sqrt();
            let u = [u[0] / l, u[1] / l, u[2] / l];
            (u, cross(w, u))
        }
    };
    let back = s.bool();
    let start = s.unit() * std::f64::consts::TAU;
    let mut at = start;
    let mut p = Vec::new();
    for g in gaps {
        let (x, y) = (at.cos() * a * scale, at.sin() * b * scale);
        p.push((f(c.0 + u[0] * x + v[0] * y), f(c.1 + u[1] * x + v[1] * y), f(c.2 + u[2] * x + v[2] * y)));
        at += g / total * std::f64::consts::TAU;
    }
    if back {
        p.reverse();
    }
    p
}
fn c18_polygons(s: &mut Src, ctx: &mut Ctx) -> Res {
    let faces = s.usize(1, 4);
    let sizes: Vec<usize> = (0..faces).map(|_| if s.chance(1, 4) { 3 } else { s.usize(4, 20) }).collect();
    c18_check(s, sizes, ctx)
}
fn c18_quads(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 3);
    let sizes = (0..n).map(|_| s.usize(4, 5)).collect();
    c18_check(s, sizes, ctx)
}
/// Some corners are on the line between their neighbours.
fn c18_flat(s: &mut Src, ctx: &mut Ctx) -> Res {
    let faces = s.usize(1, 3);
    let sizes: Vec<usize> = (0..faces).map(|_| if s.chance(1, 6) { 3 } else { s.usize(4, 14) }).collect();
    ctx.label("flat corners");
    c18_polys(s, sizes, true, ctx)
}
/// A convex polygon of *n* corners, of which all but 3 or 4 are on the sides.
fn gen_flat(s: &mut Src, n: usize) -> Vec<V3> {
    let corners = if n == 3 || s.bool() { 3 } else { 4 };
    let p = if s.bool() {
        // Where all numbers are exact
        let (a, b) = (s.pick(&[1.0, 2.0, 8.0, 0.25]), s.pick(&[1.0, 4.0, 3.0, 0.5]));
        let o = (s.draw(8) as f64 - 4.0, s.draw(8) as f64 - 4.0, s.draw(8) as f64 - 4.0);
        let q = [(0.0, 0.0), (a, 0.0), (a, b), (0.0, b)];
        let plane = s.draw(2);
        let mut p: Vec<V3> = q[..corners]
            .iter()
            .map(|(x, y)| match plane {
                0 => (f(o.0 + x), f(o.1 + y), f(o.2)),
                1 => (f(o.0), f(o.1 + x), f(o.2 + y)),
                _ => (f(o.0 + x), f(o.1 + y), f(o.2 + x + y)),
            })
            .collect();
        if s.bool() {
            p.reverse();
        }
        p
    } else {
        gen_polygon(s, corners)
    };
    // Different parts of one side or several
    let one = s.chance(1, 3);
    let side = s.usize(0, corners - 1);
    let mut on: Vec<Vec<u64>> = vec![vec![]; corners];
    let mut left = n - corners;
    while left > 0 {
        let k = if one { side } else { s.usize(0, corners - 1) };
        let mut part = s.range(1, 15);
        while on[k].contains(&part) {
            part = part % 31 + 1;
        }
        on[k].push(part);
        left -= 1;
    }
    let mut r = Vec::new();
    for k in 0..corners {
        let (a, b) = (p[k], p[(k + 1) % corners]);
        r.push(a);
        on[k].sort();
        for part in &on[k] {
            let t = *part as f64 / 32.0;
            let m = |x: F, y: F| f(x as f64 + (y as f64 - x as f64) * t);
            r.push((m(a.0, b.0), m(a.1, b.1), m(a.2, b.2)));
        }
    }
    r
}
/// Polygons of many corners
fn c18_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 2);
    let sizes = (0..n).map(|_| if s.bool() { s.usize(21, 100) } else { s.pick(&[31usize, 32, 33, 34, 63, 64, 65, 66, 99, 100]) }).collect();
    c18_check(s, sizes, ctx)
}
fn c18_check(s: &mut Src, sizes: Vec<usize>, ctx: &mut Ctx) -> Res {
    c18_polys(s, sizes, false, ctx)
}
fn c18_polys(s: &mut Src, sizes: Vec<usize>, flat: bool, ctx: &mut Ctx) -> Res {
    use std::fmt::Write;
    let mut text = String::new();
    let mut polys: Vec<Vec<V3>> = Vec::new();
    let mut first = Vec::new();
    let mut total = 0;
    // Every corner has a vertex, UV and normal of its own; they are numbered in different orders
    for n in &sizes {
        let p = if flat { gen_flat(s, *n) } else { gen_polygon(s, *n) };
        let rot = s.usize(0, n - 1);
        let p: Vec<V3> = p[rot..].iter().chain(&p[..rot]).copied().collect();
        first.push(total);
        total += n;
        polys.push(p);
    }
    let form = s.draw(3);
    let (with_t, with_n) = (form & 1 == 1, form & 2 == 2);
    for p in polys.iter().flatten() {
        let _ = writeln!(text, "v {} {} {}", p.0, p.1, p.2);
    }
    let uv = |i: usize| -> V2 { ((i as F) / 4096.0, 1.0 - (i as F) / 512.0) };
    let nrm = |i: usize| -> V3 { (i as F, -(i as F), 0.5) };
    // The k-th corner uses the UV total-1-k
    for i in 0..total {
        if with_t {
            let _ = writeln!(text, "vt {} {}", uv(i).0, uv(i).1);
        }
        if with_n {
            let _ = writeln!(text, "vn {} {} {}", nrm(i).0, nrm(i).1, nrm(i).2);
        }
    }
    let mut want_t = vec![0; total];
    let mut want_n = vec![0; total];
    for (k, n) in sizes.iter().enumerate() {
        text += "f";
        for i in 0..*n {
            let g = first[k] + i;
            want_t[g] = total - 1 - g;
            want_n[g] = (g + 1) % total;
            let _ = match (with_t, with_n) {
                (false, false) => write!(text, " {}", g + 1),
                (true, false) => write!(text, " {}/{}", g + 1, want_t[g] + 1),
                (false, true) => write!(text, " {}//{}", g + 1, want_n[g] + 1),
                (true, true) => write!(text, " {}/{}/{}", g + 1, want_t[g] + 1, want_n[g] + 1),
            };
        }
        text += "\n";
    }
    ctx.describe(|| text.clone());
    let poly = sizes.iter().any(|n| *n > 3);
    ctx.nontrivial_if(poly);
    ctx.count("polygons", sizes.iter().filter(|n| **n > 3).count() as u64);
    let res = no_panic("importing", || TMFMesh::read_from_obj(&mut text.as_bytes()))?;
    if cfg!(not(feature = "most")) {
        return match res {
            Err(_) if poly => Ok(()),
            Ok(_) if !poly => Ok(()),
            Ok(_) => Err("a face of more than 3 corners was imported without triangulation".to_owned()),
            Err(e) => Err(format!("triangles were refused: {e}")),
        };
    }
    let m = res.map_err(|e| format!("importing failed: {e}"))?;
    if m.len() != 1 {
        return Err(format!("{} meshes", m.len()));
    }
    let m = &m[0].0;
    let vt = m.get_vertex_triangles().ok_or("no triangles")?;
    let want: usize = sizes.iter().map(|n| 3 * (n - 2)).sum();
    if vt.len() != want {
        return Err(format!("{} corners instead of {want}", vt.len()));
    }
    let vb = m.get_vertex_buffer().ok_or("no vertex buffer")?;
    let tb = if with_t { Some(m.get_uv_buffer().ok_or("no UV buffer")?) } else { None };
    let nb = if with_n { Some(m.get_normal_buffer().ok_or("no normal buffer")?) } else { None };
    if tb.as_ref().map_or(false, |b| b.len() != want) || nb.as_ref().map_or(false, |b| b.len() != want) {
        return Err("the index arrays differ in length".to_owned());
    }
    let mut at = 0;
    for (k, n) in sizes.iter().enumerate() {
        let p = &polys[k];
        let e = |m: String| Err(format!("face {k} of {n} corners: {m}"));
        // Which corner of the polygon each corner of a triangle is
        let mut ids = Vec::new();
        for c in at..at + 3 * (n - 2) {
            let Some(i) = (0..*n).find(|i| p[*i] == vb[c]) else { return e(format!("a triangle has the corner {:?}, which is not one of the face", vb[c])) };
            let g = first[k] + i;
            if let Some(b) = &tb {
                if b[c] != uv(want_t[g]) {
                    return e(format!("corner {i} has the UV {:?} instead of {:?}", b[c], uv(want_t[g])));
                }
            }
            if let Some(b) = &nb {
                if b[c] != nrm(want_n[g]) {
                    return e(format!("corner {i} has the normal {:?} instead of {:?}", b[c], nrm(want_n[g])));
                }
            }
            ids.push(i);
        }
        at += 3 * (n - 2);
        if *n == 3 {
            if ids != [0, 1, 2] {
                return e(format!("its corners are in the order {ids:?}"));
            }
            continue;
        }
        // Area vector of the polygon
        let mut area = [0.0; 3];
        for i in 1..n - 1 {
            let c = cross(sub(p[i], p[0]), sub(p[i + 1], p[0]));
            (0..3).for_each(|x| area[x] += c[x]);
        }
        let whole = dot(area, area).sqrt();
        // What rounding does to corners on a line depends on the length of that line, and on how far away it is
        let far = p.iter().flat_map(|q| [q.0, q.1, q.2]).fold(0.0, |m: f64, x| m.max((x as f64).abs()));
        let long = p.iter().map(|q| dot(sub(*q, p[0]), sub(*q, p[0]))).fold(0.0, f64::max).sqrt();
        let off = 1e-6 * long * (long + far);
        let normal = [area[0] / whole, area[1] / whole, area[2] / whole];
        let mut sum = 0.0;
        let mut sides = vec![0; *n];
        for t in ids.chunks_exact(3) {
            let c = cross(sub(p[t[1]], p[t[0]]), sub(p[t[2]], p[t[0]]));
            let a = dot(c, normal);
            if a <= 0.0 && !(flat && a > -off) {
                return e(format!("the triangle of corners {t:?} is turned around or empty"));
            }
            sum += a;
            for (x, y) in [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])] {
                if (x + 1) % n == y {
                    sides[x] += 1;
                }
                if (y + 1) % n == x {
                    return e(format!("the triangle of corners {t:?} uses a side backwards"));
                }
            }
        }
        if sides.iter().any(|c| *c != 1) {
            return e(format!("its sides are used {sides:?} times by the triangles {ids:?}"));
        }
        if (sum - whole).abs() > 2e-3 * whole {
            return e(format!("its triangles {ids:?} cover {sum} of an area of {whole}"));
        }
    }
    Ok(())
}
